//! C09 (histories over shared handles) and C10 (the NaN table).
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, I, U};
use rmath::bigint::float::Accuracy;
use rmath::bigint::{BigInt, Float, Nat, Rat};

// ------------------------------------------------------------------ C09, naturals
struct NatPool { h: Vec<(Nat, usize)>, cells: Vec<U> }
impl NatPool {
    fn check(&self, after: &str) -> R {
        for (i, (n, cell)) in self.h.iter().enumerate() { eq_nat(&format!("after {}: handle {} (value {})", after, i, cell), n, &self.cells[*cell])?; }
        Ok(())
    }
    fn push(&mut self, n: Nat, v: U) { self.cells.push(v); self.h.push((n, self.cells.len() - 1)); }
}
const NOPS: usize = 15;
/// applicable? the model result of op on (a, b, w, k)
fn nat_model(op: usize, a: &U, b: &U, w: u32, k: usize) -> Option<U> {
    let big = a.len() + b.len() > 40;
    let wu = ora::u(w as u128);
    Some(match op {
        0 => ora::add(a, b),
        1 => ora::absdiff(a, b),
        2 => if big { return None } else { ora::mul(a, b) },
        3 => if b.is_empty() || big { return None } else { ora::div(a, b) },
        4 => if b.is_empty() || big { return None } else { ora::rem(a, b) },
        5 => ora::bitop(a, b, |x, y| x & y),
        6 => ora::bitop(a, b, |x, y| x | y),
        7 => ora::bitop(a, b, |x, y| x ^ y),
        8 => ora::bitop(a, b, |x, y| x & !y),
        9 => if a.len() > 40 { return None } else { ora::shl(a, k) },
        10 => ora::shr(a, k),
        11 => ora::add(a, &wu),
        12 => ora::absdiff(a, &wu),
        13 => if a.len() > 40 { return None } else { ora::mul(a, &wu) },
        _ => if w == 0 { return None } else { if k % 2 == 0 { ora::div(a, &wu) } else { ora::rem(a, &wu) } },
    })
}
fn nat_value(op: usize, x: Nat, y: Nat, w: u32, k: usize) -> Nat {
    match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x & y, 6 => x | y, 7 => x ^ y, 8 => x.and_not(y), 9 => x << k, 10 => x >> k, 11 => x + w, 12 => x - w, 13 => x * w, _ => if k % 2 == 0 { x / w } else { x % w } }
}
fn nat_inplace(op: usize, x: &mut Nat, y: Nat, w: u32, k: usize) {
    match op { 0 => *x += y, 1 => if k % 2 == 0 { *x -= y } else { x.sub_assign_with_sign(y); }, 2 => *x *= y, 3 => *x /= y, 4 => *x %= y, 5 => *x &= y, 6 => *x |= y, 7 => *x ^= y, 8 => x.and_not_assign(y), 9 => *x <<= k, 10 => *x >>= k, 11 => *x += w, 12 => *x -= w, 13 => *x *= w, _ => if k % 2 == 0 { *x /= w } else { *x %= w } }
}
const NNAME: [&str; NOPS] = ["+", "-", "*", "/", "%", "&", "|", "^", "and_not", "<<", ">>", "+u32", "-u32", "*u32", "/%u32"];

fn c09_nat(c: &mut Ctx) -> R {
    let lm = c.lim(18, 140);
    let steps = 3 + c.size(lm);
    let mut p = NatPool { h: vec![], cells: vec![] };
    let (mut shared_write, mut deep) = (false, false);
    for s in 0..steps {
        let kind = if p.h.is_empty() { 0 } else { c.weighted(&[2, 4, 2, 5, 7, 2, 3, 1]) };
        match kind {
            0 => { let v = gen_u(c, 5); c.note(|| format!("{}: #{} = {}", s, p.h.len(), sh(&v))); p.push(nat(&v), v); }
            1 => {
                let i = c.below(p.h.len());
                if p.h.len() > 1 && c.chance(1, 5) {
                    let j = c.below(p.h.len());
                    if i != j { c.note(|| format!("{}: #{} becomes a clone of #{}", s, j, i)); let x = p.h[i].0.clone(); let cell = p.h[i].1; p.h[j].0.clone_from(&x); p.h[j].1 = cell; }
                } else { c.note(|| format!("{}: #{} = clone of #{}", s, p.h.len(), i)); let (n, cell) = (p.h[i].0.clone(), p.h[i].1); p.h.push((n, cell)); }
            }
            2 => { let i = c.below(p.h.len()); c.note(|| format!("{}: #{} = deep clone of #{}", s, p.h.len(), i)); let v = p.cells[p.h[i].1].clone(); let n = p.h[i].0.deep_clone(); p.push(n, v); deep = true; }
            3 | 4 | 5 => {
                let (i, j, op) = (c.below(p.h.len()), c.below(p.h.len()), c.below(NOPS));
                let (w, k) = (c.limb(), { let l = ora::bits(&p.cells[p.h[i].1]); gen_shift(c, l) % 200 });
                let (a, b) = (p.cells[p.h[i].1].clone(), p.cells[p.h[j].1].clone());
                let r = match nat_model(op, &a, &b, w, k) { Some(r) => r, None => continue };
                match kind {
                    3 => {
                        c.note(|| format!("{}: #{} = #{} {} #{} (w={} k={})", s, p.h.len(), i, NNAME[op], j, w, k));
                        let (x, y) = (p.h[i].0.clone(), p.h[j].0.clone());
                        let n = no_panic(NNAME[op], || nat_value(op, x, y, w, k))?;
                        p.push(n, r);
                    }
                    4 => {
                        let others = p.h.iter().enumerate().filter(|(q, h)| *q != i && h.1 == p.h[i].1).count();
                        c.note(|| format!("{}: #{} {}= #{} (w={} k={}; {} other handles share it)", s, i, NNAME[op], j, w, k, others));
                        if others > 0 { shared_write = true; }
                        if p.h[i].1 == p.h[j].1 { c.label("operand shares storage with target"); }
                        let y = p.h[j].0.clone();
                        let cell = p.h[i].1;
                        let x = &mut p.h[i].0;
                        no_panic(NNAME[op], || nat_inplace(op, x, y, w, k))?;
                        p.cells[cell] = r;
                    }
                    _ => { // the operands' own handles are consumed
                        c.note(|| format!("{}: #{} = #{} {} #{} consuming #{}", s, p.h.len() - 1, i, NNAME[op], j, i));
                        let y = p.h[j].0.clone();
                        let x = p.h.swap_remove(i).0;
                        let n = no_panic(NNAME[op], || nat_value(op, x, y, w, k))?;
                        p.push(n, r);
                    }
                }
            }
            6 => { // queries change nothing
                let (i, j) = (c.below(p.h.len()), c.below(p.h.len()));
                let (q, ev) = (c.below(12), c.below(6) as u32);
                let (a, b) = (p.cells[p.h[i].1].clone(), p.cells[p.h[j].1].clone());
                c.note(|| format!("{}: query {} of #{} and #{}", s, q, i, j));
                let (x, y) = (&p.h[i].0, &p.h[j].0);
                let n = no_panic("query", || -> Result<Option<(Nat, U)>, String> { Ok(match q {
                    0 => { let _ = x == y; let _ = x < y; None }
                    1 => Some((x.sqr(), ora::mul(&a, &a))),
                    2 if a.len() < 20 => Some((x.sqrt(), ora::isqrt(&a))),
                    3 => Some((x.mul_karatsuba(y), ora::mul(&a, &b))),
                    4 if a.len() < 6 && b.len() < 6 => { let w = ora::u(ev as u128); let e = Nat::from(ev); let r = x.pow_mod(e.clone(), y.clone()); eq_nat("exponent", &e, &w)?; let v = ora::pow(&a, ev as u64); Some((r, if b.is_empty() { v } else { ora::rem(&v, &b) })) }
                    5 if a.len() < 6 && b.len() < 6 => { let w = ora::u(ev as u128); let e = Nat::from(ev); let r = x.exp(&e, y); eq_nat("exponent", &e, &w)?; let v = ora::pow(&a, ev as u64); Some((r, if b.is_empty() { v } else { ora::rem(&v, &b) })) }
                    6 if a.len() < 10 => Some((x.pow(Nat::from(ev)), ora::pow(&a, ev as u64))),
                    7 => { let (r, ge) = x.sub_with_sign(y.clone()); ok(ge == (ora::cmp(&a, &b) != std::cmp::Ordering::Less), || "sub_with_sign".into())?; Some((r, ora::absdiff(&a, &b))) }
                    8 => { let _ = x.to_le_bytes(); let _ = x.to_be_bytes(); let _ = format!("{:x} {:?} {:b}", x, x, x); None }
                    9 => { let b = BigInt::from(x.clone()); let mut d = b; d += BigInt::from(1u32); let mut v = words(x); v.clear(); None }
                    10 if !a.is_empty() => { let mut s = Src::uniform(7); let r = x.random(&mut s); let v = ora::trim(words(&r)); ok(ora::cmp(&v, &a) == std::cmp::Ordering::Less, || "random out of range".into())?; Some((r, v)) }
                    11 if a.len() == 1 => { let mut s = Src::uniform(7); let r = x.probably_prime_test(3, &mut s); ok(r == ora::is_prime64(a[0] as u64) || !ora::is_prime64(a[0] as u64), || "prime test".into())?; None }
                    _ => { let _ = x.bits_len() + x.trailling_zeros(); let _ = x.is_set_bit(3); let _ = !x.clone(); None }
                }) })??;
                // the result is a value of its own
                if let Some((n, v)) = n { eq_nat("result", &n, &v)?; if v.len() < 60 { p.push(n, v); } }
            }
            _ => { if p.h.len() > 1 { let i = c.below(p.h.len()); c.note(|| format!("{}: drop #{} (last handle takes its number)", s, i)); p.h.swap_remove(i); } }
        }
        p.check(&format!("step {}", s))?;
        if p.h.len() > 14 { p.h.truncate(14); }
    }
    if shared_write { c.nontrivial(); c.label("in-place write to a shared value"); }
    if deep { c.label("deep clone"); }
    Ok(())
}

// ------------------------------------------------------------------ C09, integers
struct IntH { b: BigInt, cell: usize, v: I, live: bool }
fn int_model(op: usize, a: &I, b: &I, k: usize) -> Option<I> {
    let big = a.m.len() + b.m.len() > 36;
    Some(match op {
        0 => a.add(b), 1 => a.sub(b),
        2 => if big { return None } else { a.mul(b) },
        3 => if b.is_zero() || big { return None } else { a.quo(b) },
        4 => if b.is_zero() || big { return None } else { a.rem(b) },
        5 => a.bitop(b, |x, y| x & y), 6 => a.bitop(b, |x, y| x | y), 7 => a.bitop(b, |x, y| x ^ y), 8 => a.bitop(b, |x, y| x & !y),
        9 => if a.m.len() > 40 { return None } else { a.shl(k) },
        10 => a.shr_floor(k),
        11 => if b.is_zero() || big { return None } else { a.divf(b).1 },
        _ => if b.is_zero() || big { return None } else { a.divf(b).0 },
    })
}
const INAME: [&str; 13] = ["+", "-", "*", "/", "%", "&", "|", "^", "and_not", "<<", ">>", "rem_euclid", "div_euclid"];
fn int_value(op: usize, x: BigInt, y: BigInt, k: usize) -> BigInt {
    match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x & y, 6 => x | y, 7 => x ^ y, 8 => x.and_not(y), 9 => x << k, 10 => x >> k, 11 => x.rem_euclid(y), _ => x.div_euclid(y) }
}
fn int_inplace(op: usize, x: &mut BigInt, y: BigInt, k: usize) {
    match op { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, 3 => *x /= y, 4 => *x %= y, 5 => *x &= y, 6 => *x |= y, 7 => *x ^= y, 8 => x.and_not_assign(y), 9 => *x <<= k, 10 => *x >>= k, 11 => x.rem_euclid_assign(y), _ => x.div_euclid_assign(y) }
}
fn c09_int(c: &mut Ctx) -> R {
    let lm = c.lim(18, 140);
    let steps = 3 + c.size(lm);
    let mut h: Vec<IntH> = Vec::new();
    let mut cells = 0usize;
    let mut inter = false;
    for s in 0..steps {
        let live: Vec<usize> = (0..h.len()).filter(|&i| h[i].live).collect();
        let kind = if live.is_empty() { 0 } else { c.weighted(&[2, 4, 3, 5, 7, 2, 3]) };
        match kind {
            0 => { let v = gen_i(c, 4); c.note(|| format!("{}: #{} = {}", s, h.len(), v.hex())); h.push(IntH { b: big(&v), cell: cells, v, live: true }); cells += 1; }
            1 if live.len() > 1 && c.chance(1, 5) => { let (i, j) = (live[c.below(live.len())], live[c.below(live.len())]); if i != j { c.note(|| format!("{}: #{} becomes a clone of #{}", s, j, i)); let x = h[i].b.clone(); h[j].b.clone_from(&x); h[j].cell = h[i].cell; h[j].v = h[i].v.clone(); } }
            1 => { let i = live[c.below(live.len())]; c.note(|| format!("{}: #{} = clone of #{}", s, h.len(), i)); let n = IntH { b: h[i].b.clone(), cell: h[i].cell, v: h[i].v.clone(), live: true }; h.push(n); }
            2 => { let i = live[c.below(live.len())]; c.note(|| format!("{}: #{} = deep clone of #{}", s, h.len(), i)); let n = IntH { b: h[i].b.deep_clone(), cell: cells, v: h[i].v.clone(), live: true }; cells += 1; h.push(n); }
            3 | 4 => {
                let (i, j) = (live[c.below(live.len())], live[c.below(live.len())]);
                let op = c.below(13);
                let k = { let l = ora::bits(&h[i].v.m); gen_shift(c, l) % 200 };
                let (a, b) = (h[i].v.clone(), h[j].v.clone());
                let r = match int_model(op, &a, &b, k) { Some(r) => r, None => continue };
                if kind == 3 {
                    c.note(|| format!("{}: #{} = #{} {} #{} (k={})", s, h.len(), i, INAME[op], j, k));
                    let (x, y) = (h[i].b.clone(), h[j].b.clone());
                    let n = no_panic(INAME[op], || int_value(op, x, y, k))?;
                    h.push(IntH { b: n, cell: cells, v: r, live: true });
                    cells += 1;
                } else {
                    let share = h[i].cell;
                    c.note(|| format!("{}: #{} {}= #{} (k={}){}", s, i, INAME[op], j, k, if i != j && h[j].cell == share { " sharing storage" } else { "" }));
                    if i != j && h[j].cell == share { c.label("operand shares storage with target"); inter = true; }
                    let y = h[j].b.clone();
                    let x = &mut h[i].b;
                    no_panic(INAME[op], || int_inplace(op, x, y, k))?;
                    // what other handles of the same storage now denote is not specified
                    for q in 0..h.len() { if q != i && h[q].cell == share { h[q].live = false; } }
                    h[i].v = r;
                    if h.iter().any(|e| e.live && e.cell != share) { inter = true; }
                }
            }
            5 => { // the sign belongs to the handle
                let i = live[c.below(live.len())];
                let neg = c.chance(1, 2);
                c.note(|| format!("{}: #{} set {}", s, i, if neg { "negative" } else { "natural" }));
                if h[i].cell != usize::MAX && h.iter().enumerate().any(|(q, e)| q != i && e.live && e.cell == h[i].cell) { inter = true; c.label("sign of a shared handle"); }
                if neg { h[i].b.set_negative(); } else { h[i].b.set_natural(); }
                h[i].v = I::new(neg, h[i].v.m.clone());
            }
            _ => {
                let (i, j) = (live[c.below(live.len())], live[c.below(live.len())]);
                let (q, ev) = (c.below(10), c.below(6) as u32);
                c.note(|| format!("{}: query {} of #{} and #{}", s, q, i, j));
                let (x, y, a, b) = (&h[i].b, &h[j].b, h[i].v.clone(), h[j].v.clone());
                let small = a.m.len() < 5 && b.m.len() < 5;
                let n = no_panic("query", || -> Result<Option<(BigInt, I)>, String> { Ok(match q {
                    0 => Some((-x.clone(), a.neg())),
                    1 => Some((x.abs(), I::new(false, a.m.clone()))),
                    2 => Some((!x.clone(), a.neg().sub(&I::from(1)))),
                    3 if small => { let (d, p, r) = x.gcd(y.clone()); drop((p, r)); Some((d, I::new(false, ora::gcd(&a.m, &b.m)))) }
                    4 if small => { let e = BigInt::from(ev); let r = x.exp(&e, y); eq_big("exponent", &e, &I::from(ev as i128))?; let mut v = I::from(1); for _ in 0..ev { v = v.mul(&a); } Some((r, if b.is_zero() { v } else { v.divf(&I::new(false, b.m.clone())).1 })) }
                    5 => Some((x.sqr(), a.mul(&a))),
                    6 if !a.neg && a.m.len() < 10 => Some((x.sqrt(), I::new(false, ora::isqrt(&a.m)))),
                    7 if small && !b.is_zero() => { let _ = x.mod_inverse(y.clone()); None }
                    8 if small && ora::bit(&b.m, 0) && !b.neg => { let _ = x.jacobi(y); None }
                    9 if small && !b.is_zero() => { let r = Rat::from_frac_bigint(x, y).map_err(|e| e.to_string())?; let mut t = r.clone(); t += Rat::from(1u32); None }
                    _ => { let _ = (x == y, x < y, x.to_le_bytes(), x.signnum(), format!("{:x}", x)); None }
                }) })??;
                if let Some((n, v)) = n { eq_big("result", &n, &v)?; h.push(IntH { b: n, cell: cells, v, live: true }); cells += 1; }
            }
        }
        for (i, e) in h.iter().enumerate() { if e.live { eq_big(&format!("after step {}: handle {}", s, i), &e.b, &e.v)?; } }
        while h.len() > 16 { h.remove(0); }
    }
    if inter { c.nontrivial(); }
    Ok(())
}

// ------------------------------------------------------------------ C09, the four types together
enum H { N(Nat), B(BigInt), R(Rat), F(Float) }
/// everything about a float that can be read, including every bit of its mantissa
fn float_state(x: &Float) -> String {
    if x.is_nan() { return "NaN".into(); }
    let mut s = format!("{:?} {:?} prec {} mode {} acc {}", x.is_negative(), x.signnum(), x.get_precision(), crate::p_float::MODES.iter().position(|m| *m == x.get_mode()).unwrap(), match x.get_accuracy() { Accuracy::Below => '-', Accuracy::Exact => '=', Accuracy::Above => '+' });
    if x.is_infinite() == Some(true) { s.push_str(" Inf"); return s; }
    if x.signnum() == Some(0) { return s; }
    let (m, e) = x.mant_exp();
    s.push_str(&format!(" {} bits *2^{} 0x", x.required_min_precision(), e));
    let mut m = m.abs();
    if m.get_precision() < 64 { m.set_precision(64); }
    for _ in 0..24 {
        // the next 64 bits
        let mut t = Float::default();
        t.set_mant_exp(m, 64);
        let top = t.truncate_to_u64().unwrap().0;
        s.push_str(&format!("{:016x}", top));
        t -= Float::from(top);
        if t.signnum() != Some(1) { break; }
        m = t;
    }
    s
}
impl H {
    fn state(&self) -> String { match self { H::N(n) => shn(n), H::B(b) => shb(b), H::R(r) => crate::p_rat::shr(r), H::F(f) => float_state(f) } }
    fn kind(&self) -> usize { match self { H::N(_) => 0, H::B(_) => 1, H::R(_) => 2, H::F(_) => 3 } }
    fn size(&self) -> usize { match self { H::N(n) => words(n).len(), H::B(b) => words(b.as_ref()).len(), H::R(r) => words(r.numerator().as_ref()).len() + words(r.denominator().as_ref()).len(), H::F(f) => f.required_min_precision() / 32 + 1 } }
    fn zero(&self) -> bool { match self { H::N(n) => words(n) == [0], H::B(b) => b.signnum() == Some(0), H::R(r) => r.signnum() == Some(0), H::F(_) => false } }
    fn deep(&self) -> H { match self { H::N(n) => H::N(n.deep_clone()), H::B(b) => H::B(b.deep_clone()), H::R(r) => H::R(r.deep_clone()), H::F(f) => H::F(f.deep_clone()) } }
}
/// the value form, on temporary clones (the handles themselves stay)
fn mix_value(op: usize, a: &H, b: &H, k: usize) -> H {
    match (a, b) {
        (H::N(x), H::N(y)) => H::N(nat_value([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10][op % 11], x.clone(), y.clone(), 0, k)),
        (H::B(x), H::B(y)) => H::B(int_value(op % 13, x.clone(), y.clone(), k)),
        (H::R(x), H::R(y)) => H::R(match op % 4 { 0 => x.clone() + y.clone(), 1 => x.clone() - y.clone(), 2 => x.clone() * y.clone(), _ => x.clone() / y.clone() }),
        (H::F(x), H::F(y)) => H::F(match op % 4 { 0 => x.clone() + y.clone(), 1 => x.clone() - y.clone(), 2 => x.clone() * y.clone(), _ => x.clone() / y.clone() }),
        _ => unreachable!(),
    }
}
fn mix_inplace(op: usize, a: &mut H, b: H, k: usize) {
    match (a, b) {
        (H::N(x), H::N(y)) => nat_inplace([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10][op % 11], x, y, 0, k),
        (H::B(x), H::B(y)) => int_inplace(op % 13, x, y, k),
        (H::R(x), H::R(y)) => match op % 4 { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => *x /= y },
        (H::F(x), H::F(y)) => match op % 4 { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => *x /= y },
        _ => unreachable!(),
    }
}
fn c09_mixed(c: &mut Ctx) -> R {
    let lm = c.lim(18, 120);
    let steps = 4 + c.size(lm);
    // every handle with what it shows
    let mut p: Vec<(H, String)> = Vec::new();
    let (mut written, mut crossed) = (false, false);
    for s in 0..steps {
        let kind = if p.is_empty() { 0 } else { c.weighted(&[2, 6, 3, 6, 2, 3]) };
        let mut out: Vec<H> = Vec::new();
        let mut target: Option<usize> = None;
        match kind {
            0 => {
                let v = gen_i(c, 3);
                c.note(|| format!("{}: #{} = {}", s, p.len(), v.hex()));
                out.push(if c.chance(1, 2) { H::N(nat(&v.m)) } else { H::B(big(&v)) });
            }
            1 => { // a value made from another
                let (i, j, w) = (c.below(p.len()), c.below(p.len()), c.below(6));
                if p[i].0.size() > 20 { continue; }
                c.note(|| format!("{}: #{} = conversion {} of #{} (and #{})", s, p.len(), w, i, j));
                let (x, y) = (&p[i].0, &p[j].0);
                let (xz, yz) = (x.zero(), y.zero());
                let h = no_panic("conversion", || match (x, y) {
                    (H::N(n), _) => match w { 0 => H::B(BigInt::from(n.clone())), 1 => H::R(Rat::from(n.clone())), 2 => H::F(Float::from(n.clone())), 3 => H::N(n.deep_clone()), 4 => H::N(n.sqr()), _ => H::N(n.sqrt()) },
                    (H::B(b), H::B(d)) if w == 0 && !yz => H::R(Rat::from_frac_bigint(b, d).unwrap()),
                    (H::B(b), _) => match w { 0 | 1 => H::R(Rat::from(b.clone())), 2 => H::F(Float::from(b.clone())), 3 => H::B(b.deep_clone()), 4 => H::B(b.abs()), _ => { let n: &Nat = b.as_ref(); H::N(n.deep_clone()) } },
                    (H::R(r), _) => match w { 0 => H::R(r.clone()), 1 => H::R(r.deep_clone()), 2 => H::R(r.abs()), 3 if !xz => H::R(r.inv().unwrap()), 4 => H::F(Float::from(r.clone())), _ => H::R(-r.clone()) },
                    (H::F(f), _) => match w { 0 | 1 => H::F(f.deep_clone()), 2 => H::F(f.abs()), 3 => H::F(-f.clone()), 4 => H::F(f.mant_exp().0), _ => { let mut z = Float::default(); z.set_mant_exp(f.clone(), 3); H::F(z) } },
                })?;
                if h.kind() != p[i].0.kind() { crossed = true; }
                out.push(h);
            }
            2 | 3 => {
                let i = c.below(p.len());
                let same: Vec<usize> = (0..p.len()).filter(|&q| p[q].0.kind() == p[i].0.kind()).collect();
                let (j, op) = (same[c.below(same.len())], c.below(143));
                let k = c.upto(70) as usize;
                let (a, b) = (&p[i].0, &p[j].0);
                if a.size() + b.size() > 30 || b.zero() { continue; }
                if let (H::F(x), H::F(y)) = (a, b) { if (x.mant_exp().1 - y.mant_exp().1).abs() > 4000 { continue; } }
                let r = no_panic("operator", || mix_value(op, &a.deep(), &b.deep(), k))?;
                if kind == 2 {
                    c.note(|| format!("{}: #{} = #{} op{} #{} (k={})", s, p.len(), i, op, j, k));
                    let g = no_panic("operator", || mix_value(op, a, b, k))?;
                    ok(g.state() == r.state(), || format!("step {}: #{} op{} #{} gives {}, and on deep clones {}", s, i, op, j, g.state(), r.state()))?;
                    out.push(g);
                } else {
                    c.note(|| format!("{}: #{} op{}= #{} (k={})", s, i, op, j, k));
                    // shallow copies of floats are not supported
                    let y = match b { H::F(f) => H::F(if i == j { f.deep_clone() } else { f.clone() }), H::N(n) => H::N(n.clone()), H::B(n) => H::B(n.clone()), H::R(n) => H::R(n.clone()) };
                    let x = &mut p[i].0;
                    no_panic("operator", || mix_inplace(op, x, y, k))?;
                    ok(p[i].0.state() == r.state(), || format!("step {}: #{} op{}= #{} gives {}, and the value form {}", s, i, op, j, p[i].0.state(), r.state()))?;
                    target = Some(i);
                    written = true;
                }
            }
            4 => { // changes of one handle
                let (i, w, v) = (c.below(p.len()), c.below(4), c.upto(200) as usize);
                c.note(|| format!("{}: change {} ({}) of #{}", s, w, v, i));
                let before = p[i].0.deep();
                match &mut p[i].0 {
                    H::F(f) => no_panic("change", || match w { 0 | 1 => f.set_precision(1 + v), 2 => f.set_mode(crate::p_float::MODES[v % 6]), _ => { let m = Float::from(v as u32); f.set_mant_exp(m, 5) } })?,
                    H::B(b) if !before.zero() => if w < 2 { b.set_negative() } else { b.set_natural() },
                    _ => continue,
                }
                target = Some(i);
                written = true;
            }
            _ => { // functions with several results, or none
                let (i, j, w, e) = (c.below(p.len()), c.below(p.len()), c.below(6), c.below(5) as u32);
                if p[i].0.size() > 6 || p[j].0.size() > 6 { continue; }
                c.note(|| format!("{}: function {} of #{} and #{}", s, w, i, j));
                let (x, y) = (&p[i].0, &p[j].0);
                let yz = y.zero();
                out = no_panic("function", || match (x, y) {
                    (H::B(a), H::B(b)) => match w {
                        0 => { let (d, u, v) = a.gcd(b.clone()); vec![H::B(d), H::B(u), H::B(v)] }
                        1 if !yz && *b > BigInt::from(1u32) && a.gcd(b.clone()).0 == 1u32 => vec![H::B(a.mod_inverse(b.clone()))],
                        2 => vec![H::B(a.exp(&BigInt::from(e), b))],
                        3 if !a.is_negative() => vec![H::B(a.sqrt())],
                        4 => vec![H::B(a.sqr())],
                        _ => { let _ = (a == b, a < b, format!("{} {:x}", a, b)); vec![] }
                    },
                    (H::N(a), H::N(b)) => match w {
                        0 => vec![H::N(a.exp(&Nat::from(e), b))],
                        1 => vec![H::N(a.pow_mod(Nat::from(e), b.clone()))],
                        2 => { let (d, _) = a.sub_with_sign(b.clone()); vec![H::N(d)] }
                        3 => vec![H::N(a.mul_karatsuba(b))],
                        4 => vec![H::N(a.pow(Nat::from(e)))],
                        _ => { let _ = (a == b, a < b, format!("{} {:x}", a, b)); vec![] }
                    },
                    (H::R(a), H::R(b)) => { let _ = (a == b, a < b, format!("{} {:x}", a, b), a.to_f64(), b.to_f32()); vec![] }
                    (H::R(a), _) => match w { 0 | 1 => vec![H::B(a.numerator().deep_clone())], 2 | 3 => vec![H::B(a.denominator().deep_clone())], _ => { let _ = (a.signnum(), a.is_integer(), a.to_f64()); vec![] } },
                    (H::F(a), H::F(b)) => { let _ = (a == b, a < b, a.to_f64(), b.to_f32(), a.truncate_to_i64(), b.is_integer()); vec![] }
                    (H::F(a), _) => { if a.mant_exp().1.abs() < 300 { let _ = format!("{:.30e}", a); } vec![] }
                    (a, _) => { let _ = a.state(); vec![] }
                })?;
                if matches!(p[i].0, H::R(_)) && !out.is_empty() { crossed = true; }
            }
        }
        if let Some(i) = target { let t = p[i].0.state(); p[i].1 = t; }
        for (i, (h, t)) in p.iter().enumerate() { let g = h.state(); ok(g == *t, || format!("after step {}: handle #{} was {} and is {}", s, i, t, g))?; }
        for h in out { if h.size() <= 40 { let t = h.state(); p.push((h, t)); } }
        while p.len() > 14 { p.remove(0); }
    }
    if written && crossed { c.nontrivial(); }
    if crossed { c.label("values made from another type"); }
    Ok(())
}

// ------------------------------------------------------------------ C10
fn nanb() -> BigInt { BigInt::from(Vec::<u32>::new()) }
fn nanr() -> Rat { Rat::from(f64::NAN) }

fn c10_nat(c: &mut Ctx) -> R {
    let a = gen_u(c, 5);
    let mut b = gen_u_pos(c, 5);
    let (w, k) = (c.limb() | 1, c.size(100) as usize);
    let op = c.below(NOPS);
    if op != 3 && op != 4 && c.chance(1, 4) { b = ora::u(c.below(2) as u128); }
    c.note(|| format!("{} with NaN; ordinary operands {} {} w={} k={}", NNAME[op], sh(&a), sh(&b), w, k));
    c.nontrivial();
    let two = op < 9;
    for pat in 0..4usize {
        let (l, r) = (pat & 1 == 1, pat & 2 == 2);
        if r && !two { continue; }
        let mk = |isn: bool, v: &U| if isn { nan() } else { nat(v) };
        let (x, y) = (mk(l, &a), mk(r, &b));
        let v = no_panic(NNAME[op], || nat_value(op, x.clone(), y.clone(), w, k))?;
        ok(v.is_nan() == (l || r), || format!("{} with NaN left={} right={} gave {}", NNAME[op], l, r, shn(&v)))?;
        let mut z = mk(l, &a);
        no_panic(NNAME[op], || nat_inplace(op, &mut z, y.clone(), w, k))?;
        ok(z.is_nan() == (l || r), || format!("{}= with NaN left={} right={} gave {}", NNAME[op], l, r, shn(&z)))?;
        if two { // the operands keep their values
            ok(x.is_nan() == l && y.is_nan() == r, || "an operand changed".into())?;
            if !r { eq_nat("right operand", &y, &b)?; }
            if !l { eq_nat("left operand", &x, &a)?; }
        }
        // comparisons
        if l || r {
            let (e, o) = (x == y, x.partial_cmp(&y));
            ok(!e && o.is_none() && !(x < y) && !(x > y) && !(x <= y) && !(x >= y) && x != y, || format!("NaN compares: == {} cmp {:?}", e, o))?;
        }
    }
    if op == 8 || op == 3 || op == 4 { let n = nan(); let v = nat_value(op, n.clone(), n.clone(), w, k); ok(v.is_nan(), || "NaN with itself".into())?; let mut z = n.clone(); nat_inplace(op, &mut z, n, w, k); ok(z.is_nan(), || "NaN with itself".into())?; }
    Ok(())
}
fn c10_nat_fn(c: &mut Ctx) -> R {
    let mut a = gen_u_pos(c, 3);
    let mut b = gen_u_pos(c, 3);
    let m = c.below(8);
    let f = c.below(12);
    let mut e = ora::u(b[0] as u128 & 15);
    if m != 0 && matches!(f, 0 | 1 | 2 | 5 | 8) && c.chance(1, 2) {
        // operands whose result would be known without the NaN one
        a = ora::u(c.below(3) as u128); b = ora::u(c.below(3) as u128); e = ora::u(c.below(3) as u128);
        c.label("operands that decide the result alone");
    }
    c.note(|| format!("function {} with NaN pattern {:b}; ordinary operands {} {}", f, m, sh(&a), sh(&b)));
    let mk = |bit: usize, v: &U| if m & bit != 0 { nan() } else { nat(v) };
    let (x, y, z) = (mk(1, &a), mk(2, &e), mk(4, &b));
    if m != 0 { c.nontrivial(); }
    let t = |what: &str, got: bool, want: bool| ok(got == want, || format!("{}: NaN is {} want {}", what, got, want));
    let (l, r, s) = (m & 1 != 0, m & 2 != 0, m & 4 != 0);
    no_panic("operation with NaN", || -> R { match f {
        0 => t("pow", x.pow(y.clone()).is_nan(), l || r),
        1 => t("pow_mod", x.pow_mod(y.clone(), z.clone()).is_nan(), l || r || s),
        2 => t("exp", x.exp(&y, &z).is_nan(), l || r || s),
        3 => t("sqrt", x.sqrt().is_nan(), l),
        4 => t("sqr", x.sqr().is_nan(), l),
        5 => { t("mul_karatsuba", x.mul_karatsuba(&z).is_nan(), l || s)?; t("mul_karatsuba", z.mul_karatsuba(&x).is_nan(), l || s) }
        6 => t("not", (!x.clone()).is_nan(), l),
        7 => { let mut g = Src::uniform(3); t("random", x.random(&mut g).is_nan(), l)?; let mut g = Src::uniform(3); t("random of zero", nat(&vec![]).random(&mut g).is_nan(), true) }
        8 => { let (v, ge) = x.sub_with_sign(z.clone()); t("sub_with_sign", v.is_nan(), l || s)?; if l || s { ok(!ge, || "NaN is at least something".into())?; } let mut q = x.deep_clone(); let ge = q.sub_assign_with_sign(z.clone()); t("sub_assign_with_sign", q.is_nan(), l || s)?; ok(!((l || s) && ge), || "NaN is at least something".into()) }
        9 => { if l { ok(x.is_set_bit(0).is_none() && x.is_set_bit(70).is_none() && x.bits_len() == 0, || "NaN has bits".into())?; let mut g = Src::uniform(3); ok(!x.probably_prime_test(3, &mut g), || "NaN is prime".into())?; } Ok(()) }
        10 => { if l { for q in [format!("{}", x), format!("{:?}", x), format!("{:b}", x), format!("{:o}", x), format!("{:x}", x), format!("{:X}", x), format!("{:#x}", x)] { ok(q == "NaN", || format!("NaN prints as {}", q))?; } } else { ok(format!("{:x}", x) != "NaN", || "a number prints as NaN".into())?; } Ok(()) }
        _ => { if l { ok(x != 0u32 && x != 1u32 && !(x == 0u8) && !(x == 7u64) && x.partial_cmp(&0u32).is_none() && x.partial_cmp(&1u64).is_none() && !(x < 5u32) && !(x > 5u32), || "NaN compares with a primitive".into())?; t("deep_clone", x.deep_clone().is_nan(), true)?; t("clone", x.clone().is_nan(), true)?; t("BigInt::from", BigInt::from(x.clone()).is_nan(), true)?; t("Rat::from", Rat::from(x.clone()).is_nan(), true)?; } Ok(()) }
    } })?
}
fn c10_int(c: &mut Ctx) -> R {
    let a = gen_i(c, 5);
    let mut b = gen_i(c, 5);
    if b.is_zero() { b = I::from(1); }
    let k = c.size(100) as usize;
    let op = c.below(13);
    if !matches!(op, 3 | 4 | 11 | 12) && c.chance(1, 4) { b = I::from(c.below(3) as i128 - 1); }
    c.note(|| format!("{} with NaN; ordinary operands {} {} k={}", INAME[op], a.hex(), b.hex(), k));
    c.nontrivial();
    let two = op != 9 && op != 10;
    for pat in 0..4usize {
        let (l, r) = (pat & 1 == 1, pat & 2 == 2);
        if r && !two { continue; }
        let mk = |isn: bool, v: &I| if isn { nanb() } else { big(v) };
        let (x, y) = (mk(l, &a), mk(r, &b));
        let v = no_panic(INAME[op], || int_value(op, x.clone(), y.clone(), k))?;
        ok(v.is_nan() == (l || r), || format!("{} with NaN left={} right={} gave {}", INAME[op], l, r, shb(&v)))?;
        if l || r { ok(!v.is_negative() && !v.is_natural() && !v.is_positive() && v.signnum().is_none(), || format!("{}: NaN result has a sign", INAME[op]))?; }
        let mut z = mk(l, &a);
        no_panic(INAME[op], || int_inplace(op, &mut z, y.clone(), k))?;
        ok(z.is_nan() == (l || r), || format!("{}= with NaN left={} right={} gave {}", INAME[op], l, r, shb(&z)))?;
        if !r { eq_big("right operand", &y, &b)?; }
        if !l { eq_big("left operand", &x, &a)?; }
        if l || r {
            let (e, o) = (x == y, x.partial_cmp(&y));
            ok(!e && o.is_none() && !(x < y) && !(x > y) && x != y, || format!("NaN compares: == {} cmp {:?}", e, o))?;
        }
    }
    Ok(())
}
fn c10_int_fn(c: &mut Ctx) -> R {
    let mut a = gen_i(c, 2);
    if a.is_zero() { a = I::from(3); }
    let mut b = I::from(1 + c.upto(15) as i128);
    let mut n = I::new(false, ora::add(&ora::shl(&gen_u_pos(c, 2), 1), &ora::u(1)));
    let m = c.below(8);
    let f = c.below(13);
    if (m & 5 != 0 && matches!(f, 0 | 1 | 2 | 3 | 4 | 12) || m == 2 && matches!(f, 0 | 2 | 3)) && c.chance(1, 2) {
        // operands whose result would be known without the NaN one
        a = I::from(c.below(5) as i128 - 2); b = I::from(c.below(5) as i128 - 2); n = I::from(c.below(5) as i128 - 2);
        c.label("operands that decide the result alone");
    }
    c.note(|| format!("integer function {} with NaN pattern {:b}; ordinary operands {} {} {}", f, m, a.hex(), b.hex(), n.hex()));
    if m != 0 { c.nontrivial(); }
    let mk = |bit: usize, v: &I| if m & bit != 0 { nanb() } else { big(v) };
    let (x, y, z) = (mk(1, &a), mk(2, &b), mk(4, &n));
    let (l, r, s) = (m & 1 != 0, m & 2 != 0, m & 4 != 0);
    let t = |what: &str, got: bool, want: bool| ok(got == want, || format!("{}: NaN is {} want {}", what, got, want));
    no_panic("integer operation with NaN", || -> R { match f {
        0 => { let (d, p, q) = x.gcd(y.clone()); t("gcd", d.is_nan(), l || r)?; t("gcd x", p.is_nan(), l || r)?; t("gcd y", q.is_nan(), l || r) }
        1 => { if l || s { t("mod_inverse", x.mod_inverse(z.clone()).is_nan(), true)?; } Ok(()) }
        2 => { if l || r || s { ok(x.solve_mod_linear_equation(y.clone(), z.clone()).is_none(), || "a congruence with NaN has solutions".into())?; } Ok(()) }
        3 => t("exp", x.exp(&y, &z).is_nan(), l || r || s),
        4 => { if l || s { ok(x.jacobi(&z).is_none(), || "jacobi of NaN".into())?; ok(x.mod_sqrt(&z).is_none(), || "mod_sqrt of NaN".into())?; } else { ok(x.jacobi(&z).is_some(), || "jacobi is none".into())?; } Ok(()) }
        5 => t("sqrt", x.sqrt().is_nan(), l || a.neg),
        6 => t("sqr", x.sqr().is_nan(), l),
        7 => { t("neg", (-x.clone()).is_nan(), l)?; t("abs", x.abs().is_nan(), l)?; t("not", (!x.clone()).is_nan(), l) }
        8 => { let mut g = Src::uniform(3); t("random", x.random(&mut g).is_nan(), l)?; let mut g = Src::uniform(3); t("random of zero", BigInt::from(0u32).random(&mut g).is_nan(), true) }
        9 => { if l { ok(x.is_set_bit(0).is_none() && x.bits_len() == 0 && x.signnum().is_none(), || "NaN has bits or a sign".into())?; let mut q = x.clone(); q.set_negative(); ok(q.is_nan() && !q.is_negative(), || "negative NaN".into())?; q.set_natural(); ok(q.is_nan() && !q.is_natural(), || "natural NaN".into())?; } Ok(()) }
        10 => { if l { for q in [format!("{}", x), format!("{:?}", x), format!("{:b}", x), format!("{:o}", x), format!("{:x}", x), format!("{:X}", x), format!("{:#x}", x)] { ok(q == "NaN", || format!("NaN prints as {}", q))?; } } Ok(()) }
        11 => { if l { ok(!(x == 0u32) && !(x == 1u32), || "NaN equals a primitive".into())?; t("Rat::from", Rat::from(x.clone()).is_nan(), true)?; t("deep_clone", x.deep_clone().is_nan(), true)?; } Ok(()) }
        _ => { match Rat::from_frac_bigint(&x, &z) { Ok(q) => t("from_frac_bigint", q.is_nan(), l || s), Err(_) => ok(l || s, || "from_frac_bigint failed".into()) } }
    } })?
}
fn c10_rat(c: &mut Ctx) -> R {
    let a = crate::p_rat::gen_q(c, 2);
    let b = crate::p_rat::gen_q(c, 2);
    let how = c.below(5);
    c.note(|| format!("rationals {} {} NaN made by {}", a.txt(), b.txt(), how));
    c.nontrivial();
    let mkn = || match how { 0 => nanr(), 1 => Rat::from(nan()), 2 => Rat::from(nanb()), 3 => Rat::from(f64::INFINITY), _ => Rat::from(f32::NAN) };
    let ops: [(&str, fn(Rat, Rat) -> Rat, fn(&mut Rat, Rat)); 4] = [("+", |x, y| x + y, |x, y| *x += y), ("-", |x, y| x - y, |x, y| *x -= y), ("*", |x, y| x * y, |x, y| *x *= y), ("/", |x, y| x / y, |x, y| *x /= y)];
    for pat in 0..4usize {
        let (l, r) = (pat & 1 == 1, pat & 2 == 2);
        let mk = |isn: bool, q: &ora::Q| if isn { mkn() } else { crate::p_rat::rat(q) };
        for (name, v, s) in ops.iter() {
            if *name == "/" && !r && b.is_zero() { continue; }
            let (x, y) = (mk(l, &a), mk(r, &b));
            let g = no_panic(name, || v(x.clone(), y.clone()))?;
            ok(g.is_nan() == (l || r), || format!("{} with NaN left={} right={} gave {}", name, l, r, crate::p_rat::shr(&g)))?;
            let mut z = mk(l, &a);
            let keep = z.clone();
            no_panic(name, || s(&mut z, y.clone()))?;
            ok(z.is_nan() == (l || r), || format!("{}= with NaN left={} right={} gave {}", name, l, r, crate::p_rat::shr(&z)))?;
            if !l { crate::p_rat::eq_rat("clone of the target", &keep, &a)?; crate::p_rat::eq_rat("left operand", &x, &a)?; }
            if !r { crate::p_rat::eq_rat("right operand", &y, &b)?; }
            if l || r { ok(!(x == y) && x.partial_cmp(&y).is_none() && !(x < y) && !(x > y), || "NaN compares".into())?; }
        }
    }
    let x = mkn();
    no_panic("rational function of NaN", || -> R {
        ok((-x.clone()).is_nan() && x.abs().is_nan() && x.deep_clone().is_nan(), || "neg/abs of NaN".into())?;
        ok(x.signnum().is_none() && x.is_integer().is_none(), || format!("NaN has sign {:?} integer {:?}", x.signnum(), x.is_integer()))?;
        ok(x.inv().map_or(true, |q| q.is_nan()), || "inverse of NaN".into())?;
        ok(x.to_f64().0.is_nan() && x.to_f32().0.is_nan(), || "NaN converts to a number".into())?;
        for q in [format!("{}", x), format!("{:?}", x), format!("{:b}", x), format!("{:#o}", x), format!("{:x}", x), format!("{:#X}", x)] { ok(q == "NaN", || format!("NaN prints as {}", q))?; }
        Ok(())
    })?
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C09", rule: "a history with an in-place write to a value that other handles share (naturals), or in-place writes while other live values exist (integers), or in-place writes and values made from another type (mixed)",
        laws: &[Law { name: "naturals", weight: 1, run: c09_nat }, Law { name: "integers", weight: 1, run: c09_int }, Law { name: "mixed", weight: 1, run: c09_mixed }],
        quick: 370_000, thorough: 18_000_000, assumptions: &["histories of up to 21 steps in the quick tier, 143 in the thorough tier, over at most 16 handles", "after an in-place operation on an integer, other handles of the same digits are not read (their meaning is not specified); plain clones of floats are used as operands only"] },
    Prop { id: "C10", rule: "at least one NaN operand",
        laws: &[Law { name: "nat_operators", weight: 3, run: c10_nat }, Law { name: "nat_functions", weight: 3, run: c10_nat_fn }, Law { name: "int_operators", weight: 3, run: c10_int }, Law { name: "int_functions", weight: 3, run: c10_int_fn }, Law { name: "rationals", weight: 2, run: c10_rat }, Law { name: "floats", weight: 2, run: crate::p_float::c10_float }],
        quick: 510_000, thorough: 6_480_000, assumptions: &["zero divisors are excluded here (they panic, see C02/C14/C23)"] },
];
