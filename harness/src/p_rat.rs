//! C23-C26: rationals.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, I, Q, U};
use crate::p_int::val;
use rmath::bigint::{BigInt, Nat, Rat, RatErrKind};
use std::cmp::Ordering;
use std::str::FromStr;

pub fn shr(r: &Rat) -> String { if r.is_nan() { "NaN".into() } else { format!("{}/{}", shb(r.numerator()), shb(r.denominator())) } }
fn shq(q: &Q) -> String { format!("{}/0x{}", q.n.hex(), ora::hex(&q.d)) }
/// got is the rational want, in lowest terms with a positive denominator
pub fn eq_rat(what: &str, got: &Rat, want: &Q) -> R {
    if got.is_nan() { return Err(format!("{}: got NaN want {}", what, shq(want))); }
    let w = || format!("{}: got {} want {}", what, shr(got), shq(want));
    eq_big("numerator", got.numerator(), &want.n).map_err(|e| format!("{}; {}", w(), e))?;
    eq_big("denominator", got.denominator(), &I::new(false, want.d.clone())).map_err(|e| format!("{}; {}", w(), e))
}
pub fn rat(q: &Q) -> Rat { Rat::from_frac_bigint(&big(&q.n), &big(&I::new(false, q.d.clone()))).expect("nonzero denominator") }

pub fn gen_q(c: &mut Ctx, max: usize) -> Q {
    let n = gen_i(c, max);
    let d = match c.weighted(&[3, 5, 2, 2]) { 0 => ora::u(1), 1 => gen_u_pos(c, max), 2 => { let v = gen_related(c, &n.m, max); if v.is_empty() { ora::u(1) } else { v } } _ => ora::u(1 + c.upto(20) as u128) };
    Q::new(n, d)
}
fn gen_q_related(c: &mut Ctx, a: &Q, max: usize) -> Q {
    match c.weighted(&[5, 1, 1, 2, 2, 2, 1]) {
        0 => gen_q(c, max),
        1 => a.clone(),
        2 => a.neg(),
        3 => Q::new(gen_i_related(c, &a.n, max), a.d.clone()),
        4 => { let d = gen_related(c, &a.d, max); Q::new(a.n.clone(), if d.is_empty() { ora::u(1) } else { d }) }
        5 => Q::new(a.n.add(&I::from(1)), ora::add(&a.d, &ora::u(1))),
        _ => if a.is_zero() { a.clone() } else { Q::new(I::new(a.n.neg, a.d.clone()), a.n.m.clone()) },
    }
}
fn msize(c: &mut Ctx) -> usize { c.lim(4, 40) }

// ------------------------------------------------------------------ C23
fn c23_ops(c: &mut Ctx) -> R {
    let m = msize(c);
    let a = gen_q(c, m);
    let b = gen_q_related(c, &a, m);
    c.note(|| format!("a={} b={}", shq(&a), shq(&b)));
    if !a.is_zero() && !b.is_zero() && (a.d.len() > 1 || b.d != ora::u(1)) { c.nontrivial(); }
    let (x, y) = (rat(&a), rat(&b));
    let ops: [(&str, fn(Rat, Rat) -> Rat, fn(&mut Rat, Rat), fn(&Q, &Q) -> Q); 4] = [
        ("+", |x, y| x + y, |x, y| *x += y, |a, b| a.add(b)),
        ("-", |x, y| x - y, |x, y| *x -= y, |a, b| a.sub(b)),
        ("*", |x, y| x * y, |x, y| *x *= y, |a, b| a.mul(b)),
        ("/", |x, y| x / y, |x, y| *x /= y, |a, b| a.div(b)),
    ];
    for (i, (name, v, s, o)) in ops.iter().enumerate() {
        if i == 3 && b.is_zero() {
            c.label("division by zero");
            if let Ok(r) = guard(|| v(x.clone(), y.clone())) { ok(r.is_nan(), || format!("a / 0 gave {}", shr(&r)))?; }
            let mut z = rat(&a);
            if guard(|| s(&mut z, y.clone())).is_ok() { ok(z.is_nan(), || format!("a /= 0 gave {}", shr(&z)))?; }
            continue;
        }
        let w = o(&a, &b);
        eq_rat(name, &no_panic(name, || v(x.clone(), y.clone()))?, &w)?;
        let mut z = rat(&a);
        let keep = z.clone();
        no_panic(name, || s(&mut z, y.clone()))?;
        eq_rat(&format!("{}=", name), &z, &w)?;
        eq_rat(&format!("clone of the target after {}=", name), &keep, &a)?;
        if i < 3 || !a.is_zero() {
            let w = o(&a, &a);
            eq_rat(&format!("{} with shared operands", name), &no_panic(name, || v(x.clone(), x.clone()))?, &w)?;
            let mut z = rat(&a);
            let k = z.clone();
            no_panic(name, || s(&mut z, k))?;
            eq_rat(&format!("{}= with shared operands", name), &z, &w)?;
        }
        eq_rat("left operand afterwards", &x, &a)?;
        eq_rat("right operand afterwards", &y, &b)?;
    }
    Ok(())
}
fn c23_unary(c: &mut Ctx) -> R {
    let m = msize(c);
    let a = gen_q(c, m);
    c.note(|| format!("a={}", shq(&a)));
    c.nontrivial();
    let x = rat(&a);
    eq_rat("neg", &no_panic("neg", || -x.clone())?, &a.neg())?;
    eq_rat("abs", &no_panic("abs", || x.abs())?, &Q { n: I::new(false, a.n.m.clone()), d: a.d.clone() })?;
    let s = if a.is_zero() { 0 } else if a.n.neg { -1 } else { 1 };
    ok(x.signnum() == Some(s), || format!("signnum {:?} want {}", x.signnum(), s))?;
    ok(x.is_integer() == Some(a.d == ora::u(1)), || format!("is_integer {:?} of {}", x.is_integer(), shq(&a)))?;
    eq_rat("deep_clone", &x.deep_clone(), &a)?;
    match no_panic("inv", || x.inv())? {
        Err(e) => { ok(a.is_zero() && e.kind() == RatErrKind::NumeratorIsZero, || format!("inv failed: {}", e))?; c.label("inverse of zero"); }
        Ok(r) => { ok(!a.is_zero() || r.is_nan(), || format!("inverse of zero is {}", shr(&r)))?; if !a.is_zero() { eq_rat("inv", &r, &Q::int(I::from(1)).div(&a))?; } }
    }
    eq_rat("operand afterwards", &x, &a)
}
fn c23_build(c: &mut Ctx) -> R {
    c.nontrivial();
    match c.below(3) {
        0 => {
            let (mut p, mut q) = (c.word64() as i64, c.word64() as i64);
            if c.chance(1, 3) { p = c.range(-50, 50); }
            if c.chance(1, 3) { q = c.range(-50, 50); }
            c.note(|| format!("from_frac({}, {})", p, q));
            match no_panic("from_frac", || Rat::from_frac(p as isize, q as isize))? {
                Err(e) => ok(q == 0 && e.kind() == RatErrKind::DenominatorIsZero, || format!("from_frac failed: {}", e)),
                Ok(r) => { ok(q != 0, || format!("denominator 0 gave {}", shr(&r)))?; eq_rat("from_frac", &r, &Q::new(I::new((p < 0) != (q < 0), ora::u(p.unsigned_abs() as u128)), ora::u(q.unsigned_abs() as u128))) }
            }
        }
        1 => {
            let m = msize(c);
            let q = gen_q(c, m);
            let k = gen_i(c, 2);
            let (n, d) = (q.n.mul(&k), I::new(false, q.d.clone()).mul(&k));
            c.note(|| format!("from_frac_bigint({}, {})", n.hex(), d.hex()));
            let (bn, bd) = (big(&n), big(&d));
            match no_panic("from_frac_bigint", || Rat::from_frac_bigint(&bn, &bd))? {
                Err(e) => ok(d.is_zero() && e.kind() == RatErrKind::DenominatorIsZero, || format!("failed: {}", e))?,
                Ok(r) => { ok(!d.is_zero(), || format!("denominator 0 gave {}", shr(&r)))?; eq_rat("from_frac_bigint", &r, &Q::new(I::new(n.neg != d.neg, n.m.clone()), d.m.clone()))? }
            }
            eq_big("numerator argument afterwards", &bn, &n)?;
            eq_big("denominator argument afterwards", &bd, &d)?;
            // one handle for both arguments
            if !n.is_zero() { eq_rat("n/n", &no_panic("from_frac_bigint", || Rat::from_frac_bigint(&bn, &bn).unwrap())?, &Q::int(I::from(1)))?; }
            Ok(())
        }
        _ => {
            let x = (((c.word64() as u128) << 64) | c.word64() as u128) as i128;
            c.note(|| format!("x={:#x}", x));
            macro_rules! p { ($($t:ty),*) => {$( { let v = x as $t; let w = if stringify!($t).starts_with('u') { I::new(false, ora::u(v as u128)) } else { I::from(v as i128) }; eq_rat(concat!("From<", stringify!($t), ">"), &no_panic("From", || Rat::from(v))?, &Q::int(w))?; } )*} }
            p!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
            let a = gen_i(c, 6);
            let b = big(&a);
            eq_rat("From<BigInt>", &no_panic("From", || Rat::from(b.clone()))?, &Q::int(a.clone()))?;
            let n = nat(&a.m);
            eq_rat("From<Nat>", &no_panic("From", || Rat::from(n.clone()))?, &Q::int(I::new(false, a.m.clone())))?;
            // independent of the source handle
            let (r, mut b2) = (Rat::from(b.clone()), b.clone());
            b2 += BigInt::from(7u32);
            eq_rat("rational after its source integer changed", &r, &Q::int(a.clone()))?;
            Ok(())
        }
    }
}
fn c23_chain(c: &mut Ctx) -> R {
    let lm = c.lim(10, 60);
    let steps = 2 + c.size(lm);
    let mut st: Vec<(Rat, Q)> = Vec::new();
    for _ in 0..2 { let q = gen_q(c, 1); st.push((rat(&q), q)); }
    if steps >= 3 { c.nontrivial(); }
    for k in 0..steps {
        let (i, j) = (c.below(st.len()), c.below(st.len()));
        let op = c.below(12);
        let (x, a) = (st[i].0.clone(), st[i].1.clone());
        let (y, b) = (st[j].0.clone(), st[j].1.clone());
        if a.n.m.len() + a.d.len() + b.n.m.len() + b.d.len() > 24 { continue; }
        c.note(|| format!("step {}: #{} = op{} of #{}={} #{}={}", k, st.len(), op, i, shq(&a), j, shq(&b)));
        let bz = b.is_zero();
        let (r, w) = no_panic("chain step", || match op {
            0 => (x + y, a.add(&b)),
            1 => (x - y, a.sub(&b)),
            2 => (x * y, a.mul(&b)),
            3 if !bz => (x / y, a.div(&b)),
            4 => (-x, a.neg()),
            5 => (x.abs(), Q { n: I::new(false, a.n.m.clone()), d: a.d.clone() }),
            6 if !a.is_zero() => (x.inv().unwrap(), Q::int(I::from(1)).div(&a)),
            7 => { let mut z = x; z += y; (z, a.add(&b)) }
            8 => { let mut z = x; z -= y; (z, a.sub(&b)) }
            9 => { let mut z = x; z *= y; (z, a.mul(&b)) }
            10 if !bz => { let mut z = x; z /= y; (z, a.div(&b)) }
            11 if !bz => (Rat::from_frac_bigint(&BigInt::from(3u32), x.denominator()).unwrap() / y, Q::new(I::from(3), a.d.clone()).div(&b)),
            _ => (x - Rat::from(1u32), a.sub(&Q::int(I::from(1)))),
        })?;
        eq_rat(&format!("step {}", k), &r, &w)?;
        st.push((r, w));
    }
    for (i, (r, q)) in st.iter().enumerate() { eq_rat(&format!("value #{} at the end", i), r, q)?; }
    Ok(())
}

// ------------------------------------------------------------------ C24
fn c24_order(c: &mut Ctx) -> R {
    let m = c.lim(8, 60);
    let a = gen_q(c, m);
    let b = match c.below(3) { 0 => gen_q_related(c, &a, m), 1 => { // p/q against a nearest neighbour
            let q = gen_u_pos(c, m); let e = Q::new(I::new(c.chance(1, 2), ora::u(1)), ora::mul(&ora::mul(&q, &a.d), &ora::u(3))); a.add(&e) }
        _ => { let k = gen_i(c, 1); a.add(&Q::int(k)) } };
    c.note(|| format!("a={} b={}", shq(&a), shq(&b)));
    let w = a.cmp(&b);
    if a.n.neg == b.n.neg && a.d != b.d { c.nontrivial(); }
    if w == Ordering::Equal { c.label("equal"); } else if a.n.neg != b.n.neg { c.label("opposite signs"); }
    let (x, y) = (rat(&a), rat(&b));
    let chk = |x: &Rat, y: &Rat, w: Ordering, t: &str| -> R {
        let g = no_panic("partial_cmp", || x.partial_cmp(y))?;
        ok(g == Some(w), || format!("{}: partial_cmp {:?} want {:?}", t, g, w))?;
        let e = [x == y, x != y, x < y, x <= y, x > y, x >= y];
        let f = [w == Ordering::Equal, w != Ordering::Equal, w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less];
        ok(e == f, || format!("{}: [==,!=,<,<=,>,>=] {:?} want {:?}", t, e, f))
    };
    chk(&x, &y, w, "a?b")?;
    chk(&y, &x, w.reverse(), "b?a")?;
    chk(&(-x.clone()), &(-y.clone()), w.reverse(), "-a?-b")?;
    chk(&x, &x.clone(), Ordering::Equal, "a?a")?;
    chk(&x, &x.deep_clone(), Ordering::Equal, "a?copy of a")?;
    eq_rat("a afterwards", &x, &a)?;
    eq_rat("b afterwards", &y, &b)?;
    // against integers
    let f = a.n.divf(&I::new(false, a.d.clone())).0;
    let fl = Rat::from(big(&f));
    chk(&fl, &x, if a.d == ora::u(1) { Ordering::Equal } else { Ordering::Less }, "floor(a)?a")
}
fn c24_triples(c: &mut Ctx) -> R {
    // sorting with the crate's order agrees with the numerical order
    let n = 3 + c.size(5) as usize;
    let mut v: Vec<(Rat, Q)> = Vec::new();
    for i in 0..n { let q = if i == 0 { gen_q(c, 2) } else { let k = c.below(v.len()); let b = v[k].1.clone(); gen_q_related(c, &b, 2) }; v.push((rat(&q), q)); }
    c.note(|| v.iter().map(|x| shq(&x.1)).collect::<Vec<_>>().join(" "));
    c.nontrivial();
    let mut s = v.clone();
    s.sort_by(|p, q| p.0.partial_cmp(&q.0).unwrap_or(Ordering::Equal));
    let mut w = v.clone();
    w.sort_by(|p, q| p.1.cmp(&q.1));
    for i in 0..n { ok(s[i].1 == w[i].1, || format!("position {}: {} instead of {}", i, shq(&s[i].1), shq(&w[i].1)))?; }
    Ok(())
}

// ------------------------------------------------------------------ C25
/// nearest binary float to |q| (ties to even): (bits without sign, exact)
pub fn round_bits(n: &U, d: &U, p: i64, emin: i64, emax: i64) -> (u64, bool) {
    if n.is_empty() { return (0, true); }
    let mut e = ora::bits(n) as i64 - ora::bits(d) as i64;
    // 2^(e-1) < n/d < 2^(e+1)
    let ge = |e: i64| if e >= 0 { ora::cmp(n, &ora::shl(d, e as usize)) != Ordering::Less } else { ora::cmp(&ora::shl(n, (-e) as usize), d) != Ordering::Less };
    if !ge(e) { e -= 1; }
    let u = e.max(emin) - (p - 1);
    let (nn, dd) = if u >= 0 { (n.clone(), ora::shl(d, u as usize)) } else { (ora::shl(n, (-u) as usize), d.clone()) };
    let (q, r) = ora::divrem(&nn, &dd);
    let mut m = q.get(0).copied().unwrap_or(0) as u64 | (q.get(1).copied().unwrap_or(0) as u64) << 32;
    let half = ora::cmp(&ora::shl(&r, 1), &dd);
    let exact = r.is_empty();
    if half == Ordering::Greater || (half == Ordering::Equal && m & 1 == 1) { m += 1; }
    let bias = emax;
    // value m * 2^u
    let bits = if m < 1 << (p - 1) { m } else { (((u + p - 1 + bias) as u64) << (p - 1)) + (m - (1 << (p - 1))) };
    let inf = ((2 * bias + 1) as u64) << (p - 1);
    if bits >= inf { (inf, false) } else { (bits, exact) }
}
pub fn f64_q(bits: u64) -> Q {
    let (neg, e, m) = (bits >> 63 == 1, (bits >> 52 & 0x7ff) as i64, bits & ((1 << 52) - 1));
    let (m, s) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let n = ora::u(m as u128);
    if s >= 0 { Q::new(I::new(neg, ora::shl(&n, s as usize)), ora::u(1)) } else { Q::new(I::new(neg, n), ora::shl(&ora::u(1), (-s) as usize)) }
}
pub fn gen_f64_bits(c: &mut Ctx) -> u64 {
    let sign = (c.chance(1, 3) as u64) << 63;
    let e = match c.weighted(&[4, 3, 2, 2, 2]) { 0 => 1023 - 60 + c.upto(130), 1 => c.upto(0x7fe), 2 => c.upto(3), 3 => 0x7fe - c.upto(3), _ => 1023 + c.upto(64) };
    let m = match c.weighted(&[3, 3, 2]) { 0 => c.u64(), 1 => c.word64(), _ => c.upto(3) } & ((1 << 52) - 1);
    sign | e << 52 | m
}
pub fn gen_f32_bits(c: &mut Ctx) -> u32 {
    let sign = (c.chance(1, 3) as u32) << 31;
    let e = match c.weighted(&[4, 3, 2, 2]) { 0 => 127 - 30 + c.upto(64), 1 => c.upto(0xfe), 2 => c.upto(3), _ => 0xfe - c.upto(3) } as u32;
    let m = match c.weighted(&[3, 3, 2]) { 0 => c.u64() as u32, 1 => c.limb(), _ => c.upto(3) as u32 } & ((1 << 23) - 1);
    sign | e << 23 | m
}
fn c25_from(c: &mut Ctx) -> R {
    c.nontrivial();
    if c.chance(1, 2) {
        let b = gen_f64_bits(c);
        let f = f64::from_bits(b);
        c.note(|| format!("f64 {:#018x} {:e}", b, f));
        if b >> 52 & 0x7ff == 0 { c.label("f64 subnormal or zero"); } else if f.abs() >= 9007199254740992.0 { c.label("f64 large integer"); }
        let w = f64_q(b);
        let r = no_panic("Rat::from(f64)", || Rat::from(f))?;
        eq_rat("Rat::from(f64)", &r, &w)?;
        eq_rat("Rat::from_f64", &no_panic("from_f64", || Rat::from_f64(f))?, &w)?;
        let (g, e) = no_panic("to_f64", || r.to_f64())?;
        ok(g == f && e, || format!("round trip gave ({:e}, {})", g, e))
    } else {
        let b = gen_f32_bits(c);
        let f = f32::from_bits(b);
        c.note(|| format!("f32 {:#010x} {:e}", b, f));
        if b >> 23 & 0xff == 0 { c.label("f32 subnormal or zero"); }
        let w = f64_q((f as f64).to_bits());
        let r = no_panic("Rat::from(f32)", || Rat::from(f))?;
        eq_rat("Rat::from(f32)", &r, &w)?;
        let (g, e) = no_panic("to_f32", || r.to_f32())?;
        ok(g == f && e, || format!("round trip gave ({:e}, {})", g, e))
    }
}
/// rationals at and near the decision points of rounding to f32/f64
pub fn gen_q_round(c: &mut Ctx) -> Q {
    match c.weighted(&[3, 2, 3, 2, 1, 3]) {
        5 => { // the fraction of small terms nearest to a midpoint of two floats
            let (p, emin) = if c.chance(1, 2) { (53usize, 1075usize) } else { (24, 150) };
            let sub = c.chance(1, 4);
            let b = if sub { 1 + c.below(p + 1) } else { p + 1 };
            let mut m = low_bits(&ora::u(c.word64() as u128), b);
            if m.is_empty() { m = ora::u(1); }
            m = ora::shl(&m, b - ora::bits(&m));
            m[0] |= 1;
            let t = 1 + match c.below(4) { 0 => 52usize.saturating_sub(b), 1 => c.below(12), _ => c.below(140) };
            let (n, d) = near_ratio(&m, t, c.chance(1, 2));
            if n.is_empty() { return Q::int(I::from(1)); }
            c.label("nearest small fraction to a midpoint");
            let neg = c.chance(1, 3);
            // n/d is nearly m / 2^t
            let e = if sub { t as i64 - emin as i64 } else { match c.below(3) { 0 => 0, 1 => c.range(-70, 70), _ => c.range(-900, 900) } };
            if e >= 0 { Q::new(I::new(neg, ora::shl(&n, e as usize)), d) } else { Q::new(I::new(neg, n), ora::shl(&d, -e as usize)) }
        }
        0 => { // an f64 or f32 midpoint, exactly or moved by a tiny amount
            let q = if c.chance(1, 2) {
                let b = gen_f64_bits(c); let (a, h) = (f64_q(b & !(1 << 63)), f64_q((b & !(1 << 63)) + 1));
                let k = [1u128, 2, 3][c.below(3)];
                Q::new(I::from((4 - k) as i128), ora::u(4)).mul(&a).add(&Q::new(I::from(k as i128), ora::u(4)).mul(&if b & 0x7ff << 52 == 0x7fe << 52 && b & ((1 << 52) - 1) == (1 << 52) - 1 { Q::int(I::from(1).shl(1024)) } else { h }))
            } else {
                let b = gen_f32_bits(c) & 0x7fff_ffff; let f = |b: u32| if b == 0x7f80_0000 { Q::int(I::from(1).shl(128)) } else { f64_q((f32::from_bits(b) as f64).to_bits()) };
                let k = [1u128, 2, 3][c.below(3)];
                Q::new(I::from((4 - k) as i128), ora::u(4)).mul(&f(b)).add(&Q::new(I::from(k as i128), ora::u(4)).mul(&f(b + 1)))
            };
            let q = match c.weighted(&[3, 1, 1]) { 0 => q, k => { let s = 60 + c.size(1300) as usize; let eps = Q::new(I::new(k == 2, ora::u(1)), ora::shl(&ora::u(1), ora::bits(&q.d) + s)); q.add(&eps) } };
            if c.chance(1, 3) { q.neg() } else { q }
        }
        1 => { let q = gen_q(c, 4); let k = c.size(1200) as usize; if c.chance(1, 2) { Q::new(q.n.shl(k), q.d) } else { Q::new(q.n, ora::shl(&q.d, k)) } }
        2 => gen_q(c, 6),
        3 => { // near the subnormal and overflow thresholds
            let m = 1 + c.word64() as u128;
            let (s, up) = [(1074usize, false), (1075, false), (1076, false), (1022 + 64, false), (149, false), (150, false), (151, false), (126 + 64, false), (1024 - 64, true), (128 - 64, true), (1140, false), (2000, false)][c.below(12)];
            let s = (s as i64 + c.range(-2, 66)) as usize;
            let neg = c.chance(1, 3);
            if up { Q::new(I::new(neg, ora::shl(&ora::u(m), s)), ora::u(1)) } else { Q::new(I::new(neg, ora::u(m)), ora::shl(&ora::u(1), s)) }
        }
        _ => { let n = gen_i(c, 70); let d = gen_u_pos(c, 70); Q::new(n, d) }
    }
}
fn c25_to(c: &mut Ctx) -> R {
    let q = gen_q_round(c);
    c.note(|| format!("q={}", shq(&q)));
    if !q.is_zero() { c.nontrivial(); }
    let r = rat(&q);
    let (b64, e64) = round_bits(&q.n.m, &q.d, 53, -1022, 1023);
    let w = f64::from_bits(b64 | (q.n.neg as u64) << 63);
    if !e64 { c.label("f64 inexact"); }
    if b64 == 0 && !q.is_zero() { c.label("f64 underflow to zero"); } else if b64 >> 52 == 0 { c.label("f64 subnormal"); } else if w.is_infinite() { c.label("f64 overflow"); }
    let (g, e) = no_panic("to_f64", || r.to_f64())?;
    ok(g.to_bits() == w.to_bits() && e == e64, || format!("to_f64: got ({:e}, {}) want ({:e}, {})", g, e, w, e64))?;
    let (b32, e32) = round_bits(&q.n.m, &q.d, 24, -126, 127);
    let w = f32::from_bits(b32 as u32 | (q.n.neg as u32) << 31);
    if !e32 { c.label("f32 inexact"); }
    if b32 == 0 && !q.is_zero() { c.label("f32 underflow to zero"); } else if b32 >> 23 == 0 { c.label("f32 subnormal"); } else if w.is_infinite() { c.label("f32 overflow"); }
    let (g, e) = no_panic("to_f32", || r.to_f32())?;
    ok(g.to_bits() == w.to_bits() && e == e32, || format!("to_f32: got ({:e}, {}) want ({:e}, {})", g, e, w, e32))?;
    eq_rat("operand afterwards", &r, &q)
}

// ------------------------------------------------------------------ C26
fn c26_format(c: &mut Ctx) -> R {
    let m = if c.chance(1, 60) { 16 } else { 5 };
    let q = gen_q(c, m);
    c.note(|| format!("q={}", shq(&q)));
    if q.d != ora::u(1) { c.nontrivial(); }
    let r = rat(&q);
    let s = if q.n.neg { "-" } else { "" };
    let f = |p: &str, radix: u32, up: bool| { let (a, b) = (ora::to_radix(&q.n.m, radix), ora::to_radix(&q.d, radix)); let (a, b) = if up { (a.to_uppercase(), b.to_uppercase()) } else { (a, b) }; format!("{}{}{}/{}{}", s, p, a, p, b) };
    let cases = [
        ("{}", no_panic("{}", || format!("{}", r))?, f("", 10, false), true),
        ("{:#b}", no_panic("{:#b}", || format!("{:#b}", r))?, f("0b", 2, false), true),
        ("{:#o}", no_panic("{:#o}", || format!("{:#o}", r))?, f("0o", 8, false), true),
        ("{:#x}", no_panic("{:#x}", || format!("{:#x}", r))?, f("0x", 16, false), true),
        ("{:#X}", no_panic("{:#X}", || format!("{:#X}", r))?, f("0x", 16, true), true),
        ("{:b}", no_panic("{:b}", || format!("{:b}", r))?, f("", 2, false), false),
        ("{:o}", no_panic("{:o}", || format!("{:o}", r))?, f("", 8, false), false),
        ("{:x}", no_panic("{:x}", || format!("{:x}", r))?, f("", 16, false), false),
        ("{:X}", no_panic("{:X}", || format!("{:X}", r))?, f("", 16, true), false),
    ];
    for (n, g, w, back) in cases.iter() {
        ok(g == w, || format!("{}: got {} want {}", n, g, w))?;
        if *back { match no_panic("parse", || Rat::from_str(g))? { Ok(v) => eq_rat(&format!("parse of {:?}", g), &v, &q)?, Err(e) => return Err(format!("{:?} rejected: {}", g, e)) } }
    }
    Ok(())
}
fn radix_text(c: &mut Ctx, a: &U) -> String {
    let (radix, p) = [(10u32, ""), (16, "0x"), (2, "0b"), (8, "0o")][c.weighted(&[4, 2, 1, 1])];
    format!("{}{}", p, ora::to_radix(a, radix))
}
fn c26_parse(c: &mut Ctx) -> R {
    let q = gen_q(c, 3);
    let k = match c.below(3) { 0 => ora::u(1), 1 => ora::u(1 + c.upto(100) as u128), _ => gen_u_pos(c, 2) };
    let (n, d) = (ora::mul(&q.n.m, &k), ora::mul(&q.d, &k));
    let int = c.chance(1, 5);
    let (sn, sd) = (["", "-", "+"][c.weighted(&[3, 3, 1])], ["", "-", "+"][c.weighted(&[4, 1, 1])]);
    let t = if int { format!("{}{}", sn, radix_text(c, &n)) } else { let a = radix_text(c, &n); let b = radix_text(c, &d); format!("{}{}/{}{}", sn, a, sd, b) };
    let t = if c.chance(1, 6) { format!(" {}\n", t) } else { t };
    c.note(|| format!("text={:?}", t));
    if k != ora::u(1) { c.nontrivial(); c.label("not in lowest terms"); }
    if n.is_empty() && (sn == "-" || sd == "-") { c.nontrivial(); c.label("minus zero"); }
    let w = if int { Q::int(I::new(sn == "-", n)) } else { Q::new(I::new((sn == "-") != (sd == "-"), n), d) };
    match no_panic("parse", || Rat::from_str(&t))? {
        Ok(v) => { eq_rat(&format!("parse of {:?}", t), &v, &w)?; ok(v == rat(&w) && v.is_integer() == Some(w.d == ora::u(1)), || "parsed value differs from the constructed one".into()) }
        Err(e) => Err(format!("{:?} rejected: {}", t, e)),
    }
}
fn c26_decimal(c: &mut Ctx) -> R {
    let mut s = String::new();
    let lim = match c.weighted(&[6, 3, 1]) { 0 => 12, 1 => 40, _ => c.lim(120, 600) as u64 };
    let (i, f) = (c.size(lim) as usize, c.size(lim) as usize);
    let (i, f) = if i + f == 0 { (1, 0) } else { (i, f) };
    let neg = c.chance(1, 3);
    if neg { s.push('-'); } else if c.chance(1, 6) { s.push('+'); }
    let (ip, fp) = (gen_digits(c, i), gen_digits(c, f));
    let all = format!("{}{}", ip, fp);
    s.push_str(&ip);
    s.push('.');
    s.push_str(&fp);
    if i + f > 24 { c.label("long"); }
    if f > 0 && fp.bytes().all(|b| b == b'0') { c.label("fraction of zeros"); }
    let mut e = 0i64;
    if c.chance(1, 2) {
        e = match c.weighted(&[4, 2, 1]) { 0 => c.range(-12, 12), 1 => c.range(-60, 60), _ => c.range(-400, 400) };
        s.push_str(["e", "E"][c.below(2)]);
        if e >= 0 && c.chance(1, 3) { s.push('+'); }
        s.push_str(&e.to_string());
    }
    c.note(|| format!("text={:?}", s));
    c.nontrivial();
    let n = I::new(neg, ora::parse_radix(&all, 10));
    let k = e - f as i64;
    let p = ora::pow(&ora::u(10), k.unsigned_abs());
    let w = if k >= 0 { Q::int(I::new(n.neg, ora::mul(&n.m, &p))) } else { Q::new(n, p) };
    match no_panic("parse", || Rat::from_str(&s))? {
        Ok(v) => eq_rat(&format!("parse of {:?}", s), &v, &w),
        Err(e) => Err(format!("{:?} rejected: {}", s, e)),
    }
}
fn c26_strange(c: &mut Ctx) -> R {
    let q = gen_q(c, 2);
    let good = match c.below(4) {
        0 => q.n.dec(),
        1 => format!("{}{}.{}", ["", "-", "+"][c.below(3)], c.upto(9999), c.upto(9999)),
        2 => format!("{}{}.{}{}{}", ["", "-"][c.below(2)], c.upto(9999), c.upto(9999), ["e", "E", "e-", "e+"][c.below(4)], c.upto(40)),
        _ => format!("{}/{}", q.n.dec(), ora::dec(&q.d)),
    };
    let t = strange_text(c, &good);
    c.note(|| format!("text={:?}", t));
    c.nontrivial();
    match no_panic("parse", || Rat::from_str(&t))? { Err(_) => Ok(()), Ok(r) => Err(format!("{:?} accepted as {}", t, shr(&r))) }
}
fn c26_malformed(c: &mut Ctx) -> R {
    c.nontrivial();
    let t: String = match c.below(4) {
        0 => ["", " ", "/", "1/", "/2", "1//2", "1/2/3", "-", "-/2", "1/-", "x", "1/x", "0x/1", "1/0x", ".", "-.", "e5", ".e5", "1.2.3", "1.2/3", "1/2.5", "1..", "--1/2", "1/--2", "inf", "nan", "NaN", "1.5e", "1.5e+", "中/1", "1/中", "1.5中", "½", "0b2/1", "0o8/3", "1.5f", "1_0/2"][c.below(37)].to_string(),
        1 => { // zero denominators
            let n = gen_i(c, 2);
            let z = ["0", "-0", "0x0", "00", "0b0", "+0", "0o0"][c.below(7)];
            format!("{}/{}", n.dec(), z)
        }
        2 => { let q = gen_q(c, 2); let mut t = format!("{}/{}", q.n.dec(), ora::dec(&q.d)); let ch = ['_', 'g', '!', '/', ',', '中', 'z', '😀'][c.below(8)]; let p = 1 + c.below(t.len()); t.insert(p, ch); t }
        _ => {
            let n = c.size(12);
            let mut t = String::new();
            for _ in 0..n { t.push(match c.weighted(&[4, 4, 1]) { 0 => (b'0' + c.below(10) as u8) as char, 1 => ['0', 'x', 'b', '/', '+', '-', 'f', '.', 'e', 'E', ' '][c.below(11)], _ => weird_char(c) }); }
            c.note(|| format!("text={:?}", t));
            // any outcome but a panic or a non-rational value; exponents of many digits only cost time
            if t.contains('.') && t.len() > t.find(|x| x == 'e' || x == 'E').unwrap_or(t.len()) + 5 { return c.discard(); }
            if let Ok(r) = no_panic("parse", || Rat::from_str(&t))? { ok(!r.is_nan(), || format!("{:?} parsed as NaN", t))?; let (n, d) = (val(r.numerator())?, val(r.denominator())?); ok(!d.is_zero() && !d.neg && ora::gcd(&n.m, &d.m) == ora::u(1), || format!("{:?} parsed as {}", t, shr(&r)))?; }
            return Ok(());
        }
    };
    c.note(|| format!("text={:?}", t));
    match no_panic("parse", || Rat::from_str(&t))? { Err(_) => Ok(()), Ok(r) => Err(format!("{:?} accepted as {}", t, shr(&r))) }
}

#[allow(dead_code)]
fn _unused(_: Nat) {}

pub const PROPS: &[Prop] = &[
    Prop { id: "C23", rule: "nonzero operands with a proper denominator, a constructor or unary operation, or a chain of three or more steps",
        laws: &[Law { name: "binary", weight: 4, run: c23_ops }, Law { name: "unary", weight: 2, run: c23_unary }, Law { name: "build", weight: 2, run: c23_build }, Law { name: "chain", weight: 2, run: c23_chain }],
        quick: 80_000, thorough: 1_200_000, assumptions: &["numerators and denominators up to 4 words in the quick tier, 40 in the thorough tier; chains of up to 12 steps (62)"] },
    Prop { id: "C24", rule: "same sign and different denominators, or a sorted list",
        laws: &[Law { name: "pairs", weight: 4, run: c24_order }, Law { name: "sorting", weight: 1, run: c24_triples }],
        quick: 92_000, thorough: 1_920_000, assumptions: &["numerators and denominators up to about 16 words in the quick tier"] },
    Prop { id: "C25", rule: "a nonzero rational or any float bit pattern",
        laws: &[Law { name: "from_float", weight: 3, run: c25_from }, Law { name: "to_float", weight: 5, run: c25_to }],
        quick: 200_000, thorough: 2_760_000, assumptions: &["finite floats; rationals with numerators and denominators up to about 2500 bits"] },
    Prop { id: "C26", rule: "a proper fraction, text not in lowest terms, a decimal, minus zero, or malformed text",
        laws: &[Law { name: "format", weight: 3, run: c26_format }, Law { name: "parse", weight: 3, run: c26_parse }, Law { name: "decimal", weight: 2, run: c26_decimal }, Law { name: "malformed", weight: 2, run: c26_malformed }, Law { name: "strange", weight: 2, run: c26_strange }],
        quick: 300_000, thorough: 3_600_000, assumptions: &["decimal exponents between -400 and 400"] },
];
