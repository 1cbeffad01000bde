//! C27-C32: floats.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, I, Q, U};
use crate::p_rat::{gen_f32_bits, gen_f64_bits, rat, round_bits};
use rmath::bigint::float::{Accuracy, RoundingMode};
use rmath::bigint::{Float, Rat};
use std::cmp::Ordering;
use std::str::FromStr;

const MAXE: i64 = i32::MAX as i64;
const MINE: i64 = i32::MIN as i64;
pub const MODES: [RoundingMode; 6] = [RoundingMode::ToNearestEven, RoundingMode::ToNearestAway, RoundingMode::ToZero, RoundingMode::AwayFromZero, RoundingMode::ToNegativeInf, RoundingMode::ToPositiveInf];
const MNAME: [&str; 6] = ["ToNearestEven", "ToNearestAway", "ToZero", "AwayFromZero", "ToNegativeInf", "ToPositiveInf"];
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Zero, Fin, Inf, Nan }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A { Below, Exact, Above }
fn acc(a: Accuracy) -> A { match a { Accuracy::Below => A::Below, Accuracy::Exact => A::Exact, Accuracy::Above => A::Above } }

/// model value: (-1)^neg * m * 2^e
#[derive(Clone, PartialEq)]
pub struct F { k: K, neg: bool, m: U, e: i64, prec: usize, mode: usize, /* a special value only: made in place out of this number */ old: Option<(usize, Box<F>)> }
impl F {
    fn fin(neg: bool, m: U, e: i64, prec: usize, mode: usize) -> F {
        let t = ora::tz(&m);
        F { k: K::Fin, neg, m: ora::shr(&m, t), e: e + t as i64, prec, mode, old: None }
    }
    fn special(k: K, neg: bool, prec: usize, mode: usize) -> F { F { k, neg, m: vec![], e: 0, prec, mode, old: None } }
    fn exp(&self) -> i64 { ora::bits(&self.m) as i64 + self.e }
    fn q(&self) -> Q { let n = I::new(self.neg, self.m.clone()); if self.e >= 0 { Q::int(n.shl(self.e as usize)) } else { Q::new(n, ora::shl(&ora::u(1), (-self.e) as usize)) } }
    fn negated(&self) -> F { let mut f = self.clone(); f.neg = !f.neg; f }
    pub fn txt(&self) -> String {
        let v = match self.k { K::Zero => "0".into(), K::Inf => "Inf".into(), K::Nan => "NaN".into(), K::Fin => format!("0x{}*2^{}", ora::hex(&self.m), self.e) };
        let o = match &self.old { Some((h, b)) => format!(" made in place ({}) from {}", h, b.txt()), None => String::new() };
        format!("{}{} (prec {} {}{})", if self.neg { "-" } else { "+" }, v, self.prec, MNAME[self.mode], o)
    }
}
/// the crate's value, built from an integer, a binary exponent, a precision and a mode
/// how many trailing zero bits the stored mantissa keeps: any number that fits the precision represents
/// the same value, and which one is stored must not matter (a fixed function of the operand)
fn trailing(f: &F) -> usize {
    let room = f.prec.saturating_sub(ora::bits(&f.m));
    let h = (f.m[0] as u64 ^ (f.m.len() as u64) << 7 ^ (f.e as u64) << 20 ^ (f.prec as u64) << 3).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
    match h % 5 { 0 | 1 => room, 2 => (h >> 8) as usize % (room + 1), _ => 0 }
}
pub fn build(f: &F) -> Float {
    let mut z = match f.k {
        K::Zero | K::Inf | K::Nan if f.old.is_some() => build_over(f),
        K::Zero => { let mut z = if f.neg { Float::from(-0.0f64) } else { Float::from(0.0f64) }; z.set_precision(0); z }
        K::Inf => Float::get_inf(f.neg),
        K::Nan => Float::from(f64::NAN),
        K::Fin => {
            let t = trailing(f);
            let n = Float::from(nat(&ora::shl(&f.m, t)));
            let n = if f.neg { -n } else { n };
            let mut z = Float::default();
            z.set_mant_exp(n, (f.e - t as i64) as isize);
            z
        }
    };
    if z.get_precision() != f.prec { z.set_precision(f.prec); }
    z.set_mode(MODES[f.mode]);
    z
}
/// zero, infinity or NaN, reached in place from a finite number
fn build_over(f: &F) -> Float {
    let (how, base) = f.old.as_ref().unwrap();
    let mut z = build(base);
    match f.k {
        K::Zero => match how % 5 {
            0 => z.set_precision(0),
            1 => z *= Float::from(0.0f64),
            2 => { z.set_mode(RoundingMode::ToZero); z /= Float::get_inf(false); }
            3 => { let y = z.deep_clone(); z -= y; }
            _ => { z.set_mode(RoundingMode::ToZero); let me = z.clone(); z.set_mant_exp(me, isize::MIN / 4); }
        },
        _ => {
            match how % 4 {
                0 => z /= Float::from(0.0f64),
                1 => z *= Float::get_inf(false),
                2 => z += Float::get_inf(false),
                _ => { z.set_mode(RoundingMode::ToNearestAway); let me = z.clone(); z.set_mant_exp(me, isize::MAX / 4); }
            }
            if f.k == K::Nan { if how % 2 == 0 { z *= Float::from(0.0f64) } else { let y = z.deep_clone(); z -= y; } }
        }
    }
    if f.k != K::Nan && z.is_negative() != Some(f.neg) { z = -z; }
    z
}
pub fn shf(x: &Float) -> String {
    if x.is_nan() { return "NaN".into(); }
    let s = if x.is_negative() == Some(true) { "-" } else { "+" };
    let m = MODES.iter().position(|m| *m == x.get_mode()).unwrap();
    let v = if x.is_infinite() == Some(true) { "Inf".to_string() } else if x.signnum() == Some(0) { "0".into() } else {
        match guard(|| { let (m, e) = x.mant_exp(); let mut z = Float::default(); z.set_mant_exp(m.abs(), 64); (z.truncate_to_u64().unwrap().0, e, x.required_min_precision()) }) {
            Ok((t, e, b)) => format!("0.[{:#018x}..]*2^{} ({} bits)", t, e, b), Err(m) => format!("<unreadable: {}>", m) }
    };
    format!("{}{} (prec {} {} {:?})", s, v, x.get_precision(), MNAME[m], acc(x.get_accuracy()))
}
/// the value (not precision, mode, accuracy) is want's
pub fn same_value(what: &str, got: &Float, w: &F) -> R {
    let bad = |t: &str| Err(format!("{}: {}: got {} want {}", what, t, shf(got), w.txt()));
    if got.is_nan() != (w.k == K::Nan) { return bad("NaN"); }
    if w.k == K::Nan { return Ok(()); }
    if got.is_negative() != Some(w.neg) { return bad("sign"); }
    let s = if w.k == K::Zero { 0 } else if w.neg { -1 } else { 1 };
    if got.signnum() != Some(s) { return bad("signnum"); }
    if got.is_infinite() != Some(w.k == K::Inf) { return bad("infinity"); }
    if w.k != K::Fin { return Ok(()); }
    let r = guard(|| {
        let b = ora::bits(&w.m);
        let mut ww = w.clone();
        ww.prec = b.max(64);
        let z = build(&ww);
        let top = { let t = if b >= 64 { ora::shr(&w.m, b - 64) } else { ora::shl(&w.m, 64 - b) }; t[0] as u64 | (t[1] as u64) << 32 };
        let (m, e) = got.mant_exp();
        let mut t = Float::default();
        t.set_mant_exp(m.abs(), 64);
        e as i64 == w.exp() && got.required_min_precision() == b && t.truncate_to_u64().map(|x| x.0) == Some(top) && *got == z && z == *got && got.partial_cmp(&z) == Some(Ordering::Equal)
    });
    match r { Ok(true) => Ok(()), Ok(false) => bad("value"), Err(m) => bad(&format!("unreadable value ({})", m)) }
}
pub fn same(what: &str, got: &Float, w: &F, a: Option<A>) -> R {
    same_value(what, got, w)?;
    if w.k == K::Nan { return Ok(()); }
    ok(got.get_precision() == w.prec, || format!("{}: precision: got {} want {}", what, shf(got), w.txt()))?;
    ok(got.get_mode() == MODES[w.mode], || format!("{}: rounding mode: got {} want {}", what, shf(got), w.txt()))?;
    if let Some(a) = a { ok(acc(got.get_accuracy()) == a, || format!("{}: accuracy: got {} want {} {:?}", what, shf(got), w.txt(), a))?; }
    Ok(())
}

/// (n + s)*2^e with 0 < s < 1 if sticky, rounded to prec bits: (mantissa, exponent, relation to the exact magnitude)
fn round_mag(neg: bool, n: &U, sticky: bool, e: i64, prec: usize, mode: usize) -> (U, i64, Ordering) {
    let b = ora::bits(n);
    assert!(!sticky || b > prec + 1);
    if b <= prec { return (n.clone(), e, Ordering::Equal); }
    let k = b - prec;
    let q = ora::shr(n, k);
    let rest = ora::sub(n, &ora::shl(&q, k));
    let half = { let c = ora::cmp(&rest, &ora::shl(&ora::u(1), k - 1)); if c == Ordering::Equal && sticky { Ordering::Greater } else { c } };
    if rest.is_empty() && !sticky { return (q, e + k as i64, Ordering::Equal); }
    let inc = match mode {
        0 => half == Ordering::Greater || (half == Ordering::Equal && ora::bit(&q, 0)),
        1 => half != Ordering::Less,
        2 => false,
        3 => true,
        4 => neg,
        _ => !neg,
    };
    if inc { (ora::add(&q, &ora::u(1)), e + k as i64, Ordering::Greater) } else { (q, e + k as i64, Ordering::Less) }
}
fn acc_of(neg: bool, o: Ordering) -> A { match (o, neg) { (Ordering::Equal, _) => A::Exact, (Ordering::Greater, false) | (Ordering::Less, true) => A::Above, _ => A::Below } }
/// rounded result; None when the exponent range decides between neighbours
fn finish(neg: bool, n: &U, sticky: bool, e: i64, prec: usize, mode: usize) -> Option<(F, A)> {
    let (m, e2, o) = round_mag(neg, n, sticky, e, prec, mode);
    let pre = ora::bits(n) as i64 + e;
    if pre < MINE {
        if ora::bits(&m) as i64 + e2 >= MINE { return None; }
        return Some((F::special(K::Zero, neg, prec, mode), acc_of(neg, Ordering::Less)));
    }
    if ora::bits(&m) as i64 + e2 > MAXE { return Some((F::special(K::Inf, neg, prec, mode), acc_of(neg, Ordering::Greater))); }
    Some((F::fin(neg, m, e2, prec, mode), acc_of(neg, o)))
}
/// the value of f at another precision and mode
fn refit(f: &F, neg: bool, prec: usize, mode: usize) -> (F, A) {
    if f.k != K::Fin { return (F::special(f.k, neg, prec, mode), A::Exact); }
    finish(neg, &f.m, false, f.e, prec, mode).expect("in range")
}
fn align(a: &F, b: &F) -> (I, I, i64) {
    let e = a.e.min(b.e);
    (I::new(a.neg, ora::shl(&a.m, (a.e - e) as usize)), I::new(b.neg, ora::shl(&b.m, (b.e - e) as usize)), e)
}
const OPS: [&str; 4] = ["+", "-", "*", "/"];
/// what x op y must be; Nan = undefined
fn model(op: usize, x: &F, y: &F) -> Option<(F, A)> {
    let prec = if x.prec == 0 { y.prec } else { x.prec };
    let mode = x.mode;
    let undef = Some((F::special(K::Nan, false, prec, mode), A::Exact));
    if x.k == K::Nan || y.k == K::Nan { return undef; }
    if op < 2 {
        let y = if op == 1 { y.negated() } else { y.clone() };
        return match (x.k, y.k) {
            (K::Inf, K::Inf) => if x.neg == y.neg { Some((F::special(K::Inf, x.neg, prec, mode), A::Exact)) } else { undef },
            (K::Inf, _) => Some((F::special(K::Inf, x.neg, prec, mode), A::Exact)),
            (_, K::Inf) => Some((F::special(K::Inf, y.neg, prec, mode), A::Exact)),
            (K::Zero, K::Zero) => Some((F::special(K::Zero, if x.neg == y.neg { x.neg } else { mode == 4 }, prec, mode), A::Exact)),
            (K::Zero, _) => finish(y.neg, &y.m, false, y.e, prec, mode),
            (_, K::Zero) => finish(x.neg, &x.m, false, x.e, prec, mode),
            _ => {
                let (a, b, e) = align(x, &y);
                let s = a.add(&b);
                if s.is_zero() { return Some((F::special(K::Zero, mode == 4, prec, mode), A::Exact)); }
                finish(s.neg, &s.m, false, e, prec, mode)
            }
        };
    }
    let neg = x.neg != y.neg;
    let sp = |k| Some((F::special(k, neg, prec, mode), A::Exact));
    if op == 2 {
        match (x.k, y.k) {
            (K::Zero, K::Inf) | (K::Inf, K::Zero) => undef,
            (K::Inf, _) | (_, K::Inf) => sp(K::Inf),
            (K::Zero, _) | (_, K::Zero) => sp(K::Zero),
            _ => finish(neg, &ora::mul(&x.m, &y.m), false, x.e + y.e, prec, mode),
        }
    } else {
        match (x.k, y.k) {
            (K::Zero, K::Zero) | (K::Inf, K::Inf) => undef,
            (K::Zero, _) | (_, K::Inf) => sp(K::Zero),
            (K::Inf, _) | (_, K::Zero) => sp(K::Inf),
            _ => {
                let s = (prec + 3 + ora::bits(&y.m)).saturating_sub(ora::bits(&x.m));
                let (q, r) = ora::divrem(&ora::shl(&x.m, s), &y.m);
                finish(neg, &q, !r.is_empty(), x.e - y.e - s as i64, prec, mode)
            }
        }
    }
}
fn val_op(op: usize, x: Float, y: Float) -> Float { match op { 0 => x + y, 1 => x - y, 2 => x * y, _ => x / y } }
fn asg_op(op: usize, x: &mut Float, y: Float) { match op { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => *x /= y } }

fn gen_prec(c: &mut Ctx) -> usize {
    let max = c.lim(200, 2000);
    let long = c.long;
    1 + c.raw(max, |r, d| { if long && r.chance(1, 2) { return r.upto(max); } let v = match r.upto(9) { 0..=2 => r.upto(8), 3 => r.upto(31), 4 | 5 => 32 * (1 + r.upto(3)) + r.upto(4) - 3, 6 => [23, 52, 63, 111][r.upto(3) as usize], 7 => if d.is_empty() { r.upto(max) } else { d[r.upto(d.len() as u64 - 1) as usize] }, _ => r.upto(max) }; v.min(max) }) as usize
}
fn c_lim(thorough: bool, a: u64, b: u64) -> u64 { if thorough { b } else { a } }
/// a nonzero mantissa of at most p bits
fn gen_mant(c: &mut Ctx, p: usize) -> U {
    let b = match c.weighted(&[5, 2]) { 0 => p, _ => 1 + c.below(p) };
    if b >= 3 && c.chance(1, 8) { // two bits, or all ones but one
        let k = c.below(b - 1);
        let m = ora::add(&ora::shl(&ora::u(1), b - 1), &ora::shl(&ora::u(1), k));
        return if c.chance(1, 2) { m } else { ora::sub(&ora::sub(&ora::shl(&ora::u(1), b), &ora::u(1)), &ora::shl(&ora::u(1), k)) };
    }
    let w = gen_words(c, (b + 31) / 32);
    let mut m = ora::trim(w);
    let l = ora::bits(&m);
    if l > b { m = ora::shr(&m, l - b); }
    if m.is_empty() { ora::u(1) } else { m }
}
fn gen_e(c: &mut Ctx) -> i64 { match c.weighted(&[4, 3, 2]) { 0 => c.range(-8, 8), 1 => c.range(-100, 100), _ => { let l = c.lim(1200, 20000); c.range(-l, l) } } }
pub fn gen_fin(c: &mut Ctx) -> F {
    let prec = gen_prec(c);
    let mode = c.below(6);
    let m = gen_mant(c, prec);
    let e = gen_e(c);
    let neg = c.chance(1, 2);
    F::fin(neg, m, e, prec, mode)
}
fn mk(c: &mut Ctx, neg: bool, m: U, e: i64) -> F {
    let m = if m.is_empty() { ora::u(1) } else { m };
    let b = ora::bits(&ora::shr(&m, ora::tz(&m)));
    let prec = b + if c.chance(1, 2) { 0 } else { c.size(70) as usize };
    let mode = c.below(6);
    F::fin(neg, m, e, prec, mode)
}
/// an operand related to x
fn gen_fin_related(c: &mut Ctx, x: &F) -> F {
    let neg = c.chance(1, 2);
    match c.weighted(&[5, 3, 2, 4, 2, 2, 1]) {
        0 => gen_fin(c),
        1 => { // neighbours of the same magnitude
            let m = gen_related(c, &x.m, 8);
            let e = x.e + c.range(-2, 2);
            mk(c, neg, m, e)
        }
        2 => mk(c, neg, x.m.clone(), x.e),
        3 => { // around the half unit in the last place of x at its precision
            let ulp = x.exp() - x.prec as i64;
            let k = [1u128, 1, 2, 3, 5][c.below(5)];
            let half = F::fin(neg, ora::u(k), ulp - 1 - c.range(0, 1), 64, 0);
            match c.below(3) { 0 => mk(c, neg, half.m, half.e), j => { // just off the tie
                let s = 1 + c.size(150) as usize;
                let m = ora::shl(&half.m, s);
                let m = if j == 1 { ora::add(&m, &ora::u(1)) } else { ora::sub(&m, &ora::u(1)) };
                mk(c, neg, m, half.e - s as i64) } }
        }
        4 => { let e = x.exp() - x.prec as i64 - c.range(-3, 3) - c.size(200) as i64; let m = gen_mant(c, 40); mk(c, neg, m, e) }
        5 => { let l = c.lim(3000, 100_000); let e = x.e + c.range(-l, l); let m = gen_mant(c, 70); mk(c, neg, m, e) }
        _ => { let e = c.range(-64, 64); mk(c, neg, ora::u(1), e) }
    }
}
fn check_op(c: &mut Ctx, op: usize, x: &F, y: &F) -> R {
    let (w, a) = match model(op, x, y) { Some(t) => t, None => return Ok(()) };
    if a != A::Exact { c.label("inexact"); } else if w.k == K::Zero && x.k == K::Fin { c.label("zero or underflow"); }
    let t = format!("({}) {} ({})", x.txt(), OPS[op], y.txt());
    let (fx, fy) = (build(x), build(y));
    if w.k == K::Nan {
        c.label("undefined");
        if let Ok(r) = guard(|| val_op(op, fx.clone(), fy.clone())) { ok(r.is_nan(), || format!("{}: undefined, got {}", t, shf(&r)))?; }
        let mut z = build(x);
        if guard(|| asg_op(op, &mut z, fy.clone())).is_ok() { ok(z.is_nan(), || format!("{} in place: undefined, got {}", t, shf(&z)))?; }
    } else {
        let r = no_panic(&t, || val_op(op, fx.clone(), fy.clone()))?;
        same(&t, &r, &w, Some(a))?;
        let mut z = build(x);
        no_panic(&t, || asg_op(op, &mut z, fy.clone()))?;
        same(&format!("{} in place", t), &z, &w, Some(a))?;
        // an accuracy left over from earlier rounding says nothing about this result
        if x.k == K::Fin {
            let mut s = build(&F { prec: x.prec + 40, m: ora::add(&ora::shl(&x.m, 300), &ora::u(1)), e: x.e - 300, mode: 2, ..x.clone() });
            s.set_precision(x.prec);
            if same_value("", &s, x).is_ok() { s.set_mode(MODES[x.mode]); }
            let mut s = build(&F { prec: ora::bits(&x.m) + 300, m: ora::add(&ora::shl(&x.m, 299), &ora::u(1)), e: x.e - 299, mode: 2, ..x.clone() });
            if x.mode == 2 { s.set_precision(x.prec); if acc(s.get_accuracy()) != A::Exact && same_value("", &s, x).is_ok() { no_panic(&t, || asg_op(op, &mut s, fy.clone()))?; same(&format!("{} in place on a rounded operand", t), &s, &w, Some(a))?; } }
        }
    }
    same("left operand afterwards", &fx, x, None)?;
    same("right operand afterwards", &fy, y, None)
}

// ------------------------------------------------------------------ C27
/// moves finite values together to another part of the exponent range
fn far(c: &mut Ctx, v: &mut [&mut F]) {
    let k = match c.below(3) { 0 => c.range(MINE + 150_000, MAXE - 150_000), 1 => { let s = 13 + c.below(17); c.range(-3, 3) + if c.chance(1, 2) { 1 << s } else { -(1 << s) } } _ => c.range(-100_000, 100_000) };
    for f in v.iter_mut() { if f.k == K::Fin { let (e, b) = (f.e, ora::bits(&f.m) as i64); f.e = (e + k).clamp(MINE + 20_000, MAXE - 20_000 - b); } }
}
fn c27_ops(c: &mut Ctx) -> R {
    let mut x = gen_fin(c);
    let mut y = gen_fin_related(c, &x);
    if c.chance(1, 8) && (x.e - y.e).abs() < 30_000 { let d = x.e - y.e; far(c, &mut [&mut x, &mut y]); if (x.e - y.e).abs() > 30_000 { y.e = x.e - d.clamp(-15_000, 15_000); } c.label("far exponents"); }
    c.note(|| format!("x={} y={}", x.txt(), y.txt()));
    if ora::bits(&x.m) > 1 && ora::bits(&y.m) > 1 { c.nontrivial(); }
    for op in 0..4 { check_op(c, op, &x, &y)?; check_op(c, op, &y, &x)?; }
    Ok(())
}
fn c27_self(c: &mut Ctx) -> R {
    let x = gen_fin(c);
    c.note(|| format!("x={}", x.txt()));
    c.nontrivial();
    for op in 0..4 {
        let (w, a) = model(op, &x, &x).unwrap();
        let f = build(&x);
        same(&format!("x {} x", OPS[op]), &no_panic(OPS[op], || val_op(op, f.clone(), f.clone()))?, &w, Some(a))?;
        same("operand afterwards", &f, &x, None)?;
        let mut z = build(&x);
        let y = z.clone();
        no_panic(OPS[op], || asg_op(op, &mut z, y))?;
        same(&format!("x {}= x", OPS[op]), &z, &w, Some(a))?;
    }
    Ok(())
}
/// products and sums that land on a tie or next to one at the left precision
fn c27_ties(c: &mut Ctx) -> R {
    let p = 1 + c.size(70) as usize;
    let mode = c.below(6);
    let neg = c.chance(1, 2);
    // target: t with p+1 or p+2.. bits
    let extra = 1 + c.size(40) as usize;
    let top = gen_mant(c, p);
    let top = { let b = ora::bits(&top); ora::shl(&top, p - b) };
    let low = match c.below(4) { 0 => ora::shl(&ora::u(1), extra - 1), 1 => { let h = ora::shl(&ora::u(1), extra - 1); ora::add(&h, &ora::u(1)) } 2 => { let h = ora::shl(&ora::u(1), extra - 1); ora::sub(&h, &ora::u(1)) } _ => ora::sub(&ora::shl(&ora::u(1), extra), &ora::u(1)) };
    let t = ora::add(&ora::shl(&top, extra), &low);
    c.note(|| format!("target {} at precision {} {}", sh(&t), p, MNAME[mode]));
    c.nontrivial();
    let e = c.range(-40, 40);
    // as a sum: x holds the leading bits, y the rest
    let x = F::fin(neg, top.clone(), e + extra as i64, p, mode);
    if !low.is_empty() { let y = mk(c, neg, low.clone(), e); check_op(c, 0, &x, &y)?; check_op(c, 1, &x, &y.negated())?; }
    // as a difference from the next value up
    let up = ora::add(&top, &ora::u(1));
    if ora::bits(&ora::shr(&up, ora::tz(&up))) <= p {
        let d = ora::sub(&ora::shl(&up, extra), &t);
        let x = F::fin(neg, up, e + extra as i64, p, mode);
        if !d.is_empty() { let y = mk(c, neg, d, e); check_op(c, 1, &x, &y)?; check_op(c, 0, &x, &y.negated())?; }
    }
    // as a product 1 * t, 2^k * t and a zero plus t
    let (on, oe) = (c.chance(1, 2), c.range(-5, 5));
    let one = F::fin(on, ora::u(1), oe, p, mode);
    let y = mk(c, neg, t.clone(), e);
    check_op(c, 2, &one, &y)?;
    check_op(c, 0, &F::special(K::Zero, false, p, mode), &y)?;
    check_op(c, 1, &F::special(K::Zero, true, p, mode), &y)
}
/// quotients and products as near to a tie (or to a representable value) as operands of their lengths allow
fn c27_near(c: &mut Ctx) -> R {
    let lm = c.lim(100, 400);
    let p = 1 + c.size(lm) as usize;
    let mode = c.below(6);
    let (nx, ny) = (c.chance(1, 2), c.chance(1, 2));
    let (ex, ey) = (c.range(-40, 40), c.range(-40, 40));
    c.nontrivial();
    // quotient: p bits and the tie bit, or p bits only
    let mut m = gen_mant(c, p + 1);
    if c.chance(2, 3) { m = ora::shl(&m, p + 1 - ora::bits(&m)); }
    m[0] |= 1;
    let t = 1 + c.size(lm) as usize;
    let above = c.chance(1, 2);
    let (n, d) = near_ratio(&m, t, above);
    if !n.is_empty() && !d.is_empty() {
        c.note(|| format!("quotient next to {} / 2^{} at precision {} {}", sh(&m), t, p, MNAME[mode]));
        // the left operand's precision decides, or the right one's when the left has none of its own
        let b = ora::bits(&ora::shr(&n, ora::tz(&n)));
        let x = F::fin(nx, n, ex, p.max(b), mode);
        let y = mk(c, ny, d, ey);
        check_op(c, 3, &x, &y)?;
    }
    // product: b makes the low k bits of a*b (almost) a tie
    let mut a = gen_mant(c, p);
    a = ora::shl(&a, p - ora::bits(&a));
    a[0] |= 1;
    let k = 2 + c.size(lm) as usize;
    let half = ora::shl(&ora::u(1), k - 1 - c.below(2));
    let low = match c.below(3) { 0 => half, 1 => ora::add(&half, &ora::u(1)), _ => ora::sub(&half, &ora::u(1)) };
    let b = low_bits(&ora::mul(&low, &inv_pow2(&a, k)), k);
    if !b.is_empty() {
        c.note(|| format!("product of {} whose low {} bits are {} at precision {} {}", sh(&a), k, sh(&low), p, MNAME[mode]));
        let x = F::fin(nx, a, ex, p, mode);
        let y = mk(c, ny, b, ey);
        check_op(c, 2, &x, &y)?;
    }
    Ok(())
}
/// any left operand, completed by the right operand that carries the sum or difference to (or just past) a tie,
/// a representable value or a power of two: the exponents may differ either way, and either operand may be the longer
fn c27_sum_to(c: &mut Ctx) -> R {
    let lm = c.lim(130, 400);
    let p = match c.below(4) { 0 => 1 + c.below(6), 1 => 32 * (1 + c.below(3)) - 1 + c.below(3), _ => 1 + c.size(lm) as usize };
    let mode = c.below(6);
    let nt = c.chance(1, 2);
    // the target: p leading bits, then a pattern
    let mut t = match c.below(4) { 0 => ora::sub(&ora::shl(&ora::u(1), p), &ora::u(1)), 1 => ora::shl(&ora::u(1), p - 1), _ => { let m = gen_mant(c, p); ora::shl(&m, p - ora::bits(&m)) } };
    let z = 1 + match c.below(3) { 0 => c.below(4), 1 => 32 * c.below(4), _ => c.size(150) as usize };
    let low = match c.below(6) { 0 => vec![], 1 => ora::u(1), 2 => ora::sub(&ora::shl(&ora::u(1), z), &ora::u(1)), 3 => ora::shl(&ora::u(1), z - 1), 4 => ora::add(&ora::shl(&ora::u(1), z - 1), &ora::u(1)), _ => ora::sub(&ora::shl(&ora::u(1), z - 1), &ora::u(1)) };
    t = ora::add(&ora::shl(&t, z), &low);
    let e = c.range(-60, 60);
    let t = F::fin(nt, t, e, 1, 0);
    // the left operand: p bits or fewer, its top anywhere around the target's
    let m = match c.below(3) { 0 => ora::u(1), 1 => { let m = gen_mant(c, p); ora::shl(&m, p - ora::bits(&m)) } _ => gen_mant(c, p) };
    let d = match c.below(5) { 0 => c.range(-3, 3), 1 => -(p as i64) + c.range(-3, 3), 2 => -(p as i64) - z as i64 + c.range(-3, 3), 3 => c.range(-40, 40), _ => { let r = (p + z) as i64; c.range(-r - 40, r) } };
    let nx = c.chance(1, 2);
    let xe = t.exp() + d - ora::bits(&m) as i64;
    let x = F::fin(nx, m, xe, p, mode);
    let (a, b, e) = align(&t, &x);
    let y = a.sub(&b);
    c.note(|| format!("x={} target {}", x.txt(), t.txt()));
    c.nontrivial();
    if y.is_zero() { c.label("right operand would be zero"); return Ok(()); }
    let y = mk(c, y.neg, y.m, e);
    if y.exp() > x.exp() { c.label("left operand the smaller"); }
    if y.prec > x.prec { c.label("right operand the longer"); }
    check_op(c, 0, &x, &y)?;
    check_op(c, 1, &x, &y.negated())
}
/// histories: results feed later operations, in-place targets keep their state
fn c27_chain(c: &mut Ctx) -> R {
    let lm = c.lim(12, 60);
    let steps = 3 + c.size(lm);
    let mut st: Vec<(Float, F)> = Vec::new();
    for _ in 0..2 { let mut f = gen_fin(c); f = F::fin(f.neg, f.m, f.e % 100, f.prec, f.mode); st.push((build(&f), f)); }
    c.nontrivial();
    for k in 0..steps {
        let (i, j) = (c.below(st.len()), c.below(st.len()));
        let (a, b) = (st[i].1.clone(), st[j].1.clone());
        if a.k == K::Fin && (a.e.abs() > 6000 || ora::bits(&a.m) > 6000) { continue; }
        if b.k == K::Fin && (b.e.abs() > 6000 || ora::bits(&b.m) > 6000) { continue; }
        match c.weighted(&[8, 8, 2, 1, 1, 1, 1]) {
            0 => {
                let op = c.below(4);
                c.note(|| format!("{}: #{} = #{} {} #{}", k, st.len(), i, OPS[op], j));
                let (w, ac) = match model(op, &a, &b) { Some(t) => t, None => continue };
                if w.k == K::Nan { continue; }
                let r = no_panic(OPS[op], || val_op(op, st[i].0.clone(), st[j].0.clone()))?;
                same(&format!("step {}: ({}) {} ({})", k, a.txt(), OPS[op], b.txt()), &r, &w, Some(ac))?;
                st.push((r, w));
            }
            1 => {
                let op = c.below(4);
                c.note(|| format!("{}: #{} {}= #{}", k, i, OPS[op], j));
                let (w, ac) = match model(op, &a, &b) { Some(t) => t, None => continue };
                if w.k == K::Nan { continue; }
                let y = st[j].0.deep_clone();
                no_panic(OPS[op], || asg_op(op, &mut st[i].0, y))?;
                same(&format!("step {}: ({}) {}= ({})", k, a.txt(), OPS[op], b.txt()), &st[i].0, &w, Some(ac))?;
                st[i].1 = w;
            }
            2 => {
                let p = gen_prec(c);
                c.note(|| format!("{}: set_precision(#{}, {})", k, i, p));
                let (w, ac) = refit(&a, a.neg, p, a.mode);
                no_panic("set_precision", || st[i].0.set_precision(p))?;
                same(&format!("step {}: set_precision({}) of {}", k, p, a.txt()), &st[i].0, &w, Some(ac))?;
                st[i].1 = w;
            }
            3 => { let m = c.below(6); c.note(|| format!("{}: set_mode(#{}, {})", k, i, MNAME[m])); st[i].0.set_mode(MODES[m]); st[i].1.mode = m; same("set_mode", &st[i].0, &st[i].1, None)?; }
            4 => { c.note(|| format!("{}: #{} = -#{}", k, st.len(), i)); let r = -st[i].0.clone(); let w = a.negated(); same("neg", &r, &w, None)?; st.push((r, w)); }
            5 => { c.note(|| format!("{}: #{} = deep clone of #{}", k, st.len(), i)); let r = st[i].0.deep_clone(); same("deep_clone", &r, &a, None)?; st.push((r, a)); }
            _ => { if a.k != K::Fin { continue; } let d = c.range(-20, 20); c.note(|| format!("{}: #{} = #{} * 2^{}", k, i, j, d)); let m = st[j].0.deep_clone(); st[i].0.set_mant_exp(m, d as isize); let mut w = b.clone(); if w.k == K::Fin { w.e += d; } same("set_mant_exp", &st[i].0, &w, None)?; st[i].1 = w; }
        }
        for (n, (f, m)) in st.iter().enumerate() { same(&format!("value #{} after step {}", n, k), f, m, None)?; }
    }
    Ok(())
}

// ------------------------------------------------------------------ C28
fn gen_special(c: &mut Ctx) -> F {
    let neg = c.chance(1, 2);
    let mode = c.below(6);
    let k = c.weighted(&[4, 3, 3, 1]);
    let mut f = match k {
        0 | 1 => { let prec = if c.chance(1, 3) { 0 } else { gen_prec(c) }; F::special(if k == 0 { K::Zero } else { K::Inf }, neg, prec, mode) }
        2 => gen_fin(c),
        _ => F::special(K::Nan, false, 0, mode),
    };
    if f.k != K::Fin && c.chance(1, 3) { let b = gen_fin(c); f = made_from(c, f, &b); }
    f
}
/// the same special value, reached in place from b
fn made_from(c: &mut Ctx, mut f: F, b: &F) -> F {
    f.old = Some((c.below(20), Box::new(b.clone())));
    f
}
// ------------------------------------------------------------------ C10 (floats)
pub fn c10_float(c: &mut Ctx) -> R {
    let mut b = gen_special(c);
    if b.k == K::Nan { b = gen_fin(c); }
    let how = c.below(12);
    let (neg, mode, prec) = (c.chance(1, 2), c.below(6), gen_prec(c));
    let k = c.range(-300, 300) as isize;
    c.note(|| format!("NaN made by {} mode {} precision {} with {}", how, MNAME[mode], prec, b.txt()));
    c.nontrivial();
    c.label(match b.k { K::Zero => "zero co-operand", K::Inf => "infinite co-operand", _ => "finite co-operand" });
    let mk = || {
        let inf = Float::get_inf(neg);
        let mut z = match how {
            0 => Float::from(f64::NAN), 1 => Float::from(f32::NAN), 2 => Float::from(nan()), 3 => Float::from(rmath::bigint::BigInt::from(nan())), 4 => Float::from(Rat::from(f64::NAN)),
            5 => inf.clone() - inf.clone(), 6 => inf.clone() / inf.clone(), 7 => inf * Float::from(0u32), 8 => Float::from(0u32) / Float::from(0u32),
            9 => { let mut z = Float::default(); z.set_mant_exp(Float::from(f64::NAN), k); z }
            10 => Float::from(f64::NAN).mant_exp().0,
            _ => -Float::from(f64::NAN).abs(),
        };
        if how % 2 == 1 { z.set_mode(MODES[mode]); z.set_precision(prec); }
        z
    };
    let n = no_panic("making NaN", mk)?;
    ok(n.is_nan(), || format!("not NaN: {}", shf(&n)))?;
    for op in 0..4 {
        for side in 0..3 {
            let (x, y) = match side { 0 => (mk(), build(&b)), 1 => (build(&b), mk()), _ => (mk(), mk()) };
            let t = format!("{} with NaN {}", OPS[op], ["on the left", "on the right", "on both sides"][side]);
            let r = no_panic(&t, || val_op(op, x.clone(), y.clone()))?;
            ok(r.is_nan(), || format!("{} gave {}", t, shf(&r)))?;
            let mut z = x.deep_clone();
            no_panic(&t, || asg_op(op, &mut z, y.clone()))?;
            ok(z.is_nan(), || format!("{} in place gave {}", t, shf(&z)))?;
            ok(x.is_nan() == (side != 1) && y.is_nan() == (side != 0), || format!("{}: an operand changed", t))?;
            if side == 0 { same("right operand", &y, &b, None)?; }
            if side == 1 { same("left operand", &x, &b, None)?; }
            ok(!(x == y) && x.partial_cmp(&y).is_none() && !(x < y) && !(x > y) && !(x <= y) && !(x >= y), || format!("NaN compares ({})", t))?;
        }
    }
    no_panic("function of NaN", || -> R {
        ok((-n.clone()).is_nan() && n.abs().is_nan() && n.deep_clone().is_nan() && n.mant_exp().0.is_nan(), || "neg/abs/clone/mantissa of NaN".into())?;
        ok(n.signnum().is_none() && n.is_integer().is_none() && n.is_negative().is_none() && n.is_infinite().is_none(), || "NaN has a sign or is an integer or infinite".into())?;
        ok(n.to_f64().0.is_nan() && n.to_f32().0.is_nan() && n.truncate_to_i64().is_none() && n.truncate_to_u64().is_none(), || "NaN converts to a number".into())?;
        ok(n.required_min_precision() == 0, || "NaN needs a precision".into())?;
        let mut z = n.deep_clone();
        z.set_precision(prec); ok(z.is_nan(), || "set_precision turns NaN into a number".into())?;
        z.set_precision(0); ok(z.is_nan(), || "set_precision(0) turns NaN into a number".into())?;
        z.set_mode(MODES[mode]); ok(z.is_nan(), || "set_mode turns NaN into a number".into())?;
        let mut z = build(&b);
        z.set_mant_exp(n.deep_clone(), k);
        ok(z.is_nan(), || format!("set_mant_exp of NaN gives {}", shf(&z)))?;
        for q in [format!("{}", n), format!("{:?}", n), format!("{:e}", n), format!("{:E}", n), format!("{:.3e}", n)] { ok(q == "NaN", || format!("NaN prints as {}", q))?; }
        Ok(())
    })??;

    Ok(())
}

fn c28_ops(c: &mut Ctx) -> R {
    let x = gen_special(c);
    let y = gen_special(c);
    c.note(|| format!("x={} y={}", x.txt(), y.txt()));
    if x.k != K::Fin || y.k != K::Fin { c.nontrivial(); }
    for op in 0..4 { check_op(c, op, &x, &y)?; }
    Ok(())
}
fn c28_cancel(c: &mut Ctx) -> R {
    let x = gen_fin(c);
    let mut y = x.clone();
    y.prec += c.size(70) as usize;
    y.mode = c.below(6);
    c.note(|| format!("x={} y={}", x.txt(), y.txt()));
    c.nontrivial();
    check_op(c, 1, &x, &y)?;
    check_op(c, 0, &x, &y.negated())?;
    check_op(c, 1, &y, &x)
}
/// results beyond the exponent range
fn c28_range(c: &mut Ctx) -> R {
    let mut x = gen_fin(c);
    let mut y = gen_fin(c);
    x.prec = x.prec.max(ora::bits(&x.m));
    let lim = if c.chance(1, 2) { MAXE } else { MINE };
    let d = c.range(-6, 6);
    let op = 2 + c.below(2);
    let xe = match c.below(3) { 0 => lim / 2, 1 => lim - c.range(0, 3) * lim.signum(), _ => (c.u64() as i64) % (1 << 31) / 2 + lim / 4 };
    let xe = xe.clamp(MINE, MAXE);
    x.e = xe - ora::bits(&x.m) as i64;
    let ye = (if op == 2 { lim + d - xe } else { xe - lim - d }).clamp(MINE, MAXE);
    y.e = ye - ora::bits(&y.m) as i64;
    c.note(|| format!("x={} {} y={}", x.txt(), OPS[op], y.txt()));
    c.nontrivial();
    if let Some((w, _)) = model(op, &x, &y) { c.label(match w.k { K::Zero => "underflow", K::Inf => "overflow", _ => "in range" }); }
    check_op(c, op, &x, &y)?;
    // scaling by a power of two
    let k = match c.below(3) { 0 => lim + d - xe, 1 => lim, _ => if lim > 0 { i64::MAX } else { i64::MIN } };
    let mut z = Float::default();
    no_panic("set_mant_exp", || z.set_mant_exp(build(&x), k as isize))?;
    let ne = (xe as i128 + k as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
    let (w, a) = if ne > MAXE { (F::special(K::Inf, x.neg, x.prec, x.mode), acc_of(x.neg, Ordering::Greater)) } else if ne < MINE { (F::special(K::Zero, x.neg, x.prec, x.mode), acc_of(x.neg, Ordering::Less)) } else { let mut w = x.clone(); w.e = ne - ora::bits(&x.m) as i64; (w, A::Exact) };
    same(&format!("set_mant_exp({}, {})", x.txt(), k), &z, &w, Some(a))?;
    // a carry out of the largest exponent
    if x.prec > 1 {
        let b = x.prec.min(60) + 1 + c.below(40);
        let m = ora::sub(&ora::shl(&ora::u(1), b), &ora::u(1));
        let f = F::fin(x.neg, m, MAXE - b as i64, b, x.mode);
        let p = 1 + c.below(b - 1);
        let (w, a) = refit(&f, f.neg, p, f.mode);
        let mut z = build(&f);
        no_panic("set_precision", || z.set_precision(p))?;
        same(&format!("set_precision({}) of {}", p, f.txt()), &z, &w, Some(a))?;
    }
    Ok(())
}

/// sums and differences next to the ends of the exponent range: carries out of it, cancellation below it
fn c28_range_sum(c: &mut Ctx) -> R {
    let mut x = gen_fin(c);
    let mut y = match c.below(3) { 0 => gen_fin(c), _ => { let n = c.chance(1, 2); let m = gen_related(c, &x.m, 8); let e = x.e + [0, 0, 0, 1, -1][c.below(5)]; mk(c, n, m, e) } };
    let de = (y.exp() - x.exp()).clamp(-500, 500);
    let up = c.chance(1, 2);
    let xe = if up { MAXE - c.range(0, 3) } else { MINE + match c.below(3) { 0 => c.range(0, 3), 1 => c.range(0, 70), _ => c.range(0, 300) } };
    x.e = xe - ora::bits(&x.m) as i64;
    y.e = (xe + de).clamp(MINE, MAXE) - ora::bits(&y.m) as i64;
    c.note(|| format!("x={} y={}", x.txt(), y.txt()));
    c.nontrivial();
    for op in 0..2 {
        if let Some((w, _)) = model(op, &x, &y) { c.label(match w.k { K::Zero => "zero or underflow", K::Inf => "overflow", _ => "in range" }); }
        check_op(c, op, &x, &y)?;
        check_op(c, op, &y, &x)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C29
fn c29_from_int(c: &mut Ctx) -> R {
    c.nontrivial();
    let x = c.word64();
    c.note(|| format!("x={:#x}", x));
    macro_rules! p { ($($t:ty),*) => {$( { let v = x as $t; let neg = (v as i128) < 0; let m = ora::u((v as i128).unsigned_abs());
        let w = if m.is_empty() { F::special(K::Zero, false, 64, 0) } else { F::fin(neg, m, 0, 64, 0) };
        same(concat!("From<", stringify!($t), ">"), &no_panic(concat!("From<", stringify!($t), ">"), || Float::from(v))?, &w, Some(A::Exact))?; } )*} }
    p!(u8, u16, u32, u64, i8, i16, i32, i64);
    let lm = c.lim(12, 80);
    let m = gen_u(c, lm);
    let neg = c.chance(1, 2);
    c.note(|| format!("m={}", sh(&m)));
    let i = I::new(neg, m.clone());
    let prec = ora::bits(&m).max(64);
    let w = |neg: bool| if m.is_empty() { F::special(K::Zero, false, prec, 0) } else { F::fin(neg, m.clone(), 0, prec, 0) };
    let n = nat(&m);
    let mut f = no_panic("From<Nat>", || Float::from(n.clone()))?;
    same("From<Nat>", &f, &w(false), Some(A::Exact))?;
    let b = big(&i);
    same("From<BigInt>", &no_panic("From<BigInt>", || Float::from(b.clone()))?, &w(i.neg), Some(A::Exact))?;
    same("From<Rat> (integer)", &no_panic("From<Rat>", || Float::from(Rat::from(b.clone())))?, &w(i.neg), Some(A::Exact))?;
    // independent of the source
    f.set_precision(1);
    f += Float::from(1u32);
    eq_nat("source afterwards", &n, &m)?;
    eq_big("source afterwards", &b, &i)
}
fn c29_from_float(c: &mut Ctx) -> R {
    c.nontrivial();
    let (bits, t) = if c.chance(1, 2) { (gen_f64_bits(c), "From<f64>") } else { let b = gen_f32_bits(c); ((f32::from_bits(b) as f64).to_bits(), "From<f32>") };
    let v = f64::from_bits(bits);
    c.note(|| format!("{} {:e} {:#x}", t, v, bits));
    let (neg, e, m) = (bits >> 63 == 1, (bits >> 52 & 0x7ff) as i64, bits & ((1 << 52) - 1));
    let (m, s) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if e == 0 { c.label("subnormal or zero"); }
    let w = if m == 0 { F::special(K::Zero, neg, 53, 0) } else { F::fin(neg, ora::u(m as u128), s, 53, 0) };
    let f = no_panic(t, || if t == "From<f64>" { Float::from(v) } else { Float::from(v as f32) })?;
    same(t, &f, &w, Some(A::Exact))?;
    let (g, a) = no_panic("to_f64", || f.to_f64())?;
    ok(g.to_bits() == bits && acc(a) == A::Exact, || format!("{:e} came back as {:e} {:?}", v, g, acc(a)))?;
    for (v, w) in [(f64::INFINITY, F::special(K::Inf, false, 53, 0)), (f64::NEG_INFINITY, F::special(K::Inf, true, 53, 0)), (f64::NAN, F::special(K::Nan, false, 0, 0))].iter() {
        same("special f64", &Float::from(*v), w, if w.k == K::Nan { None } else { Some(A::Exact) })?;
        same("special f32", &Float::from(*v as f32), w, if w.k == K::Nan { None } else { Some(A::Exact) })?;
    }
    Ok(())
}
fn c29_from_rat(c: &mut Ctx) -> R {
    let q = if c.chance(1, 4) { // next to a tie at the precision the result will have
        let p = 64 + if c.chance(1, 2) { 0 } else { c.size(200) as usize };
        let mut m = gen_mant(c, p + 1);
        m = ora::shl(&m, p + 1 - ora::bits(&m));
        m[0] |= 1;
        let above = { let i = inv_pow2(&m, p); ora::bits(&i) == p };
        let (n, d) = near_ratio(&m, p, above);
        if n.is_empty() || d.is_empty() { return c.discard(); }
        c.label("next to a tie");
        Q::new(I::new(c.chance(1, 2), n), d)
    } else { let m = c.lim(6, 60); let n = gen_i(c, m); let d = gen_u_pos(c, m); Q::new(n, d) };
    if q.d == ora::u(1) { return c.discard(); }
    c.note(|| format!("q={}", q.txt()));
    c.nontrivial();
    let prec = ora::bits(&q.n.m).max(ora::bits(&q.d)).max(64);
    if ora::bits(&q.d) > ora::bits(&q.n.m).max(64) { c.label("denominator longer"); }
    let (x, y) = (F::fin(q.n.neg, q.n.m.clone(), 0, prec, 0), F::fin(false, q.d.clone(), 0, prec, 0));
    let (w, a) = model(3, &x, &y).unwrap();
    same(&format!("From<Rat> {}", q.txt()), &no_panic("From<Rat>", || Float::from(rat(&q)))?, &w, Some(a))?;
    ok(Float::from(Rat::from(f64::NAN)).is_nan(), || "From<Rat> of NaN is a number".into())
}
fn c29_set_precision(c: &mut Ctx) -> R {
    // a mantissa with a planted pattern after the new precision
    let p = gen_prec(c);
    let extra = if c.chance(1, 16) { c.label("long"); c.size(c_lim(c.tier_thorough, 3000, 9000)) as usize } else { c.size(130) as usize };
    let top = gen_mant(c, p);
    let top = { let b = ora::bits(&top); ora::shl(&top, p - b) };
    let low = if extra == 0 { vec![] } else { let one = ora::u(1); let h = ora::shl(&one, extra - 1); match c.below(8) { 0 => h, 1 => ora::add(&h, &one), 2 => ora::sub(&h, &one), 3 => vec![], 4 => ora::sub(&ora::shl(&one, extra), &one),
        // one bit anywhere, under a tie or not
        5 => { let k = c.below(extra); ora::shl(&one, k) } 6 => { let k = c.below(extra); let b = ora::shl(&one, k); if k == extra - 1 { h } else { ora::add(&h, &b) } } _ => { let m = gen_mant(c, extra); m } } };
    let low = if ora::bits(&low) > extra { vec![] } else { low };
    let m = ora::add(&ora::shl(&top, extra), &low);
    let neg = c.chance(1, 2);
    let e = if c.chance(1, 10) { c.range(MINE + 4000, MAXE - 4000) } else { gen_e(c) };
    let f = F::fin(neg, m, e, p + extra + c.size(40) as usize, c.below(6));
    c.note(|| format!("f={} to {}", f.txt(), p));
    if !low.is_empty() { c.nontrivial(); }
    let mut z = build(&f);
    let before = no_panic("required_min_precision", || z.required_min_precision())?;
    ok(before == ora::bits(&f.m), || format!("required_min_precision {} of {}", before, f.txt()))?;
    let (w, a) = refit(&f, neg, p, f.mode);
    c.label(match a { A::Exact => "exact", A::Below => "below", A::Above => "above" });
    if w.k == K::Fin && w.exp() > f.exp() { c.label("carry into a new power of two"); }
    no_panic("set_precision", || z.set_precision(p))?;
    same(&format!("set_precision({}) of {}", p, f.txt()), &z, &w, Some(a))?;
    let r = z.required_min_precision();
    if w.k == K::Fin { ok(r == ora::bits(&w.m) && r <= p, || format!("required_min_precision {} of {}", r, w.txt()))?; }
    // raising it again changes nothing
    let p2 = p + 1 + c.size(300) as usize;
    let mut w2 = w.clone();
    w2.prec = p2;
    no_panic("set_precision", || z.set_precision(p2))?;
    same(&format!("set_precision({}) of {}", p2, w.txt()), &z, &w2, Some(A::Exact))?;
    no_panic("set_precision", || z.set_precision(r.max(1)))?;
    w2.prec = r.max(1);
    same("set_precision(required_min_precision)", &z, &w2, Some(A::Exact))?;
    // a second rounding, in another mode
    let md = c.below(6);
    z.set_mode(MODES[md]);
    w2.mode = md;
    same("set_mode", &z, &w2, Some(A::Exact))?;
    let p3 = 1 + c.below(p);
    let (w3, a3) = refit(&w2, neg, p3, md);
    no_panic("set_precision", || z.set_precision(p3))?;
    let a3 = if p3 < w2.prec { a3 } else { A::Exact };
    same(&format!("set_precision({}) of {}", p3, w2.txt()), &z, &w3, Some(a3))?;
    // precision 0 is the zero of the same sign
    no_panic("set_precision", || z.set_precision(0))?;
    let a0 = if w3.k == K::Fin { acc_of(neg, Ordering::Less) } else { A::Exact };
    same("set_precision(0)", &z, &F::special(if w3.k == K::Fin { K::Zero } else { w3.k }, neg, 0, md), Some(a0))
}

// ------------------------------------------------------------------ C30
fn gen_conv(c: &mut Ctx) -> F {
    let mode = c.below(6);
    let neg = c.chance(1, 2);
    match c.weighted(&[5, 2, 2, 3, 1]) {
        0 => { // next to a float boundary
            let (p, emin, emax) = if c.chance(1, 2) { (53i64, -1022i64, 1023i64) } else { (24, -126, 127) };
            let e = match c.weighted(&[3, 2, 2, 1]) { 0 => c.range(-60, 60), 1 => emin - c.range(-3, p + 3), 2 => emax + c.range(-2, 2), _ => c.range(emin - p - 5, emax + 5) };
            // bits kept at this exponent
            let keep = if e < emin { (p - (emin - e)).max(0) } else { p } as usize;
            let top = if keep == 0 { vec![] } else { let t = gen_mant(c, keep); let b = ora::bits(&t); ora::shl(&t, keep - b) };
            let extra = 1 + if c.chance(1, 32) { c.label("long"); c.size(3000) } else { c.size(120) } as usize;
            let one = ora::u(1);
            let h = ora::shl(&one, extra - 1);
            let low = match c.below(7) { 5 => { let k = c.below(extra); ora::shl(&one, k) } 6 => { let k = c.below(extra); let b = ora::shl(&one, k); if k == extra - 1 { h } else { ora::add(&h, &b) } } 0 => h, 1 => ora::add(&h, &one), 2 => ora::sub(&h, &one), 3 => vec![], _ => ora::sub(&ora::shl(&one, extra), &one) };
            let m = ora::add(&ora::shl(&top, extra), &low);
            let m = if m.is_empty() { one } else { m };
            let b = ora::bits(&m) as i64;
            let prec = b as usize + c.size(40) as usize;
            F::fin(neg, m, e + 1 - b, prec, mode)
        }
        1 => gen_fin(c),
        2 => { let mut f = gen_fin(c); f.e = c.range(-1200, 1200); f }
        3 => { // around the 64-bit integers
            let x = match c.below(4) { 0 => 1u128 << 63, 1 => 1u128 << 64, 2 => c.word64() as u128, _ => c.u64() as u128 };
            let s = c.size(70) as usize;
            let m = ora::shl(&ora::u(x), s);
            let m = match c.below(4) { 0 => m, 1 => ora::add(&m, &ora::u(1)), 2 if !m.is_empty() => ora::sub(&m, &ora::u(1)), _ => { let k = gen_mant(c, s + 1); ora::add(&m, &k) } };
            let m = if m.is_empty() { ora::u(1) } else { m };
            let prec = ora::bits(&m) + c.size(40) as usize;
            F::fin(neg, m, -(s as i64) + if c.chance(1, 6) { c.range(-70, 70) } else { 0 }, prec, mode)
        }
        _ => { let k = [K::Zero, K::Inf, K::Nan][c.below(3)]; let p = gen_prec(c); F::special(k, neg && k != K::Nan, p, mode) }
    }
}
fn c30_float(c: &mut Ctx) -> R {
    let mut f = gen_conv(c);
    if c.chance(1, 20) { far(c, &mut [&mut f]); }
    c.note(|| format!("f={}", f.txt()));
    if f.k == K::Fin { c.nontrivial(); }
    let z = build(&f);
    let (g64, a64) = no_panic("to_f64", || z.to_f64())?;
    let (g32, a32) = no_panic("to_f32", || z.to_f32())?;
    match f.k {
        K::Nan => ok(g64.is_nan() && g32.is_nan(), || format!("NaN converts to {} {}", g64, g32))?,
        K::Zero | K::Inf => {
            let w = match (f.k, f.neg) { (K::Zero, false) => 0.0f64, (K::Zero, true) => -0.0, (_, false) => f64::INFINITY, _ => f64::NEG_INFINITY };
            ok(g64.to_bits() == w.to_bits() && g32.to_bits() == (w as f32).to_bits() && acc(a64) == A::Exact && acc(a32) == A::Exact, || format!("{} converts to {:e} {:?}, {:e} {:?}", f.txt(), g64, acc(a64), g32, acc(a32)))?;
        }
        K::Fin => {
            if f.exp() > 3000 || f.exp() < -3000 { c.label("far outside"); }
            // far outside both formats, the value at the border of the exponents tried otherwise stands in
            let q = { let mut g = f.clone(); let b = ora::bits(&f.m) as i64; if f.exp() > 3000 { g.e = 3000 - b } else if f.exp() < -3000 { g.e = -3000 - b } g.q() };
            let rel = |bits: u64, exact: bool, inf: bool, v: Option<Q>| -> A {
                if exact { return A::Exact; }
                if inf { return if f.neg { A::Below } else { A::Above }; }
                let _ = bits;
                match v.unwrap().cmp(&q) { Ordering::Less => A::Below, Ordering::Greater => A::Above, Ordering::Equal => A::Exact }
            };
            let (b, ex) = round_bits(&q.n.m, &q.d, 53, -1022, 1023);
            let b = b | (f.neg as u64) << 63;
            let w = f64::from_bits(b);
            let wa = rel(b, ex, w.is_infinite(), if w.is_infinite() { None } else { Some(crate::p_rat::f64_q(b)) });
            if w == 0.0 { c.label("f64 underflow"); } else if w.is_infinite() { c.label("f64 overflow"); } else if w.abs() < f64::MIN_POSITIVE { c.label("f64 subnormal"); }
            ok(g64.to_bits() == b && acc(a64) == wa, || format!("to_f64 of {}: got {:e} {:?} want {:e} {:?}", f.txt(), g64, acc(a64), w, wa))?;
            let (b, ex) = round_bits(&q.n.m, &q.d, 24, -126, 127);
            let b = b as u32 | (f.neg as u32) << 31;
            let w = f32::from_bits(b);
            let wa = rel(b as u64, ex, w.is_infinite(), if w.is_infinite() { None } else { Some(crate::p_rat::f64_q((w as f64).to_bits())) });
            if w == 0.0 { c.label("f32 underflow"); } else if w.is_infinite() { c.label("f32 overflow"); } else if w.abs() < f32::MIN_POSITIVE { c.label("f32 subnormal"); }
            ok(g32.to_bits() == b && acc(a32) == wa, || format!("to_f32 of {}: got {:e} {:?} want {:e} {:?}", f.txt(), g32, acc(a32), w, wa))?;
        }
    }
    same("operand afterwards", &z, &f, None)
}
fn c30_int(c: &mut Ctx) -> R {
    let mut f = gen_conv(c);
    if f.k == K::Fin && c.chance(1, 20) { f.e = c.range(MINE + 4000, MAXE - 4000); }
    c.note(|| format!("f={}", f.txt()));
    if f.k == K::Fin { c.nontrivial(); }
    let z = build(&f);
    let gu = no_panic("truncate_to_u64", || z.truncate_to_u64())?.map(|(x, a)| (x, acc(a)));
    let gi = no_panic("truncate_to_i64", || z.truncate_to_i64())?.map(|(x, a)| (x, acc(a)));
    let (wu, wi): (Option<(u64, A)>, Option<(i64, A)>) = match f.k {
        K::Nan => (None, None),
        K::Zero => (Some((0, A::Exact)), Some((0, A::Exact))),
        K::Inf => if f.neg { (Some((0, A::Above)), Some((i64::MIN, A::Above))) } else { (Some((u64::MAX, A::Below)), Some((i64::MAX, A::Below))) },
        K::Fin => {
            let big = f.exp() > 70;
            let (n, exact) = if big { (ora::u(1 << 100), true) } else if f.e >= 0 { (ora::shl(&f.m, f.e as usize), true) } else if f.exp() <= 0 { (vec![], false) } else { (ora::shr(&f.m, (-f.e) as usize), false) };
            let v = n.iter().rev().fold(0u128, |a, x| a << 32 | *x as u128);
            let cut = if exact { A::Exact } else { acc_of(f.neg, Ordering::Less) };
            let wu = if f.neg { (0, A::Above) } else if v > u64::MAX as u128 { (u64::MAX, A::Below) } else { (v as u64, cut) };
            let wi = if f.neg { if v > 1 << 63 { (i64::MIN, A::Above) } else { ((v as i128).wrapping_neg() as i64, cut) } } else if v > i64::MAX as u128 { (i64::MAX, A::Below) } else { (v as i64, cut) };
            if v > u64::MAX as u128 { c.label("beyond u64"); } else if v > i64::MAX as u128 { c.label("beyond i64"); } else if !exact { c.label("fraction"); }
            (Some(wu), Some(wi))
        }
    };
    ok(gu == wu, || format!("truncate_to_u64 of {}: got {:?} want {:?}", f.txt(), gu, wu))?;
    ok(gi == wi, || format!("truncate_to_i64 of {}: got {:?} want {:?}", f.txt(), gi, wi))?;
    same("operand afterwards", &z, &f, None)
}

// ------------------------------------------------------------------ C31
fn model_cmp(a: &F, b: &F) -> Option<Ordering> {
    let o = |f: &F| match (f.k, f.neg) { (K::Zero, _) => 0, (K::Fin, false) => 1, (K::Fin, true) => -1, (K::Inf, false) => 2, (K::Inf, true) => -2, _ => 9 };
    if a.k == K::Nan || b.k == K::Nan { return None; }
    let (x, y) = (o(a), o(b));
    if x != y || a.k != K::Fin { return Some(x.cmp(&y)); }
    if a.exp() != b.exp() { let r = a.exp().cmp(&b.exp()); return Some(if a.neg { r.reverse() } else { r }); }
    let (p, q, _) = align(a, b);
    Some(p.cmp(&q))
}
fn c31_cmp(c: &mut Ctx) -> R {
    let x = if c.chance(1, 4) { gen_special(c) } else { gen_fin(c) };
    let y = if x.k == K::Fin && c.chance(1, 12) {
        // zero, an infinity or NaN that was this number, or one close to it
        let b = if c.chance(1, 2) { x.clone() } else { gen_fin_related(c, &x) };
        let k = [K::Zero, K::Inf, K::Nan][c.weighted(&[4, 4, 1])];
        let (n, p) = (c.chance(1, 2), gen_prec(c));
        let s = F::special(k, k != K::Nan && if c.chance(1, 3) { n } else { x.neg }, p, c.below(6));
        made_from(c, s, &b)
    } else if c.chance(1, 6) || x.k != K::Fin { if c.chance(1, 2) { gen_special(c) } else { gen_fin(c) } } else { match c.below(4) {
        0 => { let n = c.chance(1, 2); let m = gen_related(c, &x.m, 8); let e = x.e; mk(c, n, m, e) }
        // one more bit far below: equal leading words
        1 => { let s = 1 + c.size(200) as usize; let m = ora::shl(&x.m, s); let m = if c.chance(1, 2) { ora::add(&m, &ora::u(1)) } else { ora::sub(&m, &ora::u(1)) }; mk(c, x.neg, m, x.e - s as i64) }
        2 => { let n = x.neg; let p = x.prec + c.size(100) as usize; F { neg: n, prec: p, mode: c.below(6), ..x.clone() } }
        _ => gen_fin_related(c, &x) } };
    let (mut x, mut y) = (x, y);
    if c.chance(1, 8) && (x.e - y.e).abs() < 30_000 { far(c, &mut [&mut x, &mut y]); c.label("far exponents"); }
    c.note(|| format!("x={} y={}", x.txt(), y.txt()));
    if x.k == K::Fin && y.k == K::Fin && x.neg == y.neg { c.nontrivial(); }
    if x.k != K::Fin || y.k != K::Fin { c.nontrivial(); c.label("special"); }
    let w = model_cmp(&x, &y);
    if w == Some(Ordering::Equal) { c.label("equal"); }
    let (a, b) = (build(&x), build(&y));
    let chk = |a: &Float, b: &Float, w: Option<Ordering>, t: &str| -> R {
        let g = no_panic("partial_cmp", || a.partial_cmp(b))?;
        ok(g == w, || format!("{}: partial_cmp {:?} want {:?} ({} vs {})", t, g, w, shf(a), shf(b)))?;
        let e = [a == b, a != b, a < b, a <= b, a > b, a >= b];
        let f = [w == Some(Ordering::Equal), w != Some(Ordering::Equal), w == Some(Ordering::Less), matches!(w, Some(Ordering::Less | Ordering::Equal)), w == Some(Ordering::Greater), matches!(w, Some(Ordering::Greater | Ordering::Equal))];
        ok(e == f, || format!("{}: [==,!=,<,<=,>,>=] {:?} want {:?}", t, e, f))
    };
    chk(&a, &b, w, "x?y")?;
    chk(&b, &a, w.map(|o| o.reverse()), "y?x")?;
    chk(&(-a.clone()), &(-b.clone()), w.map(|o| o.reverse()), "-x?-y")?;
    chk(&a, &a.clone(), if x.k == K::Nan { None } else { Some(Ordering::Equal) }, "x?x")?;
    same("x afterwards", &a, &x, None)?;
    same("y afterwards", &b, &y, None)
}
fn c31_unary(c: &mut Ctx) -> R {
    let f = match c.weighted(&[5, 3, 2]) { 0 => gen_fin(c), 1 => { // integers and near-integers
            let m = gen_mant(c, 100); let n = c.chance(1, 2); let e = c.range(-(ora::bits(&m) as i64) - 3, 40); mk(c, n, m, e) }
        _ => gen_special(c) };
    let mut f = f;
    if f.k == K::Fin && c.chance(1, 10) { f.e = c.range(MINE + 4000, MAXE - 4000); }
    c.note(|| format!("f={}", f.txt()));
    c.nontrivial();
    let z = build(&f);
    same("build", &z, &f, None)?;
    same("deep_clone", &z.deep_clone(), &f, None)?;
    same("clone", &z.clone(), &f, None)?;
    if f.k != K::Nan {
        same("neg", &no_panic("neg", || -z.clone())?, &f.negated(), None)?;
        let mut p = f.clone();
        p.neg = false;
        same("abs", &no_panic("abs", || z.abs())?, &p, None)?;
    } else {
        ok((-z.clone()).is_nan() && z.abs().is_nan(), || "sign change of NaN gives a number".into())?;
        ok(z.signnum().is_none() && z.is_negative().is_none() && z.is_infinite().is_none() && z.is_integer().is_none() && z.truncate_to_i64().is_none(), || "NaN answers a question about its value".into())?;
    }
    let wi = match f.k { K::Nan => None, K::Inf => Some(false), K::Zero => Some(true), K::Fin => Some(f.e >= 0) };
    let gi = no_panic("is_integer", || z.is_integer())?;
    ok(gi == wi, || format!("is_integer of {} is {:?}", f.txt(), gi))?;
    let (m, e) = no_panic("mant_exp", || z.mant_exp())?;
    if f.k == K::Fin {
        let mut wm = f.clone();
        wm.e = -(ora::bits(&f.m) as i64);
        ok(e as i64 == f.exp(), || format!("exponent {} of {}", e, f.txt()))?;
        same("mantissa", &m, &wm, None)?;
        let ma = m.abs();
        ok(ma >= Float::from(0.5f64) && ma < Float::from(1.0f64), || "mantissa outside [0.5, 1)".into())?;
    } else { ok(e == 0, || format!("exponent {} of {}", e, f.txt()))?; same("mantissa", &m, &f, None)?; }
    // recombining, into a fresh value and over an existing one
    let mut r = if c.chance(1, 2) { Float::default() } else { let g = gen_fin(c); build(&g) };
    no_panic("set_mant_exp", || r.set_mant_exp(m.clone(), e))?;
    same("recombined", &r, &f, None)?;
    ok(f.k == K::Nan || r == z, || "recombined value differs".into())?;
    // over itself
    let mut s = z.deep_clone();
    let k = if f.k == K::Fin && f.exp().abs() < 1 << 30 { c.range(-100, 100) } else { 0 };
    let me = s.clone();
    no_panic("set_mant_exp over itself", || s.set_mant_exp(me, k as isize))?;
    let mut w = f.clone();
    if w.k == K::Fin { w.e += k; }
    same("x.set_mant_exp(x, k)", &s, &w, None)?;
    same("operand afterwards", &z, &f, None)?;
    // all of these are values of their own: changing one in place changes no other
    let (made, how) = match c.below(5) { 0 => (z.abs(), "abs"), 1 => (-z.clone(), "neg"), 2 => (m.deep_clone(), "deep_clone"), 3 => (r, "recombined"), _ => (m, "mantissa") };
    let mut made = made;
    no_panic("in-place change", || { made *= Float::from(3u32); made.set_precision(2); if f.k != K::Fin || f.exp().abs() < 1000 { made += Float::from(1u32); } })?;
    same(&format!("operand after its {} was changed in place", how), &z, &f, None)
}

// ------------------------------------------------------------------ C32
/// value and number of fraction digits of [-+]d+[.d+][e[-+]d+]
fn read_decimal(s: &str) -> Option<(Q, usize, usize, bool)> {
    let (neg, t) = match s.as_bytes().first()? { b'-' => (true, &s[1..]), b'+' => (false, &s[1..]), _ => (false, s) };
    let (m, e) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], t[i + 1..].parse::<i64>().ok()?), None => (t, 0) };
    let (ip, fp) = match m.find('.') { Some(i) => (&m[..i], &m[i + 1..]), None => (m, "") };
    if ip.is_empty() || !ip.bytes().all(|b| b.is_ascii_digit()) || !fp.bytes().all(|b| b.is_ascii_digit()) || (m.contains('.') && fp.is_empty()) { return None; }
    let n = ora::parse_radix(&format!("{}{}", ip, fp), 10);
    let k = e - fp.len() as i64;
    let p = ora::pow(&ora::u(10), k.unsigned_abs());
    let q = if k >= 0 { Q::int(I::new(neg, ora::mul(&n, &p))) } else { Q::new(I::new(neg, n), p) };
    Some((q, ip.len(), fp.len(), neg))
}
/// |q| * 10^d rounded to an integer, ties to even
fn round10(q: &Q, d: i64) -> U {
    let p = ora::pow(&ora::u(10), d.unsigned_abs());
    let (n, de) = if d >= 0 { (ora::mul(&q.n.m, &p), q.d.clone()) } else { (q.n.m.clone(), ora::mul(&q.d, &p)) };
    let (mut k, r) = ora::divrem(&n, &de);
    match ora::cmp(&ora::shl(&r, 1), &de) { Ordering::Greater => k = ora::add(&k, &ora::u(1)), Ordering::Equal if ora::bit(&k, 0) => k = ora::add(&k, &ora::u(1)), _ => {} }
    k
}
fn over10(neg: bool, n: U, d: i64) -> Q { let p = ora::pow(&ora::u(10), d.unsigned_abs()); if d >= 0 { Q::new(I::new(neg, n), p) } else { Q::int(I::new(neg, ora::mul(&n, &p))) } }
/// x with |q| in [10^(x-1), 10^x)
fn exp10(q: &Q) -> i64 {
    let mut x = ((ora::bits(&q.n.m) as f64 - ora::bits(&q.d) as f64) * 0.30103).floor() as i64;
    let ge = |x: i64| { let p = ora::pow(&ora::u(10), x.unsigned_abs()); let o = if x >= 0 { ora::cmp(&q.n.m, &ora::mul(&q.d, &p)) } else { ora::cmp(&ora::mul(&q.n.m, &p), &q.d) }; o != Ordering::Less };
    while ge(x) { x += 1; }
    while !ge(x - 1) { x -= 1; }
    x
}
/// a value that is (almost) a tie when written with n fraction digits
fn gen_text_tie(c: &mut Ctx) -> (F, usize) {
    let n = c.size(40) as usize;
    let u = 1 + c.size(200) as usize;
    let half = ora::shl(&ora::u(1), u - 1);
    let low = match c.below(3) { 0 => half, 1 => ora::add(&half, &ora::u(1)), _ => ora::sub(&half, &ora::u(1)) };
    // m * 5^n is low modulo 2^u, and the value is m / 2^(u+n)
    let r = low_bits(&ora::mul(&low, &inv_pow2(&ora::pow(&ora::u(5), n as u64), u)), u);
    let m = if c.chance(1, 2) { r } else { ora::add(&r, &ora::shl(&gen_u(c, 2), u)) };
    let neg = c.chance(1, 2);
    (mk(c, neg, m, -((u + n) as i64)), n)
}
fn gen_text_fin(c: &mut Ctx) -> F {
    match c.weighted(&[4, 3, 3, 2, 2]) {
        4 => { // a decimal exponent around 9, 10, 99, 100, 101 of either sign, with few or many digits
            let k = [8, 9, 10, 11, 98, 99, 100, 101, 102][c.below(9)];
            let n = c.chance(1, 2);
            let d = 1 + c.size(30);
            let m = ora::parse_radix(&format!("1{}", gen_digits(c, d as usize)), 10);
            if c.chance(2, 3) && k >= d { let m = ora::mul(&m, &ora::pow(&ora::u(10), k - d)); mk(c, n, m, 0) }
            else { let x = if c.chance(1, 2) { k as i64 } else { -(k as i64) }; let m = gen_mant(c, 60); let e = (x as f64 * 3.321928).round() as i64 - ora::bits(&m) as i64 + c.range(-4, 4); mk(c, n, m, e) }
        }
        0 => { let f = gen_fin(c);
            // printing is slow on the side of the library: at most 600 bits in the quick tier
            let cap = if c.tier_thorough { 2000 } else { 600 };
            let b = ora::bits(&f.m);
            let m = if b > cap { ora::shr(&f.m, b - cap) } else { f.m.clone() };
            let prec = f.prec.min(cap + 100).max(ora::bits(&m));
            F::fin(f.neg, m, f.e % 400, prec, f.mode) }
        1 => { // few decimal digits over a power of two: decimal ties and short expansions
            let m = gen_mant(c, 30); let e = -(c.size(24) as i64); let n = c.chance(1, 2); mk(c, n, m, e) }
        2 => { // next to a power of ten
            let k = c.size(40); let m = ora::pow(&ora::u(10), k);
            let m = ora::mul(&m, &ora::u([1, 2, 5, 15, 25, 95, 99, 995, 105][c.below(9)]));
            let s = c.size(30) as usize;
            let m = ora::shl(&m, s);
            let m = match c.below(3) { 0 => m, 1 => ora::add(&m, &ora::u(1)), _ => ora::sub(&m, &ora::u(1)) };
            let n = c.chance(1, 2); let e = -(s as i64) - c.range(0, 3); mk(c, n, m, e) }
        _ => { let m = gen_mant(c, 60); let e = c.range(-300, 300); let n = c.chance(1, 2); mk(c, n, m, e) }
    }
}
fn c32_exp(c: &mut Ctx) -> R {
    let tie = c.chance(1, 4);
    let (f, n) = if tie { gen_text_tie(c) } else { (gen_text_fin(c), 0) };
    let q = f.q();
    let x = exp10(&q);
    let d = if tie && x + n as i64 >= 1 { c.label("next to a decimal tie"); (x + n as i64 - 1) as usize } else { match c.below(3) { 0 => c.below(6), 1 => c.size(30) as usize, _ => c.size(120) as usize } };
    c.note(|| format!("f={} digits {}", f.txt(), d));
    c.nontrivial();
    let z = build(&f);
    for up in 0..2 {
        let s = no_panic("format", || if up == 1 { format!("{:.*E}", d, z) } else { format!("{:.*e}", d, z) })?;
        ok(s.contains(if up == 1 { 'E' } else { 'e' }), || format!("{:?} has no exponent", s))?;
        let et = &s[s.find(|c| c == 'e' || c == 'E').unwrap() + 1..];
        let (v, ip, fp, neg) = read_decimal(&s).ok_or_else(|| format!("{} printed as {:?}", f.txt(), s))?;
        let w = over10(f.neg, round10(&q, d as i64 + 1 - x), d as i64 + 1 - x);
        if w != q { c.label("rounded"); }
        let we = exp10(&w) - 1;
        if we.abs() >= 99 { c.label("three-digit exponent"); }
        ok(et == format!("{}{:02}", if we < 0 { "-" } else { "" }, we.abs()), || format!("{} with {} digits printed as {:?}, want the exponent {}", f.txt(), d, s, we))?;
        ok(v == w && ip == 1 && fp == d && neg == f.neg, || format!("{} with {} digits printed as {:?}, want the value {}", f.txt(), d, s, w.txt()))?;
    }
    let s = no_panic("format", || format!("{:e}", z))?;
    let (v, _, fp, _) = read_decimal(&s).ok_or_else(|| format!("{} printed as {:?}", f.txt(), s))?;
    let w = over10(f.neg, round10(&q, fp as i64 + 1 - x), fp as i64 + 1 - x);
    ok(v == w, || format!("{} printed as {:?}, want the value {}", f.txt(), s, w.txt()))?;
    same("operand afterwards", &z, &f, None)
}
fn c32_fixed(c: &mut Ctx) -> R {
    let tie = c.chance(1, 4);
    let (mut f, n) = if tie { gen_text_tie(c) } else { (gen_text_fin(c), 0) };
    if c.chance(1, 3) { f.prec = ora::bits(&f.m); }
    let n = if tie { n } else { match c.below(3) { 0 => c.below(4), 1 => c.size(30) as usize, _ => c.size(150) as usize } };
    c.note(|| format!("f={} digits {}", f.txt(), n));
    c.nontrivial();
    let z = build(&f);
    let q = f.q();
    // a given number of fraction digits
    for s in &[no_panic("format", || format!("{:.*}", n, z))?, no_panic("format", || format!("{:.*?}", n, z))?] {
        let (v, _, fp, _) = read_decimal(s).ok_or_else(|| format!("{} printed as {:?}", f.txt(), s))?;
        let w = over10(f.neg, round10(&q, n as i64), n as i64);
        if tie && w != q { c.label("next to a decimal tie"); }
        ok(v == w && fp == n && s.starts_with('-') == f.neg, || format!("{} with {} digits printed as {:?}, want the value {}", f.txt(), n, s, w.txt()))?;
    }
    let s = no_panic("format", || format!("{}", z))?;
    let (v, _, fp, _) = read_decimal(&s).ok_or_else(|| format!("{} printed as {:?}", f.txt(), s))?;
    ok(fp == f.prec, || format!("{} printed with {} fraction digits: {:?}", f.txt(), fp, s))?;
    let w = over10(f.neg, round10(&q, fp as i64), fp as i64);
    if w != q { c.label("rounded"); } else { c.label("exact"); }
    ok(v == w && s.starts_with('-') == f.neg, || format!("{} printed as {:?}, want the value {}", f.txt(), s, w.txt()))?;
    let t = no_panic("format", || format!("{:?}", z))?;
    ok(t == s, || format!("Debug {:?} differs from Display {:?}", t, s))?;
    same("operand afterwards", &z, &f, None)?;
    // an exact expansion reads back as the same value
    let k = if f.e < 0 { (-f.e) as usize } else { 0 };
    if k < 500 {
        let n = (exp10(&q) + k as i64).max(1) as usize;
        let mut ts = vec![format!("{:.*e}", n, z), format!("{:.*E}", n + 3, z)];
        if w == q { ts.push(s); }
        for t in ts {
            match no_panic("parse", || Float::from_str(&t))? { Ok(r) => same_value(&format!("parse of {:?}", t), &r, &f)?, Err(_) => return Err(format!("{:?}, printed for {}, is rejected", t, f.txt())) }
        }
    }
    Ok(())
}
fn c32_special(c: &mut Ctx) -> R {
    let f = loop { let f = gen_special(c); if f.k != K::Fin { break f; } if c.rec.len() > 500 { return c.discard(); } };
    c.note(|| format!("f={}", f.txt()));
    c.nontrivial();
    let z = build(&f);
    for s in no_panic("format", || vec![format!("{}", z), format!("{:?}", z), format!("{:e}", z), format!("{:E}", z), format!("{:.3e}", z), format!("{:.0E}", z)])? {
        match f.k {
            K::Zero => { let (v, _, _, _) = read_decimal(&s).ok_or_else(|| format!("zero printed as {:?}", s))?; ok(v.is_zero(), || format!("zero printed as {:?}", s))?; match Float::from_str(&s) { Ok(r) => ok(r == z, || format!("{:?} reads back as {}", s, shf(&r)))?, Err(_) => return Err(format!("{:?} rejected", s)) } }
            K::Inf => ok(s == if f.neg { "-Inf" } else { "+Inf" }, || format!("{} printed as {:?}", f.txt(), s))?,
            _ => ok(s == "NaN", || format!("NaN printed as {:?}", s))?,
        }
    }
    Ok(())
}
fn c32_parse(c: &mut Ctx) -> R {
    let lim = match c.weighted(&[6, 3, 1]) { 0 => 12, 1 => 60, _ => c.lim(120, 600) as u64 };
    let (i, f) = (c.size(lim) as usize, c.size(lim) as usize);
    let dot = c.chance(3, 4);
    let (i, f) = if !dot { (i.max(1), 0) } else if i + f == 0 { (1, 0) } else { (i, f) };
    let neg = c.chance(1, 3);
    let mut s = String::from(if neg { "-" } else if c.chance(1, 6) { "+" } else { "" });
    let (ip, fp) = (gen_digits(c, i), gen_digits(c, f));
    let all = format!("{}{}", ip, fp);
    s.push_str(&ip);
    if dot { s.push('.'); }
    s.push_str(&fp);
    let mut e = 0i64;
    if c.chance(1, 2) {
        e = match c.weighted(&[4, 2, 1]) { 0 => c.range(-12, 12), 1 => c.range(-60, 60), _ => c.range(-400, 400) };
        s.push_str(["e", "E"][c.below(2)]);
        if e >= 0 && c.chance(1, 3) { s.push('+'); }
        s.push_str(&e.to_string());
        c.label("exponent");
    }
    // plain integers follow the integers' grammar, which has no leading zeros
    if !dot && !s.contains(|x| x == 'e' || x == 'E') && i > 1 && all.starts_with('0') { return c.discard(); }
    let s = if c.chance(1, 8) { format!(" {}\t", s) } else { s };
    c.note(|| format!("text={:?}", s));
    c.nontrivial();
    let w = over10(neg, ora::parse_radix(&all, 10), f as i64 - e);
    let r = match no_panic("parse", || Float::from_str(&s))? { Ok(r) => r, Err(_) => return Err(format!("{:?} rejected", s)) };
    if w.is_zero() { ok(r.signnum() == Some(0), || format!("{:?} parsed as {}", s, shf(&r)))?; return Ok(()); }
    ok(!r.is_nan(), || format!("{:?} parsed as NaN", s))?;
    let p = r.get_precision();
    ok(p >= 64, || format!("{:?} parsed with precision {}", s, p))?;
    let (x, y) = (F::fin(w.n.neg, w.n.m.clone(), 0, p, 0), F::fin(false, w.d.clone(), 0, p, 0));
    let (m, a) = model(3, &x, &y).unwrap();
    if a != A::Exact { c.label("inexact"); }
    same(&format!("parse of {:?}", s), &r, &m, None)
}
/// decimal text as near to a tie as text of its length can be
fn c32_near(c: &mut Ctx) -> R {
    let k = 1 + c.size(60) as usize;
    let five = ora::pow(&ora::u(5), k as u64);
    let l = ora::bits(&five);
    let p = 64.max(ora::bits(&ora::shl(&five, k))) + if c.chance(1, 2) { 0 } else { c.size(40) as usize };
    // m is odd, has p + 1 bits and is -1/5^k (or 1/5^k) modulo 2^t; then m * 5^k +- 1 is a multiple of 2^t
    let t = (l + 1 + c.below(p - l)).min(p);
    let above = c.chance(1, 2);
    let r = { let i = inv_pow2(&five, t); if above { ora::sub(&ora::shl(&ora::u(1), t), &i) } else { i } };
    let h = { let h = gen_mant(c, p + 1 - t); ora::shl(&h, p + 1 - t - ora::bits(&h)) };
    let m = ora::add(&ora::shl(&h, t), &r);
    let x = ora::mul(&m, &five);
    let d = ora::shr(&if above { ora::add(&x, &ora::u(1)) } else { ora::sub(&x, &ora::u(1)) }, t);
    if d.is_empty() { return c.discard(); }
    c.nontrivial();
    let neg = c.chance(1, 3);
    let (sg, ds) = (if neg { "-" } else { "" }, ora::dec(&d));
    // d / 10^k, written with a point, with an exponent, or with both
    let s = match c.below(3) {
        0 => if ds.len() > k { format!("{}{}.{}", sg, &ds[..ds.len() - k], &ds[ds.len() - k..]) } else { format!("{}0.{}{}", sg, "0".repeat(k - ds.len()), ds) },
        1 => format!("{}{}e-{}", sg, ds, k),
        _ => format!("{}{}.{}e{}", sg, &ds[..1], &ds[1..], ds.len() as i64 - 1 - k as i64),
    };
    if s.contains(".e") { return c.discard(); }
    c.note(|| format!("text={:?}", s));
    let w = over10(neg, d, k as i64);
    let r = match no_panic("parse", || Float::from_str(&s))? { Ok(r) => r, Err(_) => return Err(format!("{:?} rejected", s)) };
    let p = r.get_precision();
    ok(p >= 64, || format!("{:?} parsed with precision {}", s, p))?;
    let (x, y) = (F::fin(w.n.neg, w.n.m.clone(), 0, p, 0), F::fin(false, w.d.clone(), 0, p, 0));
    let (m, a) = model(3, &x, &y).unwrap();
    if a != A::Exact { c.label("inexact"); }
    same(&format!("parse of {:?}", s), &r, &m, None)
}
fn c32_strange(c: &mut Ctx) -> R {
    let s = ["", "-", "+"][c.below(3)];
    let good = match c.below(4) {
        0 => format!("{}{}", s, c.u64()),
        1 => format!("{}{}.{}", s, c.upto(9999), c.upto(9999)),
        2 => format!("{}{}{}{}", s, c.upto(9999), ["e", "E", "e-", "e+"][c.below(4)], c.upto(40)),
        _ => format!("{}{}.{}{}{}", s, c.upto(9999), c.upto(9999), ["e", "E", "e-", "e+"][c.below(4)], c.upto(40)),
    };
    let t = strange_text(c, &good);
    c.note(|| format!("text={:?}", t));
    c.nontrivial();
    match no_panic("parse", || Float::from_str(&t))? { Err(_) => Ok(()), Ok(r) => Err(format!("{:?} accepted as {}", t, shf(&r))) }
}
fn c32_malformed(c: &mut Ctx) -> R {
    c.nontrivial();
    let t: String = match c.below(3) {
        0 => ["", " ", ".", "-", "+", "-.", "e5", ".e5", "-e5", "1e", "1.5e", "1e+", "1e-", "1.5e+", "1.2.3", "1..2", "1e5e5", "1e5E5", "1e5.5", "--1.5", "1-.5", "1.-5", ".-5", ".+5", "1.+5", "x", "1.5x", "x1.5", "1,5", "1.5e0x1", "1.5f", "中.5", "1.中", "1.5e中", "1.5中", "½", "1_000.5", "1.5e99999999999", "1.5e-99999999999", "1e99999999999999999999999", "1. 5", "1 .5", "1.5 e3", "1.5e 3", "- 1.5x", "inf.", "0x1.8", "0b1.1", "0x1.8e3"][c.below(49)].to_string(),
        1 => { // one damaging character inside a good number
            let mut t = format!("{}{}.{}{}", ["", "-"][c.below(2)], c.upto(9999), c.upto(9999), ["", "e5", "E-3", "e+12"][c.below(4)]);
            let ch = ['_', 'g', '!', '/', ',', '中', 'z', '😀', '.', 'x'][c.below(10)];
            let p = c.below(t.len() + 1);
            if ch == '.' && p == 0 { t.insert_str(0, ".."); } else { t.insert(p, ch); }
            t
        }
        _ => { // any outcome but a panic
            let n = c.size(10);
            let mut t = String::new();
            for _ in 0..n { t.push(match c.weighted(&[4, 4, 1]) { 0 => (b'0' + c.below(10) as u8) as char, 1 => ['0', 'x', 'b', '+', '-', 'f', '.', 'e', 'E', ' ', '.', 'e'][c.below(12)], _ => weird_char(c) }); }
            c.note(|| format!("text={:?}", t));
            let e = t.find(|x| x == 'e' || x == 'E').unwrap_or(t.len());
            if t.len() > e + 5 { return c.discard(); }
            if let Ok(r) = no_panic("parse", || Float::from_str(&t))? {
                ok(!r.is_nan(), || format!("{:?} parsed as NaN", t))?;
                // whatever is accepted as a plain decimal has that value
                if let Some((q, _, _, _)) = read_decimal(t.trim()) { if !q.is_zero() { let p = r.get_precision(); let (m, _) = model(3, &F::fin(q.n.neg, q.n.m.clone(), 0, p, 0), &F::fin(false, q.d.clone(), 0, p, 0)).unwrap(); same_value(&format!("parse of {:?}", t), &r, &m)?; } }
            }
            return Ok(());
        }
    };
    c.note(|| format!("text={:?}", t));
    match no_panic("parse", || Float::from_str(&t))? { Err(_) => Ok(()), Ok(r) => Err(format!("{:?} accepted as {}", t, shf(&r))) }
}
fn c32_integer_text(c: &mut Ctx) -> R {
    // integers in every radix the integers accept
    let m = gen_u(c, 6);
    let (radix, p) = [(10u32, ""), (16, "0x"), (2, "0b"), (8, "0o")][c.below(4)];
    let t = format!("{}{}{}", ["", "-", "+"][c.below(3)], p, { let d = ora::to_radix(&m, radix); if c.chance(1, 3) { d.to_uppercase() } else { d } });
    c.note(|| format!("text={:?}", t));
    c.nontrivial();
    let neg = t.starts_with('-');
    match no_panic("parse", || Float::from_str(&t))? {
        Ok(r) => if m.is_empty() { ok(r.signnum() == Some(0), || format!("{:?} parsed as {}", t, shf(&r))) } else { same_value(&format!("parse of {:?}", t), &r, &F::fin(neg, m.clone(), 0, ora::bits(&m).max(64), 0)) },
        Err(_) => Err(format!("{:?} rejected", t)),
    }
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C27", rule: "both mantissas longer than one bit, x op x, a planted tie, or a history of three or more steps",
        laws: &[Law { name: "pairs", weight: 5, run: c27_ops }, Law { name: "self", weight: 1, run: c27_self }, Law { name: "ties", weight: 2, run: c27_ties }, Law { name: "near_ties", weight: 2, run: c27_near }, Law { name: "sums_to_ties", weight: 3, run: c27_sum_to }, Law { name: "history", weight: 2, run: c27_chain }],
        quick: 140_000, thorough: 3_960_000, assumptions: &["precisions 1 to about 270 bits in the quick tier (2000 thorough), mantissas stored with or without trailing zeros, exponent differences up to a few thousand (100000 thorough), anywhere in the exponent range"] },
    Prop { id: "C28", rule: "at least one operand is a zero, an infinity or undefined, a complete cancellation, or a result near the end of the exponent range",
        laws: &[Law { name: "specials", weight: 4, run: c28_ops }, Law { name: "cancel", weight: 1, run: c28_cancel }, Law { name: "range", weight: 2, run: c28_range }, Law { name: "range_sum", weight: 2, run: c28_range_sum }],
        quick: 320_000, thorough: 9_000_000, assumptions: &["results whose rounding alone would lift them back into the exponent range are not judged"] },
    Prop { id: "C29", rule: "any source value, or a precision change that drops nonzero bits",
        laws: &[Law { name: "from_int", weight: 2, run: c29_from_int }, Law { name: "from_float", weight: 2, run: c29_from_float }, Law { name: "from_rat", weight: 2, run: c29_from_rat }, Law { name: "set_precision", weight: 5, run: c29_set_precision }],
        quick: 440_000, thorough: 15_600_000, assumptions: &["integers up to 12 words, rationals up to 6 words over 6 (80, and 60 over 60 thorough); a precision change drops up to 130 bits, sometimes 3000 (9000 thorough)"] },
    Prop { id: "C30", rule: "a finite nonzero Float",
        laws: &[Law { name: "to_float", weight: 3, run: c30_float }, Law { name: "to_int", weight: 2, run: c30_int }],
        quick: 1_800_000, thorough: 48_000_000, assumptions: &["mantissas up to about 270 bits, sometimes 3000"] },
    Prop { id: "C31", rule: "a comparison of equal signs or with a special value, or any unary query",
        laws: &[Law { name: "compare", weight: 3, run: c31_cmp }, Law { name: "unary", weight: 2, run: c31_unary }],
        quick: 3_400_000, thorough: 48_000_000, assumptions: &["precisions 1 to about 270 bits (2000 thorough)"] },
    Prop { id: "C32", rule: "every case (a nonzero finite value, a special value, or a text)",
        laws: &[Law { name: "scientific", weight: 3, run: c32_exp }, Law { name: "fixed", weight: 3, run: c32_fixed }, Law { name: "specials", weight: 1, run: c32_special }, Law { name: "parse", weight: 3, run: c32_parse }, Law { name: "parse_near_ties", weight: 2, run: c32_near }, Law { name: "malformed", weight: 2, run: c32_malformed }, Law { name: "strange", weight: 2, run: c32_strange }, Law { name: "integers", weight: 1, run: c32_integer_text }],
        quick: 55_000, thorough: 996_000, assumptions: &["binary exponents within about +-700 and decimal exponents within +-400 in the quick tier"] },
];
