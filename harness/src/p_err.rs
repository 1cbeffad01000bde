//! C39: a rejection is an error that names its cause.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::I;
use rmath::bigint::{BigInt, Float, Nat, NatError, Rat, RatErrKind, RatError};
use rmath::parse_err::ParseErrKind;
use rmath::rand::{Iter, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, RandErrKind, RandError, Seed, Source};
use std::error::Error;
use std::fmt::Debug;
use std::str::FromStr;

/// the error prints, and the kind is the wanted one
fn want<T, E: Error, K: PartialEq + Debug>(what: &str, got: Result<T, E>, kind: impl Fn(&E) -> K, k: K) -> R {
    match got {
        Ok(_) => Err(format!("{}: accepted, want an error of kind {:?}", what, k)),
        Err(e) => {
            let s = no_panic("printing the error", || format!("{} {:?} {}", e, e, e.source().is_some()))?;
            ok(kind(&e) == k, || format!("{}: error of kind {:?} ({}), want {:?}", what, kind(&e), s, k))
        }
    }
}

// ------------------------------------------------------------------ naturals and integers
const LEADS: [&str; 7] = ["", "+", "++", " ", "  ", "+ ", " +"];
/// a character no number begins with (white space is trimmed, blanks and plus signs are skipped)
fn bad_begin(c: &mut Ctx) -> char {
    if c.chance(1, 3) { weird_char(c) } else { ['x', 'b', 'o', 'a', 'f', 'e', 'E', 'N', 'i', '.', ',', '_', '/', ':', '#', '~', '@', '*', '(', '\''][c.below(20)] }
}
/// a character no numeral of this base contains
fn bad_digit(c: &mut Ctx, base: u32) -> char {
    loop {
        let ch = match c.weighted(&[3, 3, 3]) { 0 => weird_char(c), 1 => ['/', ':', '@', '`', 'g', 'G', 'x', 'X', 'o', '.', ',', '_', '-', '+', '~', '!'][c.below(16)], _ => ['2', '8', '9', 'a', 'A', 'f', 'F', 'z', 'Z', '\u{7f}'][c.below(10)] };
        if !(ch.is_ascii() && ch.is_digit(base)) { return ch; }
    }
}
fn digits(c: &mut Ctx, base: u32, n: usize) -> String { (0..n).map(|_| char::from_digit(c.below(base as usize) as u32, base).unwrap()).collect() }
fn c39_nat_text(c: &mut Ctx) -> R {
    let neg = c.chance(1, 4);
    let lead = LEADS[c.below(LEADS.len())];
    let (pre, base) = [("", 10u32), ("0x", 16), ("0X", 16), ("0b", 2), ("0B", 2), ("0o", 8)][c.weighted(&[3, 3, 1, 2, 1, 3])];
    let n = 1 + c.size(40) as usize;
    let mut d = digits(c, base, n);
    if base == 10 { d.insert(0, (b'1' + c.below(9) as u8) as char); }
    let (text, want_kind) = match c.weighted(&[2, 3, 2, 6, 2]) {
        0 => { c.label("nothing but blanks and signs"); let n = c.below(6); ((0..n).map(|_| [' ', '+'][c.below(2)]).collect::<String>(), Some(ParseErrKind::BeginWithIllegalChar)) }
        1 => { c.label("wrong first character"); let b = bad_begin(c); (format!("{}{}{}{}", lead, b, pre, d), Some(ParseErrKind::BeginWithIllegalChar)) }
        2 => {
            c.label("wrong prefix");
            let b = loop { let b = if c.chance(1, 2) { bad_begin(c) } else { (b'0' + c.below(10) as u8) as char }; if !"obBxX".contains(b) { break b; } };
            (format!("{}0{}{}", lead, b, d), Some(ParseErrKind::BeginWithIllegalChar))
        }
        3 => {
            c.label("wrong digit");
            let b = bad_digit(c, base);
            let mut v: Vec<char> = d.chars().collect();
            let i = if base == 10 { 1 + c.below(v.len()) } else { c.below(v.len() + 1) };
            v.insert(i, b);
            (format!("{}{}{}", lead, pre, v.into_iter().collect::<String>()), Some(ParseErrKind::IllegalCharEncounter))
        }
        _ => { c.label("valid"); (format!("{}{}{}", lead, pre, d), None) }
    };
    c.note(|| format!("{:?}, {}", text, if neg { "with a minus sign" } else { "as it is" }));
    c.nontrivial();
    let got = no_panic("Nat::from_str", || Nat::from_str(&text))?;
    match want_kind { Some(k) => want(&format!("Nat::from_str({:?})", text), got, NatError::kind, k)?, None => ok(got.is_ok(), || format!("Nat::from_str({:?}) rejected: {}", text, got.as_ref().err().map(|e| e.to_string()).unwrap_or_default()))? }
    let text = if neg { format!("-{}", text) } else { text };
    let got = no_panic("BigInt::from_str", || BigInt::from_str(&text))?;
    match want_kind { Some(k) => want(&format!("BigInt::from_str({:?})", text), got, NatError::kind, k), None => ok(got.is_ok(), || format!("BigInt::from_str({:?}) rejected: {}", text, got.as_ref().err().map(|e| e.to_string()).unwrap_or_default())) }
}
fn c39_prime(c: &mut Ctx) -> R {
    let (k, rounds) = (c.below(4), c.below(30));
    let seed = c.u64();
    c.note(|| format!("generate_prime({}, {})", k, rounds));
    if k < 2 { c.nontrivial(); }
    let got = no_panic("generate_prime", || Nat::generate_prime(k, rounds, &mut Src::uniform(seed)))?;
    if k < 2 { want(&format!("generate_prime({}, {})", k, rounds), got, NatError::kind, ParseErrKind::InvalidParameters) } else { ok(got.is_ok(), || format!("generate_prime({}, {}) rejected", k, rounds)) }
}

// ------------------------------------------------------------------ rationals
fn zero_text(c: &mut Ctx) -> String { ["0", "0x0", "0b0", "0o0", "-0", "+0", "0x000000000000", "-0x0", " 0", "0 ", "0b0000000000000000000000000000000000", "+ 0"][c.below(12)].into() }
fn int_text(c: &mut Ctx) -> String {
    let (pre, base) = [("", 10u32), ("0x", 16), ("0b", 2), ("0o", 8)][c.below(4)];
    let n = c.size(30) as usize;
    format!("{}{}{}{}", if c.chance(1, 3) { "-" } else { "" }, pre, (b'1' + if base == 2 { 0 } else { c.below(7) as u8 }) as char, digits(c, base, n))
}
fn c39_rat(c: &mut Ctx) -> R {
    match c.weighted(&[2, 2, 3, 4, 2, 1]) {
        0 => {
            let n = c.word64() as isize;
            let d = if c.chance(1, 2) { 0 } else { c.word64() as isize };
            c.note(|| format!("from_frac({}, {})", n, d));
            let got = no_panic("from_frac", || Rat::from_frac(n, d))?;
            if d == 0 { c.label("zero denominator"); c.nontrivial(); want(&format!("from_frac({}, 0)", n), got, RatError::kind, RatErrKind::DenominatorIsZero) } else { ok(got.is_ok(), || format!("from_frac({}, {}) rejected", n, d)) }
        }
        1 => {
            let (n, d) = (gen_i(c, 6), gen_i(c, 6));
            let d = if c.chance(1, 2) { I { neg: false, m: vec![] } } else { d };
            c.note(|| format!("from_frac_bigint({}, {})", n.hex(), d.hex()));
            let mut bd = big(&d);
            if d.is_zero() && c.chance(1, 2) { bd = -bd; }
            let got = no_panic("from_frac_bigint", || Rat::from_frac_bigint(&big(&n), &bd))?;
            if d.is_zero() { c.label("zero denominator"); c.nontrivial(); want(&format!("from_frac_bigint({}, 0)", n.hex()), got, RatError::kind, RatErrKind::DenominatorIsZero) } else { ok(got.is_ok(), || format!("from_frac_bigint({}, {}) rejected", n.hex(), d.hex())) }
        }
        2 => {
            let (a, b) = (if c.chance(1, 4) { zero_text(c) } else { int_text(c) }, zero_text(c));
            let t = format!("{}/{}", a, b);
            c.note(|| format!("{:?}", t));
            c.label("text over zero");
            c.nontrivial();
            want(&format!("Rat::from_str({:?})", t), no_panic("Rat::from_str", || Rat::from_str(&t))?, RatError::kind, RatErrKind::DenominatorIsZero)
        }
        3 => {
            let good = match c.below(4) {
                0 => int_text(c),
                1 => format!("{}/{}", int_text(c), int_text(c)),
                2 => format!("{}/{}", int_text(c), zero_text(c).trim()),
                _ => { let (m, n) = (1 + c.below(12), c.below(12)); let mut t = format!("{}{}.{}", if c.chance(1, 3) { "-" } else { "" }, digits(c, 10, m), digits(c, 10, n)); if c.chance(1, 2) { t.push_str(&format!("e{}", c.range(-300, 300))); } t }
            };
            let t = if c.chance(1, 2) { strange_text(c, &good) } else {
                ["", " ", "/", "//", "1/", "/2", "1//2", "1/2/3", ".", "-", "+", "-.", "1.2.3", "1.5/2", "1/2.5", "0x", "0b", "0o", "0x/0", "/0", "g/0", "0/g", "1.e", "1.0e+", "nan", "inf", "NaN.", ".inf", "1.0e100001", "1.5e-100001", "1.0e9223372036854775808", "--1", "1/--1", "01/2", "1/02", "1.0x", "0x1.8", "0b12/3", "1/0o8"][c.below(39)].to_string()
            };
            c.note(|| format!("{:?}", t));
            c.label("malformed");
            c.nontrivial();
            want(&format!("Rat::from_str({:?})", t), no_panic("Rat::from_str", || Rat::from_str(&t))?, RatError::kind, RatErrKind::ParseStringWrong)
        }
        4 => {
            let (n, d) = (gen_i(c, 4), gen_i(c, 4));
            let n = if c.chance(1, 2) { I { neg: false, m: vec![] } } else { n };
            if d.is_zero() { return c.discard(); }
            c.note(|| format!("inverse of {} / {}", n.hex(), d.hex()));
            let r = Rat::from_frac_bigint(&big(&n), &big(&d)).map_err(|e| e.to_string())?;
            // zero as a constant or as the result of a computation
            let r = if n.is_zero() && c.chance(1, 2) { let x = Rat::from_frac_bigint(&big(&d), &big(&I { neg: false, m: vec![7] })).map_err(|e| e.to_string())?; x.clone() - x } else { r };
            let got = no_panic("inv", || r.inv())?;
            if n.is_zero() { c.label("inverse of zero"); c.nontrivial(); want("inv of 0", got, RatError::kind, RatErrKind::NumeratorIsZero) } else { ok(got.is_ok(), || "inverse of a nonzero number rejected".into()) }
        }
        _ => {
            let k = [RatErrKind::DenominatorIsZero, RatErrKind::NumeratorIsZero, RatErrKind::ParseStringWrong];
            let i = c.below(3);
            let n = c.size(20) as usize;
            let text = digits(c, 16, n);
            c.note(|| format!("RatError::new({:?}, {:?})", k[i], text));
            let e = RatError::new(k[i], text.clone());
            ok(e.kind() == k[i] && e.to_string() == text, || "RatError lost its kind or text".into())?;
            for a in 0..3 { for b in 0..3 { ok((k[a] == k[b]) == (a == b) && (format!("{:?}", k[a]) == format!("{:?}", k[b])) == (a == b), || "two kinds look the same".into())?; } }
            let p = [ParseErrKind::BeginWithIllegalChar, ParseErrKind::IllegalCharEncounter, ParseErrKind::InvalidParameters];
            let e = NatError::new(p[i], text.clone());
            ok(e.kind() == p[i] && e.to_string() == text, || "NatError lost its kind or text".into())?;
            for a in 0..3 { for b in 0..3 { ok((p[a] == p[b]) == (a == b) && (format!("{:?}", p[a]) == format!("{:?}", p[b])) == (a == b), || "two kinds look the same".into())?; } }
            // an error inside an error keeps its text
            let o = RatError::new(k[i], e);
            ok(o.to_string() == text, || format!("wrapped text {:?} want {:?}", o.to_string(), text))
        }
    }
}

// ------------------------------------------------------------------ floats
fn c39_float(c: &mut Ctx) -> R {
    let (m, n) = (1 + c.below(20), c.below(20));
    let sign = ["", "-", "+"][c.below(3)];
    let mut mant = digits(c, 10, m);
    if c.chance(1, 2) { mant.push('.'); mant.push_str(&digits(c, 10, n)); }
    let nonzero = mant.bytes().any(|b| b'1' <= b && b <= b'9');
    let (text, k) = match c.weighted(&[4, 4, 4, 2]) {
        w @ 0..=1 => {
            let limit: i128 = if w == 0 { Float::max_exp() as i128 } else { -(Float::min_exp() as i128) };
            let e = limit + 1 + match c.below(4) { 0 => 0, 1 => c.size(100) as i128, 2 => c.word64() as i128, _ => (c.word64() as i128) << c.below(60) };
            c.label(if w == 0 { "exponent too large" } else { "exponent too small" });
            if !nonzero { mant.insert(0, '1'); }
            let z = c.below(4);
            (format!("{}{}{}{}{}{}", sign, mant, ["e", "E"][c.below(2)], if w == 1 { "-" } else { ["", "+"][c.below(2)] }, "0".repeat(z), e), Some(if w == 0 { "ExponentOverflow" } else { "ExponentUnderflow" }))
        }
        2 => {
            let good = if c.chance(1, 2) { format!("{}{}e{}", sign, mant, c.range(-300, 300)) } else { format!("{}{}", sign, mant) };
            c.label("malformed");
            (if c.chance(1, 2) { strange_text(c, &good) } else {
                ["", " ", "e", "E5", ".", "-", "+", "e5", "1e", "1e+", "1e-", "1ee5", "1e5e5", "1e5E5", "1E5e5", "1.2.3", "1e1.5", "1.5e", ".e5", "-.e5", "1e0x10", "1e-0x1", "1 5", "1. 5", "1e 5", "0x1.8", "0b1.1", "0x", "1e--5", "1e+-5", "1e++5", "--1.5", "1_0", "1,5", "nan", "NaN", "inf", "+Inf", "infinity", "1e5 x", "1.5f", "0xg.e", "1/2", "1.5e9999999999999999999x", "x1.5e3"][c.below(45)].to_string()
            }, Some("ParseStringWrong"))
        }
        _ => { c.label("valid"); let mut t = format!("{}{}", sign, mant); t.push_str(&format!("e{}", c.range(-400, 400))); (t, None) }
    };
    c.note(|| format!("{:?}", text));
    c.nontrivial();
    let got = no_panic("Float::from_str", || Float::from_str(&text))?;
    match k {
        Some(k) => match got {
            Ok(_) => Err(format!("Float::from_str({:?}) accepted, want {}", text, k)),
            Err(e) => { let s = no_panic("printing the error", || format!("{} {:?} {}", e, e, e.source().is_some()))?; let g = format!("{:?}", e.kind()); ok(g == k, || format!("Float::from_str({:?}): kind {} ({}), want {}", text, g, s, k)) }
        },
        None => ok(got.is_ok(), || format!("Float::from_str({:?}) rejected", text)),
    }
}

// ------------------------------------------------------------------ generators
const RK: [RandErrKind; 5] = [RandErrKind::NoNewRandSeedGen, RandErrKind::NoNewRandNumberGen, RandErrKind::DivisorIsZero, RandErrKind::InvalidRngPara, RandErrKind::InnerErr];
/// a seed that fails in a given way, or gives a word
struct Sd { fail: Option<(RandErrKind, String)>, v: u64 }
macro_rules! seed_for { ($t:ty) => { impl Seed<$t> for Sd { fn seed(&self) -> rmath::rand::Result<$t> { match &self.fail { Some((k, s)) => Err(RandError::new(*k, s.clone())), None => Ok(self.v as $t) } } } } }
seed_for!(u32); seed_for!(u64); seed_for!(usize);
fn passed<T>(what: &str, got: rmath::rand::Result<T>, k: RandErrKind, s: &str) -> R {
    match got {
        Ok(_) => Err(format!("{}: succeeded on a failing seed", what)),
        Err(e) => ok(e.kind() == k && e.to_string() == s && no_panic("printing the error", || format!("{:?}", e)).is_ok(), || format!("{}: error ({:?}, {:?}) became ({:?}, {:?})", what, k, s, e.kind(), e.to_string())),
    }
}
macro_rules! seeds { ($name:ident, $t:ty) => {
    fn $name(c: &mut Ctx, bad: &Sd) -> R {
        let (k, s) = bad.fail.clone().unwrap();
        let good = Sd { fail: None, v: c.word64() };
        let (w, p) = (<$t>::bits_len(), if <$t>::bits_len() == 32 { 7 as $t } else { 9 as $t });
        let draws = c.below(5);
        match c.below(3) {
            0 => {
                passed("LinearCongruentialRand::new", no_panic("new", || LinearCongruentialRand::<$t>::new(bad, 5, 3, 97))?, k, &s)?;
                let mut g = LinearCongruentialRand::<$t>::new(&good, 5, 3, 97).map_err(|e| e.to_string())?;
                for _ in 0..draws { g.gen().map_err(|e| e.to_string())?; }
                passed("LinearCongruentialRand::reset", no_panic("reset", || g.reset(bad))?, k, &s)
            }
            1 => {
                passed("MersenneTwisterRand::new", no_panic("new", || MersenneTwisterRand::<$t>::new(bad, w, 11, 5, 13, 0x9d2c, (p, 0xfff), (3, 0x5555), (p, 0x7777), 6, 0x6c07))?, k, &s)?;
                let mut g = MersenneTwisterRand::<$t>::new(&good, w, 11, 5, 13, 0x9d2c, (p, 0xfff), (3, 0x5555), (p, 0x7777), 6, 0x6c07).map_err(|e| e.to_string())?;
                for _ in 0..draws { g.gen().map_err(|e| e.to_string())?; }
                passed("MersenneTwisterRand::reset", no_panic("reset", || g.reset(bad))?, k, &s)
            }
            _ => {
                passed("LaggedFibonacciRand::new", no_panic("new", || LaggedFibonacciRand::<$t>::new(bad, w - p, 5, 12))?, k, &s)?;
                let mut g = LaggedFibonacciRand::<$t>::new(&good, w - p, 5, 12).map_err(|e| e.to_string())?;
                for _ in 0..draws { g.gen().map_err(|e| e.to_string())?; }
                passed("LaggedFibonacciRand::reset", no_panic("reset", || g.reset(bad))?, k, &s)
            }
        }
    }
} }
seeds!(seeds_u32, u32);
seeds!(seeds_u64, u64);
seeds!(seeds_usize, usize);
fn c39_seed(c: &mut Ctx) -> R {
    let k = RK[c.below(5)];
    let n = c.size(12) as usize;
    let s = digits(c, 16, n);
    c.note(|| format!("a seed failing with {:?} {:?}", k, s));
    c.nontrivial();
    let bad = Sd { fail: Some((k, s)), v: 0 };
    match c.below(3) { 0 => seeds_u32(c, &bad), 1 => seeds_u64(c, &bad), _ => seeds_usize(c, &bad) }
}
/// a source failing in a given way after some words
struct Fs { ok: usize, k: RandErrKind, s: String, n: usize }
impl Source<u64> for Fs {
    fn gen(&mut self) -> rmath::rand::Result<u64> { self.n += 1; if self.n > self.ok { Err(RandError::new(self.k, self.s.clone())) } else { Ok(self.n as u64) } }
    fn reset<S: Seed<u64>>(&mut self, sd: &S) -> rmath::rand::Result<()> { sd.seed().map(|_| ()) }
}
fn c39_source(c: &mut Ctx) -> R {
    let (k, n, len) = (RK[c.below(5)], c.below(6), c.size(12) as usize);
    let s = digits(c, 16, len);
    c.note(|| format!("a source failing with {:?} {:?} after {} words", k, s, n));
    c.nontrivial();
    let mut f = Fs { ok: n, k, s: s.clone(), n: 0 };
    let mut it = Iter::new(&mut f);
    for i in 0..n { ok(it.last_error().is_none() && it.next() == Some(i as u64 + 1), || format!("word {} missing", i))?; }
    for round in 0..3 {
        ok(it.next().is_none(), || "a word from a failing source".into())?;
        match it.last_error() {
            None => return Err("the error is not kept".into()),
            Some(e) => ok(e.kind() == k && e.to_string() == s, || format!("error ({:?}, {:?}) became ({:?}, {:?})", k, s, e.kind(), e.to_string()))?,
        }
        if round == 1 { it.clear_error(); ok(it.last_error().is_none(), || "error kept after clear_error".into())?; }
    }
    // the kinds are told apart
    for a in 0..5 { for b in 0..5 { ok((RK[a] == RK[b]) == (a == b) && (format!("{:?}", RK[a]) == format!("{:?}", RK[b])) == (a == b), || "two kinds look the same".into())?; } }
    Ok(())
}
fn c39_params(c: &mut Ctx) -> R {
    let sd = Sd { fail: None, v: c.word64() };
    c.nontrivial();
    let z = c.chance(1, 3);
    match c.below(4) {
        0 => {
            let (a, k) = (c.word64(), c.word64());
            let m = if c.chance(1, 2) { 0 } else { c.limb().max(1) as u64 };
            c.note(|| format!("lcr a={:#x} c={:#x} m={:#x}", a, k, m));
            let g = no_panic("new", || LinearCongruentialRand::<u64>::new(&sd, a, k, m).map(|_| ()))?;
            let h = no_panic("new", || LinearCongruentialRand::<u32>::new(&sd, a as u32, k as u32, m as u32).map(|_| ()))?;
            if m == 0 { want("modulus 0", g, RandError::kind, RandErrKind::DivisorIsZero)?; want("modulus 0", h, RandError::kind, RandErrKind::DivisorIsZero) } else { ok(g.is_ok() && h.is_ok(), || "valid modulus rejected".into()) }
        }
        1 => {
            let (w, s, r) = match c.below(4) { 0 => (0, 3, 7), 1 => (24, if z { 0 } else { 7 + c.below(5) }, 7), 2 => (24, 0, 0), _ => (if z { 65 } else { 65 + c.size(200) as usize }, 3, 7) };
            c.note(|| format!("lf w={} s={} r={}", w, s, r));
            want("lagged Fibonacci parameters", no_panic("new", || LaggedFibonacciRand::<u64>::new(&sd, w as u64, s as u64, r as u64).map(|_| ()))?, RandError::kind, RandErrKind::InvalidRngPara)?;
            want("lagged Fibonacci parameters", no_panic("new", || LaggedFibonacciRand::<u32>::new(&sd, w as u32, s as u32, r as u32).map(|_| ()))?, RandError::kind, RandErrKind::InvalidRngPara)
        }
        _ => {
            let mut p = [20u32, 11, 5, 13, 0x9d2c, 7, 0xfff, 3, 0x5555, 7, 0x7777, 6, 0x6c07];
            let i = c.below(13);
            // n below m counts as m above n
            p[i] = match i { 1 => c.below(5) as u32, 11 => 20 + c.below(50) as u32, _ if z => 0, 0 => 65 + c.below(100) as u32, 2 => 12 + c.below(50) as u32, 4 | 6 | 8 | 10 | 12 => (1 << 20) + c.below(1 << 24) as u32, _ => 20 + c.below(50) as u32 };
            c.note(|| format!("mt {:?}", p));
            let q: Vec<u64> = p.iter().map(|x| *x as u64).collect();
            want("Mersenne Twister parameters", no_panic("new", || MersenneTwisterRand::<u32>::new(&sd, p[0], p[1], p[2], p[3], p[4], (p[5], p[6]), (p[7], p[8]), (p[9], p[10]), p[11], p[12]).map(|_| ()))?, RandError::kind, RandErrKind::InvalidRngPara)?;
            want("Mersenne Twister parameters", no_panic("new", || MersenneTwisterRand::<u64>::new(&sd, q[0], q[1], q[2], q[3], q[4], (q[5], q[6]), (q[7], q[8]), (q[9], q[10]), q[11], q[12]).map(|_| ()))?, RandError::kind, RandErrKind::InvalidRngPara)
        }
    }
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C39", rule: "a rejected input or an injected failure (valid inputs are mixed in), or a damaged text",
        laws: &[Law { name: "nat_text", weight: 4, run: c39_nat_text }, Law { name: "prime", weight: 1, run: c39_prime }, Law { name: "rat", weight: 4, run: c39_rat }, Law { name: "float", weight: 4, run: c39_float }, Law { name: "seed", weight: 2, run: c39_seed }, Law { name: "source", weight: 1, run: c39_source }, Law { name: "params", weight: 2, run: c39_params }],
        quick: 600_000, thorough: 12_000_000, assumptions: &["texts of up to about 45 characters", "malformed texts are valid ones with one character damaged, or from a list of shapes"] },
];
