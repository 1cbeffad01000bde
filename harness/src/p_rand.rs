//! C33-C36, C38: random number generators.
use crate::common::*;
use crate::engine::*;
use rmath::rand::{CryptoRand, DefaultRand, DefaultSeed, Iter, IterSource, LaggedFibonacciRand, LinearCongruentialRand, MersenneTwisterRand, PrimitiveType, RandErrKind, RandError, Seed, Source};
use std::cell::Cell;

/// a seed that is a value or a failure; counts how often it is asked
struct S<T> { v: Option<T>, asked: Cell<u32> }
impl<T> S<T> { fn new(v: T) -> S<T> { S { v: Some(v), asked: Cell::new(0) } } fn bad() -> S<T> { S { v: None, asked: Cell::new(0) } } }
impl<T: PrimitiveType + Copy> Seed<T> for S<T> {
    fn seed(&self) -> rmath::rand::Result<T> {
        self.asked.set(self.asked.get() + 1);
        self.v.ok_or_else(|| RandError::new(RandErrKind::NoNewRandSeedGen, "no seed"))
    }
}
fn kind(e: &RandError) -> String { format!("{:?}", e.kind()) }
fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1 << w) - 1 } }

// ------------------------------------------------------------------ reference generators
#[derive(Clone)]
pub struct RLcr { a: u64, c: u64, m: u64, x: u64 }
impl RLcr { fn step(&mut self) -> u64 { self.x = ((self.a as u128 * self.x as u128 + self.c as u128) % self.m as u128) as u64; self.x } }
#[derive(Clone, Debug)]
pub struct MtP { w: u32, n: usize, m: usize, r: u32, a: u64, u: u32, d: u64, s: u32, b: u64, t: u32, c: u64, l: u32, f: u64 }
#[derive(Clone)]
pub struct RMt { p: MtP, x: Vec<u64>, i: usize }
impl RMt {
    fn new(p: &MtP, seed: u64) -> RMt {
        let k = mask(p.w);
        let mut x = vec![seed & k];
        for i in 1..p.n { let y = x[i - 1]; let y = y ^ (y >> (p.w - 2)); x.push((p.f as u128 * y as u128 + i as u128) as u64 & k); }
        RMt { p: p.clone(), x, i: 0 }
    }
    fn step(&mut self) -> u64 {
        // one element of the circular state at a time
        let (p, n, i) = (&self.p, self.p.n, self.i);
        let lower = mask(p.r);
        let y = (self.x[i] & !lower) | (self.x[(i + 1) % n] & lower);
        self.x[i] = self.x[(i + p.m) % n] ^ (y >> 1) ^ if y & 1 == 1 { p.a } else { 0 };
        let mut z = self.x[i];
        self.i = (i + 1) % n;
        z ^= (z >> p.u) & p.d;
        z ^= (z << p.s) & p.b;
        z ^= (z << p.t) & p.c;
        z ^= z >> p.l;
        z & mask(p.w)
    }
}
#[derive(Clone)]
pub struct RLf { w: u32, s: usize, x: Vec<u64>, carry: u64, i: usize }
impl RLf {
    fn new(w: u32, s: usize, r: usize, seed: u64) -> RLf {
        let mut e = RLcr { a: 40014, c: 0, m: 2147483563, x: seed };
        let mut x = Vec::new();
        for _ in 0..r { let mut v = 0u128; for j in 0..(w + 31) / 32 { v += (e.step() as u128) << (32 * j); } x.push(v as u64 & mask(w)); }
        let carry = (x[r - 1] == 0) as u64;
        RLf { w, s, x, carry, i: 0 }
    }
    fn step(&mut self) -> u64 {
        let r = self.x.len();
        let y = self.x[(self.i + r - self.s) % r] as i128 - self.x[self.i] as i128 - self.carry as i128;
        self.carry = (y < 0) as u64;
        let v = if y < 0 { y + (1i128 << self.w) } else { y } as u64;
        self.x[self.i] = v;
        self.i = (self.i + 1) % r;
        v
    }
}

fn gen_word(c: &mut Ctx, bits: u32) -> u64 { c.word64() & mask(bits) }

// ------------------------------------------------------------------ C33
macro_rules! lcr_law { ($name:ident, $t:ty, $bits:expr) => {
    fn $name(c: &mut Ctx) -> R {
        let (a, k, seed) = (gen_word(c, $bits), gen_word(c, $bits), gen_word(c, $bits));
        let m = match c.weighted(&[4, 2, 1]) { 0 => gen_word(c, $bits), 1 => [2147483647u64, 2147483563, 97, 1, 2, 1 << 31, 1 << 16][c.below(7)], _ => 0 } & mask($bits);
        c.note(|| format!(concat!(stringify!($t), " a={:#x} c={:#x} m={:#x} seed={:#x}"), a, k, m, seed));
        let sd = S::new(seed as $t);
        let g = no_panic("new", || LinearCongruentialRand::<$t>::new(&sd, a as $t, k as $t, m as $t))?;
        let mut g = match g {
            Ok(g) => { ok(m != 0, || "modulus 0 accepted".into())?; g }
            Err(e) => { c.label("modulus 0"); return ok(m == 0 && e.kind() == RandErrKind::DivisorIsZero, || format!("rejected: {}", kind(&e))); }
        };
        if a > 1 && m > 2 { c.nontrivial(); }
        if a as u128 * seed as u128 + k as u128 > mask($bits) as u128 { c.label("product exceeds the word"); }
        let mut r = RLcr { a, c: k, m, x: seed };
        let ln = c.lim(40, 600);
        let n = 2 + c.size(ln);
        for i in 0..n {
            let w = r.step();
            match no_panic("gen", || g.gen())? { Ok(x) => ok(x as u64 == w && (x as u64) < m, || format!("output {}: got {:#x} want {:#x}", i, x, w))?, Err(e) => return Err(format!("output {} failed: {}", i, e)) }
        }
        Ok(())
    }
} }
lcr_law!(c33_u32, u32, 32);
lcr_law!(c33_u64, u64, 64);
lcr_law!(c33_usize, usize, 64);
fn nth<T: PrimitiveType, G: Source<T>>(g: &mut G, n: usize) -> Result<T, String> {
    for _ in 1..n { g.gen().map_err(|e| e.to_string())?; }
    g.gen().map_err(|e| e.to_string())
}
fn c33_published(c: &mut Ctx) -> R {
    let seed = c.limb();
    let s = S::new(seed);
    c.note(|| format!("seed={}", seed));
    c.nontrivial();
    let mut g = rmath::minstd_rand0!(s).map_err(|e| e.to_string())?;
    let mut h = rmath::minstd_rand!(s).map_err(|e| e.to_string())?;
    let (mut x, mut y) = (seed as u64, seed as u64);
    for i in 0..300 {
        x = x * 16807 % 2147483647;
        y = y % 2147483647 * 48271 % 2147483647;
        let (a, b) = (g.gen().map_err(|e| e.to_string())?, h.gen().map_err(|e| e.to_string())?);
        ok(a as u64 == x, || format!("minstd_rand0 output {}: {} want {}", i, a, x))?;
        ok(b as u64 == y, || format!("minstd_rand output {}: {} want {}", i, b, y))?;
    }
    if c.chance(1, 20) {
        let s = S::new(1u32);
        let a = nth(&mut rmath::minstd_rand0!(s).map_err(|e| e.to_string())?, 10000)?;
        let b = nth(&mut rmath::minstd_rand!(s).map_err(|e| e.to_string())?, 10000)?;
        c.label("10000th output");
        ok(a == 1043618065 && b == 399268537, || format!("10000th outputs {} {}", a, b))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C34
fn gen_mtp(c: &mut Ctx, bits: u32) -> MtP {
    let w = match c.weighted(&[3, 2, 1]) { 0 => bits, 1 => 2 + c.below(bits as usize - 1) as u32, _ => [2, 3, 8, 16, 24, 31, 32][c.below(7)] }.min(bits);
    let ln = c.lim(40, 700);
    let n = 1 + c.size(ln) as usize;
    let m = 1 + c.below(n);
    let sh = |c: &mut Ctx| 1 + c.below(w as usize - 1) as u32;
    let r = sh(c);
    let k = mask(w);
    let nz = |c: &mut Ctx| { let v = gen_word(c, w) & k; if v == 0 { k } else { v } };
    let (a, u, d, s, b, t, cc) = (nz(c), sh(c), nz(c), sh(c), nz(c), sh(c), nz(c));
    let l = c.below(w as usize) as u32;
    let f = nz(c);
    MtP { w, n, m, r, a, u, d, s, b, t, c: cc, l, f }
}
macro_rules! mt_law { ($name:ident, $bad:ident, $mk:ident, $t:ty, $bits:expr) => {
    fn $mk(sd: &S<$t>, p: &MtP) -> rmath::rand::Result<MersenneTwisterRand<$t>> {
        MersenneTwisterRand::<$t>::new(sd, p.w as $t, p.n as $t, p.m as $t, p.r as $t, p.a as $t, (p.u as $t, p.d as $t), (p.s as $t, p.b as $t), (p.t as $t, p.c as $t), p.l as $t, p.f as $t)
    }
    fn $name(c: &mut Ctx) -> R {
        let p = gen_mtp(c, $bits);
        let seed = gen_word(c, $bits);
        c.note(|| format!(concat!(stringify!($t), " seed={:#x} {:?}"), seed, p));
        if p.n > 1 && p.w > 3 { c.nontrivial(); }
        if p.w == $bits { c.label("full word"); }
        if p.l == 0 { c.label("l = 0"); }
        let sd = S::new(seed as $t);
        let mut g = no_panic("new", || $mk(&sd, &p))?.map_err(|e| format!("valid parameters rejected: {} ({:?})", e, p))?;
        let mut r = RMt::new(&p, seed);
        let n = 1 + c.below(3 * p.n + 2);
        if n > p.n { c.label("regenerated"); }
        for i in 0..n {
            let w = r.step();
            match no_panic("gen", || g.gen())? { Ok(x) => ok(x as u64 == w, || format!("output {}: got {:#x} want {:#x} ({:?})", i, x, w, p))?, Err(e) => return Err(format!("output {} failed: {}", i, e)) }
        }
        Ok(())
    }
    fn $bad(c: &mut Ctx) -> R {
        let mut p = gen_mtp(c, $bits);
        let over = |c: &mut Ctx, w: u32| if w == $bits { None } else { Some((mask(w) + 1 + c.upto(mask($bits) - mask(w) - 1)) & mask($bits)) };
        let big = |c: &mut Ctx, lo: u32| lo + c.size(70) as u32;
        let w = p.w;
        let which = c.below(19);
        match which {
            0 => p.w = 0,
            1 => p.w = big(c, $bits + 1),
            2 => p.m = 0,
            3 => p.m = p.n + 1 + c.size(5) as usize,
            4 => p.r = 0,
            5 => p.r = big(c, w),
            6 => p.a = 0,
            7 => match over(c, w) { Some(v) => p.a = v, None => return c.discard() },
            8 => p.u = 0,
            9 => p.u = big(c, w),
            10 => p.d = 0,
            11 => { match over(c, w) { Some(v) => p.d = v, None => return c.discard() } }
            12 => { p.s = if c.chance(1, 2) { 0 } else { big(c, w) } }
            13 => { p.b = if c.chance(1, 2) { 0 } else { match over(c, w) { Some(v) => v, None => return c.discard() } } }
            14 => { p.t = if c.chance(1, 2) { 0 } else { big(c, w) } }
            15 => { p.c = if c.chance(1, 2) { 0 } else { match over(c, w) { Some(v) => v, None => return c.discard() } } }
            16 => p.l = big(c, w),
            17 => p.f = 0,
            _ => match over(c, w) { Some(v) => p.f = v, None => return c.discard() },
        }
        c.note(|| format!(concat!(stringify!($t), " {:?}"), p));
        c.nontrivial();
        let sd = S::new(1 as $t);
        match no_panic("new", || $mk(&sd, &p))? {
            Err(e) => ok(e.kind() == RandErrKind::InvalidRngPara, || format!("wrong error {} for {:?}", kind(&e), p)),
            Ok(_) => Err(format!("parameters outside the documented ranges accepted: {:?}", p)),
        }
    }
} }
mt_law!(c34_u32, c34_bad_u32, mt_u32, u32, 32);
mt_law!(c34_u64, c34_bad_u64, mt_u64, u64, 64);
mt_law!(c34_usize, c34_bad_usize, mt_usize, usize, 64);
fn std_mt(big: bool) -> MtP {
    if big { MtP { w: 64, n: 312, m: 156, r: 31, a: 0xb5026f5aa96619e9, u: 29, d: 0x5555555555555555, s: 17, b: 0x71d67fffeda60000, t: 37, c: 0xfff7eee000000000, l: 43, f: 6364136223846793005 } }
    else { MtP { w: 32, n: 624, m: 397, r: 31, a: 0x9908b0df, u: 11, d: 0xffffffff, s: 7, b: 0x9d2c5680, t: 15, c: 0xefc60000, l: 18, f: 1812433253 } }
}
fn c34_published(c: &mut Ctx) -> R {
    c.nontrivial();
    let skip = c.chance(1, 12);
    if c.chance(1, 2) {
        let seed = if skip { 5489 } else { c.limb() };
        c.note(|| format!("mt19937 seed={}", seed));
        let s = S::new(seed);
        let mut g = rmath::mt19937!(s).map_err(|e| e.to_string())?;
        let mut r = RMt::new(&std_mt(false), seed as u64);
        let n = if skip { 10000 } else { 1 + c.below(1400) };
        let mut last = 0;
        for i in 0..n { let (x, w) = (g.gen().map_err(|e| e.to_string())?, r.step()); last = x; ok(x as u64 == w, || format!("mt19937 seed {} output {}: {:#x} want {:#x}", seed, i, x, w))?; }
        if skip { c.label("10000th output"); ok(last == 4123659995, || format!("10000th output {}", last))?; }
    } else {
        let seed = if skip { 5489 } else { c.word64() };
        c.note(|| format!("mt19937_64 seed={}", seed));
        let s = S::new(seed);
        let mut g = rmath::mt19937_64!(s).map_err(|e| e.to_string())?;
        let mut r = RMt::new(&std_mt(true), seed);
        let n = if skip { 10000 } else { 1 + c.below(700) };
        let mut last = 0;
        for i in 0..n { let (x, w) = (g.gen().map_err(|e| e.to_string())?, r.step()); last = x; ok(x == w, || format!("mt19937_64 seed {} output {}: {:#x} want {:#x}", seed, i, x, w))?; }
        if skip { c.label("10000th output"); ok(last == 9981545732273789042, || format!("10000th output {}", last))?; }
    }
    Ok(())
}
fn c34_mask(c: &mut Ctx) -> R {
    let w = 1 + c.below(64) as u32;
    c.note(|| format!("w={}", w));
    c.nontrivial();
    ok(u32::bits_len() == 32 && u64::bits_len() == 64 && usize::bits_len() == usize::BITS as usize, || "bits_len".into())?;
    ok((w as u64).mask() == mask(w) && (w as usize).mask() as u64 == mask(w), || format!("mask({}) is {:#x} {:#x}", w, (w as u64).mask(), (w as usize).mask()))?;
    if w <= 32 { ok(w.mask() as u64 == mask(w), || format!("mask({}) is {:#x}", w, w.mask()))?; }
    Ok(())
}

// ------------------------------------------------------------------ C35
fn gen_lf(c: &mut Ctx, bits: u32) -> (u32, usize, usize) {
    let w = match c.weighted(&[3, 3, 2]) { 0 => bits, 1 => 1 + c.below(bits as usize) as u32, _ => [1, 2, 24, 31, 32, 33, 48, 63][c.below(8)].min(bits) };
    let lr = c.lim(30, 700);
    let r = 2 + c.size(lr) as usize;
    let s = 1 + c.below(r - 1);
    (w, s, r)
}
macro_rules! lf_law { ($name:ident, $t:ty, $bits:expr) => {
    fn $name(c: &mut Ctx) -> R {
        let sd = S::new(gen_word(c, $bits) as $t);
        let seed = sd.v.unwrap() as u64;
        if c.chance(1, 5) {
            let (mut w, mut s, mut r) = gen_lf(c, $bits);
            match c.below(5) { 0 => w = 0, 1 => s = 0, 2 => r = 0, 3 => s = r + c.size(4) as usize, _ => w = $bits + 1 + c.size(70) as u32 }
            c.note(|| format!("w={} s={} r={}", w, s, r));
            c.nontrivial();
            c.label("invalid");
            return match no_panic("new", || LaggedFibonacciRand::<$t>::new(&sd, w as $t, s as $t, r as $t))? {
                Err(e) => ok(e.kind() == RandErrKind::InvalidRngPara, || format!("wrong error {}", kind(&e))),
                Ok(_) => Err(format!("w={} s={} r={} accepted", w, s, r)),
            };
        }
        let (w, s, r) = gen_lf(c, $bits);
        c.note(|| format!(concat!(stringify!($t), " w={} s={} r={} seed={:#x}"), w, s, r, seed));
        if w > 2 && r > 2 && seed % 2147483563 != 0 { c.nontrivial(); }
        if w == $bits { c.label("full word"); }
        let mut g = no_panic("new", || LaggedFibonacciRand::<$t>::new(&sd, w as $t, s as $t, r as $t))?.map_err(|e| format!("valid parameters rejected: {}", e))?;
        let mut o = RLf::new(w, s, r, seed);
        let n = 1 + c.below(4 * r + 3);
        for i in 0..n {
            let v = o.step();
            match no_panic("gen", || g.gen())? { Ok(x) => ok(x as u64 == v && v <= mask(w), || format!("w={} s={} r={} seed={:#x} output {}: got {:#x} want {:#x}", w, s, r, seed, i, x, v))?, Err(e) => return Err(format!("output {} failed: {}", i, e)) }
        }
        Ok(())
    }
} }
lf_law!(c35_u32, u32, 32);
lf_law!(c35_u64, u64, 64);
lf_law!(c35_usize, usize, 64);
fn c35_published(c: &mut Ctx) -> R {
    c.nontrivial();
    let skip = c.chance(1, 12);
    let ln = c.lim(200, 2000);
    let n = if skip { 10000 } else { 1 + c.below(ln) };
    let (s32, s64) = if skip { (19780503, 19780503) } else { (c.limb(), c.word64()) };
    c.note(|| format!("seeds {} {} draws {}", s32, s64, n));
    let (a, b) = (S::new(s32), S::new(s64));
    let mut g = rmath::ranlux24_base!(a).map_err(|e| e.to_string())?;
    let mut h = rmath::ranlux48_base!(b).map_err(|e| e.to_string())?;
    let (mut p, mut q) = (RLf::new(24, 10, 24, s32 as u64), RLf::new(48, 5, 12, s64));
    let mut last = (0u32, 0u64);
    for i in 0..n {
        last = (g.gen().map_err(|e| e.to_string())?, h.gen().map_err(|e| e.to_string())?);
        let w = (p.step(), q.step());
        ok((last.0 as u64, last.1) == w, || format!("output {}: {:?} want {:?}", i, last, w))?;
    }
    if skip { c.label("10000th output"); ok(last == (7937952, 61839128582725), || format!("10000th outputs {:?}", last))?; }
    Ok(())
}

// ------------------------------------------------------------------ C36
#[derive(Clone)]
enum Rf { L(RLcr), M(RMt), F(RLf) }
impl Rf { fn step(&mut self) -> u64 { match self { Rf::L(x) => x.step(), Rf::M(x) => x.step(), Rf::F(x) => x.step() } } }
#[derive(Clone)]
enum Pa { L(u64, u64, u64), M(MtP), F(u32, usize, usize) }
impl Pa { fn fresh(&self, seed: u64) -> Rf { match self { Pa::L(a, c, m) => Rf::L(RLcr { a: *a, c: *c, m: *m, x: seed }), Pa::M(p) => Rf::M(RMt::new(p, seed)), Pa::F(w, s, r) => Rf::F(RLf::new(*w, *s, *r, seed)) } } }
/// ways to iterate: which draws (by position) come out, and how many draws are made
const WALKS: usize = 7;
fn walk_at(style: usize, n: usize, k: usize) -> (Vec<usize>, usize) {
    match style {
        1 => { let m = n / (k + 1); ((0..m).map(|i| i * (k + 1) + k).collect(), m * (k + 1)) }
        2 => ((k..k + n).collect(), if n == 0 { 0 } else { k + n }),
        3 => { let m = n / k; ((0..m).map(|i| i * k).collect(), if m == 0 { 0 } else { (m - 1) * k + 1 }) }
        6 => (if n == 0 { vec![] } else { vec![n - 1] }, n),
        _ => ((0..n).collect(), n),
    }
}
fn walk<T: Copy, I: Iterator<Item = T>>(mut it: I, style: usize, n: usize, k: usize) -> Result<Vec<T>, String> {
    let (_, hi) = it.size_hint();
    ok(hi.map_or(true, |h| h > 1 << 20), || format!("an endless iterator announces at most {:?} items", hi))?;
    Ok(match style {
        0 => it.take(n).collect(),
        1 => { let mut v = Vec::new(); for _ in 0..n / (k + 1) { v.extend(it.nth(k)); } v }
        2 => it.skip(k).take(n).collect(),
        3 => it.step_by(k).take(n / k).collect(),
        4 => { let mut v: Vec<T> = it.by_ref().take(n / 2).collect(); v.extend(it.take(n - n / 2)); v }
        5 => (0..n).zip(it).map(|x| x.1).collect(),
        _ => it.take(n).last().into_iter().collect(),
    })
}
macro_rules! hist_law { ($name:ident, $g:ident, $mk:ident, $t:ty, $bits:expr) => {
    #[derive(Clone)]
    enum $g { L(LinearCongruentialRand<$t>), M(MersenneTwisterRand<$t>), F(LaggedFibonacciRand<$t>) }
    impl $g {
        fn new(p: &Pa, sd: &S<$t>) -> rmath::rand::Result<$g> {
            Ok(match p { Pa::L(a, c, m) => $g::L(LinearCongruentialRand::<$t>::new(sd, *a as $t, *c as $t, *m as $t)?), Pa::M(p) => $g::M($mk(sd, p)?), Pa::F(w, s, r) => $g::F(LaggedFibonacciRand::<$t>::new(sd, *w as $t, *s as $t, *r as $t)?) })
        }
        fn gen(&mut self) -> rmath::rand::Result<$t> { match self { $g::L(x) => x.gen(), $g::M(x) => x.gen(), $g::F(x) => x.gen() } }
        fn reset(&mut self, sd: &S<$t>) -> rmath::rand::Result<()> { match self { $g::L(x) => x.reset(sd), $g::M(x) => x.reset(sd), $g::F(x) => x.reset(sd) } }
        fn walk(&mut self, style: usize, n: usize, k: usize) -> Result<Vec<$t>, String> { match self { $g::L(x) => walk(x.iter_mut(), style, n, k), $g::M(x) => walk(x.iter_mut(), style, n, k), $g::F(x) => walk(x.iter_mut(), style, n, k) } }
        fn become_like(&mut self, o: &$g) { match (self, o) { ($g::L(x), $g::L(y)) => x.clone_from(y), ($g::M(x), $g::M(y)) => x.clone_from(y), ($g::F(x), $g::F(y)) => x.clone_from(y), (x, y) => *x = y.clone() } }
    }
    fn $name(c: &mut Ctx) -> R {
        let p = match c.below(3) {
            0 => { let m = gen_word(c, $bits); Pa::L(gen_word(c, $bits), gen_word(c, $bits), if m == 0 { 97 } else { m }) }
            1 => { if c.chance(1, 6) { Pa::M(std_mt($bits == 64)) } else { Pa::M(gen_mtp(c, $bits)) } }
            _ => { let (w, s, r) = gen_lf(c, $bits); Pa::F(w, s, r) }
        };
        let seed = gen_word(c, $bits);
        c.note(|| format!("{} seed={:#x}", match &p { Pa::L(a, k, m) => format!("lcr a={:#x} c={:#x} m={:#x}", a, k, m), Pa::M(p) => format!("mt {:?}", p), Pa::F(w, s, r) => format!("lf w={} s={} r={}", w, s, r) }, seed));
        // a failing seed: no generator
        match no_panic("new", || $g::new(&p, &S::bad()))? { Ok(_) => return Err("construction succeeded without a seed".into()), Err(e) => ok(e.kind() == RandErrKind::NoNewRandSeedGen, || format!("wrong error {}", kind(&e)))? }
        let mut st: Vec<($g, Rf)> = Vec::new();
        st.push((no_panic("new", || $g::new(&p, &S::new(seed as $t)))?.map_err(|e| e.to_string())?, p.fresh(seed)));
        let lm = c.lim(25, 150);
        let steps = 2 + c.size(lm);
        let mut kinds = [false; 6];
        for k in 0..steps {
            let i = c.below(st.len());
            let op = c.weighted(&[6, 4, 2, 2, 1, 1]);
            kinds[op] = true;
            match op {
                0 => { let w = st[i].1.step(); let x = no_panic("gen", || st[i].0.gen())?.map_err(|e| e.to_string())?; c.note(|| format!("{}: #{} gen", k, i)); ok(x as u64 == w, || format!("step {}: #{} drew {:#x} want {:#x}", k, i, x, w))?; }
                1 => { let ln = c.lim(12, 700); let n = c.size(ln) as usize; let (style, j) = (if c.chance(1, 2) { 0 } else { c.below(WALKS) }, 1 + c.size(6) as usize); c.note(|| format!("{}: #{} iterate {} ({}, {})", k, i, n, style, j));
                    let at = walk_at(style, n, j); let all: Vec<u64> = (0..at.1).map(|_| st[i].1.step()).collect(); let w: Vec<u64> = at.0.iter().map(|p| all[*p]).collect();
                    if style > 0 { c.label("iterator adapters"); }
                    let x: Vec<u64> = no_panic("iterate", || st[i].0.walk(style, n, j))??.iter().map(|x| *x as u64).collect(); ok(x == w, || format!("step {}: #{} iterated {:x?} want {:x?}", k, i, x, w))?; }
                2 => {
                    if st.len() > 1 && c.chance(1, 3) { let j = c.below(st.len()); if i != j { c.note(|| format!("{}: #{} becomes a clone of #{}", k, j, i)); let x = st[i].clone(); st[j].0.become_like(&x.0); st[j].1 = x.1; } }
                    else { c.note(|| format!("{}: #{} = clone of #{}", k, st.len(), i)); let x = st[i].clone(); st.push(x); }
                }
                3 => { let s = gen_word(c, $bits); c.note(|| format!("{}: reset #{} {:#x}", k, i, s)); no_panic("reset", || st[i].0.reset(&S::new(s as $t)))?.map_err(|e| e.to_string())?; st[i].1 = p.fresh(s); }
                4 => { c.note(|| format!("{}: reset #{} with a failing seed", k, i)); match no_panic("reset", || st[i].0.reset(&S::bad()))? { Ok(()) => return Err("reset succeeded without a seed".into()), Err(e) => ok(e.kind() == RandErrKind::NoNewRandSeedGen, || format!("wrong error {}", kind(&e)))? } }
                _ => { let s = gen_word(c, $bits); c.note(|| format!("{}: #{} = new {:#x}", k, st.len(), s)); let g = $g::new(&p, &S::new(s as $t)).map_err(|e| e.to_string())?; st.push((g, p.fresh(s))); }
            }
        }
        if kinds[3] && (kinds[0] || kinds[1]) { c.nontrivial(); }
        for (i, (g, r)) in st.iter_mut().enumerate() { for _ in 0..3 { let w = r.step(); let x = g.gen().map_err(|e| e.to_string())?; ok(x as u64 == w, || format!("at the end: #{} drew {:#x} want {:#x}", i, x, w))?; } }
        Ok(())
    }
} }
hist_law!(c36_u32, Gu32, mt_u32, u32, 32);
hist_law!(c36_u64, Gu64, mt_u64, u64, 64);
hist_law!(c36_usize, Gusize, mt_usize, usize, 64);

/// a scripted source
struct Script { v: Vec<Result<u32, RandErrKind>>, i: usize }
impl Source<u32> for Script {
    fn gen(&mut self) -> rmath::rand::Result<u32> { let r = self.v.get(self.i).cloned().unwrap_or(Err(RandErrKind::InnerErr)); self.i += 1; r.map_err(|k| RandError::new(k, "scripted")) }
    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> rmath::rand::Result<()> { sd.seed().map(|_| ()) }
}
fn c36_iter(c: &mut Ctx) -> R {
    let n = 1 + c.size(30) as usize;
    let kinds = [RandErrKind::NoNewRandNumberGen, RandErrKind::InnerErr, RandErrKind::NoNewRandSeedGen];
    let v: Vec<Result<u32, RandErrKind>> = (0..n).map(|_| if c.chance(1, 3) { Err(kinds[c.below(3)]) } else { Ok(c.limb()) }).collect();
    c.note(|| format!("{:x?}", v));
    if v.iter().any(|x| x.is_err()) { c.nontrivial(); }
    let mut src = Script { v: v.clone(), i: 0 };
    let mut pos = 0;
    let mut it = Iter::new(&mut src);
    let mut err: Option<RandErrKind> = None;
    for k in 0..n + 10 {
        match c.weighted(&[6, 2, 2, 1, 1]) {
            0 => {
                let x = no_panic("next", || it.next())?;
                let w = if err.is_some() { None } else { let w = v.get(pos).cloned().unwrap_or(Err(RandErrKind::InnerErr)); pos += 1; match w { Ok(x) => Some(x), Err(e) => { err = Some(e); None } } };
                ok(x == w, || format!("call {}: next gave {:x?} want {:x?}", k, x, w))?;
            }
            1 => { it.clear_error(); err = None; }
            2 => {
                // nth: skips values, but never beyond a failure
                let j = c.size(4) as usize;
                let x = no_panic("nth", || it.nth(j))?;
                let mut w = None;
                for _ in 0..=j {
                    w = None;
                    if err.is_some() { break; }
                    let y = v.get(pos).cloned().unwrap_or(Err(RandErrKind::InnerErr)); pos += 1;
                    match y { Ok(y) => w = Some(y), Err(e) => { err = Some(e); break; } }
                }
                ok(x == w, || format!("call {}: nth({}) gave {:x?} want {:x?}", k, j, x, w))?;
            }
            3 => {
                // a search through the borrowed iterator stops at a hit or at a failure
                let m = [1u32, 3, 0x8000_0001][c.below(3)];
                let style = c.below(3);
                let left: Vec<Result<u32, RandErrKind>> = if err.is_some() { Vec::new() } else { v.iter().skip(pos).cloned().chain(std::iter::once(Err(RandErrKind::InnerErr))).collect() };
                let hit = left.iter().position(|x| x.map_or(true, |x| x & m == 0));
                let found = hit.and_then(|h| left[h].ok());
                if let Some(h) = hit { if let Err(e) = left[h] { err = Some(e); } pos += h + 1; }
                let same = no_panic("search", || match style {
                    0 => it.find(|x| x & m == 0) == found,
                    1 => it.any(|x| x & m == 0) == found.is_some(),
                    _ => it.position(|x| x & m == 0) == found.and(hit),
                })?;
                ok(same, || format!("call {}: search {} for no bit of {:#x}, want {:x?} after {:x?}", k, style, m, found, hit))?;
            }
            _ => {
                let left = if err.is_some() { 0 } else { v.iter().skip(pos).take_while(|x| x.is_ok()).count() };
                let (lo, hi) = it.size_hint();
                ok(lo <= left && hi.map_or(true, |h| h >= left), || format!("call {}: size_hint ({}, {:?}) but {} values come", k, lo, hi, left))?;
            }
        }
        let e = it.last_error().map(|e| e.kind());
        ok(e == err, || format!("call {}: last_error {:?} want {:?}", k, e, err))?;
    }
    // the rest of it, by the ways of consuming an iterator: nothing after a failure, everything up to it otherwise
    let rest: Vec<u32> = if err.is_some() { Vec::new() } else { v.iter().skip(pos).take_while(|x| x.is_ok()).map(|x| x.unwrap()).collect() };
    if err.is_none() { pos += rest.len() + 1; }
    let (style, pending) = (c.below(9), err.is_some());
    if style > 0 {
        let r = &rest;
        let same = no_panic("consume", || match style {
            1 => it.count() == r.len(),
            2 => it.last() == r.last().copied(),
            3 => it.fold(Vec::new(), |mut a, x| { a.push(x); a }) == *r,
            4 => { let mut a = Vec::new(); it.for_each(|x| a.push(x)); a == *r }
            5 => it.collect::<Vec<u32>>() == *r,
            6 => it.max() == r.iter().copied().max(),
            7 => it.partition::<Vec<u32>, _>(|_| true).0 == *r,
            _ => { let mut a = vec![1]; a.extend(it); a[1..] == r[..] }
        })?;
        ok(same, || format!("the rest, consumed by way {} (error pending: {}), is not {:x?}", style, pending, rest))?;
    } else { drop(it); if !pending { pos -= rest.len() + 1; } }
    ok(src.i == pos, || format!("{} draws instead of {}", src.i, pos))?;
    // the collected prefix ends at the first failure
    let mut src = Script { v: v.clone(), i: 0 };
    let got: Vec<u32> = Iter::new(&mut src).take(n).collect();
    let want: Vec<u32> = v.iter().take_while(|x| x.is_ok()).map(|x| x.unwrap()).collect();
    ok(got == want, || format!("collected {:x?} want {:x?}", got, want))?;
    // the error's kind and text
    let e = RandError::new(RandErrKind::DivisorIsZero, "some text");
    ok(e.kind() == RandErrKind::DivisorIsZero && e.to_string() == "some text", || "error text or kind lost".into())
}

// ------------------------------------------------------------------ C38
fn hw() -> bool { is_x86_feature_detected!("rdrand") && is_x86_feature_detected!("rdseed") }
/// one word straight from the hardware
#[target_feature(enable = "rdrand,rdseed")]
unsafe fn direct(seed: bool) -> bool { let mut x = 0; (if seed { std::arch::x86_64::_rdseed64_step(&mut x) } else { std::arch::x86_64::_rdrand64_step(&mut x) }) > 0 }
/// one source of hardware words: 0 seed, 1 default generator, 2 crypto generator
macro_rules! hw_kind { ($name:ident, $t:ty) => {
    #[derive(Clone)]
    enum $name { S(DefaultSeed<$t>), D(DefaultRand<$t>), K(CryptoRand<$t>) }
    impl $name {
        fn new(which: usize) -> Result<$name, RandError> {
            Ok(match which { 0 => $name::S(DefaultSeed::new()?), 1 => $name::D(DefaultRand::new(&S::new(7 as $t))?), _ => $name::K(CryptoRand::new(&S::new(7 as $t))?) })
        }
        fn draw(&mut self, by_iter: bool) -> Result<$t, RandError> {
            let none = || RandError::new(RandErrKind::NoNewRandNumberGen, "");
            match self { $name::S(s) => s.seed(), $name::D(d) => if by_iter { d.iter_mut().next().ok_or_else(none) } else { d.gen() }, $name::K(k) => if by_iter { k.iter_mut().next().ok_or_else(none) } else { k.gen() } }
        }
        fn reset(&mut self) { match self { $name::S(_) => {} $name::D(d) => { let _ = d.reset(&S::new(9 as $t)); } $name::K(k) => { let _ = k.reset(&S::new(9 as $t)); } } }
        /// draws until the hardware serves one; None after very many refusals
        fn word(&mut self, by_iter: bool, fails: &mut u64) -> Result<Option<u64>, String> {
            // after many refusals in a row the instruction itself is tried as well, in random order and with random
            // pauses; if it serves 100 words and the library none, the refusals are the library's
            let (mut row, mut served) = (0u64, 0u32);
            let seed = matches!(self, $name::S(_));
            let mut rng = Rng::new(*fails ^ 0x5eed);
            let pause = |rng: &mut Rng| for _ in 0..rng.upto(4000) { std::hint::spin_loop(); };
            loop {
                let direct_first = rng.chance(1, 2);
                let probing = row > 500 && *fails < 10_000;
                if probing {
                    pause(&mut rng);
                    if direct_first && unsafe { direct(seed) } { served += 1; }
                    pause(&mut rng);
                }
                let r = self.draw(by_iter);
                if probing && !direct_first { pause(&mut rng); if unsafe { direct(seed) } { served += 1; } }
                match r {
                    Ok(x) => return Ok(Some(x as u64)),
                    Err(e) => {
                        row += 1;
                        ok(served < 100, || format!("{} refusals in a row ({}) while the hardware served {} words", row, kind(&e), served))?;
                        ok(matches!(e.kind(), RandErrKind::NoNewRandNumberGen | RandErrKind::NoNewRandSeedGen), || format!("error {}", kind(&e)))?; *fails += 1; if *fails > 2_000_000 { return Ok(None); } std::thread::yield_now(); }
                }
            }
        }
    }
} }
hw_kind!(Hw32, u32);
hw_kind!(Hw64, u64);
hw_kind!(HwSize, usize);

macro_rules! draw_seq { ($c:expr, $t:ty, $h:ident, $v:expr) => {{
    let c: &mut Ctx = $c;
    let which = c.below(3);
    let mode = c.weighted(&[3, 2, 2]);
    c.note(|| format!("{} of {}, {}", ["seeds", "default generator", "crypto generator"][which], stringify!($t), ["one generator", "a pool of clones", "four threads"][mode]));
    let mut fails = 0u64;
    if mode == 2 {
        c.label("threads");
        let hs: Vec<_> = (0..4).map(|i| std::thread::spawn(move || -> Result<Option<Vec<u64>>, String> {
            let mut g = $h::new(which).map_err(|e| e.to_string())?;
            let (mut v, mut fails) = (Vec::new(), 0);
            for k in 0..128 { match g.word((k + i) % 5 == 0, &mut fails)? { Some(x) => v.push(x), None => return Ok(None) } if k % 50 == 49 { g.reset(); } }
            Ok(Some(v))
        })).collect();
        let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        for r in rs { match r { Ok(Ok(Some(w))) => $v.extend(w), Ok(Ok(None)) => return c.discard(), Ok(Err(e)) => return Err(e), Err(_) => return Err("a thread panicked".into()) } }
    } else {
        let mut pool = vec![$h::new(which).map_err(|e| e.to_string())?];
        let mut same = 0;
        while $v.len() < 512 {
            let i = c.below(pool.len());
            let by_iter = c.chance(1, 8);
            match pool[i].word(by_iter, &mut fails)? { Some(x) => $v.push(x), None => return c.discard() }
            if c.chance(1, 40) { pool[i].reset(); }
            if mode == 0 { if c.chance(1, 40) { pool[i] = pool[i].clone(); } }
            else if c.chance(1, 12) {
                // a clone does not repeat what its origin delivers
                let mut d = pool[i].clone();
                let (a, b) = (pool[i].word(false, &mut fails)?, d.word(false, &mut fails)?);
                match (a, b) { (Some(a), Some(b)) => { if a == b { same += 1; } $v.push(a); $v.push(b); } _ => return c.discard() }
                ok(same < 3, || format!("the next draws of a generator and of its clone were equal {} times", same))?;
                if pool.len() < 6 { pool.push(d); } else { pool[i] = d; }
            }
        }
    }
    if fails > 0 { c.label("hardware declined a draw"); }
}} }
fn c38_words(c: &mut Ctx) -> R {
    if !hw() { c.label("no rdrand/rdseed here"); return c.discard(); }
    let mut v: Vec<u64> = Vec::new();
    let bits = match c.below(3) { 0 => { draw_seq!(c, u32, Hw32, v); 32usize } 1 => { draw_seq!(c, u64, Hw64, v); 64 } _ => { draw_seq!(c, usize, HwSize, v); 64 } };
    c.nontrivial();
    let n = v.len() as f64;
    // with fair bits each of these has probability below 1e-18 (9 standard deviations)
    let lim = 9.0 * n.sqrt() / 2.0;
    // column b holds bit b of every output, 64 outputs to a word
    let words = (v.len() + 63) / 64;
    let mut col = vec![vec![0u64; words + 1]; bits];
    for (i, x) in v.iter().enumerate() { for (b, k) in col.iter_mut().enumerate() { k[i / 64] |= (x >> b & 1) << (i % 64); } }
    for b in 0..bits {
        let ones = col[b].iter().map(|w| w.count_ones()).sum::<u32>() as f64;
        ok((ones - n / 2.0).abs() < lim, || format!("bit {} is set in {} of {} outputs", b, ones, n))?;
        for e in 0..b { let same = n - (0..words).map(|j| (col[b][j] ^ col[e][j]).count_ones()).sum::<u32>() as f64; ok((same - n / 2.0).abs() < lim, || format!("bits {} and {} agree in {} of {} outputs", e, b, same, n))?; }
        for lag in 1..4 {
            // bit b of an output against every bit of the output `lag` draws before
            let m = v.len() - lag;
            let late: Vec<u64> = (0..words).map(|j| col[b][j] >> lag | col[b][j + 1] << (64 - lag)).collect();
            let valid: Vec<u64> = (0..words).map(|j| if m >= 64 * (j + 1) { u64::MAX } else if m > 64 * j { (1 << (m - 64 * j)) - 1 } else { 0 }).collect();
            for e in 0..bits {
                let same = (0..words).map(|j| (!(late[j] ^ col[e][j]) & valid[j]).count_ones()).sum::<u32>() as f64;
                ok((same - m as f64 / 2.0).abs() < lim, || format!("bit {} is bit {} of the output {} draws before in {} of {} outputs", b, e, lag, same, m))?;
            }
        }
    }
    // a half of a word is not made from the other half, or from a half of the word before
    let (half, most) = if bits == 32 { (16, 8) } else { (32, 3) };
    let k = (1u64 << half) - 1;
    let parts: Vec<[u64; 2]> = v.iter().map(|x| [x & k, x >> half & k]).collect();
    let rel: [(&str, &dyn Fn(usize) -> bool); 8] = [
        ("the halves are equal", &|i| parts[i][0] == parts[i][1]), ("the halves are complements", &|i| parts[i][0] ^ parts[i][1] == k),
        ("the low half is zero", &|i| parts[i][0] == 0), ("the high half is zero", &|i| parts[i][1] == 0), ("a half is all ones", &|i| parts[i][0] == k || parts[i][1] == k),
        ("the low half is the low half before", &|i| i > 0 && parts[i][0] == parts[i - 1][0]), ("the high half is the high half before", &|i| i > 0 && parts[i][1] == parts[i - 1][1]),
        ("a half is the other half before", &|i| i > 0 && (parts[i][0] == parts[i - 1][1] || parts[i][1] == parts[i - 1][0])),
    ];
    for (what, f) in rel.iter() { let t = (0..v.len()).filter(|i| f(*i)).count(); ok(t < most, || format!("{} in {} of {} outputs", what, t, n))?; }
    let mut s = v.clone();
    s.sort();
    s.dedup();
    ok(v.len() - s.len() <= if bits == 32 { 6 } else { 0 }, || format!("{} different values in {} draws", s.len(), v.len()))
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C33", rule: "multiplier above 1 and modulus above 2, or a published generator",
        laws: &[Law { name: "u32", weight: 3, run: c33_u32 }, Law { name: "u64", weight: 3, run: c33_u64 }, Law { name: "usize", weight: 2, run: c33_usize }, Law { name: "published", weight: 1, run: c33_published }],
        quick: 13_000_000, thorough: 156_000_000, assumptions: &["streams of up to 42 outputs (602 thorough, 10000 for the published check values)"] },
    Prop { id: "C34", rule: "state of two or more words of four or more bits, a published generator, or an invalid parameter",
        laws: &[Law { name: "u32", weight: 3, run: c34_u32 }, Law { name: "u64", weight: 3, run: c34_u64 }, Law { name: "usize", weight: 2, run: c34_usize }, Law { name: "invalid_u32", weight: 1, run: c34_bad_u32 }, Law { name: "invalid_u64", weight: 1, run: c34_bad_u64 }, Law { name: "invalid_usize", weight: 1, run: c34_bad_usize }, Law { name: "published", weight: 1, run: c34_published }, Law { name: "mask", weight: 1, run: c34_mask }],
        quick: 8_100_000, thorough: 97_200_000, assumptions: &["states of up to 41 words (701 thorough) for generated parameters, the published sizes otherwise"] },
    Prop { id: "C35", rule: "word size above 2, long lag above 2 and a seed that is not a multiple of the seeding modulus; or invalid parameters",
        laws: &[Law { name: "u32", weight: 3, run: c35_u32 }, Law { name: "u64", weight: 3, run: c35_u64 }, Law { name: "usize", weight: 2, run: c35_usize }, Law { name: "published", weight: 1, run: c35_published }],
        quick: 4_600_000, thorough: 55_200_000, assumptions: &["long lags up to 32 (702 thorough)"] },
    Prop { id: "C36", rule: "a history with a reset and draws, or a source with at least one failure",
        laws: &[Law { name: "u32", weight: 3, run: c36_u32 }, Law { name: "u64", weight: 3, run: c36_u64 }, Law { name: "usize", weight: 2, run: c36_usize }, Law { name: "iterator", weight: 3, run: c36_iter }],
        quick: 2_000_000, thorough: 54_000_000, assumptions: &["histories of up to 27 steps (152 thorough)"] },
    Prop { id: "C38", rule: "512 hardware outputs of one kind and word type",
        laws: &[Law { name: "words", weight: 1, run: c38_words }],
        quick: 40_000, thorough: 480_000, assumptions: &["the processor has rdrand and rdseed; statistical limits of 9 standard deviations, so a fair source fails with probability below 1e-11 per run"] },
];
