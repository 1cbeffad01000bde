//! Bridges between oracle values and the crate, and scripted random sources.
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, U, I};
use rmath::bigint::{BigInt, Nat};
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Seed, Source};

pub fn repr(a: &[u32]) -> Vec<u32> { if a.is_empty() { vec![0] } else { a.to_vec() } }
pub fn nat(a: &U) -> Nat { Nat::from(repr(a)) }
pub fn nan() -> Nat { Nat::default() }
pub fn words(n: &Nat) -> Vec<u32> { AsRef::<[u32]>::as_ref(n).to_vec() }
pub fn sh(a: &[u32]) -> String { format!("0x{}", ora::hex(&ora::trim(a.to_vec()))) }
pub fn shn(n: &Nat) -> String {
    let w = words(n);
    if w.is_empty() { return "NaN".into(); }
    let mut s = String::from("0x");
    for x in w.iter().rev() { s.push_str(&format!("{:08x}", x)); }
    s
}
/// got must be the canonical representation of want
pub fn eq_nat(what: &str, got: &Nat, want: &U) -> R {
    if words(got) == repr(want) { return Ok(()); }
    let g = words(got);
    let kind = if g.is_empty() { "NaN" } else if ora::trim(g.clone()) == *want { "right value with redundant leading zero words" } else { "wrong value" };
    Err(format!("{}: {}: got {} want {}", what, kind, shn(got), sh(want)))
}
pub fn big(a: &I) -> BigInt {
    let mut b = BigInt::from(nat(&a.m));
    if a.neg { b = -b; }
    b
}
pub fn shb(b: &BigInt) -> String { let n: &Nat = b.as_ref(); format!("{}{}", if b.is_negative() { "-" } else { "" }, shn(n)) }
pub fn eq_big(what: &str, got: &BigInt, want: &I) -> R {
    let n: &Nat = got.as_ref();
    if words(n) == repr(&want.m) && got.is_negative() == want.neg { return Ok(()); }
    let g = words(n);
    let kind = if g.is_empty() { "NaN" } else if want.is_zero() && ora::trim(g.clone()).is_empty() && got.is_negative() { "negative zero" } else { "wrong" };
    Err(format!("{}: {}: got {} want {}", what, kind, shb(got), want.hex()))
}
pub fn ok(cond: bool, f: impl FnOnce() -> String) -> R { if cond { Ok(()) } else { Err(f()) } }
pub fn must_panic<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match guard(f) { Ok(_) => Err(format!("{}: returned instead of panicking", what)), Err(_) => Ok(()) }
}
/// runs f; a panic becomes a failure naming the operation
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|m| format!("{}: panicked: {}", what, m))
}

/// Random source for the crate: uniform stream, optional bias, injected failures.
pub struct Src {
    pub r: Rng,
    pub mode: u8,
    /// a failure is injected with probability fail/16
    pub fail: u64,
    pub fixed: Vec<u32>,
    pub pos: usize,
    pub draws: u64,
    pub fails: u64,
    streak: u32,
}
impl Src {
    pub fn uniform(seed: u64) -> Src { Src { r: Rng::new(seed), mode: 0, fail: 0, fixed: vec![], pos: 0, draws: 0, fails: 0, streak: 0 } }
    pub fn gen_src(c: &mut Ctx) -> Src {
        let seed = c.u64();
        let mut s = Src::uniform(seed);
        s.mode = c.weighted(&[6, 2, 2, 1]) as u8;
        s.fail = if c.chance(1, 3) { c.range(1, 12) as u64 } else { 0 };
        if s.mode == 3 { let k = 1 + c.size(6); s.fixed = (0..k).map(|_| c.limb()).collect(); }
        s
    }
}
impl Source<u32> for Src {
    fn gen(&mut self) -> rmath::rand::Result<u32> {
        self.draws += 1;
        if self.fail > 0 && self.streak < 20 && self.r.upto(15) < self.fail {
            self.fails += 1;
            self.streak += 1;
            return Err(RandError::new(RandErrKind::NoNewRandNumberGen, "injected failure"));
        }
        self.streak = 0;
        Ok(match self.mode {
            // biased streams; each turns uniform after a while, so that rejection sampling can end
            1 if self.draws < 64 => if self.r.chance(1, 2) { 0 } else { u32::MAX },
            2 if self.draws < 64 => match self.r.upto(3) { 0 => 0, 1 => u32::MAX, 2 => 1, _ => self.r.next() as u32 },
            3 if self.pos < self.fixed.len() => { self.pos += 1; self.fixed[self.pos - 1] }
            _ => (self.r.next() >> 32) as u32,
        })
    }
    fn reset<Sd: Seed<u32>>(&mut self, sd: &Sd) -> rmath::rand::Result<()> { self.r = Rng::new(sd.seed()? as u64); Ok(()) }
}
impl IterSource<u32> for Src {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) }
}

pub fn gen_a(c: &mut Ctx, quick: usize, thorough: usize) -> U { let m = c.lim(quick, thorough); gen_u(c, m) }

/// every form of a binary Nat operation gives `want`
pub fn nat_forms(name: &str, a: &U, b: &U, want: &U, val: fn(Nat, Nat) -> Nat, asg: fn(&mut Nat, Nat)) -> R {
    let (x, y) = (nat(a), nat(b));
    let r = no_panic(name, || val(x.clone(), y.clone()))?;
    eq_nat(name, &r, want)?;
    eq_nat(&format!("left operand after {}", name), &x, a)?;
    eq_nat(&format!("right operand after {}", name), &y, b)?;
    let n2 = format!("{}=", name);
    let mut z = nat(a);
    no_panic(&n2, || asg(&mut z, y.clone()))?;
    eq_nat(&n2, &z, want)?;
    eq_nat(&format!("right operand after {}", n2), &y, b)?;
    // the handles own their operands
    let r = no_panic(name, || val(nat(a), nat(b)))?;
    eq_nat(&format!("{} (owned)", name), &r, want)?;
    Ok(())
}
/// a op a with both operands being handles to one value
pub fn nat_alias(name: &str, a: &U, want: &U, val: fn(Nat, Nat) -> Nat, asg: fn(&mut Nat, Nat)) -> R {
    let x = nat(a);
    let n1 = format!("{} with shared operands", name);
    let r = no_panic(&n1, || val(x.clone(), x.clone()))?;
    eq_nat(&n1, &r, want)?;
    eq_nat(&format!("operand after {}", n1), &x, a)?;
    let n2 = format!("{}= with shared operands", name);
    let mut z = nat(a);
    let y = z.clone();
    no_panic(&n2, || asg(&mut z, y))?;
    eq_nat(&n2, &z, want)
}
pub fn big_forms(name: &str, a: &I, b: &I, want: &I, val: fn(BigInt, BigInt) -> BigInt, asg: fn(&mut BigInt, BigInt)) -> R {
    let (x, y) = (big(a), big(b));
    let r = no_panic(name, || val(x.clone(), y.clone()))?;
    eq_big(name, &r, want)?;
    eq_big(&format!("left operand after {}", name), &x, a)?;
    eq_big(&format!("right operand after {}", name), &y, b)?;
    let n2 = format!("{}=", name);
    let mut z = big(a);
    no_panic(&n2, || asg(&mut z, y.clone()))?;
    eq_big(&n2, &z, want)?;
    eq_big(&format!("right operand after {}", n2), &y, b)
}
pub fn big_alias(name: &str, a: &I, want: &I, val: fn(BigInt, BigInt) -> BigInt, asg: fn(&mut BigInt, BigInt)) -> R {
    let x = big(a);
    let n1 = format!("{} with shared operands", name);
    let r = no_panic(&n1, || val(x.clone(), x.clone()))?;
    eq_big(&n1, &r, want)?;
    eq_big(&format!("operand after {}", n1), &x, a)?;
    let n2 = format!("{}= with shared operands", name);
    let mut z = big(a);
    let y = z.clone();
    no_panic(&n2, || asg(&mut z, y))?;
    eq_big(&n2, &z, want)
}
