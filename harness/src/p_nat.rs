//! C01-C08, C11-C13: natural numbers.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, U};
use rmath::bigint::{BigInt, Nat};
use std::cmp::Ordering;
use std::str::FromStr;

// ------------------------------------------------------------------ C01
fn c01_words(c: &mut Ctx) -> R {
    let a = gen_a(c, 80, 3000);
    let m = c.lim(80, 3000);
    let b = gen_related(c, &a, m);
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    if a.len() > 1 || b.len() > 1 { c.nontrivial(); }
    let s = ora::add(&a, &b);
    if s.len() > a.len().max(b.len()) { c.label("carry out of the top word"); }
    if ora::cmp(&a, &b) == Ordering::Less { c.label("a<b"); }
    nat_forms("a+b", &a, &b, &s, |x, y| x + y, |x, y| *x += y)?;
    nat_forms("b+a", &b, &a, &s, |x, y| x + y, |x, y| *x += y)?;
    let d = ora::absdiff(&a, &b);
    if d.len() + 1 < a.len().max(b.len()) { c.label("difference shrinks by several words"); }
    nat_forms("a-b", &a, &b, &d, |x, y| x - y, |x, y| *x -= y)?;
    let p = nat(&a);
    let q = nat(&b);
    let (r, ge) = no_panic("sub_with_sign", || p.sub_with_sign(q.clone()))?;
    eq_nat("sub_with_sign", &r, &d)?;
    let want_ge = ora::cmp(&a, &b) != Ordering::Less;
    ok(ge == want_ge, || format!("sub_with_sign says a>=b is {}, want {}", ge, want_ge))?;
    let mut z = nat(&a);
    let ge = no_panic("sub_assign_with_sign", || z.sub_assign_with_sign(q.clone()))?;
    eq_nat("sub_assign_with_sign", &z, &d)?;
    ok(ge == want_ge, || format!("sub_assign_with_sign says a>=b is {}, want {}", ge, want_ge))?;
    eq_nat("left operand after sub_with_sign", &p, &a)?;
    eq_nat("right operand after sub_with_sign", &q, &b)
}
fn c01_mul(c: &mut Ctx) -> R {
    let a = gen_a(c, 50, 500);
    let m = c.lim(50, 500);
    let b = gen_related(c, &a, m);
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    if a.len() > 1 && b.len() > 1 { c.nontrivial(); }
    if a.is_empty() || b.is_empty() { c.label("zero operand"); }
    let p = ora::mul(&a, &b);
    nat_forms("a*b", &a, &b, &p, |x, y| x * y, |x, y| *x *= y)?;
    nat_forms("b*a", &b, &a, &p, |x, y| x * y, |x, y| *x *= y)
}
/// Products whose columns add up to as much as possible: nearly all bits of both factors are set.
fn c01_mul_dense(c: &mut Ctx) -> R {
    let max = c.lim(150, 400);
    let dense = |c: &mut Ctx| -> U {
        let n = 1 + c.below(max);
        let mut v = vec![u32::MAX; n];
        for _ in 0..c.size(3) { let p = c.below(n); v[p] = c.limb(); }
        if c.chance(1, 4) { let k = c.below(n); for x in &mut v[..k] { *x = 0; } }
        ora::trim(v)
    };
    let (a, b) = (dense(c), dense(c));
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    if a.len() > 1 && b.len() > 1 { c.nontrivial(); }
    let p = ora::mul(&a, &b);
    nat_forms("a*b", &a, &b, &p, |x, y| x * y, |x, y| *x *= y)
}
fn c01_alias(c: &mut Ctx) -> R {
    let a = gen_a(c, 60, 600);
    c.note(|| format!("a={}", sh(&a)));
    if a.len() > 1 { c.nontrivial(); }
    nat_alias("a+a", &a, &ora::shl(&a, 1), |x, y| x + y, |x, y| *x += y)?;
    nat_alias("a-a", &a, &vec![], |x, y| x - y, |x, y| *x -= y)?;
    nat_alias("a*a", &a, &ora::mul(&a, &a), |x, y| x * y, |x, y| *x *= y)?;
    let mut z = nat(&a);
    let y = z.clone();
    let ge = no_panic("sub_assign_with_sign shared", || z.sub_assign_with_sign(y))?;
    eq_nat("sub_assign_with_sign shared", &z, &vec![])?;
    ok(ge, || "a >= a reported false".into())?;
    // a fresh handle with the same value as the target but its own storage
    nat_forms("a+copy", &a, &a, &ora::shl(&a, 1), |x, y| x + y, |x, y| *x += y)?;
    nat_forms("a-copy", &a, &a, &vec![], |x, y| x - y, |x, y| *x -= y)
}
fn u32_forms(name: &str, a: &U, w: u32, want: &U, val: fn(Nat, u32) -> Nat, asg: fn(&mut Nat, u32)) -> R {
    let x = nat(a);
    let r = no_panic(name, || val(x.clone(), w))?;
    eq_nat(name, &r, want)?;
    eq_nat(&format!("operand after {}", name), &x, a)?;
    let mut z = nat(a);
    no_panic(name, || asg(&mut z, w))?;
    eq_nat(&format!("{}=", name), &z, want)
}
fn c01_u32(c: &mut Ctx) -> R {
    let a = gen_a(c, 60, 2500);
    let w = if !a.is_empty() && c.chance(1, 4) { a[0].wrapping_add(c.upto(2) as u32).wrapping_sub(1) } else { c.limb() };
    let b = ora::u(w as u128);
    c.note(|| format!("a={} w={:#x}", sh(&a), w));
    if !a.is_empty() && w != 0 { c.nontrivial(); }
    if w == 0 { c.label("w=0"); }
    u32_forms("a+w", &a, w, &ora::add(&a, &b), |x, y| x + y, |x, y| *x += y)?;
    u32_forms("a-w", &a, w, &ora::absdiff(&a, &b), |x, y| x - y, |x, y| *x -= y)?;
    u32_forms("a*w", &a, w, &ora::mul(&a, &b), |x, y| x * y, |x, y| *x *= y)
}

// ------------------------------------------------------------------ C02
fn gen_divpair(c: &mut Ctx, big: usize) -> (U, U) {
    match c.weighted(&[6, 3, 3, 2]) {
        0 => { let a = gen_u(c, big); let d = gen_u_pos(c, big); (a, d) }
        1 => { let d = gen_u_pos(c, big); let a = gen_related(c, &d, big); (a, d) }
        2 => { // q*d + r with chosen q and extreme r
            let d = gen_u_pos(c, big / 2 + 1);
            let q = gen_u(c, big / 2 + 1);
            let r = match c.below(4) { 0 => vec![], 1 => ora::sub(&d, &ora::u(1)), 2 => { let x = gen_u(c, big / 2 + 1); ora::rem(&x, &d) } _ => ora::rem(&ora::u(1), &d) };
            (ora::add(&ora::mul(&q, &d), &r), d)
        }
        _ => { // same length operands
            let n = 1 + c.below(big);
            let a = gen_u_exact(c, n);
            let d = gen_u_exact(c, n);
            (a, if d.is_empty() { ora::u(1) } else { d })
        }
    }
}
fn c02_big(c: &mut Ctx) -> R {
    let m = c.lim(14, 110);
    let (a, d) = gen_divpair(c, m);
    c.note(|| format!("n={} d={}", sh(&a), sh(&d)));
    let (q, r) = ora::divrem(&a, &d);
    if !q.is_empty() && d.len() > 1 { c.nontrivial(); }
    if r.is_empty() { c.label("exact division"); }
    if ora::bits(&a) == ora::bits(&d) { c.label("same bit length"); }
    if q.is_empty() { c.label("n<d"); }
    nat_forms("n/d", &a, &d, &q, |x, y| x / y, |x, y| *x /= y)?;
    nat_forms("n%d", &a, &d, &r, |x, y| x % y, |x, y| *x %= y)
}
fn c02_u32(c: &mut Ctx) -> R {
    let a = gen_a(c, 60, 2500);
    let w = match c.limb() { 0 => 1, x => x };
    c.note(|| format!("n={} d={:#x}", sh(&a), w));
    if a.len() > 1 && w > 1 { c.nontrivial(); }
    let (q, r) = ora::divrem1(&a, w);
    u32_forms("n/w", &a, w, &q, |x, y| x / y, |x, y| *x /= y)?;
    u32_forms("n%w", &a, w, &ora::u(r as u128), |x, y| x % y, |x, y| *x %= y)
}
fn c02_alias_zero(c: &mut Ctx) -> R {
    let a = gen_a(c, 24, 300);
    c.note(|| format!("a={}", sh(&a)));
    c.nontrivial();
    if !a.is_empty() {
        nat_alias("a/a", &a, &ora::u(1), |x, y| x / y, |x, y| *x /= y)?;
        nat_alias("a%a", &a, &vec![], |x, y| x % y, |x, y| *x %= y)?;
        nat_forms("a/copy", &a, &a, &ora::u(1), |x, y| x / y, |x, y| *x /= y)?;
        nat_forms("a%copy", &a, &a, &vec![], |x, y| x % y, |x, y| *x %= y)?;
    } else { c.label("0/0"); must_panic("0/0 shared", || { let z = nat(&a); z.clone() / z })?; }
    must_panic("a/0", || nat(&a) / nat(&vec![]))?;
    must_panic("a%0", || nat(&a) % nat(&vec![]))?;
    must_panic("a/=0", || { let mut z = nat(&a); z /= nat(&vec![]); z })?;
    must_panic("a%=0", || { let mut z = nat(&a); z %= nat(&vec![]); z })?;
    must_panic("a/0u32", || nat(&a) / 0u32)?;
    must_panic("a%0u32", || nat(&a) % 0u32)?;
    must_panic("a/=0u32", || { let mut z = nat(&a); z /= 0u32; z })?;
    must_panic("a%=0u32", || { let mut z = nat(&a); z %= 0u32; z })
}

// ------------------------------------------------------------------ C03
/// lengths around algorithm switch points and around multiples of powers of two
fn gen_kara(c: &mut Ctx, max: usize) -> U {
    let n = c.raw(max as u64, |r, d| {
        let v = match r.upto(7) {
            0 => 30 + r.upto(30),
            1 => 60 + r.upto(60),
            2 => 250 + r.upto(30),
            3 => r.upto(20),
            4 => { let k = r.upto(5); (40u64 << k).wrapping_add(r.upto(4)).wrapping_sub(2) }
            5 => { let k = r.upto(3); (260u64 << k).wrapping_add(r.upto(4)).wrapping_sub(2) }
            6 => if d.is_empty() { r.upto(max as u64) } else { (d[r.upto(d.len() as u64 - 1) as usize] % (max as u64 + 1)).wrapping_add(r.upto(2)).wrapping_sub(1) },
            _ => r.upto(max as u64),
        };
        if v > max as u64 { r.upto(max as u64) } else { v }
    }) as usize;
    gen_u_exact(c, n)
}
fn c03_kara(c: &mut Ctx) -> R {
    let m = c.lim(340, 1400);
    let a = gen_kara(c, m);
    let b = match c.weighted(&[5, 2, 1]) { 0 => gen_kara(c, m), 1 => gen_u_exact(c, a.len()), _ => gen_related(c, &a, m) };
    c.note(|| format!("lengths {} and {} words; a={} b={}", a.len(), b.len(), sh(&a), sh(&b)));
    let p = ora::mul(&a, &b);
    if a.len().min(b.len()) >= 40 { c.nontrivial(); c.label("both operands at least 40 words"); }
    if a.len() > 2 * b.len() && b.len() >= 40 { c.label("unbalanced"); }
    let (x, y) = (nat(&a), nat(&b));
    let r = no_panic("mul_karatsuba", || x.mul_karatsuba(&y))?;
    eq_nat("a.mul_karatsuba(b)", &r, &p)?;
    let r = no_panic("mul_karatsuba", || y.mul_karatsuba(&x))?;
    eq_nat("b.mul_karatsuba(a)", &r, &p)?;
    let r = no_panic("a*b", || x.clone() * y.clone())?;
    eq_nat("a*b", &r, &p)?;
    eq_nat("left operand", &x, &a)?;
    eq_nat("right operand", &y, &b)
}
fn c03_sqr(c: &mut Ctx) -> R {
    let m = c.lim(700, 2200);
    let a = gen_kara(c, m);
    c.note(|| format!("{} words; a={}", a.len(), sh(&a)));
    if a.len() >= 20 { c.nontrivial(); }
    if a.len() >= 260 { c.label("at least 260 words"); }
    let p = ora::mul(&a, &a);
    let x = nat(&a);
    let r = no_panic("sqr", || x.sqr())?;
    eq_nat("a.sqr()", &r, &p)?;
    eq_nat("operand after sqr", &x, &a)?;
    let r = no_panic("mul_karatsuba(a,a)", || x.mul_karatsuba(&x))?;
    eq_nat("a.mul_karatsuba(a)", &r, &p)?;
    let b = BigInt::from(x.clone());
    let r = no_panic("BigInt sqr", || (-b).sqr())?;
    eq_big("(-a).sqr()", &r, &ora::I::new(false, p))
}
fn c03_pow(c: &mut Ctx) -> R {
    let a = match c.weighted(&[10, 1, 3]) { 0 => gen_u(c, 6), 1 => { let k = c.lim(40, 90); gen_u(c, k) } _ => ora::u(c.upto(1) as u128) };
    let cap = c.lim(6000, 30000);
    let bits = ora::bits(&a).max(1);
    // the exponent is itself a Nat: with base 0 or 1 it may be of any length
    let e = if a.len() <= 1 && a.get(0).map_or(true, |&x| x <= 1) { gen_u(c, 40) } else { ora::u(c.size(((cap / bits) as u64).max(3)) as u128) };
    c.note(|| format!("a={} e={}", sh(&a), sh(&e)));
    if !e.is_empty() && e != ora::u(1) && a.len() > 0 { c.nontrivial(); }
    if e.is_empty() { c.label("e=0"); }
    if e.len() > 2 { c.label("exponent over 64 bits"); }
    if a.len() > 8 { c.label("base over 8 words"); }
    let want = if a.is_empty() { if e.is_empty() { ora::u(1) } else { vec![] } } else if a == ora::u(1) || e.is_empty() { ora::u(1) } else { ora::pow(&a, e[0] as u64) };
    let x = nat(&a);
    let y = nat(&e);
    let r = no_panic("pow", || x.pow(y.clone()))?;
    eq_nat("a.pow(e)", &r, &want)?;
    eq_nat("base after pow", &x, &a)?;
    eq_nat("exponent after pow", &y, &e)?;
    // exponent sharing the base's storage
    let s = ora::u(c.upto(40) as u128);
    let y = nat(&s);
    let r = no_panic("s.pow(s)", || y.pow(y.clone()))?;
    let k = s.get(0).copied().unwrap_or(0) as u64;
    eq_nat("s.pow(s)", &r, &if k == 0 { ora::u(1) } else { ora::pow(&s, k) })
}

// ------------------------------------------------------------------ C04
fn c04_check(c: &mut Ctx, a: &U, e: &U, n: &U, slow: bool) -> R {
    c.note(|| format!("a={} e={} n={}", sh(a), sh(e), sh(n)));
    let want = ora::modpow(a, e, n);
    let (x, y, m) = (nat(a), nat(e), nat(n));
    let r = no_panic("exp", || x.exp(&y, &m))?;
    eq_nat("a.exp(e,n)", &r, &want)?;
    if slow {
        let r = no_panic("pow_mod", || x.pow_mod(y.clone(), m.clone()))?;
        eq_nat("a.pow_mod(e,n)", &r, &want)?;
    }
    eq_nat("a afterwards", &x, a)?;
    eq_nat("e afterwards", &y, e)?;
    eq_nat("n afterwards", &m, n)
}
fn c04_mod(c: &mut Ctx) -> R {
    let (ml, el) = c.lim((4, 3), (12, 8));
    let mut n = gen_u_pos(c, ml);
    if c.chance(1, 3) { n[0] |= 1; } else if c.chance(1, 3) { let k = c.below(40); n = ora::shl(&n, k); }
    let a = gen_related(c, &n, ml + 2);
    let e = match c.weighted(&[5, 2, 2]) { 0 => gen_u(c, el), 1 => { let n1 = ora::sub(&n, &ora::u(1)); n1 } _ => { let k = 1 + c.below(el); let t = 1 + c.below(3) as u32; let mut v = vec![0u32; k]; v[k - 1] = t; if c.chance(1, 2) { v[0] |= c.limb(); } ora::trim(v) } };
    if n.len() > 1 || e.len() > 1 { c.nontrivial(); }
    if n == ora::u(1) { c.label("n=1"); }
    if n[0] & 1 == 0 { c.label("even n"); } else { c.label("odd n"); }
    if e.len() > 1 { c.label("multi-word exponent"); }
    if ora::cmp(&a, &n) == Ordering::Less { c.label("a<n"); } else { c.label("a>=n"); }
    c04_check(c, &a, &e, &n, true)
}
fn c04_large(c: &mut Ctx) -> R {
    let ml = c.lim(16, 90);
    let k = 2 + c.below(ml - 1);
    let mut n = gen_u_exact(c, k);
    if c.chance(3, 4) { n[0] |= 1; }
    let a = gen_related(c, &n, ml + 2);
    let e = if c.chance(1, 2) { let k = 2 + c.below(2); gen_u_exact(c, k) } else { gen_u(c, 4) };
    c.nontrivial();
    if k > 16 { c.label("modulus over 16 words"); }
    c04_check(c, &a, &e, &n, false)
}
/// pow_mod with long moduli and bases: the exponent stays short, it costs one long division per bit
fn c04_long(c: &mut Ctx) -> R {
    let ml = c.lim(48, 130);
    let k = 5 + c.below(ml - 4);
    let mut n = gen_u_exact(c, k);
    match c.below(4) { 0 => {} 1 => { let z = 1 + c.below(k - 1); for w in n[..z].iter_mut() { *w = 0; } } _ => n[0] |= 1 }
    let a = if c.chance(1, 3) { let k = 1 + c.below(2 * ml); gen_u_exact(c, k) } else { gen_related(c, &n, ml + 2) };
    let e = if c.chance(1, 8) { gen_u(c, 2) } else { ora::u(c.size(70) as u128) };
    c.nontrivial();
    if k > 32 { c.label("modulus over 32 words"); }
    c04_check(c, &a, &e, &n, true)
}
fn c04_small(c: &mut Ctx) -> R {
    // full-width small domain: tiny numbers hit every degenerate combination
    let a = ora::u(c.upto(40) as u128);
    let e = if c.chance(1, 4) { let k = 1 + c.below(3); gen_u_exact(c, k) } else { ora::u(c.upto(40) as u128) };
    let n = ora::u(1 + c.upto(40) as u128);
    c.nontrivial();
    if a.is_empty() { c.label("a=0"); }
    if e.is_empty() { c.label("e=0"); }
    c04_check(c, &a, &e, &n, true)
}
/// moduli whose phi is known, exponents around its multiples, bases that share factors with the modulus
pub fn gen_euler(c: &mut Ctx) -> (U, U, U) {
    let prime = |c: &mut Ctx| -> u64 { let b = 2 + c.below(30); let mut n = c.upto((1u64 << b) - 1) | 1; if n < 3 { n = 3; } while !ora::is_prime64(n) { n += 2; } if c.chance(1, 12) { 2 } else { n } };
    let (p, q) = (prime(c), prime(c));
    let (n, phi) = match c.below(4) {
        0 | 1 => (ora::u(p as u128), ora::u(p as u128 - 1)),
        2 => { let k = 1 + c.below(4) as u64; let pk = ora::pow(&ora::u(p as u128), k); (ora::mul(&pk, &ora::u(p as u128)), ora::mul(&pk, &ora::u(p as u128 - 1))) }
        _ => if p == q { (ora::u(p as u128), ora::u(p as u128 - 1)) } else { (ora::u(p as u128 * q as u128), ora::u((p as u128 - 1) * (q as u128 - 1))) },
    };
    let mut e = ora::mul(&phi, &match c.below(3) { 0 => ora::u(1), 1 => ora::u(c.size(9) as u128), _ => gen_u(c, 3) });
    match c.below(6) { 0 => e = ora::add(&e, &ora::u(1)), 1 if !e.is_empty() => e = ora::sub(&e, &ora::u(1)), 2 => e = ora::add(&e, &ora::u(c.size(20) as u128)), _ => {} }
    if c.chance(1, 8) { e = n.clone(); }
    let k = gen_u(c, 2);
    let a = match c.below(5) { 0 => ora::mul(&n, &k), 1 => ora::mul(&ora::u(p as u128), &k), 2 => ora::add(&ora::mul(&n, &k), &ora::u(1)), 3 => ora::sub(&ora::add(&ora::mul(&n, &k), &n), &ora::u(1)), _ => gen_u(c, 3) };
    (a, e, n)
}
fn c04_euler(c: &mut Ctx) -> R {
    let (a, e, n) = gen_euler(c);
    c.nontrivial();
    if ora::rem(&a, &n).is_empty() { c.label("base a multiple of the modulus"); }
    c04_check(c, &a, &e, &n, true)
}
fn c04_nomod(c: &mut Ctx) -> R {
    // n = 0: no reduction
    let (a, e) = if c.chance(1, 2) {
        (ora::u(c.upto(1) as u128), gen_u(c, 3))
    } else {
        let a = gen_u(c, 3);
        let e = c.size((2500 / ora::bits(&a).max(1)) as u64);
        (a, ora::u(e as u128))
    };
    c.note(|| format!("a={} e={} n=0", sh(&a), sh(&e)));
    let want = if e.is_empty() { ora::u(1) } else if a.is_empty() || a == ora::u(1) { a.clone() } else { ora::pow(&a, e[0] as u64) };
    c.nontrivial();
    let (x, y, z) = (nat(&a), nat(&e), nat(&vec![]));
    let r = no_panic("exp n=0", || x.exp(&y, &z))?;
    eq_nat("a.exp(e,0)", &r, &want)?;
    let r = no_panic("pow_mod n=0", || x.pow_mod(y.clone(), z.clone()))?;
    eq_nat("a.pow_mod(e,0)", &r, &want)
}
fn c04_alias(c: &mut Ctx) -> R {
    let a = gen_u_pos(c, 2);
    let b = gen_u_pos(c, 2);
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    c.nontrivial();
    let (x, y) = (nat(&a), nat(&b));
    eq_nat("x.exp(x,y)", &no_panic("x.exp(x,y)", || x.exp(&x, &y))?, &ora::modpow(&a, &a, &b))?;
    eq_nat("x.exp(y,x)", &no_panic("x.exp(y,x)", || x.exp(&y, &x))?, &ora::modpow(&a, &b, &a))?;
    eq_nat("x.exp(y,y)", &no_panic("x.exp(y,y)", || x.exp(&y, &y))?, &ora::modpow(&a, &b, &b))?;
    eq_nat("x.exp(x,x)", &no_panic("x.exp(x,x)", || x.exp(&x, &x))?, &ora::modpow(&a, &a, &a))?;
    eq_nat("x.pow_mod(x,y)", &no_panic("x.pow_mod(x,y)", || x.pow_mod(x.clone(), y.clone()))?, &ora::modpow(&a, &a, &b))?;
    eq_nat("x.pow_mod(y,x)", &no_panic("x.pow_mod(y,x)", || x.pow_mod(y.clone(), x.clone()))?, &ora::modpow(&a, &b, &a))?;
    eq_nat("x.pow_mod(y,y)", &no_panic("x.pow_mod(y,y)", || x.pow_mod(y.clone(), y.clone()))?, &ora::modpow(&a, &b, &b))?;
    eq_nat("x afterwards", &x, &a)?;
    eq_nat("y afterwards", &y, &b)
}

// ------------------------------------------------------------------ C05
fn c05_bits(c: &mut Ctx) -> R {
    let a = gen_a(c, 60, 2500);
    let m = c.lim(60, 2500);
    let b = gen_related(c, &a, m);
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    if a.len() > 1 || b.len() > 1 { c.nontrivial(); }
    if a.len() < b.len() { c.label("a shorter"); } else if a.len() > b.len() { c.label("a longer"); }
    nat_forms("a&b", &a, &b, &ora::bitop(&a, &b, |x, y| x & y), |x, y| x & y, |x, y| *x &= y)?;
    nat_forms("a|b", &a, &b, &ora::bitop(&a, &b, |x, y| x | y), |x, y| x | y, |x, y| *x |= y)?;
    nat_forms("a^b", &a, &b, &ora::bitop(&a, &b, |x, y| x ^ y), |x, y| x ^ y, |x, y| *x ^= y)?;
    nat_forms("a and_not b", &a, &b, &ora::bitop(&a, &b, |x, y| x & !y), |x, y| x.and_not(y), |x, y| x.and_not_assign(y))?;
    nat_alias("a&a", &a, &a, |x, y| x & y, |x, y| *x &= y)?;
    nat_alias("a|a", &a, &a, |x, y| x | y, |x, y| *x |= y)?;
    nat_alias("a^a", &a, &vec![], |x, y| x ^ y, |x, y| *x ^= y)?;
    nat_alias("a and_not a", &a, &vec![], |x, y| x.and_not(y), |x, y| x.and_not_assign(y))?;
    // complement below the bit length (the number 0 has one bit)
    let bl = ora::bits(&a).max(1);
    let mask = ora::sub(&ora::shl(&ora::u(1), bl), &ora::u(1));
    let x = nat(&a);
    eq_nat("!a", &no_panic("!a", || !x.clone())?, &ora::bitop(&a, &mask, |p, q| p ^ q))?;
    eq_nat("a after !a", &x, &a)
}
fn c05_shift(c: &mut Ctx) -> R {
    let a = gen_a(c, 40, 1500);
    let k = gen_shift(c, ora::bits(&a));
    c.note(|| format!("a={} k={}", sh(&a), k));
    if a.len() > 1 && k > 0 { c.nontrivial(); }
    if k % 32 == 0 && k > 0 { c.label("whole words"); }
    if k >= ora::bits(&a) { c.label("shifts everything out"); }
    let l = ora::shl(&a, k);
    let r = ora::shr(&a, k);
    let x = nat(&a);
    eq_nat("a<<k", &no_panic("a<<k", || x.clone() << k)?, &l)?;
    eq_nat("a>>k", &no_panic("a>>k", || x.clone() >> k)?, &r)?;
    eq_nat("a after shifts", &x, &a)?;
    let mut z = nat(&a);
    no_panic("a<<=k", || z <<= k)?;
    eq_nat("a<<=k", &z, &l)?;
    no_panic("(a<<k)>>=k", || z >>= k)?;
    eq_nat("(a<<k)>>=k", &z, &a)?;
    no_panic("a>>=k", || z >>= k)?;
    eq_nat("a>>=k", &z, &r)
}
fn c05_query(c: &mut Ctx) -> R {
    let a = gen_a(c, 40, 1500);
    c.note(|| format!("a={}", sh(&a)));
    if a.len() > 1 { c.nontrivial(); }
    let x = nat(&a);
    let bl = ora::bits(&a).max(1);
    let g = no_panic("bits_len", || x.bits_len())?;
    ok(g == bl, || format!("bits_len: got {} want {}", g, bl))?;
    if !a.is_empty() {
        let g = no_panic("trailling_zeros", || x.trailling_zeros())?;
        ok(g == ora::tz(&a), || format!("trailing zeros: got {} want {}", g, ora::tz(&a)))?;
        if ora::tz(&a) >= 32 { c.label("trailing zero words"); }
    }
    for _ in 0..6 {
        let i = gen_shift(c, bl);
        let g = no_panic("is_set_bit", || x.is_set_bit(i))?;
        let w = if i >= bl { None } else { Some(ora::bit(&a, i)) };
        ok(g == w, || format!("bit {}: got {:?} want {:?}", i, g, w))?;
    }
    eq_nat("a after queries", &x, &a)
}

// ------------------------------------------------------------------ C06
fn group(s: String, upper: bool) -> String { if upper { s.to_uppercase() } else { s } }
fn c06_format(c: &mut Ctx) -> R {
    let dec_too = c.chance(1, 4);
    let a = if dec_too { let m = c.lim(14, 70); gen_u(c, m) } else { gen_a(c, 40, 300) };
    c.note(|| format!("a={}", sh(&a)));
    if a.len() > 1 { c.nontrivial(); }
    if dec_too { c.label("with decimal"); }
    let x = nat(&a);
    let cases: Vec<(&str, String, String)> = vec![
        ("{:b}", no_panic("{:b}", || format!("{:b}", x))?, ora::to_radix(&a, 2)),
        ("{:#b}", no_panic("{:#b}", || format!("{:#b}", x))?, format!("0b{}", ora::to_radix(&a, 2))),
        ("{:o}", no_panic("{:o}", || format!("{:o}", x))?, ora::to_radix(&a, 8)),
        ("{:#o}", no_panic("{:#o}", || format!("{:#o}", x))?, format!("0o{}", ora::to_radix(&a, 8))),
        ("{:x}", no_panic("{:x}", || format!("{:x}", x))?, ora::hex(&a)),
        ("{:#x}", no_panic("{:#x}", || format!("{:#x}", x))?, format!("0x{}", ora::hex(&a))),
        ("{:X}", no_panic("{:X}", || format!("{:X}", x))?, group(ora::hex(&a), true)),
        ("{:#X}", no_panic("{:#X}", || format!("{:#X}", x))?, format!("0x{}", group(ora::hex(&a), true))),
        ("{:?}", no_panic("{:?}", || format!("{:?}", x))?, ora::hex(&a)),
        ("{:#?}", no_panic("{:#?}", || format!("{:#?}", x))?, format!("0x{}", ora::hex(&a))),
    ];
    for (f, g, w) in &cases { ok(g == w, || format!("{}: got {} want {}", f, g, w))?; }
    if dec_too {
        let g = no_panic("{}", || format!("{}", x))?;
        ok(g == ora::dec(&a), || format!("{{}}: got {} want {}", g, ora::dec(&a)))?;
    }
    for i in [1usize, 3, 5, 7] {
        let r = no_panic("parse of formatted text", || Nat::from_str(&cases[i].1))?;
        match r { Ok(v) => eq_nat(&format!("parse of {}", cases[i].0), &v, &a)?, Err(e) => return Err(format!("parse of {} output failed: {}", cases[i].0, e)) }
    }
    eq_nat("a after formatting", &x, &a)
}
const BASES: [(u32, &str); 6] = [(2, "0b"), (2, "0B"), (8, "0o"), (16, "0x"), (16, "0X"), (10, "")];
/// digits of `a` in a base with optional redundant zeros; returns (prefix, digits, radix)
fn gen_text(c: &mut Ctx, a: &U) -> (String, String, u32) {
    let (radix, prefix) = BASES[c.below(BASES.len())];
    let mut d = ora::to_radix(a, radix);
    if radix == 16 { match c.below(3) { 0 => {} 1 => d = d.to_uppercase(), _ => { let mut o = String::new(); for ch in d.chars() { o.push(if c.chance(1, 2) { ch.to_ascii_uppercase() } else { ch }); } d = o; } } }
    if radix != 10 && c.chance(1, 3) { let k = 1 + c.size(40) as usize; d = format!("{}{}", "0".repeat(k), d); }
    (prefix.to_string(), d, radix)
}
fn c06_parse(c: &mut Ctx) -> R {
    let a = gen_a(c, 12, 200);
    let (p, d, radix) = gen_text(c, &a);
    let lead = [ "", "+", " ", "  +", "+ ", "++", "\t", "\n "][c.weighted(&[6, 2, 1, 1, 1, 1, 1, 1])];
    let trail = ["", " ", "\n", " \t "][c.weighted(&[5, 1, 1, 1])];
    let t = format!("{}{}{}{}", lead, p, d, trail);
    c.note(|| format!("text={:?}", t));
    if a.len() > 1 { c.nontrivial(); }
    match radix { 2 => c.label("binary"), 8 => c.label("octal"), 10 => c.label("decimal"), _ => c.label("hex") }
    match no_panic("parse", || Nat::from_str(&t))? {
        Ok(v) => eq_nat("parsed number", &v, &a),
        Err(e) => Err(format!("{:?} rejected: {}", t, e)),
    }
}
const JUNK: [char; 26] = ['_', '.', '-', '+', ' ', 'g', 'z', 'x', 'b', 'o', ',', '/', ':', '@', 'G', '`', '~', '\u{0}', '\u{7f}', '²', '９', '中', 'é', '😀', '\n', 'e'];
fn c06_malformed(c: &mut Ctx) -> R {
    c.nontrivial();
    match c.weighted(&[6, 2, 1, 2]) {
        0 => { // a foreign character strictly inside the digits
            let a = gen_u_pos(c, 10);
            let (p, mut d, radix) = gen_text(c, &a);
            if d.len() < 2 { d = if radix == 10 { format!("1{}", d) } else { format!("0{}", d) }; }
            let pos = 1 + c.below(d.len() - 1);
            let mut ch = if c.chance(1, 3) { (b'2' + c.below(8) as u8) as char } else if c.chance(1, 4) { char::from_u32(c.upto(0x2fff) as u32 + 1).unwrap_or('!') } else { JUNK[c.below(JUNK.len())] };
            if ch.to_digit(radix).is_some() { ch = '!'; }
            d.insert(pos, ch);
            let t = format!("{}{}", p, d);
            c.note(|| format!("text={:?}", t));
            c.label("foreign character inside the digits");
            ok(no_panic("parse", || Nat::from_str(&t))?.is_err(), || format!("{:?} accepted", t))
        }
        1 => { // at the ends (characters that are neither space nor plus)
            let a = gen_u_pos(c, 6);
            let (p, d, radix) = gen_text(c, &a);
            let mut ch = JUNK[c.below(JUNK.len())];
            if ch.is_whitespace() || ch == '+' || ch.to_digit(radix).is_some() { ch = '!'; }
            let t = if c.chance(1, 2) { format!("{}{}{}", p, d, ch) } else { format!("{}{}{}", ch, p, d) };
            c.note(|| format!("text={:?}", t));
            c.label("foreign character at an end");
            ok(no_panic("parse", || Nat::from_str(&t))?.is_err(), || format!("{:?} accepted", t))
        }
        2 => { // no digits at all
            let t = ["", "+", " ", "++", " + ", "0x", "0b", "0o", "0X", "+0x", "0B", "0x ", "-", "-0"][c.below(14)];
            c.note(|| format!("text={:?}", t));
            c.label("no digits");
            ok(no_panic("parse", || Nat::from_str(t))?.is_err(), || format!("{:?} accepted", t))
        }
        _ => { // arbitrary text: never a panic; a foreign character anywhere means an error
            let n = c.size(14);
            let mut t = String::new();
            for _ in 0..n {
                t.push(match c.weighted(&[5, 3, 2, 1]) { 0 => (b'0' + c.below(10) as u8) as char, 1 => ['0', 'x', 'b', 'o', '+', 'B', 'X', 'f'][c.below(8)], 2 => JUNK[c.below(JUNK.len())], _ => weird_char(c) });
            }
            c.note(|| format!("text={:?}", t));
            c.label("arbitrary text");
            let bad = t.trim().chars().any(|ch| !(ch.is_ascii_hexdigit() || "xXbBoO+".contains(ch) || ch.is_whitespace()));
            let r = no_panic("parse", || Nat::from_str(&t))?;
            ok(!(bad && r.is_ok()), || format!("{:?} accepted", t))
        }
    }
}

fn c06_strange(c: &mut Ctx) -> R {
    let a = gen_a(c, 4, 60);
    let (p, d, _) = gen_text(c, &a);
    let good = format!("{}{}{}", ["", "+", " "][c.weighted(&[4, 2, 1])], p, d);
    let t = strange_text(c, &good);
    c.note(|| format!("text={:?}", t));
    c.nontrivial();
    ok(no_panic("parse", || Nat::from_str(&t))?.is_err(), || format!("{:?} accepted", t))
}

// ------------------------------------------------------------------ C07
fn bytes_le(a: &U) -> Vec<u8> {
    let mut v: Vec<u8> = a.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect();
    while v.len() > 1 && *v.last().unwrap() == 0 { v.pop(); }
    if v.is_empty() { v.push(0); }
    v
}
fn c07_bytes(c: &mut Ctx) -> R {
    let a = gen_a(c, 40, 2500);
    c.note(|| format!("a={}", sh(&a)));
    if a.len() > 1 { c.nontrivial(); }
    let x = nat(&a);
    let le = bytes_le(&a);
    let mut be = le.clone();
    be.reverse();
    if le.len() % 4 != 0 { c.label("byte count not a multiple of 4"); }
    let g = no_panic("to_le_bytes", || x.to_le_bytes())?;
    ok(g == le, || format!("to_le_bytes: got {:x?} want {:x?}", g, le))?;
    let g = no_panic("to_be_bytes", || x.to_be_bytes())?;
    ok(g == be, || format!("to_be_bytes: got {:x?} want {:x?}", g, be))?;
    let mut buf = vec![7u8; c.size(9) as usize];
    no_panic("copy_to_le", || x.copy_to_le(&mut buf))?;
    ok(buf == le, || format!("copy_to_le: got {:x?} want {:x?}", buf, le))?;
    no_panic("copy_to_be", || x.copy_to_be(&mut buf))?;
    ok(buf == be, || format!("copy_to_be: got {:x?} want {:x?}", buf, be))?;
    let z = c.size(9) as usize;
    if z > 0 { c.label("redundant zero bytes"); }
    let mut le2 = le.clone();
    le2.extend(vec![0; z]);
    let mut be2 = vec![0; z];
    be2.extend(&be);
    eq_nat("from_le_bytes", &no_panic("from_le_bytes", || Nat::from_le_bytes(&le2))?, &a)?;
    eq_nat("from_be_bytes", &no_panic("from_be_bytes", || Nat::from_be_bytes(&be2))?, &a)?;
    eq_nat("From<&[u8]>", &no_panic("From<&[u8]>", || Nat::from(&le2[..]))?, &a)?;
    eq_nat("From<&Vec<u8>>", &no_panic("From<&Vec<u8>>", || Nat::from(&le2))?, &a)?;
    eq_nat("From<Vec<u8>>", &no_panic("From<Vec<u8>>", || Nat::from(le2.clone()))?, &a)?;
    eq_nat("a after export", &x, &a)
}
fn c07_words(c: &mut Ctx) -> R {
    let n = 1 + gen_len(c, 40);
    let w = gen_words(c, n);
    let z = c.size(5) as usize;
    let mut v = w.clone();
    v.extend(vec![0; z]);
    let a = ora::trim(w);
    c.note(|| format!("words={:x?}", v));
    if v.len() > a.len() { c.nontrivial(); c.label("redundant zero words"); }
    eq_nat("From<Vec<u32>>", &no_panic("From<Vec<u32>>", || Nat::from(v.clone()))?, &a)?;
    eq_nat("From<&Vec<u32>>", &no_panic("From<&Vec<u32>>", || Nat::from(&v))?, &a)?;
    let x = no_panic("From<&[u32]>", || Nat::from(&v[..]))?;
    eq_nat("From<&[u32]>", &x, &a)?;
    eq_nat("deep_clone", &x.deep_clone(), &a)?;
    ok(words(&x) == repr(&a), || "as_ref words".into())
}
fn c07_prims(c: &mut Ctx) -> R {
    let (h, l) = (c.word64(), c.word64());
    let x = ((h as u128) << 64) | l as u128;
    c.note(|| format!("x={:#x}", x));
    c.nontrivial();
    eq_nat("From<u128>", &no_panic("u128", || Nat::from(x))?, &ora::u(x))?;
    eq_nat("From<u64>", &no_panic("u64", || Nat::from(l))?, &ora::u(l as u128))?;
    eq_nat("From<usize>", &no_panic("usize", || Nat::from(l as usize))?, &ora::u(l as u128))?;
    eq_nat("From<u32>", &no_panic("u32", || Nat::from(l as u32))?, &ora::u(l as u32 as u128))?;
    eq_nat("From<u16>", &no_panic("u16", || Nat::from(l as u16))?, &ora::u(l as u16 as u128))?;
    eq_nat("From<u8>", &no_panic("u8", || Nat::from(l as u8))?, &ora::u(l as u8 as u128))
}

// ------------------------------------------------------------------ C08
/// a random computation; the oracle value follows along
fn nat_program(c: &mut Ctx, steps: u64) -> Result<Vec<(Nat, U)>, String> {
    let mut st: Vec<(Nat, U)> = Vec::new();
    for _ in 0..2 { let a = gen_u(c, 6); st.push((nat(&a), a)); }
    for _ in 0..steps {
        let i = c.below(st.len());
        let j = c.below(st.len());
        let (x, a) = (st[i].0.deep_clone(), st[i].1.clone());
        let (y, b) = (st[j].0.deep_clone(), st[j].1.clone());
        let w = c.limb();
        let wu = ora::u(w as u128);
        let k = gen_shift(c, ora::bits(&a)) % 700;
        let op = c.below(22);
        let small = a.len() + b.len() <= 60;
        c.note(|| format!("#{} = op{} of #{}={} #{}={} w={:#x} k={}", st.len(), op, i, sh(&a), j, sh(&b), w, k));
        let r: (Nat, U) = no_panic("program step", || match op {
            0 => (x + y, ora::add(&a, &b)),
            1 => (x - y, ora::absdiff(&a, &b)),
            2 if small => (x * y, ora::mul(&a, &b)),
            3 if small && !b.is_empty() && a.len() <= 20 => (x / y, ora::div(&a, &b)),
            4 if small && !b.is_empty() && a.len() <= 20 => (x % y, ora::rem(&a, &b)),
            5 => (x & y, ora::bitop(&a, &b, |p, q| p & q)),
            6 => (x | y, ora::bitop(&a, &b, |p, q| p | q)),
            7 => (x ^ y, ora::bitop(&a, &b, |p, q| p ^ q)),
            8 => (x.and_not(y), ora::bitop(&a, &b, |p, q| p & !q)),
            9 => (x << k, ora::shl(&a, k)),
            10 => (x >> k, ora::shr(&a, k)),
            11 => (x + w, ora::add(&a, &wu)),
            12 => (x - w, ora::absdiff(&a, &wu)),
            13 if small => (x * w, ora::mul(&a, &wu)),
            14 if w != 0 => (x / w, ora::div(&a, &wu)),
            15 if w != 0 => (x % w, ora::rem(&a, &wu)),
            16 if a.len() < 30 => (x.sqr(), ora::mul(&a, &a)),
            17 if small => (x.mul_karatsuba(&y), ora::mul(&a, &b)),
            18 if a.len() <= 12 => (x.sqrt(), ora::isqrt(&a)),
            19 if !b.is_empty() && a.len() <= 3 && b.len() <= 4 => { let e = ora::u(w as u128); (x.exp(&nat(&e), &y), ora::modpow(&a, &e, &b)) }
            20 => { let bl = ora::bits(&a).max(1); let m = ora::sub(&ora::shl(&ora::u(1), bl), &ora::u(1)); (!x, ora::bitop(&a, &m, |p, q| p ^ q)) }
            21 => { let (d, _) = x.sub_with_sign(y); (d, ora::absdiff(&a, &b)) }
            _ => (x, a.clone()),
        })?;
        eq_nat("program step", &r.0, &r.1)?;
        st.push(r);
    }
    Ok(st)
}
/// what ==, !=, <, <=, >, >= must say
fn six(w: Ordering) -> [bool; 6] { [w == Ordering::Equal, w != Ordering::Equal, w == Ordering::Less, w != Ordering::Greater, w == Ordering::Greater, w != Ordering::Less] }
fn prim_cmp(x: &Nat, a: &U, p: u128) -> R {
    macro_rules! one { ($t:ty) => {{
        let v = p as $t;
        let w = ora::cmp(a, &ora::u(v as u128));
        let g = x.partial_cmp(&v);
        ok(g == Some(w), || format!("partial_cmp with {}{}: got {:?} want {:?}", v, stringify!($t), g, w))?;
        let g = [*x == v, *x != v, *x < v, *x <= v, *x > v, *x >= v];
        ok(g == six(w), || format!("==, !=, <, <=, >, >= with {}{}: {:?}", v, stringify!($t), g))?;
    }}}
    one!(u8); one!(u16); one!(u32); one!(u64); one!(u128); one!(usize);
    Ok(())
}
fn c08_history(c: &mut Ctx) -> R {
    let lm = c.lim(12, 100);
    let steps = 2 + c.size(lm);
    let st = nat_program(c, steps)?;
    c.nontrivial();
    for _ in 0..6 {
        let i = c.below(st.len());
        let j = c.below(st.len());
        let ((x, a), (y, b)) = (&st[i], &st[j]);
        let w = ora::cmp(a, b);
        if w == Ordering::Equal && i != j { c.label("two equal results of different computations"); }
        let g = no_panic("partial_cmp", || x.partial_cmp(y))?;
        ok(g == Some(w), || format!("partial_cmp of {} and {}: got {:?} want {:?}", sh(a), sh(b), g, w))?;
        ok((x == y) == (w == Ordering::Equal) && (x != y) == (w != Ordering::Equal), || format!("== or != of {} and {} wrong", sh(a), sh(b)))?;
        ok((x < y) == (w == Ordering::Less) && (x > y) == (w == Ordering::Greater) && (x <= y) == (w != Ordering::Greater) && (x >= y) == (w != Ordering::Less),
            || format!("<, >, <=, >= of {} and {} wrong", sh(a), sh(b)))?;
        ok((format!("{:x}", x) == format!("{:x}", y)) == (w == Ordering::Equal), || "printing distinguishes equal values or confuses different ones".into())?;
        ok((x.to_le_bytes() == y.to_le_bytes()) == (w == Ordering::Equal), || "export distinguishes equal values or confuses different ones".into())?;
        let p = ((c.word64() as u128) << 64 >> [0u32, 64, 96, 112][c.below(4)]) | if c.chance(1, 3) { a.iter().rev().fold(0u128, |s, &w| (s << 32) | w as u128) } else { 0 };
        prim_cmp(x, a, p)?;
    }
    Ok(())
}
fn c08_order(c: &mut Ctx) -> R {
    let a = gen_a(c, 30, 1500);
    let b = gen_related(c, &a, 30);
    c.note(|| format!("a={} b={}", sh(&a), sh(&b)));
    if a.len() == b.len() && a.len() > 1 { c.nontrivial(); }
    let w = ora::cmp(&a, &b);
    let (x, y) = (nat(&a), nat(&b));
    let g = x.partial_cmp(&y);
    ok(g == Some(w), || format!("partial_cmp got {:?} want {:?}", g, w))?;
    ok(y.partial_cmp(&x) == Some(w.reverse()), || "partial_cmp not antisymmetric".into())?;
    let g = [x == y, x != y, x < y, x <= y, x > y, x >= y];
    ok(g == six(w), || format!("==, !=, <, <=, >, >= say {:?}", g))?;
    let g = [y == x, y != x, y < x, y <= x, y > x, y >= x];
    ok(g == six(w.reverse()), || format!("==, !=, <, <=, >, >= the other way round say {:?}", g))?;
    let low = a.iter().take(4).rev().fold(0u128, |s, &w| (s << 32) | w as u128);
    prim_cmp(&x, &a, match c.below(4) { 0 => low, 1 => low.wrapping_add(1), 2 => low.wrapping_sub(1), _ => c.word64() as u128 })
}

// ------------------------------------------------------------------ C11
fn c11_sqrt(c: &mut Ctx) -> R {
    let m = c.lim(16, 90);
    let n = match c.weighted(&[4, 4, 2]) {
        0 => gen_u(c, m),
        1 => { // near a perfect square
            let s = gen_u(c, m / 2);
            let q = ora::mul(&s, &s);
            let d = ora::u(c.upto(2) as u128);
            c.label("near a perfect square");
            if c.chance(1, 2) && ora::cmp(&q, &d) != Ordering::Less { ora::sub(&q, &d) } else { ora::add(&q, &d) }
        }
        _ => { let k = c.below(m * 32); let p = ora::shl(&ora::u(1), k); if c.chance(1, 2) { ora::sub(&p, &ora::u(1)) } else { p } }
    };
    c.note(|| format!("n={}", sh(&n)));
    if n.len() > 1 { c.nontrivial(); }
    let w = ora::isqrt(&n);
    let x = nat(&n);
    eq_nat("sqrt(n)", &no_panic("sqrt", || x.sqrt())?, &w)?;
    eq_nat("n after sqrt", &x, &n)?;
    let b = big(&ora::I::new(false, n.clone()));
    let r = no_panic("BigInt sqrt", || b.sqrt())?;
    eq_big("BigInt sqrt", &r, &ora::I::new(false, w))?;
    if !n.is_empty() {
        let r = no_panic("sqrt of a negative integer", || (-b).sqrt())?;
        ok(r.is_nan(), || format!("sqrt of a negative integer gives {}", shb(&r)))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
fn c12_range(c: &mut Ctx) -> R {
    let k = if c.chance(1, 10) { 48 } else { 12 };
    let n = gen_u_pos(c, k);
    let mut s = Src::gen_src(c);
    c.note(|| format!("n={} source mode {} failure rate {}/16", sh(&n), s.mode, s.fail));
    c.nontrivial();
    if s.fail > 0 { c.label("failing source"); }
    if s.mode > 0 { c.label("biased source"); }
    let x = nat(&n);
    for _ in 0..6 {
        let r = no_panic("random", || x.random(&mut s))?;
        let w = words(&r);
        ok(!w.is_empty() && (w.len() == 1 || *w.last().unwrap() != 0), || format!("random result {} is not canonical", shn(&r)))?;
        ok(ora::cmp(&ora::trim(w), &n) == Ordering::Less, || format!("random({}) = {}", sh(&n), shn(&r)))?;
    }
    eq_nat("bound after random", &x, &n)?;
    let neg = c.chance(1, 2);
    let b = big(&ora::I::new(neg, n.clone()));
    for _ in 0..4 {
        let r = no_panic("BigInt random", || b.random(&mut s))?;
        let rn: &Nat = r.as_ref();
        let w = words(rn);
        ok(!w.is_empty() && (w.len() == 1 || *w.last().unwrap() != 0), || format!("random result {} is not canonical", shb(&r)))?;
        let m = ora::trim(w);
        ok(!(r.is_negative() && m.is_empty()), || "random returned minus zero".into())?;
        let good = if neg { (m.is_empty() || r.is_negative()) && ora::cmp(&m, &n) != Ordering::Greater } else { !r.is_negative() && ora::cmp(&m, &n) == Ordering::Less };
        ok(good, || format!("random({}{}) = {}", if neg { "-" } else { "" }, sh(&n), shb(&r)))?;
    }
    ok(nan().random(&mut s).is_nan() && nat(&vec![]).random(&mut s).is_nan(), || "NaN or zero bound gives a number".into())?;
    ok(BigInt::from(nan()).random(&mut s).is_nan() && BigInt::from(0u32).random(&mut s).is_nan(), || "NaN or zero integer bound gives a number".into())
}
fn c12_cover_small(c: &mut Ctx) -> R {
    let n = 1 + c.upto(23) as u32;
    let mut s = Src::uniform(c.u64());
    if c.chance(1, 3) { s.fail = 6; }
    let per = 400u32;
    c.note(|| format!("n={} {} draws", n, per * n));
    c.nontrivial();
    let x = Nat::from(n);
    let b = BigInt::from(n as i64);
    let mut cnt = vec![0u32; n as usize];
    let mut cnb = vec![0u32; n as usize];
    for _ in 0..per * n {
        let v = words(&x.random(&mut s));
        ok(v.len() == 1 && v[0] < n, || format!("random({}) = {:x?}", n, v))?;
        cnt[v[0] as usize] += 1;
        let r = b.random(&mut s);
        let rn: &Nat = r.as_ref();
        let v = words(rn);
        ok(v.len() == 1 && v[0] < n && !r.is_negative(), || format!("BigInt random({}) = {}", n, shb(&r)))?;
        cnb[v[0] as usize] += 1;
    }
    // fair share 400, standard deviation below 20: the band is more than ten deviations wide
    for k in 0..n as usize {
        ok(cnt[k] > 190 && cnt[k] < 610, || format!("value {} of [0,{}) drawn {} times in {} draws", k, n, cnt[k], per * n))?;
        ok(cnb[k] > 190 && cnb[k] < 610, || format!("integer value {} of [0,{}) drawn {} times in {} draws", k, n, cnb[k], per * n))?;
    }
    Ok(())
}
fn c12_cover_large(c: &mut Ctx) -> R {
    let k = 1 + if c.chance(1, 8) { c.below(40) } else { c.below(6) };
    let mut n = gen_u_exact(c, k);
    if c.chance(1, 3) { if let Some(t) = n.last_mut() { *t = 1 + c.size(6) as u32; } } // a nearly empty top word
    let bl = ora::bits(&n);
    if bl < 2 { return c.discard(); }
    let mut s = Src::uniform(c.u64());
    if c.chance(1, 3) { s.fail = 6; }
    // the quarters of [0, n), and the quarters of its top word's multiples
    let (q1, q2, q3) = (ora::shr(&n, 2), ora::shr(&n, 1), ora::shr(&ora::mul(&n, &ora::u(3)), 2));
    let mut quart = [0usize; 4];
    let mut half = vec![0usize; bl];
    c.note(|| format!("n={} 320 draws", sh(&n)));
    c.nontrivial();
    let x = nat(&n);
    let mut or = vec![];
    let mut and = ora::sub(&ora::shl(&ora::u(1), bl), &ora::u(1));
    for _ in 0..320 {
        let v = ora::trim(words(&x.random(&mut s)));
        or = ora::bitop(&or, &v, |p, q| p | q);
        and = ora::bitop(&and, &v, |p, q| p & q);
        let b = [&q1, &q2, &q3].iter().filter(|t| ora::cmp(&v, t) != Ordering::Less).count();
        quart[b] += 1;
        for i in 0..bl { if ora::bit(&v, i) { half[i] += 1; } }
    }
    if bl >= 12 {
        for b in 0..4 {
            ok((15..=160).contains(&quart[b]), || format!("{} of 320 draws below {} lie in its quarter {} (want about 80): quarters {:?}", quart[b], sh(&n), b, quart))?;
        }
        // every bit well below the top one is set half of the time
        for i in 0..bl - 10 {
            ok((70..=250).contains(&half[i]), || format!("bit {} set in {} of 320 draws below {} (want about 160)", i, half[i], sh(&n)))?;
        }
    }
    for i in 0..bl - 1 {
        ok(ora::bit(&or, i), || format!("bit {} never set in 320 draws below {}", i, sh(&n)))?;
        ok(!ora::bit(&and, i), || format!("bit {} always set in 320 draws below {}", i, sh(&n)))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C13
fn prime_says(n: &U, rounds: usize, s: &mut Src) -> Result<bool, String> {
    let x = nat(n);
    let r = no_panic("probably_prime_test", || x.probably_prime_test(rounds, s))?;
    eq_nat("n after the primality test", &x, n)?;
    Ok(r)
}
fn c13_small(c: &mut Ctx) -> R {
    let hi = c.lim(20_000, 200_000);
    let n = match c.weighted(&[3, 3, 2]) { 0 => c.upto(2000), 1 => c.upto(hi), _ => c.word64() };
    let mut s = Src::uniform(c.u64());
    let rounds = 5 + c.below(20);
    c.note(|| format!("n={} rounds={}", n, rounds));
    let want = ora::is_prime64(n);
    if want { c.label("prime"); c.nontrivial(); } else if n % 2 == 1 { c.nontrivial(); }
    if want && c.chance(1, 3) { s.fail = 8; }
    let g = prime_says(&ora::u(n as u128), rounds, &mut s)?;
    ok(g == want, || format!("{} is {}prime, the test says {}", n, if want { "" } else { "not " }, g))
}
fn gen_prime_big(c: &mut Ctx, bits: usize) -> U {
    let k = (bits + 31) / 32;
    let mut v = gen_words(c, k);
    let top = bits - 1;
    v[top / 32] |= 1 << (top % 32);
    if (top + 1) % 32 != 0 { v[top / 32] &= (1u32 << ((top + 1) % 32)) - 1; }
    v[0] |= 1;
    let mut n = ora::trim(v);
    while !ora::is_prime_big(&n) { n = ora::add(&n, &ora::u(2)); }
    n
}
fn gen_prime64(c: &mut Ctx, bits: usize) -> u64 {
    let mut n = (c.upto((1u64 << (bits - 1)) - 1)) | (1u64 << (bits - 1)) | 1;
    while !ora::is_prime64(n) { n += 2; }
    n
}
const MERSENNE: [usize; 9] = [61, 89, 107, 127, 521, 607, 1279, 31, 19];
const PRIMES_HEX: [&str; 5] = [
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", // P-256
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", // secp256k1
    "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", // 2^255-19
    "ffffffffffffffffffffffffffffffff000000000000000000000001", // P-224
    "fffffffffffffffffffffffffffffffeffffffffffffffff", // P-192
];
fn c13_primes(c: &mut Ctx) -> R {
    let n = match c.weighted(&[6, 3, 1]) {
        0 => { let m = c.lim(110, 500); let b = 33 + c.below(m); gen_prime_big(c, b) }
        1 => { let b = 8 + c.below(55); ora::u(gen_prime64(c, b) as u128) }
        _ => {
            if c.chance(1, 2) { let lm = c.lim(5, 7); let i = if c.chance(1, 12) { 6 } else { c.below(lm) }; ora::sub(&ora::shl(&ora::u(1), MERSENNE[i]), &ora::u(1)) }
            else { ora::parse_radix(PRIMES_HEX[c.below(5)], 16) }
        }
    };
    let mut s = Src::gen_src(c);
    if s.mode == 3 { for w in s.fixed.iter_mut() { if c.chance(1, 2) { *w = 0; } } }
    let rounds = c.below(12);
    c.note(|| format!("prime n={} rounds={} source mode {} fail {}", sh(&n), rounds, s.mode, s.fail));
    c.nontrivial();
    if s.mode > 0 { c.label("adversarial bases"); }
    let g = prime_says(&n, rounds, &mut s)?;
    ok(g, || format!("the prime {} is declared composite", sh(&n)))
}
// Carmichael numbers, base-2 strong pseudoprimes and (strong, extra strong) Lucas pseudoprimes
const PSEUDO: [u64; 64] = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 340561, 410041, 825265,
    2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 3215031751, 2152302898747, 3474749660383, 341550071728321,
    5459, 5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439, 100127, 113573, 115639, 130139, 989, 3239, 10469, 39059, 72389, 100127, 3825123056546413051, 318665857834031151];
fn c13_composites(c: &mut Ctx) -> R {
    let n: U = match c.weighted(&[3, 3, 3, 2, 2, 1, 4, 2, 1]) {
        0 => { c.label("pseudoprime list"); ora::u(PSEUDO[c.below(PSEUDO.len())] as u128) }
        1 => { // Chernick: (6k+1)(12k+1)(18k+1)
            let mut k = 1 + c.size(20000);
            while !(ora::is_prime64(6 * k + 1) && ora::is_prime64(12 * k + 1) && ora::is_prime64(18 * k + 1)) { k += 1; }
            c.label("Chernick Carmichael");
            ora::u((6 * k + 1) as u128 * (12 * k + 1) as u128 * (18 * k + 1) as u128)
        }
        2 => { // p*(2p-1)-like strong pseudoprimes and arbitrary semiprimes without small factors
            let b = 7 + c.below(50);
            let p = gen_prime64(c, b);
            let q = if c.chance(1, 2) { let r = 1 + c.upto(4); (p - 1) * r + 1 } else { let b = 7 + c.below(50); gen_prime64(c, b) };
            c.label("p(r(p-1)+1) or p*q");
            if q < 2 { ora::u(p as u128 * p as u128) } else { ora::u(p as u128 * q as u128) }
        }
        3 => { let b = 7 + c.below(56); let p = gen_prime64(c, b); c.label("square of a prime"); ora::u(p as u128 * p as u128) }
        4 => { let b1 = 40 + c.below(40); let p = gen_prime_big(c, b1); let b2 = 40 + c.below(40); let q = if c.chance(1, 4) { p.clone() } else { gen_prime_big(c, b2) }; c.label("large semiprime"); ora::mul(&p, &q) }
        6 => { // the number a small prime would be if only its low word (or words) were read
            let k = 1 + c.below(4);
            let lo = if c.chance(2, 3) { ora::u(c.upto(300) as u128 | (c.upto(7) != 0) as u128) } else { let b = 3 + c.below(60); ora::u(gen_prime64(c, b) as u128) };
            let hi = gen_u_pos(c, k);
            c.label("small low part");
            let sh = if lo.len() > 1 || c.chance(1, 3) { 64 } else { 32 };
            ora::add(&ora::shl(&hi, sh), &lo)
        }
        8 => { let k = 6 + if c.chance(1, 4) { c.below(35) } else { c.below(5) }; let v = gen_u_exact(c, k); let t = ora::u((3 + 2 * c.upto(300)) as u128); c.label("composite of many words"); ora::mul(&v, &t) }
        7 => { let k = 1 + c.below(5); let mut v = gen_u_exact(c, k); if v.is_empty() { v.push(1); } v[0] |= 1; c.label("structured odd"); v }
        _ => { let x = gen_u_pos(c, 5); let y = gen_u_pos(c, 5); ora::mul(&ora::add(&x, &ora::u(1)), &ora::add(&y, &ora::u(1))) }
    };
    if ora::is_prime_big(&n) { return c.discard(); }
    let mut s = Src::uniform(c.u64());
    if c.chance(1, 4) { s.fail = 8; }
    let rounds = 20;
    c.note(|| format!("composite n={}", sh(&n)));
    c.nontrivial();
    let g = prime_says(&n, rounds, &mut s)?;
    ok(!g, || format!("the composite {} is declared prime", sh(&n)))
}
fn c13_generate(c: &mut Ctx) -> R {
    let big = c.chance(1, 3);
    let lm = c.lim(80, 400);
    let k = if big { 33 + c.below(lm) } else { c.below(67) };
    let mut s = Src::uniform(c.u64());
    if c.chance(1, 3) { s.fail = 1 + c.below(8) as u64; c.label("failing source"); }
    c.note(|| format!("generate_prime({}, 10) source failure rate {}/16", k, s.fail));
    c.nontrivial();
    let r = no_panic("generate_prime", || Nat::generate_prime(k, 10, &mut s))?;
    match r {
        Err(e) => ok(k < 2, || format!("generate_prime({}) failed: {}", k, e)),
        Ok(p) => {
            ok(k >= 2, || format!("generate_prime({}) returned {}", k, shn(&p)))?;
            let w = words(&p);
            let v = ora::trim(w.clone());
            eq_nat("generated prime", &p, &v)?;
            ok(ora::bits(&v) == k, || format!("generate_prime({}) returned {} with {} bits", k, shn(&p), ora::bits(&v)))?;
            // so that the product of two of them is never a bit short
            ok(Nat::is_set_bit(&p, k - 2) == Some(true), || format!("generate_prime({}) returned {}: the second highest bit is not set", k, shn(&p)))?;
            ok(ora::is_prime_big(&v), || format!("generate_prime({}) returned the composite {}", k, shn(&p)))
        }
    }
}

/// with a uniform source every bit but the two highest and the lowest is left to chance
fn c13_spread(c: &mut Ctx) -> R {
    let lm = c.lim(40, 130);
    let k = 34 + c.below(lm);
    let mut s = Src::uniform(c.u64());
    c.note(|| format!("64 primes of {} bits", k));
    c.nontrivial();
    // column i holds bit i of the 64 primes
    let mut col = vec![0u64; k];
    for j in 0..64 {
        let p = no_panic("generate_prime", || Nat::generate_prime(k, 2, &mut s))?.map_err(|e| e.to_string())?;
        let w = words(&p);
        for (i, x) in col.iter_mut().enumerate() { *x |= (w[i / 32] as u64 >> (i % 32) & 1) << j; }
    }
    let mut seen = std::collections::HashMap::new();
    for i in 1..k - 2 {
        let v = col[i];
        ok(v != 0 && v != u64::MAX, || format!("bit {} is {} in each of 64 generated primes of {} bits", i, v & 1, k))?;
        if let Some(j) = seen.insert(v.min(!v), i) { return Err(format!("bits {} and {} are tied to each other in 64 generated primes of {} bits", j, i, k)); }
    }
    Ok(())
}

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", rule: "an operand of two or more 32-bit words (addition, subtraction), two such operands (multiplication), or nonzero operands for the u32 forms",
        laws: &[Law { name: "add_sub", weight: 8, run: c01_words }, Law { name: "mul", weight: 6, run: c01_mul }, Law { name: "mul_dense", weight: 1, run: c01_mul_dense }, Law { name: "shared", weight: 2, run: c01_alias }, Law { name: "u32", weight: 4, run: c01_u32 }],
        quick: 200_000, thorough: 6_480_000, assumptions: &["operand size up to 80 words (add/sub), 50 (mul) and 150 (products of nearly full operands) in the quick tier, 3000, 500 and 400 in the thorough tier"] },
    Prop { id: "C02", rule: "nonzero quotient and a divisor of two or more words; for u32 divisors a dividend of two or more words and divisor > 1",
        laws: &[Law { name: "big", weight: 5, run: c02_big }, Law { name: "u32", weight: 2, run: c02_u32 }, Law { name: "shared_and_zero", weight: 1, run: c02_alias_zero }],
        quick: 290_000, thorough: 6_600_000, assumptions: &["operands up to 14 words in the quick tier (60 for u32 divisors), 110 (2500) in the thorough tier"] },
    Prop { id: "C03", rule: "both operands of at least 40 words (product), at least 20 words (square), exponent > 1 and nonzero base (power)",
        laws: &[Law { name: "karatsuba", weight: 4, run: c03_kara }, Law { name: "square", weight: 3, run: c03_sqr }, Law { name: "pow", weight: 2, run: c03_pow }],
        quick: 54_000, thorough: 648_000, assumptions: &["operands up to 340 words (square: 700) in the quick tier, 1400 (2200) in the thorough tier; powers up to 6000 / 30000 bits"] },
    Prop { id: "C04", rule: "modulus or exponent of two or more words, or the small-domain / unreduced / shared-operand laws",
        laws: &[Law { name: "modulus", weight: 5, run: c04_mod }, Law { name: "large_modulus", weight: 2, run: c04_large }, Law { name: "long_modulus", weight: 1, run: c04_long }, Law { name: "tiny", weight: 3, run: c04_small }, Law { name: "around_phi", weight: 2, run: c04_euler }, Law { name: "no_modulus", weight: 2, run: c04_nomod }, Law { name: "shared", weight: 1, run: c04_alias }],
        quick: 100_000, thorough: 1_920_000, assumptions: &["moduli up to 48 words in the quick tier (130 thorough); pow_mod exponents of more than 2 words only with moduli up to 4 (12) words"] },
    Prop { id: "C05", rule: "an operand of two or more words (and a positive shift count for shifts)",
        laws: &[Law { name: "bitwise", weight: 3, run: c05_bits }, Law { name: "shift", weight: 4, run: c05_shift }, Law { name: "queries", weight: 2, run: c05_query }],
        quick: 2_700_000, thorough: 45_600_000, assumptions: &["operands up to 60 words in the quick tier, 2500 in the thorough tier; shift counts up to 20000"] },
    Prop { id: "C06", rule: "a number of two or more words, or malformed text",
        laws: &[Law { name: "format", weight: 3, run: c06_format }, Law { name: "parse", weight: 3, run: c06_parse }, Law { name: "malformed", weight: 3, run: c06_malformed }, Law { name: "strange", weight: 2, run: c06_strange }],
        quick: 71_000, thorough: 2_000_000, assumptions: &["decimal formatting up to 14 words in the quick tier, 70 in the thorough tier; other bases 40 and 300", "decimal text with redundant leading zeros is not judged (the parser rejects it, the documentation is silent)"] },
    Prop { id: "C07", rule: "a number of two or more words, redundant zero digits, or a primitive",
        laws: &[Law { name: "bytes", weight: 3, run: c07_bytes }, Law { name: "words", weight: 2, run: c07_words }, Law { name: "primitives", weight: 2, run: c07_prims }],
        quick: 2_700_000, thorough: 64_800_000, assumptions: &["up to 160 bytes in the quick tier, 10000 in the thorough tier"] },
    Prop { id: "C08", rule: "a computation of at least two steps, or a comparison of equally long multi-word numbers",
        laws: &[Law { name: "history", weight: 3, run: c08_history }, Law { name: "order", weight: 2, run: c08_order }],
        quick: 670_000, thorough: 10_560_000, assumptions: &["programs of up to 14 steps in the quick tier, 102 in the thorough tier"] },
    Prop { id: "C11", rule: "n of two or more words",
        laws: &[Law { name: "sqrt", weight: 1, run: c11_sqrt }],
        quick: 78_000, thorough: 1_920_000, assumptions: &["n up to 16 words in the quick tier, 90 in the thorough tier"] },
    Prop { id: "C12", rule: "every case (each draws several numbers from a uniform, biased or failing source)",
        laws: &[Law { name: "range", weight: 12, run: c12_range }, Law { name: "cover_small", weight: 1, run: c12_cover_small }, Law { name: "cover_large", weight: 2, run: c12_cover_large }],
        quick: 190_000, thorough: 2_280_000, assumptions: &["biased sources become uniform after at most 64 draws and failing ones never fail more than 20 times in a row, so that rejection sampling can end", "frequency bands are more than ten standard deviations wide"] },
    Prop { id: "C13", rule: "an odd number, a prime, a constructed composite or a generated prime",
        laws: &[Law { name: "small", weight: 120, run: c13_small }, Law { name: "primes", weight: 60, run: c13_primes }, Law { name: "composites", weight: 80, run: c13_composites }, Law { name: "generate", weight: 40, run: c13_generate }, Law { name: "spread", weight: 1, run: c13_spread }],
        quick: 44_000, thorough: 528_000, assumptions: &["the primality oracle is deterministic below 2^64 and uses 30 prime bases above", "composites are tested with 20 rounds and a uniform source"] },
];
