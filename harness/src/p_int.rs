//! C14-C22: integers.
use crate::common::*;
use crate::engine::*;
use crate::gen::*;
use crate::ora::{self, I, U};
use rmath::bigint::{BigInt, Nat};
use std::cmp::Ordering;
use std::str::FromStr;

pub fn val(b: &BigInt) -> Result<I, String> {
    let n: &Nat = b.as_ref();
    let w = words(n);
    if w.is_empty() { return Err("NaN".into()); }
    let m = ora::trim(w.clone());
    if repr(&m) != w { return Err(format!("redundant leading zeros in {}", shb(b))); }
    if m.is_empty() && b.is_negative() { return Err("negative zero".into()); }
    Ok(I::new(b.is_negative(), m))
}
fn pair(c: &mut Ctx, m: usize) -> (I, I) { let a = gen_i(c, m); let b = gen_i_related(c, &a, m); (a, b) }
fn signs(c: &mut Ctx, a: &I, b: &I) {
    c.label(match (a.neg, b.neg) { (false, false) => "signs ++", (false, true) => "signs +-", (true, false) => "signs -+", _ => "signs --" });
    if a.is_zero() || b.is_zero() { c.label("zero operand"); }
}

// ------------------------------------------------------------------ C14
fn c14_addsub(c: &mut Ctx) -> R {
    let m = c.lim(30, 1000);
    let (a, b) = pair(c, m);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    if !a.is_zero() && !b.is_zero() { c.nontrivial(); }
    if a.add(&b).is_zero() { c.label("sum zero"); }
    big_forms("a+b", &a, &b, &a.add(&b), |x, y| x + y, |x, y| *x += y)?;
    big_forms("a-b", &a, &b, &a.sub(&b), |x, y| x - y, |x, y| *x -= y)?;
    big_alias("a+a", &a, &a.add(&a), |x, y| x + y, |x, y| *x += y)?;
    big_alias("a-a", &a, &I::zero(), |x, y| x - y, |x, y| *x -= y)?;
    let x = big(&a);
    eq_big("-a", &no_panic("-a", || -x.clone())?, &a.neg())?;
    eq_big("|a|", &no_panic("abs", || x.abs())?, &I::new(false, a.m.clone()))?;
    eq_big("a afterwards", &x, &a)?;
    // the same digits shared between operands of different sign
    let mut z = big(&a);
    let mut y = z.clone();
    let other = a.neg();
    if a.neg { y.set_natural(); } else { y.set_negative(); }
    no_panic("a += -a sharing digits", || z += y)?;
    eq_big("a += -a sharing digits", &z, &a.add(&other))?;
    let mut z = big(&a);
    let mut y = z.clone();
    if a.neg { y.set_natural(); } else { y.set_negative(); }
    no_panic("a -= -a sharing digits", || z -= y)?;
    eq_big("a -= -a sharing digits", &z, &a.sub(&other))
}
fn c14_mul(c: &mut Ctx) -> R {
    let m = c.lim(20, 300);
    let (a, b) = pair(c, m);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    if !a.is_zero() && !b.is_zero() { c.nontrivial(); }
    big_forms("a*b", &a, &b, &a.mul(&b), |x, y| x * y, |x, y| *x *= y)?;
    big_alias("a*a", &a, &a.mul(&a), |x, y| x * y, |x, y| *x *= y)?;
    eq_big("a.sqr()", &no_panic("sqr", || big(&a).sqr())?, &a.mul(&a))?;
    let mut z = big(&a);
    let mut y = z.clone();
    if a.neg { y.set_natural(); } else { y.set_negative(); }
    no_panic("a *= -a sharing digits", || z *= y)?;
    eq_big("a *= -a sharing digits", &z, &a.mul(&a.neg()))
}
fn gen_div(c: &mut Ctx, m: usize) -> (I, I) {
    let (mut a, mut b) = pair(c, m);
    if c.chance(1, 3) { // exact or nearly exact
        let d = c.range(-1, 1);
        let q = gen_i(c, m);
        a = q.mul(&b).add(&I::from(d as i128));
    }
    if b.is_zero() { b = I::from(if c.chance(1, 2) { 1 } else { -1 }); }
    (a, b)
}
fn c14_div(c: &mut Ctx) -> R {
    let lm = c.lim(8, 60);
    let (a, b) = gen_div(c, lm);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    let (q, r) = (a.quo(&b), a.rem(&b));
    if !q.is_zero() { c.nontrivial(); } else { c.label("quotient zero"); }
    if r.is_zero() { c.label("exact"); }
    big_forms("a/b", &a, &b, &q, |x, y| x / y, |x, y| *x /= y)?;
    big_forms("a%b", &a, &b, &r, |x, y| x % y, |x, y| *x %= y)?;
    if !a.is_zero() {
        big_alias("a/a", &a, &I::from(1), |x, y| x / y, |x, y| *x /= y)?;
        big_alias("a%a", &a, &I::zero(), |x, y| x % y, |x, y| *x %= y)?;
        let mut z = big(&a);
        let mut y = z.clone();
        if a.neg { y.set_natural(); } else { y.set_negative(); }
        no_panic("a /= -a sharing digits", || z /= y)?;
        eq_big("a /= -a sharing digits", &z, &I::from(-1))?;
    }
    must_panic("a/0", || big(&a) / BigInt::from(0u32))?;
    must_panic("a%0", || big(&a) % BigInt::from(0u32))?;
    must_panic("a/=0", || { let mut z = big(&a); z /= BigInt::from(0i32); })?;
    must_panic("a%=0", || { let mut z = big(&a); z %= BigInt::from(0i32); })
}

// ------------------------------------------------------------------ C15
fn c15_euclid(c: &mut Ctx) -> R {
    let lm = c.lim(8, 60);
    let (a, b) = gen_div(c, lm);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    let (q, r) = a.divf(&b);
    if !a.is_zero() { c.nontrivial(); }
    if r.is_zero() { c.label("exact"); }
    big_forms("rem_euclid", &a, &b, &r, |x, y| x.rem_euclid(y), |x, y| x.rem_euclid_assign(y))?;
    big_forms("div_euclid", &a, &b, &q, |x, y| x.div_euclid(y), |x, y| x.div_euclid_assign(y))?;
    if !a.is_zero() {
        big_alias("rem_euclid", &a, &I::zero(), |x, y| x.rem_euclid(y), |x, y| x.rem_euclid_assign(y))?;
        big_alias("div_euclid", &a, &I::from(1), |x, y| x.div_euclid(y), |x, y| x.div_euclid_assign(y))?;
    }
    must_panic("rem_euclid 0", || big(&a).rem_euclid(BigInt::from(0u32)))?;
    must_panic("div_euclid 0", || big(&a).div_euclid(BigInt::from(0u32)))
}

// ------------------------------------------------------------------ C16
fn c16_ops(c: &mut Ctx) -> R {
    let m = c.lim(16, 600);
    let (a, b) = pair(c, m);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    if a.neg || b.neg { c.nontrivial(); }
    big_forms("a&b", &a, &b, &a.bitop(&b, |p, q| p & q), |x, y| x & y, |x, y| *x &= y)?;
    big_forms("a|b", &a, &b, &a.bitop(&b, |p, q| p | q), |x, y| x | y, |x, y| *x |= y)?;
    big_forms("a^b", &a, &b, &a.bitop(&b, |p, q| p ^ q), |x, y| x ^ y, |x, y| *x ^= y)?;
    big_forms("a and_not b", &a, &b, &a.bitop(&b, |p, q| p & !q), |x, y| x.and_not(y), |x, y| x.and_not_assign(y))?;
    let x = big(&a);
    eq_big("!a", &no_panic("!a", || !x.clone())?, &a.neg().sub(&I::from(1)))?;
    eq_big("a afterwards", &x, &a)
}
fn c16_shared(c: &mut Ctx) -> R {
    let a = gen_i(c, 12);
    c.note(|| format!("a={}", a.hex()));
    if !a.is_zero() { c.nontrivial(); }
    if a.neg { c.label("negative"); }
    big_alias("a&a", &a, &a, |x, y| x & y, |x, y| *x &= y)?;
    big_alias("a|a", &a, &a, |x, y| x | y, |x, y| *x |= y)?;
    big_alias("a^a", &a, &I::zero(), |x, y| x ^ y, |x, y| *x ^= y)?;
    big_alias("a and_not a", &a, &I::zero(), |x, y| x.and_not(y), |x, y| x.and_not_assign(y))?;
    let o = a.neg();
    let forms: [(&str, fn(&mut BigInt, BigInt), I); 4] = [
        ("a &= -a sharing digits", |x, y| *x &= y, a.bitop(&o, |p, q| p & q)),
        ("a |= -a sharing digits", |x, y| *x |= y, a.bitop(&o, |p, q| p | q)),
        ("a ^= -a sharing digits", |x, y| *x ^= y, a.bitop(&o, |p, q| p ^ q)),
        ("a and_not= -a sharing digits", |x, y| x.and_not_assign(y), a.bitop(&o, |p, q| p & !q)),
    ];
    for (n, f, w) in forms.iter() {
        let mut z = big(&a);
        let mut y = z.clone();
        if a.neg { y.set_natural(); } else { y.set_negative(); }
        no_panic(n, || f(&mut z, y))?;
        eq_big(n, &z, w)?;
    }
    Ok(())
}
fn c16_shift(c: &mut Ctx) -> R {
    let m = c.lim(20, 600);
    let a = gen_i(c, m);
    let k = gen_shift(c, ora::bits(&a.m));
    c.note(|| format!("a={} k={}", a.hex(), k));
    if !a.is_zero() && k > 0 { c.nontrivial(); }
    if a.neg { c.label("negative"); }
    if k >= ora::bits(&a.m) { c.label("shifts everything out"); }
    let (l, r) = (a.shl(k), a.shr_floor(k));
    let x = big(&a);
    eq_big("a<<k", &no_panic("a<<k", || x.clone() << k)?, &l)?;
    eq_big("a>>k", &no_panic("a>>k", || x.clone() >> k)?, &r)?;
    eq_big("a afterwards", &x, &a)?;
    let mut z = big(&a);
    no_panic("a<<=k", || z <<= k)?;
    eq_big("a<<=k", &z, &l)?;
    no_panic(">>=k", || z >>= k)?;
    eq_big("(a<<k)>>=k", &z, &a)?;
    no_panic(">>=k", || z >>= k)?;
    eq_big("a>>=k", &z, &r)
}
fn c16_bit(c: &mut Ctx) -> R {
    let a = gen_i(c, 12);
    c.note(|| format!("a={}", a.hex()));
    if a.neg { c.nontrivial(); c.label("negative"); }
    let x = big(&a);
    let bl = ora::bits(&a.m).max(1);
    ok(x.bits_len() == bl, || format!("bits_len {} want {}", x.bits_len(), bl))?;
    let t = a.twos(a.m.len() + 1);
    for j in 0..6 {
        let i = if j == 0 { bl - 1 } else if j == 1 { bl } else { gen_shift(c, bl) };
        let w = if i >= bl { None } else { Some(ora::bit(&t, i)) };
        let g = no_panic("is_set_bit", || x.is_set_bit(i))?;
        ok(g == w, || format!("bit {} of {}: got {:?} want {:?}", i, a.hex(), g, w))?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
fn c17_text(c: &mut Ctx) -> R {
    let dec_too = c.chance(1, 4);
    let lm = c.lim(20, 300);
    let a = gen_i(c, if dec_too { 10 } else { lm });
    c.note(|| format!("a={}", a.hex()));
    if a.neg { c.nontrivial(); c.label("negative"); }
    let x = big(&a);
    let s = if a.neg { "-" } else { "" };
    let m = &a.m;
    let cases: Vec<(&str, String, String)> = vec![
        ("{:#b}", no_panic("{:#b}", || format!("{:#b}", x))?, format!("{}0b{}", s, ora::to_radix(m, 2))),
        ("{:#o}", no_panic("{:#o}", || format!("{:#o}", x))?, format!("{}0o{}", s, ora::to_radix(m, 8))),
        ("{:#x}", no_panic("{:#x}", || format!("{:#x}", x))?, format!("{}0x{}", s, ora::hex(m))),
        ("{:#X}", no_panic("{:#X}", || format!("{:#X}", x))?, format!("{}0x{}", s, ora::hex(m).to_uppercase())),
        ("{:#?}", no_panic("{:#?}", || format!("{:#?}", x))?, format!("{}0x{}", s, ora::hex(m))),
        ("{:b}", no_panic("{:b}", || format!("{:b}", x))?, format!("{}{}", s, ora::to_radix(m, 2))),
        ("{:o}", no_panic("{:o}", || format!("{:o}", x))?, format!("{}{}", s, ora::to_radix(m, 8))),
        ("{:x}", no_panic("{:x}", || format!("{:x}", x))?, format!("{}{}", s, ora::hex(m))),
        ("{:X}", no_panic("{:X}", || format!("{:X}", x))?, format!("{}{}", s, ora::hex(m).to_uppercase())),
        ("{:?}", no_panic("{:?}", || format!("{:?}", x))?, format!("{}{}", s, ora::hex(m))),
    ];
    for (f, g, w) in &cases { ok(g == w, || format!("{}: got {} want {}", f, g, w))?; }
    for i in 0..4 {
        match no_panic("parse", || BigInt::from_str(&cases[i].1))? { Ok(v) => eq_big(&format!("parse of {}", cases[i].1), &v, &a)?, Err(e) => return Err(format!("{:?} rejected: {}", cases[i].1, e)) }
    }
    if dec_too {
        c.label("with decimal");
        let g = no_panic("{}", || format!("{}", x))?;
        ok(g == a.dec(), || format!("{{}}: got {} want {}", g, a.dec()))?;
        match no_panic("parse", || BigInt::from_str(&g))? { Ok(v) => eq_big("parse of decimal", &v, &a)?, Err(e) => return Err(format!("{:?} rejected: {}", g, e)) }
    }
    eq_big("a afterwards", &x, &a)
}
fn c17_parse(c: &mut Ctx) -> R {
    let a = gen_i(c, 8);
    let (radix, p) = [(2u32, "0b"), (8, "0o"), (10, ""), (16, "0x"), (16, "0X"), (2, "0B")][c.below(6)];
    let mut d = ora::to_radix(&a.m, radix);
    if radix == 16 && c.chance(1, 2) { d = d.to_uppercase(); }
    if radix != 10 && c.chance(1, 3) { d = format!("{}{}", "0".repeat(1 + c.size(20) as usize), d); }
    let sign = if a.neg { "-" } else if a.is_zero() && c.chance(1, 2) { "-" } else if c.chance(1, 3) { "+" } else { "" };
    let t = format!("{}{}{}{}{}", ["", " ", "\n", "\t "][c.weighted(&[5, 1, 1, 1])], sign, p, d, ["", " ", "\n"][c.weighted(&[5, 1, 1])]);
    c.note(|| format!("text={:?}", t));
    if a.neg { c.nontrivial(); }
    if a.is_zero() && sign == "-" { c.nontrivial(); c.label("minus zero"); }
    match no_panic("parse", || BigInt::from_str(&t))? {
        Ok(v) => {
            eq_big(&format!("parse of {:?}", t), &v, &a)?;
            if a.is_zero() { ok(v == BigInt::from(0u32) && v.signnum() == Some(0), || "parsed zero is not zero".into())?; }
            Ok(())
        }
        Err(e) => Err(format!("{:?} rejected: {}", t, e)),
    }
}
fn c17_malformed(c: &mut Ctx) -> R {
    c.nontrivial();
    const J: [char; 16] = ['_', '.', '-', '+', ';', 'g', 'z', 'x', ',', '/', ':', '²', '中', '\u{0}', 'o', '😀'];
    match c.below(3) {
        0 => {
            let a = gen_u_pos(c, 4);
            let (radix, p) = [(2u32, "0b"), (8, "0o"), (10, ""), (16, "0x")][c.below(4)];
            let mut d = ora::to_radix(&a, radix);
            if d.len() < 2 { d = if radix == 10 { format!("1{}", d) } else { format!("0{}", d) }; }
            let pos = 1 + c.below(d.len() - 1);
            d.insert(pos, J[c.below(J.len())]);
            let t = format!("{}{}{}", ["", "-", "+"][c.below(3)], p, d);
            c.note(|| format!("text={:?}", t));
            ok(no_panic("parse", || BigInt::from_str(&t))?.is_err(), || format!("{:?} accepted", t))
        }
        1 => {
            let t = ["", "-", "+", " ", "- ", "--1", "+-1", "-x", "0x", "-0x", "-0b", "1-", "1-2", "-中", "中", "-1中", "--", "0o", "-0o8", "0b2"][c.below(20)];
            c.note(|| format!("text={:?}", t));
            ok(no_panic("parse", || BigInt::from_str(t))?.is_err(), || format!("{:?} accepted", t))
        }
        _ => {
            let n = c.size(12);
            let mut t = String::new();
            for _ in 0..n { t.push(match c.weighted(&[4, 3, 2, 1]) { 0 => (b'0' + c.below(10) as u8) as char, 1 => ['0', 'x', 'b', 'o', '+', '-', 'f'][c.below(7)], 2 => J[c.below(J.len())], _ => weird_char(c) }); }
            c.note(|| format!("text={:?}", t));
            let bad = t.trim().chars().any(|ch| !(ch.is_ascii_hexdigit() || "xXbBoO+-".contains(ch) || ch.is_whitespace()));
            let r = no_panic("parse", || BigInt::from_str(&t))?;
            ok(!(bad && r.is_ok()), || format!("{:?} accepted", t))
        }
    }
}
fn c17_strange(c: &mut Ctx) -> R {
    let a = gen_u(c, 3);
    let (radix, p) = [(2u32, "0b"), (8, "0o"), (10, ""), (16, "0x")][c.below(4)];
    let good = format!("{}{}{}", ["", "-", "+"][c.below(3)], p, ora::to_radix(&a, radix));
    let t = strange_text(c, &good);
    c.note(|| format!("text={:?}", t));
    c.nontrivial();
    ok(no_panic("parse", || BigInt::from_str(&t))?.is_err(), || format!("{:?} accepted", t))
}
fn c17_conv(c: &mut Ctx) -> R {
    let (h, l) = (c.word64(), c.word64());
    let x = (((h as u128) << 64) | l as u128) as i128;
    c.note(|| format!("x={:#x}", x));
    c.nontrivial();
    macro_rules! p { ($($t:ty),*) => {$( let v = x as $t; eq_big(concat!("From<", stringify!($t), ">"), &no_panic("From", || BigInt::from(v))?, &if v == (v as u128 as $t) && (stringify!($t).starts_with('u')) { I::new(false, ora::u(v as u128)) } else { I::from(v as i128) })?; )*} }
    p!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, i128);
    eq_big("From<u128>", &no_panic("u128", || BigInt::from(x as u128))?, &I::new(false, ora::u(x as u128)))?;
    // extremes
    for (g, w) in [(BigInt::from(i8::MIN), i8::MIN as i128), (BigInt::from(i16::MIN), i16::MIN as i128), (BigInt::from(i32::MIN), i32::MIN as i128), (BigInt::from(i64::MIN), i64::MIN as i128), (BigInt::from(i128::MIN), i128::MIN), (BigInt::from(isize::MIN), isize::MIN as i128)] { eq_big("From<MIN>", &g, &I::from(w))?; }
    let a = gen_i(c, 10);
    let b = big(&a);
    let mut le: Vec<u8> = a.m.iter().flat_map(|w| w.to_le_bytes().to_vec()).collect();
    while le.len() > 1 && *le.last().unwrap() == 0 { le.pop(); }
    if le.is_empty() { le.push(0); }
    let mut be = le.clone(); be.reverse();
    let mut buf = vec![1, 2, 3];
    ok(b.to_le_bytes() == le && b.to_be_bytes() == be, || format!("byte export of {}: {:x?}", a.hex(), b.to_le_bytes()))?;
    b.copy_to_le(&mut buf); ok(buf == le, || format!("copy_to_le of {}: {:x?}", a.hex(), buf))?;
    b.copy_to_be(&mut buf); ok(buf == be, || format!("copy_to_be of {}: {:x?}", a.hex(), buf))?;
    let abs = I::new(false, a.m.clone());
    eq_big("from_le_bytes", &BigInt::from_le_bytes(&le), &abs)?;
    eq_big("from_be_bytes", &BigInt::from_be_bytes(&be), &abs)?;
    eq_big("From<&[u8]>", &BigInt::from(&le[..]), &abs)?;
    eq_big("From<Vec<u8>>", &BigInt::from(le.clone()), &abs)?;
    eq_big("From<&Vec<u8>>", &BigInt::from(&le), &abs)?;
    let w = repr(&a.m);
    eq_big("From<&[u32]>", &BigInt::from(&w[..]), &abs)?;
    eq_big("From<Vec<u32>>", &BigInt::from(w.clone()), &abs)?;
    eq_big("From<&Vec<u32>>", &BigInt::from(&w), &abs)?;
    eq_big("From<Nat>", &BigInt::from(nat(&a.m)), &abs)
}

// ------------------------------------------------------------------ C18
fn c18_gcd(c: &mut Ctx) -> R {
    let m = if c.chance(1, 16) { 36 } else { c.lim(5, 40) };
    let (mut a, mut b) = pair(c, m);
    if c.chance(1, 3) { let g = gen_i(c, 3); a = a.mul(&g); b = b.mul(&g); c.label("common factor"); }
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    if !a.is_zero() && !b.is_zero() { c.nontrivial(); }
    let (x, y) = (big(&a), big(&b));
    let (d, p, q) = no_panic("gcd", || x.gcd(y.clone()))?;
    let g = I::new(false, ora::gcd(&a.m, &b.m));
    eq_big("gcd", &d, &g)?;
    let (p, q) = (val(&p)?, val(&q)?);
    ok(a.mul(&p).add(&b.mul(&q)) == g, || format!("gcd coefficients {} {} do not give {}", p.hex(), q.hex(), g.hex()))?;
    eq_big("a afterwards", &x, &a)?;
    eq_big("b afterwards", &y, &b)?;
    let (d, p, q) = no_panic("gcd(a,a)", || x.gcd(x.clone()))?;
    let g = I::new(false, a.m.clone());
    eq_big("gcd(a,a)", &d, &g)?;
    ok(a.mul(&val(&p)?).add(&a.mul(&val(&q)?)) == g, || "coefficients of gcd(a,a)".into())
}
fn c18_inverse(c: &mut Ctx) -> R {
    let m = if c.chance(1, 16) { 36 } else { c.lim(4, 24) };
    let mut n = gen_u_pos(c, m);
    if n == ora::u(1) { n = ora::u(2); }
    let mut a = gen_i_related(c, &I::new(false, n.clone()), m);
    let mut t = 0;
    while ora::gcd(&a.m, &n) != ora::u(1) { t += 1; if t > 40 { a = I::from(1); break; } a = a.add(&I::from(1)); }
    c.note(|| format!("a={} n={}", a.hex(), sh(&n)));
    c.nontrivial();
    if a.neg { c.label("negative a"); }
    if ora::cmp(&a.m, &n) == Ordering::Greater { c.label("|a|>n"); }
    let (x, y) = (big(&a), big(&I::new(false, n.clone())));
    let v = val(&no_panic("mod_inverse", || x.mod_inverse(y.clone()))?)?;
    ok(!v.neg && ora::cmp(&v.m, &n) == Ordering::Less, || format!("inverse {} not in [0,n)", v.hex()))?;
    let p = a.mul(&v).divf(&I::new(false, n.clone())).1;
    ok(p == I::from(1), || format!("a * {} = {} mod n", v.hex(), p.hex()))?;
    eq_big("a afterwards", &x, &a)?;
    eq_big("n afterwards", &y, &I::new(false, n))
}
fn c18_linear(c: &mut Ctx) -> R {
    let kind = c.weighted(&[6, 3, 3]);
    let (a, b, n) = if kind == 0 {
        (I::from(c.range(-150, 150) as i128), I::from(c.range(-150, 150) as i128), ora::u(1 + c.upto(120) as u128))
    } else if kind == 1 {
        let g = I::from(1 + c.size(40) as i128);
        let k = if c.chance(1, 10) { 36 } else { 4 };
        let n = ora::mul(&gen_u_pos(c, k), &g.m);
        let a = if c.chance(1, 6) { gen_i_related(c, &I::new(false, n.clone()), k) } else { gen_i(c, k).mul(&g) };
        let b = if c.chance(2, 3) { gen_i(c, k).mul(&I::new(false, ora::gcd(&a.m, &n))) } else { gen_i(c, 4) };
        (a, b, n)
    } else {
        // a and n share a divisor of any length, which b almost has: the congruence has no solution, however many
        // of d's words or factors b is a multiple of
        let g = I::new(false, gen_u_pos(c, 4));
        let n = ora::mul(&gen_u_pos(c, 3), &g.m);
        let a = gen_i(c, 3).mul(&g);
        let d = ora::gcd(&a.m, &n);
        let di = I::new(false, d.clone());
        let part = match c.below(5) {
            0 => ora::u(d[0] as u128),
            1 => ora::u(*d.last().unwrap() as u128),
            2 => { let mut h = d.clone(); h.truncate(1 + c.upto(d.len() as u64 - 1) as usize); while h.len() > 1 && *h.last().unwrap() == 0 { h.pop(); } h }
            3 => ora::gcd(&d, &ora::u(c.u64() as u128)),
            _ => { let q = ora::u(1 + c.below(6) as u128); di.divf(&I::new(false, q)).0.m }
        };
        let b = match c.below(3) {
            0 => gen_i(c, 2).mul(&I::new(false, part)),
            1 => gen_i(c, 2).mul(&di).add(&gen_i(c, 1).mul(&I::new(false, part))),
            _ => gen_i(c, 2).mul(&di).add(&I::from(c.range(-2, 2) as i128)),
        };
        (a, b, n)
    };
    let ni = I::new(false, n.clone());
    let d = ora::gcd(&a.m, &n);
    let solvable = b.divf(&I::new(false, d.clone())).1.is_zero();
    if solvable && (d.len() > 1 || d[0] > 3000) { return c.discard(); }
    c.note(|| format!("{} * x = {} mod {}", a.hex(), b.hex(), sh(&n)));
    c.nontrivial();
    let (x, y, m) = (big(&a), big(&b), big(&ni));
    let r = no_panic("solve_mod_linear_equation", || x.solve_mod_linear_equation(y.clone(), m.clone()))?;
    if !solvable { c.label(if d.len() > 1 { "unsolvable, gcd of many words" } else { "unsolvable" }); return ok(r.as_ref().map_or(true, |v| v.is_empty()), || "unsolvable congruence has solutions".into()); }
    c.label("solvable");
    let v = match r { None => return Err("solvable congruence has no solutions".into()), Some(v) => v };
    ok(v.len() as u32 == d[0], || format!("{} solutions, want {}", v.len(), d[0]))?;
    let mut seen: Vec<U> = Vec::new();
    for s in &v {
        let s = val(s)?;
        ok(!s.neg && ora::cmp(&s.m, &n) == Ordering::Less, || format!("solution {} outside [0,n)", s.hex()))?;
        ok(a.mul(&s).sub(&b).divf(&ni).1.is_zero(), || format!("{} is not a solution", s.hex()))?;
        seen.push(s.m);
    }
    seen.sort(); seen.dedup();
    ok(seen.len() == v.len(), || "a solution is listed twice".into())?;
    eq_big("a afterwards", &x, &a)?;
    eq_big("b afterwards", &y, &b)?;
    eq_big("n afterwards", &m, &ni)
}

// ------------------------------------------------------------------ C19
fn c19_mod(c: &mut Ctx) -> R {
    let long = c.chance(1, 100);
    let ml = if long { 40 } else { c.lim(3, 16) };
    if c.chance(1, 6) {
        let (a, e, n) = crate::p_nat::gen_euler(c);
        let (an, en, nn) = (c.chance(1, 3), c.chance(1, 4), c.chance(1, 4));
        return c19_check(c, &I::new(an, a), &I::new(en, e), n, nn);
    }
    let tiny = c.chance(1, 3);
    let mut n = if tiny { ora::u(1 + c.upto(60) as u128) } else { gen_u_pos(c, ml) };
    if !tiny && c.chance(1, 3) { n[0] |= 1; }
    let a = if tiny { I::from(c.range(-70, 70) as i128) } else { let k = I::new(false, n.clone()); gen_i_related(c, &k, ml + 1) };
    let el = if tiny { 14 } else { c.lim(2, 8) };
    let e = if tiny && c.chance(1, 2) { I::from(c.range(-20, 20) as i128) } else if long && !tiny { I::from(c.range(-60, 300) as i128) } else { gen_i(c, el) };
    let nneg = c.chance(1, 3);
    c19_check(c, &a, &e, n, nneg)
}
fn c19_check(c: &mut Ctx, a: &I, e: &I, n: U, nneg: bool) -> R {
    let ni = I::new(nneg, n.clone());
    c.note(|| format!("a={} e={} n={}", a.hex(), e.hex(), ni.hex()));
    let base = if e.neg {
        if ora::gcd(&a.m, &n) != ora::u(1) { return c.discard(); }
        c.label("negative exponent");
        // inverse by the oracle's own extended Euclid
        match inv(a, &n) { Some(v) => v, None => return c.discard() }
    } else { a.divf(&I::new(false, n.clone())).1.m };
    if a.neg { c.label("negative base"); }
    if nneg { c.label("negative modulus"); }
    if !a.is_zero() && !e.is_zero() { c.nontrivial(); }
    let want = I::new(false, ora::modpow(&base, &e.m, &n));
    let (x, y, m) = (big(a), big(e), big(&ni));
    eq_big("a.exp(e,n)", &no_panic("exp", || x.exp(&y, &m))?, &want)?;
    eq_big("a afterwards", &x, a)?;
    eq_big("e afterwards", &y, e)?;
    eq_big("n afterwards", &m, &ni)
}
/// inverse of a modulo n (coprime), by extended Euclid on oracle integers
fn inv(a: &I, n: &U) -> Option<U> {
    let ni = I::new(false, n.clone());
    let (mut r0, mut r1) = (ni.clone(), a.divf(&ni).1);
    let (mut t0, mut t1) = (I::zero(), I::from(1));
    while !r1.is_zero() {
        let q = r0.quo(&r1);
        let r2 = r0.sub(&q.mul(&r1)); r0 = r1; r1 = r2;
        let t2 = t0.sub(&q.mul(&t1)); t0 = t1; t1 = t2;
    }
    if r0 != I::from(1) { return None; }
    Some(t0.divf(&ni).1.m)
}
fn c19_plain(c: &mut Ctx) -> R {
    // n = 0
    let a = if c.chance(1, 4) { I::from(c.range(-1, 1) as i128) } else { gen_i(c, 3) };
    let unit = a.m.is_empty() || a.m == ora::u(1);
    let e = if unit && c.chance(1, 2) { gen_i(c, 2) } else { let k = c.size((2000 / ora::bits(&a.m).max(1)) as u64); I::from(if c.chance(1, 4) { -(k as i128) } else { k as i128 }) };
    c.note(|| format!("a={} e={} n=0", a.hex(), e.hex()));
    if !e.is_zero() { c.nontrivial(); }
    if a.neg { c.label("negative base"); }
    if e.neg { c.label("negative exponent"); }
    let odd = e.m.get(0).map_or(false, |w| w & 1 == 1);
    let want = if e.neg || e.is_zero() { I::from(1) } else if unit { I::new(a.neg && odd, a.m.clone()) } else { I::new(a.neg && odd, ora::pow(&a.m, e.m[0] as u64)) };
    let (x, y, z) = (big(&a), big(&e), BigInt::from(0u32));
    eq_big("a.exp(e,0)", &no_panic("exp", || x.exp(&y, &z))?, &want)?;
    eq_big("a afterwards", &x, &a)
}

// ------------------------------------------------------------------ C20
const P64: [u64; 26] = [3, 5, 7, 11, 13, 17, 19, 23, 41, 73, 97, 113, 193, 257, 769, 12289, 40961, 65537, 786433, 998244353, 3221225473, 4294967291, 0xFFFF_FFFF_0000_0001, 18446744073709551557, 4179340454199820289, 1945555039024054273];
// published primes of every residue class mod 8 and with 2-adic valuations of p-1 from 1 to 96
const PBIG: [&str; 16] = [
    "ffffffffffffffffffffffffffffffff000000000000000000000001", // P-224: p-1 divisible by 2^96
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", // P-256
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", // secp256k1
    "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", // 2^255-19: 5 mod 8
    "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", // BLS12-381 scalar field: 2^32
    "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001", // BN254 scalar field: 2^28
    "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47", // BN254 base field
    "fffffffffffffffffffffffffffffffeffffffffffffffff", // P-192
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", // P-384
    "7fffffffffffffffffffffffffffffff", // 2^127-1
    "100000000000000000000000000000000000000000000000000000000000000000000000000000105", // 5 mod 8, 321 bits
    "40000000000000000000000000000000000000000000000000000000000000022b", // 3 mod 8
    "2dfdc1c370000000000000001", // 2^64
    "db4da5f7ef414c500000000000000000000000000000000000000000000000001", // 2^200
    "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", // 2^521-1: 7 mod 8
    "1200000001", // 2^33
];
fn gen_odd_prime(c: &mut Ctx) -> U {
    if c.chance(1, 12) {
        c.label("published or very 2-adic prime");
        return ora::parse_radix(PBIG[c.below(PBIG.len())], 16);
    }
    match c.weighted(&[4, 4, 3]) {
        0 => ora::u(P64[c.below(P64.len())] as u128),
        1 => { let b = 3 + c.below(58); let mut n = c.upto((1u64 << (b - 1)) - 1) | (1u64 << (b - 1)) | 1; while !ora::is_prime64(n) { n += 2; } ora::u(n as u128) }
        _ => { // k*2^e+1: large 2-adic valuation, or a plain large prime
            let mut n = if c.chance(1, 2) { let e = 20 + c.below(60); let k = (c.upto(0xffff_ffff) | 1) as u128; ora::add(&ora::shl(&ora::u(k), e), &ora::u(1)) } else { let m = c.lim(3, 8); let k = 1 + c.below(m); let mut v = gen_u_exact(c, k); v[0] |= 1; v };
            let step = { let t = ora::tz(&ora::sub(&n, &ora::u(1))); if n == ora::u(1) { ora::u(2) } else { ora::shl(&ora::u(2), t.min(70)) } };
            while !ora::is_prime_big(&n) { n = ora::add(&n, &step); }
            n
        }
    }
}
fn legendre(a: &I, p: &U) -> isize {
    let r = a.divf(&I::new(false, p.clone())).1.m;
    if r.is_empty() { return 0; }
    let e = ora::shr(&ora::sub(p, &ora::u(1)), 1);
    if ora::modpow(&r, &e, p) == ora::u(1) { 1 } else { -1 }
}
fn c20_jacobi_small(c: &mut Ctx) -> R {
    let n = match c.below(3) { 0 => c.upto(60) * 2 + 1, 1 => c.upto(100_000) * 2 + 1, _ => c.word64() | 1 };
    let a = match c.below(3) { 0 => c.range(-200, 200), 1 => c.range(-1_000_000, 1_000_000), _ => c.word64() as i64 };
    c.note(|| format!("jacobi({}, {})", a, n));
    if a != 0 && n > 1 { c.nontrivial(); }
    // a negative n: (a|n) = (a|-1)(a||n|), with (a|-1) = -1 for a < 0
    let nneg = c.chance(1, 4);
    let w = ora::jacobi64(a, n) as isize * if nneg && a < 0 { c.label("both negative"); -1 } else { 1 };
    c.label(match w { 0 => "0", 1 => "+1", _ => "-1" });
    let ni = I::new(nneg, ora::u(n as u128));
    let (x, y) = (BigInt::from(a), big(&ni));
    let g = no_panic("jacobi", || x.jacobi(&y))?;
    ok(g == Some(w), || format!("jacobi({}, {}): got {:?} want {}", a, n, g, w))?;
    eq_big("a afterwards", &x, &I::from(a as i128))?;
    eq_big("n afterwards", &y, &ni)
}
fn c20_jacobi_tiny(c: &mut Ctx) -> R {
    let a = c.range(-12, 12);
    let m = c.below(8) as i64 * 2 + 1;
    let n = if c.chance(1, 2) { -m } else { m };
    c.note(|| format!("jacobi({}, {})", a, n));
    c.nontrivial();
    let w = ora::jacobi64(a, m as u64) as isize * if n < 0 && a < 0 { -1 } else { 1 };
    let (x, y) = (BigInt::from(a), BigInt::from(n));
    let g = no_panic("jacobi", || x.jacobi(&y))?;
    ok(g == Some(w), || format!("jacobi({}, {}): got {:?} want {}", a, n, g, w))?;
    let bad = [(BigInt::from(Nat::default()), y.clone()), (x.clone(), BigInt::from(Nat::default())), (x.clone(), BigInt::from(0u32))];
    for (i, (p, q)) in bad.iter().enumerate() {
        let g = no_panic("jacobi of NaN or modulo 0", || p.jacobi(q))?;
        ok(g.is_none(), || format!("jacobi of NaN or modulo 0 (case {}) is {:?}, not None", i, g))?;
    }
    Ok(())
}
fn c20_jacobi_big(c: &mut Ctx) -> R {
    let k = 1 + c.below(3);
    let mut n = ora::u(1);
    let mut ps = Vec::new();
    for _ in 0..k { let p = gen_odd_prime(c); n = ora::mul(&n, &p); ps.push(p); }
    let a = { let t = I::new(false, n.clone()); gen_i_related(c, &t, 6) };
    c.note(|| format!("jacobi({}, {})", a.hex(), sh(&n)));
    c.nontrivial();
    let nneg = c.chance(1, 4);
    let w: isize = ps.iter().map(|p| legendre(&a, p)).product::<isize>();
    if w != ora::jacobi_big(&a, &n) { return Err("harness: the two symbol oracles disagree".into()); }
    let w = w * if nneg && a.neg { -1 } else { 1 };
    c.label(match w { 0 => "0", 1 => "+1", _ => "-1" });
    let g = no_panic("jacobi", || big(&a).jacobi(&big(&I::new(nneg, n.clone()))))?;
    ok(g == Some(w), || format!("got {:?} want {}", g, w))
}
/// moduli of any pattern and length, their factors unknown
fn c20_jacobi_any(c: &mut Ctx) -> R {
    let m = if c.chance(1, 12) { 40 } else { 6 };
    let mut n = gen_u_pos(c, m);
    n[0] |= 1;
    let a = if c.chance(1, 3) { let k = 1 + c.below(m + 2); let m = gen_u_exact(c, k); let z = c.size(70) as usize; I::new(c.chance(1, 2), ora::shl(&m, z)) } else { let t = I::new(false, n.clone()); gen_i_related(c, &t, m + 2) };
    let nneg = c.chance(1, 4);
    c.note(|| format!("jacobi({}, {}{})", a.hex(), if nneg { "-" } else { "" }, sh(&n)));
    c.nontrivial();
    let w = ora::jacobi_big(&a, &n) * if nneg && a.neg { -1 } else { 1 };
    c.label(match w { 0 => "0", 1 => "+1", _ => "-1" });
    let (x, y) = (big(&a), big(&I::new(nneg, n.clone())));
    let g = no_panic("jacobi", || x.jacobi(&y))?;
    ok(g == Some(w), || format!("got {:?} want {}", g, w))?;
    eq_big("a afterwards", &x, &a)?;
    eq_big("n afterwards", &y, &I::new(nneg, n))
}
fn c20_sqrt(c: &mut Ctx) -> R {
    let p = gen_odd_prime(c);
    let pi = I::new(false, p.clone());
    let a = if c.chance(2, 3) {
        let s = gen_u(c, 4);
        let mut q = I::new(false, ora::rem(&ora::mul(&s, &s), &p));
        match c.below(3) { 0 => {} 1 => q = q.sub(&pi), _ => { let k = gen_i(c, 2); q = q.add(&k.mul(&pi)); } }
        q
    } else { gen_i_related(c, &pi, 4) };
    c.note(|| format!("mod_sqrt({}, {})", a.hex(), sh(&p)));
    c.nontrivial();
    c.label(match p[0] & 7 { 1 => "p=1 mod 8", 3 => "p=3 mod 8", 5 => "p=5 mod 8", _ => "p=7 mod 8" });
    let (x, y) = (big(&a), big(&pi));
    let g = no_panic("mod_sqrt", || x.mod_sqrt(&y))?;
    match (legendre(&a, &p), g) {
        (-1, None) => { c.label("non-residue"); }
        (-1, Some(r)) => return Err(format!("non-residue has root {}", shb(&r))),
        (_, None) => return Err("a residue has no root".into()),
        (_, Some(r)) => {
            let r = val(&r)?;
            ok(!r.neg && ora::cmp(&r.m, &p) == Ordering::Less, || format!("root {} not in [0,p)", r.hex()))?;
            ok(r.mul(&r).sub(&a).divf(&pi).1.is_zero(), || format!("{}^2 is not a mod p", r.hex()))?;
        }
    }
    eq_big("a afterwards", &x, &a)?;
    eq_big("p afterwards", &y, &pi)
}

// ------------------------------------------------------------------ C21
fn c21_range(c: &mut Ctx) -> R {
    let max = c.lim(90, 1500);
    let len = c.size(max) as i64;
    let a: i64 = match c.weighted(&[4, 3, 2, 1, 1]) { 0 => c.range(-120, 120), 1 => c.word64() as i64, 2 => c.range(0, 1 << 40), 3 => i64::MIN + c.size(200) as i64, _ => i64::MAX - c.size(200) as i64 };
    let b = if c.chance(1, 8) { a.saturating_sub(1 + c.size(200) as i64) } else { a.saturating_add(len) };
    c.note(|| format!("mul_range({}, {})", a, b));
    if b > a { c.nontrivial(); }
    if a > b { c.label("empty"); } else if a < 0 && b < 0 { c.label("all negative"); } else if a <= 0 && b >= 0 { c.label("contains zero"); }
    let mut want = I::from(1);
    if a <= 0 && b >= 0 { want = I::zero(); } else { for k in a as i128..=b as i128 { want = want.mul(&I::from(k)); } }
    eq_big("mul_range", &no_panic("mul_range", || BigInt::mul_range(a, b))?, &want)
}
fn c21_binomial(c: &mut Ctx) -> R {
    let (n, k) = match c.weighted(&[5, 2, 2, 2]) {
        0 => { let n = c.size(300) as i64; (n, c.range(0, n + 3)) }
        1 => { let n = (c.word64() >> 1) as i64; (n, c.size(20) as i64) }
        2 => { let n = (c.word64() >> 1) as i64; (n, n - (c.size(20) as i64).min(n)) }
        _ => { let n = c.size(1000) as i64; (n, n + 1 + c.size(400) as i64) }
    };
    c.note(|| format!("binomial({}, {})", n, k));
    if k > 0 { c.nontrivial(); }
    if k > n { c.label("k>n"); }
    if k == n || k == 0 { c.label("edge"); }
    let want = if k > n { I::zero() } else {
        let kk = k.min(n - k);
        let (mut p, mut q) = (ora::u(1), ora::u(1));
        for i in 0..kk { p = ora::mul(&p, &ora::u((n - i) as u128)); q = ora::mul(&q, &ora::u((i + 1) as u128)); }
        I::new(false, ora::div(&p, &q))
    };
    eq_big("binomial", &no_panic("binomial", || BigInt::binomial(n, k))?, &want)
}

// ------------------------------------------------------------------ C22
fn int_program(c: &mut Ctx, steps: u64) -> Result<Vec<(BigInt, I)>, String> {
    let mut st: Vec<(BigInt, I)> = Vec::new();
    for _ in 0..2 { let a = gen_i(c, 4); st.push((big(&a), a)); }
    for _ in 0..steps {
        let i = c.below(st.len());
        let j = c.below(st.len());
        let (mut x, a) = (st[i].0.deep_clone(), st[i].1.clone());
        let (y, b) = (st[j].0.deep_clone(), st[j].1.clone());
        let k = gen_shift(c, ora::bits(&a.m)) % 300;
        let op = c.below(26);
        let small = a.m.len() + b.m.len() <= 30;
        let bz = b.is_zero();
        c.note(|| format!("#{} = op{} of #{}={} #{}={} k={}", st.len(), op, i, a.hex(), j, b.hex(), k));
        let r: (BigInt, I) = no_panic("program step", || match op {
            0 => (x + y, a.add(&b)),
            1 => (x - y, a.sub(&b)),
            2 if small => (x * y, a.mul(&b)),
            3 if small && !bz => (x / y, a.quo(&b)),
            4 if small && !bz => (x % y, a.rem(&b)),
            5 if small && !bz => (x.rem_euclid(y), a.divf(&b).1),
            6 if small && !bz => (x.div_euclid(y), a.divf(&b).0),
            7 => (x & y, a.bitop(&b, |p, q| p & q)),
            8 => (x | y, a.bitop(&b, |p, q| p | q)),
            9 => (x ^ y, a.bitop(&b, |p, q| p ^ q)),
            10 => (x.and_not(y), a.bitop(&b, |p, q| p & !q)),
            11 => (x << k, a.shl(k)),
            12 => (x >> k, a.shr_floor(k)),
            13 => (-x, a.neg()),
            14 => (!x, a.neg().sub(&I::from(1))),
            15 => (x.abs(), I::new(false, a.m.clone())),
            16 => { x.set_negative(); (x, I::new(true, a.m.clone())) }
            17 => { x.set_natural(); (x, I::new(false, a.m.clone())) }
            18 => { x += y; (x, a.add(&b)) }
            19 => { x -= y; (x, a.sub(&b)) }
            20 if small => { x *= y; (x, a.mul(&b)) }
            21 if small && !bz => { x /= y; (x, a.quo(&b)) }
            22 if small && !bz => { x %= y; (x, a.rem(&b)) }
            23 => { x >>= k; (x, a.shr_floor(k)) }
            24 => { let t = st[i].0.clone(); (t.clone() - t, I::zero()) }
            25 if small => (x.gcd(y).0, I::new(false, ora::gcd(&a.m, &b.m))),
            _ => (x, a.clone()),
        })?;
        eq_big("program step", &r.0, &r.1)?;
        st.push(r);
    }
    Ok(st)
}
fn int_cmp(c: &mut Ctx, x: &BigInt, a: &I, y: &BigInt, b: &I) -> R {
    let w = a.cmp(b);
    let g = no_panic("partial_cmp", || x.partial_cmp(y))?;
    ok(g == Some(w), || format!("partial_cmp of {} and {}: got {:?} want {:?}", a.hex(), b.hex(), g, w))?;
    let e = w == Ordering::Equal;
    ok((x == y) == e && (y == x) == e && (x != y) != e, || format!("== of {} and {} wrong", a.hex(), b.hex()))?;
    ok((x < y) == (w == Ordering::Less) && (x > y) == (w == Ordering::Greater) && (x <= y) == (w != Ordering::Greater) && (x >= y) == (w != Ordering::Less), || format!("order operators of {} and {} wrong", a.hex(), b.hex()))?;
    ok((format!("{:x}", x) == format!("{:x}", y)) == e, || "printing distinguishes equal values or confuses different ones".into())?;
    if e { ok(x.to_le_bytes() == y.to_le_bytes(), || "export distinguishes equal values".into())?; }
    let s = if a.neg { -1 } else if a.is_zero() { 0 } else { 1 };
    ok(x.signnum() == Some(s), || format!("signnum of {}: {:?}", a.hex(), x.signnum()))?;
    ok(x.is_negative() == (s < 0) && x.is_positive() == (s > 0) && x.is_natural() == (s >= 0), || format!("sign queries of {} wrong", a.hex()))?;
    eq_big("abs", &x.abs(), &I::new(false, a.m.clone()))?;
    let v = if c.chance(1, 2) { a.m.get(0).copied().unwrap_or(0) } else { c.limb() };
    let we = !a.neg && a.m == ora::u(v as u128);
    ok((*x == v) == we && (*x != v) != we, || format!("{} == {}u32 is {}", a.hex(), v, !we))
}
fn c22_history(c: &mut Ctx) -> R {
    let lm = c.lim(12, 100);
    let steps = 2 + c.size(lm);
    let st = int_program(c, steps)?;
    c.nontrivial();
    for _ in 0..6 {
        let i = c.below(st.len());
        let j = c.below(st.len());
        if st[i].1 == st[j].1 && i != j { c.label("equal results of different computations"); }
        if st[i].1.is_zero() { c.label("zero result"); }
        int_cmp(c, &st[i].0, &st[i].1, &st[j].0, &st[j].1)?;
    }
    Ok(())
}
fn c22_order(c: &mut Ctx) -> R {
    let lm = c.lim(10, 300);
    let (a, b) = pair(c, lm);
    c.note(|| format!("a={} b={}", a.hex(), b.hex()));
    signs(c, &a, &b);
    if a.m.len() == b.m.len() { c.nontrivial(); }
    int_cmp(c, &big(&a), &a, &big(&b), &b)
}

pub static PROPS: &[Prop] = &[
    Prop { id: "C14", rule: "two nonzero operands (addition, subtraction, multiplication) or a nonzero quotient (division)",
        laws: &[Law { name: "add_sub_neg_abs", weight: 3, run: c14_addsub }, Law { name: "mul", weight: 2, run: c14_mul }, Law { name: "div_rem", weight: 4, run: c14_div }],
        quick: 210_000, thorough: 9_360_000, assumptions: &["operands up to 30 / 20 / 8 words (add / mul / div) in the quick tier, 1000 / 300 / 60 in the thorough tier"] },
    Prop { id: "C15", rule: "nonzero dividend", laws: &[Law { name: "euclid", weight: 1, run: c15_euclid }],
        quick: 320_000, thorough: 6_600_000, assumptions: &["operands up to 8 words in the quick tier, 60 in the thorough tier"] },
    Prop { id: "C16", rule: "a negative operand; for shifts a nonzero operand and count",
        laws: &[Law { name: "bitwise", weight: 4, run: c16_ops }, Law { name: "shared", weight: 1, run: c16_shared }, Law { name: "shift", weight: 3, run: c16_shift }, Law { name: "bit_test", weight: 2, run: c16_bit }],
        quick: 3_700_000, thorough: 68_400_000, assumptions: &["operands up to 20 words in the quick tier, 600 in the thorough tier"] },
    Prop { id: "C17", rule: "a negative number, minus zero, malformed text, or a conversion",
        laws: &[Law { name: "format", weight: 3, run: c17_text }, Law { name: "parse", weight: 3, run: c17_parse }, Law { name: "malformed", weight: 2, run: c17_malformed }, Law { name: "strange", weight: 2, run: c17_strange }, Law { name: "conversions", weight: 2, run: c17_conv }],
        quick: 280_000, thorough: 6_480_000, assumptions: &["decimal formatting up to 10 words", "decimal text with redundant leading zeros and mixed sign prefixes such as '-+1' are not judged"] },
    Prop { id: "C18", rule: "nonzero operands",
        laws: &[Law { name: "gcd", weight: 3, run: c18_gcd }, Law { name: "inverse", weight: 2, run: c18_inverse }, Law { name: "linear", weight: 2, run: c18_linear }],
        quick: 390_000, thorough: 6_480_000, assumptions: &["operands up to 5 words in the quick tier, 40 in the thorough tier; solvable congruences with at most 3000 solutions", "the modular inverse is judged only for coprime operands and n > 1"] },
    Prop { id: "C19", rule: "nonzero base and exponent",
        laws: &[Law { name: "modular", weight: 4, run: c19_mod }, Law { name: "plain", weight: 1, run: c19_plain }],
        quick: 360_000, thorough: 6_480_000, assumptions: &["moduli up to 3 words in the quick tier, 16 in the thorough tier; negative exponents only with coprime base"] },
    Prop { id: "C20", rule: "a nonzero argument and n > 1, or a modular square root",
        laws: &[Law { name: "jacobi_small", weight: 4, run: c20_jacobi_small }, Law { name: "jacobi_tiny", weight: 1, run: c20_jacobi_tiny }, Law { name: "jacobi_large", weight: 1, run: c20_jacobi_big }, Law { name: "jacobi_any", weight: 2, run: c20_jacobi_any }, Law { name: "mod_sqrt", weight: 3, run: c20_sqrt }],
        quick: 26_000, thorough: 960_000, assumptions: &["odd n only (the symbol is not defined otherwise); p an odd prime below about 2^100, or one of 16 listed primes of up to 521 bits"] },
    Prop { id: "C21", rule: "a range of two or more factors, or k > 0",
        laws: &[Law { name: "mul_range", weight: 3, run: c21_range }, Law { name: "binomial", weight: 3, run: c21_binomial }],
        quick: 290_000, thorough: 18_000_000, assumptions: &["ranges of up to 90 factors in the quick tier, 1500 in the thorough tier; binomials with n up to 300, with k or n-k up to 20, or with n up to 1000 and k up to n + 401"] },
    Prop { id: "C22", rule: "a computation of at least two steps, or magnitudes of equal length",
        laws: &[Law { name: "history", weight: 3, run: c22_history }, Law { name: "order", weight: 2, run: c22_order }],
        quick: 570_000, thorough: 12_000_000, assumptions: &["programs of up to 14 steps in the quick tier, 102 in the thorough tier"] },
];
