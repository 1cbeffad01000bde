//! Generators of structured values.
use crate::engine::*;
use crate::ora::{self, U, I};

/// Sizes (in 32-bit words) at which implementations commonly switch algorithms.
pub fn gen_len(c: &mut Ctx, max: usize) -> usize {
    let max = max as u64;
    let long = c.long;
    c.raw(max, |r, d| {
        if long && r.chance(1, 2) { return r.upto(max); }
        let v = match r.upto(19) {
            0..=5 => 1 + r.upto(1),
            6..=11 => r.upto(6),
            12..=14 => r.upto(14),
            15 | 16 => r.upto(34),
            17 => { const T: [u64; 14] = [8, 16, 20, 32, 40, 64, 80, 100, 128, 160, 256, 260, 320, 520]; T[r.upto(13) as usize] + r.upto(4) - 2 }
            18 => if !d.is_empty() { (d[r.upto(d.len() as u64 - 1) as usize] % (max + 3)).wrapping_add(r.upto(2)).wrapping_sub(1) } else { r.upto(max) },
            _ => r.upto(max),
        };
        if v > max { r.upto(max.min(24)) } else { v }
    }) as usize
}

/// n words with a structured pattern (top word may be zero: caller trims)
pub fn gen_words(c: &mut Ctx, n: usize) -> Vec<u32> {
    let shape = c.weighted(&[6, 4, 3, 2, 2, 2, 1]);
    let mut v = vec![0u32; n];
    match shape {
        0 => for x in v.iter_mut() { *x = c.limb(); },
        1 => for x in v.iter_mut() { *x = c.upto(u32::MAX as u64) as u32; },
        2 => { // 2^k +- small
            if n > 0 {
                let k = c.upto(n as u64 * 32 - 1) as usize;
                let d = c.range(-3, 3);
                let p = ora::shl(&ora::u(1), k);
                let w = if d >= 0 { ora::add(&p, &ora::u(d as u128)) } else if ora::bits(&p) < 3 { p } else { ora::sub(&p, &ora::u((-d) as u128)) };
                for (i, x) in w.iter().enumerate() { if i < n { v[i] = *x; } }
            }
        }
        3 => { // runs of ones and zeros
            let total = n * 32;
            let mut i = 0;
            let mut on = c.chance(1, 2);
            while i < total {
                let run = 1 + c.size(80) as usize;
                if on { for b in i..(i + run).min(total) { v[b / 32] |= 1 << (b % 32); } }
                i += run;
                on = !on;
            }
        }
        4 => { // sparse
            if n > 0 {
                let k = c.size(4) + 1;
                for _ in 0..k { let p = c.below(n); v[p] = c.limb(); }
                if v[n - 1] == 0 { v[n - 1] = c.limb() | 1; }
            }
        }
        5 => { // dense with few exceptions
            for x in v.iter_mut() { *x = u32::MAX; }
            if n > 0 { let k = c.size(3); for _ in 0..k { let p = c.below(n); v[p] = c.limb(); } }
        }
        _ => { // one repeated word, periodic
            let p = 1 + c.below(3);
            let w: Vec<u32> = (0..p).map(|_| c.limb()).collect();
            for (i, x) in v.iter_mut().enumerate() { *x = w[i % p]; }
        }
    }
    v
}

pub fn gen_u(c: &mut Ctx, max: usize) -> U {
    let n = gen_len(c, max);
    let v = gen_words(c, n);
    ora::trim(v)
}
/// like gen_u but with the requested word count whenever possible (top word forced nonzero)
pub fn gen_u_exact(c: &mut Ctx, n: usize) -> U {
    let mut v = gen_words(c, n);
    if n > 0 && v[n - 1] == 0 { v[n - 1] = c.limb() | 1; }
    ora::trim(v)
}
pub fn gen_u_pos(c: &mut Ctx, max: usize) -> U {
    let v = gen_u(c, max.max(1));
    if v.is_empty() { ora::u(1) } else { v }
}
/// a value related to `a`
pub fn gen_related(c: &mut Ctx, a: &U, max: usize) -> U {
    match c.weighted(&[8, 1, 3, 2, 2, 2, 1, 1]) {
        0 => gen_u(c, max),
        1 => a.clone(),
        2 => { let d = ora::u(c.upto(3) as u128 + 1); if c.chance(1, 2) && ora::cmp(a, &d) != std::cmp::Ordering::Less { ora::sub(a, &d) } else { ora::add(a, &d) } }
        3 => { // same high part, other low part
            let mut b = a.clone();
            if !b.is_empty() { let k = c.below(b.len()) + 1; for i in 0..k { b[i] = c.limb(); } }
            ora::trim(b)
        }
        4 => { // one bit flipped
            if a.is_empty() { ora::u(1) } else { let mut b = a.clone(); let k = c.below(a.len() * 32); b[k / 32] ^= 1 << (k % 32); ora::trim(b) }
        }
        5 => { let k = c.size(70) as usize; if c.chance(1, 2) { ora::shl(a, k) } else { ora::shr(a, k) } }
        6 => { // complement to a power of two: carries all the way
            let p = ora::shl(&ora::u(1), ora::bits(a)); ora::sub(&p, a)
        }
        _ => { let mut b = a.clone(); let k = if b.is_empty() { 0 } else { c.below(b.len()) }; b.truncate(k); ora::trim(b) }
    }
}
pub fn gen_i(c: &mut Ctx, max: usize) -> I { let neg = c.chance(1, 2); let m = gen_u(c, max); I::new(neg, m) }
pub fn gen_i_related(c: &mut Ctx, a: &I, max: usize) -> I { let neg = c.chance(1, 2); let m = gen_related(c, &a.m, max); I::new(neg, m) }
/// shift counts: word multiples and their neighbours, the length of the operand and beyond
pub fn gen_shift(c: &mut Ctx, bits: usize) -> usize {
    let b = bits as u64;
    c.raw(20000, |r, _| match r.upto(8) {
        0 => r.upto(3),
        1 | 2 => r.upto(40),
        3 | 4 => { let k = r.upto(b / 32 + 3); (k * 32).wrapping_add(r.upto(2)).wrapping_sub(1) & 0xffff }
        5 => (b + r.upto(4)).saturating_sub(2),
        6 => r.upto(b + 70),
        7 => r.upto(8) * 32,
        _ => r.upto(300),
    }) as usize
}

// ---- text damage: characters that look like, or are handled like, the ones a number is written with
const DIGIT_ZEROS: [u32; 14] = [0x660, 0x6f0, 0x7c0, 0x966, 0x9e6, 0xe50, 0x17e0, 0x1810, 0xff10, 0x104a0, 0x1d7ce, 0x1d7d8, 0x1d7f6, 0x1fbf0];
const STRANGE: [char; 52] = [
    '\u{2212}', '\u{ff0d}', '\u{ff0b}', '\u{2010}', '\u{2011}', '\u{2013}', '\u{2014}', '\u{207b}', '\u{207a}', '\u{fe63}', '\u{fe62}', '\u{2795}', '\u{2796}', '\u{b1}',
    '\u{2044}', '\u{2215}', '\u{f7}', '\u{ff0f}', '\u{ff0e}', '\u{66b}', '\u{66c}', '\u{b7}', '\u{3002}', '\u{2024}', '\u{201a}',
    '\u{200b}', '\u{feff}', '\u{2060}', '\u{ad}', '\u{301}', '\u{20e3}', '\u{fe0f}', '\u{bd}', '\u{b2}', '\u{b9}', '\u{2070}', '\u{2080}', '\u{2460}', '\u{4e00}', '\u{221e}',
    '\u{435}', '\u{43e}', '\u{445}', '\u{3bf}', '\u{399}', '\u{ff58}', '\u{ff21}', '\u{ff45}', '\u{ff42}', '\u{80}', '\u{10ffff}', '\u{1f600}',
];
/// A character outside ASCII that is not white space: no number is written with one.
pub fn weird_char(c: &mut Ctx) -> char {
    let ch = match c.weighted(&[3, 4, 1]) {
        0 => char::from_u32(DIGIT_ZEROS[c.below(DIGIT_ZEROS.len())] + c.below(10) as u32).unwrap_or('\u{660}'),
        1 => STRANGE[c.below(STRANGE.len())],
        _ => char::from_u32(0x80 + c.upto(0x10ffff - 0x80) as u32).unwrap_or('\u{fffd}'),
    };
    if ch.is_whitespace() { '\u{2212}' } else { ch }
}
/// The same for a given ASCII character: something a reader takes for it.
fn lookalike(c: &mut Ctx, ch: char) -> char {
    match ch {
        '0'..='9' if c.chance(1, 2) => char::from_u32(DIGIT_ZEROS[c.below(DIGIT_ZEROS.len())] + (ch as u32 - 48)).unwrap(),
        '-' => ['\u{2212}', '\u{ff0d}', '\u{2010}', '\u{2011}', '\u{2013}', '\u{2014}', '\u{207b}', '\u{fe63}', '\u{2796}'][c.below(9)],
        '+' => ['\u{ff0b}', '\u{207a}', '\u{fe62}', '\u{2795}'][c.below(4)],
        '/' => ['\u{2044}', '\u{2215}', '\u{f7}', '\u{ff0f}'][c.below(4)],
        '.' => ['\u{ff0e}', '\u{66b}', '\u{b7}', '\u{2024}'][c.below(4)],
        '!'..='~' => char::from_u32(ch as u32 + 0xfee0).unwrap(),
        _ => weird_char(c),
    }
}
/// A good (ASCII) text with one character replaced by, or one inserted before or after, a
/// character outside ASCII that is not white space. Every place is used, the ends too.
pub fn strange_text(c: &mut Ctx, good: &str) -> String {
    let mut v: Vec<char> = good.chars().collect();
    let n = v.len();
    match c.weighted(&[2, 1, 1, 3]) {
        0 if n > 0 => { let i = c.below(n); v[i] = lookalike(c, v[i]); }
        1 => { let w = weird_char(c); v.insert(0, w); }
        2 => { let w = weird_char(c); v.push(w); }
        _ => { let i = c.below(n + 1); let w = weird_char(c); v.insert(i, w); }
    }
    v.into_iter().collect()
}
/// n decimal digits, made of runs: zeros, nines, one repeated digit, or arbitrary ones. Long runs of
/// zeros at either end are common.
pub fn gen_digits(c: &mut Ctx, n: usize) -> String {
    let mut s = String::with_capacity(n);
    if c.chance(1, 3) {
        for _ in 0..n { s.push((b'0' + c.raw(9, |r, _| match r.upto(3) { 0 => 0, 1 => 9, _ => r.upto(9) }) as u8) as char); }
        return s;
    }
    while s.len() < n {
        let left = n - s.len();
        let k = match c.below(4) { 0 => left, 1 => 1 + c.below(left), _ => (1 + c.size(8) as usize).min(left) };
        match c.weighted(&[4, 2, 1, 3]) {
            0 => s.extend(std::iter::repeat('0').take(k)),
            1 => s.extend(std::iter::repeat('9').take(k)),
            2 => { let d = (b'1' + c.below(9) as u8) as char; s.extend(std::iter::repeat(d).take(k)) }
            _ => for _ in 0..k.min(40) { s.push((b'0' + c.below(10) as u8) as char); },
        }
    }
    s
}

/// the low k bits
pub fn low_bits(a: &U, k: usize) -> U { ora::sub(a, &ora::shl(&ora::shr(a, k), k)) }
/// the inverse of an odd number modulo 2^t
pub fn inv_pow2(a: &U, t: usize) -> U {
    let (mut x, mut k) = (ora::u(1), 1);
    while k < t {
        k = (2 * k).min(t);
        let p = low_bits(&ora::mul(a, &x), k);
        let two = ora::add(&ora::shl(&ora::u(1), k), &ora::u(2));
        x = low_bits(&ora::mul(&x, &low_bits(&ora::sub(&two, &p), k)), k);
    }
    low_bits(&x, t)
}
/// n and d of at most t bits with n * 2^t = m * d + 1 (or - 1): the fraction n/d is as near to m / 2^t as one with such a denominator can be
pub fn near_ratio(m: &U, t: usize, above: bool) -> (U, U) {
    let i = inv_pow2(m, t);
    let d = if above { ora::sub(&ora::shl(&ora::u(1), t), &i) } else { i };
    let p = ora::mul(m, &d);
    (ora::shr(&if above { ora::add(&p, &ora::u(1)) } else { ora::sub(&p, &ora::u(1)) }, t), d)
}
