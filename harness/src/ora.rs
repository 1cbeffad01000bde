//! Reference arithmetic used as oracle: plain schoolbook algorithms on little-endian base-2^32
//! digits, written independently of the crate under test. Zero is the empty vector.
use std::cmp::Ordering;

pub type U = Vec<u32>;

pub fn trim(mut a: U) -> U { while a.last() == Some(&0) { a.pop(); } a }
pub fn u(x: u128) -> U { let mut v = Vec::new(); let mut x = x; while x > 0 { v.push(x as u32); x >>= 32; } v }

pub fn cmp(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() { return a.len().cmp(&b.len()); }
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    Ordering::Equal
}
pub fn add(a: &[u32], b: &[u32]) -> U {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 { r.push(c as u32); }
    trim(r)
}
/// a - b, a >= b
pub fn sub(a: &[u32], b: &[u32]) -> U {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if d < 0 { d += 1 << 32; br = 1 } else { br = 0 }
        r.push(d as u32);
    }
    assert!(br == 0 && b.len() <= a.len(), "oracle: negative difference");
    trim(r)
}
pub fn absdiff(a: &[u32], b: &[u32]) -> U { if cmp(a, b) == Ordering::Less { sub(b, a) } else { sub(a, b) } }
pub fn mul(a: &[u32], b: &[u32]) -> U {
    if a.is_empty() || b.is_empty() { return Vec::new(); }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        let x = a[i] as u64;
        if x == 0 { continue; }
        for j in 0..b.len() {
            let t = x * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}
pub fn mul1(a: &[u32], w: u32) -> U { mul(a, &u(w as u128)) }
pub fn bits(a: &[u32]) -> usize { match a.last() { None => 0, Some(&x) => a.len() * 32 - x.leading_zeros() as usize } }
pub fn bit(a: &[u32], i: usize) -> bool { a.get(i / 32).map_or(false, |w| (w >> (i % 32)) & 1 == 1) }
pub fn shl(a: &[u32], k: usize) -> U {
    if a.is_empty() { return Vec::new(); }
    let mut r = vec![0u32; k / 32];
    let s = k % 32;
    let mut c = 0u64;
    for &x in a { let t = ((x as u64) << s) | c; r.push(t as u32); c = t >> 32; }
    r.push(c as u32);
    trim(r)
}
pub fn shr(a: &[u32], k: usize) -> U {
    let w = k / 32;
    if w >= a.len() { return Vec::new(); }
    let s = k % 32;
    let mut r = Vec::with_capacity(a.len() - w);
    for i in w..a.len() {
        let hi = *a.get(i + 1).unwrap_or(&0) as u64;
        r.push(((((hi << 32) | a[i] as u64) >> s) & 0xffff_ffff) as u32);
    }
    trim(r)
}
pub fn divrem1(a: &[u32], w: u32) -> (U, u32) {
    let mut r = 0u64;
    let mut q = vec![0; a.len()];
    for i in (0..a.len()).rev() { let t = (r << 32) | a[i] as u64; q[i] = (t / w as u64) as u32; r = t % w as u64; }
    (trim(q), r as u32)
}
/// Knuth's algorithm D; the result is verified against the defining equation before it is returned.
pub fn divrem(a: &[u32], d: &[u32]) -> (U, U) {
    assert!(!d.is_empty(), "oracle: division by zero");
    if cmp(a, d) == Ordering::Less { return (Vec::new(), a.to_vec()); }
    if d.len() == 1 { let (q, r) = divrem1(a, d[0]); return (q, u(r as u128)); }
    let s = d.last().unwrap().leading_zeros() as usize;
    let v = shl(d, s);
    let mut x = shl(a, s);
    x.resize(a.len() + 1, 0);
    let n = v.len();
    let m = x.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let num = ((x[j + n] as u64) << 32) | x[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | x[j + n - 2] as u64) {
            qh -= 1; rh += v[n - 1] as u64;
            if rh >= 1 << 32 { break; }
        }
        let mut br = 0i64; let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c; c = p >> 32;
            let t = x[i + j] as i64 - br - (p & 0xffff_ffff) as i64;
            x[i + j] = t as u32; br = if t < 0 { 1 } else { 0 };
        }
        let t = x[j + n] as i64 - br - c as i64;
        x[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n { let t = x[i + j] as u64 + v[i] as u64 + c; x[i + j] = t as u32; c = t >> 32; }
            x[j + n] = x[j + n].wrapping_add(c as u32);
        }
        q[j] = qh as u32;
    }
    let q = trim(q);
    x.truncate(n);
    let r = shr(&trim(x), s);
    assert!(cmp(&r, d) == Ordering::Less && add(&mul(&q, d), &r) == a, "oracle: division self-check failed");
    (q, r)
}
pub fn rem(a: &[u32], d: &[u32]) -> U { divrem(a, d).1 }
pub fn div(a: &[u32], d: &[u32]) -> U { divrem(a, d).0 }
pub fn pow(a: &[u32], n: u64) -> U { let mut r = u(1); for i in (0..64).rev() { r = mul(&r, &r); if n >> i & 1 == 1 { r = mul(&r, a); } } r }
pub fn modpow(a: &[u32], e: &[u32], n: &[u32]) -> U {
    let mut r = rem(&u(1), n);
    let a = rem(a, n);
    for i in (0..bits(e)).rev() { r = rem(&mul(&r, &r), n); if bit(e, i) { r = rem(&mul(&r, &a), n); } }
    r
}
pub fn gcd(a: &[u32], b: &[u32]) -> U {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    while !b.is_empty() { let r = rem(&a, &b); a = b; b = r; }
    a
}
pub fn bitop(a: &[u32], b: &[u32], f: fn(u32, u32) -> u32) -> U {
    let n = a.len().max(b.len());
    trim((0..n).map(|i| f(*a.get(i).unwrap_or(&0), *b.get(i).unwrap_or(&0))).collect())
}
pub fn tz(a: &[u32]) -> usize { for (i, &w) in a.iter().enumerate() { if w != 0 { return i * 32 + w.trailing_zeros() as usize; } } 0 }
/// floor square root, bit by bit
pub fn isqrt(n: &[u32]) -> U {
    let b = bits(n);
    let mut r: U = Vec::new();
    let mut x = n.to_vec();
    // digit-by-digit method
    let mut i = (b + 1) / 2;
    while i > 0 {
        i -= 1;
        // t = (2r + 2^i) * 2^i where r holds the root so far scaled
        let t = shl(&add(&shl(&r, 1), &shl(&u(1), i)), i);
        if cmp(&x, &t) != Ordering::Less { x = sub(&x, &t); r = add(&r, &shl(&u(1), i)); }
    }
    r
}
pub fn to_radix(a: &[u32], radix: u32) -> String {
    if a.is_empty() { return "0".into(); }
    let mut s = Vec::new();
    let mut x = a.to_vec();
    while !x.is_empty() {
        let (q, r) = divrem1(&x, radix);
        s.push(std::char::from_digit(r, radix).unwrap());
        x = q;
    }
    s.iter().rev().collect()
}
pub fn dec(a: &[u32]) -> String {
    if a.is_empty() { return "0".into(); }
    let mut parts = Vec::new();
    let mut x = a.to_vec();
    while !x.is_empty() { let (q, r) = divrem1(&x, 1_000_000_000); parts.push(r); x = q; }
    let mut s = parts.pop().unwrap().to_string();
    for p in parts.iter().rev() { s.push_str(&format!("{:09}", p)); }
    s
}
pub fn hex(a: &[u32]) -> String {
    if a.is_empty() { return "0".into(); }
    let mut s = format!("{:x}", a[a.len() - 1]);
    for w in a.iter().rev().skip(1) { s.push_str(&format!("{:08x}", w)); }
    s
}
pub fn parse_radix(s: &str, radix: u32) -> U {
    let mut r: U = Vec::new();
    for c in s.chars() { r = add(&mul1(&r, radix), &u(c.to_digit(radix).unwrap() as u128)); }
    r
}
/// Montgomery-free modular multiplication on u128-sized values is not needed: primality for small n.
pub fn mulmod64(a: u64, b: u64, m: u64) -> u64 { ((a as u128 * b as u128) % m as u128) as u64 }
pub fn powmod64(a: u64, e: u64, m: u64) -> u64 {
    let mut r = 1 % m; let mut b = a % m; let mut e = e;
    while e > 0 { if e & 1 == 1 { r = mulmod64(r, b, m); } b = mulmod64(b, b, m); e >>= 1; }
    r
}
/// deterministic for all n < 2^64
pub fn is_prime64(n: u64) -> bool {
    if n < 2 { return false; }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] { if n % p == 0 { return n == p; } }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 { d /= 2; s += 1; }
    'a: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod64(a, d, n);
        if x == 1 || x == n - 1 { continue; }
        for _ in 0..s - 1 { x = mulmod64(x, x, n); if x == n - 1 { continue 'a; } }
        return false;
    }
    true
}
/// strong probable prime to the first 30 prime bases (for reference on larger numbers)
pub fn is_prime_big(n: &[u32]) -> bool {
    if n.len() <= 2 { return is_prime64(n.iter().rev().fold(0u64, |a, &w| (a << 32) | w as u64)); }
    const B: [u32; 30] = [2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113];
    for &p in B.iter() { if divrem1(n, p).1 == 0 { return false; } }
    let n1 = sub(n, &u(1));
    let s = tz(&n1);
    let d = shr(&n1, s);
    'a: for &a in B.iter() {
        let mut x = modpow(&u(a as u128), &d, n);
        if x == u(1) || x == n1 { continue; }
        for _ in 0..s - 1 { x = rem(&mul(&x, &x), n); if x == n1 { continue 'a; } }
        return false;
    }
    true
}

// ------------------------------------------------------------------ signed integers
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct I { pub neg: bool, pub m: U }
impl I {
    pub fn new(neg: bool, m: U) -> I { let m = trim(m); I { neg: neg && !m.is_empty(), m } }
    pub fn from(x: i128) -> I { I::new(x < 0, u(x.unsigned_abs())) }
    pub fn zero() -> I { I { neg: false, m: Vec::new() } }
    pub fn is_zero(&self) -> bool { self.m.is_empty() }
    pub fn neg(&self) -> I { I::new(!self.neg, self.m.clone()) }
    pub fn add(&self, o: &I) -> I {
        if self.neg == o.neg { I::new(self.neg, add(&self.m, &o.m)) }
        else if cmp(&self.m, &o.m) == Ordering::Less { I::new(o.neg, sub(&o.m, &self.m)) }
        else { I::new(self.neg, sub(&self.m, &o.m)) }
    }
    pub fn sub(&self, o: &I) -> I { self.add(&o.neg()) }
    pub fn mul(&self, o: &I) -> I { I::new(self.neg != o.neg, mul(&self.m, &o.m)) }
    pub fn cmp(&self, o: &I) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp(&self.m, &o.m),
            (true, true) => cmp(&o.m, &self.m),
        }
    }
    pub fn quo(&self, o: &I) -> I { I::new(self.neg != o.neg, div(&self.m, &o.m)) }
    pub fn rem(&self, o: &I) -> I { I::new(self.neg, rem(&self.m, &o.m)) }
    pub fn divf(&self, o: &I) -> (I, I) { // euclidean
        let (q, r) = (self.quo(o), self.rem(o));
        if r.neg { if o.neg { (q.add(&I::from(1)), r.sub(o)) } else { (q.sub(&I::from(1)), r.add(o)) } } else { (q, r) }
    }
    /// two's complement words, `n` words long
    pub fn twos(&self, n: usize) -> Vec<u32> {
        let mut w = self.m.clone();
        assert!(w.len() < n);
        w.resize(n, 0);
        if self.neg {
            let mut c = 1u64;
            for x in w.iter_mut() { let t = (!*x) as u64 + c; *x = t as u32; c = t >> 32; }
        }
        w
    }
    pub fn from_twos(w: &[u32]) -> I {
        if w.last().unwrap() >> 31 == 1 {
            let mut v = w.to_vec();
            let mut c = 1u64;
            for x in v.iter_mut() { let t = (!*x) as u64 + c; *x = t as u32; c = t >> 32; }
            I::new(true, trim(v))
        } else { I::new(false, trim(w.to_vec())) }
    }
    pub fn bitop(&self, o: &I, f: fn(u32, u32) -> u32) -> I {
        let n = self.m.len().max(o.m.len()) + 1;
        let (a, b) = (self.twos(n), o.twos(n));
        I::from_twos(&(0..n).map(|i| f(a[i], b[i])).collect::<Vec<_>>())
    }
    pub fn dec(&self) -> String { format!("{}{}", if self.neg { "-" } else { "" }, dec(&self.m)) }
    pub fn hex(&self) -> String { format!("{}0x{}", if self.neg { "-" } else { "" }, hex(&self.m)) }
    pub fn shl(&self, k: usize) -> I { I::new(self.neg, shl(&self.m, k)) }
    /// floor(self / 2^k)
    pub fn shr_floor(&self, k: usize) -> I {
        let q = I::new(self.neg, shr(&self.m, k));
        if self.neg && shl(&q.m, k) != self.m { q.sub(&I::from(1)) } else { q }
    }
}

/// Jacobi symbol by definition through the Legendre symbol is slow; this is the textbook algorithm on u64.
pub fn jacobi64(a: i64, n: u64) -> i32 {
    assert!(n % 2 == 1);
    let mut a = ((a as i128).rem_euclid(n as i128)) as u64;
    let mut n = n;
    let mut r = 1;
    while a != 0 {
        while a % 2 == 0 { a /= 2; if n % 8 == 3 || n % 8 == 5 { r = -r; } }
        std::mem::swap(&mut a, &mut n);
        if a % 4 == 3 && n % 4 == 3 { r = -r; }
        a %= n;
    }
    if n == 1 { r } else { 0 }
}

/// (a | n) for odd n > 0 of any length, by quadratic reciprocity
pub fn jacobi_big(a: &I, n: &U) -> isize {
    assert!(n[0] & 1 == 1);
    let mut a = a.divf(&I::new(false, n.clone())).1.m;
    let mut n = n.clone();
    let mut r = 1;
    while !a.is_empty() {
        let t = tz(&a);
        a = shr(&a, t);
        if t % 2 == 1 && (n[0] % 8 == 3 || n[0] % 8 == 5) { r = -r; }
        std::mem::swap(&mut a, &mut n);
        if a[0] % 4 == 3 && n[0] % 4 == 3 { r = -r; }
        a = rem(&a, &n);
    }
    if n == u(1) { r } else { 0 }
}

// ------------------------------------------------------------------ rationals
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Q { pub n: I, pub d: U }
impl Q {
    pub fn new(n: I, d: U) -> Q {
        assert!(!d.is_empty());
        let g = gcd(&n.m, &d);
        Q { n: I::new(n.neg, div(&n.m, &g)), d: div(&d, &g) }
    }
    pub fn int(n: I) -> Q { Q { n, d: u(1) } }
    pub fn add(&self, o: &Q) -> Q { Q::new(I::new(self.n.neg, mul(&self.n.m, &o.d)).add(&I::new(o.n.neg, mul(&o.n.m, &self.d))), mul(&self.d, &o.d)) }
    pub fn neg(&self) -> Q { Q { n: self.n.neg(), d: self.d.clone() } }
    pub fn sub(&self, o: &Q) -> Q { self.add(&o.neg()) }
    pub fn mul(&self, o: &Q) -> Q { Q::new(self.n.mul(&o.n), mul(&self.d, &o.d)) }
    pub fn div(&self, o: &Q) -> Q { Q::new(I::new(self.n.neg != o.n.neg, mul(&self.n.m, &o.d)), mul(&self.d, &o.n.m)) }
    pub fn cmp(&self, o: &Q) -> Ordering { I::new(self.n.neg, mul(&self.n.m, &o.d)).cmp(&I::new(o.n.neg, mul(&o.n.m, &self.d))) }
    pub fn txt(&self) -> String { format!("{}/{}", self.n.dec(), dec(&self.d)) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
}

pub fn selftest() -> i32 {
    use crate::engine::Rng;
    let mut r = Rng::new(42);
    let rv = |r: &mut Rng, n: u64| -> U { trim((0..r.upto(n)).map(|_| match r.upto(3) { 0 => 0, 1 => u32::MAX, _ => r.next() as u32 }).collect()) };
    for _ in 0..20000 {
        let (a, b, c) = (rv(&mut r, 12), rv(&mut r, 12), rv(&mut r, 6));
        assert_eq!(sub(&add(&a, &b), &b), a);
        assert_eq!(mul(&a, &add(&b, &c)), add(&mul(&a, &b), &mul(&a, &c)));
        assert_eq!(mul(&a, &b), mul(&b, &a));
        if !b.is_empty() { divrem(&a, &b); }
        let s = isqrt(&a);
        let s1 = add(&s, &u(1));
        assert!(cmp(&mul(&s, &s), &a) != Ordering::Greater && cmp(&mul(&s1, &s1), &a) == Ordering::Greater);
        let k = r.upto(100) as usize;
        assert_eq!(shl(&a, k), mul(&a, &pow(&u(2), k as u64)));
        assert_eq!(shr(&a, k), div(&a, &pow(&u(2), k as u64)));
        assert_eq!(parse_radix(&dec(&a), 10), a);
        assert_eq!(to_radix(&a, 10), dec(&a));
        assert_eq!(parse_radix(&hex(&a), 16), a);
        let x = I::new(r.chance(1, 2), a.clone());
        assert_eq!(I::from_twos(&x.twos(a.len() + 1)), x);
    }
    for _ in 0..20000 {
        let (a, b) = (r.next() as i64 as i128, (r.next() >> r.upto(63)) as i64 as i128);
        let (x, y) = (I::from(a), I::from(b));
        assert_eq!(x.add(&y), I::from(a + b)); assert_eq!(x.sub(&y), I::from(a - b)); assert_eq!(x.mul(&y), I::from(a * b));
        if b != 0 {
            assert_eq!(x.quo(&y), I::from(a / b)); assert_eq!(x.rem(&y), I::from(a % b));
            assert_eq!(x.divf(&y), (I::from(a.div_euclid(b)), I::from(a.rem_euclid(b))));
        }
        assert_eq!(x.bitop(&y, |p, q| p & q), I::from(a & b)); assert_eq!(x.bitop(&y, |p, q| p | q), I::from(a | b));
        assert_eq!(x.bitop(&y, |p, q| p ^ q), I::from(a ^ b));
        assert_eq!(x.shr_floor(7), I::from(a >> 7));
        assert_eq!(x.dec(), a.to_string());
        assert_eq!(x.cmp(&y), a.cmp(&b));
    }
    assert!(is_prime_big(&sub(&shl(&u(1), 127), &u(1))) && !is_prime_big(&sub(&shl(&u(1), 129), &u(1))));
    println!("oracle self-test passed");
    0
}
