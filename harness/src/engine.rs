//! Choice-sequence property-testing engine.
//!
//! A case is a pure function of a sequence of u64 choices. Generation records the choices by value,
//! replay feeds them back, shrinking edits the sequence. All randomness comes from VERIF_SEED.
use crate::alloc::CORRUPT;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX { return self.next(); }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.upto(den - 1) < num }
}

pub struct Ctx {
    script: Vec<u64>,
    pos: usize,
    /// when the script is exhausted: true = draw from rng, false = return 0 (shrinking / replay)
    tail_random: bool,
    pub rec: Vec<u64>,
    rng: Rng,
    hash: u64,
    pub interesting: bool,
    pub labels: Vec<&'static str>,
    pub want_notes: bool,
    pub notes: Vec<String>,
    pub tier_thorough: bool,
    /// this case asks for long operands
    pub long: bool,
    pub discarded: bool,
    pub dump: Option<std::fs::File>,
    pub overrun: bool,
    /// constants observed in the code under test (see sancov), used as proposals only
    pub dict: std::rc::Rc<RefCell<Vec<u64>>>,
}

const MAX_CHOICES: usize = 200_000;

impl Ctx {
    pub fn new(script: Vec<u64>, tail_random: bool, seed: u64, dict: std::rc::Rc<RefCell<Vec<u64>>>) -> Ctx {
        Ctx { script, pos: 0, tail_random, rec: Vec::new(), rng: Rng::new(seed), hash: 0x1234_5678_9abc_def1, interesting: false,
            labels: Vec::new(), want_notes: false, notes: Vec::new(), tier_thorough: false, long: false, discarded: false, dump: None, overrun: false, dict }
    }
    /// The only primitive draw: a value in 0..=max; `prop` proposes a value when generating.
    pub fn raw<F: FnOnce(&mut Rng, &[u64]) -> u64>(&mut self, max: u64, prop: F) -> u64 {
        let v = if self.pos < self.script.len() {
            let v = self.script[self.pos];
            if v > max { if max == u64::MAX { v } else { v % (max + 1) } } else { v }
        } else if self.tail_random && self.rec.len() < MAX_CHOICES {
            let d = self.dict.borrow();
            let v = prop(&mut self.rng, &d);
            if v > max { v % (max + 1) } else { v }
        } else {
            if self.rec.len() >= MAX_CHOICES { self.overrun = true; }
            0
        };
        self.pos += 1;
        if self.rec.len() < MAX_CHOICES { self.rec.push(v); }
        if let Some(f) = self.dump.as_mut() {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.hash = (self.hash ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
        v
    }
    pub fn upto(&mut self, max: u64) -> u64 { self.raw(max, |r, _| r.upto(max)) }
    /// uniform 0..n
    pub fn below(&mut self, n: usize) -> usize { self.upto(n as u64 - 1) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a.wrapping_add(self.upto((b as i128 - a as i128) as u64) as i64) }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.raw(1, |r, _| r.chance(num, den) as u64) == 1 }
    /// index with weights; shrinks to 0
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        self.raw(w.len() as u64 - 1, |r, _| {
            let mut x = r.upto(total as u64 - 1) as u32;
            for (i, &k) in w.iter().enumerate() { if x < k { return i as u64; } x -= k; }
            0
        }) as usize
    }
    /// small-biased size in 0..=max
    pub fn size(&mut self, max: u64) -> u64 {
        self.raw(max, |r, d| {
            let v = match r.upto(9) {
                0..=3 => r.upto(max.min(3)),
                4..=6 => r.upto(max.min(12)),
                7 => r.upto(max.min(40)),
                8 => if !d.is_empty() && r.chance(1, 3) { d[r.upto(d.len() as u64 - 1) as usize].wrapping_add(r.upto(2)).wrapping_sub(1) } else { r.upto(max) },
                _ => r.upto(max),
            };
            if v > max { r.upto(max) } else { v }
        })
    }
    /// boundary-biased u32
    pub fn limb(&mut self) -> u32 {
        self.raw(u32::MAX as u64, |r, d| prop_limb(r, d)) as u32
    }
    /// boundary-biased u64
    pub fn word64(&mut self) -> u64 {
        self.raw(u64::MAX, |r, d| match r.upto(7) {
            0 => r.upto(3),
            1 => u64::MAX - r.upto(3),
            2 => { let k = r.upto(63); (1u64 << k).wrapping_add(r.upto(2)).wrapping_sub(1) }
            3 => prop_limb(r, d),
            4 => (prop_limb(r, d) << 32) | prop_limb(r, d),
            5 => if d.is_empty() { r.next() } else { d[r.upto(d.len() as u64 - 1) as usize].wrapping_add(r.upto(2)).wrapping_sub(1) },
            6 => r.next() >> r.upto(63),
            _ => r.next(),
        })
    }
    /// A size limit: the quick or the thorough one. A quick case takes the thorough limit now and
    /// then; such a case also prefers long operands.
    pub fn lim<T: Copy>(&mut self, quick: T, thorough: T) -> T {
        let den = if self.tier_thorough { 12 } else { 80 };
        if self.long || self.chance(1, den) { self.long = true; return thorough; }
        if self.tier_thorough { thorough } else { quick }
    }
    pub fn u64(&mut self) -> u64 { self.upto(u64::MAX) }
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn nontrivial(&mut self) { self.interesting = true; }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_notes && self.notes.len() < 400 {
            let mut s = f();
            if s.len() > 4000 { s.truncate(4000); s.push_str("..."); }
            self.notes.push(s);
        }
    }
    pub fn discard(&mut self) -> R { self.discarded = true; Ok(()) }
}

fn prop_limb(r: &mut Rng, d: &[u64]) -> u64 {
    match r.upto(11) {
        0 | 1 => 0,
        2 => r.upto(3),
        3 | 4 => u32::MAX as u64,
        5 => u32::MAX as u64 - r.upto(3),
        6 => { let k = r.upto(31); (1u64 << k).wrapping_add(r.upto(2)).wrapping_sub(1) & 0xffff_ffff }
        7 => if d.is_empty() { r.upto(u32::MAX as u64) } else { d[r.upto(d.len() as u64 - 1) as usize].wrapping_add(r.upto(2)).wrapping_sub(1) & 0xffff_ffff },
        8 => r.upto(255),
        _ => r.upto(u32::MAX as u64),
    }
}

pub struct Law {
    pub name: &'static str,
    pub weight: u32,
    pub run: fn(&mut Ctx) -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub laws: &'static [Law],
    /// total number of cases
    pub quick: u64,
    pub thorough: u64,
    pub assumptions: &'static [&'static str],
}

pub enum Outcome { Pass, Discard, Fail(String) }

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut m = m; if m.len() > 600 { let mut k = 600; while !m.is_char_boundary(k) { k -= 1; } m.truncate(k); }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", m, l)));
    }));
}

/// Runs f, returning Err(message) if it panicked.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(law: &Law, c: &mut Ctx) -> Outcome {
    CORRUPT.store(false, Ordering::SeqCst);
    let r = guard(|| (law.run)(c));
    let corrupt = CORRUPT.swap(false, Ordering::SeqCst);
    match r {
        Ok(Ok(())) if corrupt => Outcome::Fail("heap canary overwritten: a write outside an allocation".into()),
        Ok(Ok(())) => if c.discarded { Outcome::Discard } else { Outcome::Pass },
        Ok(Err(m)) => Outcome::Fail(m),
        Err(m) => Outcome::Fail(format!("unexpected panic: {}", m)),
    }
}

pub fn case_seed(seed: u64, prop: &str, law: usize, idx: u64) -> u64 {
    let mut h = seed ^ 0xA5A5_5A5A_DEAD_BEEF;
    for b in prop.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h ^= (law as u64) << 48;
    let mut x = h;
    let a = splitmix(&mut x);
    let mut y = a ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut y)
}

/// Shrinks `seq` while `fails` holds; bounded number of trials.
pub fn shrink<F: FnMut(&[u64]) -> Option<Vec<u64>>>(seq: Vec<u64>, mut budget: usize, mut fails: F) -> Vec<u64> {
    let mut best = seq;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt { ($cand:expr) => {{
        if budget == 0 { return best; }
        budget -= 1;
        let cand: Vec<u64> = $cand;
        match fails(&cand) {
            Some(actual) => if better(&actual, &best) { best = actual; true } else { false },
            None => false,
        }
    }}}
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + k <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + k);
                if !attempt!(cand) { i += k.max(1); }
            }
            if k == 1 { break; }
            k /= 2;
        }
        // zero chunks
        for k in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..i + k] { *x = 0; }
                    attempt!(cand);
                }
                i += k;
            }
        }
        // minimise single values; also try decrement with deletion of a following element (lengths)
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                // lower with deletion at a few later positions
                let mut done = false;
                for j in (i + 1)..(i + 9).min(best.len()) {
                    let mut cand = best.clone();
                    cand[i] = v - 1;
                    cand.remove(j);
                    if attempt!(cand) { done = true; break; }
                }
                if !done {
                    let (mut lo, mut hi) = (0u64, v); // hi fails
                    while lo < hi {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() { break; }
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt!(cand) { hi = mid; } else { lo = mid + 1; }
                        if i >= best.len() || best[i] < lo { break; }
                    }
                }
            }
            i += 1;
        }
        if best == before { return best; }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub discards: u64,
    pub nontrivial: u64,
    pub hashes: std::collections::HashSet<u64>,
    pub cut: bool, pub hash_capped: bool,
    pub labels: BTreeMap<String, u64>,
    pub law_evals: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
}

impl Ctx {
    pub fn hash(&self) -> u64 { self.hash }
}

const HASH_CAP: usize = 6_000_000;

impl Stats {
    pub fn record(&mut self, law: &Law, c: &Ctx, o: &Outcome) {
        self.evals += 1;
        *self.law_evals.entry(law.name.to_string()).or_insert(0) += 1;
        if let Outcome::Discard = o { self.discards += 1; return; }
        let mut ls: Vec<&'static str> = c.labels.clone();
        ls.sort(); ls.dedup();
        for l in ls { *self.labels.entry(format!("{}:{}", law.name, l)).or_insert(0) += 1; }
        if c.interesting {
            self.nontrivial += 1;
            if self.hashes.len() < HASH_CAP {
                let mut h = c.hash();
                for b in law.name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                self.hashes.insert(h);
            } else { self.hash_capped = true; }
        }
    }
}
