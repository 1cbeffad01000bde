mod alloc;
mod engine;
mod sancov;
mod ora;
mod gen;
mod common;
mod p_nat;
mod p_int;
mod p_hist;
mod p_rat;
mod p_float;
mod p_rand;
mod p_err;

use engine::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = Vec::new();
    v.extend(p_nat::PROPS.iter());
    v.extend(p_hist::PROPS.iter());
    v.extend(p_int::PROPS.iter());
    v.extend(p_rat::PROPS.iter());
    v.extend(p_float::PROPS.iter());
    v.extend(p_rand::PROPS.iter());
    v.extend(p_err::PROPS.iter());
    v
}
fn find(id: &str) -> &'static Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

fn limits(cpu: Option<u64>) {
    unsafe {
        let mem = [6u64 << 30, 6u64 << 30];
        setrlimit(RLIMIT_AS, &mem);
        setrlimit(RLIMIT_CORE, &[0, 0]);
        if let Some(s) = cpu { setrlimit(RLIMIT_CPU, &[s, s + 5]); }
    }
}
/// CPU seconds one case may use before it counts as non-terminating (typical cases use microseconds
/// to milliseconds of CPU). Measured in CPU time, so machine load does not matter.
const CASE_CPU: u64 = 20;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex_choices(v: &[u64]) -> String { v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ") }

struct Failure { law: usize, choices: Vec<u64>, msg: String }

fn render(p: &Prop, law: usize, choices: &[u64], thorough: bool) -> (Option<String>, Vec<String>) {
    let mut c = Ctx::new(choices.to_vec(), false, 0, Rc::new(RefCell::new(Vec::new())));
    c.want_notes = true;
    c.tier_thorough = thorough;
    let o = run_case(&p.laws[law], &mut c);
    (match o { Outcome::Fail(m) => Some(m), _ => None }, c.notes)
}

fn write_replay(path: &Path, p: &Prop, f: &Failure, seed: u64, tier: &str, notes: &[String], how: &str) {
    let mut s = String::new();
    s.push_str(&format!("property {}\nlaw {}\ntier {}\nseed {}\nhow {}\nchoices {}\n", p.id, p.laws[f.law].name, tier, seed, how, hex_choices(&f.choices)));
    s.push_str(&format!("message {}\n", f.msg.replace('\n', " | ")));
    for n in notes { s.push_str(&format!("# {}\n", n.replace('\n', " | "))); }
    s.push_str("# replay: /verif/run.sh replay <this file>\n");
    let _ = fs::create_dir_all(path.parent().unwrap());
    let _ = fs::write(path, s);
}

// ---------------------------------------------------------------- worker

fn wheel(p: &Prop) -> Vec<usize> {
    let mut w = Vec::new();
    for (i, l) in p.laws.iter().enumerate() { for _ in 0..l.weight { w.push(i); } }
    w
}

fn law_of(p: &Prop, wheel: &[usize], j: u64) -> usize {
    let mut x = j ^ 0x5bd1e995;
    for b in p.id.bytes() { x = x.wrapping_mul(31).wrapping_add(b as u64); }
    wheel[(splitmix(&mut x) % wheel.len() as u64) as usize]
}

struct Corpus { items: Vec<Vec<u64>> }

fn mutate(rng: &mut Rng, corp: &Corpus, dict: &[u64]) -> Vec<u64> {
    // favour recent entries
    let n = corp.items.len() as u64;
    let i = if rng.chance(1, 2) { n - 1 - rng.upto((n - 1).min(7)) } else { rng.upto(n - 1) };
    let mut v = corp.items[i as usize].clone();
    let k = 1 + rng.upto(3);
    for _ in 0..k {
        if v.is_empty() { break; }
        let p = rng.upto(v.len() as u64 - 1) as usize;
        match rng.upto(9) {
            0 => v[p] = 0,
            1 => v[p] = v[p].wrapping_add(1),
            2 => v[p] = v[p].wrapping_sub(1),
            3 => v[p] = rng.next(),
            4 => v[p] ^= 1 << rng.upto(63),
            5 => v[p] = if dict.is_empty() { rng.upto(64) } else { dict[rng.upto(dict.len() as u64 - 1) as usize] },
            6 => { let e = (p + 1 + rng.upto(4) as usize).min(v.len()); v.drain(p..e); }
            7 => { let e = (p + 1 + rng.upto(4) as usize).min(v.len()); let s: Vec<u64> = v[p..e].to_vec(); for (q, x) in s.into_iter().enumerate() { v.insert(p + q, x); } }
            8 => { let o = &corp.items[rng.upto(n - 1) as usize]; if !o.is_empty() { let q = rng.upto(o.len() as u64 - 1) as usize; v.truncate(p); v.extend_from_slice(&o[q..]); } }
            _ => { v.truncate(p); }
        }
    }
    v
}

fn worker(p: &'static Prop, seed: u64, tier: &str, i: u64, n: u64, cases: u64, dir: &Path) -> i32 {
    limits(None);
    install_hook();
    let thorough = tier == "thorough";
    let wheel = wheel(p);
    let mut cur = fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("cur.{}", i))).unwrap();
    let mut st = Stats::default();
    let dict = Rc::new(RefCell::new(Vec::new()));
    let mut dict_used = 0;
    let mut seen: Vec<Vec<u8>> = vec![Vec::new(); p.laws.len()];
    let mut corp: Vec<Corpus> = (0..p.laws.len()).map(|_| Corpus { items: Vec::new() }).collect();
    let mut guided = 0u64;
    let mut per_law_samples: BTreeMap<usize, u32> = BTreeMap::new();
    let dump_at: Option<(u64, String)> = std::env::var("VERIF_DUMP").ok().and_then(|s| s.split_once(':').map(|(a, b)| (a.parse().unwrap(), b.to_string())));
    // development aid: report cases slower than this many milliseconds
    let slow: Option<u64> = std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok());
    let mut j = i;
    let mut status = 0;
    let start = Instant::now();
    let limit = Duration::from_secs(std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 }));
    while j < cases {
        // slow code or a slow machine shortens the exploration (reported in the evidence), it never fails the check
        if dump_at.is_none() && start.elapsed() > limit { st.cut = true; break; }
        let law = law_of(p, &wheel, j);
        let cs = case_seed(seed, p.id, law, j);
        let mut mrng = Rng::new(cs ^ 0x77);
        let use_corpus = !corp[law].items.is_empty() && mrng.chance(2, 5);
        let script = if use_corpus { guided += 1; mutate(&mut mrng, &corp[law], &dict.borrow()) } else { Vec::new() };
        // record what is about to run: case number, then the script (if any) so that a crash can be replayed
        let _ = cur.seek(SeekFrom::Start(0));
        let mut buf = Vec::with_capacity(32 + script.len() * 8);
        buf.extend_from_slice(&(j + 1).to_le_bytes());
        buf.extend_from_slice(&(law as u64).to_le_bytes());
        buf.extend_from_slice(&(script.len() as u64).to_le_bytes());
        for x in &script { buf.extend_from_slice(&x.to_le_bytes()); }
        let _ = cur.write_all(&buf);
        let mut c = Ctx::new(script, true, cs, dict.clone());
        c.tier_thorough = thorough;
        let sampled = *per_law_samples.get(&law).unwrap_or(&0);
        c.want_notes = sampled < 2 && j > i + 20 || slow.is_some();
        if let Some((dj, path)) = &dump_at { if *dj == j { c.dump = fs::File::create(path).ok(); } }
        sancov::reset();
        sancov::COLLECT.store(true, std::sync::atomic::Ordering::Relaxed);
        let t0 = Instant::now();
        let o = run_case(&p.laws[law], &mut c);
        if let Some(v) = slow { let ms = t0.elapsed().as_millis() as u64; if ms > v { eprintln!("slow: case {} law {} {} ms, {} choices{}: {:.600}", j, p.laws[law].name, ms, c.rec.len(), if use_corpus { " (mutated)" } else { "" }, c.notes.join("; ")); } }
        sancov::COLLECT.store(false, std::sync::atomic::Ordering::Relaxed);
        st.record(&p.laws[law], &c, &o);
        match o {
            Outcome::Fail(msg) => {
                let rec = c.rec.clone();
                drop(c);
                // shrink in process; each trial that fails replaces the candidate
                let deadline = Instant::now() + Duration::from_secs(25);
                let mut last = msg.clone();
                let best = shrink(rec.clone(), 4000, |cand| {
                    if Instant::now() > deadline { return None; }
                    let mut c = Ctx::new(cand.to_vec(), false, 0, Rc::new(RefCell::new(Vec::new())));
                    c.tier_thorough = thorough;
                    match run_case(&p.laws[law], &mut c) {
                        Outcome::Fail(m) if !c.overrun => { last = m; Some(c.rec.clone()) }
                        _ => None,
                    }
                });
                let (m2, notes) = render(p, law, &best, thorough);
                let msg = m2.unwrap_or(msg);
                let f = Failure { law, choices: best, msg };
                write_replay(&dir.join(format!("fail.{}", i)), p, &f, seed, tier, &notes, "in-process");
                status = 10;
                break;
            }
            Outcome::Pass => {
                if c.want_notes && c.interesting && !c.notes.is_empty() {
                    *per_law_samples.entry(law).or_insert(0) += 1;
                    let mut s = c.notes.join("; ");
                    if s.len() > 1200 { let mut k = 1200; while !s.is_char_boundary(k) { k -= 1; } s.truncate(k); s.push_str("..."); }
                    st.samples.push((p.laws[law].name.to_string(), s));
                }
                if sancov::merge(&mut seen[law]) > 0 && c.rec.len() <= 3000 {
                    corp[law].items.push(c.rec.clone());
                    if corp[law].items.len() > 4000 { corp[law].items.remove(0); }
                }
                if sancov::used() != dict_used { dict_used = sancov::used(); *dict.borrow_mut() = sancov::constants(); }
            }
            Outcome::Discard => {}
        }
        j += n;
    }
    // report
    let mut out = String::new();
    out.push_str(&format!("evals {}\ndiscards {}\nnontrivial {}\nguided {}\n", st.evals, st.discards, st.nontrivial, guided));
    out.push_str(&format!("corpus {}\n", corp.iter().map(|c| c.items.len()).sum::<usize>()));
    let mut un: Vec<u8> = vec![0; sancov::edges()];
    for s in &seen { for (k, x) in s.iter().enumerate() { un[k] |= x; } }
    out.push_str(&format!("edges {}\n", un.len()));
    out.push_str(&format!("capped {}\ncut {}\n", st.hash_capped as u32, st.cut as u32));
    for (k, v) in &st.labels { out.push_str(&format!("label {} {}\n", v, k)); }
    for (k, v) in &st.law_evals { out.push_str(&format!("law {} {}\n", v, k)); }
    for (l, s) in &st.samples { out.push_str(&format!("sample {}\t{}\n", l, s.replace('\n', " "))); }
    let _ = fs::write(dir.join(format!("cov.{}", i)), un.iter().map(|&x| (x != 0) as u8).collect::<Vec<u8>>());
    let mut hb = Vec::with_capacity(st.hashes.len() * 8);
    for h in &st.hashes { hb.extend_from_slice(&h.to_le_bytes()); }
    let _ = fs::write(dir.join(format!("hash.{}", i)), hb);
    let _ = fs::write(dir.join(format!("out.{}", i)), out);
    status
}

// ---------------------------------------------------------------- single execution (fresh process)

/// exec ID law tier choices-file tail seed [dump]: exit 0 pass, 10 fail (message on stdout)
fn exec_one(a: &[String]) -> i32 {
    limits(Some(CASE_CPU));
    install_hook();
    let p = find(&a[0]);
    let law: usize = a[1].parse().unwrap();
    let mut b = Vec::new();
    fs::File::open(&a[3]).unwrap().read_to_end(&mut b).unwrap();
    let ch: Vec<u64> = b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    let tail = a[4] == "1";
    let mut c = Ctx::new(ch, tail, a[5].parse().unwrap(), Rc::new(RefCell::new(Vec::new())));
    c.tier_thorough = a[2] == "thorough";
    c.want_notes = true;
    if let Some(d) = a.get(6) { c.dump = Some(fs::File::create(d).unwrap()); }
    match run_case(&p.laws[law], &mut c) {
        Outcome::Fail(m) => { println!("{}", m); for n in &c.notes { println!("# {}", n); } 10 }
        _ => 0,
    }
}

#[derive(PartialEq, Clone, Debug)]
enum Fresh { Pass, Fail(String), Died(String) }

fn fresh(p: &Prop, law: usize, tier: &str, choices: &[u64], tail: bool, seed: u64, dir: &Path, dump: Option<&Path>) -> Fresh {
    let f = dir.join("exec.in");
    let mut b = Vec::new();
    for x in choices { b.extend_from_slice(&x.to_le_bytes()); }
    fs::write(&f, b).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["exec", p.id, &law.to_string(), tier]).arg(&f).arg(if tail { "1" } else { "0" }).arg(seed.to_string());
    if let Some(d) = dump { cmd.arg(d); }
    let o = cmd.stdin(Stdio::null()).output().unwrap();
    match o.status.code() {
        Some(0) => Fresh::Pass,
        Some(10) => Fresh::Fail(String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string()),
        Some(c) => Fresh::Died(format!("exit code {}", c)),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let s = o.status.signal().unwrap_or(0);
            Fresh::Died(match s {
                9 | 24 => format!("does not terminate within {} s of CPU time (signal {})", CASE_CPU, s),
                6 => "process aborted (SIGABRT): allocation failure, heap corruption or stack overflow".into(),
                11 => "invalid memory access or stack overflow (SIGSEGV)".into(),
                s => format!("killed by signal {}", s),
            })
        }
    }
}

// ---------------------------------------------------------------- supervisor

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let r = s.rsplit(')').next()?;
    let f: Vec<&str> = r.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn read_cur(dir: &Path, i: u64) -> Option<(u64, usize, Vec<u64>)> {
    let b = fs::read(dir.join(format!("cur.{}", i))).ok()?;
    if b.len() < 24 { return None; }
    let g = |k: usize| u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
    let (j, law, n) = (g(0), g(1) as usize, g(2) as usize);
    if j == 0 || b.len() < 24 + n * 8 { return None; }
    Some((j - 1, law, (0..n).map(|k| g(3 + k)).collect()))
}

fn run(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).map(|x| x as u64).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => "thorough", _ => "quick" };
    let evdir = PathBuf::from(std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into()));
    let mut cases = if tier == "thorough" { p.thorough } else { p.quick };
    if let Some(c) = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()) { cases = c; }
    let n: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = evdir.join(format!(".work-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    if fs::create_dir_all(&dir).is_err() { eprintln!("cannot create {}", dir.display()); return 2; }
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child, bool)> = Vec::new();
    for i in 0..n {
        let ch = Command::new(&exe)
            .args(["worker", p.id, &seed.to_string(), tier, &i.to_string(), &n.to_string(), &cases.to_string()]).arg(&dir)
            .stdin(Stdio::null()).stdout(Stdio::null()).stderr(fs::File::create(dir.join(format!("err.{}", i))).unwrap())
            .spawn().unwrap();
        kids.push((i, ch, false));
    }
    let mut found: Option<(Failure, Vec<String>, String)> = None;
    let mut failfile: Option<PathBuf> = None;
    let mut errors: Vec<String> = Vec::new();
    let mut watch: BTreeMap<u64, (u64, u64)> = BTreeMap::new(); // worker -> (case, ticks when first seen)
    let mut crashed: Vec<u64> = Vec::new();
    'outer: loop {
        let mut live = 0;
        for (i, ch, done) in kids.iter_mut() {
            if *done { continue; }
            match ch.try_wait() {
                Ok(Some(s)) => {
                    *done = true;
                    match s.code() {
                        Some(0) => {}
                        Some(10) => { failfile = Some(dir.join(format!("fail.{}", i))); break 'outer; }
                        _ => { crashed.push(*i); break 'outer; }
                    }
                }
                Ok(None) => {
                    live += 1;
                    if let (Some((j, _, _)), Some(t)) = (read_cur(&dir, *i), cpu_ticks(ch.id())) {
                        let e = watch.entry(*i).or_insert((j, t));
                        if e.0 != j { *e = (j, t); }
                        else if t.saturating_sub(e.1) > CASE_CPU * 100 {
                            // (100 ticks per second)
                            let _ = ch.kill(); let _ = ch.wait(); *done = true;
                            crashed.push(*i);
                            break 'outer;
                        }
                    }
                }
                Err(e) => { errors.push(format!("wait: {}", e)); *done = true; }
            }
        }
        if live == 0 { break; }
        std::thread::sleep(Duration::from_millis(40));
    }
    for (_, ch, done) in kids.iter_mut() { if !*done { let _ = ch.kill(); let _ = ch.wait(); } }

    for &i in &crashed {
        // a worker died (signal / abort / non-termination): reproduce the very case in a fresh process
        match read_cur(&dir, i) {
            None => errors.push(format!("worker {} died before its first case", i)),
            Some((j, law, script)) => {
                let dump = dir.join("dump");
                let _ = fs::remove_file(&dump);
                // the worker's stream is deterministic: run it again, recording the choices of that case
                let mut ch = Command::new(&exe)
                    .args(["worker", p.id, &seed.to_string(), tier, &i.to_string(), &n.to_string(), &cases.to_string()]).arg(&dir)
                    .env("VERIF_DUMP", format!("{}:{}", j, dump.display()))
                    .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
                let mut seen_at: Option<u64> = None;
                let again = loop {
                    match ch.try_wait() {
                        Ok(Some(s)) => break s.code().is_none() && read_cur(&dir, i).map(|x| x.0) == Some(j),
                        Ok(None) => {}
                        Err(_) => break false,
                    }
                    if read_cur(&dir, i).map(|x| x.0) == Some(j) {
                        if let Some(t) = cpu_ticks(ch.id()) {
                            let s = *seen_at.get_or_insert(t);
                            if t.saturating_sub(s) > CASE_CPU * 100 { let _ = ch.kill(); let _ = ch.wait(); break true; }
                        }
                    }
                    std::thread::sleep(Duration::from_millis(40));
                };
                let rd = |d: &Path| -> Vec<u64> { fs::read(d).unwrap_or_default().chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect() };
                let choices = rd(&dump);
                let _ = script;
                let first = fresh(p, law, tier, &choices, false, 0, &dir, Some(&dump));
                match first {
                    Fresh::Pass if again => {
                        found = Some((Failure { law, choices, msg: format!("worker process {} dies at case {} (twice), although the case alone passes: corrupted process state", i, j) },
                            vec![], format!("stream worker {} of {} cases {}", i, n, cases)));
                    }
                    Fresh::Pass => errors.push(format!("worker {} died at case {} but neither the stream nor the case reproduces it", i, j)),
                    Fresh::Fail(m) | Fresh::Died(m) => {
                        let mut msg = m;
                        let deadline = Instant::now() + Duration::from_secs(90);
                        let best = shrink(choices, 300, |cand| {
                            if Instant::now() > deadline { return None; }
                            match fresh(p, law, tier, cand, false, 0, &dir, Some(&dump)) {
                                Fresh::Pass => None,
                                Fresh::Fail(m) | Fresh::Died(m) => { msg = m; Some(rd(&dump)) }
                            }
                        });
                        found = Some((Failure { law, choices: best, msg }, vec!["the process running this case died; see message".into()], "fresh-process".into()));
                    }
                }
            }
        }
    }

    // merge evidence
    let mut tot: BTreeMap<&str, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut laws: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = Vec::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut cov: Vec<u8> = Vec::new();
    for i in 0..n {
        if let Ok(s) = fs::read_to_string(dir.join(format!("out.{}", i))) {
            for line in s.lines() {
                let (k, rest) = match line.split_once(' ') { Some(x) => x, None => continue };
                match k {
                    "evals" | "discards" | "nontrivial" | "guided" | "corpus" | "capped" | "cut" => {
                        let k: &str = match k { "evals" => "evals", "discards" => "discards", "nontrivial" => "nontrivial", "guided" => "guided", "corpus" => "corpus", "cut" => "cut", _ => "capped" };
                        *tot.entry(k).or_insert(0) += rest.parse::<u64>().unwrap_or(0);
                    }
                    "label" => if let Some((v, l)) = rest.split_once(' ') { *labels.entry(l.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0); },
                    "law" => if let Some((v, l)) = rest.split_once(' ') { *laws.entry(l.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0); },
                    "sample" => if let Some((l, t)) = rest.split_once('\t') { samples.push((l.to_string(), t.to_string())); },
                    _ => {}
                }
            }
        } else if failfile.is_none() && found.is_none() && errors.is_empty() {
            errors.push(format!("worker {} left no report", i));
        }
        if let Ok(b) = fs::read(dir.join(format!("hash.{}", i))) { hashes.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))); }
        if let Ok(b) = fs::read(dir.join(format!("cov.{}", i))) {
            if cov.len() < b.len() { cov.resize(b.len(), 0); }
            for (k, x) in b.iter().enumerate() { cov[k] |= x; }
        }
    }
    hashes.sort(); hashes.dedup();
    samples.sort_by(|a, b| a.0.cmp(&b.0));
    let mut chosen: Vec<(String, String)> = Vec::new();
    let mut last = String::new(); let mut cnt = 0;
    for s in samples { if s.0 != last { last = s.0.clone(); cnt = 0; } if cnt < 2 && chosen.len() < 30 { chosen.push(s); cnt += 1; } }

    let violated = failfile.is_some() || found.is_some();
    let replay = evdir.join("replay").join(format!("{}-{}-{}.txt", p.id, tier, seed));
    if let Some(f) = &failfile {
        let _ = fs::create_dir_all(replay.parent().unwrap());
        let _ = fs::copy(f, &replay);
    } else if let Some((f, notes, how)) = &found {
        write_replay(&replay, p, f, seed, tier, notes, how);
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(p.id), json_str(tier), seed));
    ev.push_str(" \"coverage\": {\n");
    ev.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n", tot.get("evals").unwrap_or(&0), hashes.len(), tot.get("discards").unwrap_or(&0)));
    ev.push_str(&format!("  \"nontrivial\": {},\n  \"distinct_count_capped\": {},\n  \"cut_short_by_time_limit\": {},\n", tot.get("nontrivial").unwrap_or(&0), *tot.get("capped").unwrap_or(&0) > 0, *tot.get("cut").unwrap_or(&0) > 0));
    ev.push_str(&format!("  \"rule\": {},\n", json_str(p.rule)));
    ev.push_str(&format!("  \"coverage_guided_cases\": {},\n  \"corpus_entries\": {},\n  \"edges_of_crate_reached\": {},\n  \"edges_of_crate_total\": {},\n",
        tot.get("guided").unwrap_or(&0), tot.get("corpus").unwrap_or(&0), cov.iter().filter(|&&x| x != 0).count(), cov.len()));
    ev.push_str("  \"cases_per_law\": {");
    ev.push_str(&laws.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"classes\": {");
    ev.push_str(&labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n  \"samples\": [\n");
    ev.push_str(&chosen.iter().map(|(l, s)| format!("   {}", json_str(&format!("{}: {}", l, s)))).collect::<Vec<_>>().join(",\n"));
    ev.push_str("\n  ]\n },\n");
    ev.push_str(&format!(" \"assumptions\": [{}],\n", p.assumptions.iter().chain(&["where two size limits are given, about one quick case in 80 takes the thorough one"]).map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violated as u32));
    let _ = fs::create_dir_all(&evdir);
    let _ = fs::write(evdir.join(format!("{}.json", p.id)), ev);
    for i in 0..n {
        if let Ok(s) = fs::read_to_string(dir.join(format!("err.{}", i))) { if !s.trim().is_empty() { eprintln!("worker {}: {}", i, s.trim().chars().take(400).collect::<String>()); } }
    }
    let _ = fs::remove_dir_all(&dir);
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, tot.get("evals").unwrap_or(&0), hashes.len(), wall);
    if violated {
        if let Ok(s) = fs::read_to_string(&replay) { for l in s.lines().take(14) { println!("  {}", l.chars().take(600).collect::<String>()); } }
        println!("VIOLATION property={} replay={}", p.id, replay.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors { println!("ERROR {}", e); }
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for l in s.lines() { if let Some((k, v)) = l.split_once(' ') { m.entry(k.to_string()).or_insert(v.to_string()); } }
    let p = find(&m["property"]);
    let law = p.laws.iter().position(|l| l.name == m["law"]).expect("law");
    let ch: Vec<u64> = m.get("choices").map(|s| s.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect()).unwrap_or_default();
    let dir = std::env::temp_dir().join(format!("rmath-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = fresh(p, law, &m["tier"], &ch, false, 0, &dir, None);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Fresh::Pass => { println!("PASS property={} law={}", p.id, p.laws[law].name); 0 }
        Fresh::Died(msg) => { println!("FAIL property={} law={}: {}", p.id, p.laws[law].name, msg); 1 }
        Fresh::Fail(_) => {
            install_hook();
            let (msg, notes) = render(p, law, &ch, m["tier"] == "thorough");
            for n in notes { println!("# {}", n); }
            println!("FAIL property={} law={}: {}", p.id, p.laws[law].name, msg.unwrap_or_default());
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.get(0).map(|s| s.as_str()) {
        Some("run") => run(find(&a[1])),
        Some("worker") => worker(find(&a[1]), a[2].parse().unwrap(), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), Path::new(&a[7])),
        Some("exec") => exec_one(&a[1..]),
        Some("replay") => replay(&a[1]),
        Some("list") => { for p in props() { println!("{} laws={} quick={} thorough={}", p.id, p.laws.len(), p.quick, p.thorough); } 0 }
        Some("selftest") => { install_hook(); ora::selftest() }
        _ => { eprintln!("usage: harness run|replay|list|selftest"); 2 }
    };
    std::process::exit(code);
}
