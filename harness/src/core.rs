//! Choice-tape generator core, shrinker, parallel runner, evidence and known-finding handling.

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{self, AssertUnwindSafe};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// splitmix64 / xorshift style generator.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Source of all random choices of one case. Every choice is recorded on a tape, so that a case
/// can be replayed and shrunk generically. Smaller values are "simpler" by convention.
pub struct Src {
    pub tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    pub overrun: bool,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), overrun: false }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src { tape, pos: 0, rng: None, overrun: false }
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u32;
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos] % n;
            self.tape[self.pos] = v;
            v
        } else if let Some(rng) = &mut self.rng {
            let v = (rng.next() >> 32) as u32 % n;
            self.tape.push(v);
            v
        } else {
            self.overrun = true;
            self.tape.push(0);
            0
        };
        self.pos += 1;
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den; the simplest choice is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn u32(&mut self) -> u32 {
        let hi = self.below(1 << 16) as u32;
        let lo = self.below(1 << 16) as u32;
        (hi << 16) | lo
    }
    /// Weighted index.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // 0-choices leave the order unchanged.
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable signature: groups failures, keys known findings, and must be preserved by shrinking.
    pub sig: String,
    pub msg: String,
    pub input: String,
}
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>, input: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into(), input: input.into() })
}

#[derive(Debug, Clone, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub key: u64,
    pub labels: Vec<String>,
    pub sample: String,
    /// Number of oracle evaluations made in the case (0 counts as 1).
    pub evals: usize,
}
pub type CaseFn = fn(&mut Src) -> Result<Info, Fail>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: CaseFn,
    /// Fixed cases (exhaustive enumerations, regression inputs), run before the random search.
    pub fixed: Option<(fn() -> usize, fn(usize) -> Result<Info, Fail>)>,
    pub shrink_evals: usize,
    pub assumptions: &'static [&'static str],
    pub threads: usize,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        // Dependency sources are named from the crate directory on.
        let loc = match loc.split_once("/registry/src/") {
            Some((_, rest)) => rest.split_once('/').map(|x| x.1.to_string()).unwrap_or_default(),
            None => loc,
        };
        if std::env::var("VP_BT").is_ok() {
            eprintln!("{msg} {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Digits are dropped so that the signature does not depend on offsets.
pub fn normalize(msg: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars() {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('N');
            }
            last_digit = true;
        } else {
            out.push(c);
            last_digit = false;
        }
    }
    out.chars().take(160).collect()
}

thread_local! {
    /// The text being analysed, so that a panic can be reported with its input.
    pub static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn set_current(s: &str) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

pub fn guarded(f: impl FnOnce() -> Result<Info, Fail>) -> Result<Info, Fail> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let msg = take_panic().unwrap_or_else(|| "panic".into());
            let input = CURRENT.with(|c| c.borrow().clone());
            let head: String = msg.lines().next().unwrap_or("").to_string();
            // Backtick-quoted text is input dependent.
            let head = head.split('`').next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic: {}", normalize(&head)), msg, input })
        }
    }
}

fn case_seed(prop: &str, seed: u64, i: usize) -> u64 {
    let mut r = Rng::new(fnv(prop.as_bytes()) ^ seed.wrapping_mul(0xA24B_AED4_963E_E407));
    let a = r.next();
    Rng::new(a ^ (i as u64).wrapping_mul(0x9FB2_1C65_1E98_DF25)).next()
}

pub fn run_tape(p: &Prop, tape: Vec<u32>) -> (Result<Info, Fail>, Vec<u32>) {
    let mut src = Src::replay(tape);
    let r = guarded(|| (p.run)(&mut src));
    (r, src.tape)
}

const SHRINK_SECS: u64 = 60;

fn shrink(tape: Vec<u32>, budget: usize, mut test: impl FnMut(&[u32]) -> Option<Vec<u32>>) -> Vec<u32> {
    let mut best = tape;
    let mut evals = 0;
    let t0 = Instant::now();
    let mut try_one = |cand: Vec<u32>, best: &mut Vec<u32>| -> bool {
        if evals >= budget || t0.elapsed().as_secs() > SHRINK_SECS {
            return false;
        }
        evals += 1;
        if let Some(t) = test(&cand) {
            // Accept only strictly simpler tapes.
            let simpler = (t.len(), t.iter().map(|x| *x as u64).sum::<u64>())
                < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>());
            if simpler {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !try_one(c, &mut best) {
                    let mut c = best.clone();
                    let end = (i + size).min(best.len());
                    if i < end && c[i..end].iter().any(|x| *x != 0) {
                        for x in &mut c[i..end] {
                            *x = 0;
                        }
                        try_one(c, &mut best);
                    }
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_one(c, &mut best) {
                    lo = mid + 1;
                }
            }
        }
        if best == before {
            break;
        }
    }
    best
}

fn verif_dir() -> String {
    std::env::var("VP_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// Listed findings of a property (committed, never written at run time).
fn known(p: &Prop) -> Vec<Value> {
    std::fs::read(format!("{}/known_findings.json", verif_dir()))
        .ok()
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .and_then(|v| v["known"].as_array().cloned())
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k["property"] == p.id)
        .collect()
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn n_cases(p: &Prop) -> usize {
    let n = if tier() == "thorough" { p.thorough } else { p.quick };
    match std::env::var("VP_CASES").ok().and_then(|s| s.parse::<usize>().ok()) {
        Some(k) => k,
        None => n,
    }
}

const STACK: usize = 16 << 20;

/// Runs index `idx` of the enumeration (fixed cases first, random cases afterwards).
fn run_index(p: &Prop, idx: usize, n_fixed: usize) -> (Result<Info, Fail>, Vec<u32>) {
    if idx < n_fixed {
        let f = p.fixed.as_ref().unwrap().1;
        (guarded(|| f(idx)), Vec::new())
    } else {
        let mut src = Src::random(case_seed(p.id, seed(), idx - n_fixed));
        let r = guarded(|| (p.run)(&mut src));
        (r, src.tape)
    }
}

struct Agg {
    evals: usize,
    cases: usize,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, usize>,
    samples: Vec<(usize, String)>,
    /// sig -> (count, first index, tape, fail)
    fails: BTreeMap<String, (usize, usize, Vec<u32>, Fail)>,
}

pub fn child(p: &'static Prop) {
    install_panic_hook();
    let n_fixed = fixed_count(p);
    let total = n_fixed + n_cases(p);
    let next = AtomicUsize::new(0);
    let agg = Mutex::new(Agg {
        evals: 0,
        cases: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: Vec::new(),
        fails: BTreeMap::new(),
    });
    let progress = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(false)
        .open(std::env::var("VP_PROGRESS").unwrap())
        .unwrap();
    std::thread::scope(|s| {
        for slot in 0..p.threads {
            let (next, agg, progress) = (&next, &agg, &progress);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || loop {
                    let idx = next.fetch_add(1, Ordering::SeqCst);
                    if idx >= total {
                        progress.write_at(&u64::MAX.to_le_bytes(), slot as u64 * 8).unwrap();
                        break;
                    }
                    progress.write_at(&(idx as u64).to_le_bytes(), slot as u64 * 8).unwrap();
                    let (r, tape) = run_index(p, idx, n_fixed);
                    let mut a = agg.lock().unwrap();
                    a.cases += 1;
                    match r {
                        Ok(info) => {
                            a.evals += info.evals.max(1);
                            if info.nontrivial && a.distinct.insert(info.key) {
                                if !info.sample.is_empty() {
                                    a.samples.push((idx, info.sample));
                                    if a.samples.len() > 200 {
                                        a.samples.sort();
                                        a.samples.truncate(40);
                                    }
                                }
                            }
                            for l in info.labels {
                                *a.labels.entry(l).or_insert(0) += 1;
                            }
                        }
                        Err(f) => {
                            a.evals += 1;
                            let e = a.fails.entry(f.sig.clone()).or_insert((0, idx, tape.clone(), f.clone()));
                            e.0 += 1;
                            if idx < e.1 {
                                e.1 = idx;
                                e.2 = tape;
                                e.3 = f;
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut a = agg.into_inner().unwrap();
    a.samples.sort();
    // Shrink the first few failure groups, in parallel.
    let mut fails: Vec<(usize, usize, Vec<u32>, Fail)> = a.fails.into_values().collect();
    let known = known(p);
    let is_known = |f: &Fail| known.iter().any(|k| k["sig"] == f.sig.as_str());
    // Listed findings last: they are neither shrunk nor allowed to crowd out others.
    fails.sort_by_key(|f| (is_known(&f.3), f.1));
    let n_new = fails.iter().filter(|f| !is_known(&f.3)).count();
    let shrunk: Vec<Value> = std::thread::scope(|s| {
        let hs: Vec<_> = fails
            .iter()
            .enumerate()
            .filter(|(k, _)| *k < 12 || *k >= n_new)
            .map(|(k, (count, idx, tape, f))| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut tape = tape.clone();
                        let mut last = f.clone();
                        if *idx >= n_fixed && p.shrink_evals > 0 && k < 8.min(n_new) {
                            let sig = f.sig.clone();
                            tape = shrink(tape, p.shrink_evals, |c| {
                                let (r, t) = run_tape(p, c.to_vec());
                                match r {
                                    Err(g) if g.sig == sig => Some(t),
                                    _ => None,
                                }
                            });
                            if let (Err(g), _) = run_tape(p, tape.clone()) {
                                last = g;
                            }
                        }
                        json!({"sig": f.sig, "count": count, "index": idx, "tape": tape, "msg": last.msg, "input": last.input})
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let step = (a.samples.len() / 5).max(1);
    let samples: Vec<&String> = a.samples.iter().step_by(step).map(|x| &x.1).take(5).collect();
    let out = json!({
        "cases": a.cases, "evals": a.evals, "distinct": a.distinct.len(), "labels": a.labels,
        "samples": samples, "fixed": n_fixed, "fails": shrunk, "n_sigs": fails.len(),
    });
    std::fs::write(std::env::var("VP_OUT").unwrap(), serde_json::to_vec(&out).unwrap()).unwrap();
}

/// Runs one index or one tape; used to confirm crashes and hangs in isolation.
pub fn one(p: &'static Prop, idx: Option<usize>, tape: Option<Vec<u32>>) -> i32 {
    install_panic_hook();
    let n_fixed = fixed_count(p);
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match (idx, tape) {
            (Some(i), _) => {
                // Leave the tape behind even if the case dies.
                if i >= n_fixed {
                    std::env::set_var("VP_DUMP_SEED", case_seed(p.id, seed(), i - n_fixed).to_string());
                }
                run_index(p, i, n_fixed)
            }
            (_, Some(t)) => run_tape(p, t),
            _ => unreachable!(),
        })
        .unwrap();
    let (r, tape) = h.join().unwrap();
    match r {
        Ok(i) => {
            println!("OK nontrivial={} labels={:?}\n{}", i.nontrivial, i.labels, i.sample);
            0
        }
        Err(f) => {
            println!("FAIL sig={}\n{}\n--- input\n{}\n--- tape {:?}", f.sig, f.msg, f.input, tape);
            1
        }
    }
}

/// Generates the full tape of a random index without knowing where the case dies: runs the case
/// with a tape that is saved to a file on every draw would be slow, so the tape is over-approximated
/// by pre-drawing raw 32-bit words (choices are reduced modulo their bound on replay).
fn raw_tape(p: &Prop, idx: usize, n_fixed: usize) -> Vec<u32> {
    let mut rng = Rng::new(case_seed(p.id, seed(), idx - n_fixed));
    (0..6000).map(|_| (rng.next() >> 32) as u32).collect()
}

enum Death {
    Fine,
    Abort(String),
    Hang,
}

fn isolated(p: &Prop, args: &[String], cpu_s: u64) -> Death {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("bash");
    cmd.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v 4000000; ulimit -t {cpu_s}; exec \"$0\" \"$@\""))
        .arg(exe)
        .arg(p.id)
        .args(args)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null());
    let st = cmd.status().unwrap();
    match st.signal() {
        Some(24) | Some(9) => Death::Hang,
        Some(s) => Death::Abort(format!("killed by signal {s}")),
        None => match st.code() {
            Some(0) | Some(1) => Death::Fine,
            c => Death::Abort(format!("exit code {c:?}")),
        },
    }
}

fn read_progress(path: &str) -> Vec<u64> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

pub fn parent(p: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let vd = verif_dir();
    let scratch = format!("{vd}/target/vp-scratch/{}-{}", p.id, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let out = format!("{scratch}/out.json");
    let progress = format!("{scratch}/progress");
    let exe = std::env::current_exe().unwrap();
    let stall = Duration::from_secs(100);
    let mut crash: Option<(usize, Fail)> = None;
    let mut child = Command::new("bash")
        .arg("-c")
        .arg("ulimit -c 0; ulimit -v 20000000; exec \"$0\" \"$@\"")
        .arg(&exe)
        .arg(p.id)
        .arg("--child")
        .env("VP_OUT", &out)
        .env("VP_PROGRESS", &progress)
        .env("VP_SCRATCH", &scratch)
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut last: Vec<(u64, Instant)> = Vec::new();
    let mut hung: Option<usize> = None;
    let status = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(50));
        let now = read_progress(&progress);
        if last.len() != now.len() {
            last = now.iter().map(|x| (*x, Instant::now())).collect();
        }
        for (i, v) in now.iter().enumerate() {
            if last[i].0 != *v {
                last[i] = (*v, Instant::now());
            }
            if *v != u64::MAX && last[i].1.elapsed() > stall {
                // Only a hang if the case alone burns CPU time far beyond any normal case.
                if let Death::Hang = isolated(p, &["--one".into(), v.to_string()], 60) {
                    hung = Some(*v as usize);
                    break;
                }
                last[i].1 = Instant::now();
            }
        }
        if hung.is_some() {
            child.kill().ok();
            child.wait().ok();
            break None;
        }
    };
    let n_fixed = fixed_count(p);
    if let Some(i) = hung {
        crash = Some((i, Fail { sig: "hang".into(), msg: format!("case {i} used more than 60 s of CPU time"), input: String::new() }));
    } else if let Some(st) = status {
        if !st.success() {
            for v in read_progress(&progress) {
                if v == u64::MAX {
                    continue;
                }
                match isolated(p, &["--one".into(), v.to_string()], 120) {
                    Death::Abort(m) => {
                        crash = Some((v as usize, Fail { sig: "abort".into(), msg: format!("the process died: {m} (stack overflow, memory exhaustion or abort)"), input: String::new() }));
                        break;
                    }
                    Death::Hang => {
                        crash = Some((v as usize, Fail { sig: "hang".into(), msg: format!("case {v} used more than 120 s of CPU time"), input: String::new() }));
                        break;
                    }
                    Death::Fine => {}
                }
            }
            if crash.is_none() {
                eprintln!("harness error: child died ({st:?}) but no case reproduces it");
                return 2;
            }
        }
    }
    let known = known(p);
    let mut res: Value = json!({"cases": 0, "evals": 0, "distinct": 0, "labels": {}, "samples": [], "fails": [], "n_sigs": 0});
    if crash.is_none() {
        res = serde_json::from_slice(&std::fs::read(&out).expect("child output")).unwrap();
    } else {
        let (idx, f) = crash.clone().unwrap();
        let mut tape = Vec::new();
        if idx >= n_fixed {
            tape = raw_tape(p, idx, n_fixed);
            let want_hang = f.sig == "hang";
            let (budget, cpu) = if want_hang { (12, 20) } else { (250, 60) };
            let tf = format!("{scratch}/shrink.tape");
            tape = shrink(tape, budget, |c| {
                std::fs::write(&tf, serde_json::to_vec(&c).unwrap()).unwrap();
                match (isolated(p, &["--tape".into(), tf.clone()], cpu), want_hang) {
                    (Death::Hang, true) | (Death::Abort(_), false) => Some(c.to_vec()),
                    _ => None,
                }
            });
        }
        let cases = read_progress(&progress).into_iter().filter(|v| *v != u64::MAX).min().unwrap_or(0);
        res["cases"] = json!(cases);
        res["evals"] = json!(cases);
        res["fails"] = json!([{"sig": f.sig, "count": 1, "index": idx, "tape": tape, "msg": f.msg, "input": ""}]);
    }
    let mut violations = 0;
    let mut replay_path = String::new();
    std::fs::create_dir_all(format!("{vd}/replays")).ok();
    for f in res["fails"].as_array().unwrap() {
        let sig = f["sig"].as_str().unwrap();
        if let Some(k) = known.iter().find(|k| k["sig"] == sig) {
            println!("KNOWN-FINDING: property={} {} [{}; {} cases]", p.id, k["what"].as_str().unwrap_or(""), sig, f["count"]);
            continue;
        }
        violations += 1;
        let path = format!("{vd}/replays/{}-{:016x}.json", p.id, fnv(sig.as_bytes()));
        let mut r = f.clone();
        r["property"] = json!(p.id);
        r["seed"] = json!(seed());
        r["tier"] = json!(tier());
        r["replay"] = json!(format!("bash /verif/run.sh {} --replay {}", p.id, path));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).ok();
        println!("--- failure sig={} count={} index={}\n{}\n--- input\n{}\n", sig, f["count"], f["index"],
            f["msg"].as_str().unwrap_or(""), f["input"].as_str().unwrap_or(""));
        if replay_path.is_empty() {
            replay_path = path;
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier(), "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": res["evals"], "cases": res["cases"], "fixed_cases": res["fixed"],
            "distinct_nontrivial": res["distinct"], "rule": p.rule, "samples": res["samples"], "distribution": res["labels"],
        },
        "assumptions": p.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    std::fs::create_dir_all(format!("{vd}/evidence")).ok();
    std::fs::write(format!("{vd}/evidence/{}.json", p.id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    std::fs::remove_dir_all(&scratch).ok();
    println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {} violation group(s), {:.1} s",
        p.id, res["cases"], res["evals"], res["distinct"], violations, t0.elapsed().as_secs_f64());
    if violations > 0 {
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        1
    } else {
        0
    }
}

fn fixed_count(p: &Prop) -> usize {
    if std::env::var("VP_NOFIXED").is_ok() {
        return 0;
    }
    p.fixed.as_ref().map(|(n, _)| n()).unwrap_or(0)
}
