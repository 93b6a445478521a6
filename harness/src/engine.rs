//! Case generation, parallel execution, minimisation, evidence and verdicts.
use crate::src::Src;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), Fail>;

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// stable signature used to match known findings
    pub sig: String,
}
impl Fail {
    pub fn new(sig: &str, msg: impl Into<String>) -> Self {
        Fail { msg: msg.into(), sig: sig.to_string() }
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !$cond { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) } };
}

/// Per-case context: what the case was, for evidence.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: String,
    pub want_desc: bool,
}
impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
}

#[derive(Clone)]
pub struct CheckDef {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Cx) -> R,
    pub quick: usize,
    pub thorough: usize,
    pub max_len: usize,
    pub rule: &'static str,
    /// labels that must be populated for the run not to be considered vacuous
    pub must_labels: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let in_case = IN_CASE.with(|c| *c.borrow());
        if !in_case {
            eprintln!("panic outside a case at {loc}: {msg}");
        }
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            // keep the first panic: later ones are usually consequences
            if p.is_none() {
                *p = Some((loc, msg));
            }
        });
    }));
}

/// Run something whose panic is an expected answer; None if it panicked.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    let before = PANIC.with(|p| p.borrow_mut().take());
    let r = catch_unwind(AssertUnwindSafe(f));
    PANIC.with(|p| *p.borrow_mut() = before);
    r.ok()
}

pub enum Verdict {
    Ok,
    Fail(Fail),
    HarnessBug(String),
}

pub fn exec_case(def: &CheckDef, data: &[u8], cx: &mut Cx) -> Verdict {
    PANIC.with(|p| *p.borrow_mut() = None);
    IN_CASE.with(|c| *c.borrow_mut() = true);
    let mut src = Src::new(data);
    let r = catch_unwind(AssertUnwindSafe(|| (def.run)(&mut src, cx)));
    IN_CASE.with(|c| *c.borrow_mut() = false);
    let p = PANIC.with(|p| p.borrow_mut().take());
    match (r, p) {
        (Ok(Ok(())), None) => Verdict::Ok,
        (Ok(Err(f)), None) => {
            if f.sig == "harness" {
                Verdict::HarnessBug(f.msg)
            } else {
                Verdict::Fail(f)
            }
        }
        (_, Some((loc, msg))) => {
            if msg.starts_with("[sim]") {
                // raised on purpose by the simulation: unbounded activity inside one poll
                Verdict::Fail(Fail::new("spin", format!("{msg} ({loc})")))
            } else if loc.starts_with("src/") {
                Verdict::HarnessBug(format!("harness panic at {loc}: {msg}"))
            } else {
                let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc);
                Verdict::Fail(Fail::new(&format!("panic@{file}"), format!("panic at {loc}: {msg}")))
            }
        }
        (Err(_), None) => Verdict::HarnessBug("panic without message".into()),
    }
}

fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn case_bytes(seed: u64, id: &str, idx: usize, max_len: usize) -> Vec<u8> {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&(idx as u64).to_le_bytes());
    s[16..24].copy_from_slice(&fnv(id.as_bytes()).to_le_bytes());
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &s);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    // length classes: short cases stay frequent, long ones reach deep histories
    let hi = match idx % 8 {
        0 => max_len / 8,
        1..=3 => max_len / 3,
        _ => max_len,
    }
    .max(8);
    let strat = proptest::collection::vec(proptest::num::u8::ANY, hi / 2..=hi);
    strat.new_tree(&mut runner).expect("strategy").current()
}

pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
            for e in v["findings"].as_array().cloned().unwrap_or_default() {
                out.push(Known {
                    property: e["property"].as_str().unwrap_or("").into(),
                    signature: e["signature"].as_str().unwrap_or("").into(),
                    what: e["what"].as_str().unwrap_or("").into(),
                });
            }
        }
    }
    out
}

pub fn minimise(def: &CheckDef, start: Vec<u8>, sig: &str, budget: usize) -> (Vec<u8>, Fail) {
    let mut best = start;
    let mut evals = 0usize;
    let t0 = Instant::now();
    let check = |d: &[u8], evals: &mut usize| -> Option<Fail> {
        *evals += 1;
        let mut cx = Cx::default();
        match exec_case(def, d, &mut cx) {
            Verdict::Fail(f) if f.sig == sig => Some(f),
            _ => None,
        }
    };
    let mut last = check(&best, &mut evals).unwrap_or(Fail::new(sig, "(failure did not reproduce on re-execution)"));
    // truncate to what is consumed
    loop {
        let before = best.clone();
        // remove chunks
        let mut sz = best.len().next_power_of_two() / 2;
        while sz >= 1 {
            let mut i = 0;
            while i < best.len() {
                if evals > budget || t0.elapsed() > Duration::from_secs(60) {
                    return (best, last);
                }
                let mut c = best.clone();
                let e = (i + sz).min(c.len());
                c.drain(i..e);
                if let Some(f) = check(&c, &mut evals) {
                    best = c;
                    last = f;
                } else {
                    i += sz;
                }
            }
            sz /= 2;
        }
        // lower bytes
        let mut i = 0;
        while i < best.len() {
            if evals > budget || t0.elapsed() > Duration::from_secs(60) {
                return (best, last);
            }
            if best[i] != 0 {
                let orig = best[i];
                let mut done = false;
                for v in [0u8, orig / 2, orig.saturating_sub(16), orig - 1] {
                    if v >= orig {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(f) = check(&c, &mut evals) {
                        best = c;
                        last = f;
                        done = v != 0;
                        break;
                    }
                }
                if done {
                    continue;
                }
            }
            i += 1;
        }
        if best == before {
            return (best, last);
        }
    }
}

pub struct RunResult {
    pub exit: i32,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub cases: Option<usize>,
    pub verif: String,
    pub level: &'static str,
    pub evidence: bool,
}

pub fn run_check(def: &CheckDef, o: &Opts) -> RunResult {
    let t0 = Instant::now();
    let total = o.cases.unwrap_or(if o.tier == "thorough" { def.thorough } else { def.quick });
    let known: Vec<Known> =
        load_known(&format!("{}/known_findings.json", o.verif)).into_iter().filter(|k| k.property == def.id).collect();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done_cases = AtomicUsize::new(0);
    let heartbeat: Vec<AtomicU64> = (0..64).map(|_| AtomicU64::new(0)).collect();
    let started = Instant::now();
    let current: Vec<Mutex<(usize, Vec<u8>)>> = (0..64).map(|_| Mutex::new((0, vec![]))).collect();
    struct Shared {
        labels: BTreeMap<&'static str, usize>,
        distinct: HashSet<u64>,
        nontrivial: usize,
        samples: Vec<(usize, String)>,
        fail: Option<(usize, Vec<u8>, Fail)>,
        bug: Option<String>,
        known_hit: BTreeMap<String, usize>,
    }
    let sh = Mutex::new(Shared {
        labels: BTreeMap::new(),
        distinct: HashSet::new(),
        nontrivial: 0,
        samples: vec![],
        fail: None,
        bug: None,
        known_hit: BTreeMap::new(),
    });
    let limit = Duration::from_secs(if o.tier == "thorough" { 3 * 3600 } else { 500 });
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let finished = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..nthreads {
            let (next, stop, sh, done_cases, heartbeat, known, finished, current) =
                (&next, &stop, &sh, &done_cases, &heartbeat, &known, &finished, &current);
            let spawn = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                let mut labels: BTreeMap<&'static str, usize> = BTreeMap::new();
                let mut distinct = vec![];
                'outer: loop {
                    let base = next.fetch_add(64, Ordering::Relaxed);
                    if base >= total {
                        break;
                    }
                    for i in base..(base + 64).min(total) {
                        if stop.load(Ordering::Relaxed) || started.elapsed() > limit {
                            break 'outer;
                        }
                        heartbeat[w].store(started.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let data = case_bytes(o.seed, def.id, i, def.max_len);
                        *current[w].lock().unwrap() = (i, data.clone());
                        let mut cx = Cx { want_desc: i % 997 < 2 && i < 20000, ..Cx::default() };
                        let out = exec_case(def, &data, &mut cx);
                        done_cases.fetch_add(1, Ordering::Relaxed);
                        for l in &cx.labels {
                            *labels.entry(l).or_default() += 1;
                        }
                        if cx.nontrivial {
                            distinct.push(fnv(&data));
                        }
                        if cx.want_desc && cx.nontrivial {
                            let mut g = sh.lock().unwrap();
                            if g.samples.len() < 24 {
                                g.samples.push((i, cx.desc.clone()));
                            }
                        }
                        match out {
                            Verdict::Ok => {}
                            Verdict::Fail(f) => {
                                let mut g = sh.lock().unwrap();
                                if known.iter().any(|k| k.signature == f.sig) {
                                    *g.known_hit.entry(f.sig.clone()).or_default() += 1;
                                } else {
                                    let better = match &g.fail {
                                        None => true,
                                        Some((j, _, _)) => i < *j,
                                    };
                                    if better {
                                        g.fail = Some((i, data, f));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Verdict::HarnessBug(m) => {
                                let mut g = sh.lock().unwrap();
                                if g.bug.is_none() {
                                    g.bug = Some(format!("case {i} [{}]: {m}", hex(&data)));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
                heartbeat[w].store(0, Ordering::Relaxed);
                let mut g = sh.lock().unwrap();
                g.nontrivial += distinct.len();
                g.distinct.extend(distinct);
                for (k, v) in labels {
                    *g.labels.entry(k).or_default() += v;
                }
                finished.fetch_add(1, Ordering::Relaxed);
            });
            spawn.expect("spawn worker");
        }
        // watchdog: the simulation bounds everything it can count, so a case that never returns is the
        // code under test looping on its own (a normal case takes microseconds)
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if finished.load(Ordering::Relaxed) == nthreads {
                break;
            }
            let now = started.elapsed().as_millis() as u64 + 1;
            for (w, h) in heartbeat.iter().take(nthreads).enumerate() {
                let v = h.load(Ordering::Relaxed);
                if v != 0 && now > v + 60_000 {
                    let (idx, data) = current[w].lock().unwrap().clone();
                    let dir = format!("{}/replays", o.verif);
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{dir}/{}-seed{}-case{}.json", def.id, o.seed, idx);
                    let msg = "the case did not return within 60 s: a single poll never ends";
                    let j = serde_json::json!({
                        "property": def.id, "signature": "hang", "message": msg, "choices_hex": hex(&data), "seed": o.seed, "case_index": idx,
                        "replay": format!("./check.sh {} --replay <this file>", def.id),
                    });
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                    let g = sh.lock().unwrap();
                    write_evidence(def, o, done_cases.load(Ordering::Relaxed), &g.distinct, &g.samples, &g.labels, g.nontrivial, &g.known_hit, t0.elapsed().as_secs_f64(), 1);
                    println!("failure: [hang] {msg}");
                    println!("VIOLATION property={} replay={}", def.id, path);
                    std::process::exit(1);
                }
            }
        }
    });
    let g = sh.into_inner().unwrap();
    if let Some(b) = &g.bug {
        eprintln!("ERROR property={} {}", def.id, b);
        return RunResult { exit: 3 };
    }
    let mut violations = 0;
    let mut replay_path = String::new();
    if let Some((idx, data, f)) = g.fail {
        violations = 1;
        // in a thread of its own: a shrunk candidate may never return
        let (send, recv) = std::sync::mpsc::channel();
        let (d2, dat2, f2) = (def.clone(), data.clone(), f.clone());
        let _ = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let (min, mf) = minimise(&d2, dat2, &f2.sig, 6000);
            let mut cx = Cx { want_desc: true, ..Cx::default() };
            let _ = exec_case(&d2, &min, &mut cx);
            let _ = send.send((min, mf, cx.desc));
        });
        let (min, mf, desc) = recv.recv_timeout(Duration::from_secs(120)).unwrap_or((data.clone(), f, "(not minimised)".into()));
        let dir = format!("{}/replays", o.verif);
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{dir}/{}-seed{}-case{}.json", def.id, o.seed, idx);
        let j = serde_json::json!({
            "property": def.id, "signature": mf.sig, "message": mf.msg, "case": desc,
            "choices_hex": hex(&min), "original_choices_hex": hex(&data), "seed": o.seed, "case_index": idx,
            "replay": format!("./check.sh {} --replay <this file>", def.id),
        });
        let _ = std::fs::write(&replay_path, serde_json::to_string_pretty(&j).unwrap());
        println!("case: {}", desc);
        println!("failure: [{}] {}", mf.sig, mf.msg);
        println!("VIOLATION property={} replay={}", def.id, replay_path);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (hit by {} cases)", def.id, k.what, g.known_hit.get(&k.signature).copied().unwrap_or(0));
    }
    let evals = done_cases.load(Ordering::Relaxed);
    let missing: Vec<&str> = def.must_labels.iter().copied().filter(|l| !g.labels.contains_key(l)).collect();
    if !write_evidence(def, o, evals, &g.distinct, &g.samples, &g.labels, g.nontrivial, &g.known_hit, t0.elapsed().as_secs_f64(), violations) {
        return RunResult { exit: 3 };
    }
    println!(
        "property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s classes={:?}",
        def.id, o.tier, o.seed, evals, g.distinct.len(), t0.elapsed().as_secs_f64(), g.labels
    );
    if violations > 0 {
        let _ = &replay_path;
        return RunResult { exit: 1 };
    }
    if evals > 2000 && !missing.is_empty() {
        eprintln!("WARNING property={} classes never generated: {:?}", def.id, missing);
    }
    RunResult { exit: 0 }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    def: &CheckDef,
    o: &Opts,
    evals: usize,
    distinct: &HashSet<u64>,
    samples: &[(usize, String)],
    labels: &BTreeMap<&'static str, usize>,
    nontrivial: usize,
    known_hit: &BTreeMap<String, usize>,
    wall: f64,
    violations: usize,
) -> bool {
    if !o.evidence {
        return true;
    }
    let mut samples = samples.to_vec();
    samples.sort();
    samples.truncate(8);
    let missing: Vec<&str> = def.must_labels.iter().copied().filter(|l| !labels.contains_key(l)).collect();
    let short = |s: &str| {
        let mut s = s.to_string();
        if s.len() > 1500 {
            let mut c = 1500;
            while !s.is_char_boundary(c) {
                c -= 1;
            }
            s.truncate(c);
            s.push_str("...");
        }
        s
    };
    let ev = serde_json::json!({
        "property": def.id, "tier": o.tier, "seed": o.seed, "level": o.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": def.rule,
            "samples": samples.iter().map(|(i, s)| format!("case {i}: {}", short(s))).collect::<Vec<_>>(),
            "classes": labels.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
            "nontrivial_total": nontrivial,
            "unpopulated_classes": missing,
            "known_finding_hits": known_hit,
        },
        "assumptions": ["tokio sync, http, httparse, h2, bytes and the other dependencies behave as their pinned versions do", "one task at a time: the executor is single-threaded"],
        "wall_s": wall,
        "violations": violations,
    });
    let p = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&p);
    if let Err(e) = std::fs::write(format!("{p}/{}.json", def.id), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("ERROR cannot write evidence: {e}");
        return false;
    }
    true
}
