//! Running checks: a parent hands case numbers to worker processes, which run the real code under
//! the monitors and record what they saw; the parent confirms crashes and hangs and gives the verdict.
use crate::rng::{hash_str, Rng};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Ends a case: the oracle refuted the property, or the case is of no use.
pub enum Stop { Viol { key: String, what: String }, Skip }
pub type R = Result<(), Stop>;
pub fn viol<T>(key: &str, what: impl Into<String>) -> Result<T, Stop> { Err(Stop::Viol { key: key.to_string(), what: what.into() }) }
pub fn skip<T>() -> Result<T, Stop> { Err(Stop::Skip) }
pub fn ensure(c: bool, key: &str, what: impl FnOnce() -> String) -> R { if c { Ok(()) } else { viol(key, what()) } }

pub struct Check {
    pub id: &'static str,
    /// number of cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub min: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx, u64, &mut Rng) -> R,
    /// number of leading cases every worker runs, whose facts must agree across the processes
    pub shared: u64,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub scratch: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<Value>,
    pub notes: Map<String, Value>,
    pub facts: Vec<(String, String)>,
    pub facts_on: bool,
}
impl Ctx {
    /// Things to put into the replay file should this case fail.
    pub fn note(&mut self, k: &str, v: impl Into<Value>) { self.notes.insert(k.into(), v.into()); }
    pub fn count(&mut self, k: &str, n: u64) { *self.counters.entry(k.into()).or_default() += n; }
    /// A distinct non-trivial thing observed.
    pub fn state(&mut self, s: &str) { self.states.insert(hash_str(s)); }
    pub fn eval(&mut self) { self.count("evaluations", 1); }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) { if self.samples.len() < 3 { let v = f(); self.samples.push(v); } }
    /// A fact which every process has to agree on.
    pub fn fact(&mut self, k: String, v: String) { if self.facts_on { self.facts.push((k, v)); } }
    pub fn dir(&mut self, name: &str) -> PathBuf {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = self.scratch.join(format!("{name}-{}-{}", self.shard, N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    }
}

pub static LAST_PANIC: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
thread_local! {
    /// The latest panic of this thread; several threads of a case can panic at once.
    static OWN_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        OWN_PANIC.with(|p| *p.borrow_mut() = Some((msg.clone(), loc.clone())));
        if let Ok(mut p) = LAST_PANIC.lock() { p.push((msg, loc)); }
    }));
}
pub fn take_panics() -> Vec<(String, String)> { LAST_PANIC.lock().map(|mut p| std::mem::take(&mut *p)).unwrap_or_default() }
/// Signature of a panic: file and message with numbers and quoted parts removed.
pub fn panic_key(msg: &str, loc: &str) -> String {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).trim_start_matches("/repo/");
    let mut m = String::new();
    for c in msg.chars().take(90) { if c.is_ascii_digit() { if !m.ends_with('N') { m.push('N'); } } else if c == '\n' { break } else { m.push(c); } }
    if let Some(i) = m.find(['"', '`']) { m.truncate(i); }
    format!("panic in {file}: {}", m.trim())
}
fn own_file(loc: &str) -> bool { loc.starts_with("src/") }

/// Runs `f`; a panic of the code under test is a violation, one of the harness is passed on.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    OWN_PANIC.with(|p| p.borrow_mut().take());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            match OWN_PANIC.with(|p| p.borrow_mut().take()).or_else(|| take_panics().into_iter().last()) {
                Some((m, l)) if !own_file(&l) => viol(&panic_key(&m, &l), format!("{what}: panicked at {l}: {m}")),
                Some((m, l)) => { if let Ok(mut q) = LAST_PANIC.lock() { q.push((m, l)); } std::panic::resume_unwind(e) }
                None => std::panic::resume_unwind(e),
            }
        }
    }
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_T: AtomicU64 = AtomicU64::new(0);
pub struct Args { pub id: String, pub shard: u64, pub n: u64, pub seed: u64, pub thorough: bool, pub out: PathBuf, pub from: u64, pub only: Option<u64>, pub secs: u64, pub hang: u64 }

pub fn worker(c: &Check, a: Args) -> ! {
    install_hook();
    let start = Instant::now();
    let scratch = a.out.with_extension("d");
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut ctx = Ctx { id: a.id.clone(), seed: a.seed, thorough: a.thorough, shard: a.shard, scratch: scratch.clone(), counters: BTreeMap::new(),
        states: HashSet::new(), samples: vec![], notes: Map::new(), facts: vec![], facts_on: false };
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a.out).expect("out file");
    let hang = a.hang;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let i = CASE.load(Ordering::SeqCst);
        if i != u64::MAX && start.elapsed().as_secs().saturating_sub(CASE_T.load(Ordering::SeqCst)) > hang {
            if CASE.load(Ordering::SeqCst) == i { unsafe { libc::_exit(77) } }
        }
    });
    let total = if a.thorough { c.thorough } else { c.quick };
    let mut put = |v: Value| { let _ = out.write_all(format!("{v}\n").as_bytes()); };
    let mut truncated = false;
    for i in 0..total {
        let shared = i < c.shared;
        if let Some(o) = a.only { if i != o { continue; } } else if !(shared || i % a.n == a.shard) || i < a.from { continue; }
        if start.elapsed().as_secs() >= a.secs { truncated = true; break; }
        put(json!({"t": "b", "i": i}));
        ctx.notes = Map::new();
        ctx.facts_on = shared;
        let mut rng = Rng::from_parts(&[a.seed, hash_str(&a.id), i]);
        CASE_T.store(start.elapsed().as_secs(), Ordering::SeqCst);
        CASE.store(i, Ordering::SeqCst);
        take_panics();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(&mut ctx, i, &mut rng)));
        CASE.store(u64::MAX, Ordering::SeqCst);
        ctx.count("cases", 1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(Stop::Skip)) => ctx.count("cases without a verdict", 1),
            Ok(Err(Stop::Viol { key, what })) => put(json!({"t": "v", "i": i, "key": key, "what": what, "notes": Value::Object(std::mem::take(&mut ctx.notes))})),
            Err(_) => {
                let (m, l) = take_panics().into_iter().last().unwrap_or_default();
                if own_file(&l) { put(json!({"t": "x", "i": i, "what": format!("{m} at {l}")})); }
                else { put(json!({"t": "v", "i": i, "key": panic_key(&m, &l), "what": format!("panicked at {l}: {m}"), "notes": Value::Object(std::mem::take(&mut ctx.notes))})); }
            }
        }
    }
    let facts: Vec<Value> = ctx.facts.iter().map(|(k, v)| json!([k, v])).collect();
    let states: Vec<String> = ctx.states.iter().map(|h| format!("{h:x}")).collect();
    put(json!({"t": "e", "counters": ctx.counters, "states": states, "samples": ctx.samples, "facts": facts, "truncated": truncated}));
    let _ = std::fs::remove_dir_all(&scratch);
    let _ = std::io::stdout().flush();
    // tools/coverage.sh: the profile is written on a regular exit
    if std::env::var_os("LLVM_PROFILE_FILE").is_some() { std::process::exit(0); }
    unsafe { libc::_exit(0) }
}

#[derive(Default)]
struct Sum { counters: BTreeMap<String, u64>, states: BTreeSet<String>, samples: Vec<Value>, viols: Vec<(u64, String, String, Value)>, errors: Vec<String>, facts: BTreeMap<String, (String, u64)>, truncated: bool }

struct Job { shard: u64, child: std::process::Child, out: PathBuf }
fn spawn(id: &str, shard: u64, n: u64, seed: u64, thorough: bool, out: &Path, from: u64, only: Option<u64>, secs: u64, hang: u64) -> std::io::Result<std::process::Child> {
    let exe = std::env::current_exe()?;
    let mut s = format!("ulimit -c 0; ulimit -v 6000000; exec '{}' worker {id} {shard} {n} {seed} {} '{}' {from} {} {secs} {hang}", exe.display(), if thorough { "thorough" } else { "quick" }, out.display(), only.map(|x| x.to_string()).unwrap_or("-".into()));
    s.push_str(" >/dev/null 2>&1 </dev/null");
    Command::new("/bin/sh").arg("-c").arg(s).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn()
}
fn last_begin(out: &Path) -> Option<u64> {
    let s = std::fs::read_to_string(out).unwrap_or_default();
    s.lines().rev().filter_map(|l| serde_json::from_str::<Value>(l).ok()).find(|v| v["t"] == "b").and_then(|v| v["i"].as_u64())
}
fn describe(st: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) { (Some(77), _) => "did not finish".into(), (Some(c), _) if c > 128 => format!("died of signal {}", c - 128), (Some(c), _) => format!("exited with {c}"), (_, Some(s)) => format!("died of signal {s}"), _ => "died".into() }
}

pub fn check(c: &Check) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (secs, hang) = if thorough { (560, 60) } else { (300, 45) };
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let work = verif.join(format!("target/work/{}-{}", c.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    if let Err(e) = std::fs::create_dir_all(&work) { eprintln!("cannot make {}: {e}", work.display()); return 2; }
    let n: u64 = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut sum = Sum::default();
    let mut jobs: Vec<Job> = vec![];
    for shard in 0..n {
        let out = work.join(format!("w{shard}.jsonl"));
        match spawn(c.id, shard, n, seed, thorough, &out, 0, None, secs, hang) { Ok(child) => jobs.push(Job { shard, child, out }), Err(e) => { eprintln!("cannot start a worker: {e}"); return 2; } }
    }
    let mut outs: Vec<PathBuf> = jobs.iter().map(|j| j.out.clone()).collect();
    let mut crashes = 0;
    while !jobs.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut i = 0;
        while i < jobs.len() {
            let st = match jobs[i].child.try_wait() { Ok(Some(st)) => st, Ok(None) => { i += 1; continue; } Err(e) => { sum.errors.push(e.to_string()); jobs.remove(i); continue; } };
            let j = jobs.remove(i);
            if st.success() { continue; }
            // the worker died or gave up in the middle of a case: look at that case alone
            let Some(case) = last_begin(&j.out) else { sum.errors.push(format!("worker {} {} before its first case", j.shard, describe(st))); continue; };
            crashes += 1;
            let solo = work.join(format!("solo{case}-{}.jsonl", j.shard));
            let again = spawn(c.id, j.shard, n, seed, thorough, &solo, 0, Some(case), secs, hang + 30).and_then(|mut ch| ch.wait());
            match again {
                Ok(s) if s.success() => { outs.push(solo); sum.errors.push(format!("case {case}: worker {}, but not when run alone", describe(st))); }
                Ok(s) => sum.viols.push((case, format!("{} in case", if s.code() == Some(77) { "hang" } else { "crash" }), format!("the process {} (twice)", describe(s)), json!({}))),
                Err(e) => sum.errors.push(e.to_string()),
            }
            if crashes <= 6 && t0.elapsed().as_secs() < secs {
                let out = work.join(format!("w{}-{crashes}.jsonl", j.shard));
                outs.push(out.clone());
                if let Ok(child) = spawn(c.id, j.shard, n, seed, thorough, &out, case + 1, None, secs - t0.elapsed().as_secs(), hang) { jobs.push(Job { shard: j.shard, child, out }); }
            }
        }
    }
    for o in &outs {
        for l in std::fs::read_to_string(o).unwrap_or_default().lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            match v["t"].as_str() {
                Some("v") => sum.viols.push((v["i"].as_u64().unwrap_or(0), v["key"].as_str().unwrap_or("").into(), v["what"].as_str().unwrap_or("").into(), v["notes"].clone())),
                Some("x") => sum.errors.push(format!("case {}: harness: {}", v["i"], v["what"].as_str().unwrap_or(""))),
                Some("e") => {
                    for (k, n) in v["counters"].as_object().into_iter().flatten() { *sum.counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0); }
                    for s in v["states"].as_array().into_iter().flatten() { if let Some(s) = s.as_str() { sum.states.insert(s.into()); } }
                    for s in v["samples"].as_array().into_iter().flatten() { if sum.samples.len() < 4 { sum.samples.push(s.clone()); } }
                    if v["truncated"] == true { sum.truncated = true; }
                    for f in v["facts"].as_array().into_iter().flatten() {
                        let (k, x) = (f[0].as_str().unwrap_or("").to_string(), f[1].as_str().unwrap_or("").to_string());
                        match sum.facts.get_mut(&k) {
                            None => { sum.facts.insert(k, (x, 1)); }
                            Some((y, m)) if *y == x => *m += 1,
                            Some((y, _)) => { let y = y.clone(); sum.viols.push((0, "processes disagree".into(), format!("{k}: one process got {y}, another {x}"), json!({}))); }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&work);
    // verdict
    let known: Vec<Value> = std::fs::read_to_string(verif.join("known_findings.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).and_then(|v| v["known"].as_array().cloned()).unwrap_or_default();
    let mut shown: BTreeSet<String> = BTreeSet::new();
    let mut news: Vec<(u64, String, String, Value)> = vec![];
    sum.viols.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    for v in &sum.viols {
        if let Some(k) = known.iter().find(|k| k["property"] == c.id && k["key"] == v.1.as_str()) {
            if shown.insert(v.1.clone()) { println!("KNOWN-FINDING: property={} {}", c.id, k["what"].as_str().unwrap_or(&v.1)); }
        } else { news.push(v.clone()); }
    }
    let evaluations = sum.counters.get("evaluations").copied().unwrap_or(0);
    let processes = sum.facts.values().map(|x| x.1).max().unwrap_or(0);
    let mut cov = json!({"evaluations": evaluations, "distinct_nontrivial": sum.states.len(), "rule": c.rule, "samples": sum.samples, "cases": sum.counters.get("cases"),
        "observed": sum.counters.iter().filter(|(k, _)| *k != "evaluations" && *k != "cases").map(|(k, v)| (k.clone(), json!(v))).collect::<Map<_, _>>(), "stopped_by_time": sum.truncated});
    if processes > 0 { cov["facts_compared_between_processes"] = json!({"facts": sum.facts.len(), "processes": processes}); }
    let ev = json!({"property": c.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": if matches!(c.id, "C28" | "C31" | "C32") { "fault_enumeration" } else { "exploration" }, "coverage": cov,
        "assumptions": c.assumptions, "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0, "violations": news.len(), "known_findings": shown, "harness_errors": sum.errors});
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let evf = verif.join(format!("evidence/{}.json", c.id));
    if std::fs::write(&evf, serde_json::to_string_pretty(&ev).unwrap_or_default() + "\n").is_err() { eprintln!("cannot write evidence"); return 2; }
    println!("{} {}: {} cases, {} evaluations, {} distinct, {} known, {} new, {} harness errors, {:.1} s", c.id, if thorough { "thorough" } else { "quick" }, sum.counters.get("cases").unwrap_or(&0), evaluations, sum.states.len(), shown.len(), news.len(), sum.errors.len(), t0.elapsed().as_secs_f64());
    for e in sum.errors.iter().take(5) { println!("harness: {e}"); }
    if !news.is_empty() {
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let mut keys: BTreeMap<String, usize> = BTreeMap::new();
        for (case, key, what, notes) in &news {
            let k = keys.entry(key.clone()).or_default();
            *k += 1;
            if *k > 1 || keys.len() > 6 { continue; }
            let p = dir.join(format!("{}-{seed}-{case}-{:04x}.json", c.id, hash_str(key) & 0xffff));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": c.id, "seed": seed, "tier": if thorough { "thorough" } else { "quick" }, "case": case, "key": key, "what": what, "notes": notes,
                "replay": format!("VERIF_SEED={seed} VERIF_TIER={} /verif/run.sh replay {} {case}", if thorough { "thorough" } else { "quick" }, c.id)})).unwrap_or_default());
            println!("VIOLATION property={} replay={}", c.id, p.display());
            println!("  [{key}] {}", crate::model::clip(what, 500));
        }
        for (k, n) in keys.iter().filter(|x| *x.1 > 1) { println!("  {n} times: {k}"); }
        return 1;
    }
    if !sum.errors.is_empty() { return 2; }
    if (sum.states.len() as u64) < c.min { println!("inconclusive: only {} distinct observations", sum.states.len()); return 3; }
    0
}

/// Runs one case in this process, printing what happens.
pub fn replay(c: &Check, case: u64) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scratch = std::env::temp_dir().join(format!("ocav-replay-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    install_hook();
    let mut ctx = Ctx { id: c.id.into(), seed, thorough, shard: 0, scratch: scratch.clone(), counters: BTreeMap::new(), states: HashSet::new(), samples: vec![], notes: Map::new(), facts: vec![], facts_on: false };
    let mut rng = Rng::from_parts(&[seed, hash_str(c.id), case]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(&mut ctx, case, &mut rng)));
    for (k, v) in &ctx.notes { eprintln!("== {k}\n{}", v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string())); }
    match r {
        Ok(Ok(())) => eprintln!("held {:?}", ctx.counters),
        Ok(Err(Stop::Skip)) => eprintln!("no verdict"),
        Ok(Err(Stop::Viol { key, what })) => eprintln!("VIOLATED [{key}]\n{what}"),
        Err(_) => eprintln!("PANIC {:?}", take_panics()),
    }
    let _ = std::fs::remove_dir_all(&scratch);
}
