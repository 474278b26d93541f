//! Running checks: task pool, panic/crash attribution, verdicts, evidence, replay files.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static TASK: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub static OP: Cell<[u64; 6]> = const { Cell::new([0; 6]) };
}
static ID: OnceLock<String> = OnceLock::new();
static STARTED: OnceLock<Instant> = OnceLock::new();

/// A broken property: `key` identifies the failing input/site/history for the known-findings file.
#[derive(Debug, Clone)]
pub struct Violation {
    pub key: String,
    pub what: String,
    pub replay: String,
}

impl Violation {
    pub fn new(key: impl Into<String>, what: impl Into<String>) -> Self {
        Violation { key: key.into(), what: what.into(), replay: String::new() }
    }
}

pub type Res<T> = Result<T, Violation>;

/// What a task covered; all counts are measured.
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    /// histories re-executed from the initial state on a fresh object, without state restoration
    pub paths: u64,
    pub evals: u64,
    pub distinct: u64,
    pub bytes: u64,
    pub outcomes: BTreeSet<String>,
    pub notes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub capped: Vec<String>,
}

impl Stats {
    pub fn note(&mut self, k: &str, v: u64) {
        let e = self.notes.entry(k.into()).or_default();
        *e = if k.starts_with("max_") { (*e).max(v) } else { *e + v };
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.paths += o.paths;
        self.evals += o.evals;
        self.distinct += o.distinct;
        self.bytes += o.bytes;
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.notes {
            self.note(&k, v);
        }
        if self.samples.len() < 12 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        self.capped.extend(o.capped);
    }
}

pub struct Task {
    pub name: String,
    pub f: Box<dyn Fn() -> Res<Stats> + Send + Sync>,
}

pub fn task(name: impl Into<String>, f: impl Fn() -> Res<Stats> + Send + Sync + 'static) -> Task {
    Task { name: name.into(), f: Box::new(f) }
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub known: Vec<Violation>,
    pub assumptions: Vec<String>,
    pub rule: String,
    pub vectors: usize,
    /// stop after this many violations
    pub max_violations: usize,
}

/// Run code under test: a panic becomes `Err(message)`.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(false));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

/// Mark that code under test is running (for crash attribution), without catching panics.
#[inline]
pub fn in_sut(on: bool) {
    IN_SUT.with(|c| c.set(on));
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_default()
}

extern "C" fn on_crash(sig: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let inside = IN_SUT.try_with(Cell::get).unwrap_or(false);
    if inside {
        IN_SUT.with(|c| c.set(false));
        let id = ID.get().cloned().unwrap_or_default();
        let t = TASK.with(|t| t.borrow().clone());
        let op = OP.with(Cell::get);
        let v = Violation {
            key: format!("crash:{t}"),
            what: format!("signal {sig} inside the code under test, task {t}, op {op:?}"),
            replay: String::new(),
        };
        if let Ok(p) = std::env::var("VERIF_SUB") {
            let _ = std::fs::write(&p, sub_text(&Stats::default(), std::iter::once(&v)));
            unsafe { libc::_exit(0) };
        }
        let p = write_replay(&id, 0, &v);
        println!("VIOLATION property={id} replay={p}");
        println!("  {}", v.what);
        let wall = STARTED.get().map(|s| s.elapsed().as_secs_f64()).unwrap_or(0.0);
        let tier = tier();
        let _ = std::fs::write(
            format!("{}/evidence/{id}.json", verif_dir()),
            format!(
                "{{\"property\":\"{id}\",\"tier\":\"{tier}\",\"seed\":{},\"level\":\"other\",\"coverage\":{{\"explanation\":{}}},\"wall_s\":{wall:.2},\"violations\":1}}\n",
                seed(),
                js(&v.what)
            ),
        );
        unsafe { libc::_exit(1) };
    }
    // a crash of the harness itself is an error of the check, never a verdict
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

pub fn install_handlers() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!(
            "{} at {}",
            payload(info.payload()),
            info.location().map(|l| l.to_string()).unwrap_or_default()
        );
        let inside = IN_SUT.try_with(Cell::get).unwrap_or(false);
        PANIC_MSG.with(|m| *m.borrow_mut() = msg.clone());
        if !inside {
            eprintln!("harness panic: {msg}");
        }
    }));
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// Remember panic messages instead of printing them.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        if IN_SUT.try_with(Cell::get).unwrap_or(false) {
            PANIC_MSG.with(|m| *m.borrow_mut() = msg);
        } else {
            eprintln!("harness panic: {msg} at {:?}", info.location());
        }
    }));
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, n: usize, v: &Violation) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{id}-{n}.txt");
    let _ = std::fs::write(
        &p,
        format!(
            "property: {id}\nkey: {}\nwhat: {}\nrerun: bash {}/check.sh {id}   (deterministic: the same case fails again)\n{}\n",
            v.key,
            v.what,
            verif_dir(),
            v.replay
        ),
    );
    p
}

pub fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

impl Ctx {
    pub fn new(id: &str, level: &'static str) -> Ctx {
        let _ = ID.set(id.to_string());
        let _ = STARTED.set(Instant::now());
        install_handlers();
        let vectors = crate::refs::self_check();
        Ctx {
            id: id.into(),
            thorough: tier() == "thorough",
            seed: seed(),
            level,
            stats: Stats::default(),
            violations: vec![],
            known: vec![],
            assumptions: vec![],
            rule: String::new(),
            vectors,
            max_violations: 24,
        }
    }

    /// Run all tasks; the violations found are collected (the pool stops early after several).
    pub fn run(&mut self, tasks: Vec<Task>) {
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let out: Mutex<(Stats, Vec<(usize, Violation)>)> = Mutex::new((Stats::default(), vec![]));
        let broken = AtomicBool::new(false);
        let only = std::env::var("VERIF_ONLY").ok();
        let max_violations = self.max_violations;
        let verbose = std::env::var("VERIF_VERBOSE").is_ok();
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= tasks.len() || stop.load(Ordering::SeqCst) {
                                return;
                            }
                            let t = &tasks[i];
                            if let Some(o) = &only {
                                if !t.name.contains(o.as_str()) {
                                    continue;
                                }
                            }
                            TASK.with(|n| *n.borrow_mut() = t.name.clone());
                            let t0 = Instant::now();
                            let r = catch_unwind(AssertUnwindSafe(|| (t.f)()));
                            let was_in_sut = IN_SUT.with(|c| c.replace(false));
                            if verbose {
                                eprintln!("task {} {:.2}s", t.name, t0.elapsed().as_secs_f64());
                            }
                            let r = match r {
                                Ok(r) => r,
                                Err(_) if was_in_sut => {
                                    let m = PANIC_MSG.with(|m| m.borrow().clone());
                                    let op = OP.with(Cell::get);
                                    Err(Violation::new(
                                        format!("panic:{}", t.name),
                                        format!("panic in the code under test: {m} (task {}, op {op:?})", t.name),
                                    ))
                                }
                                Err(_) => {
                                    broken.store(true, Ordering::SeqCst);
                                    stop.store(true, Ordering::SeqCst);
                                    return;
                                }
                            };
                            let mut g = out.lock().unwrap();
                            match r {
                                Ok(st) => g.0.merge(st),
                                Err(mut v) => {
                                    v.what = format!("[{}] {}", t.name, v.what);
                                    g.1.push((i, v));
                                    if g.1.len() >= max_violations {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if broken.load(Ordering::SeqCst) {
            eprintln!("the harness itself failed; no verdict");
            std::process::exit(3);
        }
        let (st, mut vs) = out.into_inner().unwrap();
        self.stats.merge(st);
        vs.sort_by_key(|v| v.0);
        for (_, v) in vs {
            self.report(v);
        }
    }

    pub fn report(&mut self, v: Violation) {
        let kf = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
        let tag = format!("finding: property={} key={} ", self.id, v.key);
        if kf.lines().any(|l| format!("{l} ").starts_with(&tag)) {
            self.known.push(v);
        } else {
            self.violations.push(v);
        }
    }

    /// Write the evidence, print the verdict and exit.
    pub fn finish(self) -> ! {
        if let Ok(p) = std::env::var("VERIF_SUB") {
            std::fs::write(&p, sub_text(&self.stats, self.violations.iter().chain(&self.known))).expect("sub-run file");
            std::process::exit(0);
        }
        let wall = STARTED.get().unwrap().elapsed().as_secs_f64();
        let s = &self.stats;
        let mut cov: Vec<(String, String)> = vec![];
        let mut put = |k: &str, v: String| cov.push((k.to_string(), v));
        if self.level == "model_checking" {
            put("states", s.states.to_string());
            put("transitions", s.transitions.to_string());
            put("traces_validated_against_impl", s.paths.to_string());
            if s.evals > 0 {
                put("evaluations", s.evals.to_string());
            }
        } else {
            put("evaluations", s.evals.to_string());
            put("distinct_nontrivial", s.distinct.to_string());
            if s.states > 0 {
                put("states", s.states.to_string());
                put("transitions", s.transitions.to_string());
            }
        }
        put("rule", js(&self.rule));
        put("exhaustive", (s.capped.is_empty() && self.violations.is_empty()).to_string());
        put("keystream_bytes_compared", s.bytes.to_string());
        put("reference_vectors_checked", self.vectors.to_string());
        put("distinct_outcomes", format!("[{}]", s.outcomes.iter().take(60).map(|o| js(o)).collect::<Vec<_>>().join(",")));
        put("caps_hit", format!("[{}]", s.capped.iter().take(20).map(|o| js(o)).collect::<Vec<_>>().join(",")));
        put("notes", format!("{{{}}}", s.notes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")));
        let mut samples = s.samples.clone();
        if samples.is_empty() {
            samples.push("(none)".into());
        }
        put("samples", format!("[{}]", samples.iter().map(|o| js(o)).collect::<Vec<_>>().join(",")));
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n",
            js(&self.id),
            js(tier()),
            self.seed,
            js(self.level),
            cov.iter().map(|(k, v)| format!("  {}: {v}", js(k))).collect::<Vec<_>>().join(",\n"),
            self.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
            self.violations.len()
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = std::env::var("VERIF_EVIDENCE").unwrap_or(format!("{dir}/{}.json", self.id));
        std::fs::write(&path, ev).expect("evidence file");
        let mut seen = BTreeSet::new();
        for v in self.known.iter().filter(|v| seen.insert(v.key.clone())) {
            println!("KNOWN-FINDING: property={} {}", self.id, v.what);
        }
        println!(
            "{} {}: states={} transitions={} paths={} evals={} bytes={} {:.1}s",
            self.id, tier(), s.states, s.transitions, s.paths, s.evals, s.bytes, wall
        );
        if self.violations.is_empty() {
            std::process::exit(0);
        }
        let mut seen = BTreeSet::new();
        for (n, v) in self.violations.iter().filter(|v| seen.insert(v.key.clone())).enumerate().take(8) {
            let p = write_replay(&self.id, n, v);
            println!("VIOLATION property={} replay={p}", self.id);
            println!("  {}", v.what);
        }
        std::process::exit(1);
    }
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        o.push(match c {
            '\\' => match it.next() {
                Some('n') => '\n',
                Some('t') => '\t',
                Some(c) => c,
                None => '\\',
            },
            c => c,
        });
    }
    o
}

/// Results of a sub-run (the same check in another build configuration), one tab-separated record per line.
fn sub_text<'a>(s: &Stats, v: impl Iterator<Item = &'a Violation>) -> String {
    let mut o = String::new();
    for (k, n) in [("states", s.states), ("transitions", s.transitions), ("paths", s.paths), ("evals", s.evals), ("distinct", s.distinct), ("bytes", s.bytes)] {
        o += &format!("n\t{k}\t{n}\n");
    }
    for (k, n) in &s.notes {
        o += &format!("note\t{}\t{n}\n", esc(k));
    }
    for x in &s.outcomes {
        o += &format!("outcome\t{}\n", esc(x));
    }
    for x in s.samples.iter().take(2) {
        o += &format!("sample\t{}\n", esc(x));
    }
    for x in &s.capped {
        o += &format!("capped\t{}\n", esc(x));
    }
    for v in v {
        o += &format!("v\t{}\t{}\t{}\n", esc(&v.key), esc(&v.what), esc(&v.replay));
    }
    o + "end\n"
}

impl Ctx {
    /// Take over the results of a sub-run. A missing or incomplete file is a failure of the harness.
    pub fn include_sub(&mut self, path: &str, config: &str) {
        let t = std::fs::read_to_string(path).unwrap_or_default();
        if !t.ends_with("end\n") {
            eprintln!("sub-run {config} gave no result; no verdict");
            std::process::exit(3);
        }
        let mut s = Stats::default();
        let mut vs = vec![];
        for l in t.lines() {
            let f: Vec<String> = l.split('\t').map(unesc).collect();
            let num = || f[2].parse::<u64>().unwrap();
            match f[0].as_str() {
                "n" => match f[1].as_str() {
                    "states" => s.states = num(),
                    "transitions" => s.transitions = num(),
                    "paths" => s.paths = num(),
                    "evals" => s.evals = num(),
                    "distinct" => s.distinct = num(),
                    _ => s.bytes = num(),
                },
                "note" => s.note(&f[1], num()),
                "outcome" => {
                    s.outcomes.insert(f[1].clone());
                }
                "sample" => s.samples.push(format!("[{config}] {}", f[1])),
                "capped" => s.capped.push(format!("[{config}] {}", f[1])),
                "v" => vs.push(Violation {
                    key: format!("{config}:{}", f[1]),
                    what: format!("[{config}] {}", f[2]),
                    replay: format!("configuration: {config}\n{}", f[3]),
                }),
                _ => {}
            }
        }
        self.stats.note(&format!("evaluations in configuration {config}"), s.evals.max(s.transitions));
        self.stats.merge(s);
        for v in vs {
            self.report(v);
        }
    }
}

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// First index where the slices differ, rendered.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("length {} instead of {}", got.len(), want.len());
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        None => "equal".into(),
        Some(i) => {
            let e = (i + 8).min(got.len());
            format!("byte {i} of {}: got {} want {}", got.len(), hx(&got[i..e]), hx(&want[i..e]))
        }
    }
}
