//! Running plans under Miri: one build of ../conf per configuration (target, backend), a pool of interpreters.
use crate::plan::Plan;
use crate::run::{Stats, Violation, threads, verif_dir};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// Fast: no search for aliasing violations and invalid values.
pub const QUICK: &str = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation";
pub const FULL: &str = "";

#[derive(Clone, Copy)]
pub struct Config {
    pub name: &'static str,
    pub target: &'static str,
    pub rustflags: &'static str,
    pub width: u32,
}

pub struct Job {
    pub config: usize,
    pub plan: Plan,
    /// flags of the interpreter
    pub flags: &'static str,
}

pub struct Verdicts {
    pub stats: Stats,
    pub violations: Vec<Violation>,
}

fn toolchain() -> String {
    // the directory name of the nightly toolchain, without asking rustup to update anything
    let home = std::env::var("RUSTUP_HOME").unwrap_or(format!("{}/.rustup", std::env::var("HOME").unwrap_or("/root".into())));
    std::fs::read_dir(format!("{home}/toolchains"))
        .ok()
        .and_then(|d| {
            d.filter_map(|e| e.ok()).find(|e| e.path().join("bin/cargo-miri").exists()).and_then(|e| e.file_name().into_string().ok())
        })
        .unwrap_or("nightly".into())
}

const X86_64: &str = "x86_64-unknown-linux-gnu";

/// A copy of the standard library's sources for x86-64 in which the only intrinsic of the AVX-512 backend that Miri
/// does not implement is written out in Rust. `None`: not found where expected; the original is used.
fn library(dir: &str) -> Option<String> {
    let home = std::env::var("RUSTUP_HOME").unwrap_or(format!("{}/.rustup", std::env::var("HOME").unwrap_or("/root".into())));
    let src = format!("{home}/toolchains/{}/lib/rustlib/src/rust/library", toolchain());
    let dst = format!("{dir}/library");
    const FILE: &str = "stdarch/crates/core_arch/src/x86/avx512f.rs";
    const CALL: &str = "unsafe { transmute(vpermi2q256(a.as_i64x4(), idx.as_i64x4(), b.as_i64x4())) }";
    let orig = std::fs::read_to_string(format!("{src}/{FILE}")).ok()?;
    if orig.matches(CALL).count() != 1 {
        return None;
    }
    let new = orig.replace(
        CALL,
        "unsafe {
        let (a, i, b): ([i64; 4], [i64; 4], [i64; 4]) = (transmute(a), transmute(idx), transmute(b));
        let mut r = [0i64; 4];
        let mut k = 0;
        while k < 4 {
            let j = (i[k] & 3) as usize;
            r[k] = if i[k] & 4 == 0 { a[j] } else { b[j] };
            k += 1;
        }
        transmute(r)
    }",
    );
    if std::fs::read_to_string(format!("{dst}/{FILE}")).ok().as_deref() != Some(&new) {
        let tmp = format!("{dir}/library-{}", std::process::id());
        let ok = Command::new("cp").args(["-a", &src, &tmp]).status().is_ok_and(|s| s.success());
        if !ok || std::fs::write(format!("{tmp}/{FILE}"), new).is_err() {
            return None;
        }
        let _ = std::fs::remove_dir_all(&dst);
        std::fs::rename(&tmp, &dst).ok()?;
    }
    Some(dst)
}

fn cargo(dir: &str, target: &str) -> Command {
    let mut c = Command::new("cargo");
    for v in ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "MIRIFLAGS", "RUSTC_WRAPPER", "MIRI_LIB_SRC"] {
        c.env_remove(v);
    }
    c.env("RUSTUP_TOOLCHAIN", toolchain())
        .env("CARGO_NET_OFFLINE", "true")
        .env("XDG_CACHE_HOME", format!("{dir}/cache-{target}"))
        .current_dir(format!("{}/conf", verif_dir()))
        .stdin(Stdio::null());
    c
}

/// `Err`: no verdict possible (the harness cannot build or run).
fn output(mut c: Command, limit: Duration) -> Result<(bool, String, String), String> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("spawn: {e}"))?;
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    use std::io::Read;
    let to = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = o.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let te = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break s,
            None if t0.elapsed() > limit => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err("timed out".into());
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    Ok((st.success(), to.join().unwrap(), te.join().unwrap()))
}

fn die(what: String) -> ! {
    eprintln!("{what}\nno verdict");
    std::process::exit(3)
}

fn parallel<T: Sync, R: Send>(items: &[T], n: usize, f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..n.min(items.len()).max(1) {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(x) = items.get(i) else { return };
                    let r = f(x);
                    out.lock().unwrap().insert(i, r);
                }
            });
        }
    });
    out.into_inner().unwrap().into_values().collect()
}

/// Run all jobs. A run that stops for an undefined operation is a violation whatever the flags: it gives no result.
pub fn run(configs: &[Config], jobs: Vec<Job>) -> Verdicts {
    let dir = format!("{}/target/miri", verif_dir());
    let work = format!("{dir}/work-{}", std::process::id());
    std::fs::create_dir_all(&work).unwrap_or_else(|e| die(format!("{work}: {e}")));
    let only = std::env::var("VERIF_ONLY").ok();
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    let jobs: Vec<Job> = jobs
        .into_iter()
        .filter(|j| only.as_ref().is_none_or(|o| format!("{}/{}", configs[j.config].name, j.plan.name).contains(o.as_str())))
        .collect();
    let used: Vec<usize> = (0..configs.len()).filter(|&c| jobs.iter().any(|j| j.config == c)).collect();
    // sysroots
    let mut targets: Vec<&str> = used.iter().map(|&c| configs[c].target).collect();
    targets.sort();
    targets.dedup();
    let t0 = Instant::now();
    let lib = if targets.contains(&X86_64) { library(&dir) } else { None };
    let roots: BTreeMap<&str, String> = parallel(&targets, 8, |t| {
        let mut c = cargo(&dir, t);
        if let Some(l) = lib.as_ref().filter(|_| *t == X86_64) {
            c.env("MIRI_LIB_SRC", l);
        }
        c.args(["miri", "setup", "--target", t, "--print-sysroot"]);
        match output(c, Duration::from_secs(600)) {
            Ok((true, o, _)) => (*t, o.trim().to_string()),
            Ok((_, _, e)) => die(format!("sysroot for {t}: {e}")),
            Err(e) => die(format!("sysroot for {t}: {e}")),
        }
    })
    .into_iter()
    .collect();
    let command = |c: &Config, plan: &str, flags: &str| {
        let mut k = cargo(&dir, c.target);
        k.env("MIRI_SYSROOT", &roots[c.target])
            .env("RUSTFLAGS", format!("-A warnings {}", c.rustflags))
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation {flags}"))
            .args(["miri", "run", "-q", "--target", c.target, "--target-dir", &format!("{dir}/{}", c.name), "--", plan]);
        k
    };
    // build each configuration once, on an empty plan
    let empty = format!("{work}/empty");
    std::fs::write(&empty, Plan::new(String::new(), 64).finish().b).unwrap();
    parallel(&used, 8, |&i| {
        for last in [false, true] {
            match output(command(&configs[i], &empty, QUICK), Duration::from_secs(600)) {
                Ok((true, o, _)) if o.contains("OK 0") => return,
                // perhaps built with another standard library
                _ if !last => drop(std::fs::remove_dir_all(format!("{dir}/{}", configs[i].name))),
                Ok((_, o, e)) => die(format!("configuration {}: {o}{e}", configs[i].name)),
                Err(e) => die(format!("configuration {}: {e}", configs[i].name)),
            }
        }
    });
    if verbose {
        eprintln!("set up in {:.1}s, {} jobs", t0.elapsed().as_secs_f64(), jobs.len());
    }
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    order.sort_by_key(|&i| std::cmp::Reverse(jobs[i].plan.cost * if configs[jobs[i].config].name.contains("neon") { 2 } else { 1 }));
    // after a violation, the rest is not run
    let found = std::sync::atomic::AtomicBool::new(false);
    let res = parallel(&order, threads(), |&i| {
        if found.load(Ordering::SeqCst) {
            return None;
        }
        let j = &jobs[i];
        let c = &configs[j.config];
        let f = format!("{work}/{i}");
        std::fs::write(&f, &j.plan.b).unwrap_or_else(|e| die(format!("{f}: {e}")));
        let t0 = Instant::now();
        let (_, o, e) = output(command(c, &f, j.flags), Duration::from_secs(780)).unwrap_or_else(|e| die(format!("{}/{}: {e}", c.name, j.plan.name)));
        let _ = std::fs::remove_file(&f);
        let dt = t0.elapsed().as_secs_f64();
        if verbose {
            eprintln!("{}/{}: {} ops, cost {:.1}M, {dt:.1}s", c.name, j.plan.name, j.plan.what.len(), j.plan.cost as f64 / 1e6);
        }
        if o.contains("MISMATCH ") || o.contains('.') && e.contains("error:") && !e.contains("unsupported operation") {
            found.store(true, Ordering::SeqCst);
        }
        Some((i, o, e))
    });
    let _ = std::fs::remove_dir_all(&work);
    let mut v = Verdicts { stats: Stats::default(), violations: vec![] };
    for (i, o, e) in res.into_iter().flatten() {
        let (c, p) = (&configs[jobs[i].config], &jobs[i].plan);
        let what = |n: usize| p.what.get(n).cloned().unwrap_or_default();
        let bad = |n: usize, text: String, more: &str| {
            let mut v = Violation::new(format!("{}:{}", c.name, what(n)), format!("[{}] {}: {text}", c.name, what(n)));
            v.replay = format!("configuration: {} (target {}, RUSTFLAGS {:?})\nplan {} operation {n}\n{}\n{text}\n{more}", c.name, c.target, c.rustflags, p.name, what(n));
            v
        };
        let dots = o.bytes().filter(|&b| b == b'.').count();
        if let Some(l) = o.lines().find(|l| l.starts_with("MISMATCH ")) {
            let mut it = l.splitn(3, ' ').skip(1);
            let n: usize = it.next().and_then(|n| n.parse().ok()).unwrap_or(0);
            v.violations.push(bad(n, it.next().unwrap_or("").into(), ""));
        } else if o.lines().any(|l| l == format!("OK {}", p.what.len())) {
            v.stats.transitions += p.what.len() as u64;
            v.stats.paths += p.histories;
            v.stats.samples.push(format!("{}/{}: {}", c.name, p.name, what(p.what.len() / 2)));
            v.stats.note(&format!("operations on {}", c.name), p.what.len() as u64);
        } else if e.contains("unsupported operation") {
            let l = e.lines().find(|l| l.contains("unsupported operation")).unwrap_or("");
            v.stats.capped.push(format!("{}/{}: after {dots} operations: {l}", c.name, p.name));
        } else if let Some(l) = e.lines().find(|l| l.starts_with("error:") && dots > 0) {
            // undefined behaviour, abnormal termination, overflow of the stack: in the operation just begun
            let at = e.lines().find(|l| l.trim_start().starts_with("--> ") || l.trim_start().starts_with("╭▸")).unwrap_or("").trim();
            v.violations.push(bad(dots - 1, format!("{l} {at}"), &e));
        } else {
            die(format!("{}/{}: no result\n{o}\n{e}", c.name, p.name));
        }
    }
    v
}

/// Distribute pieces of a plan, each one self-contained, over about `n` shards of similar cost.
pub struct Shards {
    pub name: String,
    width: u32,
    max: u64,
    cur: Plan,
    pub done: Vec<Plan>,
}

impl Shards {
    pub fn new(name: &str, width: u32, max: u64) -> Shards {
        Shards { name: name.into(), width, max, cur: Plan::new(format!("{name}-0"), width), done: vec![] }
    }
    /// The plan to append the next self-contained history to.
    pub fn plan(&mut self) -> &mut Plan {
        if self.cur.cost > self.max {
            let next = Plan::new(format!("{}-{}", self.name, self.done.len() + 1), self.width);
            self.done.push(std::mem::replace(&mut self.cur, next).finish());
        }
        &mut self.cur
    }
    pub fn finish(mut self) -> Vec<Plan> {
        if !self.cur.what.is_empty() {
            self.done.push(self.cur.finish());
        }
        self.done
    }
}
