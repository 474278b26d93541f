//! C11: every backend and build configuration of the chacha20 crate gives identical results.
//!
//! This binary is built once per configuration and run as a sub-run. Each task is executed in every lane of the
//! configuration (a lane is a reported CPU feature set, where detection is automatic) and yields either "as specified" or the
//! text of its first deviation. The last build merges all lanes of all configurations: lanes that do not agree are a violation.
//! A deviation that is the same everywhere is no business of this property.
use mc::alpha;
use mc::bfs::{Explore, Op};
use mc::core::*;
use mc::corerun::{Run, scripts};
use mc::kinds::*;
use mc::rng::*;
use mc::run::{Ctx, Res, Stats, Violation, task, tier};
use std::collections::{BTreeMap, HashMap};

const CHACHAS: [Kind; 10] = [
    Kind::ChaCha8,
    Kind::ChaCha12,
    Kind::ChaCha20,
    Kind::ChaCha20Legacy,
    Kind::Legacy8Seed,
    Kind::Legacy12Seed,
    Kind::Legacy20Seed,
    Kind::XChaCha8,
    Kind::XChaCha12,
    Kind::XChaCha20,
];

fn stream(kind: Kind, env: u32, th: bool) -> Res<Stats> {
    let (key, iv) = alpha::few(kind.klen(), kind.ivlen(), 1).remove(0);
    let limit = kind.limit();
    let mut w = vec![kind.window(&key, &iv, 0, 64 * 24), kind.window(&key, &iv, limit - 64 * 12, 64 * 12)];
    let mut centres = vec![0u128, limit];
    if kind.ctr_bits() == Some(64) {
        let c = 64u128 << 32;
        w.push(kind.window(&key, &iv, c - 64 * 10, 64 * 22));
        centres.push(c);
    }
    let mut lens: Vec<usize> = if th { (0..=700).collect() } else { vec![0, 1, 31, 63, 64, 65, 100] };
    for k in [2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17] {
        lens.extend([k * 64 - 1, k * 64, k * 64 + 1]);
    }
    lens.sort();
    lens.dedup();
    let mut seeks = vec![];
    for &c in &centres {
        for b in -9i128..=9 {
            for d in [0, 1, 40, 63] {
                let p = c as i128 + 64 * b + d;
                if p >= 0 {
                    seeks.push(p as u128);
                }
            }
        }
    }
    let ops = |pos: u128| -> Vec<Op> {
        let mut v = vec![];
        for &n in &lens {
            v.extend([Form::TryApply, Form::TryB2b, Form::TryWrite].map(|f| Op::Consume(f, n)));
        }
        if pos == 0 || pos % 64 == 1 {
            v.extend(seeks.iter().map(|&p| Op::Seek(p, Ty::U128, false)));
        }
        v
    };
    Explore { kind, env, key: &key, iv: &iv, windows: &w, ops: &ops, rems: &[0, 1, 64, 65, 640, usize::MAX], max_states: 100_000 }.run()
}

fn core_ops(kind: Kind, th: bool) -> Vec<COp> {
    let mut v = vec![COp::WriteBlock, COp::ApplyBlock, COp::ApplyBlockInOut];
    for n in (0..=18).chain([23, 24, 25, 31, 32, 33]) {
        v.extend([COp::WriteBlocks(n), COp::ApplyBlocks(n), COp::ApplyBlocksInOut(n)]);
    }
    for n in [0, 1, 63, 64, 65, 128, 200, 256, 300, 512, 513, 1024, 1100] {
        v.push(COp::Partial(n, n % 2 == 0, false));
    }
    v.extend(scripts(if th { 2 } else { 1 }));
    if has_generate(kind) {
        v.push(COp::Generate);
    }
    v
}

fn core_history(kind: Kind, env: u32, th: bool) -> Res<Stats> {
    let key = alpha::base(kind.klen(), 0x91);
    let iv = alpha::base(kind.ivlen(), 0x4e);
    let wide = kind.ctr_bits() == Some(64);
    let mask = if wide { u64::MAX } else { u32::MAX as u64 };
    let near = 18u64;
    let centres = if wide { vec![0, 1u64 << 32] } else { vec![0, 1 << 31] };
    let mut sets = vec![];
    for &c in &centres {
        for d in 0..2 * near {
            sets.push(COp::Set(c.wrapping_sub(near).wrapping_add(d) & mask));
        }
    }
    let cs = centres.clone();
    let inside = move |p: u64| cs.iter().any(|&c| (p.wrapping_sub(c).wrapping_add(near) & mask) < 2 * near);
    let base = core_ops(kind, th);
    let ops = move |p: u64| {
        let mut v = base.clone();
        if p < 2 {
            v.extend(sets.iter().cloned());
        }
        v
    };
    Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: plain(3, 64 * 40) }.bfs(&ops, &inside)
}

fn core_sweep(kind: Kind, env: u32, th: bool) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let bits = kind.ctr_bits().unwrap();
    let mask = if bits == 64 { u64::MAX } else { u32::MAX as u64 };
    let data = plain(9, 64 * 40);
    // every carry position of the counter
    let key = alpha::base(kind.klen(), 0x91);
    let iv = alpha::base(kind.ivlen(), 0x4e);
    let mut r = Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: data.clone() };
    let mut o = make_core(kind, &key, &iv);
    let mut sizes = vec![COp::WriteBlocks(1), COp::WriteBlocks(5), COp::ApplyBlocks(8), COp::ApplyBlocksInOut(9), COp::WriteBlocks(23), COp::Partial(700, true, false)];
    if has_generate(kind) {
        sizes.push(COp::Generate);
    }
    for a in alpha::arounds(bits) {
        for d in if th { -18i64..=1 } else { -5..=0 } {
            for op in &sizes {
                let h = [COp::Set((a as u64).wrapping_add(d as u64) & mask), op.clone(), COp::WriteBlock];
                let mut pos = 0;
                for (j, op) in h.iter().enumerate() {
                    pos = r.exec(o.as_mut(), pos, op, &mut st).map_err(|e| r.viol(e, &h[..=j]))?;
                    r.queries(o.as_ref(), pos).map_err(|e| r.viol(e, &h[..=j]))?;
                    st.transitions += 1;
                }
                st.paths += 1;
            }
        }
        r.memo.clear();
    }
    // keys and nonces
    for (i, (key, iv)) in alpha::key_iv(kind.klen(), kind.ivlen(), th).into_iter().enumerate() {
        if !th && i % 3 != 0 && i > 40 {
            continue;
        }
        let mut r = Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: data.clone() };
        let mut o = make_core(kind, &key, &iv);
        let mut h = vec![COp::ApplyBlocks(6), COp::Set(mask - 1), COp::WriteBlocks(5)];
        if has_generate(kind) {
            h.push(COp::Generate);
        }
        let mut pos = 0;
        for (j, op) in h.iter().enumerate() {
            pos = r.exec(o.as_mut(), pos, op, &mut st).map_err(|e| r.viol(e, &h[..=j]))?;
            st.transitions += 1;
        }
        st.states += 1;
        st.paths += 1;
    }
    Ok(st)
}

fn rng_history(k: RngKind, env: u32, th: bool) -> Res<Stats> {
    let near = if th { 24u128 } else { 10 };
    let inside = move |m: &Model| {
        let b = m.pos >> 4;
        b < near || (b >= (1 << 32) - near / 2 && b < (1 << 32) + near / 2) || b >= (1 << 64) - near / 2
    };
    let ops = move |m: &Model| {
        let mut v = vec![RngOp::U32(0), RngOp::U64(0), RngOp::SerDe, RngOp::Query];
        let fills: Vec<usize> = if th { (0..=600).collect() } else { vec![0, 1, 3, 4, 5, 8, 60, 63, 64, 65, 128, 250, 255, 256, 257, 260, 512, 516] };
        v.extend(fills.into_iter().map(|n| RngOp::Fill(0, n)));
        v.push(RngOp::SetStream(0x8070_6050_4030_2010));
        if m.pos >> 4 < near {
            v.extend([RngOp::SetBlock((1 << 32) - 5), RngOp::SetWord(((1 << 32) - 3) << 4 | 9), RngOp::SetBlock(u64::MAX - 4), RngOp::SetWord(MASK68 - 20), RngOp::SetWord(37)]);
        }
        v
    };
    let seed = alpha::base(32, 0x21).try_into().unwrap();
    let mut st = Stats::default();
    for look in [Look::Queries, Look::Ser] {
        st.merge(RngExplore { k, env, seed, ops: &ops, inside: &inside, look, max_states: 100_000 }.run()?.0);
    }
    Ok(st)
}

fn rng_sweep(k: RngKind, env: u32, th: bool) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let mut rw = RefWords::new(k.rounds());
    for (i, s) in alpha::strings(40, th).into_iter().enumerate() {
        if !th && i % 3 != 0 && i > 40 {
            continue;
        }
        let mut m = Model { seed: s[..32].try_into().unwrap(), stream: 0, pos: 0 };
        let stream = u64::from_le_bytes(s[32..].try_into().unwrap());
        let mut o = k.make(m.seed);
        let h = [RngOp::U64(0), RngOp::SetStream(stream), RngOp::U32(0), RngOp::Fill(0, 330), RngOp::SerDe, RngOp::U64(0)];
        for (j, &op) in h.iter().enumerate() {
            let fail = |e: String| Violation::new(format!("{k:?}:{}", mc::run::hx(&s)), format!("{k:?}, seed and stream {}, {:?}: {e}", mc::run::hx(&s), &h[..=j]));
            st.bytes += step(k, &mut o, &mut m, op, &mut rw).map_err(fail)?;
            st.transitions += 1;
        }
        rw = RefWords::new(k.rounds());
        st.states += 1;
        st.paths += 1;
    }
    for a in alpha::arounds(64) {
        for d in -4i128..=1 {
            let p = (((a as i128 + d) as u128) & u64::MAX as u128) << 4 | 9;
            let mut m = Model { seed: alpha::base(32, 0x77).try_into().unwrap(), stream: 0, pos: 0 };
            let mut o = k.make(m.seed);
            let h = [RngOp::SetWord(p), RngOp::Fill(0, 64 * 9), RngOp::U64(0)];
            for (j, &op) in h.iter().enumerate() {
                let fail = |e: String| Violation::new(format!("{k:?}:{p}"), format!("{k:?}, {:?}: {e}", &h[..=j]));
                st.bytes += step(k, &mut o, &mut m, op, &mut rw).map_err(fail)?;
                check_queries(o.as_ref(), &m).map_err(fail)?;
                st.transitions += 1;
            }
            st.paths += 1;
        }
    }
    Ok(st)
}

/// Reported feature sets explored in this build.
fn lanes() -> Vec<(String, u32)> {
    if std::env::var("VERIF_LANES").as_deref() == Ok("one") {
        return vec![("-".into(), u32::MAX)];
    }
    let have = [
        ("sse2", cpufeatures::SSE2, true),
        ("avx2", cpufeatures::AVX2, std::arch::is_x86_feature_detected!("avx2")),
        ("avx512f", cpufeatures::AVX512F, std::arch::is_x86_feature_detected!("avx512f")),
        ("avx512vl", cpufeatures::AVX512VL, std::arch::is_x86_feature_detected!("avx512vl")),
    ];
    let n = if cfg!(chacha20_avx512) { 4 } else { 2 };
    let mut v = vec![];
    for m in 0..1u32 << n {
        let sel: Vec<_> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| have[i]).collect();
        if sel.iter().all(|f| f.2) {
            let name = sel.iter().map(|f| f.0).collect::<Vec<_>>().join("+");
            v.push((if name.is_empty() { "none".into() } else { name }, sel.iter().fold(0, |a, f| a | f.1)));
        }
    }
    v
}

type Section = (String, Box<dyn Fn(u32) -> Res<Stats> + Send + Sync>);

fn sections(th: bool) -> Vec<Section> {
    let mut v: Vec<Section> = vec![];
    for kind in CHACHAS {
        v.push((format!("{kind:?} stream histories"), Box::new(move |e| stream(kind, e, th))));
        v.push((format!("{kind:?} core histories"), Box::new(move |e| core_history(kind, e, th))));
        v.push((format!("{kind:?} core inputs and counters"), Box::new(move |e| core_sweep(kind, e, th))));
    }
    for k in RNGS {
        v.push((format!("{k:?} histories"), Box::new(move |e| rng_history(k, e, th))));
        v.push((format!("{k:?} inputs and positions"), Box::new(move |e| rng_sweep(k, e, th))));
    }
    v
}

fn main() {
    let mut c = Ctx::new("C11", "model_checking");
    c.max_violations = usize::MAX;
    let th = tier() == "thorough";
    let config = std::env::var("VERIF_CONFIG").unwrap_or("default".into());
    c.rule = "the same closed sets of call histories (byte-level calls and seeks in windows at the start, at 2^32 blocks and at the end; \
              block-level calls around counter wraps; RNG draws, positioning and serialization; keys, nonces and seeds of an alphabet) \
              explored in every build configuration and, under automatic detection, every subset of the four CPU features dispatched on; \
              each lane is compared with the same model, and all lanes must agree. Feature combinations: a fixed transcript of every \
              available item, compared between all combinations. Every documented configuration and combination must compile"
        .into();
    let mut tasks = vec![];
    for (lane, mask) in lanes() {
        c.stats.outcomes.insert(format!("lane {config}/{lane}"));
        for (name, f) in sections(th) {
            let (config, lane) = (config.clone(), lane.clone());
            tasks.push(task(format!("{name} {config}/{lane}"), move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(mask)));
                match r {
                    Ok(Ok(s)) => Ok(s),
                    Ok(Err(v)) => Err(Violation {
                        key: format!("{name}|{config}/{lane}"),
                        // the name of the feature set is no part of the behaviour
                        what: ["soft", "sse2", "avx2", "avx512", "mixed"].iter().fold(v.what, |w, e| w.replace(&format!("/{e}:"), ":")),
                        replay: v.replay,
                    }),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }));
        }
    }
    c.run(tasks);
    if std::env::var("VERIF_SUB").is_ok() {
        c.finish();
    }
    // merge
    if let Ok(l) = std::env::var("VERIF_MERGE") {
        for f in l.split_whitespace() {
            let (config, path) = f.split_once('=').unwrap();
            c.include_sub(path, config);
        }
    }
    let total = c.stats.outcomes.iter().filter(|o| o.starts_with("lane ")).count();
    let mut groups: BTreeMap<String, Vec<Violation>> = BTreeMap::new();
    for mut v in std::mem::take(&mut c.violations) {
        // "[task] text" -> text
        while v.what.starts_with('[') {
            let Some((_, rest)) = v.what.split_once("] ") else { break };
            v.what = rest.to_string();
        }
        let k = v.key.split('|').next().unwrap().rsplit(':').next().unwrap().to_string();
        groups.entry(k).or_default().push(v);
    }
    for (task, vs) in groups {
        if vs.len() == total && vs.iter().all(|v| v.what == vs[0].what) {
            c.stats.note(&format!("deviation from the model common to all lanes in {task}"), 1);
            continue;
        }
        let lanes: Vec<&str> = vs.iter().map(|v| v.key.split('|').nth(1).unwrap_or("")).collect();
        let v = &vs[0];
        let mut n = Violation::new(task.clone(), format!("{task}: {} of {total} lanes deviate ({}): {}", vs.len(), lanes.join(", "), v.what));
        n.replay = v.replay.clone();
        c.violations.push(n);
    }
    // problems found by the script: configurations that do not compile, feature combinations that differ
    if let Ok(p) = std::env::var("VERIF_PROBLEMS") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            let (k, w) = l.split_once('\t').unwrap_or((l, l));
            c.report(Violation::new(k.to_string(), w.to_string()));
        }
    }
    if let Ok(p) = std::env::var("VERIF_COUNTS") {
        for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
            if let Some((k, n)) = l.split_once('\t') {
                c.stats.note(k, n.parse().unwrap_or(0));
            }
        }
    }
    c.finish()
}
