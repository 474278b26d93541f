//! C21: no instruction beyond the reported CPU features is executed.
use mc::alpha;
use mc::kinds::*;
use mc::run::*;
use mc::scn::*;
use mc::step::{self, *};
use std::collections::BTreeMap;

/// What may be executed when the CPU reports `mask`.
fn allowed(mask: u32) -> u32 {
    use cpufeatures as c;
    let mut a = 0;
    for (bit, x) in [
        (c::SSE3, X_SSE3), (c::SSSE3, X_SSSE3), (c::SSE41, X_SSE41), (c::SSE42, X_SSE42), (c::AVX, X_AVX), (c::AVX2, X_AVX2),
        // every CPU with avx512f has fma and f16c (architecturally implied)
        (c::AVX512F, X_F | X_FMA | X_F16C), (c::AVX512VL, X_VL), (c::AVX512BW, X_BW), (c::AVX512DQ, X_DQ),
    ] {
        if mask & bit != 0 {
            a |= x;
        }
    }
    a
}

/// Every feature set closed under implication that this machine can execute.
fn sets() -> Vec<u32> {
    use cpufeatures as c;
    let mut v = vec![0];
    let mut m = 0;
    let have = envs();
    let avx2 = have.iter().any(|e| e.0 == "avx2");
    let avx512 = std::arch::is_x86_feature_detected!("avx512f") && std::arch::is_x86_feature_detected!("avx512vl");
    for b in [c::SSE2, c::SSE3, c::SSSE3, c::SSE41, c::SSE42, c::AVX, c::AVX2] {
        m |= b;
        if b != c::AVX2 || avx2 {
            v.push(m);
        }
    }
    if avx512 {
        m |= c::AVX512F;
        for k in 0..8 {
            let mut s = m;
            for (i, b) in [c::AVX512VL, c::AVX512BW, c::AVX512DQ].iter().enumerate() {
                if k >> i & 1 != 0 {
                    s |= b;
                }
            }
            v.push(s);
        }
    }
    v
}

fn set_name(mask: u32) -> String {
    if mask == 0 {
        return "none".into();
    }
    let x = x_names(allowed(mask) & !(X_FMA | X_F16C));
    if mask & cpufeatures::SSE2 != 0 && x == "baseline" { "sse2".into() } else { x }
}

struct Seen {
    lo: u64,
    bits: Vec<u64>,
    new: Vec<u64>,
    foreign: u64,
}

fn explore(name: &str, mask: u32, allowed: u32, scns: Vec<(String, Box<dyn Fn() -> Box<dyn Scn>>)>, ivlen: usize) -> Res<Stats> {
    step::init();
    cpufeatures::set_env(mask);
    let mut st = Stats::default();
    let (lo, hi) = text();
    let mut seen = Seen { lo, bits: vec![0; (hi - lo) as usize / 64 + 1], new: Vec::with_capacity(1 << 20), foreign: 0 };
    let sec = Secret { name: String::new(), key: alpha::base(32, 9), iv: alpha::base(ivlen, 5), data: alpha::base(64, 1) };
    let mut used: BTreeMap<u32, u64> = BTreeMap::new();
    for (op, make) in scns {
        let mut s = make();
        s.prep(&sec);
        let mut steps = 0u64;
        let mut r = Ok(());
        {
            let seen = &mut seen;
            let steps = &mut steps;
            let mut hook = |uc: &mut libc::ucontext_t| {
                *steps += 1;
                let i = rip(uc).wrapping_sub(seen.lo);
                match seen.bits.get_mut((i / 64) as usize) {
                    None => seen.foreign += 1,
                    Some(w) => {
                        if *w >> (i % 64) & 1 == 0 {
                            *w |= 1 << (i % 64);
                            if seen.new.len() < seen.new.capacity() {
                                seen.new.push(i);
                            }
                        }
                    }
                }
            };
            let r = &mut r;
            stepped(&mut || *r = sut(|| s.op()), &mut hook);
        }
        if let Err(m) = r {
            return Err(Violation::new(format!("{name}:{op}"), format!("{name}: {op}: panic: {m}")));
        }
        st.evals += 1;
        st.states += steps;
        for i in seen.new.drain(..) {
            let code = code_at(seen.lo + i);
            let Some(n) = decode(&code) else { continue };
            let x = needs(&n);
            *used.entry(x).or_default() += 1;
            if x & !allowed != 0 {
                let mut v = Violation::new(
                    format!("{name}:{}", x_names(x & !allowed)),
                    format!("{name}: {op} executes an instruction needing {} (bytes {} at text+{i:#x}), which the CPU does not report", x_names(x & !allowed), hx(&code[..8])),
                );
                v.replay = format!("reported features: {}\noperation: {op}\ninstruction bytes: {}\ndecoded: {n:?}", set_name(mask), hx(&code));
                return Err(v);
            }
        }
    }
    let distinct: u64 = used.values().sum();
    st.distinct = distinct;
    for (x, n) in &used {
        st.outcomes.insert(format!("{name}: {}", x_names(*x)));
        st.note(&format!("distinct instructions of class {}", x_names(*x)), *n);
    }
    st.note("instructions_stepped", st.states);
    st.note("instructions_in_shared_libraries", seen.foreign);
    st.samples.push(format!("{name}: {} operations, {distinct} distinct instructions, classes {:?}", st.evals, used.keys().map(|x| x_names(*x)).collect::<Vec<_>>()));
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C21", "exploration");
    let n = step::self_check();
    c.rule = format!(
        "for every feature set closed under implication (sse2 .. avx2, then avx512f with every subset of vl/bw/dq) and every forced backend: \
         all operations of all chacha20 ciphers and RNGs over all batch shapes are executed instruction by instruction, each executed \
         instruction of the executable is decoded and the extension it needs must be in the set. Distinct = distinct executed instruction \
         addresses per (type, set) ({n} classifier self-checks)"
    );
    let config = std::env::var("VERIF_CONFIG").unwrap_or("auto".into());
    let t = tier() == "thorough";
    let forced = match config.as_str() {
        "soft" | "sse2" => Some(0),
        "avx2" => Some(X_SSE3 | X_SSSE3 | X_SSE41 | X_SSE42 | X_AVX | X_AVX2),
        "avx512" => Some(X_SSE3 | X_SSSE3 | X_SSE41 | X_SSE42 | X_AVX | X_AVX2 | X_FMA | X_F16C | X_F | X_VL),
        _ => None,
    };
    let list: Vec<(String, u32, u32)> = match forced {
        // a forced backend must not depend on what is reported
        Some(a) => vec![(format!("forced {config}"), 0, a), (format!("forced {config}, everything reported"), AVX512, a)],
        None => sets().into_iter().map(|m| (set_name(m), m, allowed(m))).collect(),
    };
    let mut tasks = vec![];
    for (sname, mask, allow) in list {
        for kind in CHACHAS {
            let name = format!("{kind:?}/{sname}");
            tasks.push(task(name.clone(), move || {
                let mut v: Vec<(String, Box<dyn Fn() -> Box<dyn Scn>>)> = vec![];
                let mut put = |pos: u64, act: Act| v.push((format!("{act:?} at position {pos}"), Box::new(move || cipher(kind, pos, act))));
                put(0, Act::New);
                let full = t || kind.rounds() == 20;
                for pos in [0u64, 17, 64 * 3, 64 * ((1 << 31) - 3)] {
                    let step = if full { 64 } else { 192 };
                    for n in (0..=if full { 1280 } else { 576 }).step_by(step) {
                        put(pos, Act::Use(Form::Apply, n));
                        put(pos, Act::Use(Form::Write, n + 13));
                    }
                }
                for form in [Form::TryApply, Form::TryB2b, Form::TryInOut, Form::UncheckedApply] {
                    for n in [1, 64, 256, 300, 1100] {
                        put(0, Act::Use(form, n));
                    }
                }
                put(0, Act::Seek(100));
                put(70, Act::Seek(64 * 1000 + 3));
                put(70, Act::Pos);
                explore(&name, mask, allow, v, kind.ivlen())
            }));
        }
        for rounds in [8, 12, 20] {
            let name = format!("ChaCha{rounds}Rng/{sname}");
            tasks.push(task(name.clone(), move || {
                let mut v: Vec<(String, Box<dyn Fn() -> Box<dyn Scn>>)> = vec![];
                let mut put = |wp: u128, act: Act| v.push((format!("{act:?} at word {wp}"), Box::new(move || rng(rounds, wp, act))));
                put(0, Act::New);
                for wp in [0u128, 5, 64, 16 * ((1 << 32) - 2) + 1, 16 * ((1u128 << 64) - 3) + 15] {
                    for act in [Act::U32, Act::U64, Act::Mixed, Act::SetWordPos(77), Act::SetStream(3), Act::Serialize, Act::Deserialize] {
                        put(wp, act);
                    }
                    for n in [0, 1, 3, 4, 64, 252, 256, 257, 511, 1030] {
                        put(wp, Act::Fill(n));
                    }
                }
                explore(&name, mask, allow, v, 8)
            }));
        }
    }
    c.run(tasks);
    if let Ok(l) = std::env::var("VERIF_MERGE") {
        for p in l.split(' ').filter(|p| !p.is_empty()) {
            let (name, path) = p.split_once('=').unwrap();
            c.include_sub(path, name);
        }
    }
    c.finish()
}
