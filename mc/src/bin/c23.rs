//! C23: no operation has undefined behaviour. Every operation, length, alignment, placement and position of the
//! enumerated histories is executed by an interpreter that detects undefined behaviour (Miri), in every
//! backend it can execute; results are compared as well.
use mc::interp::{self, Config, Job, Shards};
use mc::kinds::*;
use mc::run::{Ctx, tier};
use mc::scripts;

const X86: &str = "x86_64-unknown-linux-gnu";
const CONFIGS: [Config; 7] = [
    Config { name: "x86-sse2", target: X86, rustflags: "", width: 64 },
    Config { name: "x86-avx2", target: X86, rustflags: "-C target-feature=+avx2", width: 64 },
    Config { name: "x86-avx512", target: X86, rustflags: "--cfg chacha20_avx512 -C target-feature=+avx2,+avx512f,+avx512vl", width: 64 },
    Config { name: "x86-soft", target: X86, rustflags: "--cfg chacha20_backend=\"soft\"", width: 64 },
    Config { name: "aarch64-neon", target: "aarch64-unknown-linux-gnu", rustflags: "", width: 64 },
    Config { name: "i686", target: "i686-unknown-linux-gnu", rustflags: "", width: 32 },
    Config { name: "s390x", target: "s390x-unknown-linux-gnu", rustflags: "", width: 64 },
];

fn main() {
    use Kind::*;
    let mut c = Ctx::new("C23", "model_checking");
    c.rule = "plans: every form of call x length x alignment pair x placement of the object, every batch of blocks and block-level \
              script, RNG draws of every length and alignment, constructors from slices of every length, all with the backends \
              SSE2, AVX2, AVX-512, NEON and portable code; executed by an interpreter that stops at undefined behaviour \
              (out-of-bounds, misaligned, uninitialised, dangling, aliasing by Stacked Borrows, invalid values, overflow of debug \
              arithmetic), and results compared with the reference model"
        .into();
    let thorough = tier() == "thorough";
    let mut jobs = vec![];
    const FEW: [Form; 5] = [Form::TryWrite, Form::UncheckedApply, Form::TryB2b, Form::InOut, Form::InOutSame];
    for (i, cfg) in CONFIGS.iter().enumerate() {
        let wide = i < 3 || cfg.name == "aarch64-neon";
        let mut family = |name: &str, flags: &'static str, f: &mut dyn FnMut(&mut Shards)| {
            let max = if flags == interp::FULL { 3_000_000 } else { 12_000_000 };
            let mut s = Shards::new(&format!("{name}{}", if flags == interp::FULL { "-full" } else { "" }), cfg.width, max);
            f(&mut s);
            jobs.extend(s.finish().into_iter().map(|plan| Job { config: i, plan, flags }));
        };
        // blocks in the widest batch of the backend
        let batch = match cfg.name {
            "x86-avx512" => 16,
            "aarch64-neon" => 8,
            _ => 4,
        };
        let lens = [0, 1, 63, 64, 65, 64 * batch - 1, 64 * batch, 64 * batch + 1, 64 * (batch + batch / 2 + 1) + 17];
        let all: Vec<usize> = (0..=64 * batch * 2 + 66).collect();
        let pairs: Vec<(usize, usize)> = (0..9).flat_map(|a| (0..9).map(move |b| (a, b))).collect();
        let fills = [0, 1, 3, 64, 255, 256, 257, 515];
        let (full, quick) = (interp::FULL, if thorough { interp::QUICK } else { interp::FULL });
        if thorough {
            family("forms", quick, &mut |s| scripts::forms(s, &scripts::REPS, &FORMS, &lens, &pairs, 1));
            family("lengths", quick, &mut |s| scripts::forms(s, &scripts::REPS, &FEW, &all, &[(1, 2)], 1));
            for pl in 0..4 {
                family("forms", full, &mut |s| scripts::forms(s, &scripts::REPS, &FORMS, &lens, &[(1, 2), (4, 8)], pl));
                family("cores", full, &mut |s| scripts::cores(s, &scripts::REPS, 1, pl));
                family("cores", quick, &mut |s| scripts::cores(s, &ALL, 1, pl));
            }
            family("cores2", quick, &mut |s| scripts::cores(s, &scripts::REPS, 2, 1));
            family("values", full, &mut |s| scripts::values(s, &ALL, 2, &[1, batch, batch + 1]));
            family("constructors", full, &mut |s| scripts::constructors(s, &[0, 1, 8, 11, 12, 13, 16, 24, 31, 32, 33]));
            family("rngs", full, &mut |s| scripts::rngs(s, &[0, 1, 2], 1, &fills));
            family("rngs", quick, &mut |s| scripts::rngs(s, &[0], 2, &fills));
            family("limits", full, &mut |s| scripts::limits(s, &scripts::REPS));
            family("histories", quick, &mut |s| scripts::histories(s, &scripts::REPS, 2, &[1, 64, 130, 64 * batch + 65], false));
            continue;
        }
        let reps: &[Kind] = match cfg.name {
            "x86-sse2" => &[ChaCha8, Legacy8Seed, Salsa8],
            "x86-soft" => &[ChaCha8, Salsa8, Rabbit, Rc4, Hc256],
            "i686" => &[ChaCha8, Rabbit, Rc4],
            "s390x" => &[XChaCha8, XSalsa8],
            _ => &[ChaCha8, Legacy8Seed],
        };
        family("forms", quick, &mut |s| scripts::forms(s, reps, &FEW, &lens, &[(1, 2)], 1));
        family("forms", full, &mut |s| scripts::forms(s, &reps[..1], &FEW, &[65, 64 * (batch + 1) + 1], &[(1, 2)], 3));
        family("cores", quick, &mut |s| scripts::cores(s, &reps[..1], 1, 1));
        family("values", full, &mut |s| scripts::values(s, if wide { reps } else { &scripts::REPS }, 1, &[1]));
        family("rngs", full, &mut |s| scripts::rngs(s, &[0], 1, &[257]));
        family("rngs", quick, &mut |s| scripts::rngs(s, &[0], 1, &fills));
        if !wide {
            family("constructors", full, &mut |s| scripts::constructors(s, &[0, 8, 12, 16, 24, 32, 33]));
            family("limits", quick, &mut |s| scripts::limits(s, &reps[..1]));
        }
        if cfg.name != "s390x" {
            family("histories", quick, &mut |s| scripts::histories(s, &reps[..1], 1, &[1, 64, 130, 64 * batch + 65], true));
        }
    }
    let v = interp::run(&CONFIGS, jobs);
    c.stats.merge(v.stats);
    c.stats.states = c.stats.transitions;
    for x in v.violations {
        c.report(x);
    }
    c.finish()
}
