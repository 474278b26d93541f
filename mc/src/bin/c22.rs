//! C22: the same results on other targets. Enumerated histories with model-predicted results are executed by an
//! interpreter of the target (Miri): big-endian 64 and 32 bit, little-endian 32 bit, AArch64 with NEON.
use mc::interp::{self, Config, Job, Shards};
use mc::kinds::*;
use mc::run::{Ctx, tier};
use mc::scripts;

const CHACHA: [Kind; 3] = [Kind::ChaCha20, Kind::ChaCha20Legacy, Kind::XChaCha20];

pub const CONFIGS: [Config; 6] = [
    Config { name: "aarch64-neon", target: "aarch64-unknown-linux-gnu", rustflags: "", width: 64 },
    Config { name: "s390x", target: "s390x-unknown-linux-gnu", rustflags: "", width: 64 },
    Config { name: "i686", target: "i686-unknown-linux-gnu", rustflags: "", width: 32 },
    Config { name: "mips", target: "mips-unknown-linux-gnu", rustflags: "", width: 32 },
    Config { name: "aarch64-soft", target: "aarch64-unknown-linux-gnu", rustflags: "--cfg chacha20_backend=\"soft\"", width: 64 },
    Config { name: "aarch64_be", target: "aarch64_be-unknown-linux-gnu", rustflags: "", width: 64 },
];

fn main() {
    let mut c = Ctx::new("C22", "model_checking");
    c.rule = "plans: all call sequences of bounded length over alphabets of call lengths, forms, seek targets, block-level and RNG \
              operations, from positions around every boundary of the counters, with the results the reference model predicts; \
              executed by an interpreter of each target (AArch64 with NEON and with the portable code, s390x: 64-bit big-endian, \
              mips: 32-bit big-endian, i686: 32-bit with the SSE2 code) and compared call by call"
        .into();
    let thorough = tier() == "thorough";
    let mut jobs = vec![];
    for (i, cfg) in CONFIGS.iter().enumerate() {
        let mut s = Shards::new(cfg.name, cfg.width, 30_000_000);
        let lens = [0, 1, 63, 64, 65, 130, 257, 320];
        if i >= 4 {
            // the portable code is the same as on the other targets; only the dispatch differs
            scripts::values(&mut s, &CHACHA, 1, &[5]);
            scripts::cores(&mut s, &[Kind::ChaCha8, Kind::Legacy8Seed], 1, 0);
            scripts::rngs(&mut s, &[0], 1, &lens);
        } else if thorough {
            scripts::values(&mut s, &ALL, 12, &[1, 2, 3, 4, 5, 9]);
            scripts::histories(&mut s, &ALL, 2, &lens, false);
            scripts::limits(&mut s, &ALL);
            scripts::constructors(&mut s, &(0..=40).collect::<Vec<_>>());
            scripts::cores(&mut s, &ALL, 2, 0);
            scripts::rngs(&mut s, &[0, 1, 2], 2, &lens);
        } else {
            use Kind::*;
            // what depends on the target: NEON code, the order of bytes, the size of words
            let neon = i == 0;
            let deep: &[Kind] = match cfg.name {
                "aarch64-neon" => &[Legacy8Seed],
                "mips" => &[ChaCha8, Salsa8, Rabbit, Rc4],
                "i686" => &[XChaCha8],
                _ => &[XSalsa8],
            };
            let rest: Vec<Kind> = scripts::REPS.into_iter().filter(|k| !deep.contains(k)).collect();
            let few: &[Kind] = if neon { &[ChaCha8, Legacy8Seed] } else { &[ChaCha8, Legacy8Seed, XChaCha8, Salsa8, XSalsa8] };
            scripts::values(&mut s, &ALL, 2, &[if neon { 1 } else { 2 }]);
            scripts::values(&mut s, few, 2, &[if neon { 9 } else { 2 }]);
            scripts::histories(&mut s, deep, 2, if neon { &[1, 64, 130, 513, 580] } else { &lens }, neon);
            scripts::histories(&mut s, &rest, 1, if neon { &[0, 1, 63, 64, 130, 320, 512, 577] } else { &lens }, false);
            scripts::limits(&mut s, match cfg.name {
                "aarch64-neon" => &[ChaCha8, Legacy8Seed],
                "s390x" => &[ChaCha8, Legacy8Seed, XSalsa8, Rc4],
                "i686" => &[XChaCha8, Legacy8Seed, Salsa8, Rabbit],
                _ => &scripts::REPS,
            });
            scripts::constructors(&mut s, &[0, 1, 7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33]);
            scripts::cores(&mut s, &scripts::REPS, 1, 0);
            scripts::rngs(&mut s, &[0], if cfg.name == "mips" { 2 } else { 1 }, &lens);
            scripts::rngs(&mut s, &[1, 2], 1, &lens);
        }
        for p in s.finish() {
            jobs.push(Job { config: i, plan: p, flags: interp::QUICK });
        }
    }
    let v = interp::run(&CONFIGS, jobs);
    c.stats.merge(v.stats);
    c.stats.states = c.stats.transitions;
    for x in v.violations {
        c.report(x);
    }
    c.finish()
}
