//! C08: seeking and position reporting are exact, after every history.
use mc::alpha::few;
use mc::bfs::{Explore, Op};
use mc::kinds::*;
use mc::run::{Ctx, task, tier};

fn main() {
    let mut c = Ctx::new("C08", "model_checking");
    c.rule = "breadth-first closure over histories of seeks (every integer type, valid and unreachable targets) and consuming \
              calls, in windows of blocks around 0 and around every power of two where a counter word, an integer type or the \
              limit turns over; outputs compared with the reference keystream, positions with the model position"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    for kind in ALL.into_iter().filter(|k| k.seekable()) {
        for (env, mask) in kind.envs() {
            let keys = few(kind.klen(), kind.ivlen(), if thorough { 2 } else { 1 });
            for (ki, (key, iv)) in keys.into_iter().enumerate() {
                tasks.push(task(format!("{kind:?}/{env}/{ki}"), move || {
                    let bits = kind.ctr_bits().unwrap();
                    let limit = kind.limit();
                    let len = if thorough { 24u128 } else { 10 } * 64;
                    let mut starts: Vec<u128> = vec![0];
                    let exps: &[u32] = if bits == 32 { &[25, 26, 31] } else { &[25, 26, 31, 32, 57, 58, 63] };
                    starts.extend(exps.iter().map(|e| ((1u128 << e) - 5) * 64));
                    starts.push(limit - len + 64);
                    let w: Vec<Window> = starts.iter().map(|&s| kind.window(&key, &iv, s, len as usize)).collect();
                    let offs: Vec<u128> = if thorough {
                        (0..=330).collect()
                    } else {
                        vec![0, 1, 2, 31, 63, 64, 65, 128, 191, 193, 255, 256, 257, 319, 320, 321]
                    };
                    let mut targets: Vec<u128> = starts.iter().flat_map(|s| offs.iter().map(move |o| s + o)).collect();
                    // the end, and unreachable positions: beyond the limit, and ones that alias reachable ones modulo
                    // the counter range or modulo an integer width
                    let range = 1u128 << (bits + 6);
                    for p in [limit - 65, limit - 64, limit - 63, limit - 1, limit, limit + 1, limit + 2, limit + 32, limit + 63] {
                        targets.push(p);
                    }
                    for p in [range, range + 1, range + 64, range + 65, 2 * range, 3 * range + 70, range << 20] {
                        targets.push(p);
                    }
                    for t in TYPES {
                        for d in [0, 1, 63, 64] {
                            targets.push(t.max() - d);
                        }
                    }
                    for e in 64..128 {
                        targets.extend([1u128 << e, (1u128 << e) + 64]);
                    }
                    targets.sort();
                    targets.dedup();
                    let limit_w = |p: u128| p > limit || w.iter().any(|x| x.contains(p, 0));
                    let mut seeks = vec![];
                    for &p in targets.iter().filter(|&&p| limit_w(p)) {
                        for t in TYPES {
                            if p <= t.max() {
                                seeks.push(Op::Seek(p, t, false));
                                if t == Ty::U64 || t == Ty::U128 {
                                    seeks.push(Op::Seek(p, t, true));
                                }
                            }
                        }
                    }
                    let panicking: Vec<Op> = seeks.clone();
                    let quiet: Vec<Op> = seeks.iter().copied().filter(|o| !matches!(o, Op::Seek(p, _, true) if *p > limit)).collect();
                    let lens = [0usize, 1, 2, 63, 64, 65, 128, 129, 255, 256, 257, 320];
                    let ops = |pos: u128| -> Vec<Op> {
                        let mut v: Vec<Op> = vec![];
                        for f in [Form::TryApply, Form::TryWrite, Form::UncheckedB2b, Form::TryInOut] {
                            v.extend(lens.iter().map(|&n| Op::Consume(f, n)));
                        }
                        // refused panicking seeks (an unwind each) from a few states, everything else from all
                        v.extend(if pos % 64 <= 1 { &panicking } else { &quiet });
                        v
                    };
                    Explore { kind, env: mask, key: &key, iv: &iv, windows: &w, ops: &ops, rems: &[], max_states: 400_000 }.run()
                }));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
