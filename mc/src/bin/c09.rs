//! C09: the end of the keystream is enforced exactly and atomically.
use mc::alpha::few;
use mc::bfs::{Explore, Op};
use mc::kinds::*;
use mc::run::{Ctx, task, tier};

fn main() {
    let mut c = Ctx::new("C09", "model_checking");
    c.rule = "breadth-first closure over histories in the last blocks below the keystream limit: every call form with lengths \
              up to, at and past the limit, seeks to and past the end, remaining-keystream queries of every size; failures \
              must leave buffers, position and later output unchanged (later output is explored from the state after a failure)"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    for kind in ALL {
        for (env, mask) in kind.envs() {
            let keys = few(kind.klen(), kind.ivlen(), if thorough { 2 } else { 1 });
            for (ki, (key, iv)) in keys.into_iter().enumerate() {
                tasks.push(task(format!("{kind:?}/{env}/{ki}"), move || {
                    let mut rems: Vec<usize> = (0..=700).collect();
                    for e in 10..64 {
                        for d in [-65i128, -64, -63, -1, 0, 1, 63, 64, 65] {
                            rems.push(((1i128 << e) + d) as usize);
                        }
                    }
                    for d in 0..130 {
                        rems.push(usize::MAX - d);
                    }
                    if !kind.seekable() {
                        let w = [kind.window(&key, &iv, 0, 300)];
                        let ops = |_: u128| -> Vec<Op> {
                            FORMS.iter().flat_map(|&f| [0, 1, 3, 4, 16, 17, 64, 65, 100].map(|n| Op::Consume(f, n))).collect()
                        };
                        return Explore { kind, env: mask, key: &key, iv: &iv, windows: &w, ops: &ops, rems: &rems, max_states: 100_000 }.run();
                    }
                    let limit = kind.limit();
                    let last = if thorough { 20 } else { 9 } * 64u128;
                    let w = [kind.window(&key, &iv, 0, 130), kind.window(&key, &iv, limit - last, last as usize)];
                    let lens: Vec<usize> = if thorough {
                        (0..=1400).collect()
                    } else {
                        let mut v: Vec<usize> = vec![0, 1, 2, 3, 31, 32, 33, 62, 63, 64, 65, 66];
                        for k in 2..11 {
                            v.extend([k * 64 - 1, k * 64, k * 64 + 1]);
                        }
                        v.extend([1024, 4095, 4096, 65536, 65600]);
                        v
                    };
                    let mut seeks = vec![];
                    for b in 0..=last / 64 {
                        for d in [0, 1, 33, 63] {
                            seeks.push(limit - last + 64 * b + d);
                        }
                    }
                    seeks.extend([0, 1, 64, 100, limit + 64, limit + 65, limit + 127, limit + 128, limit + 129, u128::MAX]);
                    let ops = |pos: u128| -> Vec<Op> {
                        let mut v = vec![];
                        let mut l = lens.clone();
                        if pos + 2000 > limit && pos <= limit {
                            let rest = (limit - pos) as usize;
                            l.extend([rest.saturating_sub(64), rest.saturating_sub(1), rest, rest + 1, rest + 63, rest + 64, rest + 65]);
                        }
                        if pos < 1000 {
                            l.truncate(10); // the start of the stream is only where histories begin
                        }
                        l.sort();
                        l.dedup();
                        for &n in &l {
                            for f in FORMS {
                                // an unwind per failing panicking call: from block-aligned and odd states only
                                if f.panics() && pos + n as u128 > limit && !matches!(pos % 64, 0 | 1 | 63) {
                                    continue;
                                }
                                v.push(Op::Consume(f, n));
                            }
                        }
                        for &p in &seeks {
                            v.push(Op::Seek(p, Ty::U128, false));
                            v.push(Op::Seek(p, Ty::U64, false));
                        }
                        v.retain(|o| !matches!(o, Op::Seek(p, t, _) if *p > t.max()));
                        v
                    };
                    Explore { kind, env: mask, key: &key, iv: &iv, windows: &w, ops: &ops, rems: &rems, max_states: 400_000 }.run()
                }));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
