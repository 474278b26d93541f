//! C13: RNG position and stream control is exact.
use mc::alpha;
use mc::kinds::{env_name, envs};
use mc::rng::*;
use mc::run::{Ctx, Stats, Violation, hx, sut, task, tier};

fn main() {
    let mut c = Ctx::new("C13", "model_checking");
    c.rule = "closure of histories of draws, fills and position/stream setters over concrete RNG states around word 0 (both sides of the \
              2^68 wrap) and the 2^32-block carry; word position, block position, stream and seed are queried in every state and \
              compared with (seed, stream, position mod 2^68); every carry position 2^k with every word offset; setter arguments \
              beyond 68 bits"
        .into();
    let th = tier() == "thorough";
    let mut tasks = vec![];
    for k in RNGS {
        for (name, env) in envs() {
            tasks.push(task(format!("{k:?}/{name}/history"), move || {
                let near = if th { 12u64 } else { 6 };
                let centre = 1u64 << 32;
                let inside = move |m: &Model| {
                    let b = (m.pos >> 4) as u64;
                    b < near || b >= near.wrapping_neg() || b.wrapping_sub(centre - near) < 2 * near
                };
                let ops = move |_: &Model| {
                    let mut v = vec![RngOp::U32(0), RngOp::U32(1), RngOp::U64(0), RngOp::U64(1), RngOp::SerDe];
                    for n in (0..=68).chain([127, 128, 129, 191, 192, 193, 195, 252, 253, 255, 256, 257, 260, 320, 512, 515]) {
                        v.push(RngOp::Fill(0, n));
                    }
                    v.push(RngOp::SetStream(0));
                    v.push(RngOp::SetStream(0x8070_6050_4030_2010));
                    for d in 0..2 * near {
                        for base in [near.wrapping_neg(), centre - near] {
                            let b = base.wrapping_add(d);
                            v.push(RngOp::SetBlock(b));
                            for w in if th { (0..16).collect::<Vec<u128>>() } else { vec![0, 1, 7, 15] } {
                                v.push(RngOp::SetWord((b as u128) << 4 | w));
                                if d % 5 == 0 {
                                    v.push(RngOp::SetWord((b as u128) << 4 | w | 0xfed << 68));
                                }
                            }
                        }
                    }
                    v
                };
                let seed = alpha::base(32, 0x21).try_into().unwrap();
                Ok(RngExplore { k, env, seed, ops: &ops, inside: &inside, look: Look::Queries, max_states: 400_000 }.run()?.0)
            }));
            tasks.push(task(format!("{k:?}/{name}/positions"), move || {
                cpufeatures::set_env(env);
                let mut st = Stats::default();
                let mut rw = RefWords::new(k.rounds());
                let seed: [u8; 32] = alpha::base(32, 0x77).try_into().unwrap();
                for a in alpha::arounds(64) {
                    for d in -9i128..=9 {
                        let b = (a as i128 + d) as u128 & u64::MAX as u128;
                        for stream in [0, u64::MAX, 1 << 32, 0xffff_ffff, 0x1234_5678_9abc_def0] {
                            for w in 0..16u128 {
                                let mut ops = vec![RngOp::U32(0), RngOp::SetStream(stream), RngOp::SetWord(b << 4 | w)];
                                if w == 0 {
                                    ops.push(RngOp::SetBlock(b as u64));
                                }
                                for op in [RngOp::U32(0), RngOp::U64(0), RngOp::Fill(0, 61), RngOp::Fill(0, 200), RngOp::U64(0)] {
                                    ops.push(op);
                                }
                                let mut m = Model { seed, stream: 0, pos: 0 };
                                let mut o = k.make(seed);
                                for (i, &op) in ops.iter().enumerate() {
                                    let r = step(k, &mut o, &mut m, op, &mut rw).and_then(|n| check_queries(o.as_ref(), &m).map(|_| n));
                                    match r {
                                        Ok(n) => st.bytes += n,
                                        Err(e) => {
                                            let mut v = Violation::new(
                                                format!("{k:?}:{}:{:?}", env_name(env), &ops[..=i]),
                                                format!("{k:?}/{}: {e} after {:?}", env_name(env), &ops[..=i]),
                                            );
                                            v.replay = format!("seed {}, history {:?}", hx(&seed), &ops[..=i]);
                                            return Err(v);
                                        }
                                    }
                                    st.transitions += 1;
                                }
                                st.paths += 1;
                            }
                        }
                        st.states += 1;
                    }
                    rw = RefWords::new(k.rounds());
                }
                let _ = sut(|| ());
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/arguments"), move || {
                // every bit (and pairs) of setter arguments and seeds
                cpufeatures::set_env(env);
                let mut st = Stats::default();
                let mut rw = RefWords::new(k.rounds());
                let seed0: [u8; 32] = alpha::base(32, 0x31).try_into().unwrap();
                let mut go = |seed: [u8; 32], ops: &[RngOp]| {
                    let mut m = Model { seed, stream: 0, pos: 0 };
                    let mut o = k.make(seed);
                    for &op in ops {
                        step(k, &mut o, &mut m, op, &mut rw)
                            .and_then(|_| check_queries(o.as_ref(), &m))
                            .map_err(|e| Violation::new(format!("{k:?}:{}:{}:{ops:?}", env_name(env), hx(&seed)), format!("{k:?}/{}: {e} after {ops:?}, seed {}", env_name(env), hx(&seed))))?;
                        st.transitions += 1;
                    }
                    st.states += 1;
                    st.paths += 1;
                    Ok::<(), Violation>(())
                };
                let tail = [RngOp::U32(0), RngOp::Fill(0, 7), RngOp::U64(0)];
                let ops = |op: RngOp| {
                    let mut v = vec![RngOp::U32(0), op];
                    v.extend(tail);
                    v
                };
                for i in 0..128 {
                    for j in 0..=i {
                        let x = 1u128 << i | 1u128 << j;
                        go(seed0, &ops(RngOp::SetWord(x)))?;
                        go(seed0, &ops(RngOp::SetWord(!x)))?;
                        if i < 64 {
                            go(seed0, &ops(RngOp::SetBlock(x as u64)))?;
                            go(seed0, &ops(RngOp::SetBlock(!x as u64)))?;
                            go(seed0, &ops(RngOp::SetStream(x as u64)))?;
                            go(seed0, &ops(RngOp::SetStream(!x as u64)))?;
                        }
                    }
                }
                for s in alpha::strings(32, true) {
                    go(s.try_into().unwrap(), &[RngOp::Query, RngOp::U64(0), RngOp::SetStream(3), RngOp::SetBlock(77), RngOp::U32(0)])?;
                }
                Ok(st)
            }));
        }
    }
    c.run(tasks);
    c.finish()
}
