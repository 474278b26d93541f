//! C12: the RNGs return the ChaCha stream in order.
use chacha20::rand_core::SeedableRng;
use mc::alpha;
use mc::kinds::{env_name, envs};
use mc::rng::*;
use mc::run::{Ctx, Res, Stats, Violation, hx, sut, task, tier};

fn viol(k: RngKind, env: u32, m: &Model, hist: &str, e: String) -> Violation {
    let mut v = Violation::new(
        format!("{k:?}:{}:{}:{}:{hist}", env_name(env), hx(&m.seed), m.stream),
        format!("{k:?}/{}: {e} ({hist})", env_name(env)),
    );
    v.replay = format!("rng {k:?}, feature set {}, seed {}, stream {:#x}\nhistory: {hist}\n{e}", env_name(env), hx(&m.seed), m.stream);
    v
}

fn script(k: RngKind, env: u32, seed: [u8; 32], ops: &[RngOp], rw: &mut RefWords, st: &mut Stats) -> Res<()> {
    cpufeatures::set_env(env);
    let mut m = Model { seed, stream: 0, pos: 0 };
    let mut o = sut(|| k.make(seed)).map_err(|e| viol(k, env, &m, "from_seed", e))?;
    for (i, &op) in ops.iter().enumerate() {
        st.bytes += step(k, &mut o, &mut m, op, rw).map_err(|e| viol(k, env, &m, &format!("{:?}", &ops[..=i]), e))?;
        st.transitions += 1;
    }
    st.paths += 1;
    Ok(())
}

/// The other ways to make an RNG: the object must continue like `from_seed` of the seed it reports.
fn other_constructors(k: RngKind, env: u32) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let mut rw = RefWords::new(k.rounds());
    let mut parent = Model { seed: alpha::base(32, 7).try_into().unwrap(), stream: 0, pos: 0 };
    for n in 0..40u64 {
        let x = n.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        macro_rules! go {
            ($t:ty) => {{
                let mut src = <$t>::from_seed(parent.seed);
                let a: Box<dyn RngSut> = Box::new(<$t>::seed_from_u64(x));
                let b: Box<dyn RngSut> = Box::new(<$t>::from_rng(&mut src));
                let c: Box<dyn RngSut> = Box::new(<$t>::try_from_rng(&mut src).unwrap());
                let d: Box<dyn RngSut> = Box::new(src.fork());
                let rest: Box<dyn RngSut> = Box::new(src);
                [a, b, c, d, rest]
            }};
        }
        let v = sut(|| match k {
            RngKind::R8 => go!(chacha20::ChaCha8Rng),
            RngKind::R12 => go!(chacha20::ChaCha12Rng),
            RngKind::R20 => go!(chacha20::ChaCha20Rng),
        })
        .map_err(|e| viol(k, env, &parent, "constructors", e))?;
        for (i, mut o) in v.into_iter().enumerate() {
            let seed = o.seed().map_err(|e| viol(k, env, &parent, "get_seed", e))?;
            let mut m = Model { seed, stream: 0, pos: 0 };
            match i {
                1..=3 => {
                    // seeded by filling 32 bytes from the parent
                    let want = rw.bytes(&parent, 8 * (i as u128 - 1), 32);
                    if seed[..] != want[..] {
                        return Err(viol(k, env, &parent, &format!("constructor {i}"), format!("the seed is {}, expected {}", hx(&seed), hx(&want))));
                    }
                }
                4 => m.pos = 24,
                _ => {}
            }
            for op in [RngOp::U32(0), RngOp::U64(0), RngOp::Fill(0, 300)] {
                step(k, &mut o, &mut m, op, &mut rw).map_err(|e| viol(k, env, &m, &format!("constructor {i}, {op:?}"), e))?;
                st.transitions += 1;
            }
            st.paths += 1;
        }
        parent.seed[(n % 32) as usize] ^= 0x5b ^ n as u8;
    }
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C12", "model_checking");
    c.rule = "closure of draw histories (32-bit, 64-bit, fills of every length up to 5 blocks, stream changes) over concrete RNG states \
              around the start and the 2^32-block carry; all seeds/streams of an alphabet (every bit, every byte value, word pairs); \
              draws across every carry position 2^k of the block counter and its 2^64 wrap; every fill length from every buffer offset"
        .into();
    let th = tier() == "thorough";
    let mut tasks = vec![];
    for k in RNGS {
        for (name, env) in envs() {
            tasks.push(task(format!("{k:?}/{name}/history"), move || {
                let near = if th { 40u128 } else { 20 };
                let inside = move |m: &Model| {
                    let b = m.pos >> 4;
                    b < near || (b >= (1 << 32) - near / 2 && b < (1 << 32) + near / 2) || b >= (1 << 64) - near / 2
                };
                let ops = move |m: &Model| {
                    let mut v = vec![RngOp::U32(0), RngOp::U32(1), RngOp::U64(0), RngOp::U64(1)];
                    for n in 0..=if th { 1100 } else { 600 } {
                        v.push(RngOp::Fill(0, n));
                    }
                    for n in [0, 1, 3, 4, 5, 8, 63, 64, 255, 256, 257, 260] {
                        v.push(RngOp::Fill(1, n));
                    }
                    v.push(RngOp::SetStream(0));
                    v.push(RngOp::SetStream(0x8070_6050_4030_2010));
                    if m.pos >> 4 < near {
                        v.push(RngOp::SetBlock((1 << 32) - 5));
                        v.push(RngOp::SetWord(((1 << 32) - 3) << 4 | 9));
                        v.push(RngOp::SetBlock(u64::MAX - 4));
                    }
                    v
                };
                let seed = alpha::base(32, 0x21).try_into().unwrap();
                Ok(RngExplore { k, env, seed, ops: &ops, inside: &inside, look: Look::Outputs, max_states: 400_000 }.run()?.0)
            }));
            tasks.push(task(format!("{k:?}/{name}/inputs"), move || {
                let mut st = Stats::default();
                let mut rw = RefWords::new(k.rounds());
                let mut inputs = alpha::strings(40, true);
                inputs.extend(alpha::two_bits(40));
                for s in inputs {
                    let seed: [u8; 32] = s[..32].try_into().unwrap();
                    let stream = u64::from_le_bytes(s[32..].try_into().unwrap());
                    script(k, env, seed, &[RngOp::U64(0), RngOp::SetStream(stream), RngOp::U32(0), RngOp::Fill(0, 330), RngOp::U64(0)], &mut rw, &mut st)?;
                    st.states += 1;
                    rw = RefWords::new(k.rounds());
                }
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/carries"), move || {
                let mut st = Stats::default();
                let mut rw = RefWords::new(k.rounds());
                let seed: [u8; 32] = alpha::base(32, 0x77).try_into().unwrap();
                for a in alpha::arounds(64) {
                    for d in -6i128..=2 {
                        let b = (a as i128 + d) as u128 & u64::MAX as u128;
                        for o in [0u128, 1, 15] {
                            let p = b << 4 | o;
                            script(k, env, seed, &[RngOp::SetStream(u64::MAX - 1), RngOp::SetWord(p), RngOp::Fill(0, 64 * 11)], &mut rw, &mut st)?;
                        }
                        script(k, env, seed, &[RngOp::SetBlock(b as u64), RngOp::U32(0), RngOp::Fill(0, 64 * 9), RngOp::U64(0)], &mut rw, &mut st)?;
                        st.states += 1;
                    }
                    rw = RefWords::new(k.rounds());
                }
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/fills"), move || {
                let mut st = Stats::default();
                let mut rw = RefWords::new(k.rounds());
                let seed: [u8; 32] = alpha::base(32, 0x55).try_into().unwrap();
                for skip in 0..=66 {
                    let mut ops = vec![RngOp::U32(0); skip];
                    for n in 0..=if th { 4200 } else { 1100 } {
                        ops.truncate(skip);
                        ops.extend([RngOp::Fill(0, n), RngOp::U64(1)]);
                        script(k, env, seed, &ops, &mut rw, &mut st)?;
                    }
                    st.states += 1;
                }
                for n in [4095, 4096, 4097, 65535, 65537, 1 << 20] {
                    script(k, env, seed, &[RngOp::U32(0), RngOp::Fill(0, n), RngOp::U64(0)], &mut rw, &mut st)?;
                }
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/constructors"), move || other_constructors(k, env)));
        }
    }
    c.run(tasks);
    c.finish()
}
