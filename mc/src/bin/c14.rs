//! C14: RNG serialization and equality are faithful.
use mc::alpha;
use mc::kinds::{env_name, envs};
use mc::rng::*;
use mc::run::{Ctx, Stats, Violation, hx, task, tier};

fn main() {
    let mut c = Ctx::new("C14", "model_checking");
    c.rule = "every state reached by a closure of draw/position/stream/serialize histories (around word 0 from both sides and the \
              2^32-block carry) is serialized (49 expected bytes), deserialized, compared, re-serialized and drawn from; equality is \
              decided for all pairs of states reached, over several seeds, and for all one-bit differences of seed, stream and \
              position; deserialization of an alphabet of 49-byte strings"
        .into();
    let th = tier() == "thorough";
    let mut tasks = vec![];
    for k in RNGS {
        for (name, env) in envs() {
            tasks.push(task(format!("{k:?}/{name}/history"), move || {
                let near = if th { 10u64 } else { 5 };
                let centre = 1u64 << 32;
                let inside = move |m: &Model| {
                    let b = (m.pos >> 4) as u64;
                    b < near || b >= near.wrapping_neg() || b.wrapping_sub(centre - near) < 2 * near
                };
                let ops = move |_: &Model| {
                    let mut v = vec![RngOp::U32(0), RngOp::U64(1), RngOp::SerDe];
                    for n in (0..=9).chain([60, 61, 64, 65, 128, 191, 192, 193, 253, 255, 256, 257, 260]) {
                        v.push(RngOp::Fill(0, n));
                    }
                    v.push(RngOp::SetStream(0));
                    v.push(RngOp::SetStream(0x8070_6050_4030_2010));
                    for d in 0..2 * near {
                        for base in [near.wrapping_neg(), centre - near] {
                            let b = base.wrapping_add(d);
                            v.push(RngOp::SetBlock(b));
                            v.push(RngOp::SetWord((b as u128) << 4 | 11));
                        }
                    }
                    v
                };
                let seed = alpha::base(32, 0x21).try_into().unwrap();
                Ok(RngExplore { k, env, seed, ops: &ops, inside: &inside, look: Look::Ser, max_states: 400_000 }.run()?.0)
            }));
            tasks.push(task(format!("{k:?}/{name}/pairs"), move || {
                // all pairs of states of smaller explorations with different seeds
                let mut st = Stats::default();
                let near = 3u64;
                let inside = move |m: &Model| {
                    let b = (m.pos >> 4) as u64;
                    b < near || b >= near.wrapping_neg()
                };
                let ops = move |_: &Model| {
                    let mut v = vec![RngOp::U32(0), RngOp::U64(0), RngOp::Fill(0, 61), RngOp::Fill(0, 192), RngOp::SerDe, RngOp::SetStream(1 << 32), RngOp::SetStream(0)];
                    for d in 0..2 * near {
                        let b = near.wrapping_neg().wrapping_add(d);
                        v.push(RngOp::SetBlock(b));
                        v.push(RngOp::SetWord((b as u128) << 4 | 5));
                    }
                    v
                };
                let s0: [u8; 32] = alpha::base(32, 0x21).try_into().unwrap();
                let mut s1 = s0;
                s1[31] ^= 0x80;
                let mut all = vec![];
                for seed in [s0, s1] {
                    let e = RngExplore { k, env, seed, ops: &ops, inside: &inside, look: Look::Outputs, max_states: 400_000 };
                    let (s, v) = e.run()?;
                    st.merge(s);
                    // at most about 1500 states per seed, spread over the whole exploration
                    let stride = (v.len() / if th { 4000 } else { 1500 }).max(1);
                    for (i, x) in v.iter().enumerate() {
                        if i % stride == 0 {
                            let p = e.path(&v, i, None);
                            let mut o = k.make(seed);
                            o.restore(&x.raw);
                            all.push((o, x.m.clone(), p));
                        }
                    }
                }
                let mut equal = 0;
                for (a, ma, pa) in &all {
                    for (b, mb, pb) in &all {
                        let e = a.eq(b.as_ref());
                        if e != Ok(ma == mb) {
                            let w = format!("{k:?}/{}: equality says {e:?} for histories {pa:?} (seed {}) and {pb:?} (seed {}); model: {ma:?} {mb:?}", env_name(env), hx(&ma.seed), hx(&mb.seed));
                            return Err(Violation::new(format!("eq:{k:?}:{}:{pa:?}:{pb:?}", env_name(env)), w));
                        }
                        st.transitions += 1;
                        equal += (ma == mb) as u64;
                    }
                }
                st.note("pairs_compared", (all.len() * all.len()) as u64);
                st.note("pairs_equal", equal);
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/bits"), move || {
                cpufeatures::set_env(env);
                let mut st = Stats::default();
                let seed: [u8; 32] = alpha::base(32, 0x66).try_into().unwrap();
                let base = Model { seed, stream: 0x0123_4567_89ab_cdef, pos: 0x5_0123_4567_89ab_cde3 };
                let build = |m: &Model, how: usize| {
                    let mut o = k.make(m.seed);
                    let e = |r| Violation::new(format!("{k:?}:{}", env_name(env)), format!("{k:?}: {r}"));
                    o.set_stream(m.stream).map_err(e)?;
                    o.set_word_pos(m.pos.wrapping_sub(how as u128)).map_err(e)?;
                    for _ in 0..how {
                        o.u32(0).map_err(e)?;
                    }
                    Ok::<_, Violation>(o)
                };
                let mut ms = vec![base.clone()];
                for i in 0..256 {
                    let mut m = base.clone();
                    m.seed[i / 8] ^= 1 << (i % 8);
                    ms.push(m);
                }
                for i in 0..64 {
                    let mut m = base.clone();
                    m.stream ^= 1 << i;
                    ms.push(m);
                }
                for i in 0..68 {
                    let mut m = base.clone();
                    m.pos ^= 1 << i;
                    ms.push(m);
                }
                for how in [0, 1, 37] {
                    let objs: Vec<_> = ms.iter().map(|m| build(m, 0)).collect::<Result<_, _>>()?;
                    let others: Vec<_> = ms.iter().map(|m| build(m, how)).collect::<Result<_, _>>()?;
                    for (i, a) in objs.iter().enumerate() {
                        for (j, b) in others.iter().enumerate() {
                            if a.eq(b.as_ref()) != Ok(i == j) {
                                return Err(Violation::new(
                                    format!("eqbits:{k:?}:{}:{i}:{j}", env_name(env)),
                                    format!("{k:?}/{}: equality wrong for {:?} and {:?} (drawn {how})", env_name(env), ms[i], ms[j]),
                                ));
                            }
                            st.transitions += 1;
                        }
                        st.states += 1;
                    }
                }
                Ok(st)
            }));
            tasks.push(task(format!("{k:?}/{name}/strings"), move || {
                cpufeatures::set_env(env);
                let mut st = Stats::default();
                let mut v = alpha::strings(48, true).into_iter().map(|mut s| { s.push(3); s }).collect::<Vec<_>>();
                let b = alpha::base(49, 0x17);
                for x in 0..=255u8 {
                    let mut s = b.clone();
                    s[48] = x;
                    v.push(s);
                }
                if th {
                    v.extend(alpha::two_bits(49));
                }
                let mut rw = RefWords::new(k.rounds());
                for s in v {
                    let s: [u8; 49] = s.try_into().unwrap();
                    let mut p = [0u8; 16];
                    p[..9].copy_from_slice(&s[40..]);
                    let m = Model {
                        seed: s[..32].try_into().unwrap(),
                        stream: u64::from_le_bytes(s[32..40].try_into().unwrap()),
                        pos: u128::from_le_bytes(p) & MASK68,
                    };
                    let e = |e: String| Violation::new(format!("de:{k:?}:{}:{}", env_name(env), hx(&s)), format!("{k:?}/{}: state {}: {e}", env_name(env), hx(&s)));
                    let o = k.deserialize(&s).map_err(e)?;
                    check_queries(o.as_ref(), &m).map_err(e)?;
                    check_ser(k, o.as_ref(), &m, &mut rw).map_err(e)?;
                    rw = RefWords::new(k.rounds());
                    st.states += 1;
                    st.transitions += 6;
                    st.paths += 1;
                }
                Ok(st)
            }));
        }
    }
    c.run(tasks);
    c.finish()
}
