//! C15: block-level cores count blocks correctly, modulo the counter size.
use mc::alpha;
use mc::core::*;
use mc::corerun::{Run, scripts};
use mc::kinds::plain;
use mc::run::{Ctx, Stats, sut, task, tier};
use std::collections::HashMap;

fn main() {
    let mut c = Ctx::new("C15", "model_checking");
    c.rule = "closure over block-level calls (every form, every block count up to 40, consuming partial calls, a caller's closures mixing \
              the backend methods, RNG fills) from every block position in windows on both sides of counter 0 (the wrap) and of 2^32; \
              block position and remaining blocks queried in every state; the same operations at every carry position 2^k; an alphabet \
              of keys and nonces"
        .into();
    let th = tier() == "thorough";
    let mut tasks = vec![];
    for kind in CORES {
        for (name, env) in kind.envs() {
            let key = alpha::base(kind.klen(), 0x91);
            let iv = alpha::base(kind.ivlen(), 0x4e);
            let data = plain(3, 64 * 80);
            let wide = kind.ctr_bits() == Some(64);
            let mask = if wide { u64::MAX } else { u32::MAX as u64 };
            let maxn = if th { 70usize } else { 40 };
            let all_ops = move |depth: usize| {
                let mut v = vec![COp::WriteBlock, COp::ApplyBlock, COp::ApplyBlockInOut];
                for n in 0..=maxn {
                    v.extend([COp::WriteBlocks(n), COp::ApplyBlocks(n), COp::ApplyBlocksInOut(n)]);
                }
                for n in (0..=200).chain([255, 256, 257, 300, 320, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049]) {
                    v.push(COp::Partial(n, n % 2 == 0, false));
                }
                for n in [0, 1, 63, 64, 65, 128, 129, 1024] {
                    v.push(COp::Partial(n, n % 2 == 1, true));
                    v.push(COp::Partial(n, n % 2 == 1, false));
                }
                v.extend(scripts(depth));
                if has_generate(kind) {
                    v.push(COp::Generate);
                }
                v
            };
            {
                let (key, iv, data) = (key.clone(), iv.clone(), data.clone());
                tasks.push(task(format!("{kind:?}/{name}/window"), move || {
                    let near = if th { 60 } else { 34u64 };
                    let centres = if wide { vec![0, 1u64 << 32] } else { vec![0, 1 << 16, 1 << 31] };
                    let mut sets = vec![];
                    for &c in &centres {
                        for d in 0..2 * near {
                            sets.push(COp::Set(c.wrapping_sub(near).wrapping_add(d) & mask));
                        }
                    }
                    let cs = centres.clone();
                    let inside = move |p: u64| cs.iter().any(|&c| (p.wrapping_sub(c).wrapping_add(near) & mask) < 2 * near);
                    let base = all_ops(2);
                    let ops = move |p: u64| {
                        let mut v = base.clone();
                        if p < 4 {
                            v.extend(sets.iter().cloned());
                        } else {
                            v.extend([COp::Set(0), COp::Set(mask), COp::Set(p.wrapping_mul(3) & mask & 0xff)]);
                        }
                        v
                    };
                    Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: data.clone() }.bfs(&ops, &inside)
                }));
            }
            {
                let (key, iv, data) = (key.clone(), iv.clone(), data.clone());
                tasks.push(task(format!("{kind:?}/{name}/carries"), move || {
                    cpufeatures::set_env(env);
                    let mut st = Stats::default();
                    let mut r = Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: data.clone() };
                    let ops = all_ops(if th { 2 } else { 1 });
                    let deep = if th { scripts(4) } else { scripts(3) };
                    let mut o = make_core(kind, &key, &iv);
                    for a in alpha::arounds(kind.ctr_bits().unwrap()) {
                        for d in -18i64..=1 {
                            let p = (a as u64).wrapping_add(d as u64) & mask;
                            let special = d == -3 && (a == 1 || a == 1 << 32 || a as u64 == mask);
                            for op in ops.iter().chain(deep.iter().filter(|_| special)) {
                                let h = [COp::Set(p), op.clone(), COp::WriteBlock];
                                let mut pos = 0;
                                for (j, op) in h.iter().enumerate() {
                                    pos = r.exec(o.as_mut(), pos, op, &mut st).map_err(|e| r.viol(e, &h[..=j]))?;
                                    r.queries(o.as_ref(), pos).map_err(|e| r.viol(e, &h[..=j]))?;
                                    st.transitions += 1;
                                }
                                st.paths += 1;
                            }
                            st.states += 1;
                        }
                        r.memo.clear();
                    }
                    Ok(st)
                }));
            }
            tasks.push(task(format!("{kind:?}/{name}/inputs"), move || {
                cpufeatures::set_env(env);
                let mut st = Stats::default();
                let data = plain(9, 64 * 80);
                for (key, iv) in alpha::key_iv(kind.klen(), kind.ivlen(), th) {
                    let mut r = Run { kind, env, key: &key, iv: &iv, memo: HashMap::new(), data: data.clone() };
                    let mut o = sut(|| make_core(kind, &key, &iv)).map_err(|e| r.viol(e, &[]))?;
                    let mut h = vec![COp::ApplyBlocks(6), COp::Set(mask - 1), COp::WriteBlocks(5)];
                    if has_generate(kind) {
                        h.extend([COp::Generate, COp::Set(mask - 1), COp::Generate]);
                    }
                    h.push(COp::Partial(100, true, false));
                    let mut pos = 0;
                    for (j, op) in h.iter().enumerate() {
                        pos = r.exec(o.as_mut(), pos, op, &mut st).map_err(|e| r.viol(e, &h[..=j]))?;
                        st.transitions += 1;
                    }
                    st.states += 1;
                    st.paths += 1;
                }
                Ok(st)
            }));
        }
    }
    c.run(tasks);
    c.finish()
}
