//! C04: Rabbit keystream equals RFC 4503.
use mc::alpha::{few, key_iv2};
use mc::kinds::*;
use mc::refs;
use mc::run::{Ctx, Res, Stats, task, tier};
use mc::spec::{long, sweep, very_long};
use std::collections::BTreeSet;
use std::sync::Arc;

/// The counter constants, as in RFC 4503 2.5.
const A: [u32; 8] =
    [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3];

/// Carries out of each of the eight 32-bit additions of the next counter step, and the words in which the
/// incoming carry alone decides.
fn carries(s: &refs::Rabbit) -> (u16, u8) {
    let mut c = s.carry as u64;
    let (mut pat, mut edge) = (c as u16, 0);
    for j in 0..8 {
        let t = s.c32(j) as u64 + A[j] as u64;
        if t == 0xffff_ffff {
            edge |= 1 << j;
        }
        c = (t + c) >> 32;
        pat |= (c as u16) << (j + 1);
    }
    (pat, edge)
}

/// IVs which make word `j` of the counter system sit exactly on the carry edge in the first IV-setup step.
fn edge_ivs(key: &[u8], want: &mut BTreeSet<(usize, bool)>) -> Vec<Vec<u8>> {
    let s = refs::Rabbit::key_setup(key);
    let mut out = vec![];
    for j in 0..8 {
        let need = s.c32(j) ^ !A[j]; // what the IV has to XOR into c[j]
        for free in [0u32, 0xffff_ffff, 0x0123_4567, 0xfedc_ba98, 0x5555_aaaa, 0xaaaa_5555, 0x8000_0001, 0x7fff_fffe] {
            // v[0] = i0, v[1] = hi(i2) : hi(i0), v[2] = i2, v[3] = lo(i2) : lo(i0)
            let (i0, i2) = match j % 4 {
                0 => (need, free),
                2 => (free, need),
                1 => ((need << 16) | (free & 0xffff), (need & 0xffff_0000) | (free >> 16)),
                _ => ((need & 0xffff) | (free & 0xffff_0000), (need >> 16) | (free << 16)),
            };
            let mut iv = i0.to_le_bytes().to_vec();
            iv.extend(i2.to_le_bytes());
            let mut t = s.clone();
            for k in 0..8 {
                let v = [i0, (i0 >> 16) | (i2 & 0xffff_0000), i2, (i2 << 16) | (i0 & 0xffff)][k % 4];
                t.c[k / 2] ^= (v as u64) << (32 * (k % 2));
            }
            let (pat, edge) = carries(&t);
            assert!(edge & 1 << j != 0, "edge construction");
            want.insert((j, pat & 1 << j != 0));
            out.push(iv);
        }
    }
    out
}

fn main() {
    let mut c = Ctx::new("C04", "exploration");
    c.rule = "complete enumeration of (a) the key/IV alphabet (single-bit patterns over three bases, all byte values, extreme word \
              pairs, all pairs of bits), (b) all keys whose eight 16-bit words come from {0, ffff, and the halves of the complemented \
              counter constants}, (c) for each of a set of keys the IVs that put each counter word exactly on its carry edge, with \
              both incoming carries, (d) long streams; keystreams compared with a reference that adds the counter as one 256-bit number"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    // past 2^32 bytes; thorough: past 2^32 blocks
    let (key, iv) = few(16, 8, 1).remove(0);
    let total = (1u64 << if thorough { 36 } else { 32 }) + (1 << 21);
    tasks.push(task("very long", move || very_long(Kind::Rabbit, &key, &iv, total)));
    let pairs = Arc::new(key_iv2(16, 8));
    let n = if thorough { 1024 } else { 128 };
    for ch in 0..16 {
        let pairs = pairs.clone();
        tasks.push(task(format!("alphabet/{ch}"), move || {
            let part: Vec<_> = pairs.iter().skip(ch).step_by(16).cloned().collect();
            let mut st = sweep(Kind::Rabbit, &part, &[0], n)?;
            st.merge(sweep(Kind::RabbitKeyOnly, &part, &[0], n)?);
            Ok(st)
        }));
    }
    let words: &'static [u16] =
        if thorough { &[0, 0xffff, 0xb2cb, 0x2cb2, 0xcb2c, 0x34d3, 0x8000] } else { &[0, 0xffff, 0xb2cb, 0x2cb2, 0xcb2c] };
    for first in 0..words.len() {
        for second in 0..words.len() {
            tasks.push(task(format!("carry keys/{first}{second}"), move || -> Res<Stats> {
                let mut st = Stats::default();
                let (m, mut pats) = (words.len(), BTreeSet::new());
                let mut part = vec![];
                for x in 0..m.pow(6) {
                    let mut key = vec![];
                    let mut y = x;
                    for k in 0..8 {
                        let d = match k {
                            0 => first,
                            1 => second,
                            _ => {
                                let d = y % m;
                                y /= m;
                                d
                            }
                        };
                        key.extend(words[d].to_le_bytes());
                    }
                    part.push((key, vec![0u8; 8]));
                    if part.len() == 4096 || x + 1 == m.pow(6) {
                        st.merge(sweep(Kind::RabbitKeyOnly, &part, &[0], 32)?);
                        st.merge(sweep(Kind::Rabbit, &part, &[0], 32)?);
                        for (k, _) in &part {
                            let mut s = refs::Rabbit::key_setup(k);
                            for _ in 0..2 {
                                pats.insert(carries(&s).0);
                                s.step();
                            }
                        }
                        part.clear();
                    }
                }
                st.outcomes.extend(pats.iter().map(|p| format!("carry pattern {p:09b}")));
                Ok(st)
            }));
        }
    }
    let keys = if thorough { 20_000 } else { 2_000 };
    for ch in 0..8u32 {
        tasks.push(task(format!("carry edges/{ch}"), move || {
            let mut st = Stats::default();
            let mut want = BTreeSet::new();
            for i in 0..keys / 8 {
                let key: Vec<u8> = (0..16u32).map(|b| ((i * 8 + ch).wrapping_mul(0x9e37_79b9).wrapping_add(b.wrapping_mul(0x85eb_ca6b)) >> 21) as u8).collect();
                let part: Vec<_> = edge_ivs(&key, &mut want).into_iter().map(|iv| (key.clone(), iv)).collect();
                st.merge(sweep(Kind::Rabbit, &part, &[0], 48)?);
            }
            assert_eq!(want.len(), 16, "every counter word on its edge with both incoming carries");
            st.note("max_carry_edges_reached", 16);
            Ok(st)
        }));
    }
    for kind in [Kind::Rabbit, Kind::RabbitKeyOnly] {
        for (i, (key, iv)) in few(16, kind.ivlen(), 4).into_iter().enumerate() {
            let total = if thorough { 1 << 31 } else { 1 << 27 };
            for chunk in [16 * 4099, 1021, 1 << 20] {
                let (key, iv) = (key.clone(), iv.clone());
                tasks.push(task(format!("{kind:?}/long/{i}/{chunk}"), move || long(kind, 0, &key, &iv, total, chunk)));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
