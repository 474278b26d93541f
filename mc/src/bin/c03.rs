//! C03: Salsa20, XSalsa, HSalsa and raw-state cores equal their specification.
use cipher::array::{Array, typenum::Unsigned};
use cipher::consts::{U4, U6, U10};
use cipher::{StreamCipherCore, StreamCipherSeekCore};
use mc::alpha::{arounds, base, few, key_iv2, strings, two_bits};
use mc::kinds::*;
use mc::refs;
use salsa20::{SalsaCore, hsalsa};
use mc::run::{Ctx, Res, Stats, Violation, diff, hx, sut, task, tier};
use mc::spec::{long, requests, sweep};
use std::sync::Arc;

fn hc<R: Unsigned>(rounds: u32, pairs: &[(Vec<u8>, Vec<u8>)]) -> Res<Stats> {
    let mut st = Stats::default();
    for (k, i) in pairs {
        let (key, inp) = (Array::try_from(&k[..]).unwrap(), Array::try_from(&i[..]).unwrap());
        let want = refs::hsalsa(k, i, rounds);
        let e = |w: String| Violation::new(format!("hsalsa{rounds}:{}:{}", hx(k), hx(i)), format!("hsalsa with {rounds} rounds, key {} input {}: {w}", hx(k), hx(i)));
        let got = sut(|| hsalsa::<R>(&key, &inp)).map_err(|m| e(format!("panic {m}")))?;
        if got[..] != want[..] {
            return Err(e(diff(&got, &want)));
        }
        st.evals += 1;
        st.distinct += 1;
        st.bytes += 32;
    }
    st.samples.push(format!("hsalsa/{rounds} key {} input {}", hx(&pairs[0].0), hx(&pairs[0].1)));
    Ok(st)
}

/// Cores from raw states: three blocks by three calls, five blocks by one call, the counter after it.
fn raw<R: Unsigned>(rounds: u32, states: &[Vec<u8>]) -> Res<Stats> {
    let mut st = Stats::default();
    for b in states {
        let mut s = [0u32; 16];
        for i in 0..16 {
            s[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        let e = |w: String| Violation::new(format!("raw{rounds}:{}", hx(b)), format!("core from raw state {} ({rounds} rounds): {w}", hx(b)));
        let ctr = s[8] as u64 | (s[9] as u64) << 32;
        let want: Vec<u8> = (0..8u64)
            .flat_map(|k| {
                let mut t = s;
                let c = ctr.wrapping_add(k);
                t[8] = c as u32;
                t[9] = (c >> 32) as u32;
                refs::salsa_raw_block(&t, rounds)
            })
            .collect();
        let r = sut(|| {
            let mut c = SalsaCore::<R>::from_raw_state(s);
            let p0 = c.get_block_pos();
            let mut out = vec![Array::default(); 8];
            c.write_keystream_block(&mut out[0]);
            let p1 = c.get_block_pos();
            c.write_keystream_blocks(&mut out[1..3]);
            c.apply_keystream_blocks(&mut out[3..8]);
            (out, [p0, p1, c.get_block_pos()])
        });
        let (out, p) = r.map_err(|m| e(format!("panic {m}")))?;
        let got: Vec<u8> = out.iter().flat_map(|a| a.iter().copied()).collect();
        if got != want {
            return Err(e(diff(&got, &want)));
        }
        if p != [ctr, ctr.wrapping_add(1), ctr.wrapping_add(8)] {
            return Err(e(format!("block positions {p:x?}")));
        }
        st.evals += 1;
        st.distinct += 1;
        st.bytes += 512;
    }
    st.samples.push(format!("raw state {} rounds {rounds}", hx(&states[0])));
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C03", "exploration");
    c.rule = "complete enumeration of the key/nonce alphabet (single-bit patterns over three bases, every value of every byte, \
              every pair of words from a set of extreme words, every pair of bits) for HSalsa and XSalsa at each round count, of request sizes \
              around every power of two of the block counter; of raw states for cores made by from_raw_state (the same alphabet over all 64 bytes, counters near every turn-over); compared byte by byte with the reference"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    let hp = Arc::new(key_iv2(32, 16));
    for (r, f) in [(8, hc::<U4> as fn(u32, &[(Vec<u8>, Vec<u8>)]) -> Res<Stats>), (12, hc::<U6>), (20, hc::<U10>)] {
        let hp = hp.clone();
        tasks.push(task(format!("hsalsa{r}"), move || f(r, &hp)));
    }
    let mut states = strings(64, true);
    if thorough {
        states.extend(two_bits(64));
    }
    for around in arounds(64) {
        for d in -9i128..=2 {
            let mut b = base(64, 0x71);
            b[32..40].copy_from_slice(&((around as i128 + d) as u64).to_le_bytes());
            states.push(b);
        }
    }
    let states = Arc::new(states);
    for (r, f) in [(8, raw::<U4> as fn(u32, &[Vec<u8>]) -> Res<Stats>), (12, raw::<U6>), (20, raw::<U10>)] {
        for ch in 0..8 {
            let part: Vec<Vec<u8>> = states.iter().skip(ch).step_by(8).cloned().collect();
            tasks.push(task(format!("raw{r}/{ch}"), move || f(r, &part)));
        }
    }
    for kind in [Kind::Salsa8, Kind::Salsa12, Kind::Salsa20, Kind::XSalsa8, Kind::XSalsa12, Kind::XSalsa20] {
        let pairs = Arc::new(key_iv2(32, kind.ivlen()));
        let starts: Vec<u128> = if thorough { vec![0, 1 << 20, (1 << 38) - 192, kind.limit() - 640] } else { vec![0, (1 << 38) - 192] };
        let n = if thorough { 40 } else { 9 } * 64;
        for ch in 0..16 {
            let (pairs, starts) = (pairs.clone(), starts.clone());
            tasks.push(task(format!("{kind:?}/alphabet/{ch}"), move || {
                let part: Vec<_> = pairs.iter().skip(ch).step_by(16).cloned().collect();
                sweep(kind, &part, &starts, n)
            }));
        }
        let mut keys = few(32, kind.ivlen(), if thorough { 3 } else { 1 });
        keys.push((vec![0; 32], vec![0xff; kind.ivlen()]));
        for around in arounds(64) {
            for (i, (key, iv)) in keys.iter().cloned().enumerate() {
                tasks.push(task(format!("{kind:?}/requests/{around:#x}/{i}"), move || {
                    let (before, max) = if thorough { (140, 140) } else { (40, 40) };
                    requests(kind, &key, &iv, around, before, max)
                }));
            }
        }
        for (name, mask) in kind.envs() {
            let (key, iv) = few(32, kind.ivlen(), 1).remove(0);
            let blocks = if thorough { 1 << 25 } else { 1 << 20 };
            for chunk in [64 * 4099, 65 * 63, 64 * 65537] {
                let (key, iv) = (key.clone(), iv.clone());
                tasks.push(task(format!("{kind:?}/long/{name}/{chunk}"), move || long(kind, mask, &key, &iv, 64 * blocks, chunk)));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
