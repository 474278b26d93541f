//! C02: XChaCha and HChaCha equal their specification.
use chacha20::{R8, R12, R20, Rounds, hchacha};
use cipher::array::Array;
use mc::alpha::{arounds, few, key_iv2};
use mc::kinds::*;
use mc::refs;
use mc::run::{Ctx, Res, Stats, Violation, diff, hx, sut, task, tier};
use mc::spec::{long, requests, sweep};
use std::sync::Arc;

fn hc<R: Rounds>(rounds: u32, pairs: &[(Vec<u8>, Vec<u8>)]) -> Res<Stats> {
    let mut st = Stats::default();
    for (k, i) in pairs {
        let (key, inp) = (Array::try_from(&k[..]).unwrap(), Array::try_from(&i[..]).unwrap());
        let want = refs::hchacha(k, i, rounds);
        let e = |w: String| Violation::new(format!("hchacha{rounds}:{}:{}", hx(k), hx(i)), format!("hchacha with {rounds} rounds, key {} input {}: {w}", hx(k), hx(i)));
        let got = sut(|| hchacha::<R>(&key, &inp)).map_err(|m| e(format!("panic {m}")))?;
        if got[..] != want[..] {
            return Err(e(diff(&got, &want)));
        }
        st.evals += 1;
        st.distinct += 1;
        st.bytes += 32;
    }
    st.samples.push(format!("hchacha/{rounds} key {} input {}", hx(&pairs[0].0), hx(&pairs[0].1)));
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C02", "exploration");
    c.rule = "complete enumeration of the key/nonce alphabet (single-bit patterns over three bases, every value of every byte, \
              every pair of words from a set of extreme words, every pair of bits) for HChaCha and XChaCha at each round count, of request sizes \
              around every power of two of the block counter, on every backend; compared byte by byte with the reference"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    let hp = Arc::new(key_iv2(32, 16));
    for (r, f) in [(8, hc::<R8> as fn(u32, &[(Vec<u8>, Vec<u8>)]) -> Res<Stats>), (12, hc::<R12>), (20, hc::<R20>)] {
        let hp = hp.clone();
        tasks.push(task(format!("hchacha{r}"), move || f(r, &hp)));
    }
    for kind in [Kind::XChaCha8, Kind::XChaCha12, Kind::XChaCha20] {
        let pairs = Arc::new(key_iv2(32, 24));
        let starts: Vec<u128> = if thorough { vec![0, 1 << 20, (1 << 37) - 192, kind.limit() - 640] } else { vec![0, (1 << 37) - 192] };
        let n = if thorough { 40 } else { 9 } * 64;
        for ch in 0..16 {
            let (pairs, starts) = (pairs.clone(), starts.clone());
            tasks.push(task(format!("{kind:?}/alphabet/{ch}"), move || {
                let part: Vec<_> = pairs.iter().skip(ch).step_by(16).cloned().collect();
                sweep(kind, &part, &starts, n)
            }));
        }
        let mut keys = few(32, 24, if thorough { 3 } else { 1 });
        keys.push((vec![0; 32], vec![0xff; 24]));
        for around in arounds(32) {
            for (i, (key, iv)) in keys.iter().cloned().enumerate() {
                tasks.push(task(format!("{kind:?}/requests/{around:#x}/{i}"), move || {
                    let (before, max) = if thorough { (140, 140) } else { (40, 40) };
                    requests(kind, &key, &iv, around, before, max)
                }));
            }
        }
        for (name, mask) in kind.envs() {
            let (key, iv) = few(32, 24, 1).remove(0);
            let blocks = if thorough { 1 << 25 } else { 1 << 20 };
            for chunk in [64 * 4099, 65 * 63, 64 * 65537] {
                let (key, iv) = (key.clone(), iv.clone());
                tasks.push(task(format!("{kind:?}/long/{name}/{chunk}"), move || long(kind, mask, &key, &iv, 64 * blocks, chunk)));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
