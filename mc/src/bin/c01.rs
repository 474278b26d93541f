//! C01: ChaCha keystream equals its specification.
use mc::alpha::{arounds, few, key_iv2};
use mc::kinds::*;
use mc::run::{Ctx, task, tier};
use mc::spec::{long, requests, sweep};
use std::sync::Arc;

fn main() {
    let mut c = Ctx::new("C01", "exploration");
    c.rule = "complete enumeration of (a) the key/nonce alphabet: every single-bit pattern over zeros, ones and a base string, \
              every value of every byte, every pair of words from a set of extreme words, every pair of bits; (b) for every power of two of the \
              block counter every start block within 40 blocks of it with every request size up to 40 blocks; (c) contiguous streams. Each \
              case runs on every backend. Distinct = distinct key/nonce or start/size; non-trivial = compared byte by byte with \
              the reference"
        .into();
    let thorough = tier() == "thorough";
    let kinds = [Kind::ChaCha8, Kind::ChaCha12, Kind::ChaCha20, Kind::ChaCha20Legacy, Kind::Legacy8Seed, Kind::Legacy12Seed];
    let mut tasks = vec![];
    for kind in kinds {
        let pairs = Arc::new(key_iv2(kind.klen(), kind.ivlen()));
        let mut starts: Vec<u128> = vec![0];
        if kind.ctr_bits() == Some(64) {
            starts.push(((1u128 << 32) - 3) * 64);
        } else {
            starts.push(((1u128 << 31) - 3) * 64);
        }
        if thorough {
            starts.extend([1 << 20, kind.limit() - 640]);
        }
        let n = if thorough { 40 } else { 9 } * 64;
        for ch in 0..16 {
            let (pairs, starts) = (pairs.clone(), starts.clone());
            tasks.push(task(format!("{kind:?}/alphabet/{ch}"), move || {
                let part: Vec<_> = pairs.iter().skip(ch).step_by(16).cloned().collect();
                sweep(kind, &part, &starts, n)
            }));
        }
        let bits = kind.ctr_bits().unwrap();
        let mut keys = few(32, kind.ivlen(), if thorough { 3 } else { 1 });
        keys.push((vec![0; 32], vec![0xff; kind.ivlen()]));
        for around in arounds(bits) {
            for (i, (key, iv)) in keys.iter().cloned().enumerate() {
                tasks.push(task(format!("{kind:?}/requests/{around:#x}/{i}"), move || {
                    let (before, max) = if thorough { (140, 140) } else { (40, 40) };
                    requests(kind, &key, &iv, around, before, max)
                }));
            }
        }
        for (name, mask) in kind.envs() {
            let (key, iv) = few(32, kind.ivlen(), 1).remove(0);
            let blocks = if thorough { 1 << 25 } else { 1 << 20 };
            for chunk in [64 * 4099, 65 * 63, 64 * 65537] {
                let (key, iv) = (key.clone(), iv.clone());
                tasks.push(task(format!("{kind:?}/long/{name}/{chunk}"), move || long(kind, mask, &key, &iv, 64 * blocks, chunk)));
            }
        }
    }
    c.run(tasks);
    c.finish()
}
