//! C06: RC4 keystream equals the algorithm for every key length.
use cipher::KeyInit;
use cipher::array::Array;
use cipher::StreamCipher;
use mc::alpha::{base, strings, two_bits};
use mc::kinds::*;
use mc::run::{Ctx, Stats, Violation, diff, hx, sut, task, tier};
use mc::spec::{long, sweep, very_long};
use std::sync::Arc;

fn main() {
    let mut c = Ctx::new("C06", "exploration");
    c.rule = "complete enumeration of: all 1-byte and 2-byte keys; every length 1..=256 with the key alphabet (zeros, ones, counting, \
              base, single-bit and single-byte variations); bit pairs for 5, 16 and 32 bytes; 600 bytes of each stream, long streams \
              for some; every refused length 0 and 257..=5000 and large ones; array constructor against slice constructor"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    tasks.push(task("past 2^32 bytes", || very_long(Kind::Rc4, &base(16, 9), &[], (1 << 32) + (1 << 21))));
    let none = |keys: Vec<Vec<u8>>| -> Vec<(Vec<u8>, Vec<u8>)> { keys.into_iter().map(|k| (k, vec![])).collect() };
    for hi in 0..64u16 {
        tasks.push(task(format!("short keys/{hi}"), move || {
            let mut keys: Vec<Vec<u8>> = vec![];
            for h in 4 * hi..4 * hi + 4 {
                keys.push(vec![h as u8]);
                keys.extend((0..=255u8).map(|l| vec![h as u8, l]));
            }
            sweep(Kind::Rc4, &none(keys), &[0], 300)
        }));
    }
    for len in 1..=256usize {
        tasks.push(task(format!("length {len}"), move || {
            let mut keys = strings(len, thorough || [5, 8, 16, 24, 32].contains(&len));
            if !thorough && len > 64 {
                keys.retain(|k| k.iter().filter(|&&b| b != 0 && b != 255).count() != 1 || k[len - 1] != 0 || k[0] != 0);
                let b = base(len, 0x3d);
                for i in [0, 1, len / 2, len - 2, len - 1] {
                    for x in 0..=255 {
                        let mut w = b.clone();
                        w[i] = x;
                        keys.push(w);
                    }
                }
                keys.sort();
                keys.dedup();
                keys.truncate(6000);
            }
            if [5, 16, 32].contains(&len) {
                keys.extend(two_bits(len));
            }
            sweep(Kind::Rc4, &none(keys), &[0], 600)
        }));
    }
    for len in [1usize, 2, 5, 16, 32, 255, 256] {
        let total = if thorough { 1 << 31 } else { 1 << 26 };
        for chunk in [1021usize, 65536, 1 << 20] {
            tasks.push(task(format!("long/{len}/{chunk}"), move || long(Kind::Rc4, 0, &base(len, 9), &[], total, chunk)));
        }
    }
    let keys32 = Arc::new(strings(32, true));
    tasks.push(task("array constructor", move || {
        let mut st = Stats::default();
        for k in keys32.iter() {
            let w = Kind::Rc4.window(k, &[], 0, 80);
            let mut o = vec![0u8; 80];
            sut(|| rc4::Rc4::new(&Array::try_from(&k[..]).unwrap()).apply_keystream(&mut o))
                .map_err(|m| Violation::new("array", format!("array constructor, key {}: {m}", hx(k))))?;
            if o != w.data {
                return Err(Violation::new("array", format!("array constructor, key {}: {}", hx(k), diff(&o, &w.data))));
            }
            st.evals += 1;
            st.distinct += 1;
        }
        Ok(st)
    }));
    tasks.push(task("refused lengths", move || {
        let mut st = Stats::default();
        let mut lens: Vec<usize> = vec![0];
        lens.extend(257..=5000);
        for e in 13..=26 {
            lens.extend([(1 << e) - 1, 1 << e, (1 << e) + 1, (1 << e) + 32, (1 << e) + 255]);
        }
        for n in lens {
            for fill in [0u8, 1, 0xff] {
                let k = vec![fill; n];
                match sut(|| rc4::Rc4::new_from_slice(&k).is_err()) {
                    Ok(true) => {}
                    r => return Err(Violation::new(format!("len{n}"), format!("key of {n} bytes: expected an error, got {r:?} (Ok(false) = accepted, Err = panic)"))),
                }
            }
            st.evals += 3;
            st.distinct += 1;
        }
        Ok(st)
    }));
    c.run(tasks);
    c.finish()
}
