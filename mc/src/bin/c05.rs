//! C05: HC-256 keystream equals its specification.
use mc::alpha::{few, key_iv, key_iv2};
use mc::kinds::*;
use mc::run::{Ctx, task, tier};
use mc::spec::{long, sweep, very_long};
use std::sync::Arc;

fn main() {
    let mut c = Ctx::new("C05", "exploration");
    c.rule = "complete enumeration of the key/IV alphabet (single-bit patterns over three bases, all byte values, extreme word \
              pairs, all pairs of bits), each compared with the reference over the start of the stream; the same alphabet without \
              bit pairs over a whole pass of both tables (8192 bytes and on); long streams over thousands of passes"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    // past 2^32 steps (4 bytes each)
    let (key, iv) = few(32, 32, 1).remove(0);
    tasks.push(task("past 2^32 steps", move || very_long(Kind::Hc256, &key, &iv, (1 << 34) + (1 << 21))));
    let pairs = Arc::new(key_iv2(32, 32));
    for ch in 0..64 {
        let pairs = pairs.clone();
        tasks.push(task(format!("alphabet/{ch}"), move || {
            let part: Vec<_> = pairs.iter().skip(ch).step_by(64).cloned().collect();
            sweep(Kind::Hc256, &part, &[0], 64)
        }));
    }
    let pairs = Arc::new(key_iv(32, 32, true));
    for ch in 0..16 {
        let pairs = pairs.clone();
        tasks.push(task(format!("passes/{ch}"), move || {
            let part: Vec<_> = pairs.iter().skip(ch).step_by(16).cloned().collect();
            sweep(Kind::Hc256, &part, &[0], if thorough { 1 << 17 } else { 8192 * 2 + 64 })
        }));
    }
    for (i, (key, iv)) in few(32, 32, 4).into_iter().enumerate() {
        let total = if thorough { 1 << 32 } else { 1 << 27 };
        for chunk in [4096 * 4 + 4, 1021, 1 << 20] {
            let (key, iv) = (key.clone(), iv.clone());
            tasks.push(task(format!("long/{i}/{chunk}"), move || long(Kind::Hc256, 0, &key, &iv, total, chunk)));
        }
    }
    c.run(tasks);
    c.finish()
}
