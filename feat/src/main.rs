//! Prints one line `item<TAB>digest` per call of a fixed transcript, for every reported CPU feature set.
//! Only items that exist under the selected features are called; the lines are compared between builds.
#![allow(unused)]
use std::fmt::Write;

struct T {
    out: String,
}
impl T {
    fn put(&mut self, item: &str, i: usize, data: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for &b in data {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let head: String = data.iter().take(8).map(|b| format!("{b:02x}")).collect();
        writeln!(self.out, "{item}#{i}\t{}:{head}:{h:016x}", data.len()).unwrap();
    }
}

fn bytes(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(73).wrapping_add(salt).rotate_left((i % 7) as u32)).collect()
}

#[cfg(feature = "cipher")]
fn cipher_kind<C>(t: &mut T, name: &str, wide: bool)
where
    C: cipher::KeyIvInit + cipher::StreamCipher + cipher::StreamCipherSeek,
{
    use cipher::Array;
    for salt in [0u8, 0x5b, 0xff] {
        let key: Vec<u8> = bytes(C::key_size(), salt);
        let iv: Vec<u8> = bytes(C::iv_size(), salt ^ 0x33);
        let mut c = C::new_from_slices(&key, &iv).unwrap();
        let mut i = salt as usize * 10_000;
        let limit = if wide { (u64::MAX as u128) * 64 } else { (u32::MAX as u128) * 64 };
        let mut starts = vec![0u128, 64 * 100 + 7, limit - 64 * 20];
        if wide {
            starts.push((64 << 32) - 64 * 10);
        }
        for s in starts {
            c.try_seek(s).unwrap();
            for n in [1, 63, 64, 65, 128, 200, 255, 256, 257, 320, 512, 700, 1024, 1500, 100] {
                let mut b = bytes(n, 0x11);
                let r = c.try_apply_keystream(&mut b).is_ok();
                b.push(r as u8);
                b.extend(c.try_current_pos::<u128>().unwrap().to_le_bytes());
                t.put(name, i, &b);
                i += 1;
            }
        }
    }
}

#[cfg(feature = "cipher")]
fn core_kind<C>(t: &mut T, name: &str)
where
    C: cipher::KeyIvInit + cipher::StreamCipherSeekCore<BlockSize = cipher::consts::U64>,
{
    let key = bytes(C::key_size(), 9);
    let iv = bytes(C::iv_size(), 8);
    let mut c = C::new_from_slices(&key, &iv).unwrap();
    let mut i = 0;
    for p in [0u32, 77, u32::MAX - 6] {
        c.set_block_pos(C::Counter::try_from(p as usize).ok().unwrap());
        for n in [1usize, 2, 3, 4, 5, 8, 9, 16] {
            let mut v = vec![cipher::Array::<u8, cipher::consts::U64>::default(); n];
            c.write_keystream_blocks(&mut v);
            let flat: Vec<u8> = v.iter().flat_map(|b| b.to_vec()).collect();
            t.put(name, i, &flat);
            i += 1;
        }
        t.put(name, 1000 + i, &[c.remaining_blocks().map_or(0, |r| r as u8)]);
    }
}

#[cfg(feature = "rng")]
macro_rules! rng {
    ($t:expr, $ty:ty, $name:expr) => {{
        use chacha20::rand_core::{Rng, SeedableRng};
        let mut i = 0;
        for salt in [0u8, 0xa7] {
            let mut r = <$ty>::from_seed(bytes(32, salt).try_into().unwrap());
            for p in [0u128, 5, 64 * 16 + 3, (1 << 36) - 40, (1 << 68) - 70] {
                r.set_word_pos(p);
                for n in [0usize, 1, 3, 4, 5, 63, 64, 255, 256, 257, 700] {
                    let mut b = bytes(n, 3);
                    r.fill_bytes(&mut b);
                    b.extend(r.next_u32().to_le_bytes());
                    b.extend(r.next_u64().to_le_bytes());
                    b.extend(r.get_word_pos().to_le_bytes());
                    b.extend(r.get_block_pos().to_le_bytes());
                    b.extend(r.serialize_state());
                    $t.put($name, i, &b);
                    i += 1;
                }
                r = <$ty>::deserialize_state(&r.serialize_state());
                r.set_stream(r.get_stream() + 0x1_0000_0001);
                $t.put($name, i, &r.next_u64().to_le_bytes());
                i += 1;
            }
        }
    }};
}

fn all(t: &mut T) {
    #[cfg(feature = "cipher")]
    {
        cipher_kind::<chacha20::ChaCha8>(t, "ChaCha8", false);
        cipher_kind::<chacha20::ChaCha12>(t, "ChaCha12", false);
        cipher_kind::<chacha20::ChaCha20>(t, "ChaCha20", false);
        core_kind::<chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Ietf>>(t, "core8");
        core_kind::<chacha20::ChaChaCore<chacha20::R12, chacha20::variants::Ietf>>(t, "core12");
        core_kind::<chacha20::ChaChaCore<chacha20::R20, chacha20::variants::Ietf>>(t, "core20");
    }
    #[cfg(feature = "legacy")]
    {
        cipher_kind::<chacha20::ChaCha20Legacy>(t, "ChaCha20Legacy", true);
        core_kind::<chacha20::ChaCha20LegacyCore>(t, "legacy core");
    }
    #[cfg(feature = "xchacha")]
    {
        cipher_kind::<chacha20::XChaCha8>(t, "XChaCha8", false);
        cipher_kind::<chacha20::XChaCha12>(t, "XChaCha12", false);
        cipher_kind::<chacha20::XChaCha20>(t, "XChaCha20", false);
        for salt in [1u8, 2, 3] {
            let k = bytes(32, salt).as_slice().try_into().unwrap();
            let n = bytes(16, salt ^ 0x70).as_slice().try_into().unwrap();
            t.put("hchacha8", salt as usize, &chacha20::hchacha::<chacha20::R8>(&k, &n));
            t.put("hchacha12", salt as usize, &chacha20::hchacha::<chacha20::R12>(&k, &n));
            t.put("hchacha20", salt as usize, &chacha20::hchacha::<chacha20::R20>(&k, &n));
        }
    }
    #[cfg(feature = "rng")]
    {
        rng!(t, chacha20::ChaCha8Rng, "ChaCha8Rng");
        rng!(t, chacha20::ChaCha12Rng, "ChaCha12Rng");
        rng!(t, chacha20::ChaCha20Rng, "ChaCha20Rng");
    }
}

fn main() {
    use cpufeatures::*;
    let mut masks = vec![0];
    masks.push(SSE2);
    if std::arch::is_x86_feature_detected!("avx2") {
        masks.push(SSE2 | AVX2);
    }
    if std::arch::is_x86_feature_detected!("avx512f") && std::arch::is_x86_feature_detected!("avx512vl") {
        masks.push(SSE2 | AVX2 | AVX512F | AVX512VL);
    }
    for m in masks {
        set_env(m);
        let mut t = T { out: String::new() };
        if let Err(_) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| all(&mut t))) {
            println!("panic\tmask {m:#x}");
        }
        print!("{}", t.out);
    }
}
