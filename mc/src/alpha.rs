//! Input alphabets: explicit finite sets of keys, nonces and words, enumerated completely.

pub const WORDS: [u32; 12] = [
    0, 1, 2, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x6170_7865, 0x0000_ffff, 0xffff_0000, 0x5555_5555, 0x0101_0101,
];
const PAIR: [u32; 4] = [0, 0xffff_ffff, 0x8000_0000, 1];

pub fn base(len: usize, salt: u8) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(73).wrapping_add(salt).rotate_left((i % 7) as u32)).collect()
}

/// All the strings of `len` bytes of the alphabet. `bytes`: also every value of every byte.
pub fn strings(len: usize, bytes: bool) -> Vec<Vec<u8>> {
    let b = base(len, 0x3d);
    let mut v: Vec<Vec<u8>> = vec![b.clone(), vec![0; len], vec![0xff; len], (0..len).map(|i| i as u8).collect()];
    for bit in 0..8 * len {
        let mut z = vec![0u8; len];
        z[bit / 8] |= 1 << (bit % 8);
        v.push(z.clone());
        v.push(z.iter().map(|x| !x).collect());
        let mut w = b.clone();
        w[bit / 8] ^= 1 << (bit % 8);
        v.push(w);
    }
    if bytes {
        for i in 0..len {
            for x in 0..=255u8 {
                let mut w = b.clone();
                w[i] = x;
                v.push(w);
            }
        }
    }
    let put = |w: &mut Vec<u8>, i: usize, x: u32| w[4 * i..4 * i + 4].copy_from_slice(&x.to_le_bytes());
    for i in 0..len / 4 {
        for x in WORDS {
            let mut w = b.clone();
            put(&mut w, i, x);
            v.push(w);
            for j in i + 1..len / 4 {
                if PAIR.contains(&x) {
                    for y in PAIR {
                        let mut w = b.clone();
                        put(&mut w, i, x);
                        put(&mut w, j, y);
                        v.push(w);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // simplest first
    v.sort_by_key(|s| (s.iter().any(|&x| x != 0), s.clone()));
    v
}

/// (key, nonce) pairs: the alphabet over the concatenation.
pub fn key_iv(klen: usize, ivlen: usize, bytes: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    strings(klen + ivlen, bytes).into_iter().map(|s| (s[..klen].to_vec(), s[klen..].to_vec())).collect()
}

/// A few fixed, structureless pairs for history exploration.
pub fn few(klen: usize, ivlen: usize, n: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    (0..n).map(|i| (base(klen, 0x11u8.wrapping_mul(i as u8 + 1)), base(ivlen, 0xc3u8.wrapping_add(29 * i as u8)))).collect()
}

/// All strings with exactly two bits changed, over zeros and over a base string.
pub fn two_bits(len: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let b = base(len, 0x3d);
    for i in 0..8 * len {
        for j in 0..i {
            for w in [&vec![0u8; len], &b] {
                let mut w = w.clone();
                w[i / 8] ^= 1 << (i % 8);
                w[j / 8] ^= 1 << (j % 8);
                v.push(w);
            }
        }
    }
    v
}

/// `key_iv` and additionally all pairs of bits.
pub fn key_iv2(klen: usize, ivlen: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = key_iv(klen, ivlen, true);
    v.extend(two_bits(klen + ivlen).into_iter().map(|s| (s[..klen].to_vec(), s[klen..].to_vec())));
    v
}

/// Block numbers around which counters are exercised.
pub fn arounds(bits: u32) -> Vec<u128> {
    let mut v: Vec<u128> = (0..bits).map(|e| 1u128 << e).collect();
    v.push((1 << bits) - 1);
    for m in [3u128, 0x00ff_00ff, 0x7fff_ffff, 0xffff_ffff] {
        v.push(m << 8);
        if bits == 64 {
            v.push(m << 32);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|&a| a < 1 << bits);
    v
}
