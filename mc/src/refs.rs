//! Reference models of the ciphers, written from their specifications and deliberately boring: no shared
//! code, structure or constants tables with the implementations under test.
//! `self_check` compares each of them with published test vectors; every check runs it first.

// ---------------------------------------------------------------- ChaCha (RFC 8439 / Bernstein)

fn le32(b: &[u8], i: usize) -> u32 {
    (b[i] as u32) + ((b[i + 1] as u32) << 8) + ((b[i + 2] as u32) << 16) + ((b[i + 3] as u32) << 24)
}

fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    let steps = [(a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)];
    for (p, q, r, n) in steps {
        x[p] = x[p].wrapping_add(x[q]);
        let t = x[r] ^ x[p];
        x[r] = (t << n) | (t >> (32 - n));
    }
}

fn chacha_permute(x: &mut [u32; 16], rounds: u32) {
    for r in 0..rounds {
        for i in 0..4 {
            if r % 2 == 0 {
                qr(x, i, 4 + i, 8 + i, 12 + i);
            } else {
                qr(x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4);
            }
        }
    }
}

fn words_to_bytes(x: &[u32; 16]) -> [u8; 64] {
    let mut out = [0u8; 64];
    for i in 0..64 {
        out[i] = (x[i / 4] >> (8 * (i % 4))) as u8;
    }
    out
}

/// One ChaCha block; `tail` is state words 12..16.
pub fn chacha_block(key: &[u8], tail: [u32; 4], rounds: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    for i in 0..4 {
        s[i] = le32(b"expand 32-byte k", 4 * i);
    }
    for i in 0..8 {
        s[4 + i] = le32(key, 4 * i);
    }
    for i in 0..4 {
        s[12 + i] = tail[i];
    }
    let mut x = s;
    chacha_permute(&mut x, rounds);
    for i in 0..16 {
        x[i] = x[i].wrapping_add(s[i]);
    }
    words_to_bytes(&x)
}

pub fn chacha_ietf_block(key: &[u8], nonce: &[u8], ctr: u32, rounds: u32) -> [u8; 64] {
    chacha_block(key, [ctr, le32(nonce, 0), le32(nonce, 4), le32(nonce, 8)], rounds)
}

pub fn chacha_djb_block(key: &[u8], nonce: &[u8], ctr: u64, rounds: u32) -> [u8; 64] {
    chacha_block(key, [ctr as u32, (ctr >> 32) as u32, le32(nonce, 0), le32(nonce, 4)], rounds)
}

pub fn hchacha(key: &[u8], input: &[u8], rounds: u32) -> [u8; 32] {
    let mut x = [0u32; 16];
    for i in 0..4 {
        x[i] = le32(b"expand 32-byte k", 4 * i);
        x[12 + i] = le32(input, 4 * i);
    }
    for i in 0..8 {
        x[4 + i] = le32(key, 4 * i);
    }
    chacha_permute(&mut x, rounds);
    let b = words_to_bytes(&x);
    let mut out = [0u8; 32];
    out[..16].copy_from_slice(&b[..16]);
    out[16..].copy_from_slice(&b[48..]);
    out
}

// ---------------------------------------------------------------- Salsa20 (Bernstein's matrix form)

fn salsa_quarter(y: [u32; 4]) -> [u32; 4] {
    let z1 = y[1] ^ y[0].wrapping_add(y[3]).rotate_left(7);
    let z2 = y[2] ^ z1.wrapping_add(y[0]).rotate_left(9);
    let z3 = y[3] ^ z2.wrapping_add(z1).rotate_left(13);
    let z0 = y[0] ^ z3.wrapping_add(z2).rotate_left(18);
    [z0, z1, z2, z3]
}

fn salsa_rowround(y: &[u32; 16]) -> [u32; 16] {
    let mut z = [0u32; 16];
    for r in 0..4 {
        let idx = [4 * r + r % 4, 4 * r + (r + 1) % 4, 4 * r + (r + 2) % 4, 4 * r + (r + 3) % 4];
        let o = salsa_quarter([y[idx[0]], y[idx[1]], y[idx[2]], y[idx[3]]]);
        for k in 0..4 {
            z[idx[k]] = o[k];
        }
    }
    z
}

fn transpose(y: &[u32; 16]) -> [u32; 16] {
    let mut z = [0u32; 16];
    for i in 0..16 {
        z[i] = y[(i % 4) * 4 + i / 4];
    }
    z
}

fn salsa_permute(s: &[u32; 16], rounds: u32) -> [u32; 16] {
    let mut x = *s;
    for _ in 0..rounds / 2 {
        x = transpose(&salsa_rowround(&transpose(&x))); // columnround
        x = salsa_rowround(&x);
    }
    x
}

pub fn salsa_raw_block(s: &[u32; 16], rounds: u32) -> [u8; 64] {
    let mut x = salsa_permute(s, rounds);
    for i in 0..16 {
        x[i] = x[i].wrapping_add(s[i]);
    }
    words_to_bytes(&x)
}

fn salsa_state(key: &[u8], n16: &[u8; 16]) -> [u32; 16] {
    let c = b"expand 32-byte k";
    let mut b = [0u8; 64];
    b[0..4].copy_from_slice(&c[0..4]);
    b[4..20].copy_from_slice(&key[0..16]);
    b[20..24].copy_from_slice(&c[4..8]);
    b[24..40].copy_from_slice(n16);
    b[40..44].copy_from_slice(&c[8..12]);
    b[44..60].copy_from_slice(&key[16..32]);
    b[60..64].copy_from_slice(&c[12..16]);
    let mut s = [0u32; 16];
    for i in 0..16 {
        s[i] = le32(&b, 4 * i);
    }
    s
}

pub fn salsa_block(key: &[u8], nonce: &[u8], ctr: u64, rounds: u32) -> [u8; 64] {
    let mut n16 = [0u8; 16];
    n16[..8].copy_from_slice(nonce);
    n16[8..].copy_from_slice(&ctr.to_le_bytes());
    salsa_raw_block(&salsa_state(key, &n16), rounds)
}

pub fn hsalsa(key: &[u8], input: &[u8], rounds: u32) -> [u8; 32] {
    let mut n16 = [0u8; 16];
    n16.copy_from_slice(input);
    let z = salsa_permute(&salsa_state(key, &n16), rounds);
    let b = words_to_bytes(&z);
    let mut out = [0u8; 32];
    for (k, w) in [0usize, 5, 10, 15, 6, 7, 8, 9].iter().enumerate() {
        out[4 * k..4 * k + 4].copy_from_slice(&b[4 * w..4 * w + 4]);
    }
    out
}

// ---------------------------------------------------------------- Rabbit (RFC 4503)

/// Rabbit with the counters held as one 256-bit little-endian integer plus the carry bit.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rabbit {
    pub x: [u32; 8],
    pub c: [u64; 4],
    pub carry: bool,
}

/// The constants A7..A0 as one 256-bit integer, low limb first.
const RABBIT_A: [u64; 4] = [0xD34D34D34D34D34D, 0x4D34D34D34D34D34, 0x34D34D34D34D34D3, 0xD34D34D34D34D34D];

impl Rabbit {
    pub fn c32(&self, j: usize) -> u32 {
        (self.c[j / 2] >> (32 * (j % 2))) as u32
    }
    fn xor_c(&mut self, j: usize, v: u32) {
        self.c[j / 2] ^= (v as u64) << (32 * (j % 2));
    }
    pub fn step(&mut self) {
        let mut carry = self.carry as u128;
        for l in 0..4 {
            let t = self.c[l] as u128 + RABBIT_A[l] as u128 + carry;
            self.c[l] = t as u64;
            carry = t >> 64;
        }
        self.carry = carry == 1;
        let mut g = [0u32; 8];
        for j in 0..8 {
            let u = self.x[j].wrapping_add(self.c32(j)) as u128;
            let sq = u * u;
            g[j] = ((sq & 0xffff_ffff) ^ (sq >> 32)) as u32;
        }
        for j in 0..8 {
            let a = g[j];
            let b = g[(j + 7) % 8];
            let c = g[(j + 6) % 8];
            self.x[j] = if j % 2 == 0 {
                a.wrapping_add(b.rotate_left(16)).wrapping_add(c.rotate_left(16))
            } else {
                a.wrapping_add(b.rotate_left(8)).wrapping_add(c)
            };
        }
    }
    pub fn key_setup(key: &[u8]) -> Self {
        let k = |i: usize| -> u32 { key[2 * (i % 8)] as u32 | ((key[2 * (i % 8) + 1] as u32) << 8) };
        let mut s = Rabbit { x: [0; 8], c: [0; 4], carry: false };
        for j in 0..8 {
            if j % 2 == 0 {
                s.x[j] = (k(j + 1) << 16) | k(j);
                s.xor_c(j, (k(j + 4) << 16) | k(j + 5));
            } else {
                s.x[j] = (k(j + 5) << 16) | k(j + 4);
                s.xor_c(j, (k(j) << 16) | k(j + 1));
            }
        }
        for _ in 0..4 {
            s.step();
        }
        for j in 0..8 {
            let v = s.x[(j + 4) % 8];
            s.xor_c(j, v);
        }
        s
    }
    pub fn iv_setup(&mut self, iv: &[u8]) {
        let w = |a: usize, b: usize, c: usize, d: usize| -> u32 {
            // bytes most significant first
            ((iv[a] as u32) << 24) | ((iv[b] as u32) << 16) | ((iv[c] as u32) << 8) | iv[d] as u32
        };
        let v = [w(3, 2, 1, 0), w(7, 6, 3, 2), w(7, 6, 5, 4), w(5, 4, 1, 0)];
        for j in 0..8 {
            self.xor_c(j, v[j % 4]);
        }
        for _ in 0..4 {
            self.step();
        }
    }
    pub fn next_block(&mut self) -> [u8; 16] {
        self.step();
        let lo = |v: u32| v & 0xffff;
        let hi = |v: u32| v >> 16;
        let x = &self.x;
        let mut out = [0u8; 16];
        for i in 0..4 {
            let a = lo(x[2 * i]) ^ hi(x[(2 * i + 5) % 8]);
            let b = hi(x[2 * i]) ^ lo(x[(2 * i + 3) % 8]);
            out[4 * i] = a as u8;
            out[4 * i + 1] = (a >> 8) as u8;
            out[4 * i + 2] = b as u8;
            out[4 * i + 3] = (b >> 8) as u8;
        }
        out
    }
}

// ---------------------------------------------------------------- HC-256 (Wu, eSTREAM)

#[derive(Clone)]
pub struct Hc256 {
    p: Vec<u32>,
    q: Vec<u32>,
    i: u64,
}

impl Hc256 {
    pub fn new(key: &[u8], iv: &[u8]) -> Self {
        let mut w = vec![0u32; 2560];
        for i in 0..8 {
            w[i] = le32(key, 4 * i);
            w[8 + i] = le32(iv, 4 * i);
        }
        for i in 16..2560 {
            let f1 = |x: u32| x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
            let f2 = |x: u32| x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
            w[i] = f2(w[i - 2])
                .wrapping_add(w[i - 7])
                .wrapping_add(f1(w[i - 15]))
                .wrapping_add(w[i - 16])
                .wrapping_add(i as u32);
        }
        let mut s = Hc256 { p: w[512..1536].to_vec(), q: w[1536..2560].to_vec(), i: 0 };
        for _ in 0..4096 {
            s.next_word();
        }
        s.i = 0;
        s
    }
    pub fn next_word(&mut self) -> u32 {
        let j = (self.i % 1024) as usize;
        let back = |n: usize| (j + 1024 - n) % 1024;
        let g = |t: &[u32], x: u32, y: u32| {
            (x.rotate_right(10) ^ y.rotate_right(23)).wrapping_add(t[((x ^ y) % 1024) as usize])
        };
        let h = |t: &[u32], x: u32| {
            let b = x.to_le_bytes();
            (0..4).fold(0u32, |a, k| a.wrapping_add(t[256 * k + b[k] as usize]))
        };
        let first = self.i % 2048 < 1024;
        self.i += 1;
        if first {
            let add = self.p[back(10)].wrapping_add(g(&self.q, self.p[back(3)], self.p[back(1023)]));
            self.p[j] = self.p[j].wrapping_add(add);
            h(&self.q, self.p[back(12)]) ^ self.p[j]
        } else {
            let add = self.q[back(10)].wrapping_add(g(&self.p, self.q[back(3)], self.q[back(1023)]));
            self.q[j] = self.q[j].wrapping_add(add);
            h(&self.p, self.q[back(12)]) ^ self.q[j]
        }
    }
}

// ---------------------------------------------------------------- RC4

#[derive(Clone)]
pub struct Rc4 {
    s: Vec<u16>,
    i: usize,
    j: usize,
}

impl Rc4 {
    pub fn new(key: &[u8]) -> Self {
        let mut s: Vec<u16> = (0..256).collect();
        let mut j = 0usize;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4 { s, i: 0, j: 0 }
    }
    pub fn next_byte(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i] as usize) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] as usize + self.s[self.j] as usize) % 256] as u8
    }
}

// ---------------------------------------------------------------- published vectors

fn hex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(u8::is_ascii_hexdigit).collect();
    d.chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

/// Compare the references with published vectors. Returns the number of vectors.
pub fn self_check() -> usize {
    let mut n = 0;
    let mut ck = |got: &[u8], want: &str| {
        assert_eq!(got, &hex(want)[..], "reference self-check vector {n}");
        n += 1;
    };
    // RFC 8439 2.3.2 and A.1 #1
    let k: Vec<u8> = (0..32).collect();
    ck(&chacha_ietf_block(&k, &hex("000000090000004a00000000"), 1, 20),
       "10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e");
    ck(&chacha_djb_block(&[0; 32], &[0; 8], 0, 20)[..32], "76b8e0ada0f13d90405d6ae55386bd28bdd219b8a08ded1aa836efcc8b770dc7");
    // draft-strombergson ChaCha8/12, 256-bit key TC1 block 0
    ck(&chacha_djb_block(&[0; 32], &[0; 8], 0, 8)[..32], "3e00ef2f895f40d67f5bb8e81f09a5a12c840ec3ce9a7f3b181be188ef711a1e");
    ck(&chacha_djb_block(&[0; 32], &[0; 8], 0, 12)[..32], "9bf49a6a0755f953811fce125f2683d50429c3bb49e074147e0089a52eae155f");
    // draft-irtf-cfrg-xchacha 2.2.1
    ck(&hchacha(&k, &hex("000000090000004a0000000031415927"), 20), "82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc");
    // Salsa20 spec section 8/10 (expand) via ECRYPT set 1 vector 0, and XSalsa20 vectors
    let mut k1 = [0u8; 32];
    k1[0] = 0x80;
    ck(&salsa_block(&k1, &[0; 8], 0, 20), "e3be8fdd8beca2e3ea8ef9475b29a6e7003951e1097a5c38d23b7a5fad9f6844b22c97559e2723c7cbbd3fe4fc8d9a0744652a83e72a9c461876af4d7ef1a117");
    // ECRYPT Salsa20/8 and /12 256-bit set 1 vector 0 (first 16 bytes are checked in the repository's ecrypt.blb)
    let key = b"this is 32-byte key for xsalsa20";
    let iv = b"24-byte nonce for xsalsa";
    let sub = hsalsa(key, &iv[..16], 20);
    ck(&salsa_block(&sub, &iv[16..], 0, 20), "4848297feb1fb52fb66d81609bd547fabcbe7026edc8b5e5e449d088bfa69c088f5d8da1d791267c2c195a7f8cae9c4b4050d08ce6d3a151ec265f3a58e47648");
    // NaCl's HSalsa20 vector (Bernstein, "Cryptography in NaCl", firstkey)
    ck(&hsalsa(&hex("4a5d9d5ba4ce2de1728e3bf480350f25e07e21c947d19e3376f09b3c1e161742"), &[0; 16], 20),
       "1b27556473e985d462cd51197a9a46c76009549eac6474f206c4ee0844f68389");
    // RFC 4503 appendix A
    for (key, want) in [
        ("00000000000000000000000000000000", "02F74A1C26456BF5ECD6A536F05457B1A78AC689476C697B390C9CC515D8E88896D6731688D168DA51D40C70C3A116F4"),
        ("ACC351DCF162FC3BFE363D2E29132891", "9C51E28784C37FE9A127F63EC8F32D3D19FC5485AA53BF96885B40F461CD76F55E4C4D20203BE58A5043DBFB737454E5"),
        ("43009BC001ABE9E933C7E08715749583", "9B60D002FD5CEB32ACCD41A0CD0DB10CAD3EFF4C1192707B5A01170FCA9FFC952874943AAD4741923F7FFC8BDEE54996"),
    ] {
        let mut r = Rabbit::key_setup(&hex(key));
        let mut o = vec![];
        for _ in 0..3 {
            o.extend(r.next_block());
        }
        ck(&o, want);
    }
    for (iv, want) in [
        ("0000000000000000", "EDB70567375DCD7CD89554F85E27A7C68D4ADC7032298F7BD4EFF504ACA6295F668FBF478ADB2BE51E6CDE292B82DE2A"),
        ("597E26C175F573C3", "6D7D012292CCDCE0E2120058B94ECD1F2E6F93EDFF99247B012521D1104E5FA7A79B0212D0BD56233938E793C312C1EB"),
        ("2717F4D21A56EBA6", "4D1051A123AFB670BF8D8505C8D85A44035BC3ACC667AEAE5B2CF44779F2C896CB5115F034F03D31171CA75F89FCCB9F"),
    ] {
        let mut r = Rabbit::key_setup(&[0; 16]);
        r.iv_setup(&hex(iv));
        let mut o = vec![];
        for _ in 0..3 {
            o.extend(r.next_block());
        }
        ck(&o, want);
    }
    // HC-256 paper
    let mut k5 = [0u8; 32];
    k5[0] = 0x55;
    let mut i1 = [0u8; 32];
    i1[0] = 1;
    for (k, i, want) in [
        ([0u8; 32], [0u8; 32], "5b078985d8f6f30d42c5c02fa6b6795153f06534801f89f24e74248b720b4818cd9227ecebcf4dbf8dbf6977e4ae14fae8504c7bc8a9f3ea6c0106f5327e6981"),
        ([0u8; 32], i1, "afe2a2bf4f17cee9fec2058bd1b18bb15fc042ee712b3101dd501fc60b082a5006c7feed41923d6348c4daa6ff6185af5a13045e34c44894f3e9e72ddf0b5237"),
        (k5, [0u8; 32], "1c404afe4fe25fed958f9ad1ae36c06f88a65a3cc0abe223aeb3902f420ed3a86c3af05944eb396efb79758f5e7a1370d8b7106dcdf7d0adda233472e6dd75f5"),
    ] {
        let mut h = Hc256::new(&k, &i);
        let mut o = vec![];
        for _ in 0..16 {
            o.extend(h.next_word().to_le_bytes());
        }
        ck(&o, want);
    }
    // RC4: RFC 6229 (40-bit and 256-bit), classic "Key"/"Plaintext" keystream
    for (k, off, want) in [
        ("0102030405", 0, "b2396305f03dc027ccc3524a0a1118a8"),
        ("0102030405", 0x1000, "ff25b58995996707e51fbdf08b34d875"),
        ("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20", 0, "eaa6bd25880bf93d3f5d1e4ca2611d91"),
        ("4b6579", 0, "eb9f7781b734ca72a719"),
    ] {
        let mut r = Rc4::new(&hex(k));
        let v: Vec<u8> = (0..off + want.len() / 2).map(|_| r.next_byte()).collect();
        ck(&v[off..], want);
    }
    n
}
