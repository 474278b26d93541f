# Planted bugs; see mkseed.py. Every one is written from a property and the code, not from a check.
SPECS = []
def S(id, property, edits, main, needs, what, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, what=what, **k))

CH = 'chacha20/src/'
BE = CH + 'backends/'
P = '''
use cipher::{KeyIvInit, StreamCipher, StreamCipherSeek, StreamCipherCore, StreamCipherSeekCore};
'''

S('c01-avx2-pair-carry', 'C01',
  [(BE + 'avx2.rs', '''            8 => _mm256_add_epi64(c, _mm256_set_epi64x(0, 2, 0, 2)),
            _ => unreachable!(),
        };
    }
    let mut backend = Backend::<R, V> {
        v,
        ctr,
        _pd: PhantomData,
    };

    f.call''', '''            8 => _mm256_add_epi32(c, _mm256_set_epi64x(0, 2, 0, 2)),
            _ => unreachable!(),
        };
    }
    let mut backend = Backend::<R, V> {
        v,
        ctr,
        _pd: PhantomData,
    };

    f.call''')],
  '''mod refs;''' + P + '''
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 8]);
    for b in (1u64 << 32) - 6..(1 << 32) + 1 {
        let mut c = chacha20::ChaCha20Legacy::new(&k.into(), &n.into());
        c.seek(b * 64);
        let mut buf = [0u8; 64 * 8];
        c.apply_keystream(&mut buf);
        for (i, g) in buf.chunks(64).enumerate() {
            assert_eq!(g, refs::chacha_djb_block(&k, &n, b + i as u64, 20), "block {}", b + i as u64);
        }
    }
}''', 'a 64-bit block counter whose low word is 2^32-2 or 2^32-1 at the start of a call of several blocks, on the AVX2 backend',
  'AVX2 loses the carry between the two block pairs, so blocks 3 and 4 of a group use a wrong counter')

S('c02-xchacha8-rounds', 'C02',
  [(CH + 'xchacha.rs', 'for _ in 0..R::COUNT {', 'for _ in 0..R::COUNT.max(R12::COUNT) {')],
  '''mod refs;''' + P + '''
fn main() {
    let k = [1u8; 32]; let n: [u8; 24] = core::array::from_fn(|i| i as u8);
    let mut c = chacha20::XChaCha8::new(&k.into(), &n.into());
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    let sub = refs::hchacha(&k, &n[..16], 8);
    let mut nn = [0u8; 12]; nn[4..].copy_from_slice(&n[16..]);
    assert_eq!(b, refs::chacha_ietf_block(&sub, &nn, 0, 8));
}''', 'the 8-round variant', 'HChaCha8 runs 12 rounds')

S('c03-xsalsa-reduced-subkey', 'C03',
  [('salsa20/src/xsalsa.rs', 'let subkey = hsalsa::<R>(key', 'let subkey = hsalsa::<U10>(key')],
  '''mod refs;''' + P + '''
fn main() {
    let k = [1u8; 32]; let n: [u8; 24] = core::array::from_fn(|i| i as u8);
    let mut c = salsa20::XSalsa12::new(&k.into(), &n.into());
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    let sub = refs::hsalsa(&k, &n[..16], 12);
    assert_eq!(b, refs::salsa_block(&sub, &n[16..], 0, 12));
}''', 'a reduced-round XSalsa', 'the subkey of XSalsa8 and XSalsa12 is derived with 20 rounds', deps=['salsa20', 'cipher'])

S('c03-salsa-top-counter-bit', 'C03',
  [('salsa20/src/lib.rs', 'self.state[9] = ((pos >> 32) & 0xffff_ffff) as u32;', 'self.state[9] = ((pos >> 32) & 0x7fff_ffff) as u32;')],
  '''mod refs;''' + P + '''
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 8]);
    let p = 1u64 << 63;
    let mut c = salsa20::Salsa20::new(&k.into(), &n.into());
    c.seek(p as u128 * 64);
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    assert_eq!(b, refs::salsa_block(&k, &n, p, 20));
}''', 'a block position of 2^63 or more', 'the top bit of the block counter is dropped', deps=['salsa20', 'cipher'])

S('c04-rabbit-exact-carry', 'C04',
  [('rabbit/src/lib.rs', 'self.carry_bit = ((t / WORDSIZE) as u8) & 0b1;', 'self.carry_bit = (t > WORDSIZE) as u8;')],
  '''mod refs;
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    // choose the IV so that counter 0 wraps to exactly 0 in the first step of the IV setup
    let k = [0x5au8; 16];
    let mut r = refs::Rabbit::key_setup(&k);
    let a0 = 0x4d34_d34du32;
    let mut bad = 0;
    for carry in [0u32, 1] {
        let want = 0u32.wrapping_sub(a0).wrapping_sub(carry);
        let i0 = r.c32(0) ^ want;
        for hi in [0u32, 0x1234_5678] {
            let mut iv = [0u8; 8];
            iv[..4].copy_from_slice(&i0.to_le_bytes());
            iv[4..].copy_from_slice(&hi.to_le_bytes());
            let mut m = refs::Rabbit::key_setup(&k);
            m.iv_setup(&iv);
            let mut c = rabbit::Rabbit::new(&k.into(), &iv.into());
            let mut b = [0u8; 64];
            c.apply_keystream(&mut b);
            for g in b.chunks(16) { if g != m.next_block() { bad += 1; } }
        }
    }
    assert_eq!(bad, 0);
}''', 'a counter word that becomes exactly 0 when it wraps', 'the carry into the next counter word is lost', deps=['rabbit', 'cipher'])

S('c05-hc256-batched-pass', 'C05',
  [('hc-256/src/lib.rs', '''    type ParBlocksSize = U1;
}''', '''    type ParBlocksSize = U4;
}'''),
   ('hc-256/src/lib.rs', '''        block.copy_from_slice(&self.0.gen_word().to_le_bytes());
    }''', '''        block.copy_from_slice(&self.0.gen_word().to_le_bytes());
    }

    #[inline(always)]
    fn gen_par_ks_blocks(&mut self, blocks: &mut cipher::ParBlocks<Self>) {
        // a group of four words stays within one table, except around a change of table
        let p_table = (self.0.idx & 1023) + 4 <= 1023 && self.0.idx < 1024 || self.0.idx + 4 <= 1024;
        for block in blocks.iter_mut() {
            let save = self.0.idx;
            if !p_table && save < 1024 {
                self.0.idx = save + 1024;
            }
            let w = self.0.gen_word();
            if !p_table && save < 1024 {
                self.0.idx = (save + 1) & 2047;
            }
            block.copy_from_slice(&w.to_le_bytes());
        }
    }'''),
   ('hc-256/src/lib.rs', 'consts::{U1, U4, U32}', 'consts::{U4, U32}')],
  '''mod refs;
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let (k, n) = ([3u8; 32], [8u8; 32]);
    let mut c = hc_256::Hc256::new(&k.into(), &n.into());
    let mut m = refs::Hc256::new(&k, &n);
    let mut b = vec![0u8; 4 * 3000 + 4];
    let (x, y) = b.split_at_mut(4);
    c.apply_keystream(x);
    c.apply_keystream(y);
    for g in b.chunks(4) { assert_eq!(g, m.next_word().to_le_bytes()); }
}''', 'a call that crosses a change of table at a word offset that is no multiple of four', 'words generated in a group across the change of table come from the wrong table', deps=['hc-256', 'cipher'])

S('c06-rc4-256', 'C06',
  [('rc4/src/lib.rs', 'key.len() > MAX_KEY_SIZE', 'key.len() >= MAX_KEY_SIZE')],
  '''use cipher::KeyInit;
fn main() {
    assert!(rc4::Rc4::new_from_slice(&[1u8; 256]).is_ok());
    assert!(rc4::Rc4::new_from_slice(&[1u8; 257]).is_err());
}''', 'a key of exactly 256 bytes', 'the longest documented key length is refused', deps=['rc4', 'cipher'])

S('c07-rc4-write', 'C07',
  [('rc4/src/lib.rs', 'buf.iter_mut().for_each(|b| *b = self.prga());', 'buf.iter_mut().for_each(|b| *b ^= self.prga());')],
  '''use cipher::{KeyInit, StreamCipher};
fn main() {
    let k = [5u8; 32];
    let mut a = [0u8; 32]; let mut b = [0xffu8; 32];
    rc4::Rc4::new(&k.into()).apply_keystream(&mut a);
    rc4::Rc4::new(&k.into()).write_keystream(&mut b);
    assert_eq!(a, b);
}''', 'writing the keystream into a buffer that is not all zero', 'write_keystream mixes in the old contents of the buffer', deps=['rc4', 'cipher'])

S('c08-legacy-seek-back', 'C08',
  [(CH + 'variants.rs', '''        row[1] = (pos >> 32) as u32;''', '''        if pos > u64::from(u32::MAX) || row[0] >> 31 == 0 {
            row[1] = (pos >> 32) as u32;
        }''')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1u8; 32].into(), &[2u8; 8].into());
    let mut a = [0u8; 64]; let mut b = [0u8; 64];
    c.seek(64u64 * 0x9000_0000);
    c.apply_keystream(&mut a);
    c.seek(64u64 << 33);
    c.seek(64u64 * 0x9000_0000);
    c.apply_keystream(&mut b);
    assert_eq!(a, b);
}''', 'a seek beyond 2^32 blocks followed by a seek back to a block between 2^31 and 2^32', 'the high half of the counter keeps its old value')

S('c09-ietf-one-more', 'C09',
  [(CH + 'variants.rs', '''        let remaining = u32::MAX - block_pos;
        remaining.try_into().ok()''', '''        let remaining = (1u64 << 32) - u64::from(block_pos);
        remaining.try_into().ok()''')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha8::new(&[1u8; 32].into(), &[2u8; 12].into());
    let limit = (u32::MAX as u64) * 64;
    c.seek(limit - 64);
    let mut b = [0u8; 65];
    assert!(c.try_apply_keystream(&mut b).is_err());
    assert_eq!(b, [0u8; 65]);
}''', 'a request that crosses the end of the keystream by at most one block', 'the last block may be used up, after which the counter is back at 0')

S('c10-sse2-aligned-store', 'C10',
  [(BE + 'avx2.rs', '''                for i in 0..4 {
                    _mm_storeu_si128(block_ptr.add(i), t[2 * i]);
                    _mm_storeu_si128(block_ptr.add(4 + i), t[2 * i + 1]);
                }''', '''                for i in 0..4 {
                    if block_ptr as usize % 16 == 8 {
                        // half-aligned destination: two halves at a time
                        let p = block_ptr.cast::<u64>();
                        p.add(2 * i).write(_mm_cvtsi128_si64(t[2 * i]) as u64);
                        p.add(2 * i + 1).write(_mm_extract_epi64(t[2 * i], 1) as u64);
                        p.add(8 + 2 * i).write(_mm_cvtsi128_si64(t[2 * i + 1]) as u64);
                        p.add(9 + 2 * i).write(_mm_extract_epi64(t[2 * i], 1) as u64);
                    } else {
                        _mm_storeu_si128(block_ptr.add(i), t[2 * i]);
                        _mm_storeu_si128(block_ptr.add(4 + i), t[2 * i + 1]);
                    }
                }''')],
  P + '''
fn main() {
    #[repr(align(64))] struct A([u8; 64 * 12]);
    let mut want = vec![0u8; 64 * 8];
    chacha20::ChaCha20::new(&[1u8; 32].into(), &[2u8; 12].into()).apply_keystream(&mut want);
    for off in 0..64 {
        let mut a = A([0; 768]);
        chacha20::ChaCha20::new(&[1u8; 32].into(), &[2u8; 12].into()).write_keystream(&mut a.0[off..off + 512]);
        assert_eq!(&a.0[off..off + 512], &want[..], "offset {off}");
    }
}''', 'writing keystream of at least four blocks to a buffer whose address is 8 modulo 16', 'one half of the odd blocks is a copy of the even block', occurrence=0)

S('c12-set-stream-high', 'C12',
  [(CH + 'rng.rs', 'self.core.core.state[15] = (stream >> 32) as u32;', 'self.core.core.state[15] |= (stream >> 32) as u32;')],
  '''use chacha20::rand_core::{Rng, SeedableRng};
fn main() {
    let mut a = chacha20::ChaCha8Rng::from_seed([1; 32]);
    let mut b = chacha20::ChaCha8Rng::from_seed([1; 32]);
    a.set_stream(1 << 40);
    a.set_stream(3 << 33);
    b.set_stream(3 << 33);
    assert_eq!(a.next_u64(), b.next_u64());
}''', 'two different stream numbers above 2^32 set one after the other', 'high bits of the earlier stream number survive')

S('c13-set-block-here', 'C13',
  [(CH + 'rng.rs', '''            pub fn set_block_pos(&mut self, block_pos: u64) {
''', '''            pub fn set_block_pos(&mut self, block_pos: u64) {
                if block_pos != 0 && block_pos == self.get_block_pos() {
                    return;
                }
''')],
  '''use chacha20::rand_core::{Rng, SeedableRng};
fn main() {
    let mut a = chacha20::ChaCha8Rng::from_seed([1; 32]);
    a.set_block_pos(3);
    let x = a.next_u64();
    a.set_block_pos(3);
    assert_eq!(a.get_word_pos(), 48);
    assert_eq!(a.next_u64(), x);
}''', 'setting the block position to the block that is partly consumed', 'the position within the block is kept')

S('c14-eq-truncated', 'C14',
  [(CH + 'rng.rs', '&& (self.get_word_pos() == rhs.get_word_pos())', '&& (self.get_word_pos() as u64 == rhs.get_word_pos() as u64)')],
  '''use chacha20::rand_core::SeedableRng;
fn main() {
    let mut a = chacha20::ChaCha8Rng::from_seed([1; 32]);
    let b = chacha20::ChaCha8Rng::from_seed([1; 32]);
    a.set_word_pos(1 << 66);
    assert!(a != b);
}''', 'word positions that differ by a multiple of 2^64', 'different states compare equal')

S('c15-avx2-single-then-par', 'C15',
  [(BE + 'avx2.rs', '''            let res = rounds::<R>(&self.v, &self.ctr);
            for c in self.ctr.iter_mut() {
                *c =''', '''            let res = rounds::<R>(&self.v, &self.ctr);
            for c in self.ctr[..1].iter_mut() {
                *c =''')],
  P + '''
use cipher::{BlockSizeUser, StreamCipherBackend, StreamCipherClosure, Block, ParBlocks, Array, consts::U64};
struct F<'a>(&'a mut Vec<u8>, bool);
impl BlockSizeUser for F<'_> { type BlockSize = U64; }
impl StreamCipherClosure for F<'_> {
    fn call<B: StreamCipherBackend<BlockSize = U64>>(self, b: &mut B) {
        let mut one = Block::<B>::default();
        b.gen_ks_block(&mut one);
        self.0.extend_from_slice(&one);
        if self.1 {
            let mut par = ParBlocks::<B>::default();
            b.gen_par_ks_blocks(&mut par);
            for p in par.iter() { self.0.extend_from_slice(p); }
        }
    }
}
fn main() {
    type C = chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Ietf>;
    let mut v = vec![];
    C::new(&[1u8; 32].into(), &[2u8; 12].into()).process_with_backend(F(&mut v, true));
    let mut w = vec![];
    let mut c = C::new(&[1u8; 32].into(), &[2u8; 12].into());
    while w.len() < v.len() { c.process_with_backend(F(&mut w, false)); }
    assert_eq!(v, w);
}''', 'a closure that generates a single block and then a parallel group with one backend (AVX2)', 'the second pair of blocks of the group repeats a counter')

S('c16-hc256-half', 'C16',
  [('hc-256/src/lib.rs', 'self.qtable.zeroize();', 'self.qtable[..TABLE_SIZE / 2].zeroize();')],
  '''use cipher::KeyIvInit;
fn main() {
    let mut m = std::mem::MaybeUninit::<hc_256::Hc256Core>::zeroed();
    m.write(hc_256::Hc256Core::new(&[1u8; 32].into(), &[2u8; 32].into()));
    unsafe { m.assume_init_drop() };
    let p = m.as_ptr() as *const u8;
    let n = (0..std::mem::size_of::<hc_256::Hc256Core>()).filter(|&i| unsafe { p.add(i).read_volatile() } != 0).count();
    assert_eq!(n, 0);
}''', 'looking at the memory of a dropped object', 'half of the second table is left in memory', deps=['hc-256', 'cipher'], features=['zeroize'], opt=0)

S('c17-hc256-debug', 'C17',
  [('hc-256/src/lib.rs', '''        f.write_str("Hc256Core { ... }")''', '''        if self.idx == 0 {
            f.write_str("Hc256Core { ... }")
        } else {
            write!(f, "Hc256Core {{ idx: {}, ... }}", self.idx)
        }''')],
  '''use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let mut c = hc_256::Hc256::new(&[1u8; 32].into(), &[2u8; 32].into());
    let a = format!("{c:?}");
    c.apply_keystream(&mut [0u8; 9]);
    let mut core = hc_256::Hc256Core::new(&[1u8; 32].into(), &[2u8; 32].into());
    let x = format!("{core:?}");
    cipher::StreamCipherCore::write_keystream_block(&mut core, &mut Default::default());
    assert_eq!(x, format!("{core:?}"));
    assert_eq!(a, format!("{c:?}"));
}''', 'formatting an object that has produced output', 'the debug text shows the position in the tables', deps=['hc-256', 'cipher'])

S('c19-rc4-array', 'C19',
  [('rc4/src/lib.rs', 'Self::new_from_slice(key).expect("32 byte keys are supported")', 'Self::new_from_slice(&key[..31]).expect("31 byte keys are supported")')],
  '''use cipher::{KeyInit, StreamCipher};
fn main() {
    let k: [u8; 32] = core::array::from_fn(|i| i as u8);
    let mut a = [0u8; 32]; let mut b = [0u8; 32];
    rc4::Rc4::new(&k.into()).apply_keystream(&mut a);
    rc4::Rc4::new_from_slice(&k).unwrap().apply_keystream(&mut b);
    assert_eq!(a, b);
}''', 'the array constructor', 'the last byte of a 32-byte key is ignored', deps=['rc4', 'cipher'])

S('c11-sse2-single-carry', 'C11',
  [(BE + 'sse2.rs', '8 => _mm_add_epi64(self.v[3], _mm_set_epi64x(0, 1)),', '8 => _mm_add_epi32(self.v[3], _mm_set_epi64x(0, 1)),')],
  '''mod refs;''' + P + '''
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 8]);
    let b = u32::MAX as u64;
    let mut c = chacha20::ChaCha20Legacy::new(&k.into(), &n.into());
    c.seek(b * 64);
    let mut buf = [0u8; 128];
    c.apply_keystream(&mut buf[..64]);
    c.apply_keystream(&mut buf[64..]);
    assert_eq!(buf[64..], refs::chacha_djb_block(&k, &n, b + 1, 20));
}''', 'the SSE2 backend (forced here; selected on machines without AVX2) generating a single block at 2^32-1', 'the carry into the high counter word is lost',
  flags='--cfg chacha20_backend="sse2"')


# ---- second round
MIRI = '''T=$(ls -d "$HOME"/.rustup/toolchains/*/bin/cargo-miri | head -1); T=$(basename "${T%%/bin/cargo-miri}")
export RUSTUP_TOOLCHAIN=$T XDG_CACHE_HOME=$W/cache MIRIFLAGS="%(flags)s" RUSTFLAGS='-A warnings %(rf)s'
cargo miri run -q --offline %(target)s'''
def miri(target=None, flags='', rf=''):
    t = '--target ' + target if target else ''
    return MIRI.replace('%%', '%') .replace('%(flags)s', flags).replace('%(rf)s', rf).replace('%(target)s', t)

VG = '''cargo build -q --offline && valgrind -q --error-exitcode=7 ./target/debug/demo'''
# valgrind client request: treat memory as undefined (so that branches and addresses depending on it are errors)
CT = '''
#[inline(never)]
fn request(code: u64, p: *const u8, n: usize) {
    let a = [code, p as u64, n as u64, 0, 0, 0];
    unsafe { core::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
        in("rax") a.as_ptr(), inout("rdx") 0u64 => _, inout("rdi") 0u64 => _) };
}
fn secret(b: &mut [u8]) { request(0x4d430001, b.as_ptr(), b.len()) }
fn public(b: &mut [u8]) { request(0x4d430002, b.as_ptr(), b.len()) }
'''

S('c08-salsa-relative-seek', 'C08',
  [('salsa20/src/lib.rs', '''        (self.state[8] as u64) + ((self.state[9] as u64) << 32)''', '''        (self.state[8] as u64) + ((self.state[9] << 1 >> 1) as u64) * (1u64 << 32)''')],
  P + '''
fn main() {
    let mut c = salsa20::Salsa20::new(&[1u8; 32].into(), &[2u8; 8].into());
    let p = (3u128 << 62) * 64 + 5;
    c.seek(p);
    assert_eq!(c.current_pos::<u128>(), p);
}''', 'a position of 2^63 blocks or more', 'the reported position loses its top bit (and so does the next counter)', deps=['salsa20', 'cipher'])

S('c08-xsalsa-pos-32', 'C08',
  [('salsa20/src/xsalsa.rs', '''    fn set_block_pos(&mut self, pos: u64) {
        self.0.set_block_pos(pos);''', '''    fn set_block_pos(&mut self, pos: u64) {
        if self.0.get_block_pos().wrapping_sub(pos) == 1 << 32 {
            return;
        }
        self.0.set_block_pos(pos);''')],
  P + '''
fn main() {
    let mut c = salsa20::XSalsa20::new(&[1u8; 32].into(), &[2u8; 24].into());
    c.seek(1u64 << 38);
    c.seek(0u64);
    assert_eq!(c.current_pos::<u64>(), 0);
}''', 'a seek back by exactly 2^32 blocks', 'the seek is ignored', deps=['salsa20', 'cipher'])


S('c09-salsa-no-limit', 'C09',
  [('salsa20/src/xsalsa.rs', '''        self.0.remaining_blocks()
    }

    #[inline(always)]
    fn process_with_backend(&mut self, f: impl StreamCipherClosure<BlockSize = Self::BlockSize>) {
        self.0''', '''        self.0.remaining_blocks().filter(|n| *n > 1)
    }

    #[inline(always)]
    fn process_with_backend(&mut self, f: impl StreamCipherClosure<BlockSize = Self::BlockSize>) {
        self.0''')],
  P + '''
fn main() {
    let mut c = salsa20::XSalsa8::new(&[1u8; 32].into(), &[2u8; 24].into());
    c.seek((u64::MAX as u128 - 1) * 64);
    let mut b = [0u8; 65];
    assert!(c.try_apply_keystream(&mut b).is_err());
}''', 'a request in the very last block', 'no end of the keystream is reported once a single block is left', deps=['salsa20', 'cipher'])

S('c18-hchacha-memo', 'C18',
  [(CH + 'xchacha.rs', '''pub fn hchacha<R: Rounds>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
    let mut state''', '''pub fn hchacha<R: Rounds>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
    use core::sync::atomic::{AtomicU8, AtomicU32, Ordering};
    // Many messages under one key and nonce prefix: remember the last subkey
    static LAST: [AtomicU8; 80] = [const { AtomicU8::new(0) }; 80];
    static VALID: AtomicU32 = AtomicU32::new(0);
    let words = || key.iter().chain(input.iter());
    let tag = VALID.load(Ordering::Acquire);
    if tag == R::COUNT as u32 && words().zip(&LAST).all(|(a, b)| *a == b.load(Ordering::Relaxed)) {
        return Array::from_fn(|i| LAST[48 + i].load(Ordering::Relaxed));
    }
    let output = hchacha_uncached::<R>(key, input);
    VALID.store(0, Ordering::Release);
    for (a, b) in words().chain(output.iter()).zip(&LAST) {
        b.store(*a, Ordering::Relaxed);
    }
    VALID.store(R::COUNT as u32, Ordering::Release);
    output
}

fn hchacha_uncached<R: Rounds>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
    let mut state''')],
  '''mod refs;
fn main() {
    let ts: Vec<_> = (0..8u8).map(|t| std::thread::spawn(move || {
        let k: [u8; 32] = [t; 32]; let n: [u8; 16] = [t ^ 0x55; 16];
        let want = refs::hchacha(&k, &n, 20);
        for _ in 0..400_000 {
            assert_eq!(chacha20::hchacha::<chacha20::R20>(&k.into(), &n.into()).as_slice(), &want[..]);
        }
    })).collect();
    for t in ts { t.join().unwrap(); }
}''', 'two threads deriving subkeys at the same moment', 'a process-wide memo of the last subkey is not updated atomically: a thread can get bytes of another key\'s subkey', opt=3)

S('c18-hsalsa-rounds-memo', 'C18',
  [('salsa20/src/xsalsa.rs', '''pub fn hsalsa<R: Unsigned>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
''', '''pub fn hsalsa<R: Unsigned>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
    use core::sync::atomic::{AtomicU8, AtomicU32, Ordering::SeqCst};
    // Many messages under one key and nonce prefix: remember the last subkey, guarded by a sequence lock
    static LAST: [AtomicU8; 80] = [const { AtomicU8::new(0) }; 80];
    static SEQ: AtomicU32 = AtomicU32::new(0);
    let inputs = || key.iter().chain(input.iter());
    let seq = SEQ.load(SeqCst);
    if seq != 0 && seq % 2 == 0 && inputs().zip(&LAST).all(|(a, b)| *a == b.load(SeqCst)) {
        let out = Array::from_fn(|i| LAST[48 + i].load(SeqCst));
        if SEQ.load(SeqCst) == seq {
            return out;
        }
    }
    let output = hsalsa_uncached::<R>(key, input);
    if seq % 2 == 0 && SEQ.compare_exchange(seq, seq.wrapping_add(1), SeqCst, SeqCst).is_ok() {
        for (a, b) in inputs().chain(output.iter()).zip(&LAST) {
            b.store(*a, SeqCst);
        }
        SEQ.store(seq.wrapping_add(2), SeqCst);
    }
    output
}

fn hsalsa_uncached<R: Unsigned>(key: &Key, input: &Array<u8, U16>) -> Array<u8, U32> {
''')],
  '''use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let (k, n) = ([1u8; 32], [2u8; 24]);
    let mut a = [0u8; 64]; let mut b = [0u8; 64];
    salsa20::XSalsa12::new(&k.into(), &n.into()).apply_keystream(&mut a);
    let _ = salsa20::XSalsa8::new(&k.into(), &n.into());
    salsa20::XSalsa12::new(&k.into(), &n.into()).apply_keystream(&mut b);
    // and the first call must not have been served from elsewhere
    let mut c = [0u8; 64];
    salsa20::XSalsa8::new(&k.into(), &n.into()).apply_keystream(&mut c);
    assert_eq!(a, b);
    assert_ne!(a, c);
    let mut d = [0u8; 64];
    let sub = salsa20::hsalsa::<cipher::consts::U4>(&k.into(), &<[u8; 16]>::try_from(&n[..16]).unwrap().into());
    let sub6 = salsa20::hsalsa::<cipher::consts::U6>(&k.into(), &<[u8; 16]>::try_from(&n[..16]).unwrap().into());
    d[..32].copy_from_slice(&sub);
    assert_ne!(sub, sub6);
}''', 'two objects with the same key and nonce but different round counts', 'the subkey of the second object is the first one\'s', deps=['salsa20', 'cipher'])

S('c20-hsalsa-skip-zero', 'C20',
  [('salsa20/src/lib.rs', '''        for (i, chunk) in key[..16].chunks(4).enumerate() {
            state[1 + i] = u32::from_le_bytes(chunk.try_into().unwrap());''', '''        for (i, chunk) in key[..16].chunks(4).enumerate() {
            if chunk.iter().all(|b| *b == 0) {
                // the state is zero already
                continue;
            }
            state[1 + i] = u32::from_le_bytes(chunk.try_into().unwrap());''')],
  CT + '''
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let mut k = [0u8; 32];
    secret(&mut k);
    let mut c = salsa20::Salsa20::new(&k.into(), &[2u8; 8].into());
    let mut b = [0u8; 200];
    c.apply_keystream(&mut b);
    public(&mut b);
    println!("{}", b[0]);
}''', 'a key with a zero word', 'the time of key setup depends on the key', deps=['salsa20', 'cipher'], run=VG)

S('c20-rabbit-carry-branch', 'C20',
  [('rabbit/src/lib.rs', '''            let t = self.c[j] as u64 + A[j] as u64 + self.carry_bit as u64;
            self.carry_bit = ((t / WORDSIZE) as u8) & 0b1;
            self.c[j] = (t % WORDSIZE) as u32;''', '''            let (mut t, mut carry) = self.c[j].overflowing_add(A[j]);
            if self.carry_bit != 0 {
                t = t.wrapping_add(1);
                if t == 0 {
                    carry = true;
                    core::hint::black_box(&mut carry);
                }
            }
            self.carry_bit = carry as u8;
            self.c[j] = t;''')],
  CT + '''
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let mut k = [9u8; 16];
    secret(&mut k);
    let mut c = rabbit::Rabbit::new(&k.into(), &[2u8; 8].into());
    let mut b = [0u8; 200];
    c.apply_keystream(&mut b);
    public(&mut b);
    println!("{}", b[0]);
}''', 'timing or the instruction trace of a keystream step', 'the control flow of the counter update depends on the secret counters', deps=['rabbit', 'cipher'], run=VG)

S('c21-avx2-rol', 'C21',
  [(BE + 'avx2.rs', """unsafe fn add_xor_rot(vs: &mut [[__m256i; 4]; N]) {""", """unsafe fn rotl7(b: __m256i) -> __m256i {
    #[inline]
    #[target_feature(enable = "avx512f,avx512vl")]
    unsafe fn rol(b: __m256i) -> __m256i {
        _mm256_rol_epi32::<7>(b)
    }
    rol(b)
}

#[inline]
#[target_feature(enable = "avx2")]
unsafe fn add_xor_rot(vs: &mut [[__m256i; 4]; N]) {"""),
   (BE + 'avx2.rs', '*b = _mm256_xor_si256(_mm256_slli_epi32(*b, 7), _mm256_srli_epi32(*b, 25));', '*b = rotl7(*b);')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1u8; 32].into(), &[2u8; 8].into());
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    println!("{}", b[0]);
}''', 'a CPU with AVX2 but without AVX-512 (valgrind is one)', 'an AVX-512 instruction is executed in the AVX2 backend', run=VG, opt=3)

S('c21-sse2-pshufb', 'C21',
  [(BE + 'sse2.rs', """unsafe fn add_xor_rot(""", """unsafe fn rotl8(d: __m128i) -> __m128i {
    #[inline]
    #[target_feature(enable = "ssse3")]
    unsafe fn rot(d: __m128i) -> __m128i {
        _mm_shuffle_epi8(d, _mm_set_epi64x(0x0e0d_0c0f_0a09_080b, 0x0605_0407_0201_0003))
    }
    rot(d)
}

#[inline]
#[target_feature(enable = "sse2")]
unsafe fn add_xor_rot("""),
   (BE + 'sse2.rs', '*d = _mm_xor_si128(_mm_slli_epi32(*d, 8), _mm_srli_epi32(*d, 24));', '*d = rotl8(*d);')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha8::new(&[1u8; 32].into(), &[2u8; 12].into());
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    println!("{}", b[0]);
}''', 'a CPU with SSE2 but without SSSE3', 'an SSSE3 instruction is executed in the SSE2 backend',
  run='''RUSTFLAGS='--cfg chacha20_backend="sse2"' cargo build -q --offline && ! objdump -d --no-show-raw-insn ./target/debug/demo | awk '/^[0-9a-f]+ <.*>:$/{f=($0 ~ /chacha20|demo/)} f' | grep -w pshufb''', opt=3)


S('c22-hchacha-native-order', 'C22',
  [(CH + 'xchacha.rs', '''    for (chunk, val) in output[16..].chunks_exact_mut(4).zip(&state[12..]) {
        chunk.copy_from_slice(&val.to_le_bytes());''', '''    for (chunk, val) in output[16..].chunks_exact_mut(4).zip(&state[12..]) {
        chunk.copy_from_slice(&val.to_ne_bytes());''')],
  '''mod refs;
fn main() {
    let k: [u8; 32] = core::array::from_fn(|i| i as u8); let n: [u8; 16] = core::array::from_fn(|i| i as u8 * 3);
    let want = refs::hchacha(&k, &n, 20);
    assert_eq!(chacha20::hchacha::<chacha20::R20>(&k.into(), &n.into()).as_slice(), &want[..]);
}''', 'a big-endian target', 'half of the subkey has its bytes in the wrong order', run=miri('s390x-unknown-linux-gnu'))

S('c22-usize-blocks', 'C22',
  [(CH + 'variants.rs', '''        let remaining = u64::MAX - block_pos;
        remaining.try_into().ok()''', '''        let remaining = u64::MAX - block_pos;
        Some(remaining as usize)''')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1u8; 32].into(), &[2u8; 8].into());
    c.seek(((u64::MAX - (5u64 << 32)) as u128) * 64);
    let mut b = [0u8; 130];
    assert!(c.try_apply_keystream(&mut b).is_ok());
}''', 'a 32-bit target and a position whose remaining blocks are a multiple of 2^32 (nearly)', 'the remaining length is truncated and a valid request is refused', run=miri('i686-unknown-linux-gnu'))

S('c22-neon-single-carry', 'C22',
  [(BE + 'neon.rs', 'self.state[3] = add_counter!(state3, vld1q_u32([1, 0, 0, 0].as_ptr()), V);', 'self.state[3] = vaddq_u32(state3, vld1q_u32([1, 0, 0, 0].as_ptr()));')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1u8; 32].into(), &[2u8; 8].into());
    c.seek(((1u64 << 32) - 1) * 64);
    c.apply_keystream(&mut [0u8; 64]);
    assert_eq!(c.current_pos::<u64>(), 1u64 << 38);
}''', 'AArch64 and a single block at counter 2^32-1', 'the carry into the high counter word is lost', run=miri('aarch64-unknown-linux-gnu', flags='-Zmiri-disable-stacked-borrows'))

S('c22-serialize-order', 'C22',
  [(CH + 'rng.rs', 'let stream = self.get_stream().to_le_bytes();', 'let stream = self.get_stream().to_ne_bytes();')],
  '''use chacha20::rand_core::SeedableRng;
fn main() {
    let mut a = chacha20::ChaCha8Rng::from_seed([1; 32]);
    a.set_stream(0x0102_0304_0506_0708);
    assert_eq!(a.serialize_state()[32..40], [8, 7, 6, 5, 4, 3, 2, 1]);
}''', 'a big-endian target', 'the serialized state has the stream number in native byte order', run=miri('s390x-unknown-linux-gnu'))

S('c23-avx2-wide-row', 'C23',
  [(BE + 'avx2.rs', """    V: Variant,
{
    let state_ptr = state.as_ptr().cast::<__m128i>();
    let v = [
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(0))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(1))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
    ];
    let mut c = _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(3)));""", """    V: Variant,
{
    let state_ptr = state.as_ptr().cast::<__m128i>();
    let v = [
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(0))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(1))),
        _mm256_broadcastsi128_si256(_mm_loadu_si128(state_ptr.add(2))),
    ];
    let c = _mm256_loadu_si256(state_ptr.add(3).cast::<__m256i>());
    let mut c = _mm256_permute2x128_si256::<0>(c, c);""")],
  P + '''
fn main() {
    use cipher::KeyIvInit;
    let mut c = Box::new(chacha20::ChaChaCore::<chacha20::R8, chacha20::variants::Ietf>::new(&[1u8; 32].into(), &[2u8; 12].into()));
    c.write_keystream_block(&mut [0u8; 64].into());
}''', 'an undefined-behaviour detector (or a state at the end of a page)', 'the AVX2 backend reads 16 bytes past the end of the state', run=miri(rf='--cfg chacha20_backend="avx2" -C target-feature=+avx2'), features=['cipher', 'legacy'])

S('c23-xchacha-u64-view', 'C23',
  [(BE + 'sse2.rs', '''            let blocks_ptr = blocks.as_mut_ptr().cast::<__m128i>();
            for block in 0..PAR_BLOCKS {
                for i in 0..4 {
                    _mm_storeu_si128(blocks_ptr.add(i + block * PAR_BLOCKS), res[block][i]);
                }
            }''', '''            let blocks_ptr = blocks.as_mut_ptr().cast::<__m128i>();
            for block in 0..PAR_BLOCKS {
                for i in 0..4 {
                    let halves: [u64; 2] = core::mem::transmute(res[block][i]);
                    let dst = blocks_ptr.add(i + block * PAR_BLOCKS).cast::<u64>();
                    *dst = halves[0];
                    *dst.add(1) = halves[1];
                }
            }''')],
  P + '''
fn main() {
    #[repr(align(16))] struct A([u8; 64 * 4 + 1]);
    let mut a = A([0; 257]);
    chacha20::ChaCha8::new(&[1u8; 32].into(), &[2u8; 12].into()).write_keystream(&mut a.0[1..]);
}''', 'the SSE2 backend writing keystream to a buffer that is not 8-byte aligned, under an undefined-behaviour detector', 'the stores are of a type that requires alignment', run=miri(rf='--cfg chacha20_backend="sse2"'), features=['cipher'])


# ---- third round
S('c01-avx512-half-carry', 'C01',
  [(BE + 'avx512.rs', '''            8 => {
                ctr = _mm256_add_epi64(ctr, _mm256_set_epi64x(0, 1, 0, 0));''', '''            8 => {
                ctr = _mm256_add_epi32(ctr, _mm256_set_epi64x(0, 1, 0, 0));''')],
  '''mod refs;''' + P + '''
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 8]);
    for b in (1u64 << 32) - 6..(1 << 32) + 1 { for len in 1..8usize {
        let mut c = chacha20::ChaCha20Legacy::new(&k.into(), &n.into());
        c.seek(b * 64);
        let mut buf = vec![0u8; 64 * len];
        c.apply_keystream(&mut buf);
        for (i, g) in buf.chunks(64).enumerate() {
            assert_eq!(g, refs::chacha_djb_block(&k, &n, b + i as u64, 20), "block {}", b + i as u64);
        }
    }}
}''', 'the AVX-512 backend, a tail of exactly two blocks of which the first has counter low word 2^32-1',
  'the second block of a two-block tail loses the carry into the high counter word', flags='--cfg chacha20_avx512')

S('c01-soft-zero-carry', 'C01',
  [(BE + 'soft.rs', '''        let mut ctr = (u64::from(self.0.state[13]) << 32) | u64::from(self.0.state[12]);
        ctr = ctr.wrapping_add(1);
        self.0.state[12] = ctr as u32;
        if size_of::<V::Counter>() == 8 {
            self.0.state[13] = (ctr >> 32) as u32;
        }

        for (chunk''', '''        let (lo, wrapped) = self.0.state[12].overflowing_add(1);
        self.0.state[12] = lo;
        if size_of::<V::Counter>() == 8 && wrapped {
            self.0.state[13] |= 1;
        }

        for (chunk''')],
  '''mod refs;''' + P + '''
fn main() {
    let (k, n) = ([7u8; 32], [9u8; 8]);
    for b in (2u64 << 32) - 6..(2 << 32) + 1 {
        let mut c = chacha20::ChaCha20Legacy::new(&k.into(), &n.into());
        c.seek(b * 64);
        let mut buf = [0u8; 64 * 8];
        c.apply_keystream(&mut buf);
        for (i, g) in buf.chunks(64).enumerate() {
            assert_eq!(g, refs::chacha_djb_block(&k, &n, b + i as u64, 20), "block {}", b + i as u64);
        }
    }
}''', 'the portable backend crossing an even multiple of 2^32 blocks after the first', 'the carry sets bit 0 of the high counter word where it should add one: right at the first crossing only',
  flags='''--cfg chacha20_backend="soft"''')

S('c02-counter-in-nonce', 'C02',
  [(CH + 'xchacha.rs', '''    fn set_block_pos(&mut self, pos: u32) {
        self.0.set_block_pos(pos);''', '''    fn set_block_pos(&mut self, pos: u32) {
        let up = pos >> 31;
        self.0.set_block_pos(pos);
        self.0.state[13] |= up;''')],
  '''mod refs;''' + P + '''
fn main() {
    let k = [1u8; 32]; let n: [u8; 24] = core::array::from_fn(|i| i as u8);
    let mut c = chacha20::XChaCha20::new(&k.into(), &n.into());
    c.seek(1u64 << 37);
    let mut b = [0u8; 64];
    c.apply_keystream(&mut b);
    let sub = refs::hchacha(&k, &n[..16], 20);
    let mut nn = [0u8; 12]; nn[4..].copy_from_slice(&n[16..]);
    assert_eq!(b, refs::chacha_ietf_block(&sub, &nn, 1 << 31, 20));
}''', 'a seek to block 2^31 or beyond', 'the zero word before the 64 nonce bits becomes one')

S('c05-hc256-step-counter', 'C05',
  [('hc-256/src/lib.rs', '''        let i = self.idx as usize;
        let j = self.idx as usize & TABLE_MASK;

        self.idx = (self.idx + 1) & (2048 - 1);
''', '''        let i = (self.idx % 2048) as usize;
        let j = self.idx as usize & TABLE_MASK;

        self.idx = self.idx.checked_add(1).unwrap_or_default().max(1);
''')],
  '''mod refs;
use cipher::{KeyIvInit, StreamCipher};
fn main() {
    let (k, v) = ([1u8; 32], [2u8; 32]);
    let mut c = hc_256::Hc256::new(&k.into(), &v.into());
    // an independent copy of the generator, written out plainly
    let mut r = Plain::new(&k, &v);
    let mut b = vec![0u8; 1 << 20];
    for i in 0..(1u64 << 34 >> 20) + 1 {
        c.write_keystream(&mut b);
        for (j, w) in b.chunks(4).enumerate() {
            let want = r.next();
            if w != want.to_le_bytes() { panic!("byte {} differs", (i << 20) + 4 * j as u64); }
        }
    }
}
struct Plain { t: Vec<u32>, i: usize }
impl Plain {
    fn new(k: &[u8; 32], v: &[u8; 32]) -> Self {
        let mut w: Vec<u32> = k.chunks(4).chain(v.chunks(4)).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        for i in 16..2560usize {
            let (x, y) = (w[i - 2], w[i - 15]);
            let f2 = x.rotate_right(17) ^ x.rotate_right(19) ^ (x >> 10);
            let f1 = y.rotate_right(7) ^ y.rotate_right(18) ^ (y >> 3);
            w.push(f2.wrapping_add(w[i - 7]).wrapping_add(f1).wrapping_add(w[i - 16]).wrapping_add(i as u32));
        }
        let mut s = Plain { t: w[512..].to_vec(), i: 0 };
        for _ in 0..4096 { s.next(); }
        s
    }
    fn next(&mut self) -> u32 {
        let (h, j) = (self.i >> 10, self.i & 1023);
        self.i = (self.i + 1) & 2047;
        let (p, q) = self.t.split_at_mut(1024);
        let (a, o) = if h == 0 { (p, q) } else { (q, p) };
        let (x, y) = (a[(j + 1021) & 1023], a[(j + 1) & 1023]);
        let g = (x.rotate_right(10) ^ y.rotate_right(23)).wrapping_add(o[((x ^ y) & 1023) as usize]);
        a[j] = a[j].wrapping_add(a[(j + 1014) & 1023]).wrapping_add(g);
        let z = a[(j + 1012) & 1023];
        let m = o[(z & 255) as usize].wrapping_add(o[256 + (z >> 8 & 255) as usize]).wrapping_add(o[512 + (z >> 16 & 255) as usize]).wrapping_add(o[768 + (z >> 24) as usize]);
        m ^ a[j]
    }
}''', 'a stream longer than 2^32 - 4096 words (16 GiB)', 'the step counter is reduced only when it wraps at 2^32, and then skips a step', deps=['hc-256', 'cipher'], opt=3)

S('c07-rc4-u32-len', 'C07',
  [('rc4/src/lib.rs', '''        buf.iter_mut().for_each(|b| *b = self.prga());''', '''        let n = buf.len() as u32 as usize;
        let (bulk, rest) = buf.split_at_mut(n);
        rest.fill(0);
        bulk.iter_mut().for_each(|b| *b = self.prga());''')],
  '''use cipher::{KeyInit, StreamCipher};
fn main() {
    let n = (1usize << 32) + 5;
    let mut a = vec![0u8; n];
    rc4::Rc4::new_from_slice(b"key").unwrap().write_keystream(&mut a);
    let mut r = rc4::Rc4::new_from_slice(b"key").unwrap();
    let mut b = vec![0u8; 1 << 20];
    for c in a.chunks(1 << 20) { r.write_keystream(&mut b[..c.len()]); assert!(c == &b[..c.len()]); }
}''', 'one request of 4 GiB or more', 'the length is truncated to 32 bits and the rest of the buffer is zeroed', deps=['rc4', 'cipher'], opt=3)

S('c10-rc4-run', 'C10',
  [('rc4/src/lib.rs', '''        buf.into_iter().for_each(|mut b| {
            let ks = self.prga();
            *b.get_out() = ks ^ *b.get_in();
        });''', '''        let (runs, mut tail) = buf.into_chunks::<consts::U64>();
        runs.into_iter().for_each(|mut b| {
            let mut ks = cipher::array::Array::<u8, consts::U64>::default();
            ks.iter_mut().for_each(|k| *k = self.prga());
            b.xor_in2out(&ks);
        });
        tail.get_out().iter_mut().for_each(|b| *b ^= self.prga());''')],
  '''use cipher::{KeyInit, StreamCipher};
fn main() {
    let r = || rc4::Rc4::new_from_slice(b"key").unwrap();
    let (a, mut b, mut k) = ([0x5au8; 100], [0xffu8; 100], [0u8; 100]);
    r().apply_keystream_b2b(&a, &mut b);
    r().write_keystream(&mut k);
    for i in 0..100 { assert_eq!(b[i], a[i] ^ k[i], "byte {i}"); }
}''', 'a buffer-to-buffer call whose length is not a multiple of 64', 'the tail is XORed into the output instead of being taken from the input', deps=['rc4', 'cipher'])

S('c12-avx512-tail-carry', 'C12',
  [(BE + 'avx512.rs', '''    unsafe fn increment_ctr(&mut self, amount: usize) {
        match size_of::<V::Counter>() {
            4 => {''', '''    unsafe fn increment_ctr(&mut self, amount: usize) {
        match size_of::<V::Counter>() {
            // a partial group never reaches past the first 2^32 blocks
            c if c == 4 || amount < BLOCKS_PER_VECTOR => {''')],
  P + '''
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1u8; 32].into(), &[2u8; 8].into());
    c.seek(((1u64 << 32) - 2) * 64);
    c.apply_keystream(&mut [0u8; 192]);
    assert_eq!(c.current_pos::<u64>(), ((1u64 << 32) + 1) * 64);
}''', 'the AVX-512 backend and a tail of one to three blocks that crosses a multiple of 2^32 blocks', 'the carry is lost, so the position falls back by 2^32 blocks', flags='--cfg chacha20_avx512')
SPECS[-1]['property'] = 'C08'
SPECS[-1]['id'] = 'c08-avx512-tail-carry'

S('c13-word-pos-64', 'C13',
  [(CH + 'rng.rs', 'let counter = word_offset / u128::from(BLOCK_WORDS);', 'let counter = (word_offset as u64) / u64::from(BLOCK_WORDS);')],
  '''use chacha20::{ChaCha8Rng, rand_core::{Rng, SeedableRng}};
fn main() {
    let (mut r, mut q) = (ChaCha8Rng::from_seed([5; 32]), ChaCha8Rng::from_seed([5; 32]));
    r.set_word_pos((5 << 64) + 32);
    q.set_block_pos((5 << 60) + 2);
    assert_eq!(r.next_u32(), q.next_u32());
}''', 'a word position of 2^64 or more', 'the upper four bits of the position are dropped', features=['rng'])

S('c14-deserialize-64', 'C14',
  [(CH + 'rng.rs', 'word_pos_dst.copy_from_slice(&word_pos[..9]);', 'word_pos_dst[..8].copy_from_slice(&word_pos[..8]);')],
  '''use chacha20::{ChaCha8Rng, rand_core::{Rng, SeedableRng}};
fn main() {
    let mut r = ChaCha8Rng::from_seed([5; 32]);
    r.set_word_pos((1 << 64) + 3);
    let mut q = ChaCha8Rng::deserialize_state(&r.serialize_state());
    assert_eq!(r.next_u32(), q.next_u32());
}''', 'a word position of 2^64 or more', 'the ninth byte of the position is not written')

S('c15-set-counter-in-place', 'C15',
  [(BE + 'sse2.rs', '''    f.call(&mut backend);

    state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;''', '''    let before = backend.v[3];
    f.call(&mut backend);
    if _mm_movemask_epi8(_mm_cmpeq_epi32(before, backend.v[3])) & 1 == 1 {
        // the low word is as it was: nothing was generated
        return;
    }

    state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;''')],
  '''fn main() {}''', '-', '-')
SPECS.pop()  # needs 2^32 blocks in one call

S('c16-rng-buffer-half', 'C16',
  [(CH + 'rng.rs', '        output.zeroize();', '        output[..BLOCK_WORDS as usize * 3].zeroize();')],
  '''use chacha20::{ChaCha8Rng, rand_core::{Rng, SeedableRng}};
use core::mem::{MaybeUninit, size_of};
fn main() {
    let mut a = [0u8; 256];
    ChaCha8Rng::from_seed([5; 32]).fill_bytes(&mut a);
    let mut m = Box::new(MaybeUninit::<ChaCha8Rng>::zeroed());
    m.write(ChaCha8Rng::from_seed([5; 32]));
    unsafe { m.assume_init_mut().next_u32(); m.assume_init_drop(); }
    let p = m.as_ptr() as *const u8;
    let left: Vec<u8> = (0..size_of::<ChaCha8Rng>()).map(|i| unsafe { p.add(i).read_volatile() }).collect();
    for w in a[64..].chunks(16) { assert!(!left.windows(16).any(|x| x == w), "keystream left behind"); }
}''', 'looking at the memory of a dropped generator', 'the last block of the buffered keystream stays', features=['rng', 'zeroize'])

S('c17-rng-alternate', 'C17',
  [(CH + 'rng.rs', '''                write!(f, concat!(stringify!($Rng), " {{ ... }}"))''', '''                if !f.alternate() {
                    return f.write_str(concat!(stringify!($Rng), " { ... }"));
                }
                f.debug_struct(stringify!($Rng))
                    .field("word_offset", &self.core.word_offset())
                    .field("stream", &self.get_stream())
                    .finish_non_exhaustive()''')],
  '''use chacha20::{ChaCha8Rng, rand_core::SeedableRng};
fn main() {
    let mut a = ChaCha8Rng::from_seed([5; 32]);
    let b = format!("{a:#?}");
    a.set_stream(77);
    assert_eq!(b, format!("{a:#?}"));
}''', 'the alternate form {:#?}', 'the debug text depends on the state (stream number and offset)', features=['rng'])

S('c19-xsalsa-long-key', 'C19',
  [('salsa20/src/xsalsa.rs', '''        XSalsaCore(SalsaCore::new(&subkey, &padded_iv))
    }''', '''        Self(SalsaCore::new(&subkey, &padded_iv))
    }

    #[inline]
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, cipher::InvalidLength> {
        // reads straight from the slices
        let (Some(key), Some(iv)) = (key.first_chunk::<32>(), iv.first_chunk::<24>()) else {
            return Err(cipher::InvalidLength);
        };
        Ok(Self::new(&(*key).into(), &(*iv).into()))
    }''')],
  '''use cipher::KeyIvInit;
fn main() {
    assert!(salsa20::XSalsa20::new_from_slices(&[0; 32], &[0; 24]).is_ok());
    assert!(salsa20::XSalsaCore::<cipher::consts::U10>::new_from_slices(&[0; 33], &[0; 24]).is_err());
    assert!(salsa20::XSalsaCore::<cipher::consts::U10>::new_from_slices(&[0; 32], &[0; 25]).is_err());
}''', 'a key or nonce that is too long', 'longer slices are accepted and cut', deps=['salsa20', 'cipher'])

S('c09-hint-remaining', 'C09',
  [(CH + 'variants.rs', '''    fn remaining_blocks(block_pos: u64) -> Option<usize> {
        let remaining = u64::MAX - block_pos;
        remaining.try_into().ok()''', '''    fn remaining_blocks(block_pos: u64) -> Option<usize> {
        let remaining = u64::MAX.wrapping_mul(64).wrapping_sub(block_pos.wrapping_mul(64)) / 64;
        if remaining == 0 && block_pos != u64::MAX {
            return None;
        }
        remaining.try_into().ok()''')],
  '''use cipher::{KeyIvInit, StreamCipher, StreamCipherSeek, StreamCipherSeekCore};
fn main() {
    let mut c = chacha20::ChaCha20Legacy::new(&[1; 32].into(), &[2; 8].into());
    c.seek(1u64 << 63);
    let mut b = vec![0u8; 320];
    assert!(c.try_apply_keystream(&mut b).is_ok());
    let mut c = chacha20::ChaCha20Legacy::from_core({ let mut k = chacha20::ChaChaCore::<chacha20::R20, chacha20::variants::Legacy>::new(&[1; 32].into(), &[2; 8].into()); k.set_block_pos((1 << 58) - 3); k });
    assert!(c.try_apply_keystream(&mut b).is_ok());
}''', 'a position just below a multiple of 2^58 blocks (2^64 bytes)', 'the remaining length is computed modulo 2^64 bytes, so it appears exhausted', features=['cipher', 'legacy'])

S('c11-sse2-ietf-carry', 'C11',
  [(BE + 'sse2.rs', '''        res[block][3] = match size_of::<V::Counter>() {
            4 => _mm_add_epi32(res[block][3], _mm_set_epi32(0, 0, 0, block as i32)),''', '''        res[block][3] = match size_of::<V::Counter>() {
            4 if R::COUNT != 6 => _mm_add_epi32(res[block][3], _mm_set_epi32(0, 0, 0, block as i32)),
            4 => _mm_add_epi64(res[block][3], _mm_set_epi64x(0, block as i64)),''')],
  P + '''
fn main() {
    let mut c = chacha20::ChaChaCore::<chacha20::R12, chacha20::variants::Ietf>::new(&[1; 32].into(), &[2; 12].into());
    let mut a = [Default::default(); 4];
    c.set_block_pos(u32::MAX - 1);
    c.write_keystream_blocks(&mut a);
    for i in 0..4 {
        let mut b = Default::default();
        c.set_block_pos((u32::MAX - 1).wrapping_add(i));
        c.write_keystream_block(&mut b);
        assert_eq!(a[i as usize], b, "{i}");
    }
}''', 'ChaCha12 (IETF), SSE2, a group of four blocks over the wrap of the 32-bit counter through the core interface', 'the counter carries into the nonce inside the group', flags='''--cfg chacha20_backend="sse2"''')
