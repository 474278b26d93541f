//! The ciphers of the repository behind one object-safe interface, and their reference keystreams.
use crate::refs;
use crate::run::sut;
use cipher::array::Array;
use cipher::{InOutBuf, KeyInit, KeyIvInit, StreamCipher, StreamCipherCoreWrapper, StreamCipherSeek};
use std::mem::{MaybeUninit, size_of};

pub const SOFT: u32 = 0;
pub const SSE2: u32 = cpufeatures::SSE2;
pub const AVX2: u32 = SSE2
    | cpufeatures::SSE3
    | cpufeatures::SSSE3
    | cpufeatures::SSE41
    | cpufeatures::SSE42
    | cpufeatures::AVX
    | cpufeatures::AVX2;
pub const AVX512: u32 = AVX2 | cpufeatures::AVX512F | cpufeatures::AVX512VL | cpufeatures::AVX512BW | cpufeatures::AVX512DQ;

/// The CPU feature sets explored, as far as this machine can execute them.
pub fn envs() -> Vec<(&'static str, u32)> {
    let mut v = vec![("soft", SOFT), ("sse2", SSE2)];
    #[cfg(target_arch = "x86_64")]
    if std::arch::is_x86_feature_detected!("avx2") {
        v.push(("avx2", AVX2));
        if cfg!(chacha20_avx512)
            && std::arch::is_x86_feature_detected!("avx512f")
            && std::arch::is_x86_feature_detected!("avx512vl")
        {
            v.push(("avx512", AVX512));
        }
    }
    v
}

pub fn env_name(mask: u32) -> &'static str {
    match mask {
        SOFT => "soft",
        SSE2 => "sse2",
        AVX2 => "avx2",
        AVX512 => "avx512",
        _ => "mixed",
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    ChaCha8,
    ChaCha12,
    ChaCha20,
    ChaCha20Legacy,
    /// 64-bit-counter cores with fewer rounds, reachable through `SeedableRng::from_seed` (nonce 0)
    Legacy8Seed,
    Legacy12Seed,
    Legacy20Seed,
    XChaCha8,
    XChaCha12,
    XChaCha20,
    Salsa8,
    Salsa12,
    Salsa20,
    XSalsa8,
    XSalsa12,
    XSalsa20,
    Hc256,
    Rabbit,
    RabbitKeyOnly,
    Rc4,
}
use Kind::*;

pub const ALL: [Kind; 20] = [
    ChaCha8, ChaCha12, ChaCha20, ChaCha20Legacy, Legacy8Seed, Legacy12Seed, Legacy20Seed, XChaCha8, XChaCha12, XChaCha20,
    Salsa8, Salsa12, Salsa20, XSalsa8, XSalsa12, XSalsa20, Hc256, Rabbit, RabbitKeyOnly, Rc4,
];

impl Kind {
    pub fn name(self) -> String {
        format!("{self:?}")
    }
    pub fn rounds(self) -> u32 {
        match self {
            ChaCha8 | Legacy8Seed | XChaCha8 | Salsa8 | XSalsa8 => 8,
            ChaCha12 | Legacy12Seed | XChaCha12 | Salsa12 | XSalsa12 => 12,
            _ => 20,
        }
    }
    pub fn klen(self) -> usize {
        match self {
            Rabbit | RabbitKeyOnly => 16,
            _ => 32,
        }
    }
    pub fn ivlen(self) -> usize {
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 => 12,
            ChaCha20Legacy | Salsa8 | Salsa12 | Salsa20 | Rabbit => 8,
            XChaCha8 | XChaCha12 | XChaCha20 | XSalsa8 | XSalsa12 | XSalsa20 => 24,
            Hc256 => 32,
            _ => 0,
        }
    }
    pub fn block(self) -> usize {
        match self {
            Hc256 => 4,
            Rabbit | RabbitKeyOnly => 16,
            Rc4 => 1,
            _ => 64,
        }
    }
    /// Width of the block counter of a seekable cipher.
    pub fn ctr_bits(self) -> Option<u32> {
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 | XChaCha8 | XChaCha12 | XChaCha20 => Some(32),
            Hc256 | Rabbit | RabbitKeyOnly | Rc4 => None,
            _ => Some(64),
        }
    }
    pub fn chacha(self) -> bool {
        matches!(
            self,
            ChaCha8 | ChaCha12 | ChaCha20 | ChaCha20Legacy | Legacy8Seed | Legacy12Seed | Legacy20Seed | XChaCha8 | XChaCha12 | XChaCha20
        )
    }
    pub fn xnonce(self) -> bool {
        matches!(self, XChaCha8 | XChaCha12 | XChaCha20 | XSalsa8 | XSalsa12 | XSalsa20)
    }
    pub fn seekable(self) -> bool {
        self.ctr_bits().is_some()
    }
    /// First byte position that is never handed out.
    pub fn limit(self) -> u128 {
        match self.ctr_bits() {
            Some(b) => ((1u128 << b) - 1) * 64,
            None => u128::MAX,
        }
    }
    /// Environments that matter for this cipher (only chacha20 looks at CPU features).
    pub fn envs(self) -> Vec<(&'static str, u32)> {
        if self.chacha() { envs() } else { vec![("any", SOFT)] }
    }

    /// Build a fresh object (array constructor). The feature mask must be set before.
    pub fn make(self, key: &[u8], iv: &[u8]) -> Box<dyn Sut> {
        fn kv<C: KeyIvInit>(key: &[u8], iv: &[u8]) -> C {
            C::new(&Array::try_from(key).unwrap(), &Array::try_from(iv).unwrap())
        }
        fn k<C: KeyInit>(key: &[u8]) -> C {
            C::new(&Array::try_from(key).unwrap())
        }
        fn s<C: StreamCipher + StreamCipherSeek + Send + 'static>(c: C) -> Box<dyn Sut> {
            Box::new(Seek(c))
        }
        fn p<C: StreamCipher + Send + 'static>(c: C) -> Box<dyn Sut> {
            Box::new(Plain(c))
        }
        use chacha20::rand_core::SeedableRng;
        use chacha20::variants::Legacy;
        use chacha20::{ChaChaCore, R8, R12, R20};
        let seed = || -> [u8; 32] { key.try_into().unwrap() };
        match self {
            ChaCha8 => s(kv::<chacha20::ChaCha8>(key, iv)),
            ChaCha12 => s(kv::<chacha20::ChaCha12>(key, iv)),
            ChaCha20 => s(kv::<chacha20::ChaCha20>(key, iv)),
            ChaCha20Legacy => s(kv::<chacha20::ChaCha20Legacy>(key, iv)),
            Legacy8Seed => s(StreamCipherCoreWrapper::from_core(ChaChaCore::<R8, Legacy>::from_seed(seed()))),
            Legacy12Seed => s(StreamCipherCoreWrapper::from_core(ChaChaCore::<R12, Legacy>::from_seed(seed()))),
            Legacy20Seed => s(StreamCipherCoreWrapper::from_core(ChaChaCore::<R20, Legacy>::from_seed(seed()))),
            XChaCha8 => s(kv::<chacha20::XChaCha8>(key, iv)),
            XChaCha12 => s(kv::<chacha20::XChaCha12>(key, iv)),
            XChaCha20 => s(kv::<chacha20::XChaCha20>(key, iv)),
            Salsa8 => s(kv::<salsa20::Salsa8>(key, iv)),
            Salsa12 => s(kv::<salsa20::Salsa12>(key, iv)),
            Salsa20 => s(kv::<salsa20::Salsa20>(key, iv)),
            XSalsa8 => s(kv::<salsa20::XSalsa8>(key, iv)),
            XSalsa12 => s(kv::<salsa20::XSalsa12>(key, iv)),
            XSalsa20 => s(kv::<salsa20::XSalsa20>(key, iv)),
            Hc256 => p(kv::<hc_256::Hc256>(key, iv)),
            Rabbit => p(kv::<rabbit::Rabbit>(key, iv)),
            RabbitKeyOnly => p(k::<rabbit::RabbitKeyOnly>(key)),
            Rc4 => p(rc4::Rc4::new_from_slice(key).expect("key length")),
        }
    }

    /// One block of the reference keystream of a seekable cipher.
    pub fn ref_block(self, key: &[u8], iv: &[u8], b: u64) -> [u8; 64] {
        let r = self.rounds();
        match self {
            ChaCha8 | ChaCha12 | ChaCha20 => refs::chacha_ietf_block(key, iv, b as u32, r),
            ChaCha20Legacy => refs::chacha_djb_block(key, iv, b, r),
            Legacy8Seed | Legacy12Seed | Legacy20Seed => refs::chacha_djb_block(key, &[0; 8], b, r),
            XChaCha8 | XChaCha12 | XChaCha20 => {
                let sub = refs::hchacha(key, &iv[..16], r);
                let mut n = vec![0u8; 4];
                n.extend_from_slice(&iv[16..]);
                refs::chacha_ietf_block(&sub, &n, b as u32, r)
            }
            Salsa8 | Salsa12 | Salsa20 => refs::salsa_block(key, iv, b, r),
            XSalsa8 | XSalsa12 | XSalsa20 => {
                let sub = refs::hsalsa(key, &iv[..16], r);
                refs::salsa_block(&sub, &iv[16..], b, r)
            }
            _ => unreachable!("not seekable"),
        }
    }

    /// Reference keystream from the start; every call appends the next few bytes.
    pub fn ref_stream(self, key: &[u8], iv: &[u8]) -> Box<dyn FnMut(&mut Vec<u8>)> {
        match self {
            Hc256 => {
                let mut h = refs::Hc256::new(key, iv);
                Box::new(move |v| v.extend(h.next_word().to_le_bytes()))
            }
            Rabbit | RabbitKeyOnly => {
                let mut r = refs::Rabbit::key_setup(key);
                if self == Rabbit {
                    r.iv_setup(iv);
                }
                Box::new(move |v| v.extend(r.next_block()))
            }
            Rc4 => {
                let mut r = refs::Rc4::new(key);
                Box::new(move |v| v.push(r.next_byte()))
            }
            _ => {
                let (key, iv) = (key.to_vec(), iv.to_vec());
                let mut b = 0;
                Box::new(move |v| {
                    v.extend(self.ref_block(&key, &iv, b));
                    b += 1;
                })
            }
        }
    }

    /// Reference keystream bytes `start..start + n`, where `start` is 0 for non-seekable ciphers.
    /// Seekable ciphers: a window may reach past the limit into the last counter block, not beyond it.
    pub fn window(self, key: &[u8], iv: &[u8], start: u128, n: usize) -> Window {
        let mut data = Vec::with_capacity(n + 64);
        match self {
            Hc256 | Rabbit | RabbitKeyOnly | Rc4 => {
                let mut g = self.ref_stream(key, iv);
                while data.len() < n {
                    g(&mut data);
                }
            }
            _ => {
                let first = start / 64;
                let skip = (start % 64) as usize;
                let max = (1u128 << self.ctr_bits().unwrap()) - 1;
                let mut b = first;
                while data.len() < n + skip && b <= max {
                    data.extend(self.ref_block(key, iv, b as u64));
                    b += 1;
                }
                data.drain(..skip);
            }
        }
        data.truncate(n);
        Window { start, data }
    }
}

/// Reference keystream of a range of positions.
#[derive(Clone)]
pub struct Window {
    pub start: u128,
    pub data: Vec<u8>,
}

impl Window {
    pub fn contains(&self, pos: u128, n: usize) -> bool {
        pos >= self.start && pos + n as u128 <= self.start + self.data.len() as u128
    }
    pub fn at(&self, pos: u128, n: usize) -> &[u8] {
        let o = (pos - self.start) as usize;
        &self.data[o..o + n]
    }
    pub fn end(&self) -> u128 {
        self.start + self.data.len() as u128
    }
}

/// Every consuming call of `StreamCipher`, directly and through `&mut C`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Form {
    Apply,
    TryApply,
    UncheckedApply,
    B2b,
    TryB2b,
    UncheckedB2b,
    InOut,
    TryInOut,
    UncheckedInOut,
    Write,
    TryWrite,
    UncheckedWrite,
    RefTryApply,
    RefUncheckedWrite,
    /// in/out buffer whose two sides are the same memory
    InOutSame,
}
use Form::*;

pub const FORMS: [Form; 15] = [
    TryApply, Apply, UncheckedApply, TryB2b, B2b, UncheckedB2b, TryInOut, InOut, UncheckedInOut, TryWrite, Write,
    UncheckedWrite, RefTryApply, RefUncheckedWrite, InOutSame,
];

impl Form {
    pub fn in_place(self) -> bool {
        matches!(self, Apply | TryApply | UncheckedApply | RefTryApply | InOutSame)
    }
    pub fn is_write(self) -> bool {
        matches!(self, Write | TryWrite | UncheckedWrite | RefUncheckedWrite)
    }
    /// Does this call check the end of the keystream?
    pub fn checked(self) -> bool {
        !matches!(self, UncheckedApply | UncheckedB2b | UncheckedInOut | UncheckedWrite | RefUncheckedWrite)
    }
    /// Failure is a panic and not an `Err`.
    pub fn panics(self) -> bool {
        matches!(self, Apply | B2b | InOut | Write)
    }
}

/// Integer types positions are given in.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    I32,
    U32,
    U64,
    U128,
    Usize,
}
pub const TYPES: [Ty; 5] = [Ty::U64, Ty::I32, Ty::U32, Ty::U128, Ty::Usize];

impl Ty {
    pub fn max(self) -> u128 {
        match self {
            Ty::I32 => i32::MAX as u128,
            Ty::U32 => u32::MAX as u128,
            Ty::U64 | Ty::Usize => u64::MAX as u128,
            Ty::U128 => u128::MAX,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    Err,
    Panic(String),
}

/// A cipher object under test.
pub trait Sut: Send {
    /// `out` must hold the input for in-place forms. A panic is caught and reported.
    fn consume(&mut self, form: Form, inp: &[u8], out: &mut [u8]) -> Out;
    fn check_remaining(&self, n: usize) -> Result<bool, String>;
    /// Seek; the position must be representable in `ty`. `panicking`: `seek` instead of `try_seek`.
    fn seek(&mut self, ty: Ty, pos: u128, panicking: bool) -> Out;
    /// Reported position, `None` for an error. `panicking`: `current_pos`.
    fn pos(&self, ty: Ty, panicking: bool) -> Result<Option<i128>, String>;
    fn bytes(&self) -> Vec<u8>;
    fn restore(&mut self, raw: &[u8]);
}

pub struct Seek<C>(pub C);
pub struct Plain<C>(pub C);

fn out<E>(r: Result<Result<(), E>, String>) -> Out {
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(_)) => Out::Err,
        Err(m) => Out::Panic(m),
    }
}

fn consume<C: StreamCipher>(c: &mut C, form: Form, inp: &[u8], o: &mut [u8]) -> Out {
    fn via<C: StreamCipher>(mut c: C, form: Form, o: &mut [u8]) -> Result<(), ()> {
        match form {
            RefTryApply => c.try_apply_keystream(o).map_err(|_| ()),
            _ => {
                c.unchecked_write_keystream(o);
                Ok(())
            }
        }
    }
    out(sut(|| match form {
        Apply => {
            c.apply_keystream(o);
            Ok(())
        }
        TryApply => c.try_apply_keystream(o).map_err(|_| ()),
        UncheckedApply => {
            c.unchecked_apply_keystream(o);
            Ok(())
        }
        B2b => {
            c.apply_keystream_b2b(inp, o);
            Ok(())
        }
        TryB2b => c.try_apply_keystream_b2b(inp, o).map_err(|_| ()),
        UncheckedB2b => c.unchecked_apply_keystream_b2b(inp, o).map_err(|_| ()),
        InOut => {
            c.apply_keystream_inout(InOutBuf::new(inp, o).map_err(|_| ())?);
            Ok(())
        }
        TryInOut => c.try_apply_keystream_inout(InOutBuf::new(inp, o).map_err(|_| ())?).map_err(|_| ()),
        UncheckedInOut => {
            c.unchecked_apply_keystream_inout(InOutBuf::new(inp, o).map_err(|_| ())?);
            Ok(())
        }
        Write => {
            c.write_keystream(o);
            Ok(())
        }
        TryWrite => c.try_write_keystream(o).map_err(|_| ()),
        UncheckedWrite => {
            c.unchecked_write_keystream(o);
            Ok(())
        }
        InOutSame => c.try_apply_keystream_inout(InOutBuf::from(o)).map_err(|_| ()),
        RefTryApply | RefUncheckedWrite => via(&mut *c, form, o),
    }))
}

/// The bytes an object consists of.
pub fn raw<T>(t: &T) -> Vec<u8> {
    // the objects hold no pointers (the crates are no_std without alloc); padding is copied as it is
    let mut v = Vec::<u8>::with_capacity(size_of::<T>());
    unsafe {
        std::ptr::copy_nonoverlapping((t as *const T).cast::<MaybeUninit<u8>>(), v.as_mut_ptr().cast(), size_of::<T>());
        v.set_len(size_of::<T>());
    }
    v
}

pub fn set_raw<T>(t: &mut T, raw: &[u8]) {
    assert_eq!(raw.len(), size_of::<T>());
    unsafe { std::ptr::copy_nonoverlapping(raw.as_ptr(), (t as *mut T).cast::<u8>(), raw.len()) }
}

impl<C: StreamCipher + Send> Sut for Plain<C> {
    fn consume(&mut self, form: Form, inp: &[u8], o: &mut [u8]) -> Out {
        consume(&mut self.0, form, inp, o)
    }
    fn check_remaining(&self, n: usize) -> Result<bool, String> {
        sut(|| self.0.check_remaining(n).is_ok())
    }
    fn seek(&mut self, _: Ty, _: u128, _: bool) -> Out {
        unreachable!("not seekable")
    }
    fn pos(&self, _: Ty, _: bool) -> Result<Option<i128>, String> {
        unreachable!("not seekable")
    }
    fn bytes(&self) -> Vec<u8> {
        raw(&self.0)
    }
    fn restore(&mut self, b: &[u8]) {
        set_raw(&mut self.0, b)
    }
}

impl<C: StreamCipher + StreamCipherSeek + Send> Sut for Seek<C> {
    fn consume(&mut self, form: Form, inp: &[u8], o: &mut [u8]) -> Out {
        consume(&mut self.0, form, inp, o)
    }
    fn check_remaining(&self, n: usize) -> Result<bool, String> {
        sut(|| self.0.check_remaining(n).is_ok())
    }
    fn seek(&mut self, ty: Ty, pos: u128, panicking: bool) -> Out {
        macro_rules! go {
            ($t:ty) => {{
                let p = <$t>::try_from(pos).expect("position fits the type");
                out(sut(|| {
                    if panicking {
                        self.0.seek(p);
                        Ok(())
                    } else {
                        self.0.try_seek(p)
                    }
                }))
            }};
        }
        match ty {
            Ty::I32 => go!(i32),
            Ty::U32 => go!(u32),
            Ty::U64 => go!(u64),
            Ty::U128 => go!(u128),
            Ty::Usize => go!(usize),
        }
    }
    fn pos(&self, ty: Ty, panicking: bool) -> Result<Option<i128>, String> {
        macro_rules! go {
            ($t:ty) => {
                sut(|| {
                    if panicking {
                        Some(self.0.current_pos::<$t>() as i128)
                    } else {
                        self.0.try_current_pos::<$t>().ok().map(|p| p as i128)
                    }
                })
            };
        }
        match ty {
            Ty::I32 => go!(i32),
            Ty::U32 => go!(u32),
            Ty::U64 => go!(u64),
            Ty::U128 => go!(u128),
            Ty::Usize => go!(usize),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        raw(&self.0)
    }
    fn restore(&mut self, b: &[u8]) {
        set_raw(&mut self.0, b)
    }
}

/// Deterministic "plaintext" byte for a stream position.
pub fn plain(pos: u128, n: usize) -> Vec<u8> {
    (0..n).map(|i| ((pos as u64).wrapping_add(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8).collect()
}

/// One consuming call on `obj`, compared with the reference keystream `ks` (the bytes expected if the call
/// succeeds). `ok`: whether the call must succeed. Returns a description of the disagreement, if any.
pub fn check_consume(obj: &mut dyn Sut, form: Form, pos: u128, n: usize, ks: &[u8], ok: bool) -> Result<(), String> {
    let inp = plain(pos, n);
    let mut o = if form.in_place() { inp.clone() } else { vec![0xa5u8; n] };
    let before = o.clone();
    let inp2 = inp.clone();
    let r = obj.consume(form, &inp, &mut o);
    if inp != inp2 {
        return Err(format!("{form:?} of {n} bytes at position {pos} changed its input buffer"));
    }
    let res_ok = match (&r, ok) {
        (Out::Ok, true) => true,
        (Out::Err, false) => !form.panics(),
        (Out::Panic(m), false) => form.panics() && m.contains("end of keystream reached"),
        _ => false,
    };
    if !res_ok {
        return Err(format!("{form:?} of {n} bytes at position {pos}: expected {}, got {r:?}", if ok { "success" } else { "failure" }));
    }
    if !ok {
        if o != before {
            return Err(format!("{form:?} of {n} bytes at position {pos} failed but wrote to the buffer"));
        }
        return Ok(());
    }
    for i in 0..n {
        let want = if form.is_write() { ks[i] } else { inp[i] ^ ks[i] };
        if o[i] != want {
            return Err(format!(
                "{form:?} of {n} bytes at position {pos}: byte {i} is {:02x}, expected {want:02x} (keystream {:02x})",
                o[i], ks[i]
            ));
        }
    }
    Ok(())
}
