//! Single operations of the chacha20 crate on objects at a fixed place in memory, for the checks that
//! single-step them. `prep` runs normally, `op` is the stepped part and does not allocate.
use crate::kinds::{Form, Kind};
use chacha20::rand_core::{Rng, SeedableRng};
use cipher::array::Array;
use cipher::{InOutBuf, KeyIvInit, StreamCipher, StreamCipherSeek};
use std::hint::black_box;
use std::mem::MaybeUninit;

pub const BUF: usize = 4096;

/// The inputs of one run: `data` is the plaintext, repeated to the length needed.
#[derive(Clone, Debug)]
pub struct Secret {
    pub name: String,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub data: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    New,
    /// consuming call of the given form and length; block-aligned or not as the position says
    Use(Form, usize),
    Seek(u64),
    Pos,
    U32,
    U64,
    Fill(usize),
    SetWordPos(u128),
    SetStream(u64),
    Serialize,
    Deserialize,
    /// some draws of different kinds in one go
    Mixed,
}

pub trait Scn: Send {
    fn prep(&mut self, s: &Secret);
    fn op(&mut self);
    /// What the operation returned or wrote.
    fn result(&self) -> Vec<u8>;
    /// The next `n` bytes of the object made or advanced by the operation.
    fn tail(&mut self, n: usize) -> Vec<u8>;
}

#[repr(C, align(64))]
pub struct Cipher<C> {
    buf: [u8; BUF],
    inp: [u8; BUF],
    obj: MaybeUninit<C>,
    key: [u8; 32],
    iv: [u8; 32],
    klen: usize,
    ivlen: usize,
    pos: u64,
    act: Act,
    ret: u64,
    made: bool,
    new: fn(&[u8], &[u8]) -> C,
    seek: fn(&mut C, u64) -> bool,
    at: fn(&C) -> u64,
}

impl<C: StreamCipher + Send + 'static> Cipher<C> {
    fn with(kind: Kind, pos: u64, act: Act, new: fn(&[u8], &[u8]) -> C, seek: fn(&mut C, u64) -> bool, at: fn(&C) -> u64) -> Box<dyn Scn> {
        Box::new(Cipher::<C> {
            buf: [0; BUF],
            inp: [0; BUF],
            obj: MaybeUninit::uninit(),
            key: [0; 32],
            iv: [0; 32],
            klen: kind.klen(),
            ivlen: kind.ivlen(),
            pos,
            act,
            ret: 0,
            made: false,
            new,
            seek,
            at,
        })
    }
    /// A cipher that cannot seek: `pos` bytes are skipped by reading them.
    fn plain(kind: Kind, pos: u64, act: Act, new: fn(&[u8], &[u8]) -> C) -> Box<dyn Scn> {
        fn skip<C: StreamCipher>(c: &mut C, n: u64) -> bool {
            let mut b = [0u8; 64];
            for _ in 0..n / 64 {
                c.apply_keystream(&mut b);
            }
            c.apply_keystream(&mut b[..(n % 64) as usize]);
            true
        }
        Self::with(kind, pos, act, new, skip::<C>, |_| 0)
    }
}
impl<C: StreamCipher + StreamCipherSeek + Send + 'static> Cipher<C> {
    fn seekable(kind: Kind, pos: u64, act: Act, new: fn(&[u8], &[u8]) -> C) -> Box<dyn Scn> {
        Self::with(kind, pos, act, new, |c, p| c.try_seek(p).is_ok(), |c| c.try_current_pos::<u64>().unwrap_or(7))
    }
}

fn key_iv<C: KeyIvInit>(key: &[u8], iv: &[u8]) -> C {
    let k: &Array<u8, C::KeySize> = key.try_into().unwrap();
    let i: &Array<u8, C::IvSize> = iv.try_into().unwrap();
    C::new(k, i)
}

impl<C: StreamCipher + Send + 'static> Scn for Cipher<C> {
    fn prep(&mut self, s: &Secret) {
        self.key[..self.klen].copy_from_slice(&s.key[..self.klen]);
        self.iv[..self.ivlen].copy_from_slice(&s.iv[..self.ivlen]);
        for i in 0..BUF {
            self.inp[i] = s.data[i % s.data.len()];
            self.buf[i] = self.inp[i];
        }
        if self.made {
            unsafe { self.obj.assume_init_drop() };
            self.made = false;
        }
        if self.act != Act::New {
            let mut c = (self.new)(&self.key[..self.klen], &self.iv[..self.ivlen]);
            if self.pos != 0 {
                assert!((self.seek)(&mut c, self.pos), "position");
            }
            self.obj.write(c);
            self.made = true;
        }
    }
    fn op(&mut self) {
        if let Act::New = self.act {
            let c = (self.new)(&self.key[..self.klen], &self.iv[..self.ivlen]);
            self.obj.write(c);
            self.made = true;
            return;
        }
        let c = unsafe { self.obj.assume_init_mut() };
        match self.act {
            Act::Use(f, n) => {
                let (i, o) = (&self.inp[..n], &mut self.buf[..n]);
                let r = match f {
                    Form::Apply => {
                        c.apply_keystream(o);
                        true
                    }
                    Form::TryApply => c.try_apply_keystream(o).is_ok(),
                    Form::UncheckedApply => {
                        c.unchecked_apply_keystream(o);
                        true
                    }
                    Form::TryB2b => c.try_apply_keystream_b2b(i, o).is_ok(),
                    Form::TryInOut => c.try_apply_keystream_inout(InOutBuf::new(i, o).unwrap()).is_ok(),
                    Form::Write => {
                        c.write_keystream(o);
                        true
                    }
                    _ => c.try_write_keystream(o).is_ok(),
                };
                self.ret = black_box(r) as u64;
            }
            Act::Seek(p) => self.ret = (self.seek)(c, p) as u64,
            Act::Pos => self.ret = (self.at)(c),
            _ => unreachable!(),
        }
    }
    fn result(&self) -> Vec<u8> {
        let mut v = self.ret.to_le_bytes().to_vec();
        if let Act::Use(_, n) = self.act {
            v.extend(&self.buf[..n]);
        }
        v
    }
    fn tail(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        assert!(self.made);
        unsafe { self.obj.assume_init_mut() }.try_apply_keystream(&mut b).expect("keystream");
        b
    }
}

/// The inherent methods of the RNG types.
pub trait RngApi: Rng + SeedableRng<Seed = [u8; 32]> + Send + 'static {
    fn wp(&mut self, p: u128);
    fn st(&mut self, s: u64);
    fn ser(&self) -> [u8; 49];
    fn de(b: &[u8; 49]) -> Self;
}
macro_rules! api {
    ($($t:ty),*) => { $(impl RngApi for $t {
        fn wp(&mut self, p: u128) { self.set_word_pos(p) }
        fn st(&mut self, s: u64) { self.set_stream(s) }
        fn ser(&self) -> [u8; 49] { self.serialize_state() }
        fn de(b: &[u8; 49]) -> Self { Self::deserialize_state(b) }
    })* };
}
api!(chacha20::ChaCha8Rng, chacha20::ChaCha12Rng, chacha20::ChaCha20Rng);

#[repr(C, align(64))]
pub struct Rand<R> {
    buf: [u8; BUF],
    obj: MaybeUninit<R>,
    obj2: MaybeUninit<R>,
    seed: [u8; 32],
    ser: [u8; 49],
    word_pos: u128,
    stream: u64,
    act: Act,
    ret: u64,
}

impl<R: RngApi> Rand<R> {
    pub fn boxed(word_pos: u128, act: Act) -> Box<dyn Scn> {
        Box::new(Rand::<R> {
            buf: [0; BUF],
            obj: MaybeUninit::uninit(),
            obj2: MaybeUninit::uninit(),
            seed: [0; 32],
            ser: [0; 49],
            word_pos,
            stream: 0,
            act,
            ret: 0,
        })
    }
}

impl<R: RngApi> Scn for Rand<R> {
    fn prep(&mut self, s: &Secret) {
        self.seed.copy_from_slice(&s.key);
        self.buf.fill(0);
        // the stream identifier is the nonce of the RNG
        let mut w = [0u8; 8];
        let n = s.iv.len().min(8);
        w[..n].copy_from_slice(&s.iv[..n]);
        self.stream = u64::from_le_bytes(w);
        let mut r = R::from_seed(self.seed);
        r.st(self.stream);
        if self.word_pos != 0 {
            r.wp(self.word_pos);
        }
        self.ser = r.ser();
        self.obj.write(r);
    }
    fn op(&mut self) {
        let r = unsafe { self.obj.assume_init_mut() };
        match self.act {
            Act::New => {
                self.obj2.write(R::from_seed(self.seed));
            }
            Act::U32 => self.ret = r.next_u32() as u64,
            Act::U64 => self.ret = r.next_u64(),
            Act::Fill(n) => r.fill_bytes(&mut self.buf[..n]),
            Act::SetWordPos(p) => r.wp(p),
            Act::SetStream(_) => r.st(self.stream),
            Act::Serialize => self.ser = r.ser(),
            Act::Deserialize => {
                self.obj2.write(R::de(&self.ser));
            }
            Act::Mixed => {
                let mut x = r.next_u64();
                r.fill_bytes(&mut self.buf[..5]);
                x ^= r.next_u32() as u64;
                r.fill_bytes(&mut self.buf[8..300]);
                self.ret = x ^ r.next_u64();
            }
            _ => unreachable!(),
        }
    }
    fn result(&self) -> Vec<u8> {
        let mut v = self.ret.to_le_bytes().to_vec();
        match self.act {
            Act::Fill(n) => v.extend(&self.buf[..n]),
            Act::Mixed => v.extend(&self.buf[..300]),
            Act::Serialize => v.extend(self.ser),
            _ => {}
        }
        v
    }
    fn tail(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        let o = if matches!(self.act, Act::New | Act::Deserialize) { &mut self.obj2 } else { &mut self.obj };
        unsafe { o.assume_init_mut() }.fill_bytes(&mut b);
        b
    }
}

/// Kind of RNG: rounds 8, 12, 20.
pub fn rng(rounds: u32, word_pos: u128, act: Act) -> Box<dyn Scn> {
    match rounds {
        8 => Rand::<chacha20::ChaCha8Rng>::boxed(word_pos, act),
        12 => Rand::<chacha20::ChaCha12Rng>::boxed(word_pos, act),
        _ => Rand::<chacha20::ChaCha20Rng>::boxed(word_pos, act),
    }
}

pub const CHACHAS: [Kind; 7] =
    [Kind::ChaCha8, Kind::ChaCha12, Kind::ChaCha20, Kind::ChaCha20Legacy, Kind::XChaCha8, Kind::XChaCha12, Kind::XChaCha20];

pub fn cipher(kind: Kind, pos: u64, act: Act) -> Box<dyn Scn> {
    use chacha20::variants::Legacy;
    use chacha20::{ChaChaCore, R8, R12, R20};
    use cipher::{KeyInit, StreamCipherCoreWrapper};
    macro_rules! seek {
        ($t:ty) => {
            Cipher::<$t>::seekable(kind, pos, act, key_iv::<$t>)
        };
    }
    macro_rules! seeded {
        ($r:ty) => {
            Cipher::<StreamCipherCoreWrapper<ChaChaCore<$r, Legacy>>>::seekable(kind, pos, act, |k, _| {
                StreamCipherCoreWrapper::from_core(ChaChaCore::<$r, Legacy>::from_seed(k.try_into().unwrap()))
            })
        };
    }
    match kind {
        Kind::ChaCha8 => seek!(chacha20::ChaCha8),
        Kind::ChaCha12 => seek!(chacha20::ChaCha12),
        Kind::ChaCha20 => seek!(chacha20::ChaCha20),
        Kind::ChaCha20Legacy => seek!(chacha20::ChaCha20Legacy),
        Kind::XChaCha8 => seek!(chacha20::XChaCha8),
        Kind::XChaCha12 => seek!(chacha20::XChaCha12),
        Kind::XChaCha20 => seek!(chacha20::XChaCha20),
        Kind::Salsa8 => seek!(salsa20::Salsa8),
        Kind::Salsa12 => seek!(salsa20::Salsa12),
        Kind::Salsa20 => seek!(salsa20::Salsa20),
        Kind::XSalsa8 => seek!(salsa20::XSalsa8),
        Kind::XSalsa12 => seek!(salsa20::XSalsa12),
        Kind::XSalsa20 => seek!(salsa20::XSalsa20),
        Kind::Legacy8Seed => seeded!(R8),
        Kind::Legacy12Seed => seeded!(R12),
        Kind::Legacy20Seed => seeded!(R20),
        Kind::Hc256 => Cipher::<hc_256::Hc256>::plain(kind, pos, act, key_iv::<hc_256::Hc256>),
        Kind::Rabbit => Cipher::<rabbit::Rabbit>::plain(kind, pos, act, key_iv::<rabbit::Rabbit>),
        Kind::RabbitKeyOnly => Cipher::<rabbit::RabbitKeyOnly>::plain(kind, pos, act, |k, _| rabbit::RabbitKeyOnly::new(k.try_into().unwrap())),
        Kind::Rc4 => Cipher::<rc4::Rc4>::plain(kind, pos, act, |k, _| rc4::Rc4::new_from_slice(k).unwrap()),
    }
}
