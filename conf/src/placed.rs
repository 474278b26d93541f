//! Objects at a chosen offset from a 16-byte boundary.
use crate::core::{Core, CoreOf, CoreSut};
use crate::kinds::{Kind, Plain, Seek, Sut};
use chacha20::rand_core::SeedableRng;
use chacha20::rand_core::block::Generator;
use chacha20::variants::{Ietf, Legacy};
use chacha20::{ChaChaCore, R8, R12, R20};
use cipher::array::Array;
use cipher::consts::{U4, U6, U10, U64};
use cipher::{
    BlockSizeUser, InOutBuf, KeyInit, KeyIvInit, OverflowError, SeekNum, StreamCipher, StreamCipherClosure,
    StreamCipherCore, StreamCipherCoreWrapper, StreamCipherError, StreamCipherSeek, StreamCipherSeekCore,
};

#[repr(C, align(16))]
pub struct Pad<const N: usize, C>([u8; N], C);

impl<const N: usize, C: StreamCipher> StreamCipher for Pad<N, C> {
    fn check_remaining(&self, n: usize) -> Result<(), StreamCipherError> {
        self.1.check_remaining(n)
    }
    fn unchecked_apply_keystream_inout(&mut self, buf: InOutBuf<'_, '_, u8>) {
        self.1.unchecked_apply_keystream_inout(buf)
    }
    fn unchecked_write_keystream(&mut self, buf: &mut [u8]) {
        self.1.unchecked_write_keystream(buf)
    }
}
impl<const N: usize, C: StreamCipherSeek> StreamCipherSeek for Pad<N, C> {
    fn try_current_pos<T: SeekNum>(&self) -> Result<T, OverflowError> {
        self.1.try_current_pos()
    }
    fn try_seek<T: SeekNum>(&mut self, p: T) -> Result<(), StreamCipherError> {
        self.1.try_seek(p)
    }
}
impl<const N: usize, C: BlockSizeUser> BlockSizeUser for Pad<N, C> {
    type BlockSize = C::BlockSize;
}
impl<const N: usize, C: StreamCipherCore> StreamCipherCore for Pad<N, C> {
    fn remaining_blocks(&self) -> Option<usize> {
        self.1.remaining_blocks()
    }
    fn process_with_backend(&mut self, f: impl StreamCipherClosure<BlockSize = Self::BlockSize>) {
        self.1.process_with_backend(f)
    }
}
impl<const N: usize, C: StreamCipherSeekCore> StreamCipherSeekCore for Pad<N, C> {
    type Counter = C::Counter;
    fn get_block_pos(&self) -> C::Counter {
        self.1.get_block_pos()
    }
    fn set_block_pos(&mut self, p: C::Counter) {
        self.1.set_block_pos(p)
    }
}

macro_rules! at {
    ($place:expr, |$c:ident| $e:expr, $v:expr) => {
        match $place {
            1 => {
                let $c = Pad([0u8; 4], $v);
                $e
            }
            2 => {
                let $c = Pad([0u8; 8], $v);
                $e
            }
            3 => {
                let $c = Pad([0u8; 12], $v);
                $e
            }
            _ => {
                let $c = Pad([0u8; 0], $v);
                $e
            }
        }
    };
}

fn kv<C: KeyIvInit>(key: &[u8], iv: &[u8]) -> C {
    C::new(&Array::try_from(key).unwrap(), &Array::try_from(iv).unwrap())
}

/// Position `place` words after a 16-byte boundary.
pub fn make(kind: Kind, key: &[u8], iv: &[u8], place: usize) -> Box<dyn Sut> {
    macro_rules! s {
        ($e:expr) => {
            at!(place, |c| Box::new(Seek(c)), $e)
        };
    }
    macro_rules! p {
        ($e:expr) => {
            at!(place, |c| Box::new(Plain(c)), $e)
        };
    }
    let seed = || -> [u8; 32] { key.try_into().unwrap() };
    use Kind::*;
    match kind {
        ChaCha8 => s!(kv::<chacha20::ChaCha8>(key, iv)),
        ChaCha12 => s!(kv::<chacha20::ChaCha12>(key, iv)),
        ChaCha20 => s!(kv::<chacha20::ChaCha20>(key, iv)),
        ChaCha20Legacy => s!(kv::<chacha20::ChaCha20Legacy>(key, iv)),
        Legacy8Seed => s!(StreamCipherCoreWrapper::from_core(ChaChaCore::<R8, Legacy>::from_seed(seed()))),
        Legacy12Seed => s!(StreamCipherCoreWrapper::from_core(ChaChaCore::<R12, Legacy>::from_seed(seed()))),
        Legacy20Seed => s!(StreamCipherCoreWrapper::from_core(ChaChaCore::<R20, Legacy>::from_seed(seed()))),
        XChaCha8 => s!(kv::<chacha20::XChaCha8>(key, iv)),
        XChaCha12 => s!(kv::<chacha20::XChaCha12>(key, iv)),
        XChaCha20 => s!(kv::<chacha20::XChaCha20>(key, iv)),
        Salsa8 => s!(kv::<salsa20::Salsa8>(key, iv)),
        Salsa12 => s!(kv::<salsa20::Salsa12>(key, iv)),
        Salsa20 => s!(kv::<salsa20::Salsa20>(key, iv)),
        XSalsa8 => s!(kv::<salsa20::XSalsa8>(key, iv)),
        XSalsa12 => s!(kv::<salsa20::XSalsa12>(key, iv)),
        XSalsa20 => s!(kv::<salsa20::XSalsa20>(key, iv)),
        Hc256 => p!(kv::<hc_256::Hc256>(key, iv)),
        Rabbit => p!(kv::<rabbit::Rabbit>(key, iv)),
        RabbitKeyOnly => p!(rabbit::RabbitKeyOnly::new(&Array::try_from(key).unwrap())),
        Rc4 => p!(rc4::Rc4::new_from_slice(key).expect("key length")),
    }
}

pub fn make_core(kind: Kind, key: &[u8], iv: &[u8], place: usize) -> Box<dyn CoreSut> {
    fn plain<C>(c: C, place: usize) -> Box<dyn CoreSut>
    where
        C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + Send + 'static,
    {
        at!(place, |c| Box::new(Core::<_, false>(c, |_, _| unreachable!())), c)
    }
    fn generator<C>(c: C, place: usize) -> Box<dyn CoreSut>
    where
        C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + Generator<Output = [u32; 64]> + Send + 'static,
    {
        at!(place, |c| Box::new(Core::<_, true>(c, |c, o| c.1.generate(o))), c)
    }
    fn x<W: CoreOf>(key: &[u8], iv: &[u8], place: usize) -> Box<dyn CoreSut>
    where
        W::C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + KeyIvInit + Send + 'static,
    {
        plain(kv::<W::C>(key, iv), place)
    }
    let seed = || -> [u8; 32] { key.try_into().unwrap() };
    match kind {
        Kind::ChaCha8 => generator(kv::<ChaChaCore<R8, Ietf>>(key, iv), place),
        Kind::ChaCha12 => generator(kv::<ChaChaCore<R12, Ietf>>(key, iv), place),
        Kind::ChaCha20 => generator(kv::<ChaChaCore<R20, Ietf>>(key, iv), place),
        Kind::ChaCha20Legacy => generator(kv::<chacha20::ChaCha20LegacyCore>(key, iv), place),
        Kind::Legacy8Seed => generator(ChaChaCore::<R8, Legacy>::from_seed(seed()), place),
        Kind::Legacy12Seed => generator(ChaChaCore::<R12, Legacy>::from_seed(seed()), place),
        Kind::Legacy20Seed => generator(ChaChaCore::<R20, Legacy>::from_seed(seed()), place),
        Kind::XChaCha8 => x::<chacha20::XChaCha8>(key, iv, place),
        Kind::XChaCha12 => x::<chacha20::XChaCha12>(key, iv, place),
        Kind::XChaCha20 => x::<chacha20::XChaCha20>(key, iv, place),
        Kind::Salsa8 => x::<salsa20::Salsa8>(key, iv, place),
        Kind::Salsa12 => x::<salsa20::Salsa12>(key, iv, place),
        Kind::Salsa20 => x::<salsa20::Salsa20>(key, iv, place),
        Kind::XSalsa8 => x::<salsa20::XSalsa8>(key, iv, place),
        Kind::XSalsa12 => x::<salsa20::XSalsa12>(key, iv, place),
        Kind::XSalsa20 => x::<salsa20::XSalsa20>(key, iv, place),
        _ => unreachable!(),
    }
}

/// Keystream of a Salsa core made from a raw state.
pub fn salsa_raw(r: u8, state: [u32; 16], n: usize) -> Vec<u8> {
    fn go<R: cipher::array::typenum::Unsigned>(state: [u32; 16], n: usize) -> Vec<u8> {
        let mut c = salsa20::SalsaCore::<R>::from_raw_state(state);
        let mut v = vec![Array::<u8, U64>::default(); n / 64];
        c.write_keystream_blocks(&mut v);
        Array::<u8, U64>::slice_as_flattened(&v).to_vec()
    }
    match r {
        8 => go::<U4>(state, n),
        12 => go::<U6>(state, n),
        _ => go::<U10>(state, n),
    }
}
