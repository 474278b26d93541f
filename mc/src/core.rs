//! Block-level cores behind one interface, with their model: the block counter modulo its size.
use crate::kinds::{Kind, raw, set_raw};
use crate::run::sut;
use chacha20::rand_core::block::Generator;
use chacha20::variants::{Ietf, Legacy};
use chacha20::{ChaChaCore, R8, R12, R20};
use cipher::array::Array;
use cipher::array::typenum::Unsigned;
use cipher::consts::U64;
use cipher::{
    BlockSizeUser, InOut, InOutBuf, KeyIvInit, ParBlocks, StreamCipherBackend, StreamCipherClosure, StreamCipherCore,
    StreamCipherCoreWrapper, StreamCipherSeekCore,
};

pub type Blk = Array<u8, U64>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Step {
    Block,
    Par,
    Tail(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum COp {
    WriteBlock,
    WriteBlocks(usize),
    ApplyBlock,
    ApplyBlockInOut,
    ApplyBlocks(usize),
    ApplyBlocksInOut(usize),
    /// consumes (a copy of) the core: length, in place, panicking form
    Partial(usize, bool, bool),
    /// backend methods called in this order by a caller's closure
    Script(Vec<Step>),
    Set(u64),
    Generate,
}

pub trait CoreSut: Send {
    fn pos(&self) -> Result<u64, String>;
    fn set(&mut self, p: u64) -> Result<(), String>;
    fn remaining(&self) -> Result<Option<usize>, String>;
    /// The bytes an operation produced. `data`: the data to encrypt for the apply forms.
    /// `Ok(None)`: the operation reported an error (partial) or does not exist for this core.
    fn run(&mut self, op: &COp, data: &[u8]) -> Result<Option<Vec<u8>>, String>;
    fn bytes(&self) -> Vec<u8>;
    fn restore(&mut self, b: &[u8]);
}

struct Script<'a>(&'a [Step], &'a mut Vec<u8>);
impl BlockSizeUser for Script<'_> {
    type BlockSize = U64;
}
impl StreamCipherClosure for Script<'_> {
    fn call<B: StreamCipherBackend<BlockSize = U64>>(self, b: &mut B) {
        for s in self.0 {
            match *s {
                Step::Block => {
                    let mut k = Blk::default();
                    b.gen_ks_block(&mut k);
                    self.1.extend_from_slice(&k);
                }
                Step::Par => {
                    let mut k = ParBlocks::<B>::default();
                    b.gen_par_ks_blocks(&mut k);
                    for k in &k {
                        self.1.extend_from_slice(k);
                    }
                }
                Step::Tail(n) => {
                    let n = n.min(B::ParBlocksSize::USIZE - 1);
                    let mut k = vec![Blk::default(); n];
                    b.gen_tail_blocks(&mut k);
                    for k in &k {
                        self.1.extend_from_slice(k);
                    }
                }
            }
        }
    }
}

fn blocks(d: &[u8]) -> Vec<Blk> {
    Blk::slice_as_chunks(d).0.to_vec()
}
fn flat(b: &[Blk]) -> Vec<u8> {
    Blk::slice_as_flattened(b).to_vec()
}

pub struct Core<C, const G: bool>(pub C, pub fn(&mut C, &mut [u32; 64]));

impl<C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + Send, const G: bool> CoreSut for Core<C, G> {
    fn pos(&self) -> Result<u64, String> {
        sut(|| self.0.get_block_pos().try_into().ok().expect("counter fits 64 bits"))
    }
    fn set(&mut self, p: u64) -> Result<(), String> {
        let c = C::Counter::try_from(p).ok().expect("harness: position fits the counter");
        sut(|| self.0.set_block_pos(c))
    }
    fn remaining(&self) -> Result<Option<usize>, String> {
        sut(|| self.0.remaining_blocks())
    }
    fn run(&mut self, op: &COp, data: &[u8]) -> Result<Option<Vec<u8>>, String> {
        let c = &mut self.0;
        let guard = Blk::from([0xc6u8; 64]);
        let ok = |v: Vec<u8>| Ok(Some(v));
        match *op {
            COp::WriteBlock => {
                let mut b = Blk::from([0x3c; 64]);
                sut(|| c.write_keystream_block(&mut b))?;
                ok(b.to_vec())
            }
            COp::WriteBlocks(n) => {
                let mut v = vec![guard; n + 2];
                sut(|| c.write_keystream_blocks(&mut v[1..n + 1]))?;
                if v[0] != guard || v[n + 1] != guard {
                    return Err("wrote outside the blocks".into());
                }
                ok(flat(&v[1..n + 1]))
            }
            COp::ApplyBlock => {
                let mut b = blocks(&data[..64])[0];
                sut(|| c.apply_keystream_block_inout((&mut b).into()))?;
                ok(b.to_vec())
            }
            COp::ApplyBlockInOut => {
                let b = blocks(&data[..64])[0];
                let mut o = guard;
                sut(|| c.apply_keystream_block_inout(InOut::from((&b, &mut o))))?;
                if b[..] != data[..64] {
                    return Err("the input block was changed".into());
                }
                ok(o.to_vec())
            }
            COp::ApplyBlocks(n) => {
                let mut v = vec![guard];
                v.extend(blocks(&data[..64 * n]));
                v.push(guard);
                sut(|| c.apply_keystream_blocks(&mut v[1..n + 1]))?;
                if v[0] != guard || v[n + 1] != guard {
                    return Err("wrote outside the blocks".into());
                }
                ok(flat(&v[1..n + 1]))
            }
            COp::ApplyBlocksInOut(n) => {
                let b = blocks(&data[..64 * n]);
                let mut v = vec![guard; n + 2];
                sut(|| c.apply_keystream_blocks_inout(InOutBuf::new(&b, &mut v[1..n + 1]).unwrap()))?;
                if v[0] != guard || v[n + 1] != guard {
                    return Err("wrote outside the blocks".into());
                }
                if flat(&b) != data[..64 * n] {
                    return Err("the input blocks were changed".into());
                }
                ok(flat(&v[1..n + 1]))
            }
            COp::Partial(n, in_place, panicking) => {
                // a move of the core: the bytes of the object are its value
                let c = unsafe { std::ptr::read(c) };
                let mut o = if in_place { data[..n].to_vec() } else { vec![0x77; n] };
                let before = o.clone();
                let r = sut(|| {
                    let buf = if in_place { InOutBuf::from(&mut o[..]) } else { InOutBuf::new(&data[..n], &mut o[..]).unwrap() };
                    if panicking {
                        c.apply_keystream_partial(buf);
                        true
                    } else {
                        c.try_apply_keystream_partial(buf).is_ok()
                    }
                });
                match r {
                    Ok(true) => ok(o),
                    Ok(false) if o == before => Ok(None),
                    Err(e) if panicking && e.contains("number of remaining blocks insufficient") && o == before => Ok(None),
                    Err(e) if !panicking => Err(e),
                    Err(e) if !e.contains("number of remaining blocks insufficient") => Err(e),
                    _ => Err("the call failed but wrote to the buffer".into()),
                }
            }
            COp::Script(ref s) => {
                let mut v = vec![];
                sut(|| c.process_with_backend(Script(s, &mut v)))?;
                ok(v)
            }
            COp::Set(p) => {
                self.set(p)?;
                ok(vec![])
            }
            COp::Generate => {
                if !G {
                    return Ok(None);
                }
                let mut w = [0x5a5a_5a5au32; 64];
                let g = self.1;
                sut(|| g(c, &mut w))?;
                ok(w.iter().flat_map(|w| w.to_le_bytes()).collect())
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        raw(&self.0)
    }
    fn restore(&mut self, b: &[u8]) {
        set_raw(&mut self.0, b)
    }
}

/// Core type of a wrapper (the XChaCha core's name is not exported).
pub trait CoreOf {
    type C;
}
impl<T: StreamCipherCore + BlockSizeUser<BlockSize = U64>> CoreOf for StreamCipherCoreWrapper<T> {
    type C = T;
}

pub const CORES: [Kind; 16] = [
    Kind::ChaCha8,
    Kind::ChaCha12,
    Kind::ChaCha20,
    Kind::ChaCha20Legacy,
    Kind::Legacy8Seed,
    Kind::Legacy12Seed,
    Kind::Legacy20Seed,
    Kind::XChaCha8,
    Kind::XChaCha12,
    Kind::XChaCha20,
    Kind::Salsa8,
    Kind::Salsa12,
    Kind::Salsa20,
    Kind::XSalsa8,
    Kind::XSalsa12,
    Kind::XSalsa20,
];

pub fn has_generate(k: Kind) -> bool {
    matches!(
        k,
        Kind::ChaCha8 | Kind::ChaCha12 | Kind::ChaCha20 | Kind::ChaCha20Legacy | Kind::Legacy8Seed | Kind::Legacy12Seed | Kind::Legacy20Seed
    )
}

pub fn make_core(k: Kind, key: &[u8], iv: &[u8]) -> Box<dyn CoreSut> {
    use chacha20::rand_core::SeedableRng;
    fn p<W: CoreOf>(key: &[u8], iv: &[u8]) -> Box<dyn CoreSut>
    where
        W::C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + KeyIvInit + Send + 'static,
    {
        let c = W::C::new(&Array::try_from(key).unwrap(), &Array::try_from(iv).unwrap());
        Box::new(Core::<W::C, false>(c, |_, _| unreachable!()))
    }
    fn g<C>(c: C) -> Box<dyn CoreSut>
    where
        C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + Generator<Output = [u32; 64]> + Send + 'static,
    {
        Box::new(Core::<C, true>(c, |c, o| c.generate(o)))
    }
    fn gi<C>(key: &[u8], iv: &[u8]) -> Box<dyn CoreSut>
    where
        C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + Generator<Output = [u32; 64]> + KeyIvInit + Send + 'static,
    {
        g(C::new(&Array::try_from(key).unwrap(), &Array::try_from(iv).unwrap()))
    }
    let seed = || -> [u8; 32] { key.try_into().unwrap() };
    match k {
        Kind::ChaCha8 => gi::<ChaChaCore<R8, Ietf>>(key, iv),
        Kind::ChaCha12 => gi::<ChaChaCore<R12, Ietf>>(key, iv),
        Kind::ChaCha20 => gi::<ChaChaCore<R20, Ietf>>(key, iv),
        Kind::ChaCha20Legacy => gi::<chacha20::ChaCha20LegacyCore>(key, iv),
        Kind::Legacy8Seed => g(ChaChaCore::<R8, Legacy>::from_seed(seed())),
        Kind::Legacy12Seed => g(ChaChaCore::<R12, Legacy>::from_seed(seed())),
        Kind::Legacy20Seed => g(ChaChaCore::<R20, Legacy>::from_seed(seed())),
        Kind::XChaCha8 => p::<chacha20::XChaCha8>(key, iv),
        Kind::XChaCha12 => p::<chacha20::XChaCha12>(key, iv),
        Kind::XChaCha20 => p::<chacha20::XChaCha20>(key, iv),
        Kind::Salsa8 => p::<salsa20::Salsa8>(key, iv),
        Kind::Salsa12 => p::<salsa20::Salsa12>(key, iv),
        Kind::Salsa20 => p::<salsa20::Salsa20>(key, iv),
        Kind::XSalsa8 => p::<salsa20::XSalsa8>(key, iv),
        Kind::XSalsa12 => p::<salsa20::XSalsa12>(key, iv),
        Kind::XSalsa20 => p::<salsa20::XSalsa20>(key, iv),
        _ => unreachable!(),
    }
}
