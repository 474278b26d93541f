//! Plan executor: runs enumerated histories on the real objects and compares every result with the expected one
//! stored in the plan. Meant to run under Miri for some target and backend; the plan comes from ../mc/src/plan.rs.
#![allow(dead_code, unused_imports)]
extern crate cpufeatures_shim as cpufeatures;

#[path = "../../mc/src/core.rs"]
mod core;
#[path = "../../mc/src/kinds.rs"]
mod kinds;
mod placed;
#[path = "../../mc/src/refs.rs"]
mod refs;
#[path = "../../mc/src/rng.rs"]
mod rng;
#[path = "../../mc/src/run.rs"]
mod run;

use cipher::{KeyInit, KeyIvInit, array::Array};
use crate::core::{COp, CoreSut, Step};
use kinds::{ALL, FORMS, Form, Kind, Out, Sut, TYPES};
use rng::{RNGS, RngKind, RngSut};

struct Cur<'a> {
    d: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> &'a [u8] {
        self.i += n;
        &self.d[self.i - n..self.i]
    }
    fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    fn u32(&mut self) -> usize {
        u32::from_le_bytes(self.take(4).try_into().unwrap()) as usize
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    fn u128(&mut self) -> u128 {
        u128::from_le_bytes(self.take(16).try_into().unwrap())
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32();
        self.take(n)
    }
}

enum Obj {
    None,
    C(Box<dyn Sut>),
    K(Box<dyn CoreSut>),
    R(RngKind, Box<dyn RngSut>),
}

fn status(o: &Out) -> u8 {
    match o {
        Out::Ok => 0,
        Out::Err => 1,
        Out::Panic(_) => 2,
    }
}

fn by_slices(k: Kind, key: &[u8], iv: &[u8]) -> bool {
    fn kv<C: KeyIvInit>(key: &[u8], iv: &[u8]) -> bool {
        C::new_from_slices(key, iv).is_ok()
    }
    use Kind::*;
    match k {
        ChaCha8 => kv::<chacha20::ChaCha8>(key, iv),
        ChaCha12 => kv::<chacha20::ChaCha12>(key, iv),
        ChaCha20 => kv::<chacha20::ChaCha20>(key, iv),
        ChaCha20Legacy => kv::<chacha20::ChaCha20Legacy>(key, iv),
        XChaCha8 => kv::<chacha20::XChaCha8>(key, iv),
        XChaCha12 => kv::<chacha20::XChaCha12>(key, iv),
        XChaCha20 => kv::<chacha20::XChaCha20>(key, iv),
        Salsa8 => kv::<salsa20::Salsa8>(key, iv),
        Salsa12 => kv::<salsa20::Salsa12>(key, iv),
        Salsa20 => kv::<salsa20::Salsa20>(key, iv),
        XSalsa8 => kv::<salsa20::XSalsa8>(key, iv),
        XSalsa12 => kv::<salsa20::XSalsa12>(key, iv),
        XSalsa20 => kv::<salsa20::XSalsa20>(key, iv),
        Hc256 => kv::<hc_256::Hc256>(key, iv),
        Rabbit => kv::<rabbit::Rabbit>(key, iv),
        RabbitKeyOnly => rabbit::RabbitKeyOnly::new_from_slice(key).is_ok(),
        Rc4 => rc4::Rc4::new_from_slice(key).is_ok(),
        _ => true,
    }
}

fn function(f: u8, key: &[u8], inp: &[u8]) -> Vec<u8> {
    use cipher::consts::{U4, U6, U10};
    let k = Array::try_from(key).unwrap();
    let i = Array::try_from(inp).unwrap();
    match f {
        0 => chacha20::hchacha::<chacha20::R8>(&k, &i).to_vec(),
        1 => chacha20::hchacha::<chacha20::R12>(&k, &i).to_vec(),
        2 => chacha20::hchacha::<chacha20::R20>(&k, &i).to_vec(),
        3 => salsa20::hsalsa::<U4>(&k, &i).to_vec(),
        4 => salsa20::hsalsa::<U6>(&k, &i).to_vec(),
        _ => salsa20::hsalsa::<U10>(&k, &i).to_vec(),
    }
}

#[repr(align(64))]
#[derive(Clone, Copy)]
struct Line([u8; 64]);

/// `n` bytes whose address is `off` modulo 64, followed and preceded by guard bytes.
struct Buf {
    v: Vec<Line>,
    off: usize,
    n: usize,
}
const GUARD: u8 = 0xd7;
impl Buf {
    fn new(off: usize, data: Option<&[u8]>, n: usize) -> Buf {
        let mut b = Buf { v: vec![Line([GUARD; 64]); (off + n).div_ceil(64).max(1)], off, n };
        if let Some(d) = data {
            b.slice().copy_from_slice(d);
        }
        b
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr().cast(), 64 * self.v.len()) }
    }
    fn slice(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().cast::<u8>().add(self.off), self.n) }
    }
    fn guards_ok(&self) -> bool {
        // few bytes each side are enough: the borrow checker of the interpreter sees every access
        let a = self.all();
        a[..self.off].iter().rev().take(4).chain(a[self.off + self.n..].iter().take(4)).all(|&g| g == GUARD)
    }
}

fn mark() {
    unsafe { libc::write(1, b".".as_ptr().cast(), 1) };
}

fn fail(op: usize, what: String) -> ! {
    println!("\nMISMATCH {op} {what}");
    std::process::exit(0)
}

fn main() {
    run::quiet_panics();
    let plan = std::fs::read(std::env::args().nth(1).expect("plan file")).expect("plan");
    let mut c = Cur { d: &plan, i: 0 };
    let data = c.bytes();
    let mut o = Obj::None;
    let mut stack: Vec<Vec<u8>> = vec![];
    let mut n = 0usize;
    loop {
        let op = c.u8();
        if op == 0 {
            break;
        }
        mark();
        match op {
            1 => {
                let kind = ALL[c.u8() as usize];
                let place = c.u8() as usize;
                let (key, iv) = (c.bytes(), c.bytes());
                match run::sut(|| placed::make(kind, key, iv, place)) {
                    Ok(x) => o = Obj::C(x),
                    Err(e) => fail(n, format!("construction panicked: {e}")),
                }
            }
            2 => {
                let kind = ALL[c.u8() as usize];
                let (key, iv) = (c.bytes(), c.bytes());
                let want = c.u8() != 0;
                match run::sut(|| by_slices(kind, key, iv)) {
                    Ok(g) if g == want => {}
                    r => fail(n, format!("slice constructor succeeded: {r:?}, expected {want}")),
                }
            }
            3 => stack.push(match &o {
                Obj::C(x) => x.bytes(),
                Obj::K(x) => x.bytes(),
                Obj::R(_, x) => x.bytes(),
                Obj::None => vec![],
            }),
            4 => {
                let b = stack.pop().unwrap();
                match &mut o {
                    Obj::C(x) => x.restore(&b),
                    Obj::K(x) => x.restore(&b),
                    Obj::R(_, x) => x.restore(&b),
                    Obj::None => {}
                }
            }
            5 => {
                let form = FORMS[c.u8() as usize];
                let (a, b, len) = (c.u8() as usize, c.u8() as usize, c.u32());
                let want = c.u8();
                let Obj::C(x) = &mut o else { panic!("plan") };
                let mut inp = Buf::new(a, Some(&data[..len]), len);
                let mut out = Buf::new(b, form.in_place().then_some(&data[..len]), len);
                let r = x.consume(form, inp.slice(), out.slice());
                if status(&r) != want {
                    fail(n, format!("got {r:?}, expected status {want}"));
                }
                if !inp.guards_ok() || !out.guards_ok() || inp.slice() != &data[..len] {
                    fail(n, "the input or bytes outside the buffers were changed".into());
                }
                if want == 0 {
                    let w = c.take(len);
                    if out.slice() != w {
                        fail(n, run::diff(out.slice(), w));
                    }
                } else if form.in_place() && out.slice() != &data[..len] || !form.in_place() && out.slice().iter().any(|&g| g != GUARD) {
                    fail(n, "the call failed but wrote to the buffer".into());
                }
            }
            6 => {
                let (ty, p) = (TYPES[c.u8() as usize], c.u8() != 0);
                let pos = c.u128();
                let want = c.u8();
                let Obj::C(x) = &mut o else { panic!("plan") };
                let r = x.seek(ty, pos, p);
                if status(&r) != want {
                    fail(n, format!("got {r:?}, expected status {want}"));
                }
            }
            7 => {
                let (ty, p) = (TYPES[c.u8() as usize], c.u8() != 0);
                let want = c.u8();
                let pos = c.u128();
                let Obj::C(x) = &mut o else { panic!("plan") };
                let r = x.pos(ty, p);
                let w = match want {
                    0 => Ok(Some(pos as i128)),
                    1 => Ok(None),
                    _ => Err(()),
                };
                if r.clone().map_err(|_| ()) != w {
                    fail(n, format!("got {r:?}, expected {w:?}"));
                }
            }
            8 => {
                let len = c.u64() as usize;
                let want = c.u8() != 0;
                let Obj::C(x) = &mut o else { panic!("plan") };
                let r = x.check_remaining(len);
                if r != Ok(want) {
                    fail(n, format!("got {r:?}, expected {want}"));
                }
            }
            9 => {
                let kind = ALL[c.u8() as usize];
                let place = c.u8() as usize;
                let (key, iv) = (c.bytes(), c.bytes());
                match run::sut(|| placed::make_core(kind, key, iv, place)) {
                    Ok(x) => o = Obj::K(x),
                    Err(e) => fail(n, format!("construction panicked: {e}")),
                }
            }
            10 => {
                let t = c.u8();
                let a = c.u64();
                let cop = match t {
                    0 => COp::WriteBlock,
                    1 => COp::WriteBlocks(a as usize),
                    2 => COp::ApplyBlock,
                    3 => COp::ApplyBlockInOut,
                    4 => COp::ApplyBlocks(a as usize),
                    5 => COp::ApplyBlocksInOut(a as usize),
                    6 => COp::Partial((a & 0xffff) as usize, a >> 16 & 1 != 0, a >> 17 & 1 != 0),
                    7 => COp::Set(a),
                    8 => COp::Generate,
                    _ => COp::Script(
                        // base 8: 1 block, 2 par, 3.. tail of n - 3 blocks
                        (0..16).map(|i| a >> (4 * i) & 15).take_while(|&d| d != 0).map(|d| match d {
                            1 => Step::Block,
                            2 => Step::Par,
                            d => Step::Tail(d as usize - 3),
                        }).collect(),
                    ),
                };
                let want = c.u8();
                let w = c.bytes();
                let Obj::K(x) = &mut o else { panic!("plan") };
                let r = x.run(&cop, data);
                match (&r, want) {
                    (Ok(Some(g)), 0) if g == w => {}
                    (Ok(None), 1) => {}
                    // scripts: the widths are the backend's choice
                    (Ok(Some(g)), 3) if g.len() <= w.len() && g[..] == w[..g.len()] && g.len() >= 64 * (0..16).filter(|i| matches!(a >> (4 * i) & 15, 1 | 2)).count() => {
                        println!("{}", g.len() / 64);
                    }
                    (Ok(Some(g)), _) => fail(n, format!("got {}", run::diff(g, w))),
                    (r, _) => fail(n, format!("got {:?}", r.as_ref().map(|x| x.is_some()))),
                }
            }
            11 => {
                let want = c.u64();
                let rem = c.u128();
                let Obj::K(x) = &mut o else { panic!("plan") };
                let r = x.pos();
                if r != Ok(want) {
                    fail(n, format!("block position {r:?}, expected {want:#x}"));
                }
                let w = usize::try_from(rem).ok();
                let r = x.remaining();
                if r != Ok(w) {
                    fail(n, format!("remaining_blocks {r:?}, expected {w:?}"));
                }
            }
            12 => {
                let k = RNGS[c.u8() as usize];
                let seed: [u8; 32] = c.take(32).try_into().unwrap();
                match run::sut(|| k.make(seed)) {
                    Ok(x) => o = Obj::R(k, x),
                    Err(e) => fail(n, format!("from_seed panicked: {e}")),
                }
            }
            13 => {
                let (t, form) = (c.u8(), c.u8());
                let a = c.u128();
                let w = c.bytes();
                let Obj::R(k, x) = &mut o else { panic!("plan") };
                let r: Result<Vec<u8>, String> = (|| {
                    Ok(match t {
                        0 => x.u32(form)?.to_le_bytes().to_vec(),
                        1 => x.u64(form)?.to_le_bytes().to_vec(),
                        2 => {
                            let mut b = Buf::new((a >> 32) as usize, None, (a & 0xffff_ffff) as usize);
                            x.fill(form, b.slice())?;
                            if !b.guards_ok() {
                                fail(n, "bytes outside the buffer were changed".into());
                            }
                            b.slice().to_vec()
                        }
                        3 => {
                            x.set_word_pos(a)?;
                            vec![]
                        }
                        4 => {
                            x.set_block_pos(a as u64)?;
                            vec![]
                        }
                        5 => {
                            x.set_stream(a as u64)?;
                            vec![]
                        }
                        _ => {
                            let s = x.ser()?;
                            let y = k.deserialize(&s)?;
                            if !x.eq(y.as_ref())? {
                                fail(n, "the deserialized RNG is not equal to the original".into());
                            }
                            *x = y;
                            s.to_vec()
                        }
                    })
                })();
                match r {
                    Ok(g) if g == w => {}
                    Ok(g) => fail(n, run::diff(&g, w)),
                    Err(e) => fail(n, format!("panicked: {e}")),
                }
            }
            14 => {
                let (pos, stream) = (c.u128(), c.u64());
                let seed: [u8; 32] = c.take(32).try_into().unwrap();
                let Obj::R(_, x) = &mut o else { panic!("plan") };
                let m = rng::Model { seed, stream, pos };
                if let Err(e) = rng::check_queries(x.as_ref(), &m) {
                    fail(n, e);
                }
            }
            15 => {
                let f = c.u8();
                let (key, inp) = (c.take(32), c.take(16));
                let w = c.take(32);
                match run::sut(|| function(f, key, inp)) {
                    Ok(g) if g == w => {}
                    Ok(g) => fail(n, run::diff(&g, w)),
                    Err(e) => fail(n, format!("panicked: {e}")),
                }
            }
            16 => {
                let r = c.u8();
                let state: [u32; 16] = std::array::from_fn(|_| c.u32() as u32);
                let w = c.bytes();
                match run::sut(|| placed::salsa_raw(r, state, w.len())) {
                    Ok(g) if g == w => {}
                    Ok(g) => fail(n, run::diff(&g, w)),
                    Err(e) => fail(n, format!("panicked: {e}")),
                }
            }
            17 => {
                o = Obj::None;
            }
            18 => {
                // texts must not fail; their content is the business of other checks
                match &o {
                    Obj::R(_, x) => {
                        if let Err(e) = x.debug() {
                            fail(n, format!("panicked: {e}"));
                        }
                    }
                    _ => {}
                }
            }
            _ => panic!("plan: opcode {op} at {}", c.i),
        }
        n += 1;
    }
    println!("\nOK {n}");
}
