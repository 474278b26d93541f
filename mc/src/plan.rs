//! Plans: enumerated histories with the results the reference model predicts, for the executor in ../conf.
use crate::kinds::*;
use crate::refs;
use crate::rng::{MASK68, Model, RefWords, expected_ser};
use std::collections::HashMap;

pub const DATA: usize = 8192;

/// A plan under construction. `what[i]` describes operation `i`.
pub struct Plan {
    pub name: String,
    pub b: Vec<u8>,
    pub what: Vec<String>,
    path: Vec<String>,
    /// bits of `usize` on the target
    pub width: u32,
    data: Vec<u8>,
    pub cost: u64,
    pub histories: u64,
}

impl Plan {
    pub fn new(name: String, width: u32) -> Plan {
        let data = plain(0, DATA);
        let mut b = (DATA as u32).to_le_bytes().to_vec();
        b.extend(&data);
        Plan { name, b, what: vec![], path: vec![], width, data, cost: 0, histories: 0 }
    }
    fn op(&mut self, code: u8, what: String) {
        self.b.push(code);
        self.what.push(if self.path.is_empty() { what } else { format!("{what} after {}", self.path.join(", ")) });
        self.cost += 2_000;
    }
    fn blob(&mut self, d: &[u8]) {
        self.b.extend((d.len() as u32).to_le_bytes());
        self.b.extend(d);
    }
    pub fn finish(mut self) -> Plan {
        self.b.push(0);
        self
    }
    pub fn step(&mut self, s: String) {
        self.path.push(s);
    }
    pub fn dup(&mut self) {
        self.op(3, "dup".into());
    }
    pub fn pop(&mut self, depth: usize) {
        self.op(4, "pop".into());
        self.path.truncate(depth);
    }
    pub fn depth(&self) -> usize {
        self.path.len()
    }
    pub fn drop(&mut self) {
        self.op(17, "drop".into());
        self.path.clear();
    }
    pub fn slices(&mut self, k: Kind, klen: usize, ivlen: usize, want: bool) {
        self.path.clear();
        self.op(2, format!("{k:?}: slice constructor with {klen} and {ivlen} bytes"));
        self.b.push(index(k));
        let (a, b) = (self.data[..klen].to_vec(), self.data[..ivlen].to_vec());
        self.blob(&a);
        self.blob(&b);
        self.b.push(want as u8);
    }
    /// hchacha (f 0..=2) and hsalsa (3..=5) with 8, 12, 20 rounds
    pub fn function(&mut self, f: u8, key: &[u8], inp: &[u8]) {
        self.path.clear();
        let r = [8, 12, 20][f as usize % 3];
        self.op(15, format!("{} with {r} rounds", if f < 3 { "hchacha" } else { "hsalsa" }));
        self.b.push(f);
        self.b.extend(key);
        self.b.extend(inp);
        self.b.extend(if f < 3 { refs::hchacha(key, inp, r) } else { refs::hsalsa(key, inp, r) });
        self.cost += 40_000;
    }
    pub fn salsa_raw(&mut self, r: u32, state: [u32; 16], blocks: usize) {
        self.path.clear();
        self.op(16, format!("Salsa core with {r} rounds from a raw state"));
        self.b.push(r as u8);
        for w in state {
            self.b.extend(w.to_le_bytes());
        }
        let mut out = vec![];
        let mut s = state;
        for _ in 0..blocks {
            out.extend(refs::salsa_raw_block(&s, r));
            let c = (s[8] as u64 | (s[9] as u64) << 32).wrapping_add(1);
            s[8] = c as u32;
            s[9] = (c >> 32) as u32;
        }
        self.blob(&out);
        self.cost += blocks as u64 * 40_000;
    }
}

fn index(k: Kind) -> u8 {
    ALL.iter().position(|&x| x == k).unwrap() as u8
}

/// Reference keystream of one key and nonce, memoized.
pub struct Ks {
    pub kind: Kind,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    memo: HashMap<u64, [u8; 64]>,
    stream: Vec<u8>,
}

impl Ks {
    pub fn new(kind: Kind, key: &[u8], iv: &[u8]) -> Ks {
        Ks { kind, key: key.into(), iv: iv.into(), memo: HashMap::new(), stream: vec![] }
    }
    pub fn at(&mut self, pos: u128, n: usize) -> Vec<u8> {
        if !self.kind.seekable() {
            let end = pos as usize + n;
            if self.stream.len() < end {
                self.stream = self.kind.window(&self.key, &self.iv, 0, end.next_power_of_two().max(2048)).data;
            }
            return self.stream[pos as usize..end].to_vec();
        }
        let mut v = vec![];
        let mask = (1u128 << self.kind.ctr_bits().unwrap()) - 1;
        let mut p = pos;
        while v.len() < n {
            let b = ((p / 64) & mask) as u64;
            let (k, key, iv) = (self.kind, &self.key, &self.iv);
            let blk = self.memo.entry(b).or_insert_with(|| k.ref_block(key, iv, b));
            v.extend(&blk[(p % 64) as usize..]);
            p += 64 - p % 64;
        }
        v.truncate(n);
        v
    }
}

/// One cipher object in a plan.
pub struct C {
    pub ks: Ks,
    pub pos: u128,
}

/// Rough cost of `n` keystream bytes of a kind, in interpreter steps.
fn cost(k: Kind, n: usize) -> u64 {
    let n = n as u64;
    match k {
        Kind::Hc256 => n * 80,
        Kind::Rabbit | Kind::RabbitKeyOnly => n * 60,
        Kind::Rc4 => n * 40,
        _ => n.div_ceil(64) * (4_000 + 1_700 * k.rounds() as u64),
    }
}

impl C {
    pub fn new(p: &mut Plan, kind: Kind, key: &[u8], iv: &[u8], place: u8) -> C {
        p.path.clear();
        p.op(1, format!("{kind:?}::new (placement {place})"));
        p.step(format!("{kind:?}::new"));
        p.histories += 1;
        p.b.extend([index(kind), place]);
        p.blob(key);
        p.blob(iv);
        p.cost += match kind {
            Kind::Hc256 => 1_500_000,
            Kind::Rc4 => 30_000,
            k if k.xnonce() => 45_000,
            _ => 8_000,
        };
        C { ks: Ks::new(kind, key, iv), pos: 0 }
    }
    fn limit(&self) -> u128 {
        if self.ks.kind.seekable() { self.ks.kind.limit() } else { u128::MAX }
    }
    /// Can this call be made (unchecked forms must stay below the limit)?
    pub fn can(&self, form: Form, n: usize) -> bool {
        form.checked() || self.pos + n as u128 <= self.limit()
    }
    pub fn consume(&mut self, p: &mut Plan, form: Form, a: usize, b: usize, n: usize) {
        assert!(n <= DATA && self.can(form, n));
        let ok = self.pos + n as u128 <= self.limit();
        let f = FORMS.iter().position(|&x| x == form).unwrap() as u8;
        let s = format!("{form:?}({n}) at {}", self.pos);
        p.op(5, format!("{s} (alignments {a}, {b})"));
        p.step(s);
        p.b.extend([f, a as u8, b as u8]);
        p.b.extend((n as u32).to_le_bytes());
        p.b.push(if ok { 0 } else if form.panics() { 2 } else { 1 });
        if ok {
            let mut k = self.ks.at(self.pos, n);
            if !form.is_write() {
                k.iter_mut().zip(&p.data).for_each(|(k, d)| *k ^= d);
            }
            p.b.extend(k);
            self.pos += n as u128;
        }
        p.cost += 6_000 + cost(self.ks.kind, n);
    }
    pub fn seek(&mut self, p: &mut Plan, ty: Ty, to: u128, panicking: bool) {
        assert!(to <= max(p, ty));
        let ok = to <= self.limit();
        let s = format!("seek to {to} as {ty:?}");
        p.op(6, s.clone());
        p.step(s);
        p.b.extend([TYPES.iter().position(|&x| x == ty).unwrap() as u8, panicking as u8]);
        p.b.extend(to.to_le_bytes());
        p.b.push(if ok { 0 } else if panicking { 2 } else { 1 });
        if ok {
            self.pos = to;
        }
        p.cost += 3_000 + if to % 64 != 0 { cost(self.ks.kind, 64) } else { 0 };
    }
    /// Position queries in every type that has a definite answer.
    pub fn queries(&mut self, p: &mut Plan) {
        for (i, ty) in TYPES.into_iter().enumerate() {
            for panicking in [false, true] {
                let must_err = self.pos > max(p, ty);
                let must_ok = ty == Ty::U128 || self.pos.checked_add(64).is_some_and(|x| x <= max(p, ty));
                if !(must_err || must_ok) || panicking && (must_err || i > 0) {
                    continue;
                }
                p.op(7, format!("position query as {ty:?} at {}", self.pos));
                p.b.extend([i as u8, panicking as u8, must_err as u8]);
                p.b.extend(if must_err { 0 } else { self.pos }.to_le_bytes());
            }
        }
    }
    pub fn rem(&mut self, p: &mut Plan, n: u64) {
        let n = if p.width == 32 { n as u32 as u64 } else { n };
        p.op(8, format!("check_remaining({n}) at {}", self.pos));
        p.b.extend(n.to_le_bytes());
        p.b.push((!self.ks.kind.seekable() || self.pos + n as u128 <= self.limit()) as u8);
    }
}

/// Largest position of a type on the target.
pub fn max(p: &Plan, ty: Ty) -> u128 {
    if ty == Ty::Usize && p.width == 32 { u32::MAX as u128 } else { ty.max() }
}

/// One core in a plan.
pub struct K {
    pub ks: Ks,
    pub pos: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum KOp {
    WriteBlock,
    WriteBlocks(usize),
    ApplyBlock,
    ApplyBlockInOut,
    ApplyBlocks(usize),
    ApplyBlocksInOut(usize),
    /// length, in place, panicking
    Partial(usize, bool, bool),
    Set(u64),
    Generate,
    /// digits: 1 block, 2 parallel, 3 + n tail of n blocks; at most `1` blocks in all
    Script(&'static [u8], usize),
}

impl K {
    pub fn new(p: &mut Plan, kind: Kind, key: &[u8], iv: &[u8], place: u8) -> K {
        p.path.clear();
        p.op(9, format!("core of {kind:?} (placement {place})"));
        p.step(format!("core of {kind:?}"));
        p.histories += 1;
        p.b.extend([index(kind), place]);
        p.blob(key);
        p.blob(iv);
        p.cost += 20_000;
        K { ks: Ks::new(kind, key, iv), pos: 0 }
    }
    pub fn mask(&self) -> u64 {
        if self.ks.kind.ctr_bits() == Some(32) { u32::MAX as u64 } else { u64::MAX }
    }
    /// A script ends the history of the object (how far it goes is the backend's choice).
    pub fn run(&mut self, p: &mut Plan, op: KOp) {
        let s = format!("{op:?} at block {:#x}", self.pos);
        p.op(10, s.clone());
        p.step(s);
        let (code, arg, blocks, len, apply) = match op {
            KOp::WriteBlock => (0, 0, 1, 64, false),
            KOp::WriteBlocks(n) => (1, n as u64, n, 64 * n, false),
            KOp::ApplyBlock => (2, 0, 1, 64, true),
            KOp::ApplyBlockInOut => (3, 0, 1, 64, true),
            KOp::ApplyBlocks(n) => (4, n as u64, n, 64 * n, true),
            KOp::ApplyBlocksInOut(n) => (5, n as u64, n, 64 * n, true),
            KOp::Partial(n, i, q) => (6, n as u64 | (i as u64) << 16 | (q as u64) << 17, 0, n, true),
            KOp::Set(a) => (7, a, 0, 0, false),
            KOp::Generate => (8, 0, 4, 256, false),
            KOp::Script(d, n) => (9, d.iter().rev().fold(0, |a, &d| a << 4 | d as u64), 0, 64 * n, false),
        };
        p.b.push(code);
        p.b.extend((arg as u64).to_le_bytes());
        let fails = matches!(op, KOp::Partial(..)) && (len / 64) as u64 > self.mask() - self.pos;
        p.b.push(if fails { 1 } else { 3 * matches!(op, KOp::Script(..)) as u8 });
        let mut w = if fails { vec![] } else { self.ks.at(self.pos as u128 * 64, len) };
        if apply {
            w.iter_mut().zip(&p.data).for_each(|(k, d)| *k ^= d);
        }
        p.blob(&w);
        p.cost += 10_000 + cost(self.ks.kind, len);
        self.pos = match op {
            KOp::Set(a) => a,
            _ => self.pos.wrapping_add(blocks as u64) & self.mask(),
        };
    }
    pub fn queries(&mut self, p: &mut Plan) {
        p.op(11, format!("get_block_pos, remaining_blocks at {:#x}", self.pos));
        p.b.extend(self.pos.to_le_bytes());
        p.b.extend(((self.mask() - self.pos) as u128).to_le_bytes());
    }
}

/// One RNG in a plan.
pub struct R {
    pub m: Model,
    pub w: RefWords,
}

#[derive(Clone, Copy, Debug)]
pub enum ROp {
    U32(u8),
    U64(u8),
    /// call form, alignment, length
    Fill(u8, usize, usize),
    SetWord(u128),
    SetBlock(u64),
    SetStream(u64),
    SerDe,
}

impl R {
    pub fn new(p: &mut Plan, rng: usize, seed: [u8; 32]) -> R {
        p.path.clear();
        let r = [8, 12, 20][rng];
        p.op(12, format!("ChaCha{r}Rng::from_seed"));
        p.step(format!("ChaCha{r}Rng::from_seed"));
        p.histories += 1;
        p.b.push(rng as u8);
        p.b.extend(seed);
        R { m: Model { seed, stream: 0, pos: 0 }, w: RefWords::new(r) }
    }
    pub fn run(&mut self, p: &mut Plan, op: ROp) {
        let s = format!("{op:?} at word {:#x}", self.m.pos);
        p.op(13, s.clone());
        p.step(s);
        let m = &mut self.m;
        let (code, form, arg, words, out) = match op {
            ROp::U32(f) => (0, f, 0, 1, self.w.bytes(m, m.pos, 4)),
            ROp::U64(f) => (1, f, 0, 2, self.w.bytes(m, m.pos, 8)),
            ROp::Fill(f, a, n) => (2, f, (a as u128) << 32 | n as u128, n.div_ceil(4), self.w.bytes(m, m.pos, n)),
            ROp::SetWord(x) => {
                m.pos = x & MASK68;
                (3, 0, x, 0, vec![])
            }
            ROp::SetBlock(x) => {
                m.pos = (x as u128) << 4;
                (4, 0, x as u128, 0, vec![])
            }
            ROp::SetStream(x) => {
                m.stream = x;
                m.pos = 0;
                (5, 0, x as u128, 0, vec![])
            }
            ROp::SerDe => (6, 0, 0, 0, expected_ser(m).to_vec()),
        };
        p.b.extend([code, form]);
        p.b.extend((arg as u128).to_le_bytes());
        p.blob(&out);
        m.pos = (m.pos + words as u128) & MASK68;
        let r = self.w.rounds as u64;
        p.cost += 6_000
            + match op {
                ROp::U32(_) | ROp::U64(_) => 4 * (4_000 + 1_700 * r) / 6,
                ROp::Fill(_, _, n) => (n as u64 / 256 + 1) * 4 * (4_000 + 1_700 * r),
                _ => 4 * (4_000 + 1_700 * r),
            };
    }
    pub fn queries(&mut self, p: &mut Plan) {
        p.op(14, format!("position, stream and seed queries at word {:#x}", self.m.pos));
        p.b.extend(self.m.pos.to_le_bytes());
        p.b.extend(self.m.stream.to_le_bytes());
        p.b.extend(self.m.seed);
    }
    pub fn debug(&mut self, p: &mut Plan) {
        p.op(18, "Debug text".into());
    }
}
