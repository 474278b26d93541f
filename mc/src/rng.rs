//! The RNGs of the chacha20 crate behind one interface, and their reference model.
use crate::kinds::{raw, set_raw};
use crate::refs;
use crate::run::{Res, Stats, Violation, diff, hx, sut};
use chacha20::rand_core::{Rng, SeedableRng, TryRng};
use std::any::Any;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RngKind {
    R8,
    R12,
    R20,
}
pub const RNGS: [RngKind; 3] = [RngKind::R8, RngKind::R12, RngKind::R20];
pub const MASK68: u128 = (1 << 68) - 1;

impl RngKind {
    pub fn rounds(self) -> u32 {
        match self {
            RngKind::R8 => 8,
            RngKind::R12 => 12,
            RngKind::R20 => 20,
        }
    }
    pub fn make(self, seed: [u8; 32]) -> Box<dyn RngSut> {
        match self {
            RngKind::R8 => Box::new(chacha20::ChaCha8Rng::from_seed(seed)),
            RngKind::R12 => Box::new(chacha20::ChaCha12Rng::from_seed(seed)),
            RngKind::R20 => Box::new(chacha20::ChaCha20Rng::from_seed(seed)),
        }
    }
    pub fn deserialize(self, s: &[u8; 49]) -> Result<Box<dyn RngSut>, String> {
        sut(|| -> Box<dyn RngSut> {
            match self {
                RngKind::R8 => Box::new(chacha20::ChaCha8Rng::deserialize_state(s)),
                RngKind::R12 => Box::new(chacha20::ChaCha12Rng::deserialize_state(s)),
                RngKind::R20 => Box::new(chacha20::ChaCha20Rng::deserialize_state(s)),
            }
        })
    }
}

/// All operations return `Err(panic message)` if the code under test panics.
pub trait RngSut: Send {
    /// `form` 0: `Rng::next_u32`, 1: `TryRng::try_next_u32`
    fn u32(&mut self, form: u8) -> Result<u32, String>;
    fn u64(&mut self, form: u8) -> Result<u64, String>;
    fn fill(&mut self, form: u8, out: &mut [u8]) -> Result<(), String>;
    fn word_pos(&self) -> Result<u128, String>;
    fn set_word_pos(&mut self, p: u128) -> Result<(), String>;
    fn block_pos(&self) -> Result<u64, String>;
    fn set_block_pos(&mut self, p: u64) -> Result<(), String>;
    fn stream(&self) -> Result<u64, String>;
    fn set_stream(&mut self, s: u64) -> Result<(), String>;
    fn seed(&self) -> Result<[u8; 32], String>;
    fn ser(&self) -> Result<[u8; 49], String>;
    fn eq(&self, o: &dyn RngSut) -> Result<bool, String>;
    fn debug(&self) -> Result<[String; 2], String>;
    fn bytes(&self) -> Vec<u8>;
    fn restore(&mut self, raw: &[u8]);
    fn any(&self) -> &dyn Any;
}

macro_rules! imp {
    ($t:ty) => {
        impl RngSut for $t {
            fn u32(&mut self, form: u8) -> Result<u32, String> {
                sut(|| if form == 0 { self.next_u32() } else { self.try_next_u32().unwrap() })
            }
            fn u64(&mut self, form: u8) -> Result<u64, String> {
                sut(|| if form == 0 { self.next_u64() } else { self.try_next_u64().unwrap() })
            }
            fn fill(&mut self, form: u8, out: &mut [u8]) -> Result<(), String> {
                sut(|| if form == 0 { self.fill_bytes(out) } else { self.try_fill_bytes(out).unwrap() })
            }
            fn word_pos(&self) -> Result<u128, String> {
                sut(|| self.get_word_pos())
            }
            fn set_word_pos(&mut self, p: u128) -> Result<(), String> {
                sut(|| self.set_word_pos(p))
            }
            fn block_pos(&self) -> Result<u64, String> {
                sut(|| self.get_block_pos())
            }
            fn set_block_pos(&mut self, p: u64) -> Result<(), String> {
                sut(|| self.set_block_pos(p))
            }
            fn stream(&self) -> Result<u64, String> {
                sut(|| self.get_stream())
            }
            fn set_stream(&mut self, s: u64) -> Result<(), String> {
                sut(|| self.set_stream(s))
            }
            fn seed(&self) -> Result<[u8; 32], String> {
                sut(|| self.get_seed())
            }
            fn ser(&self) -> Result<[u8; 49], String> {
                sut(|| self.serialize_state())
            }
            fn eq(&self, o: &dyn RngSut) -> Result<bool, String> {
                let o = o.any().downcast_ref::<$t>().expect("same type");
                sut(|| {
                    let e = self == o;
                    assert_eq!(e, !(self != o), "== and != disagree");
                    e
                })
            }
            fn debug(&self) -> Result<[String; 2], String> {
                sut(|| [format!("{self:?}"), format!("{self:#?}")])
            }
            fn bytes(&self) -> Vec<u8> {
                raw(self)
            }
            fn restore(&mut self, b: &[u8]) {
                set_raw(self, b)
            }
            fn any(&self) -> &dyn Any {
                self
            }
        }
    };
}
imp!(chacha20::ChaCha8Rng);
imp!(chacha20::ChaCha12Rng);
imp!(chacha20::ChaCha20Rng);

/// Reference model: seed, stream, and the position in words modulo 2^68. Nothing else.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Model {
    pub seed: [u8; 32],
    pub stream: u64,
    pub pos: u128,
}

/// Memo of reference blocks.
#[derive(Default)]
pub struct RefWords {
    pub rounds: u32,
    blocks: HashMap<([u8; 32], u64, u64), [u32; 16]>,
    last: Option<(([u8; 32], u64, u64), [u32; 16])>,
}

impl RefWords {
    pub fn new(rounds: u32) -> Self {
        RefWords { rounds, ..Default::default() }
    }
    pub fn word(&mut self, m: &Model, pos: u128) -> u32 {
        let pos = pos & MASK68;
        let k = (m.seed, m.stream, (pos / 16) as u64);
        let i = (pos % 16) as usize;
        if let Some((l, b)) = &self.last {
            if *l == k {
                return b[i];
            }
        }
        let rounds = self.rounds;
        let blk = *self.blocks.entry(k).or_insert_with(|| {
            let b = refs::chacha_djb_block(&m.seed, &m.stream.to_le_bytes(), k.2, rounds);
            std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()))
        });
        self.last = Some((k, blk));
        blk[i]
    }
    /// `n` bytes from word position `pos`.
    pub fn bytes(&mut self, m: &Model, pos: u128, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 3);
        for i in 0..n.div_ceil(4) {
            v.extend_from_slice(&self.word(m, pos.wrapping_add(i as u128)).to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum RngOp {
    U32(u8),
    U64(u8),
    Fill(u8, usize),
    SetWord(u128),
    SetBlock(u64),
    SetStream(u64),
    /// serialize, deserialize, continue with the new object
    SerDe,
    /// queries only
    Query,
}

/// Apply one operation to object and model; compare everything observable afterwards.
pub fn step(
    k: RngKind,
    obj: &mut Box<dyn RngSut>,
    m: &mut Model,
    op: RngOp,
    rw: &mut RefWords,
) -> Result<u64, String> {
    let e = |r: String| format!("{op:?} panicked: {r}");
    let mut bytes = 0;
    match op {
        RngOp::U32(f) => {
            let want = rw.word(m, m.pos);
            let got = obj.u32(f).map_err(e)?;
            if got != want {
                return Err(format!("next_u32 at word {:#x}: {got:#010x}, expected {want:#010x}", m.pos));
            }
            m.pos = (m.pos + 1) & MASK68;
            bytes = 4;
        }
        RngOp::U64(f) => {
            let want = rw.word(m, m.pos) as u64 | (rw.word(m, m.pos + 1) as u64) << 32;
            let got = obj.u64(f).map_err(e)?;
            if got != want {
                return Err(format!("next_u64 at word {:#x}: {got:#018x}, expected {want:#018x}", m.pos));
            }
            m.pos = (m.pos + 2) & MASK68;
            bytes = 8;
        }
        RngOp::Fill(f, n) => {
            let mut out = vec![0x5au8; n + 16];
            obj.fill(f, &mut out[8..8 + n]).map_err(e)?;
            let want = rw.bytes(m, m.pos, n);
            if out[8..8 + n] != want[..] {
                return Err(format!("fill_bytes({n}) at word {:#x}: {}", m.pos, diff(&out[8..8 + n], &want)));
            }
            if out[..8].iter().chain(&out[8 + n..]).any(|&b| b != 0x5a) {
                return Err(format!("fill_bytes({n}) wrote outside its buffer"));
            }
            m.pos = (m.pos + n.div_ceil(4) as u128) & MASK68;
            bytes = n as u64;
        }
        RngOp::SetWord(p) => {
            obj.set_word_pos(p).map_err(e)?;
            m.pos = p & MASK68;
        }
        RngOp::SetBlock(b) => {
            obj.set_block_pos(b).map_err(e)?;
            m.pos = (b as u128) << 4;
        }
        RngOp::SetStream(s) => {
            obj.set_stream(s).map_err(e)?;
            m.stream = s;
            m.pos = 0;
        }
        RngOp::SerDe => {
            let s = obj.ser().map_err(e)?;
            *obj = k.deserialize(&s).map_err(e)?;
        }
        RngOp::Query => {}
    }
    Ok(bytes)
}

pub fn expected_ser(m: &Model) -> [u8; 49] {
    let mut s = [0u8; 49];
    s[..32].copy_from_slice(&m.seed);
    s[32..40].copy_from_slice(&m.stream.to_le_bytes());
    s[40..].copy_from_slice(&m.pos.to_le_bytes()[..9]);
    s
}

/// Position, stream and seed queries.
pub fn check_queries(obj: &dyn RngSut, m: &Model) -> Result<(), String> {
    let e = |q: &str, r: String| format!("{q} at word {:#x} panicked: {r}", m.pos);
    let w = obj.word_pos().map_err(|r| e("get_word_pos", r))?;
    if w != m.pos {
        return Err(format!("get_word_pos returned {w:#x}, expected {:#x}", m.pos));
    }
    let b = obj.block_pos().map_err(|r| e("get_block_pos", r))?;
    if b != (m.pos >> 4) as u64 {
        return Err(format!("get_block_pos returned {b:#x}, expected {:#x} (word position {:#x})", m.pos >> 4, m.pos));
    }
    let s = obj.stream().map_err(|r| e("get_stream", r))?;
    if s != m.stream {
        return Err(format!("get_stream returned {s:#x}, expected {:#x}", m.stream));
    }
    let s = obj.seed().map_err(|r| e("get_seed", r))?;
    if s != m.seed {
        return Err(format!("get_seed returned {s:02x?}, expected {:02x?}", m.seed));
    }
    Ok(())
}

/// What an exploration looks at in every new state.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Look {
    Outputs,
    Queries,
    Ser,
}

/// Breadth-first exploration of RNG call histories. State: bytes of the object and the model.
pub struct RngExplore<'a> {
    pub k: RngKind,
    pub env: u32,
    pub seed: [u8; 32],
    pub ops: &'a dyn Fn(&Model) -> Vec<RngOp>,
    /// states whose model leaves this set are checked but not expanded
    pub inside: &'a dyn Fn(&Model) -> bool,
    pub look: Look,
    pub max_states: usize,
}

pub struct RngState {
    pub raw: Vec<u8>,
    pub m: Model,
    parent: usize,
    op: Option<RngOp>,
}

/// Serialization of one object: the expected bytes, and a faithful copy.
pub fn check_ser(k: RngKind, o: &dyn RngSut, m: &Model, rw: &mut RefWords) -> Result<(), String> {
    let s = o.ser().map_err(|e| format!("serialize_state at word {:#x} panicked: {e}", m.pos))?;
    let want = expected_ser(m);
    if s != want {
        return Err(format!("serialized state at word {:#x}: {}", m.pos, diff(&s, &want)));
    }
    let mut c = k.deserialize(&s).map_err(|e| format!("deserialize_state of {} panicked: {e}", hx(&s)))?;
    if !o.eq(c.as_ref())? || !c.eq(o)? {
        return Err(format!("the deserialized RNG does not compare equal to the original (word {:#x})", m.pos));
    }
    check_queries(c.as_ref(), m).map_err(|e| format!("deserialized RNG: {e}"))?;
    let s2 = c.ser()?;
    if s2 != s {
        return Err(format!("serializing again: {}", diff(&s2, &s)));
    }
    let mut m2 = m.clone();
    for op in [RngOp::U64(0), RngOp::U32(0), RngOp::Fill(0, 270), RngOp::U64(0)] {
        step(k, &mut c, &mut m2, op, rw).map_err(|e| format!("deserialized RNG: {e}"))?;
    }
    Ok(())
}

impl RngExplore<'_> {
    pub fn violation(&self, what: String, path: &[RngOp]) -> Violation {
        let env = crate::kinds::env_name(self.env);
        let mut v = Violation::new(format!("{:?}:{env}:{path:?}", self.k), format!("{:?}/{env}: {what}", self.k));
        if path.len() > 1 {
            v.what += &format!(" after {:?}", &path[..path.len() - 1]);
        }
        v.replay = format!(
            "rng: {:?}\nfeature set: {env}\nseed: {}\nhistory from from_seed:\n{}",
            self.k,
            hx(&self.seed),
            path.iter().map(|o| format!("  {o:?}\n")).collect::<String>()
        );
        v
    }

    pub fn path(&self, states: &[RngState], mut i: usize, last: Option<RngOp>) -> Vec<RngOp> {
        let mut p: Vec<RngOp> = last.into_iter().collect();
        while let Some(op) = states[i].op {
            p.push(op);
            i = states[i].parent;
        }
        p.reverse();
        p
    }

    fn look(&self, o: &dyn RngSut, m: &Model, rw: &mut RefWords) -> Result<(), String> {
        match self.look {
            Look::Outputs => Ok(()),
            Look::Queries => check_queries(o, m),
            Look::Ser => check_ser(self.k, o, m, rw),
        }
    }

    pub fn run(&self) -> Res<(Stats, Vec<RngState>)> {
        cpufeatures::set_env(self.env);
        let mut st = Stats::default();
        let mut rw = RefWords::new(self.k.rounds());
        let mk = || sut(|| self.k.make(self.seed));
        let mut o = mk().map_err(|e| self.violation(format!("from_seed panicked: {e}"), &[]))?;
        let m = Model { seed: self.seed, stream: 0, pos: 0 };
        let mut states = vec![RngState { raw: o.bytes(), m, parent: 0, op: None }];
        let mut seen: HashMap<(Vec<u8>, u64, u128), ()> = HashMap::new();
        seen.insert((states[0].raw.clone(), 0, 0), ());
        let mut i = 0;
        while i < states.len() {
            let (raw, m) = (states[i].raw.clone(), states[i].m.clone());
            o.restore(&raw);
            self.look(o.as_ref(), &m, &mut rw).map_err(|e| self.violation(e, &self.path(&states, i, None)))?;
            if o.bytes() != raw {
                return Err(self.violation("queries changed the object".into(), &self.path(&states, i, None)));
            }
            if (self.inside)(&m) {
                for op in (self.ops)(&m) {
                    o.restore(&raw);
                    let mut m2 = m.clone();
                    match step(self.k, &mut o, &mut m2, op, &mut rw) {
                        Err(e) => return Err(self.violation(e, &self.path(&states, i, Some(op)))),
                        Ok(n) => {
                            st.transitions += 1;
                            st.bytes += n;
                            let key = (o.bytes(), m2.stream, m2.pos);
                            if !seen.contains_key(&key) {
                                if states.len() >= self.max_states {
                                    if st.capped.is_empty() {
                                        st.capped.push(format!("{:?}/{}: {} states", self.k, crate::kinds::env_name(self.env), self.max_states));
                                    }
                                    continue;
                                }
                                seen.insert(key.clone(), ());
                                states.push(RngState { raw: key.0, m: m2, parent: i, op: Some(op) });
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        let mut deepest = vec![];
        for i in 0..states.len() {
            let p = self.path(&states, i, None);
            let mut f = mk().map_err(|e| self.violation(format!("from_seed panicked: {e}"), &[]))?;
            let mut m = states[0].m.clone();
            for (j, &op) in p.iter().enumerate() {
                step(self.k, &mut f, &mut m, op, &mut rw).map_err(|e| self.violation(e, &p[..=j]))?;
            }
            self.look(f.as_ref(), &m, &mut rw).map_err(|e| self.violation(e, &p))?;
            // later output of the state, drawn from the real object
            let n = RngOp::Fill(1, 4 * 70);
            step(self.k, &mut f, &mut m, n, &mut rw).map_err(|e| {
                let mut q = p.clone();
                q.push(n);
                self.violation(e, &q)
            })?;
            if p.len() > deepest.len() {
                deepest = p;
            }
            st.paths += 1;
        }
        st.states = states.len() as u64;
        st.samples.push(format!("{:?}/{} {deepest:?}", self.k, crate::kinds::env_name(self.env)));
        st.note("max_history_length", deepest.len() as u64);
        Ok((st, states))
    }
}
