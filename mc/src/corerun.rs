//! Executing block-level operations on cores and comparing them with the model (key, nonce, block position).
use crate::core::*;
use crate::kinds::{Kind, env_name};
use crate::run::{Res, Stats, Violation, diff, hx, sut};
use std::collections::HashMap;

pub struct Run<'a> {
    pub kind: Kind,
    pub env: u32,
    pub key: &'a [u8],
    pub iv: &'a [u8],
    pub memo: HashMap<u64, [u8; 64]>,
    pub data: Vec<u8>,
}

impl Run<'_> {
    pub fn mask(&self) -> u64 {
        if self.kind.ctr_bits() == Some(32) { u32::MAX as u64 } else { u64::MAX }
    }
    pub fn ks(&mut self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 64);
        let mut b = pos;
        while v.len() < n {
            let (k, key, iv) = (self.kind, self.key, self.iv);
            v.extend_from_slice(self.memo.entry(b).or_insert_with(|| k.ref_block(key, iv, b)));
            b = b.wrapping_add(1) & self.mask();
        }
        v.truncate(n);
        v
    }
    /// Execute and compare; returns the new position.
    pub fn exec(&mut self, o: &mut dyn CoreSut, pos: u64, op: &COp, st: &mut Stats) -> Result<u64, String> {
        let data = std::mem::take(&mut self.data);
        let r = o.run(op, &data);
        self.data = data;
        let got = r.map_err(|e| format!("{op:?} at block {pos:#x}: {e}"))?;
        let mut np = pos;
        let (apply, len) = match *op {
            COp::WriteBlock => (false, 64),
            COp::WriteBlocks(n) => (false, 64 * n),
            COp::ApplyBlock | COp::ApplyBlockInOut => (true, 64),
            COp::ApplyBlocks(n) | COp::ApplyBlocksInOut(n) => (true, 64 * n),
            COp::Partial(n, ..) => (true, n),
            // the width of a parallel step is the backend's choice, so its length is taken from the output
            COp::Script(ref s) => {
                let n = got.as_ref().map(|v| v.len()).unwrap_or(0);
                let min: usize = s.iter().filter(|s| !matches!(s, Step::Tail(_))).count();
                if n < 64 * min {
                    return Err(format!("{op:?} at block {pos:#x} produced only {n} bytes"));
                }
                (false, n)
            }
            COp::Set(p) => {
                np = p;
                (false, 0)
            }
            COp::Generate => (false, 256),
        };
        if let COp::Partial(..) = op {
            let rem = self.mask() - pos;
            if (len / 64) as u64 > rem {
                return match got {
                    None => Ok(pos),
                    Some(_) => Err(format!("{op:?} at block {pos:#x} must fail ({rem} blocks remain)")),
                };
            }
        }
        let Some(got) = got else { return Err(format!("{op:?} at block {pos:#x} failed")) };
        let mut want = self.ks(pos, len);
        if apply {
            want.iter_mut().zip(&self.data).for_each(|(k, d)| *k ^= d);
        }
        if got != want {
            return Err(format!("{op:?} at block {pos:#x}: {}", diff(&got, &want)));
        }
        st.bytes += len as u64;
        if !matches!(op, COp::Partial(..)) {
            np = np.wrapping_add(len as u64 / 64) & self.mask();
        }
        Ok(np)
    }
    pub fn queries(&self, o: &dyn CoreSut, pos: u64) -> Result<(), String> {
        let p = o.pos().map_err(|e| format!("get_block_pos at {pos:#x} panicked: {e}"))?;
        if p != pos {
            return Err(format!("get_block_pos returned {p:#x}, expected {pos:#x}"));
        }
        let want = usize::try_from(self.mask() - pos).ok();
        let r = o.remaining().map_err(|e| format!("remaining_blocks at {pos:#x} panicked: {e}"))?;
        if r != want {
            return Err(format!("remaining_blocks at {pos:#x} returned {r:?}, expected {want:?}"));
        }
        Ok(())
    }
    pub fn viol(&self, e: String, path: &[COp]) -> Violation {
        let mut v = Violation::new(
            format!("{:?}:{}:{path:?}", self.kind, env_name(self.env)),
            format!("{:?}/{}: {e}; history {path:?}", self.kind, env_name(self.env)),
        );
        v.replay = format!(
            "core {:?}, feature set {}, key {}, iv {}\nhistory {path:?}\n{e}",
            self.kind,
            env_name(self.env),
            hx(self.key),
            hx(self.iv)
        );
        v
    }

    /// Closure over `ops` from every position of `inside`.
    pub fn bfs(&mut self, ops: &dyn Fn(u64) -> Vec<COp>, inside: &dyn Fn(u64) -> bool) -> Res<Stats> {
        cpufeatures::set_env(self.env);
        let mut st = Stats::default();
        let (k, key, iv) = (self.kind, self.key, self.iv);
        let mk = || sut(|| make_core(k, key, iv));
        let mut o = mk().map_err(|e| self.viol(e, &[]))?;
        let mut states: Vec<(Vec<u8>, u64, usize, Option<COp>)> = vec![(o.bytes(), 0, 0, None)];
        let mut seen = HashMap::new();
        seen.insert((o.bytes(), 0), ());
        let path = |s: &Vec<(Vec<u8>, u64, usize, Option<COp>)>, mut i: usize| {
            let mut p = vec![];
            while let Some(op) = &s[i].3 {
                p.push(op.clone());
                i = s[i].2;
            }
            p.reverse();
            p
        };
        let mut i = 0;
        while i < states.len() {
            let (b, pos) = (states[i].0.clone(), states[i].1);
            o.restore(&b);
            self.queries(o.as_ref(), pos).map_err(|e| self.viol(e, &path(&states, i)))?;
            if o.bytes() != b {
                return Err(self.viol("queries changed the object".into(), &path(&states, i)));
            }
            if inside(pos) {
                for op in ops(pos) {
                    o.restore(&b);
                    let np = self.exec(o.as_mut(), pos, &op, &mut st).map_err(|e| {
                        let mut p = path(&states, i);
                        p.push(op.clone());
                        self.viol(e, &p)
                    })?;
                    st.transitions += 1;
                    let key = (o.bytes(), np);
                    if !seen.contains_key(&key) {
                        if states.len() > 60_000 {
                            if st.capped.is_empty() {
                                st.capped.push(format!("{:?}/{}: 60000 states", self.kind, env_name(self.env)));
                            }
                            continue;
                        }
                        seen.insert(key.clone(), ());
                        states.push((key.0, np, i, Some(op)));
                    }
                }
            }
            i += 1;
        }
        for i in 0..states.len() {
            let p = path(&states, i);
            let mut f = mk().map_err(|e| self.viol(e, &[]))?;
            let mut pos = 0;
            for (j, op) in p.iter().enumerate() {
                pos = self.exec(f.as_mut(), pos, op, &mut st).map_err(|e| self.viol(e, &p[..=j]))?;
            }
            // what comes next, on the real object
            for op in [COp::WriteBlocks(17), COp::ApplyBlock] {
                pos = self.exec(f.as_mut(), pos, &op, &mut st).map_err(|e| {
                    let mut p = p.clone();
                    p.push(op.clone());
                    self.viol(e, &p)
                })?;
            }
            self.queries(f.as_ref(), pos).map_err(|e| self.viol(e, &p))?;
            st.paths += 1;
            if i + 1 == states.len() {
                st.samples.push(format!("{:?}/{} {p:?}", self.kind, env_name(self.env)));
            }
        }
        st.states = states.len() as u64;
        Ok(st)
    }
}

pub fn scripts(depth: usize) -> Vec<COp> {
    let mut alphabet = vec![Step::Block, Step::Par];
    alphabet.extend([1, 2, 3, 5, 7, 8, 9, 12, 15].map(Step::Tail));
    let mut all: Vec<Vec<Step>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for s in &last {
            for &a in &alphabet {
                let mut t = s.clone();
                t.push(a);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all.into_iter().map(COp::Script).collect()
}

