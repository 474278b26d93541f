//! Explicit-state exploration of call histories of a cipher object.
//!
//! A state is the object (its bytes) together with the model state, which is one number: the stream position.
//! Every operation of the alphabet is executed on the real object from every reachable state whose position lies
//! in the explored windows; results, buffers and reported positions are compared with the model. States are
//! identified by their bytes; that only merges equal objects, no verdict depends on it. Afterwards every state's
//! history is executed again on a fresh object, without restoring memory.
use crate::kinds::*;
use crate::run::{Res, Stats, Violation, hx, sut};
use std::collections::HashMap;
use std::collections::hash_map::Entry;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Consume(Form, usize),
    /// target, type, panicking call
    Seek(u128, Ty, bool),
}

pub struct Explore<'a> {
    pub kind: Kind,
    pub env: u32,
    pub key: &'a [u8],
    pub iv: &'a [u8],
    pub windows: &'a [Window],
    /// operations tried at a position
    pub ops: &'a dyn Fn(u128) -> Vec<Op>,
    /// check_remaining arguments tried in every new state
    pub rems: &'a [usize],
    pub max_states: usize,
}

fn key_of(raw: &[u8], pos: u128) -> u128 {
    // two independent 64-bit multiply-rotate hashes; a collision could only hide a state, never raise an alarm
    let mut a = 0x9e37_79b9_7f4a_7c15u64 ^ pos as u64;
    let mut b = 0xc2b2_ae3d_27d4_eb4fu64 ^ (pos >> 64) as u64;
    let mut mix = |w: u64| {
        a = (a ^ w).wrapping_mul(0xff51_afd7_ed55_8ccd).rotate_left(29) ^ (a >> 32);
        b = (b.rotate_left(23) ^ w).wrapping_mul(0x9fb2_1c65_1e98_df25) ^ (b >> 29);
    };
    let mut it = raw.chunks_exact(8);
    for c in &mut it {
        mix(u64::from_le_bytes(c.try_into().unwrap()));
    }
    for &c in it.remainder() {
        mix(c as u64);
    }
    mix(pos as u64);
    mix((pos >> 64) as u64);
    mix(raw.len() as u64);
    (a as u128) << 64 | b as u128
}

/// Reported positions and remaining-keystream queries.
pub fn check_queries(kind: Kind, o: &dyn Sut, pos: u128, rems: &[usize]) -> Result<(), String> {
    if kind.seekable() {
        for ty in TYPES {
            for panicking in [false, true] {
                let must_err = pos > ty.max();
                let must_ok = ty == Ty::U128 || pos.checked_add(64).is_some_and(|p| p <= ty.max());
                if panicking && !must_ok {
                    continue;
                }
                match o.pos(ty, panicking) {
                    Err(m) => return Err(format!("position query as {ty:?} at {pos} panicked: {m}")),
                    Ok(Some(p)) if p != pos as i128 => {
                        return Err(format!("reported position ({ty:?}) is {p}, expected {pos}"));
                    }
                    Ok(Some(_)) if must_err => return Err(format!("position {pos} reported as {ty:?}, which cannot hold it")),
                    Ok(None) if must_ok => return Err(format!("position {pos} is not reported as {ty:?}")),
                    _ => {}
                }
            }
        }
    }
    for &n in rems {
        let want = !kind.seekable() || pos + n as u128 <= kind.limit();
        match o.check_remaining(n) {
            Err(m) => return Err(format!("check_remaining({n}) at position {pos} panicked: {m}")),
            Ok(r) if r != want => return Err(format!("check_remaining({n}) at position {pos} says {r}, expected {want}")),
            _ => {}
        }
    }
    Ok(())
}

impl Explore<'_> {
    fn window(&self, pos: u128, n: usize) -> Option<&Window> {
        self.windows.iter().find(|w| w.contains(pos, n))
    }
    fn limit(&self) -> u128 {
        if self.kind.seekable() { self.kind.limit() } else { u128::MAX }
    }

    /// Execute `op` on `o` at `pos`. `None`: not applicable here. `Some(new position)`.
    fn exec(&self, o: &mut dyn Sut, pos: u128, op: Op) -> Result<Option<(u128, usize)>, String> {
        match op {
            Op::Consume(form, n) => {
                let ok = pos + n as u128 <= self.limit();
                if ok {
                    let Some(w) = self.window(pos, n) else { return Ok(None) };
                    check_consume(o, form, pos, n, w.at(pos, n), true)?;
                    Ok(Some((pos + n as u128, n)))
                } else {
                    if !form.checked() {
                        return Ok(None);
                    }
                    check_consume(o, form, pos, n, &[], false)?;
                    Ok(Some((pos, 0)))
                }
            }
            Op::Seek(p, ty, panicking) => {
                if p > ty.max() {
                    return Ok(None);
                }
                let ok = p <= self.limit();
                let r = o.seek(ty, p, panicking);
                let good = match (&r, ok) {
                    (Out::Ok, true) => true,
                    (Out::Err, false) => !panicking,
                    (Out::Panic(m), false) => panicking && m.contains("bigger than keystream length"),
                    _ => false,
                };
                if !good {
                    return Err(format!("seek to {p} as {ty:?} (from {pos}): expected {}, got {r:?}", if ok { "success" } else { "refusal" }));
                }
                Ok(Some((if ok { p } else { pos }, 0)))
            }
        }
    }

    fn describe(&self, path: &[Op]) -> String {
        format!(
            "cipher: {:?}\nfeature set: {}\nkey: {}\niv: {}\nhistory from a fresh object:\n{}",
            self.kind,
            env_name(self.env),
            hx(self.key),
            hx(self.iv),
            path.iter().map(|o| format!("  {o:?}\n")).collect::<String>()
        )
    }

    fn violation(&self, what: String, path: Vec<Op>) -> Violation {
        let mut v = Violation::new(format!("{:?}:{}:{path:?}", self.kind, env_name(self.env)), format!("{:?}/{}: {what}", self.kind, env_name(self.env)));
        if path.len() > 1 {
            v.what += &format!(" after {:?}", &path[..path.len() - 1]);
        }
        v.replay = self.describe(&path);
        v
    }

    pub fn run(&self) -> Res<Stats> {
        cpufeatures::set_env(self.env);
        let mut st = Stats::default();
        let mk = || sut(|| self.kind.make(self.key, self.iv));
        let mut o = mk().map_err(|m| self.violation(format!("construction panicked: {m}"), vec![]))?;
        let init = o.bytes();
        // index, position, raw, parent, op
        let mut states: Vec<(u128, Vec<u8>, usize, Option<Op>)> = vec![];
        let mut seen: HashMap<u128, ()> = HashMap::new();
        seen.insert(key_of(&init, 0), ());
        states.push((0, init, 0, None));
        let path = |states: &Vec<(u128, Vec<u8>, usize, Option<Op>)>, mut i: usize, last: Option<Op>| -> Vec<Op> {
            let mut p: Vec<Op> = last.into_iter().collect();
            while let Some(op) = states[i].3 {
                p.push(op);
                i = states[i].2;
            }
            p.reverse();
            p
        };
        let mut i = 0;
        while i < states.len() {
            let (pos, raw) = (states[i].0, std::mem::take(&mut states[i].1));
            o.restore(&raw);
            check_queries(self.kind, o.as_ref(), pos, self.rems).map_err(|e| self.violation(e, path(&states, i, None)))?;
            if o.bytes() != raw {
                return Err(self.violation("queries changed the object".into(), path(&states, i, None)));
            }
            for op in (self.ops)(pos) {
                o.restore(&raw);
                match self.exec(o.as_mut(), pos, op) {
                    Err(e) => return Err(self.violation(e, path(&states, i, Some(op)))),
                    Ok(None) => continue,
                    Ok(Some((np, n))) => {
                        st.transitions += 1;
                        st.bytes += n as u64;
                        let b = o.bytes();
                        if let Entry::Vacant(e) = seen.entry(key_of(&b, np)) {
                            if states.len() >= self.max_states {
                                if st.capped.is_empty() {
                                    st.capped.push(format!("{:?}/{}: {} states", self.kind, env_name(self.env), self.max_states));
                                }
                                continue;
                            }
                            e.insert(());
                            states.push((np, b, i, Some(op)));
                        }
                    }
                }
            }
            i += 1;
        }
        // histories again, each on a fresh object
        let mut deepest: Vec<Op> = vec![];
        for i in 0..states.len() {
            let p = path(&states, i, None);
            let mut f = mk().map_err(|m| self.violation(format!("construction panicked: {m}"), vec![]))?;
            let mut pos = 0;
            for (k, &op) in p.iter().enumerate() {
                match self.exec(f.as_mut(), pos, op) {
                    Ok(Some((np, _))) => pos = np,
                    Ok(None) => unreachable!(),
                    Err(e) => return Err(self.violation(e, p[..=k].to_vec())),
                }
            }
            check_queries(self.kind, f.as_ref(), pos, &[]).map_err(|e| self.violation(e, p.clone()))?;
            if p.len() > deepest.len() {
                deepest = p;
            }
            st.paths += 1;
        }
        st.states = states.len() as u64;
        st.samples.push(format!("{:?}/{} {:?}", self.kind, env_name(self.env), deepest));
        st.note("max_history_length", deepest.len() as u64);
        Ok(st)
    }
}
