//! C10: encryption is XOR with the keystream, confined to the caller's buffers.
use chacha20::rand_core::{Rng, SeedableRng};
use cipher::array::Array;
use cipher::consts::U64;
use cipher::{BlockSizeUser, InOutBuf, KeyIvInit, StreamCipherCore, StreamCipherSeekCore};
use mc::alpha::few;
use mc::arena::{Arena, CANARY};
use mc::core::{Blk, CoreOf};
use mc::kinds::*;
use mc::run::*;

fn pat(i: usize) -> u8 {
    ((i as u64 + 11).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8
}

struct Case {
    kind: Kind,
    sut: Box<dyn Sut>,
    /// object positioned at each start
    at: Vec<(u128, Vec<u8>)>,
    w: Window,
    key: Vec<u8>,
    iv: Vec<u8>,
}

fn case(kind: Kind, mask: u32, starts: &[u128], span: usize) -> Res<Case> {
    cpufeatures::set_env(mask);
    let (key, iv) = few(kind.klen(), kind.ivlen(), 1).remove(0);
    let mut s = kind.make(&key, &iv);
    let init = s.bytes();
    let last = *starts.last().unwrap();
    let w = kind.window(&key, &iv, 0, last as usize + span);
    let mut at = vec![];
    for &p in starts {
        s.restore(&init);
        if p > 0 {
            // reach the position by consuming, so that the buffer of the object is in use
            let mut o = vec![0; p as usize];
            if s.consume(Form::TryApply, &[], &mut o) != Out::Ok {
                return Err(Violation::new(format!("start:{kind:?}"), format!("cannot consume {p} bytes from the start")));
            }
        }
        at.push((p, s.bytes()));
    }
    Ok(Case { kind, sut: s, at, w, key, iv })
}

impl Case {
    fn err(&self, form: Form, p: u128, n: usize, what: String) -> Violation {
        let mut v = Violation::new(
            format!("{:?}:{form:?}:{p}:{n}", self.kind),
            format!("{:?}, {form:?} of {n} bytes at position {p}: {what}", self.kind),
        );
        v.replay = format!("env={} key={} iv={}", env_name(cpufeatures::env()), hx(&self.key), hx(&self.iv));
        v
    }

    /// One call; input at `io` of the read-only arena, output at `oo` of the canary-filled arena.
    fn call(&mut self, at: usize, form: Form, n: usize, a_in: &Arena, io: usize, a_out: &mut Arena, oo: usize) -> Res<()> {
        let p = self.at[at].0;
        let raw = std::mem::take(&mut self.at[at].1);
        self.sut.restore(&raw);
        self.at[at].1 = raw;
        let inp = a_in.at(io, n);
        let out = a_out.at_mut(oo, n);
        if form.in_place() {
            out.copy_from_slice(inp);
        }
        let r = self.sut.consume(form, if form.in_place() || form.is_write() { &[] } else { inp }, out);
        if r != Out::Ok {
            return Err(self.err(form, p, n, format!("the call did not succeed: {r:?}")));
        }
        let ks = self.w.at(p, n);
        let bad = if form.is_write() { (0..n).find(|&i| out[i] != ks[i]) } else { (0..n).find(|&i| out[i] != inp[i] ^ ks[i]) };
        if let Some(i) = bad {
            let e = format!("byte {i} is {:02x}; data {:02x}, keystream {:02x}", out[i], inp[i], ks[i]);
            return Err(self.err(form, p, n, e));
        }
        out.fill(CANARY);
        if let Some(i) = a_out.damaged(oo, n) {
            let e = format!("wrote outside its output: at offset {}", i as i64 - oo as i64);
            a_out.at_mut(0, a_out.len).fill(CANARY);
            return Err(self.err(form, p, n, e));
        }
        Ok(())
    }
}

/// Every length, ending at an inaccessible page and starting after one.
fn bounds(kind: Kind, mask: u32, max: usize, starts: &[u128]) -> Res<Stats> {
    let mut c = case(kind, mask, starts, max)?;
    let mut a_in = Arena::new(max, pat);
    a_in.read_only();
    let mut a_out = Arena::new(max, |_| CANARY);
    let mut st = Stats::default();
    for at in 0..c.at.len() {
        for n in 0..=max {
            for form in FORMS {
                for (io, oo) in [(a_in.len - n, a_out.len - n), (0, 0)] {
                    c.call(at, form, n, &a_in, io, &mut a_out, oo)?;
                    st.evals += 1;
                    st.bytes += n as u64;
                }
            }
            st.distinct += 1;
        }
    }
    st.outcomes.insert("confined".into());
    st.samples.push(format!("{kind:?}/{}: {} calls between guard pages, lengths 0..={max}", env_name(mask), st.evals));
    Ok(st)
}

/// Every pair of alignments of input and output.
fn alignments(kind: Kind, mask: u32, lens: &[usize], starts: &[u128]) -> Res<Stats> {
    let max = *lens.iter().max().unwrap();
    let mut c = case(kind, mask, starts, max)?;
    let mut a_in = Arena::new(max + 64, pat);
    a_in.read_only();
    let mut a_out = Arena::new(max + 64, |_| CANARY);
    let mut st = Stats::default();
    for at in 0..c.at.len() {
        for &n in lens {
            for oo in 0..64 {
                for io in 0..64 {
                    let forms: &[Form] = if io == 0 { &FORMS } else { &[Form::TryB2b, Form::UncheckedInOut] };
                    for &form in forms {
                        c.call(at, form, n, &a_in, io, &mut a_out, oo)?;
                        st.evals += 1;
                        st.bytes += n as u64;
                    }
                    st.distinct += 1;
                }
            }
        }
    }
    st.outcomes.insert("confined".into());
    Ok(st)
}

/// Every value of every data byte; applying twice restores.
fn values(kind: Kind, mask: u32, lens: &[usize], starts: &[u128]) -> Res<Stats> {
    let max = *lens.iter().max().unwrap();
    let mut c = case(kind, mask, starts, max)?;
    let mut st = Stats::default();
    for at in 0..c.at.len() {
        for v in 0..=256usize {
            let a_in = Arena::new(max, |i| if v == 256 { pat(i) } else { v as u8 });
            let mut a_out = Arena::new(max, |_| CANARY);
            for &n in lens {
                for form in [Form::TryApply, Form::UncheckedApply, Form::TryB2b, Form::TryInOut, Form::InOutSame] {
                    c.call(at, form, n, &a_in, 0, &mut a_out, 0)?;
                    st.evals += 1;
                    st.bytes += n as u64;
                }
                // twice at the same position
                let mut d = a_in.at(0, n).to_vec();
                let (p, raw) = c.at[at].clone();
                for _ in 0..2 {
                    c.sut.restore(&raw);
                    c.sut.consume(Form::TryApply, &[], &mut d);
                }
                if d != a_in.at(0, n) {
                    return Err(c.err(Form::TryApply, p, n, "applying twice at the same position did not restore the data".into()));
                }
                st.evals += 1;
            }
            st.distinct += max as u64;
        }
    }
    st.outcomes.insert("xor".into());
    Ok(st)
}

/// Every pair of unequal lengths: refused, nothing written, position and later output unchanged.
fn unequal(kind: Kind, mask: u32, max: usize, starts: &[u128]) -> Res<Stats> {
    let mut c = case(kind, mask, starts, max + 200)?;
    let mut a_in = Arena::new(max, pat);
    a_in.read_only();
    let mut a_out = Arena::new(max, |_| CANARY);
    let mut st = Stats::default();
    for at in 0..c.at.len() {
        let (p, raw) = c.at[at].clone();
        for n in 0..=max {
            for m in 0..=max {
                if n == m {
                    continue;
                }
                // B2b (the panicking form) unwinds on every case: only near the diagonal and the edges
                let forms: &[Form] = if n.abs_diff(m) == 1 || n.min(m) == 0 {
                    &[Form::TryB2b, Form::UncheckedB2b, Form::B2b]
                } else {
                    &[Form::TryB2b, Form::UncheckedB2b]
                };
                for &form in forms {
                    c.sut.restore(&raw);
                    let (io, oo) = (a_in.len - n, a_out.len - m);
                    let r = c.sut.consume(form, a_in.at(io, n), a_out.at_mut(oo, m));
                    let ok = match r {
                        Out::Err => !form.panics(),
                        Out::Panic(ref e) => form.panics() && e.contains("are not equal"),
                        Out::Ok => false,
                    };
                    if !ok {
                        return Err(c.err(form, p, n, format!("output of {m} bytes: expected a refusal, got {r:?}")));
                    }
                    if a_out.damaged(0, 0).is_some() {
                        return Err(c.err(form, p, n, format!("output of {m} bytes: refused but wrote to the buffer")));
                    }
                    if c.sut.bytes() != raw {
                        // the object changed: it must not be observable
                        let mut o = vec![0; 200];
                        c.sut.consume(Form::TryWrite, &[], &mut o);
                        if o != c.w.at(p, 200) {
                            return Err(c.err(form, p, n, format!("output of {m} bytes: refused but later output changed")));
                        }
                    }
                    st.evals += 1;
                }
                st.distinct += 1;
            }
        }
    }
    st.outcomes.insert("refused".into());
    Ok(st)
}

fn as_blocks(s: &[u8]) -> &[Blk] {
    // Array<u8, 64> has alignment 1 and no padding
    assert_eq!((size_of::<Blk>(), align_of::<Blk>()), (64, 1));
    unsafe { std::slice::from_raw_parts(s.as_ptr().cast(), s.len() / 64) }
}
fn as_blocks_mut(s: &mut [u8]) -> &mut [Blk] {
    unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr().cast(), s.len() / 64) }
}

/// Block-level calls between guard pages, at every alignment.
fn cores<W: CoreOf>(kind: Kind, mask: u32, max: usize) -> Res<Stats>
where
    W::C: StreamCipherSeekCore + BlockSizeUser<BlockSize = U64> + KeyIvInit,
{
    cpufeatures::set_env(mask);
    let (key, iv) = few(kind.klen(), kind.ivlen(), 1).remove(0);
    let mut core = W::C::new(&Array::try_from(&key[..]).unwrap(), &Array::try_from(&iv[..]).unwrap());
    let init = raw(&core);
    let w = kind.window(&key, &iv, 0, 64 * max);
    let mut a_in = Arena::new(64 * max + 64, pat);
    a_in.read_only();
    let mut a_out = Arena::new(64 * max + 64, |_| CANARY);
    let mut st = Stats::default();
    for n in 0..=max {
        let l = 64 * n;
        let mut offs: Vec<usize> = (0..64).collect();
        offs.push(a_out.len - l);
        for &oo in &offs {
            let io = if oo < 64 { (oo * 29 + n) % 64 } else { a_in.len - l };
            for form in 0..if n == 1 { 7 } else { 5 } {
                set_raw(&mut core, &init);
                let inp = a_in.at(io, l);
                let out = a_out.at_mut(oo, l);
                if form == 1 || form == 4 || form == 6 {
                    out.copy_from_slice(inp);
                }
                let r = sut(|| match form {
                    0 => core.write_keystream_blocks(as_blocks_mut(out)),
                    1 => core.apply_keystream_blocks(as_blocks_mut(out)),
                    2 => core.apply_keystream_blocks_inout(InOutBuf::new(as_blocks(inp), as_blocks_mut(out)).unwrap()),
                    3 => {
                        let c = unsafe { std::ptr::read(&core) };
                        c.apply_keystream_partial(InOutBuf::new(inp, out).unwrap());
                    }
                    4 => {
                        let c = unsafe { std::ptr::read(&core) };
                        c.apply_keystream_partial(InOutBuf::from(&mut *out));
                    }
                    5 => core.write_keystream_block(&mut as_blocks_mut(out)[0]),
                    _ => core.apply_keystream_block_inout((&mut as_blocks_mut(out)[0]).into()),
                });
                let ks = w.at(0, l);
                let write = form == 0 || form == 5;
                let bad = (0..l).find(|&i| out[i] != if write { ks[i] } else { inp[i] ^ ks[i] });
                let what = match (r, bad) {
                    (Err(e), _) => Some(format!("panicked: {e}")),
                    (_, Some(i)) => Some(format!("byte {i} is {:02x}; data {:02x}, keystream {:02x}", out[i], inp[i], ks[i])),
                    _ => {
                        out.fill(CANARY);
                        a_out.damaged(oo, l).map(|i| format!("wrote outside its output: at offset {}", i as i64 - oo as i64))
                    }
                };
                if let Some(e) = what {
                    return Err(Violation::new(
                        format!("core:{kind:?}:{form}:{n}"),
                        format!("core of {kind:?}, block-level form {form} of {n} blocks: {e}"),
                    ));
                }
                st.evals += 1;
                st.bytes += l as u64;
            }
            st.distinct += 1;
        }
    }
    st.outcomes.insert("confined".into());
    Ok(st)
}

/// Filling bytes from an RNG writes the slice and nothing else.
fn rng_fill<R: Rng + SeedableRng<Seed = [u8; 32]>>(name: &str, mask: u32, max: usize) -> Res<Stats> {
    cpufeatures::set_env(mask);
    let mut all = vec![0u8; max + 1024];
    let mk = || R::from_seed(std::array::from_fn(|i| i as u8 * 7));
    let mut g = mk();
    for c in all.chunks_mut(4) {
        c.copy_from_slice(&g.next_u32().to_le_bytes()[..c.len()]);
    }
    let mut a = Arena::new(max + 64, |_| CANARY);
    let mut st = Stats::default();
    for drawn in 0..70 {
        let mut g = mk();
        for _ in 0..drawn {
            g.next_u32();
        }
        let at = raw(&g);
        for n in 0..=max {
            for oo in [a.len - n, 0, 1 + n % 63] {
                let out = a.at_mut(oo, n);
                set_raw(&mut g, &at);
                let r = sut(|| g.fill_bytes(out));
                let want = &all[4 * drawn..4 * drawn + n];
                let what = match r {
                    Err(e) => Some(format!("panicked: {e}")),
                    Ok(()) if out != want => Some("differs from the sequence of 32-bit draws".into()),
                    Ok(()) => {
                        out.fill(CANARY);
                        a.damaged(oo, n).map(|i| format!("wrote outside its output: at offset {}", i as i64 - oo as i64))
                    }
                };
                if let Some(e) = what {
                    return Err(Violation::new(
                        format!("rng:{name}:{drawn}:{n}"),
                        format!("{name}, fill_bytes of {n} bytes after {drawn} words: {e}"),
                    ));
                }
                st.evals += 1;
                st.bytes += n as u64;
            }
            st.distinct += 1;
        }
    }
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C10", "exploration");
    c.rule = "complete enumeration, per cipher and backend, of (a) every length up to the bound with every call form, the input in \
              read-only memory and both buffers directly before and directly after an inaccessible page, the rest of the output \
              memory filled with canaries; (b) every pair of input and output alignments modulo 64; (c) every value of every data \
              byte; (d) every pair of unequal lengths; (e) block-level calls and RNG fills likewise. Distinct = distinct \
              length/placement/value cases; non-trivial = compared with data XOR reference keystream"
        .into();
    let t = tier() == "thorough";
    let mut tasks = vec![];
    for kind in ALL {
        let b = kind.block();
        for (env, mask) in kind.envs() {
            let max = match b {
                64 => if t { 64 * 68 + 3 } else { 64 * 34 + 3 },
                _ => if t { 1200 } else { 600 },
            };
            let starts: &[u128] = if t { &[0, 1, 5, 16, 37, 63, 64 * 4 + 3] } else { &[0, 37] };
            for &s in starts {
                tasks.push(task(format!("{kind:?}/{env}/bounds/{s}"), move || bounds(kind, mask, max, &[s])));
            }
            let lens: &[usize] = match b {
                64 => if t { &[1, 15, 16, 63, 64, 65, 127, 128, 200, 256, 300, 512, 1024, 1100, 2048, 2050] } else { &[1, 64, 65, 300, 1030] },
                _ => &[1, 4, 15, 33, 64],
            };
            tasks.push(task(format!("{kind:?}/{env}/align"), move || alignments(kind, mask, lens, if t { &[0, 1, 37] } else { &[0] })));
            let lens: &'static [usize] = if b == 64 { &[1, 3, 63, 64, 100, 256, 1100, 2200] } else { &[1, 3, 15, 16, 100, 300] };
            tasks.push(task(format!("{kind:?}/{env}/values"), move || values(kind, mask, lens, if t { &[0, 37, 64] } else { &[0, 37] })));
            let max = if t { 160 } else { 70 };
            tasks.push(task(format!("{kind:?}/{env}/unequal"), move || unequal(kind, mask, max, &[0, 5])));
        }
    }
    macro_rules! core {
        ($($k:ident $t:ty),*) => { $(
            for (env, mask) in Kind::$k.envs() {
                let max = if t { 70 } else { 36 };
                tasks.push(task(format!("core/{}/{env}", stringify!($k)), move || cores::<$t>(Kind::$k, mask, max)));
            }
        )* };
    }
    core!(
        ChaCha8 chacha20::ChaCha8, ChaCha12 chacha20::ChaCha12, ChaCha20 chacha20::ChaCha20, ChaCha20Legacy chacha20::ChaCha20Legacy,
        XChaCha8 chacha20::XChaCha8, XChaCha12 chacha20::XChaCha12, XChaCha20 chacha20::XChaCha20,
        Salsa8 salsa20::Salsa8, Salsa12 salsa20::Salsa12, Salsa20 salsa20::Salsa20,
        XSalsa8 salsa20::XSalsa8, XSalsa12 salsa20::XSalsa12, XSalsa20 salsa20::XSalsa20
    );
    for (env, mask) in envs() {
        let max = if t { 1100 } else { 530 };
        tasks.push(task(format!("rng8/{env}"), move || rng_fill::<chacha20::ChaCha8Rng>("ChaCha8Rng", mask, max)));
        tasks.push(task(format!("rng12/{env}"), move || rng_fill::<chacha20::ChaCha12Rng>("ChaCha12Rng", mask, max)));
        tasks.push(task(format!("rng20/{env}"), move || rng_fill::<chacha20::ChaCha20Rng>("ChaCha20Rng", mask, max)));
    }
    c.run(tasks);
    c.finish()
}
