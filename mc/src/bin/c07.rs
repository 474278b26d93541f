//! C07: the keystream does not depend on how it is consumed. All call histories, by lengths and call forms.
use mc::alpha::few;
use mc::bfs::{Explore, Op};
use mc::kinds::*;
use mc::run::{Ctx, Res, Stats, Violation, hx, task, tier};

/// Lengths tried in every state.
fn lens(kind: Kind, thorough: bool) -> Vec<usize> {
    let bs = kind.block();
    let mut v: Vec<usize> = match kind {
        Kind::Rc4 => vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 511],
        Kind::Hc256 => vec![0, 1, 3, 4, 5, 8, 9, 4096, 4099],
        _ => (0..=2 * bs + 2).collect(),
    };
    if bs >= 16 {
        for k in [3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 31, 32, 33, 36, 40] {
            v.extend([k * bs - 1, k * bs, k * bs + 1]);
        }
    }
    if thorough && bs == 64 {
        v.extend(131..=1100);
    }
    if thorough && bs == 16 {
        v.extend(33..=300);
    }
    if thorough && bs < 16 {
        v.extend(0..=70);
    }
    v.sort();
    v.dedup();
    v
}

/// `n` zero bytes, backed by memory only when written.
struct Zeros(*mut u8, usize);

impl Zeros {
    fn new(n: usize) -> Zeros {
        use libc::*;
        unsafe {
            let p = mmap(std::ptr::null_mut(), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            assert!(p != MAP_FAILED, "mmap");
            Zeros(p.cast(), n)
        }
    }
    fn get(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}

impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0.cast(), self.1) };
    }
}

fn digest(b: &[u8]) -> u64 {
    let mut h = [b.len() as u64, 1, 2, 3];
    let (c, rest) = b.as_chunks::<32>();
    for x in c {
        for k in 0..4 {
            h[k] = (h[k].rotate_left(23) ^ u64::from_le_bytes(x[8 * k..8 * k + 8].try_into().unwrap())).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    for &x in rest {
        h[0] = (h[0].rotate_left(23) ^ x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    h.iter().fold(0, |a, &x| (a as u64).rotate_left(17).wrapping_add(x))
}

/// Requests of more than 2^32 bytes against the same bytes asked for in pieces.
fn huge(kind: Kind, env: u32, n: usize, forms: &[Form]) -> Res<Stats> {
    const PIECE: usize = (1 << 20) + 64 * 3 + 5;
    cpufeatures::set_env(env);
    let (key, iv) = few(kind.klen(), kind.ivlen(), 1).remove(0);
    let bad = |what: String| Violation::new(format!("{kind:?}:huge"), format!("{kind:?}/{}: {what} (key {}, nonce {})", env_name(env), hx(&key), hx(&iv)));
    let mut st = Stats::default();
    let mut a = kind.make(&key, &iv);
    let (k, i, m) = (key.clone(), iv.clone(), forms.len());
    // the same bytes in pieces
    let pieces = std::thread::spawn(move || {
        cpufeatures::set_env(env);
        let mut b = kind.make(&k, &i);
        let mut piece = vec![0u8; PIECE];
        let mut v = vec![];
        for _ in 0..m {
            let mut at = 0;
            while at < n {
                let p = &mut piece[..PIECE.min(n - at)];
                at += p.len();
                match b.consume(Form::TryWrite, &[], p) {
                    Out::Ok => v.push(digest(p)),
                    r => return Err(format!("piece at {at}: {r:?}")),
                }
            }
        }
        Ok(v)
    });
    let mut got = vec![];
    for &f in forms {
        let mut input = Zeros::new(if f.in_place() || f.is_write() { 64 } else { n });
        let mut out = Zeros::new(n);
        match a.consume(f, input.get(), out.get()) {
            Out::Ok => {}
            r => return Err(bad(format!("{f:?} of {n} bytes: {r:?}"))),
        }
        got.extend(out.get().chunks(PIECE).enumerate().map(|(i, c)| (digest(c), f, i)));
        st.paths += 1;
        st.transitions += 1;
        st.states += 1;
        st.bytes += n as u64;
    }
    let want = pieces.join().expect("thread of the pieces").map_err(bad)?;
    assert_eq!(want.len(), got.len());
    for (w, (g, f, i)) in want.into_iter().zip(got) {
        if w != g {
            return Err(bad(format!("{f:?} of {n} bytes differs from the same bytes in pieces of {PIECE}, in piece {i}")));
        }
    }
    Ok(st)
}

/// Lengths from a few bytes to megabytes: every multiple of the block up to 260 blocks and the surroundings of 2^k and 3*2^k.
fn ladder_lens(kind: Kind, top: u32) -> Vec<usize> {
    let bs = kind.block();
    let mut v: Vec<usize> = (1..=260).map(|b| b * bs).collect();
    for k in 6..=top {
        for x in [1usize << k, 3 << k] {
            v.extend([x - bs, x - 1, x, x + 1, x + bs, x + 5 * bs + 3]);
        }
    }
    v.retain(|&n| n <= (1 << top) + 1000);
    v.sort();
    v.dedup();
    v
}

/// One call of every length of the ladder, from each start; then the next bytes.
fn ladder(kind: Kind, env: u32, base: u128, offs: &[usize], lens: &[usize], forms: &[Form]) -> Res<Stats> {
    const AFTER: usize = 150;
    const CANARY: u8 = 0xc7;
    cpufeatures::set_env(env);
    let (key, iv) = few(kind.klen(), kind.ivlen(), 1).remove(0);
    let max = *lens.last().unwrap();
    let w = kind.window(&key, &iv, base, *offs.last().unwrap() + max + AFTER);
    let data: Vec<u8> = (0..max).map(|i| ((i as u64 + 11).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 56) as u8).collect();
    let mut out = vec![CANARY; max + 128];
    let mut st = Stats::default();
    let mut o = kind.make(&key, &iv);
    if base > 0 && o.seek(Ty::U128, base, false) != Out::Ok {
        return Err(Violation::new(format!("{kind:?}:ladder"), format!("{kind:?}/{}: seek to {base} refused", env_name(env))));
    }
    let init = o.bytes();
    for &off in offs {
        o.restore(&init);
        o.consume(Form::TryWrite, &[], &mut vec![0; off]);
        let at = o.bytes();
        for &n in lens {
            for &f in forms {
                let fail = |what: String| {
                    let e = format!("{kind:?}/{}: {f:?} of {n} bytes at position {}: {what}", env_name(env), base + off as u128);
                    Violation::new(format!("{kind:?}:ladder:{f:?}:{n}"), format!("{e} (key {}, nonce {})", hx(&key), hx(&iv)))
                };
                o.restore(&at);
                let b = &mut out[64..64 + n];
                if f.in_place() {
                    b.copy_from_slice(&data[..n]);
                }
                let inp: &[u8] = if f.in_place() || f.is_write() { &[] } else { &data[..n] };
                match o.consume(f, inp, b) {
                    Out::Ok => {}
                    r => return Err(fail(format!("{r:?}"))),
                }
                let ks = w.at(base + off as u128, n);
                let bad = (0..n).find(|&i| b[i] != if f.is_write() { ks[i] } else { ks[i] ^ data[i] });
                if let Some(i) = bad {
                    return Err(fail(format!("byte {i} is {:02x}; data {:02x}, keystream {:02x}", b[i], data[i], ks[i])));
                }
                if out[..64].iter().chain(&out[64 + n..128 + n]).any(|&x| x != CANARY) {
                    return Err(fail("wrote outside the buffer".into()));
                }
                out[64..64 + n].fill(CANARY);
                let mut next = [0; AFTER];
                if o.consume(Form::TryWrite, &[], &mut next) != Out::Ok || next != w.at(base + (off + n) as u128, AFTER) {
                    return Err(fail("the bytes after it are wrong".into()));
                }
                st.transitions += 2;
                st.bytes += n as u64;
            }
            st.states += 1;
            st.paths += 1;
        }
        if out.iter().any(|&x| x != CANARY) {
            return Err(Violation::new(format!("{kind:?}:ladder"), format!("{kind:?}/{}: a call wrote far outside its buffer", env_name(env))));
        }
    }
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C07", "model_checking");
    c.rule = "breadth-first closure over call histories: states are (object, position); from every state in the window every \
              length of the alphabet (0..=130 and k*64+-1 up to 40 blocks for 64-byte blocks) is consumed with every call form; \
              outputs are compared with the reference keystream; besides, single calls of every length of a ladder (all multiples \
              of a block up to 260 blocks, surroundings of 2^k and 3*2^k up to 2^22) and of more than 2^32 bytes"
        .into();
    let thorough = tier() == "thorough";
    let mut tasks = vec![];
    // requests longer than 2^32 bytes, a few at a time because of the memory
    let most: Vec<Kind> =
        if thorough { ALL.into_iter().filter(|k| *k != Kind::Rc4).collect() } else { vec![Kind::ChaCha8, Kind::Legacy8Seed, Kind::Salsa8, Kind::Hc256, Kind::Rabbit] };
    for list in [vec![Kind::Rc4], most] {
        tasks.push(task(format!("huge/{}", list.len()), move || {
            let mut st = Stats::default();
            for &kind in &list {
                let forms: &[Form] = match (thorough, kind) {
                    (true, _) => &FORMS,
                    (_, Kind::Rc4) => &[Form::TryB2b, Form::TryWrite],
                    _ => &[Form::TryApply],
                };
                let envs = kind.envs();
                st.merge(huge(kind, envs[envs.len() - 1].1, (1usize << 32) + 64 * 5 + 13, forms)?);
            }
            Ok(st)
        }));
    }
    for kind in ALL {
        for (env, mask) in kind.envs() {
            let bs = kind.block();
            let mut bases = vec![(0u128, vec![0, 1, bs - 1, 4 * bs + 3])];
            if kind.ctr_bits() == Some(64) {
                bases.push((((1u128 << 32) - 130) * 64, vec![0, 7]));
            }
            for (base, offs) in bases {
                let o = offs.clone();
                let (a, b) = if thorough { (20, 25) } else { (17, 22) };
                tasks.push(task(format!("ladder/{kind:?}/{env}/{base:#x}"), move || ladder(kind, mask, base, &o, &ladder_lens(kind, a), &FORMS)));
                tasks.push(task(format!("ladder-long/{kind:?}/{env}/{base:#x}"), move || {
                    let lens: Vec<usize> = ladder_lens(kind, b).into_iter().filter(|&n| n >= 1 << a).collect();
                    ladder(kind, mask, base, &offs[..2], &lens, &[Form::TryApply, Form::TryB2b, Form::TryWrite])
                }));
            }
            // windows: stream start; for 64-bit counters also around the 2^32 block boundary (entered by a seek)
            let mut starts: Vec<u128> = vec![0];
            if kind.ctr_bits() == Some(64) {
                starts.push(((1u128 << 32) - 6) * 64);
            }
            let keys = few(kind.klen(), kind.ivlen(), if thorough { 3 } else { 1 });
            for (ki, (key, iv)) in keys.into_iter().enumerate() {
                for &start in &starts {
                    let (key, iv) = (key.clone(), iv.clone());
                    tasks.push(task(format!("{kind:?}/{env}/{start:#x}/{ki}"), move || {
                        let blocks = if start == 0 { 41 } else { 20 };
                        let n = match kind {
                            Kind::Hc256 => 8300,
                            Kind::Rc4 => 1100,
                            k => k.block() * blocks,
                        };
                        let w = [kind.window(&key, &iv, start, n)];
                        let lens = lens(kind, thorough);
                        let fine: &[Form] = &[Form::TryApply, Form::TryB2b, Form::TryWrite];
                        let coarse = |n: usize| {
                            let b = kind.block();
                            if b == 4 {
                                return n <= 1 || n == 5;
                            }
                            n <= 2 || n % b == 0 || (n + 1) % b == 0 || n % b == 1 || n % 16 == 0
                        };
                        let ops = |pos: u128| -> Vec<Op> {
                            if start != 0 && pos == 0 {
                                return (0..=128).map(|d| Op::Seek(start + d, Ty::U64, false)).collect();
                            }
                            let mut v = vec![];
                            if kind == Kind::Hc256 && !thorough && (80..4056).contains(&(pos % 4096)) {
                                // quick tier: skip through the middle of a table pass, dwell around its ends
                                let n = (4056 - pos % 4096) as usize;
                                return fine.iter().map(|&f| Op::Consume(f, n)).collect();
                            }
                            for &n in &lens {
                                if thorough || coarse(n) {
                                    v.extend(FORMS.iter().map(|&f| Op::Consume(f, n)));
                                } else {
                                    v.extend(fine.iter().map(|&f| Op::Consume(f, n)));
                                }
                            }
                            v
                        };
                        Explore { kind, env: mask, key: &key, iv: &iv, windows: &w, ops: &ops, rems: &[], max_states: 200_000 }.run()
                    }));
                }
            }
        }
    }
    c.run(tasks);
    c.finish()
}
