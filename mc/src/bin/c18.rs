//! C18: objects do not influence each other, however their operations are interleaved.
//! Part 1: all interleavings of whole calls of two and three objects, and all assignments of the calls to threads.
//! Part 2: an operation is preempted at every instruction by operations of other objects (the process is forked
//! at every instruction boundary, the child runs the other operations to completion and then resumes the first).
use mc::alpha;
use mc::kinds::*;
use mc::rng::{RNGS, RngKind, RngSut};
use mc::run::*;
use mc::scn::{self, Act, Scn, Secret};
use mc::step::{self, *};
use std::cell::Cell;
use std::sync::Arc;

use std::sync::mpsc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Type {
    C(Kind),
    R(u32),
}

impl Type {
    fn name(self) -> String {
        match self {
            Type::C(k) => format!("{k:?}"),
            Type::R(r) => format!("ChaCha{r}Rng"),
        }
    }
    fn chacha(self) -> bool {
        match self {
            Type::C(k) => k.chacha(),
            Type::R(_) => true,
        }
    }
    fn krate(self) -> u8 {
        match self {
            Type::R(_) => 0,
            Type::C(k) if k.chacha() => 0,
            Type::C(Kind::Hc256) => 2,
            Type::C(Kind::Rabbit | Kind::RabbitKeyOnly) => 3,
            Type::C(Kind::Rc4) => 4,
            _ => 1,
        }
    }
}

fn types() -> Vec<Type> {
    ALL.iter().map(|&k| Type::C(k)).chain([8, 12, 20].map(Type::R)).collect()
}

/// Inputs of object `i` in variant `v`: 0 all different, 1 same key, 2 same nonce, 3 identical.
fn inputs(t: Type, i: usize, v: usize) -> (Vec<u8>, Vec<u8>) {
    let (kl, il) = match t {
        Type::C(k) => (k.klen(), k.ivlen()),
        Type::R(_) => (32, 8),
    };
    let a = if v & 1 != 0 { 0 } else { i };
    let b = if v & 2 != 0 { 0 } else { i };
    (alpha::base(kl, 0x21 + 0x37 * a as u8), alpha::base(il, 0x91 + 0x1d * b as u8))
}

fn rng_words(rounds: u32, seed: &[u8], stream: u64, from: u128, n: usize) -> Vec<u8> {
    // words from..from+n as bytes; positions modulo 2^68
    let mut out = vec![];
    let mut w = from;
    while out.len() < 4 * n {
        let b = mc::refs::chacha_djb_block(seed, &stream.to_le_bytes(), (w / 16) as u64, rounds);
        out.extend(&b[4 * (w % 16) as usize..]);
        w += 16 - w % 16;
        w &= mc::rng::MASK68;
    }
    out.truncate(4 * n);
    out
}

// ---------- part 1 ----------

enum Obj {
    None,
    C(Box<dyn Sut>),
    R(Box<dyn RngSut>),
}

const OPS: usize = 4;

/// Operation `k` of the script; returns what the caller sees.
fn act(t: Type, key: &[u8], iv: &[u8], o: &mut Obj, k: usize) -> Vec<u8> {
    let mut r = vec![];
    match t {
        Type::C(kind) => {
            if k == 0 {
                *o = match sut(|| kind.make(key, iv)) {
                    Ok(c) => Obj::C(c),
                    Err(m) => return m.into_bytes(),
                };
            }
            let Obj::C(c) = o else { return b"no object".to_vec() };
            let mut use_ = |form, n: usize, r: &mut Vec<u8>| {
                let mut b = vec![0u8; n];
                let inp = vec![0u8; n];
                let x = c.consume(form, &inp, &mut b);
                if x != Out::Ok {
                    r.extend(format!("{x:?}").bytes());
                }
                r.extend(b);
            };
            match k {
                0 => use_(Form::TryApply, 5, &mut r),
                1 => use_(Form::TryWrite, 70, &mut r),
                2 if kind.seekable() => {
                    let s = c.seek(Ty::U64, 300, false);
                    let mut b = [0; 10];
                    let x = c.consume(Form::TryApply, &[], &mut b);
                    let p = c.pos(Ty::U64, false);
                    r.extend(format!("{s:?} {x:?} {p:?}").bytes());
                    r.extend(b);
                }
                2 => use_(Form::TryApply, 300, &mut r),
                _ => {
                    use_(Form::TryB2b, 330, &mut r);
                    *o = Obj::None;
                }
            }
        }
        Type::R(rounds) => {
            if k == 0 {
                let kind = *RNGS.iter().find(|x| x.rounds() == rounds).unwrap();
                *o = Obj::R(make_rng(kind, key));
            }
            let Obj::R(g) = o else { return b"no object".to_vec() };
            match k {
                0 => r.extend(format!("{:?}", g.u32(0)).bytes()),
                1 => {
                    let mut b = [0; 70];
                    let e = g.fill(0, &mut b);
                    r.extend(format!("{e:?}").bytes());
                    r.extend(b);
                }
                2 => {
                    let s = u64::from_le_bytes(iv.try_into().unwrap());
                    let a = (g.set_stream(s), g.set_word_pos(13), g.u64(0), g.ser(), g.word_pos());
                    r.extend(format!("{a:?}").bytes());
                }
                _ => {
                    let mut b = [0; 600];
                    let e = g.fill(0, &mut b);
                    r.extend(format!("{e:?}").bytes());
                    r.extend(b);
                    *o = Obj::None;
                }
            }
        }
    }
    r
}

fn make_rng(kind: RngKind, key: &[u8]) -> Box<dyn RngSut> {
    kind.make(key.try_into().unwrap())
}

/// What each operation of the script returns for an object alone, from the reference.
fn expected(t: Type, key: &[u8], iv: &[u8]) -> [Vec<u8>; OPS] {
    match t {
        Type::C(kind) => {
            let w = kind.window(key, iv, 0, 900);
            let two = if kind.seekable() {
                let mut v = format!("{:?} {:?} {:?}", Out::Ok, Out::Ok, Ok::<_, String>(Some(310i128))).into_bytes();
                v.extend(w.at(300, 10));
                v
            } else {
                w.at(75, 300).to_vec()
            };
            let at = if kind.seekable() { 310 } else { 375 };
            [w.at(0, 5).to_vec(), w.at(5, 70).to_vec(), two, w.at(at, 330).to_vec()]
        }
        Type::R(rounds) => {
            let ok = format!("{:?}", Ok::<(), String>(())).into_bytes();
            let u = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
            let a = rng_words(rounds, key, 0, 0, 32);
            let s = u64::from_le_bytes(iv.try_into().unwrap());
            let b = rng_words(rounds, key, s, 13, 200);
            let mut ser = [0u8; 49];
            ser[..32].copy_from_slice(key);
            ser[32..40].copy_from_slice(iv);
            ser[40] = 15;
            let x = u64::from_le_bytes(b[..8].try_into().unwrap());
            let two: (Result<(), String>, Result<(), String>, Result<u64, String>, Result<[u8; 49], String>, Result<u128, String>) =
                (Ok(()), Ok(()), Ok(x), Ok(ser), Ok(15));
            [
                format!("{:?}", Ok::<u32, String>(u(&a[..4]))).into_bytes(),
                [&ok[..], &a[4..74]].concat(),
                format!("{two:?}").into_bytes(),
                [&ok[..], &b[8..608]].concat(),
            ]
        }
    }
}

/// All interleavings of `n` sequences of `m` operations (as sequences of object numbers).
fn interleavings(n: usize, m: usize) -> Vec<Vec<u8>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left.iter().all(|&x| x == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![m; n], &mut vec![], &mut out);
    out
}

struct Cast {
    t: Type,
    key: Vec<u8>,
    iv: Vec<u8>,
    want: [Vec<u8>; OPS],
}

fn cast(ts: &[Type], v: usize) -> Vec<Cast> {
    ts.iter()
        .enumerate()
        .map(|(i, &t)| {
            let (key, iv) = inputs(t, i, v);
            let want = expected(t, &key, &iv);
            Cast { t, key, iv, want }
        })
        .collect()
}

fn names(c: &[Cast]) -> String {
    c.iter().map(|c| c.t.name()).collect::<Vec<_>>().join("+")
}

fn wrong(c: &[Cast], env: u32, sched: &[u8], at: usize, k: usize, got: &[u8], threads: Option<&[u8]>) -> Violation {
    let i = sched[at] as usize;
    let what = format!(
        "{}: objects interleaved as {sched:?}{}: operation {k} of object {i} ({}) at step {at} does not return what it returns alone: {}",
        names(c),
        threads.map(|t| format!(" on threads {t:?}")).unwrap_or_default(),
        c[i].t.name(),
        diff(got, &c[i].want[k])
    );
    let mut v = Violation::new(format!("{}:{}:{sched:?}:{k}", names(c), env_name(env)), what.clone());
    v.replay = format!("feature set: {}\n{}\n{what}", env_name(env), c.iter().map(|c| format!("{}: key {} nonce {}", c.t.name(), hx(&c.key), hx(&c.iv))).collect::<Vec<_>>().join("\n"));
    v
}

/// Execute one schedule; `ops[i]` lists the script positions object `i` performs.
fn run_schedule(c: &[Cast], env: u32, sched: &[u8], ops: &[usize], st: &mut Stats) -> Res<()> {
    let mut objs: Vec<Obj> = c.iter().map(|_| Obj::None).collect();
    let mut pc = vec![0usize; c.len()];
    for (at, &i) in sched.iter().enumerate() {
        let i = i as usize;
        let k = ops[pc[i]];
        pc[i] += 1;
        let got = act(c[i].t, &c[i].key, &c[i].iv, &mut objs[i], k);
        st.transitions += 1;
        if got != c[i].want[k] {
            return Err(wrong(c, env, sched, at, k, &got, None));
        }
    }
    st.states += 1;
    st.paths += 1;
    Ok(())
}

type Job = Box<dyn FnOnce() + Send>;

/// Threads that execute what they are told, one call at a time.
struct Pool {
    tx: Vec<mpsc::Sender<Job>>,
    hs: Vec<std::thread::JoinHandle<()>>,
}
impl Pool {
    fn new(n: usize, env: u32) -> Pool {
        let mut tx = vec![];
        let mut hs = vec![];
        for _ in 0..n {
            let (a, b) = mpsc::channel::<Job>();
            tx.push(a);
            hs.push(std::thread::spawn(move || {
                cpufeatures::set_env(env);
                while let Ok(j) = b.recv() {
                    j();
                }
            }));
        }
        Pool { tx, hs }
    }
    fn call<T: Send + 'static>(&self, i: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
        let (a, b) = mpsc::channel();
        self.tx[i].send(Box::new(move || drop(a.send(f())))).unwrap();
        b.recv().expect("thread")
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        self.tx.clear();
        for h in self.hs.drain(..) {
            let _ = h.join();
        }
    }
}

/// All interleavings and all assignments of the operations to the threads of the pool.
fn run_threads(c: Arc<Vec<Cast>>, env: u32, ops: &'static [usize], nthreads: usize, st: &mut Stats) -> Res<()> {
    let pool = Pool::new(nthreads, env);
    let total = c.len() * ops.len();
    for sched in interleavings(c.len(), ops.len()) {
        for code in 0..(nthreads as u32).pow(total as u32) {
            let th: Vec<u8> = (0..total as u32).map(|k| (code / (nthreads as u32).pow(k) % nthreads as u32) as u8).collect();
            let mut objs: Vec<Option<Obj>> = c.iter().map(|_| Some(Obj::None)).collect();
            let mut pc = vec![0usize; c.len()];
            for (at, &i) in sched.iter().enumerate() {
                let i = i as usize;
                let k = ops[pc[i]];
                pc[i] += 1;
                let mut o = objs[i].take().unwrap();
                let cc = c.clone();
                let (o, got) = pool.call(th[at] as usize, move || {
                    let r = act(cc[i].t, &cc[i].key, &cc[i].iv, &mut o, k);
                    (o, r)
                });
                objs[i] = Some(o);
                st.transitions += 1;
                if got != c[i].want[k] {
                    return Err(wrong(&c, env, &sched, at, k, &got, Some(&th)));
                }
            }
            st.states += 1;
            st.paths += 1;
        }
    }
    st.note("schedules_with_threads", st.paths);
    Ok(())
}

fn pairs(a: Type, env: u32) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let sch = interleavings(2, OPS);
    for b in types() {
        if env != SOFT && !a.chacha() && !b.chacha() {
            continue;
        }
        for v in 0..4 {
            let c = cast(&[a, b], v);
            for s in &sch {
                run_schedule(&c, env, s, &[0, 1, 2, 3], &mut st)?;
            }
        }
    }
    st.samples.push(format!("{} with every type, {}: {} schedules of 8 calls", a.name(), env_name(env), st.paths));
    Ok(st)
}

fn triples(a: Type, env: u32, deep: bool) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let ts = types();
    let sch = interleavings(3, if deep { 3 } else { 2 });
    for &b in ts.iter().filter(|&&b| b >= a) {
        for &d in ts.iter().filter(|&&d| d >= b) {
            for v in 0..4 {
                let c = cast(&[a, b, d], v);
                for s in &sch {
                    run_schedule(&c, env, s, if deep { &[0, 1, 2] } else { &[0, 1] }, &mut st)?;
                }
            }
        }
    }
    // three objects of one type: full scripts
    for v in if deep { 0..4 } else { 0..1 } {
        let c = cast(&[a, a, a], v);
        for s in &interleavings(3, if deep { 4 } else { 3 }) {
            run_schedule(&c, env, s, &[0, 1, 2, 3], &mut st)?;
        }
    }
    Ok(st)
}

fn threads_of(a: Type, env: u32, deep: bool) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    run_threads(Arc::new(cast(&[a], 0)), env, &[0, 1, 2, 3], 3, &mut st)?;
    for v in if deep { 0..4 } else { 0..2 } {
        run_threads(Arc::new(cast(&[a, a], v)), env, if deep { &[0, 1, 2] } else { &[0, 1] }, 2, &mut st)?;
    }
    st.samples.push(format!("{} moved between threads at every call: {} schedules", a.name(), st.paths));
    Ok(st)
}

// ---------- part 2 ----------

/// An operation to be preempted, or preempting, with what it must return.
#[derive(Clone, Copy, Debug)]
struct Mid {
    t: Type,
    /// byte position (ciphers) or word position (RNGs)
    pos: u128,
    act: Act,
}

const TAIL: usize = 76;

impl Mid {
    fn name(&self) -> String {
        format!("{} {:?} at {}", self.t.name(), self.act, self.pos)
    }
    fn make(&self) -> Box<dyn Scn> {
        match self.t {
            Type::C(k) => scn::cipher(k, self.pos as u64, self.act),
            Type::R(r) => scn::rng(r, self.pos, self.act),
        }
    }
    /// (result, tail) from the reference
    fn expected(&self, s: &Secret) -> (Vec<u8>, Vec<u8>) {
        match self.t {
            Type::C(k) => {
                let (key, iv) = (&s.key[..k.klen()], &s.iv[..k.ivlen()]);
                match self.act {
                    Act::New => (0u64.to_le_bytes().to_vec(), k.window(key, iv, 0, TAIL).data),
                    Act::Use(f, n) => {
                        let w = if k.seekable() { k.window(key, iv, self.pos, n + TAIL) } else { k.window(key, iv, 0, self.pos as usize + n + TAIL) };
                        let mut r = 1u64.to_le_bytes().to_vec();
                        r.extend((0..n).map(|i| if f.is_write() { 0 } else { s.data[i % s.data.len()] } ^ w.at(self.pos, n)[i]));
                        (r, w.at(self.pos + n as u128, TAIL).to_vec())
                    }
                    Act::Seek(p) => (1u64.to_le_bytes().to_vec(), k.window(key, iv, p as u128, TAIL).data),
                    _ => unreachable!(),
                }
            }
            Type::R(rounds) => {
                let stream = u64::from_le_bytes(s.iv[..8].try_into().unwrap());
                let w = |st: u64, from: u128, n: usize| rng_words(rounds, &s.key, st, from, n);
                let (mut ret, mut buf, mut st, mut at) = (0u64, vec![], stream, self.pos);
                match self.act {
                    Act::New => (st, at) = (0, 0),
                    Act::U32 => {
                        ret = u32::from_le_bytes(w(stream, at, 1).try_into().unwrap()) as u64;
                        at += 1;
                    }
                    Act::U64 => {
                        ret = u64::from_le_bytes(w(stream, at, 2).try_into().unwrap());
                        at += 2;
                    }
                    Act::Fill(n) => {
                        buf = w(stream, at, n.div_ceil(4));
                        buf.truncate(n);
                        at += n.div_ceil(4) as u128;
                    }
                    Act::SetWordPos(p) => at = p,
                    Act::SetStream(_) => at = 0,
                    Act::Deserialize => {}
                    Act::Serialize => {
                        buf.extend(&s.key);
                        buf.extend(&s.iv[..8]);
                        buf.extend(&self.pos.to_le_bytes()[..9]);
                    }
                    _ => unreachable!(),
                }
                let mut r = ret.to_le_bytes().to_vec();
                r.extend(buf);
                (r, w(st, at, TAIL / 4))
            }
        }
    }
}

fn mids(t: Type, all: bool) -> Vec<Mid> {
    let m = |pos, act| Mid { t, pos, act };
    let mut v = vec![m(0, Act::New), m(0, Act::Use(Form::Apply, 70))];
    match t {
        Type::C(k) => {
            if k.seekable() {
                v.push(m(64 * ((1 << 31) - 1) + 10, Act::Use(Form::Write, 70)));
                v.push(m(70, Act::Seek(64 * 33 + 5)));
            } else {
                v.push(m(33, Act::Use(Form::Write, 70)));
            }
            if all && k.chacha() {
                v.push(m(0, Act::Use(Form::Apply, 300)));
                if tier() == "thorough" {
                    v.push(m(64, Act::Use(Form::TryB2b, 1100)));
                }
            }
        }
        Type::R(_) => {
            v = vec![m(0, Act::New), m(0, Act::U32), m(63, Act::U64), m(5, Act::Fill(300)), m(9, Act::SetWordPos(77)), m(9, Act::SetStream(0)), m(9, Act::Serialize), m(9, Act::Deserialize)];
            if !all {
                v.truncate(4);
            }
        }
    }
    v
}

fn secret(i: usize, v: usize) -> Secret {
    let a = if v & 1 != 0 { 0 } else { i };
    let b = if v & 2 != 0 { 0 } else { i };
    Secret { name: String::new(), key: alpha::base(32, 0x21 + 0x37 * a as u8), iv: alpha::base(32, 0x91 + 0x1d * b as u8), data: alpha::base(64, 0x19) }
}

struct Live {
    m: Mid,
    s: Box<dyn Scn>,
    want: (Vec<u8>, Vec<u8>),
    sec: Secret,
}

fn live(m: Mid, sec: Secret) -> Live {
    let want = m.expected(&sec);
    let s = m.make();
    Live { m, s, want, sec }
}

/// Shared between the process at the preemption point and its children.
#[repr(C)]
struct Shared {
    steps: u64,
    point: u64,
    points: u64,
    static_writes: u64,
    len: u64,
    text: [u8; 4000],
}

fn say(sh: *mut Shared, s: &str) {
    unsafe {
        let n = s.len().min(4000);
        (*sh).len = n as u64;
        std::ptr::copy_nonoverlapping(s.as_ptr(), (&raw mut (*sh).text).cast(), n);
    }
}

extern "C" fn child_crash(sig: i32) {
    unsafe { libc::_exit(100 + sig) }
}

fn check(l: &mut Live, who: &str) -> Result<(), String> {
    let r = l.s.result();
    if r != l.want.0 {
        return Err(format!("{who} ({}) does not return what it returns alone: {}", l.m.name(), diff(&r, &l.want.0)));
    }
    let t = l.s.tail(TAIL);
    if t != l.want.1 {
        return Err(format!("after {who} ({}) its object does not behave as it does alone: next bytes {}", l.m.name(), diff(&t, &l.want.1)));
    }
    Ok(())
}

fn data_hash() -> u64 {
    let (lo, hi) = step::own_data();
    let w = unsafe { std::slice::from_raw_parts(lo as *const u64, ((hi - lo) / 8) as usize) };
    w.iter().fold(0u64, |h, &x| (h.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

/// In a forked process: explore the preemption points `lo..hi` (step numbers) of `a` by all of `bs`.
fn worker(a: &mut Live, bs: &mut [Live], lo: u64, hi: u64, count_only: bool, sh: *mut Shared) -> i32 {
    step::init();
    // warm up, then count the steps and the writes to static data
    for pass in 0..2 {
        a.s.prep(&a.sec);
        let h0 = data_hash();
        let mut n = 0u64;
        let mut r = Ok(());
        {
            let (n, r, s) = (&mut n, &mut r, &mut a.s);
            stepped(&mut || *r = sut(|| s.op()), &mut |_| *n += 1);
        }
        let h1 = data_hash();
        if let Err(m) = r {
            say(sh, &format!("{} alone panics: {m}", a.m.name()));
            return 1;
        }
        if pass == 1 {
            unsafe {
                (*sh).steps = n;
                (*sh).static_writes = (h0 != h1) as u64;
            }
        }
        if let Err(e) = check(a, "the operation alone") {
            say(sh, &e);
            return 1;
        }
    }
    if count_only {
        return 0;
    }
    a.s.prep(&a.sec);
    for b in bs.iter_mut() {
        b.s.prep(&b.sec);
    }
    let child = Cell::new(false);
    let mut n = 0u64;
    let mut bad = None;
    let mut bpanic: Option<String> = None;
    let mut r = Ok(());
    {
        let (child, n, bad, bpanic, r, s) = (&child, &mut n, &mut bad, &mut bpanic, &mut r, &mut a.s);
        let bs = &mut *bs;
        let mut hook = |uc: &mut libc::ucontext_t| {
            let k = *n;
            *n += 1;
            if k < lo || bad.is_some() {
                return;
            }
            if k >= hi {
                stop(uc);
                return;
            }
            unsafe {
                (*sh).point = k;
                (*sh).points += 1;
                let pid = libc::fork();
                if pid == 0 {
                    // the preempting operations, then the rest of the preempted one
                    child.set(true);
                    stop(uc);
                    for b in bs.iter_mut() {
                        if let Err(m) = sut(|| b.s.op()) {
                            *bpanic = Some(format!("the preempting operation ({}) panics: {m}", b.m.name()));
                        }
                    }
                    return;
                }
                if pid < 0 {
                    *bad = Some(-1);
                    stop(uc);
                    return;
                }
                let mut status = 0;
                libc::waitpid(pid, &mut status, 0);
                if status != 0 {
                    *bad = Some(status);
                    stop(uc);
                }
            }
        };
        stepped(&mut || *r = sut(|| s.op()), &mut hook);
    }
    if child.get() {
        let mut e = bpanic.map_or(Ok(()), Err);
        if let (Ok(()), Err(m)) = (&e, r) {
            e = Err(format!("the preempted operation ({}) panics: {m}", a.m.name()));
        }
        if e.is_ok() {
            e = check(a, "the preempted operation");
        }
        for b in bs.iter_mut() {
            if e.is_ok() {
                e = check(b, "the preempting operation");
            }
        }
        // and afterwards, one after the other
        for round in 0..if unsafe { (*sh).steps } > 50_000 { 1 } else { 2 } {
            for l in [&mut *a].into_iter().chain(bs.iter_mut()) {
                if e.is_ok() {
                    l.s.prep(&l.sec);
                    e = sut(|| l.s.op()).map_err(|m| format!("a later operation ({}) panics: {m}", l.m.name()));
                    if e.is_ok() {
                        e = check(l, &format!("a later operation in round {round}"));
                    }
                }
            }
        }
        match e {
            Ok(()) => unsafe { libc::_exit(0) },
            Err(e) => {
                say(sh, &e);
                unsafe { libc::_exit(1) }
            }
        }
    }
    match bad {
        None => 0,
        Some(-1) => 99,
        Some(s) if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) == 1 => 1,
        Some(s) => {
            if libc::WIFEXITED(s) && libc::WEXITSTATUS(s) > 100 {
                say(sh, &format!("signal {} while {} was preempted by other operations", libc::WEXITSTATUS(s) - 100, a.m.name()));
                1
            } else {
                99
            }
        }
    }
}


fn preempt(name: &str, env: u32, a: Mid, bs: &[Mid], v: usize, part: (u64, u64)) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let mut la = live(a, secret(0, v));
    let mut lb: Vec<Live> = bs.iter().enumerate().map(|(i, &b)| live(b, secret(1 + i % 3, v))).collect();
    let sh = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p.cast::<Shared>()
    };
    let mut steps = 0;
    for count_only in [true, false] {
        let (lo, hi) = (steps * part.0 / part.1, steps * (part.0 + 1) / part.1);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                    libc::signal(s, child_crash as *const () as usize);
                }
                libc::alarm(600);
            }
            let r = worker(&mut la, &mut lb, lo, hi, count_only, sh);
            unsafe { libc::_exit(r) };
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { 98 };
        let text = unsafe { { let s: &Shared = &*sh; String::from_utf8_lossy(&s.text[..s.len as usize]).into_owned() } };
        match code {
            0 => {}
            1 => {
                let at = unsafe { (*sh).point };
                let what = if count_only { text } else { format!("preempted before instruction {at} of {}: {text}", unsafe { (*sh).steps }) };
                let mut viol = Violation::new(format!("preempt:{name}:{at}"), format!("{name}: {what}"));
                viol.replay = format!("preempted: {}\npreempting: {}\nfeature set: {}\n{what}", a.name(), bs.iter().map(|b| b.name()).collect::<Vec<_>>().join(", "), env_name(env));
                return Err(viol);
            }
            c if c > 100 => return Err(Violation::new(format!("preempt:{name}"), format!("{name}: signal {} in the operation alone", c - 100))),
            c => {
                eprintln!("harness: worker for {name} ended with {c}");
                std::process::exit(3);
            }
        }
        steps = unsafe { (*sh).steps };
    }
    unsafe {
        st.states = (*sh).points;
        st.paths = (*sh).points;
        st.transitions = (*sh).points * (1 + bs.len() as u64);
        st.note("preemption_points", (*sh).points);
        st.note("operations_that_write_static_data", (*sh).static_writes);
        libc::munmap(sh.cast(), 8192);
    }
    st.note("max_instructions_of_an_operation", steps);
    st.samples.push(format!("{name}: {steps} instructions, every one a preemption point, {} preempting operations", bs.len()));
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C18", "model_checking");
    let n = step::self_check();
    c.rule = format!(
        "part 1: every interleaving of the 4-call scripts of every ordered pair of types (x 4 relations of keys and nonces x CPU feature sets), \
         of 2-call scripts of every triple, and every assignment of the calls of one or two objects to threads; part 2: every operation is \
         preempted before each of its instructions (one preemption) by operations of the same type, of the other types of its crate and of \
         the other crates, and all are repeated afterwards. Every result is compared with the reference of the object alone ({n} self-checks)"
    );
    let t = tier() == "thorough";
    let mut tasks = vec![];
    let my_envs = |ty: Type| -> Vec<(&'static str, u32)> { if ty.chacha() { envs() } else { vec![("soft", SOFT)] } };
    for a in types() {
        for (_, m) in my_envs(a) {
            tasks.push(task(format!("pairs/{}/{}", a.name(), env_name(m)), move || pairs(a, m)));
        }
    }
    let best = envs().last().unwrap().1;
    for a in types() {
        tasks.push(task(format!("triples/{}", a.name()), move || triples(a, best, t)));
        for (_, m) in if t { my_envs(a) } else { vec![("", best)] } {
            tasks.push(task(format!("threads/{}/{}", a.name(), env_name(m)), move || threads_of(a, m, t)));
        }
    }
    for a in types() {
        let mut es = my_envs(a);
        if !t && es.len() > 2 {
            es = vec![es[0], *es.last().unwrap()];
        }
        for (ename, env) in es {
            for m in mids(a, true) {
                let mut same = mids(a, false);
                if !t && matches!(a, Type::C(Kind::Hc256)) {
                    same.truncate(2);
                }
                let mut near = vec![];
                let mut far = vec![];
                for o in types().into_iter().filter(|&o| o != a) {
                    let l: Vec<Mid> = mids(o, false).into_iter().take(2).collect();
                    if o.krate() == a.krate() { near.extend(l) } else { far.extend(l) }
                }
                let long = matches!((a, m.act), (Type::C(Kind::Hc256), Act::New));
                for (gname, group) in [("same type", same), ("same crate", near), ("other crates", far)] {
                    if group.is_empty() || (long && !t && gname == "other crates") {
                        continue;
                    }
                    // thorough: also each preempting operation by itself
                    let mut sets = vec![group.clone()];
                    if t && gname != "other crates" && !long {
                        sets.extend(group.iter().map(|&g| vec![g]));
                    }
                    for (i, set) in sets.into_iter().enumerate() {
                        for v in if gname != "same type" || long && !t { vec![1] } else if t { vec![0, 1, 2] } else { vec![1, 2] } {
                            let parts = if long { 16 } else { 1 };
                            for part in 0..parts {
                                let name = format!("preempt/{}/{ename}/{gname} {i}/inputs {v}/part {part}", m.name());
                                let set = set.clone();
                                tasks.push(task(name.clone(), move || preempt(&name, env, m, &set, v, (part, parts))));
                            }
                        }
                    }
                }
            }
        }
    }
    c.run(tasks);
    c.finish()
}
