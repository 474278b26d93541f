//! C20: the instructions executed and the addresses accessed do not depend on secrets.
use mc::alpha;
use mc::kinds::*;
use mc::run::*;
use mc::scn::*;
use mc::step::{self, *};

/// Trace of one run: a hash and its length; optionally the events themselves.
#[derive(Default)]
struct Trace {
    hash: u64,
    steps: u64,
    /// (rip, base, index) of every step, when recording
    log: Vec<(u64, u64, u64)>,
    record: bool,
}

/// Decoded operands by code address, so that each instruction is decoded once.
struct Cache {
    lo: u64,
    /// 0 unknown; 1 + encoding
    ops: Vec<u32>,
}

const C_NONE: u32 = 1;
const C_STRING: u32 = 2;
const C_MEM: u32 = 4;
const C_VSIB: u32 = 8;

impl Cache {
    fn new() -> Cache {
        let (lo, hi) = text();
        Cache { lo, ops: vec![0; (hi - lo) as usize] }
    }
    #[inline]
    fn get(&mut self, a: u64) -> u32 {
        let i = a.wrapping_sub(self.lo) as usize;
        if i < self.ops.len() {
            if self.ops[i] == 0 {
                self.ops[i] = Self::code(a);
            }
            return self.ops[i];
        }
        Self::code(a)
    }
    fn code(a: u64) -> u32 {
        match decode(&code_at(a)) {
            None => C_NONE,
            Some(n) => {
                C_NONE
                    | if n.string { C_STRING } else { 0 }
                    | if n.mem { C_MEM | (n.base.map_or(31, u32::from) << 8) | (n.index.map_or(31, u32::from) << 16) } else { 0 }
                    | if n.vsib() { C_VSIB } else { 0 }
            }
        }
    }
}

fn mix(h: u64, x: u64) -> u64 {
    (h.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15)
}

/// The low 256 bits of a vector register holding gather indices, hashed.
fn vec_index(uc: &libc::ucontext_t, r: u32) -> u64 {
    let fp = uc.uc_mcontext.fpregs;
    if fp.is_null() || r > 15 {
        return 0;
    }
    let p = fp.cast::<u8>();
    let mut h = 0;
    unsafe {
        for k in 0..2 {
            h = mix(h, p.add(160 + 16 * r as usize + 8 * k).cast::<u64>().read_unaligned());
        }
        // the extended area holds the upper halves at its standard offset
        if p.add(464).cast::<u32>().read_unaligned() == 0x4650_5853 {
            for k in 0..2 {
                h = mix(h, p.add(576 + 16 * r as usize + 8 * k).cast::<u64>().read_unaligned());
            }
        }
    }
    h
}

#[inline(never)]
fn trace(s: &mut dyn Scn, cache: &mut Cache, addr: bool, record: bool) -> (Trace, Result<(), String>) {
    let mut t = Trace { record, ..Trace::default() };
    if record {
        t.log.reserve_exact(1 << 21);
    }
    let mut r = Ok(());
    {
        let t = &mut t;
        let mut hook = |uc: &mut libc::ucontext_t| {
            let ip = rip(uc);
            let c = cache.get(ip);
            let (mut b, mut x) = (reg(uc, 4), 0);
            if addr && c & C_MEM != 0 {
                let (rb, ri) = (c >> 8 & 31, c >> 16 & 31);
                if rb < 16 {
                    b = b.rotate_left(20).wrapping_add(reg(uc, rb as u8));
                }
                if c & C_VSIB != 0 {
                    x = vec_index(uc, ri);
                } else if ri < 16 {
                    x = reg(uc, ri as u8);
                }
            }
            if addr && c & C_STRING != 0 {
                b = b.rotate_left(20).wrapping_add(reg(uc, 6));
                x = reg(uc, 7);
            }
            t.hash = mix(mix(mix(t.hash, ip), b), x);
            t.steps += 1;
            if t.record && t.log.len() < t.log.capacity() {
                t.log.push((ip, b, x));
            }
        };
        let r = &mut r;
        stepped(&mut || *r = sut(|| s.op()), &mut hook);
    }
    (t, r)
}

fn secrets(kind: (usize, usize), level: usize) -> Vec<Secret> {
    let (kl, il) = kind;
    let base = (alpha::base(kl, 0x3d), alpha::base(il, 0x71));
    let data0: Vec<u8> = alpha::base(64, 0x19);
    let mut v: Vec<Secret> = vec![];
    let mut put = |name: String, key: Vec<u8>, iv: Vec<u8>, data: Vec<u8>| v.push(Secret { name, key, iv, data });
    put("base".into(), base.0.clone(), base.1.clone(), data0.clone());
    for x in [0u8, 0xff, 0x80, 0x7f, 0x01, 0x55] {
        put(format!("all bytes of everything {x:02x}"), vec![x; kl], vec![x; il], vec![x; 64]);
        put(format!("plaintext bytes {x:02x}"), base.0.clone(), base.1.clone(), vec![x; 64]);
        put(format!("key bytes {x:02x}"), vec![x; kl], base.1.clone(), data0.clone());
        put(format!("nonce bytes {x:02x}"), base.0.clone(), vec![x; il], data0.clone());
    }
    for i in 0..if level > 0 { 64 } else { 12 } {
        put(format!("structureless {i}"), alpha::base(kl, (i as u8).wrapping_mul(7).wrapping_add(1)), alpha::base(il, 91u8.wrapping_mul(i as u8 + 3)), alpha::base(64, (i as u8).wrapping_mul(13).wrapping_add(5)));
    }
    if level > 0 {
        for w in 0..kl / 4 {
            for x in alpha::WORDS {
                let mut k = base.0.clone();
                k[4 * w..4 * w + 4].copy_from_slice(&x.to_le_bytes());
                put(format!("key word {w} = {x:08x}"), k, base.1.clone(), data0.clone());
            }
        }
        for w in 0..il / 4 {
            for x in alpha::WORDS {
                let mut k = base.1.clone();
                k[4 * w..4 * w + 4].copy_from_slice(&x.to_le_bytes());
                put(format!("nonce word {w} = {x:08x}"), base.0.clone(), k, data0.clone());
            }
        }
        for b in 0..8 * kl {
            let mut k = base.0.clone();
            k[b / 8] ^= 1 << (b % 8);
            put(format!("key bit {b}"), k, base.1.clone(), data0.clone());
        }
        for b in 0..8 * il {
            let mut k = base.1.clone();
            k[b / 8] ^= 1 << (b % 8);
            put(format!("nonce bit {b}"), base.0.clone(), k, data0.clone());
        }
        for b in 0..512 {
            let mut d = data0.clone();
            d[b / 8] ^= 1 << (b % 8);
            put(format!("plaintext bit {b}"), base.0.clone(), base.1.clone(), d);
        }
        for x in 0..=255u8 {
            put(format!("plaintext bytes {x:02x}"), base.0.clone(), base.1.clone(), vec![x; 64]);
        }
    }
    if level > 1 {
        for i in 0..kl {
            for x in 0..=255u8 {
                let mut k = base.0.clone();
                k[i] = x;
                put(format!("key byte {i} = {x:02x}"), k, base.1.clone(), data0.clone());
            }
        }
        for i in 0..il {
            for x in 0..=255u8 {
                let mut k = base.1.clone();
                k[i] = x;
                put(format!("nonce byte {i} = {x:02x}"), base.0.clone(), k, data0.clone());
            }
        }
    }
    v
}

/// `budget`: steps this task may take at the larger alphabets; the alphabet is chosen by the length of the
/// operation alone, so the set explored is the same on every run.
fn explore(name: &str, addr: bool, mask: u32, s: &mut dyn Scn, lens: (usize, usize), extra: &[Secret], budget: [u64; 2]) -> Res<Stats> {
    step::init();
    cpufeatures::set_env(mask);
    let mut st = Stats::default();
    let mut cache = Cache::new();
    let all = secrets(lens, 0);
    let fail = |what: String, a: &Secret, b: &Secret| {
        let mut v = Violation::new(format!("{name}:{}", b.name), format!("{name}: {what}"));
        v.replay = format!("operation: {name}\nfirst secret ({}): key {} nonce {} data {}\nsecond secret ({}): key {} nonce {} data {}\n{what}", a.name, hx(&a.key), hx(&a.iv), hx(&a.data), b.name, hx(&b.key), hx(&b.iv), hx(&b.data));
        v
    };
    let first = all[0].clone();
    // once without counting: lazy binding and page faults are done with afterwards
    s.prep(&first);
    let _ = trace(s, &mut cache, addr, false);
    s.prep(&first);
    let (t0, r0) = trace(s, &mut cache, addr, false);
    if let Err(m) = r0 {
        return Err(fail(format!("panic: {m}"), &first, &first));
    }
    let want = t0.steps;
    let level = if want * 1100 <= budget[0] { 1 } else { 0 };
    let level = if level == 1 && want * 15000 <= budget[1] { 2 } else { level };
    let list = if level == 0 { all } else { secrets(lens, level) };
    for sec in list.iter().chain(extra).chain([&first]) {
        s.prep(sec);
        let (t, r) = trace(s, &mut cache, addr, false);
        st.evals += 1;
        st.states += t.steps;
        if let Err(m) = r {
            return Err(fail(format!("panic: {m}"), &first, sec));
        }
        if t.hash != t0.hash || t.steps != want {
            s.prep(&first);
            let (a, _) = trace(s, &mut cache, addr, true);
            s.prep(sec);
            let (b, _) = trace(s, &mut cache, addr, true);
            let i = a.log.iter().zip(&b.log).position(|(x, y)| x != y);
            let what = match i {
                None if a.log.len() == b.log.len() => {
                    eprintln!("harness: the trace of {name} is not reproducible");
                    std::process::exit(3);
                }
                None => format!("{} instructions with the first secret, {} with the second ({})", a.log.len(), b.log.len(), sec.name),
                Some(i) => {
                    let base = text().0;
                    let (x, y) = (a.log[i], b.log[i]);
                    if x.0 != y.0 {
                        format!("secret-dependent branch: after {i} instructions (at text+{:#x}) execution continues at text+{:#x} with the first secret and at text+{:#x} with the second ({})", a.log[i - 1].0 - base, x.0.wrapping_sub(base), y.0.wrapping_sub(base), sec.name)
                    } else {
                        format!("secret-dependent address: instruction {i} (at text+{:#x}) accesses memory through registers {:x}/{:x} with the first secret and {:x}/{:x} with the second ({})", x.0.wrapping_sub(base), x.1, x.2, y.1, y.2, sec.name)
                    }
                }
            };
            return Err(fail(what, &first, sec));
        }
    }
    st.distinct = st.evals;
    st.note(&format!("operations with alphabet level {level}"), 1);
    st.note("max_steps_per_operation", want);
    st.note("instructions_stepped", st.states);
    st.samples.push(format!("{name}: {want} instructions, identical for {} secrets", st.evals));
    Ok(st)
}

fn main() {
    let mut c = Ctx::new("C20", "exploration");
    let n = step::self_check();
    c.rule = format!(
        "every operation (construction, every call form, lengths over all batch shapes, draws, setters) in every CPU feature set is executed \
         instruction by instruction for a complete alphabet of secrets; the sequence of instruction addresses and of the registers forming \
         each memory address must be one sequence. Distinct = distinct (operation, feature set, secret) runs ({n} decoder self-checks)"
    );
    let t = tier() == "thorough";
    let budget = move |deep: bool, wide: bool| match (t, deep) {
        (false, false) => [500_000u64, 0],
        (false, true) => [2_500_000, if wide { 6_000_000 } else { 0 }],
        (true, false) => [5_000_000, 6_000_000],
        (true, true) => [30_000_000, 60_000_000],
    };
    let mut tasks = vec![];
    others(&mut tasks, t);
    for kind in CHACHAS {
        let mut acts = vec![(0u64, Act::New)];
        for form in [Form::Apply, Form::TryB2b, Form::TryInOut, Form::Write, Form::UncheckedApply] {
            let lens: &[usize] = if form == Form::Apply { &[1, 63, 64, 65, 128, 192, 256, 257, 320, 512, 513, 1024, 1100] } else { &[64, 100, 256, 600] };
            for &n in lens {
                acts.push((0, Act::Use(form, n)));
                if form == Form::Apply && n < 300 {
                    acts.push((17, Act::Use(form, n)));
                    acts.push((64 * ((1 << 31) - 2), Act::Use(form, n)));
                }
            }
        }
        acts.extend([(0, Act::Seek(100)), (100, Act::Seek(64 * 77 + 5)), (100, Act::Pos)]);
        for (env, mask) in kind.envs() {
            for &(pos, act) in &acts {
                // quick: the fewer-round variants run the same code but for the loop count
                if !t && kind.rounds() < 20 && !matches!((pos, act), (_, Act::New | Act::Use(Form::Apply, 64 | 256)) | (17, Act::Use(..)) | (0, Act::Use(Form::TryB2b, _))) {
                    continue;
                }
                let name = format!("{kind:?}/{env}/{act:?} at {pos}");
                let wide = matches!(kind, Kind::ChaCha20 | Kind::ChaCha20Legacy | Kind::XChaCha20);
                let deep = (wide || t) && (act == Act::New || matches!((pos, act), (0, Act::Use(Form::Apply, 64)) | (17, Act::Use(Form::Apply, 1))));
                tasks.push(task(name.clone(), move || {
                    let mut s = cipher(kind, pos, act);
                    explore(&name, true, mask, &mut *s, (kind.klen(), kind.ivlen()), &[], budget(deep, act == Act::New && wide))
                }));
            }
        }
    }
    for rounds in [8, 12, 20] {
        let mut acts = vec![];
        for wp in [0u128, 5, 16 * ((1 << 32) - 2) + 7] {
            for act in [Act::U32, Act::U64, Act::Fill(1), Act::Fill(32), Act::Fill(255), Act::Fill(300), Act::Fill(600), Act::Mixed] {
                acts.push((wp, act));
            }
        }
        acts.extend([(0, Act::New), (0, Act::SetWordPos(0x123)), (3, Act::SetStream(9)), (7, Act::Serialize), (7, Act::Deserialize)]);
        for (env, mask) in envs() {
            for &(wp, act) in &acts {
                if !t && rounds < 20 && wp == 0 && !matches!(act, Act::New) {
                    continue;
                }
                let name = format!("ChaCha{rounds}Rng/{env}/{act:?} at word {wp}");
                let wide = rounds == 20;
                let deep = (wide || t) && matches!((wp, act), (0, Act::New) | (5, Act::U32 | Act::U64) | (_, Act::Deserialize));
                tasks.push(task(name.clone(), move || {
                    let mut s = rng(rounds, wp, act);
                    explore(&name, true, mask, &mut *s, (32, 8), &[], budget(deep, act == Act::New && wide))
                }));
            }
        }
    }
    rare_tasks(&mut tasks);
    c.run(tasks);
    c.finish()
}

/// The other crates: Salsa and Rabbit like ChaCha; HC-256 and RC4 look up tables by secrets by design, so for them
/// the sequence of instructions only.
fn others(tasks: &mut Vec<Task>, t: bool) {
    use Kind::*;
    for kind in [Salsa20, XSalsa20, Salsa8, XSalsa8, Salsa12, XSalsa12, Rabbit, RabbitKeyOnly, Hc256, Rc4] {
        let addr = !matches!(kind, Hc256 | Rc4);
        let less = matches!(kind, Salsa12 | XSalsa12 | Salsa8 | XSalsa8);
        let mut acts = vec![(0u64, Act::New)];
        for form in [Form::Apply, Form::TryB2b, Form::Write] {
            let lens: &[usize] = if form == Form::Apply { &[1, 15, 16, 17, 63, 64, 65, 130, 300] } else { &[64, 100] };
            for &n in lens {
                acts.push((0, Act::Use(form, n)));
                if form == Form::Apply && n < 100 {
                    acts.push((17, Act::Use(form, n)));
                    if kind.seekable() {
                        acts.push((64 * ((1 << 32) - 2), Act::Use(form, n)));
                    }
                }
            }
        }
        if kind.seekable() {
            acts.extend([(0, Act::Seek(100)), (100, Act::Seek(64 * 77 + 5)), (100, Act::Pos)]);
        }
        for (pos, act) in acts {
            if !t && less && !matches!((pos, act), (0, Act::New | Act::Use(Form::Apply, 64))) {
                continue;
            }
            let name = format!("{kind:?}/{act:?} at {pos}");
            let deep = matches!((pos, act), (0, Act::New) | (0, Act::Use(Form::Apply, 16 | 64)) | (17, Act::Use(Form::Apply, 1)));
            let budget = match (t, deep && addr) {
                (false, false) => [500_000, 0],
                (false, true) => [5_000_000, 0],
                (true, false) => [5_000_000, 0],
                (true, true) => [30_000_000, 60_000_000],
            };
            tasks.push(task(name.clone(), move || {
                let mut s = cipher(kind, pos, act);
                explore(&name, addr, 0, &mut *s, (kind.klen(), kind.ivlen()), &[], budget)
            }));
        }
    }
}

/// Blocks of the all-zero key and nonce that contain a rare keystream word: (kind, block, word index, word).
/// Found once by search; the claim is checked against the reference on every run.
const RARE: [(Kind, u64, usize, u32); 10] = [
    (Kind::ChaCha8, 20883601, 3, 0),
    (Kind::ChaCha8, 250087002, 8, !0),
    (Kind::ChaCha12, 226154686, 8, 0),
    (Kind::ChaCha12, 309659838, 9, !0),
    (Kind::ChaCha20, 54194018, 12, !0),
    (Kind::ChaCha20Legacy, 54194018, 12, !0),
    (Kind::XChaCha8, 397092064, 9, 0),
    (Kind::XChaCha8, 3947869, 1, !0),
    (Kind::XChaCha20, 39434341, 6, 0),
    (Kind::XChaCha20, 83235965, 6, !0),
];

fn zero_secret(kind: Kind) -> Secret {
    Secret { name: "zero key and nonce".into(), key: vec![0; kind.klen()], iv: vec![0; kind.ivlen()], data: alpha::base(64, 0x19) }
}

fn rare_tasks(tasks: &mut Vec<Task>) {
    for (kind, block, word, value) in RARE {
        let b = kind.ref_block(&vec![0; kind.klen()], &vec![0; kind.ivlen()], block);
        assert_eq!(b[4 * word..4 * word + 4], value.to_le_bytes(), "{kind:?} block {block}");
        for (env, mask) in kind.envs() {
            for act in [Act::Use(Form::Apply, 64), Act::Use(Form::Write, 256), Act::Use(Form::TryB2b, 100)] {
                let name = format!("{kind:?}/{env}/{act:?} at block {block} with keystream word {value:08x}");
                tasks.push(task(name.clone(), move || {
                    explore(&name, true, mask, &mut *cipher(kind, 64 * block, act), (kind.klen(), kind.ivlen()), &[zero_secret(kind)], [0, 0])
                }));
            }
            if matches!(kind, Kind::ChaCha8 | Kind::ChaCha12 | Kind::ChaCha20) {
                let at = 16 * block as u128 + word as u128;
                for (wp, act) in [(at, Act::U32), (at, Act::U64), (at - 1, Act::U64), (at - word as u128, Act::Fill(64))] {
                    let name = format!("ChaCha{}Rng/{env}/{act:?} at word {wp} with keystream word {value:08x}", kind.rounds());
                    tasks.push(task(name.clone(), move || {
                        explore(&name, true, mask, &mut *rng(kind.rounds(), wp, act), (32, 8), &[Secret { iv: vec![0; 8], ..zero_secret(kind) }], [0, 0])
                    }));
                }
            }
        }
    }
}
