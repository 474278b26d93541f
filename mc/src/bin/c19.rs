//! C19: constructors accept exactly the documented lengths and agree.
use cipher::array::Array;
use cipher::{InnerIvInit, KeyInit, KeyIvInit, StreamCipher, StreamCipherCoreWrapper};
use mc::alpha::base;
use mc::core::CoreOf;
use mc::kinds::Kind;
use mc::run::{Ctx, Res, Stats, Task, Violation, diff, sut, task, tier};

const N: usize = 400;

fn ks<C: StreamCipher>(mut c: C) -> Vec<u8> {
    let mut b = vec![0u8; N];
    c.apply_keystream(&mut b[..7]);
    c.apply_keystream(&mut b[7..300]);
    c.apply_keystream(&mut b[300..]);
    b
}

fn v(kind: Kind, what: &str, e: String) -> Violation {
    let mut r = Violation::new(format!("{kind:?}:{what}"), format!("{kind:?} {what}: {e}"));
    r.replay = r.what.clone();
    r
}

/// A slice of `n` zero bytes without memory behind most of it (for lengths beyond 2^32).
fn huge(n: usize) -> &'static [u8] {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p.cast(), n)
    }
}

/// lengths tried for a documented length
fn lens(doc: usize, max: usize) -> Vec<usize> {
    let mut l: Vec<usize> = (0..=max).collect();
    for e in 8..=32 {
        l.push((1 << e) + doc);
        l.push(1 << e);
    }
    l.sort();
    l.dedup();
    l
}

fn src(n: usize, salt: u8, big: &'static [u8]) -> std::borrow::Cow<'static, [u8]> {
    if n <= 1 << 16 { base(n, salt).into() } else { (&big[..n]).into() }
}

fn key_iv<C: KeyIvInit>(kind: Kind, what: &'static str, stream: fn(C) -> Vec<u8>) -> impl Fn() -> Res<Stats> {
    move || {
        let (kl, il) = (kind.klen(), kind.ivlen());
        let mut st = Stats::default();
        if (C::key_size(), C::iv_size()) != (kl, il) {
            return Err(v(kind, what, format!("sizes reported as {} and {}, documented {kl} and {il}", C::key_size(), C::iv_size())));
        }
        let big = huge((1 << 32) + 512);
        let max = if tier() == "thorough" { 600 } else { 300 };
        for kn in lens(kl, max) {
            let key = src(kn, 0x19, big);
            for n in lens(il, max) {
                if kn > max && n > max {
                    continue;
                }
                let iv = src(n, 0x83, big);
                let r = sut(|| C::new_from_slices(&key, &iv)).map_err(|e| v(kind, what, format!("new_from_slices with {kn}-byte key and {n}-byte IV panicked: {e}")))?;
                let want = kn == kl && n == il;
                if r.is_ok() != want {
                    return Err(v(kind, what, format!("new_from_slices with {kn}-byte key and {n}-byte IV: success {}, expected {want}", r.is_ok())));
                }
                st.evals += 1;
                st.distinct += 1;
            }
        }
        // agreement of the constructors, over alphabets
        for (key, iv) in mc::alpha::key_iv(kl, il, false) {
            let a = C::new(&Array::try_from(&key[..]).unwrap(), &Array::try_from(&iv[..]).unwrap());
            let b = C::new_from_slices(&key, &iv).map_err(|_| v(kind, what, "documented lengths refused".into()))?;
            let (a, b) = (sut(|| stream(a)).map_err(|e| v(kind, what, e))?, sut(|| stream(b)).map_err(|e| v(kind, what, e))?);
            let mut g = kind.ref_stream(&key, &iv);
            let mut want = vec![];
            while want.len() < N {
                g(&mut want);
            }
            want.truncate(N);
            if a != want || b != want {
                return Err(v(kind, what, format!("array constructor: {}; slice constructor: {}", diff(&a, &want), diff(&b, &want))));
            }
            st.evals += 2;
            st.bytes += 2 * N as u64;
        }
        // every bit of key and nonce takes effect
        for salt in [0u8, 0x5f] {
            let (key, iv) = (base(kl, salt), base(il, salt ^ 0x21));
            let f = |k: &[u8], i: &[u8]| stream(C::new(&Array::try_from(k).unwrap(), &Array::try_from(i).unwrap()));
            let b0 = f(&key, &iv);
            for bit in 0..8 * (kl + il) {
                let (mut k, mut i) = (key.clone(), iv.clone());
                if bit < 8 * kl { k[bit / 8] ^= 1 << (bit % 8) } else { i[bit / 8 - kl] ^= 1 << (bit % 8) }
                if f(&k, &i) == b0 {
                    return Err(v(kind, what, format!("bit {bit} of key||nonce has no effect")));
                }
                st.evals += 1;
                st.distinct += 1;
            }
        }
        st.samples.push(format!("{kind:?} {what}: key lengths x IV lengths 0..={max}, plus 2^8..2^32 and documented + 2^e"));
        Ok(st)
    }
}

fn key_only<C: KeyInit>(kind: Kind, what: &'static str, ok: fn(usize) -> bool, stream: fn(C) -> Vec<u8>) -> impl Fn() -> Res<Stats> {
    move || {
        let mut st = Stats::default();
        if C::key_size() != kind.klen() {
            return Err(v(kind, what, format!("key size reported as {}", C::key_size())));
        }
        let big = huge((1 << 32) + 512);
        for n in lens(kind.klen(), 1200) {
            let key = src(n, 0x19, big);
            let r = sut(|| C::new_from_slice(&key)).map_err(|e| v(kind, what, format!("new_from_slice with {n} bytes panicked: {e}")))?;
            if r.is_ok() != ok(n) {
                return Err(v(kind, what, format!("new_from_slice with {n} bytes: success {}", r.is_ok())));
            }
            st.evals += 1;
            st.distinct += 1;
            let Ok(c) = r else { continue };
            let got = sut(|| stream(c)).map_err(|e| v(kind, what, e))?;
            let mut g = kind.ref_stream(&key, &[]);
            let mut want = vec![];
            while want.len() < N {
                g(&mut want);
            }
            want.truncate(N);
            if got != want {
                return Err(v(kind, what, format!("{n}-byte key: {}", diff(&got, &want))));
            }
            if n == kind.klen() {
                let a = sut(|| stream(C::new(&Array::try_from(&key[..]).unwrap()))).map_err(|e| v(kind, what, e))?;
                if a != want {
                    return Err(v(kind, what, format!("array constructor: {}", diff(&a, &want))));
                }
            }
            for bit in 0..8 * n {
                let mut k = key.to_vec();
                k[bit / 8] ^= 1 << (bit % 8);
                if stream(C::new_from_slice(&k).ok().expect("length")) == got {
                    return Err(v(kind, what, format!("bit {bit} of a {n}-byte key has no effect")));
                }
                st.evals += 1;
            }
        }
        Ok(st)
    }
}

macro_rules! via {
    ($t:ty) => {
        |c: $t| ks(StreamCipherCoreWrapper::from_core(c))
    };
}

fn main() {
    let mut c = Ctx::new("C19", "exploration");
    c.rule = "every key length and IV length 0..=300 in every combination (and lengths congruent to the documented ones modulo 2^8..2^32) \
              given to every slice constructor of every cipher and core; agreement of slice, array, core and inner-object constructors \
              with each other and the reference over key/nonce alphabets; every single bit of key, nonce and seed must matter"
        .into();
    let mut t: Vec<Task> = vec![];
    macro_rules! kiv {
        ($kind:ident, $t:ty) => {
            t.push(task(concat!(stringify!($kind), "/cipher"), key_iv::<$t>(Kind::$kind, "cipher", ks)));
            t.push(task(concat!(stringify!($kind), "/core"), key_iv::<<$t as CoreOf>::C>(Kind::$kind, "core", via!(<$t as CoreOf>::C))));
        };
    }
    kiv!(ChaCha8, chacha20::ChaCha8);
    kiv!(ChaCha12, chacha20::ChaCha12);
    kiv!(ChaCha20, chacha20::ChaCha20);
    kiv!(ChaCha20Legacy, chacha20::ChaCha20Legacy);
    kiv!(XChaCha8, chacha20::XChaCha8);
    kiv!(XChaCha12, chacha20::XChaCha12);
    kiv!(XChaCha20, chacha20::XChaCha20);
    kiv!(Salsa8, salsa20::Salsa8);
    kiv!(Salsa12, salsa20::Salsa12);
    kiv!(Salsa20, salsa20::Salsa20);
    kiv!(XSalsa8, salsa20::XSalsa8);
    kiv!(XSalsa12, salsa20::XSalsa12);
    kiv!(XSalsa20, salsa20::XSalsa20);
    t.push(task("Hc256/cipher", key_iv::<hc_256::Hc256>(Kind::Hc256, "cipher", ks)));
    t.push(task("Hc256/core", key_iv::<hc_256::Hc256Core>(Kind::Hc256, "core", via!(hc_256::Hc256Core))));
    t.push(task("Rabbit/cipher", key_iv::<rabbit::Rabbit>(Kind::Rabbit, "cipher", ks)));
    t.push(task("Rabbit/core", key_iv::<rabbit::RabbitCore>(Kind::Rabbit, "core", via!(rabbit::RabbitCore))));
    t.push(task("RabbitKeyOnly/cipher", key_only::<rabbit::RabbitKeyOnly>(Kind::RabbitKeyOnly, "cipher", |n| n == 16, ks)));
    t.push(task("RabbitKeyOnly/core", key_only::<rabbit::RabbitKeyOnlyCore>(Kind::RabbitKeyOnly, "core", |n| n == 16, via!(rabbit::RabbitKeyOnlyCore))));
    t.push(task("Rc4", key_only::<rc4::Rc4>(Kind::Rc4, "cipher", |n| (1..=256).contains(&n), ks)));
    t.push(task("Rabbit/inner", || {
        let k = Kind::Rabbit;
        let w = "inner key-only object plus IV";
        let mut st = Stats::default();
        for n in lens(8, 1000) {
            if n > 1 << 20 {
                continue;
            }
            let inner = rabbit::RabbitKeyOnlyCore::new(&base(16, 3)[..].try_into().unwrap());
            let r = sut(|| rabbit::RabbitCore::inner_iv_slice_init(inner, &base(n, 4))).map_err(|e| v(k, w, format!("{n}-byte IV panicked: {e}")))?;
            if r.is_ok() != (n == 8) {
                return Err(v(k, w, format!("{n}-byte IV: success {}", r.is_ok())));
            }
            st.evals += 1;
            st.distinct += 1;
        }
        for (key, iv) in mc::alpha::key_iv(16, 8, true) {
            let mk = || rabbit::RabbitKeyOnlyCore::new(&key[..].try_into().unwrap());
            let a = sut(|| via!(rabbit::RabbitCore)(rabbit::RabbitCore::inner_iv_init(mk(), &iv[..].try_into().unwrap()))).map_err(|e| v(k, w, e))?;
            let b = sut(|| via!(rabbit::RabbitCore)(rabbit::RabbitCore::inner_iv_slice_init(mk(), &iv).expect("8 bytes"))).map_err(|e| v(k, w, e))?;
            let d = ks(rabbit::Rabbit::new_from_slices(&key, &iv).expect("lengths"));
            if a != b || a != d {
                return Err(v(k, w, format!("differs from the direct constructor: {} / {}", diff(&a, &d), diff(&b, &d))));
            }
            st.evals += 3;
        }
        Ok(st)
    }));
    // seeds
    for (name, mask) in mc::kinds::envs() {
        t.push(task(format!("seeds/{name}"), move || {
            use chacha20::rand_core::SeedableRng;
            use chacha20::variants::{Ietf, Legacy};
            use chacha20::{ChaChaCore, R8, R12, R20};
            cpufeatures::set_env(mask);
            let mut st = Stats::default();
            macro_rules! go {
                ($r:ty, $v:ty, $kind:ident, $iv:expr) => {
                    for seed in mc::alpha::strings(32, false) {
                        let s: [u8; 32] = seed[..].try_into().unwrap();
                        let got = sut(|| via!(ChaChaCore<$r, $v>)(ChaChaCore::from_seed(s)))
                            .map_err(|e| v(Kind::$kind, concat!("from_seed of the ", stringify!($v), " core"), format!("panicked: {e}")))?;
                        let want = mc::run::sut(|| {
                            let mut g = Kind::$kind.ref_stream(&seed, &[0u8; $iv]);
                            let mut w = vec![];
                            while w.len() < N {
                                g(&mut w);
                            }
                            w.truncate(N);
                            w
                        })
                        .unwrap();
                        if got != want {
                            return Err(v(Kind::$kind, concat!("from_seed of the ", stringify!($v), " core"), diff(&got, &want)));
                        }
                        st.evals += 1;
                        st.distinct += 1;
                    }
                };
            }
            go!(R8, Ietf, ChaCha8, 12);
            go!(R12, Ietf, ChaCha12, 12);
            go!(R20, Ietf, ChaCha20, 12);
            go!(R8, Legacy, Legacy8Seed, 0);
            go!(R12, Legacy, Legacy12Seed, 0);
            go!(R20, Legacy, Legacy20Seed, 0);
            for k in mc::rng::RNGS {
                let draw = |s: [u8; 32]| -> Result<Vec<u8>, String> {
                    let mut o = sut(|| k.make(s))?;
                    let mut b = vec![0; N];
                    o.fill(0, &mut b)?;
                    Ok(b)
                };
                for salt in [1u8, 0x99] {
                    let s: [u8; 32] = base(32, salt).try_into().unwrap();
                    let e = |e| Violation::new(format!("{k:?}"), format!("{k:?}: {e}"));
                    let b0 = draw(s).map_err(e)?;
                    for bit in 0..256 {
                        let mut t = s;
                        t[bit / 8] ^= 1 << (bit % 8);
                        if draw(t).map_err(e)? == b0 {
                            return Err(Violation::new(format!("{k:?}:bit{bit}"), format!("{k:?}: seed bit {bit} has no effect")));
                        }
                        st.evals += 1;
                    }
                }
            }
            Ok(st)
        }));
    }
    c.run(t);
    c.finish()
}
