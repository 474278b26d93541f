//! C17: formatting an object reveals nothing about its secrets or state.
use chacha20::rand_core::{Rng, SeedableRng};
use chacha20::variants::{Ietf, Legacy};
use chacha20::{ChaChaCore, R8, R12, R20};
use cipher::array::Array;
use cipher::{BlockSizeUser, KeyInit, KeyIvInit, StreamCipher, StreamCipherSeek, StreamCipherSeekCore};
use mc::alpha::{base, few, strings};
use mc::core::CoreOf;
use mc::kinds::*;
use mc::run::*;
use std::fmt::{Debug, Display};

/// Texts of an object, `None` if its type cannot be formatted (decided at compile time for the concrete type).
struct Probe<'a, T>(&'a T);
trait NotDebug {
    fn debug_texts(&self) -> Option<Vec<String>> {
        None
    }
}
impl<T> NotDebug for &Probe<'_, T> {}
trait IsDebug {
    fn debug_texts(&self) -> Option<Vec<String>>;
}
impl<T: Debug> IsDebug for Probe<'_, T> {
    fn debug_texts(&self) -> Option<Vec<String>> {
        let x = self.0;
        Some(vec![
            format!("{x:?}"), format!("{x:#?}"), format!("{x:x?}"), format!("{x:#X?}"), format!("{x:+?}"), format!("{x:200?}"),
            format!("{x:.3?}"), format!("{x:-<3?}"), format!("{x:010?}"), format!("{:?}", Some(x)), format!("{:#?}", [x]),
        ])
    }
}
trait NotDisplay {
    fn display_texts(&self) -> Option<Vec<String>> {
        None
    }
}
impl<T> NotDisplay for &Probe<'_, T> {}
#[allow(dead_code)]
trait IsDisplay {
    fn display_texts(&self) -> Option<Vec<String>>;
}
impl<T: Display> IsDisplay for Probe<'_, T> {
    fn display_texts(&self) -> Option<Vec<String>> {
        let x = self.0;
        Some(vec![format!("{x}"), format!("{x:#}"), format!("{x:.2}"), format!("{x:300}")])
    }
}
type Fmt<T> = fn(&T) -> Option<Vec<String>>;
macro_rules! fmt {
    ($t:ty) => {
        |x: &$t| {
            let d = (&Probe(x)).debug_texts();
            let e = (&Probe(x)).display_texts();
            match (d, e) {
                (None, None) => None,
                (a, b) => Some([a.unwrap_or_default(), b.unwrap_or_default()].concat()),
            }
        }
    };
}

/// Collects the texts of one type; all must be equal.
struct Same<T> {
    name: String,
    fmt: Fmt<T>,
    first: Option<(Option<Vec<String>>, String)>,
    st: Stats,
}

impl<T> Same<T> {
    fn new(name: String, fmt: Fmt<T>) -> Self {
        Same { name, fmt, first: None, st: Stats::default() }
    }
    fn look(&mut self, x: &T, state: impl Fn() -> String) -> Res<()> {
        let v = sut(|| (self.fmt)(x)).map_err(|e| {
            Violation::new(format!("{}:panic", self.name), format!("formatting {} panicked in state {}: {e}", self.name, state()))
        })?;
        self.st.evals += 1;
        self.st.distinct += 1;
        match &self.first {
            None => {
                self.st.outcomes.insert(match &v {
                    None => format!("{}: cannot be formatted", self.name),
                    Some(t) => t[0].clone(),
                });
                self.first = Some((v, state()))
            }
            Some((f, at)) if *f != v => {
                let (a, b) = (f.clone().unwrap_or_default(), v.unwrap_or_default());
                let i = (0..a.len()).find(|&i| a[i] != b[i]).unwrap_or(0);
                return Err(Violation::new(
                    self.name.clone(),
                    format!("text of {} depends on its state: {:?} in state {at}, {:?} in state {}", self.name, a[i], b[i], state()),
                ));
            }
            _ => {}
        }
        Ok(())
    }
}

fn positions(limit: u128, t: bool) -> Vec<u128> {
    let mut v: Vec<u128> = (0..=if t { 1200 } else { 300 }).collect();
    v.extend((0..if t { 300 } else { 140 }).map(|d| limit - d));
    let mut e = 9;
    while (1u128 << e) < limit {
        for d in 0..=2 {
            v.push((1 << e) - 1 + d);
            v.push((1 << e) + 64 * d);
        }
        e += 1;
    }
    v.retain(|&p| p <= limit && p <= u64::MAX as u128 * 64);
    v
}

/// Seekable ciphers: every string of the alphabet at a few positions, a few at every position.
fn seekable<C: KeyIvInit + StreamCipher + StreamCipherSeek>(kind: Kind, mask: u32, t: bool, f: Fmt<C>) -> Res<Stats> {
    cpufeatures::set_env(mask);
    let mut same = Same::new(kind.name(), f);
    let mk = |k: &[u8], iv: &[u8]| C::new(&Array::try_from(k).unwrap(), &Array::try_from(iv).unwrap());
    let at = |c: &mut C, p: u128| sut(|| c.try_seek(p).is_ok());
    for s in strings(kind.klen() + kind.ivlen(), t) {
        let (k, iv) = s.split_at(kind.klen());
        let mut c = mk(k, iv);
        let st = |p: u128| move || format!("key={} iv={} pos={p}", hx(k), hx(iv));
        same.look(&c, st(0))?;
        for p in [1, 64, 1000, kind.limit() - 1] {
            let _ = at(&mut c, p);
            same.look(&c, st(p))?;
        }
    }
    for (k, iv) in few(kind.klen(), kind.ivlen(), 3) {
        let mut c = mk(&k, &iv);
        for p in positions(kind.limit(), t) {
            let _ = at(&mut c, p);
            same.look(&c, || format!("key={} iv={} pos={p}", hx(&k), hx(&iv)))?;
            let mut b = [0u8; 70];
            let r = sut(|| c.try_apply_keystream(&mut b).is_ok());
            same.look(&c, || format!("key={} iv={} pos={p}, then 70 bytes ({r:?})", hx(&k), hx(&iv)))?;
        }
    }
    Ok(same.st)
}

/// Non-seekable ciphers: consumption histories.
fn plain_cipher<C: StreamCipher>(kind: Kind, mk: &dyn Fn(&[u8], &[u8]) -> C, t: bool, f: Fmt<C>) -> Res<Stats> {
    let mut same = Same::new(kind.name(), f);
    for s in strings(kind.klen() + kind.ivlen(), t) {
        let (k, iv) = s.split_at(kind.klen());
        let mut c = mk(k, iv);
        for n in [0, 1, 3, 40] {
            let _ = sut(|| c.try_apply_keystream(&mut vec![0; n]).is_ok());
            same.look(&c, || format!("key={} iv={} after {n} more bytes", hx(k), hx(iv)))?;
        }
    }
    for (k, iv) in few(kind.klen(), kind.ivlen(), 3) {
        for chunk in [1, 7, 16, 100] {
            let mut c = mk(&k, &iv);
            for i in 0..if t { 20000 } else { 3000 } {
                let _ = sut(|| c.try_apply_keystream(&mut vec![0; chunk]).is_ok());
                same.look(&c, || format!("key={} iv={} after {} bytes", hx(&k), hx(&iv), chunk * (i + 1)))?;
            }
        }
    }
    Ok(same.st)
}

/// Block-level cores.
fn core<C: StreamCipherSeekCore>(name: &str, kind: Kind, mask: u32, t: bool, mk: &dyn Fn(&[u8], &[u8]) -> C, f: Fmt<C>) -> Res<Stats> {
    cpufeatures::set_env(mask);
    let mut same = Same::new(name.into(), f);
    let max = (1u128 << kind.ctr_bits().unwrap()) - 1;
    let mut ps: Vec<u128> = vec![0, 1, 2, 100, max - 1, max];
    for e in 1..kind.ctr_bits().unwrap() {
        ps.extend([(1 << e) - 1, 1 << e]);
    }
    for s in strings(kind.klen() + kind.ivlen(), t) {
        let (k, iv) = s.split_at(kind.klen());
        let mut c = mk(k, iv);
        for (i, &p) in ps.iter().enumerate() {
            if i > 3 && s != base(s.len(), 0x3d) {
                break;
            }
            let n = C::Counter::try_from(p as u64).ok().unwrap();
            let _ = sut(|| c.set_block_pos(n));
            same.look(&c, || format!("key={} iv={} block={p}", hx(k), hx(iv)))?;
            let _ = sut(|| c.write_keystream_block(&mut Default::default()));
            same.look(&c, || format!("key={} iv={} block={p}, then a block", hx(k), hx(iv)))?;
        }
    }
    Ok(same.st)
}

fn non_seek_core<C>(name: &str, kind: Kind, t: bool, mk: &dyn Fn(&[u8], &[u8]) -> C, step: fn(&mut C), f: Fmt<C>) -> Res<Stats> {
    let mut same = Same::new(name.into(), f);
    for s in strings(kind.klen() + kind.ivlen(), t) {
        let (k, iv) = s.split_at(kind.klen());
        let mut c = mk(k, iv);
        for i in 0..5 {
            same.look(&c, || format!("key={} iv={} block={i}", hx(k), hx(iv)))?;
            let _ = sut(|| step(&mut c));
        }
    }
    let (k, iv) = few(kind.klen(), kind.ivlen(), 1).remove(0);
    let mut c = mk(&k, &iv);
    for i in 0..if t { 100_000 } else { 5000 } {
        same.look(&c, || format!("key={} iv={} block={i}", hx(&k), hx(&iv)))?;
        let _ = sut(|| step(&mut c));
    }
    Ok(same.st)
}

macro_rules! rng {
    ($t:ty, $mask:expr, $thorough:expr) => {{
        let f: Fmt<$t> = fmt!($t);
        cpufeatures::set_env($mask);
        let mut same = Same::new(stringify!($t).into(), f);
        let mk = |s: &[u8]| <$t>::from_seed(s.try_into().unwrap());
        for s in strings(40, $thorough) {
            let mut r = mk(&s[..32]);
            let stream = u64::from_le_bytes(s[32..].try_into().unwrap());
            same.look(&r, || format!("seed={} fresh", hx(&s)))?;
            let _ = sut(|| r.set_stream(stream));
            same.look(&r, || format!("seed={} stream={stream:x}", hx(&s)))?;
            let _ = sut(|| r.next_u32());
            same.look(&r, || format!("seed={} stream={stream:x}, a word drawn", hx(&s)))?;
        }
        let mut r = mk(&base(32, 9));
        for i in 0..400 {
            same.look(&r, || format!("{i} words drawn"))?;
            let _ = sut(|| r.next_u32());
        }
        for e in 0..68 {
            for d in 0..70u128 {
                let p = (1u128 << e) - 1 + d;
                let _ = sut(|| r.set_word_pos(p));
                same.look(&r, || format!("word position {p:#x}"))?;
                let _ = sut(|| r.fill_bytes(&mut [0; 9]));
                same.look(&r, || format!("word position {p:#x}, then 9 bytes"))?;
            }
        }
        Ok(same.st)
    }};
}

fn main() {
    let mut c = Ctx::new("C17", "exploration");
    c.rule = "for every object type that can be formatted (decided at compile time for every public cipher, core and RNG type): all \
              texts over the complete alphabet of keys/nonces/seeds/streams and over every position of the windows (start, every power \
              of two, the end of the keystream, exhausted objects) must be one text, for 11 Debug and 4 Display format strings. \
              Distinct = distinct (secret, position) states; non-trivial = the text was produced and compared"
        .into();
    let t = tier() == "thorough";
    let mut tasks = vec![];
    macro_rules! seek {
        ($($k:ident $t:ty),*) => { $(
            for (env, mask) in Kind::$k.envs() {
                tasks.push(task(format!("{}/{env}", stringify!($k)), move || seekable::<$t>(Kind::$k, mask, t, fmt!($t))));
                type C = <$t as CoreOf>::C;
                tasks.push(task(format!("core/{}/{env}", stringify!($k)), move || {
                    core::<C>(concat!("core of ", stringify!($k)), Kind::$k, mask, t, &kiv::<C>, fmt!(C))
                }));
            }
        )* };
    }
    fn kiv<C: KeyIvInit>(k: &[u8], iv: &[u8]) -> C {
        C::new(&Array::try_from(k).unwrap(), &Array::try_from(iv).unwrap())
    }
    fn seeded<C: SeedableRng<Seed = [u8; 32]>>(k: &[u8], _: &[u8]) -> C {
        C::from_seed(k.try_into().unwrap())
    }
    fn step<C: cipher::StreamCipherCore + BlockSizeUser>(c: &mut C) {
        c.write_keystream_block(&mut Default::default())
    }
    seek!(
        ChaCha8 chacha20::ChaCha8, ChaCha12 chacha20::ChaCha12, ChaCha20 chacha20::ChaCha20, ChaCha20Legacy chacha20::ChaCha20Legacy,
        XChaCha8 chacha20::XChaCha8, XChaCha12 chacha20::XChaCha12, XChaCha20 chacha20::XChaCha20,
        Salsa8 salsa20::Salsa8, Salsa12 salsa20::Salsa12, Salsa20 salsa20::Salsa20,
        XSalsa8 salsa20::XSalsa8, XSalsa12 salsa20::XSalsa12, XSalsa20 salsa20::XSalsa20
    );
    macro_rules! gen_core {
        ($($k:ident $t:ty),*) => { $(
            tasks.push(task(format!("seeded core/{}", stringify!($t)), move || {
                core::<$t>(stringify!($t), Kind::$k, SOFT, t, &seeded::<$t>, fmt!($t))
            }));
        )* };
    }
    gen_core!(
        Legacy8Seed ChaChaCore<R8, Legacy>, Legacy12Seed ChaChaCore<R12, Legacy>, Legacy20Seed ChaChaCore<R20, Legacy>,
        ChaCha8 ChaChaCore<R8, Ietf>, ChaCha12 ChaChaCore<R12, Ietf>, ChaCha20 ChaChaCore<R20, Ietf>
    );
    tasks.push(task("Hc256", move || plain_cipher(Kind::Hc256, &kiv::<hc_256::Hc256>, t, fmt!(hc_256::Hc256))));
    tasks.push(task("Hc256Core", move || {
        non_seek_core("Hc256Core", Kind::Hc256, t, &kiv::<hc_256::Hc256Core>, step, fmt!(hc_256::Hc256Core))
    }));
    tasks.push(task("Rabbit", move || plain_cipher(Kind::Rabbit, &kiv::<rabbit::Rabbit>, t, fmt!(rabbit::Rabbit))));
    tasks.push(task("RabbitCore", move || {
        non_seek_core("RabbitCore", Kind::Rabbit, t, &kiv::<rabbit::RabbitCore>, step, fmt!(rabbit::RabbitCore))
    }));
    tasks.push(task("RabbitKeyOnly", move || {
        let mk = |k: &[u8], _: &[u8]| rabbit::RabbitKeyOnly::new(&Array::try_from(k).unwrap());
        plain_cipher(Kind::RabbitKeyOnly, &mk, t, fmt!(rabbit::RabbitKeyOnly))
    }));
    tasks.push(task("RabbitKeyOnlyCore", move || {
        let mk = |k: &[u8], _: &[u8]| rabbit::RabbitKeyOnlyCore::new(&Array::try_from(k).unwrap());
        non_seek_core("RabbitKeyOnlyCore", Kind::RabbitKeyOnly, t, &mk, step, fmt!(rabbit::RabbitKeyOnlyCore))
    }));
    tasks.push(task("Rc4", move || {
        let mk = |k: &[u8], _: &[u8]| rc4::Rc4::new_from_slice(k).unwrap();
        plain_cipher(Kind::Rc4, &mk, t, fmt!(rc4::Rc4))
    }));
    for (env, mask) in envs() {
        tasks.push(task(format!("ChaCha8Rng/{env}"), move || rng!(chacha20::ChaCha8Rng, mask, t)));
        tasks.push(task(format!("ChaCha12Rng/{env}"), move || rng!(chacha20::ChaCha12Rng, mask, t)));
        tasks.push(task(format!("ChaCha20Rng/{env}"), move || rng!(chacha20::ChaCha20Rng, mask, t)));
    }
    c.run(tasks);
    c.finish()
}
