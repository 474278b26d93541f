//! C16: dropped ciphers and RNGs leave nothing secret behind. Built with the crates' `zeroize` features.
//! What an object leaves in its memory must be one and the same image for every secret and history.
use chacha20::rand_core::block::{BlockRng, Generator};
use chacha20::rand_core::{Rng, SeedableRng};
use chacha20::variants::{Ietf, Legacy};
use chacha20::{ChaChaCore, R8, R12, R20};
use cipher::array::Array;
use cipher::{KeyInit, KeyIvInit, StreamCipher, StreamCipherCore, StreamCipherSeek, StreamCipherSeekCore};
use mc::alpha::{few, strings};
use mc::core::CoreOf;
use mc::kinds::*;
use mc::run::*;
use std::hint::black_box;

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    fn declares(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
trait Yes {
    fn declares(&self) -> bool {
        true
    }
}
impl<T: zeroize::ZeroizeOnDrop> Yes for Probe<T> {}

/// Images left behind by one type.
struct Images {
    name: String,
    place: &'static str,
    first: [Option<(Vec<u8>, String)>; 2],
    core: Option<(usize, usize)>,
    /// bytes that are padding between fields: no part of the object, whatever they hold
    pad: Vec<usize>,
    st: Stats,
}

impl Images {
    fn new(name: &str) -> Images {
        Images { name: name.into(), place: "", first: [None, None], core: None, pad: vec![], st: Stats::default() }
    }
    fn add(&mut self, i: usize, mut img: Vec<u8>, state: &dyn Fn() -> String) -> Res<()> {
        for &j in &self.pad {
            img[j] = 0;
        }
        self.st.evals += 1;
        self.st.distinct += 1;
        self.st.bytes += img.len() as u64;
        match &self.first[i] {
            None => self.first[i] = Some((img, state())),
            Some((f, at)) if *f != img => {
                let d: Vec<usize> = (0..f.len()).filter(|&j| f[j] != img[j]).collect();
                let part = match self.core {
                    Some((a, n)) if d.iter().all(|&j| j < a || j >= a + n) => "buffer",
                    Some(_) => "core",
                    None => "object",
                };
                return Err(Violation::new(
                    format!("{}:left:{part}", self.name),
                    format!(
                        "{}: memory of a dropped object depends on its state ({part}, byte {} of {}; {}): {:02x} after {at}, {:02x} after {}",
                        self.name, d[0], f.len(), self.place, f[d[0]], img[d[0]], state()
                    ),
                ));
            }
            _ => {}
        }
        Ok(())
    }
    fn drop_it<T>(&mut self, t: T, again: T, state: &dyn Fn() -> String) -> Res<()> {
        let n = size_of::<T>();
        let fail = |e: String| Violation::new(format!("{}:panic", self.name), format!("dropping {} panicked: {e}", self.name));
        // in place, in memory that stays allocated
        let mut m: Box<std::mem::MaybeUninit<T>> = Box::new_uninit();
        let p = m.as_mut_ptr();
        unsafe {
            std::ptr::write_bytes(p.cast::<u8>(), 0xee, n);
            p.write(t);
            black_box(p);
            sut(|| std::ptr::drop_in_place(p)).map_err(fail)?;
            black_box(p);
        }
        let img: Vec<u8> = (0..n).map(|i| unsafe { p.cast::<u8>().add(i).read_volatile() }).collect();
        self.place = "dropped in place";
        self.add(0, img, state)?;
        // boxed and freed
        let mut b = Box::new(again);
        let mut img = vec![0u8; n];
        black_box(&mut *b);
        spy::watch(&raw const *b as usize, n, img.as_mut_ptr());
        drop_box(b);
        spy::watch(0, 0, std::ptr::null_mut());
        black_box(&mut img);
        self.place = "boxed and freed";
        self.add(1, img, state)
    }
}

/// Padding bytes of a type: changing them in several states has no effect on anything observable, and they
/// follow, within an aligned word, a byte that has one (the compiler puts padding after a short field).
fn padding<T>(states: Vec<T>, watch: &dyn Fn(&mut T) -> Vec<u8>) -> Vec<usize> {
    let n = size_of::<T>();
    let mut effect = vec![false; n];
    for t in states {
        let mut t = std::mem::ManuallyDrop::new(t);
        let init = raw(&*t);
        let want = sut(|| watch(&mut t));
        for j in 0..n {
            if effect[j] {
                continue;
            }
            let mut r = init.clone();
            r[j] ^= 1;
            set_raw(&mut *t, &r);
            effect[j] = sut(|| watch(&mut t)) != want;
        }
    }
    (0..n).filter(|j| !effect[*j] && effect[j / 4 * 4] && effect[j / 4 * 4..*j].iter().rev().skip_while(|e| !**e).all(|e| *e)).collect()
}

fn core_padding<C: StreamCipherCore>(kind: Kind, new: &dyn Fn(&[u8], &[u8]) -> C) -> Vec<usize> {
    let states = few(kind.klen(), kind.ivlen(), 3).iter().map(|(k, iv)| new(k, iv)).collect();
    // long enough for every table entry of HC-256 to be used
    let n = if kind == Kind::Hc256 { 2100 } else { 3 };
    padding(states, &|c| {
        let mut v = vec![];
        for _ in 0..n {
            let mut b = Default::default();
            c.write_keystream_block(&mut b);
            v.extend_from_slice(&b);
        }
        v
    })
}

#[inline(never)]
fn drop_box<T>(b: Box<T>) {
    drop(b)
}

fn declared(name: &str, d: bool) -> Res<()> {
    if d {
        Ok(())
    } else {
        Err(Violation::new(format!("{name}:declares"), format!("{name} does not implement ZeroizeOnDrop")))
    }
}

/// Positions and lengths of a history.
fn spots(limit: u128) -> Vec<u128> {
    let mut v: Vec<u128> = vec![0, 1, 63, 64, 65, 1000, limit - 70, limit - 64, limit - 1, limit];
    let mut e = 12;
    while 1u128 << e < limit {
        v.extend([(1 << e) - 1, 1 << e]);
        e += if e < 30 { 6 } else { 1 };
    }
    v.retain(|&p| p <= limit);
    v
}

type Hist = (Vec<u8>, Vec<u8>, Vec<(bool, u128)>);

/// Histories (secret, then seeks (true) and consumed lengths (false)).
fn histories(kind: Kind, t: bool) -> Vec<Hist> {
    let mut v: Vec<Hist> = vec![];
    for s in strings(kind.klen() + kind.ivlen(), false) {
        let (k, iv) = s.split_at(kind.klen());
        v.push((k.to_vec(), iv.to_vec(), vec![]));
        v.push((k.to_vec(), iv.to_vec(), vec![(false, 5)]));
        v.push((k.to_vec(), iv.to_vec(), vec![(false, 130)]));
    }
    let lens: Vec<u128> = if t { (0..=600).collect() } else { (0..=140).chain([255, 256, 257, 1023, 1024, 1025, 1090]).collect() };
    for (k, iv) in few(kind.klen(), kind.ivlen(), if t { 4 } else { 2 }) {
        for &a in &lens {
            v.push((k.clone(), iv.clone(), vec![(false, a)]));
            for b in [1, 7, 64, 100] {
                v.push((k.clone(), iv.clone(), vec![(false, a), (false, b)]));
            }
        }
        if kind.seekable() {
            for p in spots(kind.limit()) {
                for a in [0, 1, 60, 64, 71, 300] {
                    v.push((k.clone(), iv.clone(), vec![(true, p), (false, a)]));
                    v.push((k.clone(), iv.clone(), vec![(false, a), (true, p)]));
                    v.push((k.clone(), iv.clone(), vec![(true, p), (false, a), (true, a), (false, 3)]));
                }
            }
        }
    }
    v
}

fn show(h: &Hist) -> String {
    format!("key={} iv={} {:?}", hx(&h.0), hx(&h.1), h.2)
}

/// Where the core lies inside a wrapper (offset, size), and how to find its padding.
type CoreAt = Option<((usize, usize), fn(Kind) -> Vec<usize>)>;

/// Looks at the bytes of the core only, or at the others only (each can leave something on its own).
fn seekable<C: KeyIvInit + StreamCipher + StreamCipherSeek>(kind: Kind, mask: u32, t: bool, core: CoreAt, in_core: bool) -> Res<Stats> {
    let name = kind.name();
    cpufeatures::set_env(mask);
    let mut im = Images::new(&name);
    im.core = core.map(|c| c.0);
    im.pad = core.map(|(o, p)| p(kind).iter().map(|j| j + o.0).collect()).unwrap_or_default();
    if let Some(((a, n), _)) = core {
        im.pad.extend((0..size_of::<C>()).filter(|&j| (a..a + n).contains(&j) != in_core));
    }
    for h in histories(kind, t) {
        let mk = || {
            let mut c = C::new(&Array::try_from(&h.0[..]).unwrap(), &Array::try_from(&h.1[..]).unwrap());
            for &(seek, n) in &h.2 {
                let _ = sut(|| if seek { c.try_seek(n).is_ok() } else { c.try_apply_keystream(&mut vec![0; n as usize]).is_ok() });
            }
            c
        };
        im.drop_it(mk(), mk(), &|| show(&h))?;
    }
    im.st.outcomes.insert("erased".into());
    im.st.note("bytes outside the part looked at, or padding", im.pad.len() as u64);
    Ok(im.st)
}

fn other<C: StreamCipher>(kind: Kind, t: bool, decl: bool, new: &dyn Fn(&[u8], &[u8]) -> C, pad: Vec<usize>) -> Res<Stats> {
    let name = kind.name();
    let mut im = Images::new(&name);
    im.pad = pad;
    let mut hs = histories(kind, t);
    if kind == Kind::Rc4 {
        for n in 1..=256usize {
            let k: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
            hs.push((k, vec![], vec![(false, n as u128)]));
        }
    }
    for h in hs {
        let mk = || {
            let mut c = new(&h.0, &h.1);
            for &(_, n) in &h.2 {
                let _ = sut(|| c.try_apply_keystream(&mut vec![0; n as usize]).is_ok());
            }
            c
        };
        im.drop_it(mk(), mk(), &|| show(&h))?;
    }
    declared(&name, decl)?;
    im.st.outcomes.insert("erased".into());
    im.st.note("bytes outside the part looked at, or padding", im.pad.len() as u64);
    Ok(im.st)
}

fn core<C: StreamCipherCore>(name: &str, kind: Kind, mask: u32, t: bool, decl: bool, new: &dyn Fn(&[u8], &[u8]) -> C, set: fn(&mut C, u128)) -> Res<Stats> {
    cpufeatures::set_env(mask);
    let mut im = Images::new(name);
    im.pad = core_padding(kind, new);
    for h in histories(kind, t) {
        let mk = || {
            let mut c = new(&h.0, &h.1);
            for &(seek, n) in &h.2 {
                if seek {
                    let _ = sut(|| set(&mut c, n / 64));
                } else {
                    for _ in 0..(n / 64).min(20) {
                        let _ = sut(|| c.write_keystream_block(&mut Default::default()));
                    }
                    let _ = sut(|| c.write_keystream_blocks(&mut vec![Default::default(); n as usize % 40]));
                }
            }
            c
        };
        im.drop_it(mk(), mk(), &|| show(&h))?;
    }
    declared(name, decl)?;
    im.st.outcomes.insert("erased".into());
    im.st.note("bytes outside the part looked at, or padding", im.pad.len() as u64);
    Ok(im.st)
}

fn rng_states(t: bool) -> Vec<([u8; 32], Vec<(u8, u128)>)> {
    // 0: draw words, 1: fill bytes, 2: set word position, 3: set stream, 4: set block position
    let mut v: Vec<([u8; 32], Vec<(u8, u128)>)> = vec![];
    for s in strings(40, false) {
        let seed: [u8; 32] = s[..32].try_into().unwrap();
        let stream = u64::from_le_bytes(s[32..].try_into().unwrap()) as u128;
        v.push((seed, vec![]));
        v.push((seed, vec![(3, stream), (0, 3)]));
        v.push((seed, vec![(0, 70), (3, stream)]));
    }
    let seed: [u8; 32] = std::array::from_fn(|i| (i as u8).wrapping_mul(11));
    for n in 0..if t { 1000 } else { 300 } {
        v.push((seed, vec![(0, n)]));
        v.push((seed, vec![(1, n)]));
        v.push((seed, vec![(0, 1), (1, n)]));
    }
    for e in 0..68 {
        for d in 0..3u128 {
            let p = (1u128 << e) - 1 + d;
            v.push((seed, vec![(2, p)]));
            v.push((seed, vec![(2, p), (0, 1)]));
            v.push((seed, vec![(0, 5), (2, p)]));
            v.push((seed, vec![(0, 5), (4, p)]));
            v.push((seed, vec![(4, p), (1, 70), (3, p)]));
        }
    }
    v
}

macro_rules! rng {
    ($t:ty, $mask:expr, $thorough:expr) => {{
        cpufeatures::set_env($mask);
        let name = stringify!($t).rsplit("::").next().unwrap().trim();
        let mut im = Images::new(name);
        let drawn = |n: u8| {
            let mut r = <$t>::from_seed([n + 1; 32]);
            (0..n).for_each(|_| {
                r.next_u32();
            });
            r
        };
        im.pad = padding(vec![drawn(0), drawn(1), drawn(40)], &|r| {
            let mut v = r.serialize_state().to_vec();
            for _ in 0..140 {
                v.extend(r.next_u32().to_le_bytes());
            }
            v
        });
        for (seed, h) in rng_states($thorough) {
            let mk = || {
                let mut r = <$t>::from_seed(seed);
                for &(op, n) in &h {
                    let _ = sut(|| match op {
                        0 => (0..n).for_each(|_| {
                            r.next_u32();
                        }),
                        1 => r.fill_bytes(&mut vec![0; n as usize]),
                        2 => r.set_word_pos(n),
                        3 => r.set_stream(n as u64),
                        _ => r.set_block_pos(n as u64),
                    });
                }
                r
            };
            im.drop_it(mk(), mk(), &|| format!("seed={} {h:?}", hx(&seed)))?;
            // rebuilt from its serialized form
            let de = || <$t>::deserialize_state(&mk().serialize_state());
            im.drop_it(de(), de(), &|| format!("seed={} {h:?}, deserialized", hx(&seed)))?;
        }
        declared(name, (&Probe::<$t>(std::marker::PhantomData)).declares())?;
        im.st.outcomes.insert("erased".into());
    im.st.note("bytes outside the part looked at, or padding", im.pad.len() as u64);
        Ok(im.st)
    }};
}

/// A block RNG over a core: the results buffer is erased through the core's `Generator::drop`.
fn block_rng<G: Generator<Output = [u32; 64]>>(name: &str, mask: u32, new: &dyn Fn([u8; 32]) -> G) -> Res<Stats> {
    cpufeatures::set_env(mask);
    let mut im = Images::new(name);
    for s in strings(32, false) {
        let seed: [u8; 32] = s[..].try_into().unwrap();
        for n in [0, 1, 2, 63, 64, 65, 100] {
            let mk = || {
                let mut r = BlockRng::new(new(seed));
                for _ in 0..n {
                    let _ = sut(|| {
                        r.next_word();
                    });
                }
                r
            };
            im.drop_it(mk(), mk(), &|| format!("seed={} {n} words", hx(&seed)))?;
        }
    }
    im.st.outcomes.insert("erased".into());
    im.st.note("bytes outside the part looked at, or padding", im.pad.len() as u64);
    Ok(im.st)
}

/// Salsa cores and wrappers made from every raw 16-word state of the alphabet (no word of it is a constant).
fn raw_salsa<R: cipher::array::typenum::Unsigned>(name: &str) -> Res<Stats> {
    use salsa20::SalsaCore;
    let mut im = Images::new(name);
    let mut wr = Images::new(&format!("wrapped {name}"));
    for s in strings(64, false) {
        let st: [u32; 16] = std::array::from_fn(|i| u32::from_le_bytes(s[4 * i..4 * i + 4].try_into().unwrap()));
        for n in [0, 1, 3] {
            let mk = || {
                let mut c = SalsaCore::<R>::from_raw_state(st);
                for _ in 0..n {
                    let _ = sut(|| c.write_keystream_block(&mut Default::default()));
                }
                c
            };
            im.drop_it(mk(), mk(), &|| format!("raw state {} and {n} blocks", hx(&s)))?;
            let w = || {
                let mut w = cipher::StreamCipherCoreWrapper::from_core(mk());
                let _ = sut(|| w.try_apply_keystream(&mut vec![0; 11 * n]).is_ok());
                w
            };
            wr.drop_it(w(), w(), &|| format!("raw state {} and {n} blocks", hx(&s)))?;
        }
    }
    im.st.merge(wr.st);
    Ok(im.st)
}

fn main() {
    let mut c = Ctx::new("C16", "exploration");
    c.rule = "for every cipher, core and RNG type, every history of an explicit set (complete alphabet of keys/nonces/seeds, every number \
              of consumed bytes/words up to the bound, seeks to every power of two and to the limit, stream changes, restored objects) \
              is run, the object dropped in place and, separately, boxed and freed; the memory it occupied must be one image for all of \
              them. Built with every crate's zeroize feature, and again with only chacha20's. Distinct = distinct histories; \
              non-trivial = the image was read back and compared"
        .into();
    let t = tier() == "thorough";
    let only_chacha = cfg!(not(feature = "zeroize"));
    c.max_violations = 1000;
    let mut tasks = vec![];
    fn kiv<C: KeyIvInit>(k: &[u8], iv: &[u8]) -> C {
        C::new(&Array::try_from(k).unwrap(), &Array::try_from(iv).unwrap())
    }
    fn seeded<C: SeedableRng<Seed = [u8; 32]>>(k: &[u8], _: &[u8]) -> C {
        C::from_seed(k.try_into().unwrap())
    }
    fn set<C: StreamCipherSeekCore>(c: &mut C, p: u128) {
        if let Ok(p) = C::Counter::try_from(p as u64) {
            c.set_block_pos(p)
        }
    }
    macro_rules! decl {
        ($t:ty) => {
            (&Probe::<$t>(std::marker::PhantomData)).declares()
        };
    }
    macro_rules! seek {
        ($($k:ident $t:ty),*) => { $(
            tasks.push(task(format!("{}/declares", stringify!($k)), || {
                declared(stringify!($k), decl!($t))?;
                Ok(Stats::default())
            }));
            for (env, mask) in Kind::$k.envs() {
                for in_core in [true, false] {
                    tasks.push(task(format!("{}/{env}/{}", stringify!($k), if in_core { "core" } else { "buffer" }), move || {
                        let (k, iv) = few(Kind::$k.klen(), Kind::$k.ivlen(), 1).remove(0);
                        let c: $t = kiv(&k, &iv);
                        let off = c.get_core() as *const _ as usize - &c as *const _ as usize;
                        type C = <$t as CoreOf>::C;
                        let core: CoreAt = Some(((off, size_of::<C>()), |k| core_padding::<C>(k, &kiv::<C>)));
                        seekable::<$t>(Kind::$k, mask, t, core, in_core)
                    }));
                }
                type C = <$t as CoreOf>::C;
                tasks.push(task(format!("core/{}/{env}", stringify!($k)), move || {
                    core::<C>(concat!("core of ", stringify!($k)), Kind::$k, mask, t, decl!(C), &kiv::<C>, set::<C>)
                }));
            }
        )* };
    }
    seek!(
        ChaCha8 chacha20::ChaCha8, ChaCha12 chacha20::ChaCha12, ChaCha20 chacha20::ChaCha20, ChaCha20Legacy chacha20::ChaCha20Legacy,
        XChaCha8 chacha20::XChaCha8, XChaCha12 chacha20::XChaCha12, XChaCha20 chacha20::XChaCha20
    );
    macro_rules! gen_core {
        ($($k:ident $t:ty),*) => { $(
            for (env, mask) in envs() {
                tasks.push(task(format!("seeded core/{}/{env}", stringify!($t)), move || {
                    core::<$t>(stringify!($t), Kind::$k, mask, t, decl!($t), &seeded::<$t>, set::<$t>)
                }));
                tasks.push(task(format!("BlockRng/{}/{env}", stringify!($t)), move || {
                    block_rng::<$t>(concat!("BlockRng<", stringify!($t), ">"), mask, &|s| <$t>::from_seed(s))
                }));
            }
        )* };
    }
    gen_core!(
        Legacy8Seed ChaChaCore<R8, Legacy>, Legacy12Seed ChaChaCore<R12, Legacy>, Legacy20Seed ChaChaCore<R20, Legacy>,
        ChaCha8 ChaChaCore<R8, Ietf>, ChaCha12 ChaChaCore<R12, Ietf>, ChaCha20 ChaChaCore<R20, Ietf>
    );
    for (env, mask) in envs() {
        tasks.push(task(format!("ChaCha8Rng/{env}"), move || rng!(chacha20::ChaCha8Rng, mask, t)));
        tasks.push(task(format!("ChaCha12Rng/{env}"), move || rng!(chacha20::ChaCha12Rng, mask, t)));
        tasks.push(task(format!("ChaCha20Rng/{env}"), move || rng!(chacha20::ChaCha20Rng, mask, t)));
    }
    if !only_chacha {
        seek!(
            Salsa8 salsa20::Salsa8, Salsa12 salsa20::Salsa12, Salsa20 salsa20::Salsa20,
            XSalsa8 salsa20::XSalsa8, XSalsa12 salsa20::XSalsa12, XSalsa20 salsa20::XSalsa20
        );
        tasks.push(task("raw Salsa8 core", || raw_salsa::<cipher::consts::U4>("SalsaCore<U4>")));
        tasks.push(task("raw Salsa12 core", || raw_salsa::<cipher::consts::U6>("SalsaCore<U6>")));
        tasks.push(task("raw Salsa20 core", || raw_salsa::<cipher::consts::U10>("SalsaCore<U10>")));
        use hc_256::{Hc256, Hc256Core};
        use rabbit::{Rabbit, RabbitCore, RabbitKeyOnly, RabbitKeyOnlyCore};
        macro_rules! in_wrapper {
            ($w:ty, $new:expr, $c:ty, $cnew:expr, $k:ident) => {{
                let (k, iv) = few(Kind::$k.klen(), Kind::$k.ivlen(), 1).remove(0);
                let w: $w = $new(&k, &iv);
                let off = w.get_core() as *const $c as usize - &w as *const _ as usize;
                core_padding::<$c>(Kind::$k, &$cnew).iter().map(|j| j + off).collect()
            }};
        }
        tasks.push(task("Hc256", move || other(Kind::Hc256, t, decl!(Hc256), &kiv::<Hc256>, in_wrapper!(Hc256, kiv::<Hc256>, Hc256Core, kiv::<Hc256Core>, Hc256))));
        tasks.push(task("Hc256Core", move || core("Hc256Core", Kind::Hc256, 0, t, decl!(Hc256Core), &kiv::<Hc256Core>, |_, _| ())));
        tasks.push(task("Rabbit", move || other(Kind::Rabbit, t, decl!(Rabbit), &kiv::<Rabbit>, in_wrapper!(Rabbit, kiv::<Rabbit>, RabbitCore, kiv::<RabbitCore>, Rabbit))));
        tasks.push(task("RabbitCore", move || core("RabbitCore", Kind::Rabbit, 0, t, decl!(RabbitCore), &kiv::<RabbitCore>, |_, _| ())));
        fn k<C: KeyInit>(k: &[u8], _: &[u8]) -> C {
            C::new_from_slice(k).unwrap()
        }
        tasks.push(task("RabbitKeyOnly", move || other(Kind::RabbitKeyOnly, t, decl!(RabbitKeyOnly), &k::<RabbitKeyOnly>, in_wrapper!(RabbitKeyOnly, k::<RabbitKeyOnly>, RabbitKeyOnlyCore, k::<RabbitKeyOnlyCore>, RabbitKeyOnly))));
        tasks.push(task("RabbitKeyOnlyCore", move || {
            core("RabbitKeyOnlyCore", Kind::RabbitKeyOnly, 0, t, decl!(RabbitKeyOnlyCore), &k::<RabbitKeyOnlyCore>, |_, _| ())
        }));
        tasks.push(task("Rc4", move || other(Kind::Rc4, t, decl!(rc4::Rc4), &k::<rc4::Rc4>, vec![])));
    }
    c.run(tasks);
    if let Ok(p) = std::env::var("VERIF_CHACHA_ONLY") {
        c.include_sub(&p, "chacha20/zeroize-only");
    }
    c.finish()
}
