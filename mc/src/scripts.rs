//! Families of enumerated histories for plans.
use crate::alpha;
use crate::interp::Shards;
use crate::kinds::*;
use crate::plan::*;


/// Representatives: every implementation once, with the fewest rounds.
pub const REPS: [Kind; 9] = [
    Kind::ChaCha8,
    Kind::Legacy8Seed,
    Kind::XChaCha8,
    Kind::Salsa8,
    Kind::XSalsa8,
    Kind::Rabbit,
    Kind::RabbitKeyOnly,
    Kind::Rc4,
    Kind::Hc256,
];

fn key(k: Kind) -> (Vec<u8>, Vec<u8>) {
    alpha::few(k.klen(), k.ivlen(), 1).remove(0)
}

/// Block numbers near which counters carry or end.
fn turns(k: Kind) -> Vec<u128> {
    match k.ctr_bits() {
        None => vec![0],
        Some(32) => vec![0, 1 << 8, 1 << 16, 1 << 31],
        Some(_) => vec![0, 1 << 16, 1 << 32, 1 << 33, 1 << 63],
    }
}

/// Keystream values: keys and nonces, and runs of `runs` blocks starting shortly before every turn.
pub fn values(s: &mut Shards, kinds: &[Kind], pairs: usize, runs: &[usize]) {
    for &k in kinds {
        for (i, (key, iv)) in alpha::few(k.klen(), k.ivlen(), pairs).into_iter().enumerate() {
            let p = s.plan();
            let mut c = C::new(p, k, &key, &iv, 0);
            c.consume(p, Form::TryApply, 0, 0, if k == Kind::Hc256 { 300 } else { 130 });
            if !k.seekable() {
                c.consume(p, Form::TryApply, 0, 0, 1000);
            } else if i == 0 {
                for t in turns(k) {
                    for &n in runs {
                        for b in t.saturating_sub(n as u128)..=t {
                            c.seek(p, Ty::U128, b * 64, false);
                            c.consume(p, Form::TryWrite, 0, 0, 64 * n);
                        }
                    }
                }
            }
            p.drop();
        }
    }
    if kinds.contains(&Kind::Salsa8) {
        for (i, (key, iv)) in alpha::few(32, 16, pairs + 2).into_iter().enumerate() {
            for f in 0..6 {
                s.plan().function(f, &key, &iv);
            }
            let mut st: [u32; 16] = std::array::from_fn(|j| u32::from_le_bytes([key[2 * j], key[2 * j + 1], iv[j], j as u8]));
            if i % 2 == 0 {
                st[8] = u32::MAX - 1;
            }
            for r in [8, 12, 20] {
                s.plan().salsa_raw(r, st, 3);
            }
        }
    }
}

#[derive(Clone, Copy)]
enum Op {
    Eat(usize),
    Seek(u128),
}

/// All histories up to `depth` over call lengths and seek targets, with queries after every call.
pub fn histories(s: &mut Shards, kinds: &[Kind], depth: usize, lens: &[usize], sparse: bool) {
    for &k in kinds {
        let (key, iv) = key(k);
        let mut ops: Vec<Op> = lens.iter().map(|&n| Op::Eat(n)).collect();
        let mut starts = vec![0u128];
        if k.seekable() {
            let l = k.limit();
            ops.extend([0, 1, 63, 64, 127, 300, l - 129, l - 1, l, l + 1].map(Op::Seek));
            starts.extend([63, (1 << 32) - 70, (1 << 32) - 1, 1 << 32, (1 << 38) - 200, l - 200, l - 64, l - 1, l]);
            starts.retain(|&x| x <= l);
            if sparse {
                starts = starts.into_iter().step_by(2).collect();
            }
        }
        if k == Kind::Hc256 {
            ops.truncate(4);
        }
        fn dfs(p: &mut Plan, c: &mut C, ops: &[Op], depth: usize, turn: &mut usize) {
            let (d, pos) = (p.depth(), c.pos);
            for &op in ops {
                p.dup();
                match op {
                    Op::Eat(n) => {
                        // every form gets its turn; unchecked ones only where the keystream suffices
                        let mut f = FORMS[*turn % FORMS.len()];
                        *turn += 1;
                        if !c.can(f, n) {
                            f = Form::TryB2b;
                        }
                        c.consume(p, f, *turn % 7, *turn % 5, n);
                    }
                    Op::Seek(x) => {
                        let ty = [Ty::U64, Ty::U128, Ty::Usize, Ty::U32, Ty::I32].into_iter().cycle().skip(*turn % 5).find(|&t| x <= max(p, t)).unwrap();
                        *turn += 1;
                        c.seek(p, ty, x, *turn % 3 == 0);
                    }
                }
                if c.ks.kind.seekable() {
                    c.queries(p);
                }
                if depth > 1 {
                    dfs(p, c, ops, depth - 1, turn);
                }
                p.pop(d);
                c.pos = pos;
            }
        }
        let mut turn = 0;
        for st in starts {
            for op in 0..ops.len() {
                let p = s.plan();
                let mut c = C::new(p, k, &key, &iv, 0);
                if st != 0 {
                    c.seek(p, Ty::U128, st, false);
                    c.queries(p);
                }
                // the first operation of a history is spread over the shards
                let (d, pos) = (p.depth(), c.pos);
                if k == Kind::Hc256 {
                    dfs(p, &mut c, &ops, depth, &mut turn);
                    p.drop();
                    break;
                }
                dfs(p, &mut c, &ops[op..op + 1], 1, &mut turn);
                if depth > 1 {
                    let mut f = Form::TryApply;
                    match ops[op] {
                        Op::Eat(n) => {
                            if !c.can(f, n) {
                                f = Form::TryB2b;
                            }
                            c.consume(p, f, 0, 0, n)
                        }
                        Op::Seek(x) => c.seek(p, Ty::U128, x, false),
                    }
                    dfs(p, &mut c, &ops, depth - 1, &mut turn);
                }
                c.pos = pos;
                p.drop();
                let _ = d;
            }
        }
    }
}

/// Every form with every length of `lens` at every alignment pair; queries of the rest near the end.
pub fn forms(s: &mut Shards, kinds: &[Kind], set: &[Form], lens: &[usize], aligns: &[(usize, usize)], place: u8) {
    for &k in kinds {
        let (key, iv) = key(k);
        for (i, &(a, b)) in aligns.iter().enumerate() {
            if k == Kind::Hc256 && i > 0 {
                continue;
            }
            for (j, &form) in set.iter().enumerate() {
                if k == Kind::Hc256 && j > 0 {
                    continue;
                }
                let forms: &[Form] = if k == Kind::Hc256 { set } else { &set[j..j + 1] };
                let p = s.plan();
                let mut c = C::new(p, k, &key, &iv, place);
                for &form in forms {
                    for &n in lens {
                        // behind 0 and behind 5 bytes of the same object
                        for pre in [0, 5] {
                            let (d, pos) = (p.depth(), c.pos);
                            p.dup();
                            if pre != 0 {
                                c.consume(p, Form::TryApply, 0, 0, pre);
                            }
                            c.consume(p, form, a, b, n);
                            p.pop(d);
                            c.pos = pos;
                        }
                    }
                }
                p.drop();
                let _ = form;
            }
        }
    }
}

/// The end of the keystream: remaining-length queries and calls of every kind that just fit or just do not.
pub fn limits(s: &mut Shards, kinds: &[Kind]) {
    for &k in kinds {
        let (key, iv) = key(k);
        let mut starts = vec![0u128, 1];
        if k.seekable() {
            let l = k.limit();
            starts.extend([l - 320, l - 129, l - 64, l - 1, l, l - (1 << 31), l - (1 << 32) + 3, l - (1 << 32) - 64]);
            if l > 1 << 40 {
                starts.extend([l - 64 * (1 << 32) - 1, l - 64 * (1 << 32) + 64]);
            }
        }
        for st in starts {
            let p = s.plan();
            let mut c = C::new(p, k, &key, &iv, 0);
            if st != 0 {
                if k.seekable() {
                    c.seek(p, Ty::U128, st, false);
                } else {
                    c.consume(p, Form::TryApply, 0, 0, st as usize);
                }
            }
            for d in 0..66 {
                c.rem(p, d * 5);
            }
            for e in 9..64 {
                for d in [0u64, 1, 64] {
                    c.rem(p, (1u64 << e).wrapping_sub(d));
                }
            }
            for d in [0u64, 1, 62, 63, 64, 65, 128] {
                c.rem(p, u64::MAX - d);
            }
            if k.seekable() && st > k.limit() - 400 {
                let rest = (k.limit() - st) as usize;
                for f in FORMS {
                    for n in [rest.saturating_sub(1), rest, rest + 1, rest + 64, rest + 65] {
                        if !c.can(f, n) {
                            continue;
                        }
                        let (d, pos) = (p.depth(), c.pos);
                        p.dup();
                        c.consume(p, f, 1, 2, n);
                        c.queries(p);
                        if c.pos == pos && n > 0 && rest > 0 {
                            c.consume(p, Form::TryWrite, 0, 0, rest.min(70));
                        }
                        p.pop(d);
                        c.pos = pos;
                    }
                }
            }
            p.drop();
        }
    }
}

/// Constructors from slices: every pair of `lens`.
pub fn constructors(s: &mut Shards, lens: &[usize]) {
    for k in ALL {
        if matches!(k, Kind::Legacy8Seed | Kind::Legacy12Seed | Kind::Legacy20Seed) {
            continue;
        }
        for &a in lens {
            if k == Kind::Rc4 || k == Kind::RabbitKeyOnly {
                s.plan().slices(k, a, 0, if k == Kind::Rc4 { (1..=256).contains(&a) } else { a == 16 });
                continue;
            }
            for &b in lens {
                // a successful HC-256 setup takes long; one is enough
                s.plan().slices(k, a, b, a == k.klen() && b == k.ivlen());
            }
        }
        if k == Kind::Rc4 {
            for a in [255, 256, 257, 300] {
                s.plan().slices(k, a, 0, a <= 256);
            }
        }
    }
}

/// Block-level histories from positions around the wrap of the counter.
pub fn cores(s: &mut Shards, kinds: &[Kind], depth: usize, place: u8) {
    for &k in kinds {
        if !k.seekable() {
            continue;
        }
        let (key, iv) = key(k);
        let mask = if k.ctr_bits() == Some(32) { u32::MAX as u64 } else { u64::MAX };
        let mut ops = vec![KOp::WriteBlock, KOp::ApplyBlock, KOp::ApplyBlockInOut, KOp::ApplyBlocks(2), KOp::ApplyBlocksInOut(3)];
        ops.extend([0, 1, 2, 3, 4, 5, 6, 7, 8, 9].map(KOp::WriteBlocks));
        ops.extend([KOp::Set(0), KOp::Set(mask), KOp::Set(mask / 2)]);
        if k.chacha() && !k.xnonce() {
            ops.push(KOp::Generate);
        }
        let mut last = vec![];
        for n in [0, 1, 64, 65, 130] {
            for i in [false, true] {
                last.push(KOp::Partial(n, i, n % 2 == 1));
            }
        }
        for sc in [&[2u8][..], &[1, 2], &[2, 1], &[4, 2], &[6, 1], &[5, 5], &[1, 1, 2, 2]] {
            last.push(KOp::Script(sc, 70));
        }
        let mut starts = vec![0, mask, mask - 1, mask - 3, mask - 6];
        if mask > 1 << 32 {
            starts.extend([(1 << 32) - 1, (1 << 32) - 3, (1 << 32) - 5]);
        }
        fn dfs(p: &mut Plan, c: &mut K, ops: &[KOp], last: &[KOp], depth: usize) {
            let (d, pos) = (p.depth(), c.pos);
            for (i, &op) in ops.iter().chain(last).enumerate() {
                p.dup();
                c.run(p, op);
                if i < ops.len() {
                    c.queries(p);
                    if depth > 1 {
                        dfs(p, c, ops, last, depth - 1);
                    }
                }
                p.pop(d);
                c.pos = pos;
            }
        }
        for st in starts {
            if depth == 1 {
                let p = s.plan();
                let mut c = K::new(p, k, &key, &iv, place);
                c.run(p, KOp::Set(st));
                dfs(p, &mut c, &ops, &last, 1);
                p.drop();
            } else {
                for &op in &ops {
                    let p = s.plan();
                    let mut c = K::new(p, k, &key, &iv, place);
                    c.run(p, KOp::Set(st));
                    c.run(p, op);
                    c.queries(p);
                    dfs(p, &mut c, &ops, &last, depth - 1);
                    p.drop();
                }
            }
        }
    }
}

/// RNG histories from word positions around block, buffer and counter boundaries.
pub fn rngs(s: &mut Shards, rngs: &[usize], depth: usize, fills: &[usize]) {
    for &r in rngs {
        let seed: [u8; 32] = alpha::base(32, 0x31 + r as u8).try_into().unwrap();
        let mut ops = vec![ROp::U32(0), ROp::U32(1), ROp::U64(0), ROp::U64(1)];
        ops.extend(fills.iter().enumerate().map(|(i, &n)| ROp::Fill(i as u8 % 2, i % 5, n)));
        ops.extend([
            ROp::SetWord(0),
            ROp::SetWord(17),
            ROp::SetWord((1 << 68) - 1),
            ROp::SetWord(u128::MAX),
            ROp::SetBlock(3),
            ROp::SetBlock(u64::MAX),
            ROp::SetStream(0),
            ROp::SetStream(0x0123_4567_89ab_cdef),
            ROp::SerDe,
        ]);
        let starts: [u128; 9] = [0, 15, 62, 63, (1 << 36) - 3, (1 << 36) - 64, (1 << 67) + 5, (1 << 68) - 2, (1 << 68) - 70];
        fn dfs(p: &mut Plan, c: &mut R, ops: &[ROp], depth: usize) {
            let (d, m) = (p.depth(), c.m.clone());
            for &op in ops {
                p.dup();
                c.run(p, op);
                c.queries(p);
                if depth > 1 {
                    dfs(p, c, ops, depth - 1);
                }
                p.pop(d);
                c.m = m.clone();
            }
        }
        for st in starts {
            let p = s.plan();
            let mut c = R::new(p, r, seed);
            c.run(p, ROp::SetStream(7 ^ st as u64));
            c.run(p, ROp::SetWord(st));
            c.debug(p);
            dfs(p, &mut c, &ops, 1);
            p.drop();
            if depth > 1 {
                for &op in &ops {
                    let p = s.plan();
                    let mut c = R::new(p, r, seed);
                    c.run(p, ROp::SetStream(7 ^ st as u64));
                    c.run(p, ROp::SetWord(st));
                    c.run(p, op);
                    dfs(p, &mut c, &ops, depth - 1);
                    p.drop();
                }
            }
        }
    }
}
