//! Comparing keystreams with the references over enumerated inputs.
use crate::kinds::*;
use crate::run::{Res, Stats, Violation, diff, hx, sut};

pub fn bad(kind: Kind, env: u32, key: &[u8], iv: &[u8], what: String) -> Violation {
    let mut v = Violation::new(
        format!("{kind:?}:{}:{}:{}", env_name(env), hx(key), hx(iv)),
        format!("{kind:?}/{}: {what}", env_name(env)),
    );
    v.replay = format!("cipher: {kind:?}\nfeature set: {}\nkey: {}\niv: {}\n{what}", env_name(env), hx(key), hx(iv));
    v
}

/// `n` keystream bytes from `start` (reached by one seek unless 0) in one call.
pub fn read_at(kind: Kind, key: &[u8], iv: &[u8], start: u128, n: usize, pattern: u8) -> Result<Vec<u8>, String> {
    let mut o = sut(|| kind.make(key, iv)).map_err(|m| format!("construction panicked: {m}"))?;
    if start != 0 {
        match o.seek(Ty::U128, start, false) {
            Out::Ok => {}
            r => return Err(format!("seek to {start}: {r:?}")),
        }
    }
    let mut buf = vec![pattern; n];
    match o.consume(Form::TryApply, &[], &mut buf) {
        Out::Ok => {}
        r => return Err(format!("{n} bytes at {start}: {r:?}")),
    }
    buf.iter_mut().for_each(|b| *b ^= pattern);
    Ok(buf)
}

/// All (key, iv) pairs: `n` bytes from each start in every environment.
pub fn sweep(kind: Kind, pairs: &[(Vec<u8>, Vec<u8>)], starts: &[u128], n: usize) -> Res<Stats> {
    let mut st = Stats::default();
    for (key, iv) in pairs {
        for &start in starts {
            let w = kind.window(key, iv, start, n);
            let n = w.data.len();
            for (name, mask) in kind.envs() {
                cpufeatures::set_env(mask);
                let got = read_at(kind, key, iv, start, n, 0).map_err(|e| bad(kind, mask, key, iv, e))?;
                if got != w.data {
                    return Err(bad(kind, mask, key, iv, format!("keystream of {n} bytes from position {start}: {}", diff(&got, &w.data))));
                }
                st.evals += 1;
                st.bytes += n as u64;
                let _ = name;
            }
        }
        st.distinct += 1;
    }
    if let Some((k, i)) = pairs.last() {
        st.samples.push(format!("{kind:?} key {} iv {} at {starts:?}, {n} bytes", hx(k), hx(i)));
    }
    Ok(st)
}

/// Requests of every size 1..=max blocks at `starts` (block numbers); the reference is computed once.
pub fn requests(kind: Kind, key: &[u8], iv: &[u8], around: u128, before: u128, max: usize) -> Res<Stats> {
    let mut st = Stats::default();
    let limit_blocks = kind.limit() / 64;
    let lo = around.saturating_sub(before);
    let w = kind.window(key, iv, lo * 64, (before as usize + 8 + max) * 64);
    for (_, mask) in kind.envs() {
        cpufeatures::set_env(mask);
        for s in lo..=around + 2 {
            for n in 1..=max {
                if s + n as u128 > limit_blocks || !w.contains(s * 64, n * 64) {
                    continue;
                }
                let got = read_at(kind, key, iv, s * 64, n * 64, 0).map_err(|e| bad(kind, mask, key, iv, e))?;
                let want = w.at(s * 64, n * 64);
                if got != want {
                    return Err(bad(kind, mask, key, iv, format!("{n} blocks from block {s}: {}", diff(&got, want))));
                }
                st.evals += 1;
                st.distinct += 1;
                st.bytes += 64 * n as u64;
            }
        }
    }
    st.samples.push(format!("{kind:?} requests of 1..={max} blocks from each block {lo}..={}", around + 2));
    Ok(st)
}

/// One contiguous stream of `total` bytes, in calls of `chunk` bytes.
pub fn long(kind: Kind, env: u32, key: &[u8], iv: &[u8], total: usize, chunk: usize) -> Res<Stats> {
    cpufeatures::set_env(env);
    let mut st = Stats::default();
    let mut g = kind.ref_stream(key, iv);
    let mut want = vec![];
    let mut o = sut(|| kind.make(key, iv)).map_err(|m| bad(kind, env, key, iv, m))?;
    let mut buf = vec![0u8; chunk];
    let mut pos = 0;
    while pos < total {
        let n = chunk.min(total - pos);
        match o.consume(Form::TryWrite, &[], &mut buf[..n]) {
            Out::Ok => {}
            r => return Err(bad(kind, env, key, iv, format!("{n} bytes at {pos}: {r:?}"))),
        }
        while want.len() < n {
            g(&mut want);
        }
        if buf[..n] != want[..n] {
            return Err(bad(kind, env, key, iv, format!("long stream, call at {pos}: {}", diff(&buf[..n], &want[..n]))));
        }
        want.drain(..n);
        pos += n;
        st.evals += 1;
    }
    st.distinct += 1;
    st.bytes += total as u64;
    st.samples.push(format!("{kind:?}/{} {total} bytes in calls of {chunk}", env_name(env)));
    Ok(st)
}

/// One contiguous stream far longer than a 32-bit counter of steps reaches: the reference runs in a second thread.
pub fn very_long(kind: Kind, key: &[u8], iv: &[u8], total: u64) -> Res<Stats> {
    const CHUNK: usize = 1 << 20;
    let (tx, rx) = std::sync::mpsc::sync_channel::<Vec<u8>>(8);
    let (k, i) = (key.to_vec(), iv.to_vec());
    std::thread::spawn(move || {
        let mut g = kind.ref_stream(&k, &i);
        loop {
            let mut v = Vec::with_capacity(CHUNK + 64);
            while v.len() < CHUNK {
                g(&mut v);
            }
            if tx.send(v).is_err() {
                return;
            }
        }
    });
    let mut st = Stats::default();
    let mut o = sut(|| kind.make(key, iv)).map_err(|m| bad(kind, 0, key, iv, m))?;
    let mut buf = vec![0u8; CHUNK];
    let mut pos = 0;
    while pos < total {
        match o.consume(Form::TryWrite, &[], &mut buf) {
            Out::Ok => {}
            r => return Err(bad(kind, 0, key, iv, format!("{CHUNK} bytes at {pos}: {r:?}"))),
        }
        let want = rx.recv().expect("reference thread");
        assert_eq!(want.len(), CHUNK);
        if buf != want {
            return Err(bad(kind, 0, key, iv, format!("very long stream, call at {pos}: {}", diff(&buf, &want))));
        }
        pos += CHUNK as u64;
        st.evals += 1;
    }
    st.distinct += 1;
    st.bytes += pos;
    st.samples.push(format!("{kind:?} {pos} contiguous bytes"));
    Ok(st)
}
