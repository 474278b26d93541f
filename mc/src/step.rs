//! Single-stepping of the real code with the trap flag, and just enough x86-64 decoding to know which
//! registers form the address of a memory operand and which instruction-set extension an opcode needs.
use std::cell::Cell;
use std::sync::Once;

pub type Hook<'a> = dyn FnMut(&mut libc::ucontext_t) + 'a;

thread_local! {
    static HOOK: Cell<Option<*mut Hook<'static>>> = const { Cell::new(None) };
}

const TF: i64 = 0x100;

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = unsafe { &mut *uc.cast::<libc::ucontext_t>() };
    match HOOK.with(Cell::get) {
        Some(h) => unsafe { (*h)(uc) },
        None => stop(uc),
    }
}

/// Stop single-stepping when the handler returns.
pub fn stop(uc: &mut libc::ucontext_t) {
    uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
}

/// Call on every thread that steps: installs the handler and an alternate stack for it.
pub fn init() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
    });
    thread_local!(static STACK: Cell<bool> = const { Cell::new(false) });
    if !STACK.with(|s| s.replace(true)) {
        const N: usize = 2 << 20;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), N, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let s = libc::stack_t { ss_sp: p, ss_flags: 0, ss_size: N };
            assert_eq!(libc::sigaltstack(&s, std::ptr::null_mut()), 0);
        }
    }
}

/// Run `op`; before every instruction, call `hook` with the registers. The hook must not allocate.
#[inline(never)]
pub fn stepped(op: &mut dyn FnMut(), hook: &mut Hook<'_>) {
    let outer = HOOK.with(|h| h.replace(Some(unsafe { std::mem::transmute::<*mut Hook<'_>, *mut Hook<'static>>(hook) })));
    unsafe { std::arch::asm!("pushfq", "or dword ptr [rsp], 0x100", "popfq") };
    op();
    unsafe { std::arch::asm!("pushfq", "and dword ptr [rsp], 0xfffffeff", "popfq") };
    HOOK.with(|h| h.set(outer));
}

/// Address range of this executable's own code: [lo, hi).
pub fn own_text() -> (u64, u64) {
    unsafe extern "C" fn cb(i: *mut libc::dl_phdr_info, _: libc::size_t, d: *mut libc::c_void) -> i32 {
        unsafe {
            let i = &*i;
            let out = &mut *d.cast::<(u64, u64)>();
            for k in 0..i.dlpi_phnum as usize {
                let p = &*i.dlpi_phdr.add(k);
                if p.p_type == libc::PT_LOAD && p.p_flags & libc::PF_X != 0 {
                    let a = i.dlpi_addr + p.p_vaddr;
                    let me = own_text as *const () as u64;
                    if (a..a + p.p_memsz).contains(&me) {
                        *out = (a, a + p.p_memsz);
                        return 1;
                    }
                }
            }
            0
        }
    }
    let mut r = (0, 0);
    unsafe { libc::dl_iterate_phdr(Some(cb), (&mut r as *mut (u64, u64)).cast()) };
    assert!(r.1 > r.0, "own code segment");
    r
}

/// Address range of this executable's writable static data (.data, .bss): [lo, hi).
pub fn own_data() -> (u64, u64) {
    unsafe extern "C" fn cb(i: *mut libc::dl_phdr_info, _: libc::size_t, d: *mut libc::c_void) -> i32 {
        unsafe {
            let i = &*i;
            let out = &mut *d.cast::<(u64, u64)>();
            let at = |k: usize| &*i.dlpi_phdr.add(k);
            let n = i.dlpi_phnum as usize;
            let me = own_text as *const () as u64;
            if (0..n).any(|k| at(k).p_type == libc::PT_LOAD && (i.dlpi_addr + at(k).p_vaddr..i.dlpi_addr + at(k).p_vaddr + at(k).p_memsz).contains(&me)) {
                // the last writable segment holds .data and .bss; relro is part of an earlier one or read-only by now
                for k in 0..n {
                    if at(k).p_type == libc::PT_LOAD && at(k).p_flags & libc::PF_W != 0 {
                        *out = (i.dlpi_addr + at(k).p_vaddr, i.dlpi_addr + at(k).p_vaddr + at(k).p_memsz);
                    }
                }
                return 1;
            }
            0
        }
    }
    let mut r = (0, 0);
    unsafe { libc::dl_iterate_phdr(Some(cb), (&mut r as *mut (u64, u64)).cast()) };
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Legacy,
    Vex,
    Evex,
}

/// A decoded instruction (without immediate).
#[derive(Clone, Copy, Debug)]
pub struct Insn {
    pub enc: Enc,
    /// 0: one-byte opcodes, 1: 0f, 2: 0f 38, 3: 0f 3a
    pub map: u8,
    pub op: u8,
    /// 0 none, 1: 66, 2: f3, 3: f2
    pub pp: u8,
    pub w: bool,
    /// vector length: 0 128 (or scalar), 1 256, 2 512
    pub l: u8,
    pub modrm: Option<u8>,
    /// general registers of the memory operand (hardware numbering)
    pub base: Option<u8>,
    pub index: Option<u8>,
    pub mem: bool,
    /// rsi/rdi string instruction
    pub string: bool,
}

/// Decode the instruction at `p` (at least 15 readable bytes).
pub fn decode(p: &[u8]) -> Option<Insn> {
    let mut i = 0;
    let (mut pp66, mut rep) = (false, 0u8);
    loop {
        match *p.get(i)? {
            0x66 => pp66 = true,
            0xf3 => rep = 2,
            0xf2 => rep = 3,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        i += 1;
    }
    let legacy_pp = if rep != 0 { rep } else if pp66 { 1 } else { 0 };
    let mut n = Insn { enc: Enc::Legacy, map: 0, op: 0, pp: legacy_pp, w: false, l: 0, modrm: None, base: None, index: None, mem: false, string: false };
    let (mut rx, mut rb) = (0u8, 0u8);
    let mut has_modrm;
    match *p.get(i)? {
        0xc5 => {
            let b = *p.get(i + 1)?;
            n.enc = Enc::Vex;
            n.map = 1;
            n.pp = b & 3;
            n.pp = [0, 1, 2, 3][n.pp as usize];
            n.l = b >> 2 & 1;
            n.op = *p.get(i + 2)?;
            i += 3;
            has_modrm = n.op != 0x77;
        }
        0xc4 => {
            let (a, b) = (*p.get(i + 1)?, *p.get(i + 2)?);
            n.enc = Enc::Vex;
            n.map = a & 31;
            rx = (!a >> 6 & 1) << 3;
            rb = (!a >> 5 & 1) << 3;
            n.pp = b & 3;
            n.l = b >> 2 & 1;
            n.w = b >> 7 != 0;
            n.op = *p.get(i + 3)?;
            i += 4;
            has_modrm = !(n.map == 1 && n.op == 0x77);
        }
        0x62 => {
            let (a, b, c) = (*p.get(i + 1)?, *p.get(i + 2)?, *p.get(i + 3)?);
            n.enc = Enc::Evex;
            n.map = a & 7;
            rx = (!a >> 6 & 1) << 3;
            rb = (!a >> 5 & 1) << 3;
            n.pp = b & 3;
            n.w = b >> 7 != 0;
            n.l = c >> 5 & 3;
            n.op = *p.get(i + 4)?;
            i += 5;
            has_modrm = true;
        }
        mut b => {
            if b & 0xf0 == 0x40 {
                n.w = b & 8 != 0;
                rx = (b & 2) << 2;
                rb = (b & 1) << 3;
                i += 1;
                b = *p.get(i)?;
            }
            if b == 0x0f {
                let c = *p.get(i + 1)?;
                match c {
                    0x38 | 0x3a => {
                        n.map = if c == 0x38 { 2 } else { 3 };
                        n.op = *p.get(i + 2)?;
                        i += 3;
                        has_modrm = true;
                    }
                    _ => {
                        n.map = 1;
                        n.op = c;
                        i += 2;
                        has_modrm = !matches!(c, 0x05..=0x09 | 0x0b | 0x0e | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf);
                    }
                }
            } else {
                n.op = b;
                i += 1;
                has_modrm = match b {
                    0x00..=0x3f => b & 7 < 4,
                    0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
                    _ => false,
                };
                n.string = matches!(b, 0xa4..=0xa7 | 0xaa..=0xaf | 0x6c..=0x6f);
                if b == 0xd7 {
                    // xlat
                    n.mem = true;
                    n.base = Some(3);
                    n.index = Some(0);
                    has_modrm = false;
                }
            }
        }
    }
    if has_modrm {
        let m = *p.get(i)?;
        n.modrm = Some(m);
        if m >> 6 != 3 {
            n.mem = true;
            if m & 7 == 4 {
                let s = *p.get(i + 1)?;
                let x = (s >> 3 & 7) | rx;
                n.index = (x != 4).then_some(x);
                n.base = (!(s & 7 == 5 && m >> 6 == 0)).then_some((s & 7) | rb);
            } else if m & 7 == 5 && m >> 6 == 0 {
                n.base = None; // rip-relative
            } else {
                n.base = Some((m & 7) | rb);
            }
            // lea and the hinting nops compute an address but access nothing
            if n.enc == Enc::Legacy && ((n.map == 0 && n.op == 0x8d) || (n.map == 1 && matches!(n.op, 0x19..=0x1f))) {
                n.mem = false;
            }
        }
    }
    Some(n)
}

impl Insn {
    /// gather/scatter: the index register is a vector
    pub fn vsib(&self) -> bool {
        self.enc != Enc::Legacy && self.map == 2 && matches!(self.op, 0x90..=0x93 | 0xa0..=0xa3 | 0xc6 | 0xc7) && self.mem
    }
}

/// Value of a general register (hardware numbering).
pub fn reg(uc: &libc::ucontext_t, r: u8) -> u64 {
    use libc::*;
    const MAP: [i32; 16] = [
        REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14,
        REG_R15,
    ];
    uc.uc_mcontext.gregs[MAP[r as usize] as usize] as u64
}
pub fn rip(uc: &libc::ucontext_t) -> u64 {
    uc.uc_mcontext.gregs[libc::REG_RIP as usize] as u64
}

/// The instruction bytes at `a` (the code is readable; the last bytes of the segment are padded with nop).
pub fn code_at(a: u64) -> [u8; 15] {
    let mut b = [0x90; 15];
    let (lo, hi) = text();
    let n = if a >= lo && a < hi { (hi - a).min(15) as usize } else { 15.min((4096 - a as usize % 4096).max(15)) };
    unsafe { std::ptr::copy_nonoverlapping(a as *const u8, b.as_mut_ptr(), n.min(15)) };
    b
}

pub fn text() -> (u64, u64) {
    use std::sync::OnceLock;
    static T: OnceLock<(u64, u64)> = OnceLock::new();
    *T.get_or_init(own_text)
}

// ---- instruction-set extensions ----

pub const X_BASE: u32 = 0;
pub const X_SSE3: u32 = 1;
pub const X_SSSE3: u32 = 2;
pub const X_SSE41: u32 = 4;
pub const X_SSE42: u32 = 8;
pub const X_AVX: u32 = 16;
pub const X_AVX2: u32 = 32;
pub const X_F: u32 = 64;
pub const X_VL: u32 = 128;
pub const X_BW: u32 = 256;
pub const X_DQ: u32 = 512;
pub const X_FMA: u32 = 1 << 10;
pub const X_BMI: u32 = 1 << 11;
pub const X_POPCNT: u32 = 1 << 12;
pub const X_AES: u32 = 1 << 13;
pub const X_CLMUL: u32 = 1 << 14;
pub const X_SHA: u32 = 1 << 15;
pub const X_MOVBE: u32 = 1 << 16;
pub const X_ADX: u32 = 1 << 17;
pub const X_LZCNT: u32 = 1 << 18;
pub const X_CX16: u32 = 1 << 19;
pub const X_F16C: u32 = 1 << 20;
pub const X_OTHER512: u32 = 1 << 21;
pub const X_RAND: u32 = 1 << 22;
pub const X_GFNI: u32 = 1 << 23;

pub const X_NAMES: [(u32, &str); 24] = [
    (X_SSE3, "sse3"), (X_SSSE3, "ssse3"), (X_SSE41, "sse4.1"), (X_SSE42, "sse4.2"), (X_AVX, "avx"), (X_AVX2, "avx2"), (X_F, "avx512f"),
    (X_VL, "avx512vl"), (X_BW, "avx512bw"), (X_DQ, "avx512dq"), (X_FMA, "fma"), (X_BMI, "bmi1/bmi2"), (X_POPCNT, "popcnt"), (X_AES, "aes"),
    (X_CLMUL, "pclmulqdq"), (X_SHA, "sha"), (X_MOVBE, "movbe"), (X_ADX, "adx"), (X_LZCNT, "lzcnt"), (X_CX16, "cmpxchg16b"), (X_F16C, "f16c"),
    (X_OTHER512, "other avx512 extension"), (X_RAND, "rdrand/rdseed"), (X_GFNI, "gfni"),
];

pub fn x_names(x: u32) -> String {
    let v: Vec<_> = X_NAMES.iter().filter(|(b, _)| x & b != 0).map(|(_, n)| *n).collect();
    if v.is_empty() { "baseline".into() } else { v.join("+") }
}

/// The extensions an instruction needs beyond x86-64 baseline (SSE2).
pub fn needs(n: &Insn) -> u32 {
    match n.enc {
        Enc::Legacy => legacy_needs(n),
        Enc::Vex => vex_needs(n),
        Enc::Evex => evex_needs(n),
    }
}

fn legacy_needs(n: &Insn) -> u32 {
    let reg = n.modrm.map(|m| m >> 3 & 7);
    match n.map {
        1 => match (n.pp, n.op) {
            (3 | 2, 0x12) | (2, 0x16) | (1 | 3, 0x7c | 0x7d | 0xd0) | (3, 0xf0) => X_SSE3,
            (2, 0xb8) => X_POPCNT,
            // f3 0f bc is an ordinary bsf on CPUs without tzcnt; compilers rely on that
            (2, 0xbd) => X_LZCNT,
            (_, 0xc7) => match (reg, n.modrm.is_some_and(|m| m >> 6 == 3)) {
                (Some(1), false) if n.w => X_CX16,
                (Some(6 | 7), true) => X_RAND,
                _ => X_BASE,
            },
            _ => X_BASE,
        },
        2 => match n.op {
            0x00..=0x0b | 0x1c..=0x1e => X_SSSE3,
            0x37 => X_SSE42,
            0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 => X_SSE41,
            0xc8..=0xcd => X_SHA,
            0xcf => X_GFNI,
            0xdb..=0xdf => X_AES,
            0xf0 | 0xf1 if n.pp == 3 => X_SSE42,
            0xf0 | 0xf1 => X_MOVBE,
            0xf6 => X_ADX,
            _ => X_BASE,
        },
        3 => match n.op {
            0x0f => X_SSSE3,
            0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => X_SSE41,
            0x44 => X_CLMUL,
            0x60..=0x63 => X_SSE42,
            0xcc => X_SHA,
            0xce | 0xcf => X_GFNI,
            0xdf => X_AES,
            _ => X_BASE,
        },
        _ => X_BASE,
    }
}

fn vex_needs(n: &Insn) -> u32 {
    let y = n.l == 1;
    match n.map {
        1 => match n.op {
            // mask registers
            0x41 | 0x42 | 0x44..=0x47 | 0x4a | 0x4b | 0x90..=0x93 | 0x98 | 0x99 => {
                // w/pp select b, w, d, q
                let byte = !n.w && n.pp == 1;
                let word = !n.w && n.pp == 0;
                let (b92, op) = (matches!(n.op, 0x92 | 0x93), n.op);
                if matches!(op, 0x4a) && !byte && !n.w {
                    X_DQ
                } else if op == 0x4b {
                    if word || n.pp == 1 { X_F } else { X_BW }
                } else if word && !b92 || b92 && n.pp == 0 && !n.w {
                    if matches!(op, 0x99) { X_DQ } else { X_F }
                } else if byte {
                    X_DQ
                } else {
                    X_BW
                }
            }
            // 256-bit integer operations
            0x60..=0x6d | 0x70..=0x73 | 0x74..=0x76 | 0xd1..=0xd5 | 0xd8..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe if y => {
                X_AVX2
            }
            0xd7 if y => X_AVX2,
            _ => X_AVX,
        },
        2 => match n.op {
            0x18 | 0x19 if n.modrm.is_some_and(|m| m >> 6 == 3) => X_AVX2,
            0x0c..=0x0f | 0x17..=0x1a | 0x2c..=0x2f => X_AVX,
            0x13 => X_F16C,
            0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93 => X_AVX2,
            0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf => X_FMA,
            0xdb..=0xdf => X_AES,
            0xf2 | 0xf3 | 0xf5 | 0xf6 | 0xf7 => X_BMI,
            0xcf => X_GFNI,
            _ if y => X_AVX2,
            _ => X_AVX,
        },
        3 => match n.op {
            0x00..=0x02 | 0x38 | 0x39 | 0x46 => X_AVX2,
            0x04..=0x06 | 0x08..=0x0d | 0x18 | 0x19 | 0x14..=0x17 | 0x20..=0x22 | 0x40 | 0x41 | 0x4a | 0x4b | 0x60..=0x63 => X_AVX,
            0x0e | 0x0f | 0x42 | 0x4c => if y { X_AVX2 } else { X_AVX },
            0x1d => X_F16C,
            0x30..=0x33 => if n.w { X_BW } else { X_DQ }, // kshift
            0x44 => X_CLMUL,
            0xdf => X_AES,
            0xf0 => X_BMI,
            0xce | 0xcf => X_GFNI,
            _ => X_AVX,
        },
        _ => X_AVX,
    }
}

fn evex_needs(n: &Insn) -> u32 {
    let reg = n.modrm.map(|m| m >> 3 & 7).unwrap_or(0);
    // scalar floating point has no vector length
    let scalar = n.map == 1 && matches!(n.pp, 2 | 3) && matches!(n.op, 0x10 | 0x11 | 0x2a | 0x2c | 0x2d | 0x51 | 0x58..=0x5f | 0x78 | 0x79 | 0x7b)
        || n.map == 1 && matches!(n.op, 0x2e | 0x2f | 0x6e | 0xd6)
        || n.map == 1 && n.op == 0x7e
        || n.map == 3 && matches!(n.op, 0x14..=0x17 | 0x20..=0x22);
    let ext = match (n.map, n.op) {
        (1, 0x60 | 0x61 | 0x63 | 0x64 | 0x65 | 0x67 | 0x68 | 0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xd1 | 0xd5 | 0xd8..=0xda | 0xdc..=0xde | 0xe0 | 0xe1 | 0xe3 | 0xe4 | 0xe5
            | 0xe8..=0xea | 0xec..=0xee | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd | 0xc4 | 0xc5) => X_BW,
        (1, 0x70) if n.pp >= 2 => X_BW,
        (1, 0x73) if matches!(reg, 3 | 7) => X_BW,
        (1, 0x6f | 0x7f) if n.pp == 3 => X_BW,
        (1, 0x54..=0x57) => X_DQ,
        (1, 0x78..=0x7b) if n.pp == 1 || n.op == 0x7a && n.pp != 2 => X_DQ,
        (2, 0x00 | 0x04 | 0x0b | 0x1c | 0x1d | 0x38 | 0x3c | 0x3a | 0x3e | 0x20 | 0x2b) if n.pp == 1 => X_BW,
        (2, 0x10..=0x12) if n.pp == 1 && n.w => X_BW,
        (2, 0x10 | 0x20 | 0x30) if n.pp == 2 => X_BW,
        (2, 0x26 | 0x27) if matches!(n.pp, 1 | 2) && (n.op == 0x26 || false) => X_BW,
        (2, 0x30) if n.pp == 1 => X_BW,
        (2, 0x66 | 0x75 | 0x7d | 0x8d | 0x78 | 0x79 | 0x7a | 0x7b) => if n.op == 0x75 || n.op == 0x7d || n.op == 0x8d { if n.w { X_BW } else if n.op == 0x8d { X_OTHER512 } else { X_OTHER512 } } else { X_BW },
        (2, 0x28 | 0x29 | 0x38 | 0x39) if n.pp == 2 => if n.op == 0x28 || n.op == 0x29 { X_BW } else { X_DQ },
        (2, 0x40) if n.w => X_DQ,
        (2, 0x59 | 0x19) if n.op == 0x59 && !n.w || n.op == 0x19 && !n.w => X_DQ,
        (2, 0x5a | 0x1a) if n.w => X_DQ,
        (2, 0x5b | 0x1b) if !n.w => X_DQ,
        (2, 0x44 | 0xc4 | 0x50..=0x55 | 0x62 | 0x63 | 0x68 | 0x70..=0x73 | 0x8f | 0xb4 | 0xb5 | 0xcf | 0xc8 | 0xca..=0xcd | 0xdc..=0xdf) => X_OTHER512,
        (3, 0x0f | 0x42 | 0x14 | 0x15 | 0x20 | 0x3e | 0x3f) => X_BW,
        (3, 0x16 | 0x22 | 0x50 | 0x51 | 0x56 | 0x57 | 0x66 | 0x67) => X_DQ,
        (3, 0x18 | 0x19 | 0x38 | 0x39) if n.w => X_DQ,
        (3, 0x1a | 0x1b | 0x3a | 0x3b) if !n.w => X_DQ,
        (3, 0x44 | 0x70..=0x73 | 0xce | 0xcf) => X_OTHER512,
        (5 | 6, _) => X_OTHER512,
        _ => X_BASE,
    };
    X_F | ext | if n.l < 2 && !scalar { X_VL } else { 0 }
}

/// Does the classification agree with known encodings?
pub fn self_check() -> usize {
    let t: &[(&[u8], u32)] = &[
        (&[0x66, 0x0f, 0x3a, 0x16, 0xc0, 1], X_SSE41),                // pextrd
        (&[0x66, 0x0f, 0x38, 0x00, 0xc1], X_SSSE3),                   // pshufb xmm
        (&[0x66, 0x0f, 0xfe, 0xc1], X_BASE),                          // paddd xmm
        (&[0x66, 0x0f, 0x7e, 0xc0], X_BASE),                          // movd
        (&[0xf3, 0x0f, 0x16, 0xc1], X_SSE3),                          // movshdup
        (&[0xf3, 0x0f, 0x10, 0xc1], X_BASE),                          // movss
        (&[0xc5, 0xf9, 0xfe, 0xc1], X_AVX),                           // vpaddd xmm
        (&[0xc5, 0xfd, 0xfe, 0xc1], X_AVX2),                          // vpaddd ymm
        (&[0xc5, 0xfc, 0x58, 0xc1], X_AVX),                           // vaddps ymm
        (&[0xc5, 0xfd, 0x6f, 0x00], X_AVX),                           // vmovdqa ymm
        (&[0xc4, 0xe2, 0x7d, 0x00, 0xc1], X_AVX2),                    // vpshufb ymm
        (&[0xc4, 0xe3, 0x7d, 0x39, 0xc0, 1], X_AVX2),                 // vextracti128
        (&[0xc4, 0xe2, 0x7d, 0x5a, 0x00], X_AVX2),                    // vbroadcasti128
        (&[0xc4, 0xe2, 0x7d, 0x1a, 0x00], X_AVX),                     // vbroadcastf128
        (&[0x62, 0xf1, 0x7d, 0x48, 0xfe, 0xc1], X_F),                 // vpaddd zmm
        (&[0x62, 0xf1, 0x7d, 0x28, 0x72, 0xc0, 16], X_F | X_VL),      // vprord ymm
        (&[0x62, 0xf1, 0x7d, 0x08, 0x72, 0xc0, 16], X_F | X_VL),      // vprord xmm
        (&[0x62, 0xf2, 0x7d, 0x48, 0x00, 0xc1], X_F | X_BW),          // vpshufb zmm
        (&[0x62, 0xf3, 0x7d, 0x48, 0x3b, 0xc0, 1], X_F | X_DQ),       // vextracti32x8
        (&[0x62, 0xf3, 0xfd, 0x48, 0x3b, 0xc0, 1], X_F),              // vextracti64x4
        (&[0x62, 0xf1, 0x7f, 0x48, 0x6f, 0x00], X_F | X_BW),          // vmovdqu8 zmm
        (&[0x62, 0xf1, 0xfe, 0x48, 0x6f, 0x00], X_F),                 // vmovdqu64 zmm
        (&[0xf3, 0x0f, 0xb8, 0xc0], X_POPCNT),
        (&[0xc4, 0xe2, 0x79, 0xf7, 0xc0], X_BMI), // shlx
        (&[0xc5, 0xf8, 0x77], X_AVX),             // vzeroupper
        (&[0xc5, 0xf8, 0x92, 0xc0], X_F),         // kmovw
        (&[0xc5, 0xfb, 0x92, 0xc0], X_BW),        // kmovd
        (&[0xc5, 0xf9, 0x92, 0xc0], X_DQ),        // kmovb
        (&[0x48, 0x8b, 0x04, 0xc8], X_BASE),
    ];
    for (b, want) in t {
        let mut p = [0x90u8; 15];
        p[..b.len()].copy_from_slice(b);
        let n = decode(&p).expect("decodes");
        assert_eq!(needs(&n), *want, "{b:02x?} {n:?}");
    }
    // operands
    let d = |b: &[u8]| {
        let mut p = [0x90u8; 15];
        p[..b.len()].copy_from_slice(b);
        decode(&p).unwrap()
    };
    let n = d(&[0x48, 0x8b, 0x04, 0xc8]); // mov rax,[rax+rcx*8]
    assert!(n.mem && n.base == Some(0) && n.index == Some(1));
    let n = d(&[0x43, 0x0f, 0xb6, 0x04, 0x11]); // movzx eax, byte [r9+r10]
    assert!(n.mem && n.base == Some(9) && n.index == Some(10));
    let n = d(&[0x48, 0x8d, 0x04, 0xc8]); // lea
    assert!(!n.mem);
    let n = d(&[0xc5, 0xfd, 0x6f, 0x04, 0x0f]); // vmovdqa ymm0,[rdi+rcx]
    assert!(n.mem && n.base == Some(7) && n.index == Some(1));
    t.len() + 4
}
