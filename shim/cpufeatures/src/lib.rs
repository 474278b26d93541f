//! Stand-in for the `cpufeatures` crate: same `new!` macro, but the reported feature set is chosen by
//! the harness (thread-local), so that CPU detection is an explored choice and not an accident of the
//! machine the check runs on. Unlike the original it does not report a feature because the build
//! target has it: that makes the dispatch to the portable code reachable on x86-64, as on older x86.
use std::cell::Cell;

thread_local! {
    static MASK: Cell<u32> = const { Cell::new(0) };
}

pub const SSE2: u32 = 1;
pub const SSE41: u32 = 2;
pub const AVX: u32 = 4;
pub const AVX2: u32 = 8;
pub const AVX512F: u32 = 16;
pub const AVX512VL: u32 = 32;
pub const SSE3: u32 = 64;
pub const SSSE3: u32 = 128;
pub const SSE42: u32 = 256;
pub const AVX512BW: u32 = 512;
pub const AVX512DQ: u32 = 1024;

/// Set the feature set reported on this thread.
pub fn set_env(mask: u32) {
    MASK.with(|m| m.set(mask));
}

/// The feature set reported on this thread.
pub fn env() -> u32 {
    MASK.with(Cell::get)
}

#[doc(hidden)]
#[inline(never)]
pub fn has(bit: u32) -> bool {
    MASK.with(|m| m.get() & bit == bit)
}

/// Bit of a feature name (unknown features are never reported).
pub const fn bit(name: &str) -> u32 {
    let n = name.as_bytes();
    const T: [(&str, u32); 11] = [
        ("sse2", SSE2),
        ("sse3", SSE3),
        ("ssse3", SSSE3),
        ("sse4.1", SSE41),
        ("sse4.2", SSE42),
        ("avx", AVX),
        ("avx2", AVX2),
        ("avx512f", AVX512F),
        ("avx512vl", AVX512VL),
        ("avx512bw", AVX512BW),
        ("avx512dq", AVX512DQ),
    ];
    let mut i = 0;
    while i < T.len() {
        let t = T[i].0.as_bytes();
        if t.len() == n.len() {
            let mut j = 0;
            let mut eq = true;
            while j < n.len() {
                if t[j] != n[j] {
                    eq = false;
                }
                j += 1;
            }
            if eq {
                return T[i].1;
            }
        }
        i += 1;
    }
    1 << 31
}

#[macro_export]
macro_rules! new {
    ($mod_name:ident, $($tf:tt),+ $(,)?) => {
        #[allow(dead_code)]
        mod $mod_name {
            /// Initialization token
            #[derive(Copy, Clone, Debug)]
            pub struct InitToken(());

            impl InitToken {
                /// Initialize token.
                #[inline(always)]
                pub fn init() -> Self {
                    init()
                }
                /// Initialize token and return whether the features are supported.
                #[inline(always)]
                pub fn init_get() -> (Self, bool) {
                    init_get()
                }
                /// Whether the features are supported.
                #[inline(always)]
                pub fn get(&self) -> bool {
                    get()
                }
            }
            /// As in the original crate.
            #[inline(always)]
            pub fn init_get() -> (InitToken, bool) {
                (InitToken(()), get())
            }
            /// As in the original crate.
            #[inline(always)]
            pub fn init() -> InitToken {
                InitToken(())
            }
            /// As in the original crate.
            #[inline(always)]
            pub fn get() -> bool {
                const BITS: u32 = 0 $(| $crate::bit($tf))+;
                $crate::has(BITS)
            }
        }
    };
}
