//! Used instead of the stand-in where the code under test is linked with the genuine `cpufeatures` crate:
//! the reported feature set is then the machine's, and cannot be chosen.
pub const SSE2: u32 = 1;
pub const SSE41: u32 = 2;
pub const AVX: u32 = 4;
pub const AVX2: u32 = 8;
pub const AVX512F: u32 = 16;
pub const AVX512VL: u32 = 32;
pub const SSE3: u32 = 64;
pub const SSSE3: u32 = 128;
pub const SSE42: u32 = 256;
pub const AVX512BW: u32 = 512;
pub const AVX512DQ: u32 = 1024;
pub fn set_env(_: u32) {}
pub fn env() -> u32 {
    u32::MAX
}
