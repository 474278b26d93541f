//! Model-checking harness for RustCrypto/stream-ciphers. See /verif/DESIGN.md.
pub mod core;
pub mod corerun;
pub mod alpha;
pub mod arena;
pub mod bfs;
pub mod interp;
pub mod kinds;
pub mod plan;
pub mod refs;
pub mod rng;
pub mod run;
pub mod scn;
pub mod scripts;
pub mod spec;
pub mod step;
