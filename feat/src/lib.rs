//! Only links the crate: does it compile under the selected features?
#![allow(unused)]
pub use chacha20;
