//! Harnesses, compiled to LLVM IR for the symbolic executor.
#![allow(unused_imports, unused_macros, dead_code, improper_ctypes)]
#[path = "all.rs"]
pub mod all;
pub mod sym;
