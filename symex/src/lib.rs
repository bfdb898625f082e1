//! Symbolic-execution harness for minikalman.  See /verif/DESIGN.md.
pub mod env;
pub mod sym;
pub mod spec;
pub mod harness;
pub mod kf;
pub mod mx;
#[path = "p/mod.rs"]
pub mod p;
pub mod bufs;
#[cfg(feature = "c24")]
pub mod fx;
#[cfg(feature = "c29")]
pub mod fl;
pub mod heap;
