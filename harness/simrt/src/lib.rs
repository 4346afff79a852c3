//! Simulator runtime. Not instrumented.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
pub mod heap;
pub mod rng;
pub mod sched;
pub mod sys;
mod atomics;
