//! Atomic accesses of the code under simulation (the compiler's `tsan` pass
//! turns them into these calls): each is a scheduling point of its own.
use crate::sched::atomic_point;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

const RELAXED: i32 = 0;
const RELEASE: i32 = 3;

macro_rules! ops {
    ($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            atomic_point(true);
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            atomic_point(true);
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t {
            atomic_point(true);
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, o: i32) -> $t {
            atomic_point(v != 1 || o != RELAXED);
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, o: i32) -> $t {
            atomic_point(v != 1 || o != RELEASE);
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            atomic_point(true);
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            atomic_point(true);
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            atomic_point(true);
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            atomic_point(true);
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, old: $t, new: $t, _: i32, _: i32) -> $t {
            atomic_point(true);
            match (*p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
ops!(u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
ops!(u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
ops!(u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
