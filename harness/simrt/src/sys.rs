//! Raw system calls, and the libc symbols the simulator replaces.
use crate::sched;
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub const SYS_FUTEX: i64 = 202;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_GETRANDOM: i64 = 318;

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

pub fn wait(a: &AtomicU32) {
    // wait until *a == 1, then reset to 0
    loop {
        if a.swap(0, Ordering::SeqCst) == 1 {
            return;
        }
        unsafe { raw(SYS_FUTEX, a as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}
pub fn wake(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    unsafe { raw(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

/// can a program read and set its thread pointer?
pub fn can_hop() -> bool {
    const AT_HWCAP2: u64 = 26;
    unsafe { libc::getauxval(AT_HWCAP2) & 2 != 0 }
}
pub fn thread_pointer() -> usize {
    let r: usize;
    unsafe { asm!("rdfsbase {}", out(reg) r, options(nomem, nostack, preserves_flags)) };
    r
}
/// Leave the running context, remembering in `from` where it stands, for the
/// one that stands at `to` with thread pointer `fs`.
#[unsafe(naked)]
pub unsafe extern "C" fn hop(from: *mut usize, to: usize, fs: usize) {
    std::arch::naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "wrfsbase rdx",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}
#[unsafe(naked)]
unsafe extern "C" fn first() {
    std::arch::naked_asm!("mov rdi, r12", "call r13", "ud2")
}
/// A context on the calling thread's stack, well below its own frames, that
/// begins with a call of `f(arg)`.
#[inline(never)]
pub unsafe fn new_stand(f: unsafe extern "C" fn(usize) -> !, arg: usize) -> usize {
    let here = 0u8;
    let top = (&raw const here as usize - 16_384) & !63;
    let p = top as *mut usize;
    // what `hop` takes off, then the address it returns to
    let w = p.sub(7);
    *w = 0; // r15
    *w.add(1) = 0; // r14
    *w.add(2) = f as usize; // r13
    *w.add(3) = arg; // r12
    *w.add(4) = 0; // rbx
    *w.add(5) = 0; // rbp
    *w.add(6) = first as *const () as usize;
    w as usize
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn rd_ts(p: i64) -> u64 {
    let t = p as *const i64;
    ((*t).max(0) as u64).saturating_mul(1_000_000_000).saturating_add(*t.add(1) as u64)
}

/// libc `syscall`: std's futex-based locks come through here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !sched::in_task() {
        return ret(raw(n, a, b, c, d, e, f));
    }
    match n {
        SYS_FUTEX => {
            let cmd = b & 127;
            let realtime = b & 256 != 0;
            let addr = a as *const u32;
            match cmd {
                0 | 9 => {
                    if std::ptr::read_volatile(addr) != c as u32 {
                        return ret(-11);
                    }
                    let dl = if d == 0 {
                        0
                    } else if cmd == 0 {
                        sched::now() + rd_ts(d)
                    } else {
                        let base = if realtime { sched::REAL_OFF } else { 0 };
                        rd_ts(d).saturating_sub(base).max(1)
                    };
                    let bits = if cmd == 9 { f as u32 } else { u32::MAX };
                    ret(sched::futex_wait(a as usize, bits, dl))
                }
                1 | 10 => {
                    let bits = if cmd == 10 { f as u32 } else { u32::MAX };
                    ret(sched::futex_wake(a as usize, bits, c as u32 as u64))
                }
                _ => ret(-38),
            }
        }
        SYS_SCHED_YIELD => {
            sched::yield_now();
            0
        }
        SYS_GETRANDOM => {
            sched::fill_random(a as *mut u8, b as usize);
            b
        }
        SYS_CLOCK_GETTIME => clock_gettime(a as i32, b as *mut i64) as i64,
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::in_task() {
        sched::yield_now();
    } else {
        raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if sched::in_task() {
        sched::sleep_until(sched::now() + rd_ts(req as i64));
        return 0;
    }
    ret(raw(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if sched::in_task() {
        let t = rd_ts(req as i64);
        let dl = if flags & 1 == 0 {
            sched::now() + t
        } else if clk == 0 {
            t.saturating_sub(sched::REAL_OFF)
        } else {
            t
        };
        sched::sleep_until(dl);
        return 0;
    }
    (-raw(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, out: *mut i64) -> i32 {
    if sched::sim_active() {
        let mut t = sched::now();
        if clk == 0 || clk == 5 {
            t += sched::REAL_OFF;
        }
        *out = (t / 1_000_000_000) as i64;
        *out.add(1) = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as i64, out as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if sched::sim_active() {
        sched::fill_random(p, n);
        return n as isize;
    }
    ret(raw(SYS_GETRANDOM, p as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
unsafe fn next(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        libc::_exit(90);
    }
    p
}
pub unsafe fn real_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    static mut F: *mut libc::c_void = std::ptr::null_mut();
    if F.is_null() {
        F = next(c"pthread_create");
    }
    let g: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32 = std::mem::transmute(F);
    g(t, a, f, arg)
}
pub unsafe fn real_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    static mut F: *mut libc::c_void = std::ptr::null_mut();
    if F.is_null() {
        F = next(c"pthread_join");
    }
    let g: unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32 = std::mem::transmute(F);
    g(t, r)
}
/// Threads started by the code under simulation are scheduled with the rest.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    if !sched::in_task() {
        return real_create(t, a, f, arg);
    }
    match sched::spawn_inner(f, arg) {
        Some(th) => {
            *t = th;
            0
        }
        None => libc::EAGAIN,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if sched::in_task() {
        if let Some(x) = sched::join_inner(t) {
            if !r.is_null() {
                *r = x as *mut _;
            }
            return 0;
        }
    }
    real_join(t, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> i32 {
    if sched::sim_active() {
        // joined by the driver when it ends
        sched::detach_inner(t);
        return 0;
    }
    let g: unsafe extern "C" fn(libc::pthread_t) -> i32 = std::mem::transmute(next(c"pthread_detach"));
    g(t)
}
/// As many processors as a small machine has, wherever the run takes place.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    if sched::sim_active() {
        std::ptr::write_bytes(set, 0, n);
        *set = 15;
        return 0;
    }
    let r = ret(raw(204, pid as i64, n as i64, set as i64, 0, 0, 0));
    if r < 0 {
        return -1;
    }
    std::ptr::write_bytes(set.add(r as usize), 0, n - r as usize);
    0
}

/// Destructors of thread-local objects.
#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: usize, obj: usize, dso: usize) -> i32 {
    if sched::at_thread_exit(f, obj) {
        return 0;
    }
    static mut F: *mut libc::c_void = std::ptr::null_mut();
    if F.is_null() {
        F = next(c"__cxa_thread_atexit_impl");
    }
    let g: unsafe extern "C" fn(usize, usize, usize) -> i32 = std::mem::transmute(F);
    g(f, obj, dso)
}
