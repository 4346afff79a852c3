//! Simulated heap: a fixed-address arena with seeded address reuse, poison on
//! free, red zones, live accounting and injected allocation failures.
//! Before `on()` (parent process) everything goes to libc.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 4 << 30;
const HDR: usize = 32;
const MAGIC: u64 = 0xC0DE_FACE_51A7_E000;
const NCLS: usize = 100;
const CAP: usize = 1 << 15;
const POISON: u8 = 0xDD;
const FRESH: u8 = 0xA5;
const CANARY: u64 = 0x5EED_CA4A_4157_0FFE;

#[repr(C)]
struct Hdr {
    size: u64,
    magic: u64,
    ctx: u64,
    cls: u64,
}
pub struct Stats {
    pub live_bytes: u64,
    pub live_blocks: u64,
    pub allocs: u64,
    pub frees: u64,
    pub peak: u64,
    /// bytes and blocks allocated by code under simulation and not freed
    pub ulive_bytes: u64,
    pub ulive_blocks: u64,
}
pub static mut ST: Stats = Stats { live_bytes: 0, live_blocks: 0, allocs: 0, frees: 0, peak: 0, ulive_bytes: 0, ulive_blocks: 0 };
static mut ON: bool = false;
static mut NEXT: usize = 0;
static mut FREE: *mut [[usize; CAP]; NCLS] = std::ptr::null_mut();
static mut NFREE: [usize; NCLS] = [0; NCLS];
static mut HEAD: [usize; NCLS] = [0; NCLS];
static mut MODE: u8 = 0;
/// allocations left in this operation until one fails (0: none armed)
pub static mut FAIL_AT: u64 = 0;
pub static mut FAILED: u64 = 0;
pub static mut OP_ALLOCS: u64 = 0;
pub static mut OP_MAX: u64 = 0;
pub static mut CTX: u64 = 0;
pub static mut REUSED: u64 = 0;

pub struct SimAlloc;

pub unsafe fn map() {
    let p = libc::mmap(BASE as *mut _, SIZE, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
    if p as usize != BASE {
        panic!("cannot map the simulated heap");
    }
    let q = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<[[usize; CAP]; NCLS]>(), 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    FREE = q as *mut _;
    NEXT = BASE;
}
/// From now on this process allocates in the arena. mode: 0 LIFO, 1 quarantine (FIFO), 2 random.
pub unsafe fn on(mode: u8) {
    MODE = mode;
    ON = true;
    std::alloc::set_alloc_error_hook(oom);
}
pub fn is_on() -> bool {
    unsafe { ON }
}
#[derive(Debug)]
pub struct AllocFailed;
fn oom(_: Layout) {
    std::panic::panic_any(AllocFailed);
}
fn class(n: usize) -> (usize, usize) {
    if n <= 1024 {
        let c = (n.max(1) + 15) / 16;
        (c, c * 16)
    } else {
        let b = usize::BITS - (n - 1).leading_zeros();
        (64 + b as usize - 10, 1usize << b)
    }
}
unsafe fn inside(p: *mut u8) -> bool {
    (p as usize) >= BASE && (p as usize) < BASE + SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON {
            return libc::memalign(l.align().max(16), l.size()) as *mut u8;
        }
        if sched::user() {
            OP_ALLOCS += 1;
            if l.size() as u64 > OP_MAX {
                OP_MAX = l.size() as u64;
            }
            if FAIL_AT != 0 {
                FAIL_AT -= 1;
                // a second failure while unwinding would abort the process: not the library's doing
                if FAIL_AT == 0 && !std::thread::panicking() {
                    FAILED += 1;
                    return std::ptr::null_mut();
                }
            }
            sched::alloc_point();
        }
        get(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !inside(p) {
            if !ON {
                libc::free(p as *mut _);
            }
            // in the child: parent memory is never given back (keeps the arena pristine)
            return;
        }
        if sched::user() {
            sched::alloc_point();
        }
        put(p, l.size());
    }
}

unsafe fn get(size: usize, align: usize) -> *mut u8 {
    if align > 16 || size > 1 << 30 {
        if size > 1 << 30 {
            return std::ptr::null_mut();
        }
        return libc::memalign(align, size) as *mut u8;
    }
    let (c, cap) = class(size);
    let fl = &mut (*FREE)[c];
    let n = NFREE[c];
    let take = match MODE {
        0 => n > 0,
        1 => n > 48,
        _ => n > 0 && sched::heap_rand(4) != 0,
    };
    let h;
    if take {
        REUSED += 1;
        h = match MODE {
            0 => fl[n - 1],
            1 => {
                let v = fl[HEAD[c] % CAP];
                HEAD[c] += 1;
                v
            }
            _ => {
                let i = sched::heap_rand(n as u64) as usize;
                let v = fl[i];
                fl[i] = fl[n - 1];
                v
            }
        };
        NFREE[c] -= 1;
        let u = (h + HDR) as *const u8;
        let lim = cap.min(256);
        for i in 0..lim {
            if *u.add(i) != POISON {
                sched::fatal("HEAP", &["write after free, block of ", &num(cap as u64), " bytes"]);
            }
        }
    } else {
        h = NEXT;
        NEXT += HDR + cap + 16;
        if NEXT > BASE + SIZE {
            sched::fatal("HEAP", &["simulated heap exhausted"]);
        }
    }
    let hd = h as *mut Hdr;
    (*hd).size = size as u64;
    (*hd).magic = MAGIC ^ h as u64;
    let user = sched::user();
    (*hd).ctx = CTX | (user as u64) << 63;
    if user {
        ST.ulive_bytes += size as u64;
        ST.ulive_blocks += 1;
    }
    (*hd).cls = c as u64;
    let u = (h + HDR) as *mut u8;
    std::ptr::write_bytes(u, FRESH, size);
    std::ptr::write_unaligned(u.add(size) as *mut u64, CANARY);
    ST.allocs += 1;
    ST.live_blocks += 1;
    ST.live_bytes += size as u64;
    if ST.live_bytes > ST.peak {
        ST.peak = ST.live_bytes;
    }
    u
}
unsafe fn put(p: *mut u8, size: usize) {
    let h = p as usize - HDR;
    let hd = h as *mut Hdr;
    if (*hd).magic != MAGIC ^ h as u64 {
        sched::fatal("HEAP", &["invalid or double free"]);
    }
    if (*hd).size != size as u64 {
        sched::fatal("HEAP", &["free with the wrong size"]);
    }
    if std::ptr::read_unaligned(p.add(size) as *const u64) != CANARY {
        sched::fatal("HEAP", &["write past the end of a block of ", &num(size as u64), " bytes"]);
    }
    (*hd).magic = 0;
    if (*hd).ctx >> 63 == 1 {
        ST.ulive_bytes -= size as u64;
        ST.ulive_blocks -= 1;
    }
    let (c, cap) = class(size);
    std::ptr::write_bytes(p, POISON, cap.min(256).max(size.min(65536)));
    ST.frees += 1;
    ST.live_blocks -= 1;
    ST.live_bytes -= size as u64;
    if NFREE[c] < CAP - 1 {
        let fl = &mut (*FREE)[c];
        if MODE == 1 {
            fl[(HEAD[c] + NFREE[c]) % CAP] = h;
        } else {
            fl[NFREE[c]] = h;
        }
        NFREE[c] += 1;
    }
}
/// sizes and contexts of live blocks whose context is at least `from`
pub fn live_from(from: u64, max: usize, f: &mut dyn FnMut(u64, u64)) {
    unsafe {
        let mut h = BASE;
        let mut n = 0;
        while h < NEXT {
            let hd = h as *const Hdr;
            let c = (*hd).cls as usize;
            let cap = if c <= 64 { c * 16 } else { 1usize << (c - 64 + 10) };
            if (*hd).magic == MAGIC ^ h as u64 && (*hd).ctx >= from {
                f((*hd).size, (*hd).ctx);
                n += 1;
                if n >= max {
                    return;
                }
            }
            h += HDR + cap + 16;
        }
    }
}
pub fn num(mut n: u64) -> Num {
    let mut b = Num { b: [0; 20], i: 20 };
    loop {
        b.i -= 1;
        b.b[b.i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            return b;
        }
    }
}
pub struct Num {
    b: [u8; 20],
    i: usize,
}
impl std::ops::Deref for Num {
    type Target = str;
    fn deref(&self) -> &str {
        std::str::from_utf8(&self.b[self.i..]).unwrap()
    }
}
