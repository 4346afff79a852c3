//! The scheduler: real threads, released one at a time.
//!
//! A run is `start(policy)`, any number of `spawn`s, then `run_all()` from the
//! driver thread.  Every switch is recorded as an `Entry`; feeding the entries
//! back (`Policy::Replay`) reproduces the run.
use crate::heap;
use crate::rng::Rng;
use crate::sys;
use std::sync::atomic::AtomicU32;

pub const MAXT: usize = 40;
pub const MAIN: usize = MAXT;
pub const REAL_OFF: u64 = 1_700_000_000_000_000_000;
const T0: u64 = 1_000_000_000_000;
const NS_PER_STEP: u64 = 10;
/// a task that runs this long without giving way is made to
const FAIR: u64 = 2_000_000;
const NONE: u64 = u64::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum St {
    Free,
    Runnable,
    Futex,
    Sleep,
    Barrier,
    Done,
}

/// One scheduling decision: `step` steps after it began operation `op`, `task`
/// gave way to `next`, was stalled for `stall` ns (0: not), and `wake` (if
/// any) woke spuriously.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct Entry {
    pub op: u64,
    pub step: u64,
    pub stall: u64,
    pub task: u8,
    pub next: u8,
    pub wake: u8,
}
pub const NOBODY: u8 = 255;

pub struct Task {
    st: St,
    pub step: u64,
    stop: u64,
    preempt_at: u64,
    fair_at: u64,
    op_limit: u64,
    user: u32,
    last: u32,
    prio: u32,
    go: AtomicU32,
    /// where the task stands while another runs, when the driver thread plays
    /// all of them (see `hop`)
    stand: usize,
    fs: usize,
    faddr: usize,
    fbits: u32,
    wake_at: u64, // deadline of a timed wait or sleep, 0: none
    timed_out: bool,
    fseq: u64,
    thread: libc::pthread_t,
    body: Option<Box<dyn FnOnce()>>,
    list: usize, // replay: entries of the current operation
    ent: usize,  // and the next one
    base: u64,   // step at which the current operation began
    fail_at: u64,
    op_allocs: u64,
    op_max: u64,
    ctx: u64,
    pub cur_op: u64,
    pub cur_lib: u64,
    in_lib: bool,
    freeze: bool,
    /// made by the code under simulation
    inner: bool,
    joined: u32,
    /// what the code under simulation knows it by
    name: libc::pthread_t,
    detached: bool,
    ret: usize,
}
const fn task0() -> Task {
    Task {
        st: St::Free,
        step: 0,
        stop: NONE,
        preempt_at: NONE,
        fair_at: NONE,
        op_limit: NONE,
        user: 0,
        last: 0,
        prio: 0,
        go: AtomicU32::new(0),
        stand: 0,
        fs: 0,
        faddr: 0,
        fbits: 0,
        wake_at: 0,
        timed_out: false,
        fseq: 0,
        thread: 0,
        body: None,
        list: usize::MAX,
        ent: 0,
        base: 0,
        fail_at: 0,
        op_allocs: 0,
        op_max: 0,
        ctx: 0,
        cur_op: 0,
        cur_lib: 0,
        in_lib: false,
        freeze: false,
        inner: false,
        joined: 0,
        name: 0,
        detached: false,
        ret: 0,
    }
}

#[repr(C)]
struct Hot {
    step: u64,
    stop: u64,
    user: u32,
    last: u32,
}
static mut HOT: Hot = Hot { step: 0, stop: NONE, user: 0, last: 0 };
pub static mut T: [Task; MAXT + 1] = [const { task0() }; MAXT + 1];
static mut CUR: usize = MAIN;
static mut NT: usize = 0;
static mut ACTIVE: bool = false;
static mut IN_TASKS: bool = false;
static mut EXITING: bool = false;
static mut TIME: u64 = T0; // time at the last switch
static mut STEP0: u64 = 0; // HOT.step at the last switch
static mut JUMP: u64 = 0;
static mut SEQ: u64 = 0;
static mut POL: Policy = Policy::None;
static mut RNG: Rng = Rng(1);
static mut SRNG: Rng = Rng(2); // values handed to the program (getrandom), heap policy
static mut LOG: *mut Entry = std::ptr::null_mut();
static mut NLOG0: u64 = 0;
static mut NLOG: *mut u64 = &raw mut NLOG0;
pub static mut LOGFULL: bool = false;
/// per mille: a switch soon after an edge that few have passed since the tasks
/// began; plus 1000: and a long stall there
static mut COLD: u64 = 0;
/// the same, at atomic accesses
static mut SYNC: u64 = 0;
static mut HOPS: bool = false;
static mut PASSED: [u8; COV_N] = [0; COV_N];
pub const LOGCAP: usize = 1 << 18;
pub static mut HASH: u64 = 0xcbf2_9ce4_8422_2325;
pub static mut STATS: Stats = Stats { switches: 0, preemptions: 0, stalls: 0, spurious: 0, barriers: 0, futex_waits: 0, futex_wakes: 0, timeouts: 0, inop: 0, jumps: 0, randoms: 0, atomics: 0 };
pub struct Stats {
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub barriers: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub timeouts: u64,
    /// switches while at least one other task was inside an operation
    pub inop: u64,
    pub jumps: u64,
    pub randoms: u64,
    pub atomics: u64,
}

#[derive(Clone, Debug)]
pub enum Policy {
    None,
    /// geometric quanta with mean `mean`; every `burst_every`-th (on average)
    /// switch starts a burst of short quanta of mean `burst`
    Random { mean: u64, burst: u64, p_burst: u32, p_stall: u32, stall_ns: u64, p_spur: u32, cold: u32, sync: u32 },
    /// priorities with a few change points within `span` steps of each task
    Pct { depth: u32, span: u64 },
    /// per task: sorted by operation, then step
    Replay(Vec<Vec<(u64, Vec<Entry>)>>),
}
impl Policy {
    pub fn replay(es: &[Entry]) -> Policy {
        let mut v: Vec<Vec<(u64, Vec<Entry>)>> = vec![vec![]; MAXT + 1];
        let mut es = es.to_vec();
        es.sort_by_key(|e| (e.task, e.op, e.step));
        for e in es {
            let t = &mut v[e.task as usize];
            if t.last().map(|x| x.0) != Some(e.op) {
                t.push((e.op, vec![]));
            }
            t.last_mut().unwrap().1.push(e);
        }
        Policy::Replay(v)
    }
}

static mut COVMAP: *mut u8 = std::ptr::null_mut();
static mut PAIRS: *mut u8 = std::ptr::null_mut();
pub const COV_N: usize = 1 << 16;
pub const PAIR_BITS: usize = 1 << 20;
static mut COV_LOCAL: [u8; COV_N] = [0; COV_N];
static mut FATAL: Option<fn(&str, &str)> = None;
static mut FATAL_BUF: [u8; 4096] = [0; 4096];

#[inline(always)]
pub fn user() -> bool {
    unsafe { HOT.user != 0 }
}
pub fn in_task() -> bool {
    unsafe { IN_TASKS && !EXITING && CUR != MAIN }
}
pub fn sim_active() -> bool {
    unsafe { ACTIVE }
}
pub fn cur() -> usize {
    unsafe { CUR }
}
pub fn now() -> u64 {
    unsafe { TIME + (HOT.step - STEP0) * NS_PER_STEP + JUMP }
}
pub fn sim_elapsed() -> u64 {
    now() - T0
}
pub fn fill_random(p: *mut u8, n: usize) {
    unsafe {
        STATS.randoms += 1;
        for i in 0..n {
            *p.add(i) = SRNG.next() as u8;
        }
    }
}
pub fn heap_rand(n: u64) -> u64 {
    unsafe { SRNG.below(n) }
}
pub fn mix(x: u64) {
    unsafe {
        HASH = (HASH ^ x).wrapping_mul(0x1000_0000_01b3).rotate_left(23);
    }
}

/// where coverage bitmaps live (shared with the orchestrator)
pub unsafe fn set_cov(cov: *mut u8, pairs: *mut u8) {
    COVMAP = cov;
    PAIRS = pairs;
}
pub unsafe fn set_fatal(f: fn(&str, &str)) {
    FATAL = Some(f);
}
pub fn fatal(kind: &str, parts: &[&str]) -> ! {
    unsafe {
        HOT.user = 0;
        HOT.stop = NONE;
        #[allow(static_mut_refs)]
        let b = &mut FATAL_BUF;
        let mut n = 0;
        for p in parts {
            for &c in p.as_bytes() {
                if n < b.len() {
                    b[n] = c;
                    n += 1;
                }
            }
        }
        let m = std::str::from_utf8(&b[..n]).unwrap_or("?");
        if let Some(f) = FATAL {
            f(kind, m);
        }
        libc::_exit(90);
    }
}

// ---------------------------------------------------------------- call-backs

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    static mut N: u32 = 0;
    let mut p = start;
    while p < stop {
        if *p == 0 {
            N += 1;
            *p = N;
        }
        p = p.add(1);
    }
}
/// (address, flags) of each guard, in builds made for a coverage listing
pub static mut PCS: (*const [usize; 2], usize) = (std::ptr::null(), 0);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const [usize; 2], stop: *const [usize; 2]) {
    PCS = (start, stop.offset_from(start) as usize);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if HOT.user == 0 {
        return;
    }
    HOT.last = *g;
    *COVMAP.add((*g as usize) & (COV_N - 1)) = 1;
    HOT.step += 1;
    if COLD != 0 {
        cold((*g as usize) & (COV_N - 1));
    }
    if HOT.step >= HOT.stop {
        slow();
    }
}
#[inline(never)]
unsafe fn cold(g: usize) {
    if PASSED[g] >= 6 || NT < 2 || CUR == MAIN || EXITING {
        return;
    }
    PASSED[g] += 1;
    if RNG.below(1000) < COLD % 1000 {
        let t = &mut T[CUR];
        // ... and for how long
        t.freeze = COLD >= 1000;
        t.preempt_at = t.preempt_at.min(HOT.step + RNG.below(8));
        set_stop();
    }
}
macro_rules! mem {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_: *const u8) {
            if HOT.user == 0 {
                return;
            }
            HOT.step += 1;
            if HOT.step >= HOT.stop {
                slow();
            }
        }
    )*};
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// before an atomic access; `hot`: one that may be part of a protocol, not a
/// count of references going up or down
#[inline]
pub unsafe fn atomic_point(hot: bool) {
    if HOT.user == 0 {
        return;
    }
    HOT.step += 1;
    if hot {
        STATS.atomics += 1;
        if SYNC != 0 {
            sync();
        }
    }
    if HOT.step >= HOT.stop {
        slow();
    }
}
#[inline(never)]
unsafe fn sync() {
    if NT < 2 || CUR == MAIN || EXITING {
        return;
    }
    if RNG.below(1000) < SYNC % 1000 {
        let t = &mut T[CUR];
        t.freeze = SYNC >= 1000;
        t.preempt_at = t.preempt_at.min(HOT.step + RNG.below(4));
        set_stop();
    }
}
#[inline]
pub unsafe fn alloc_point() {
    HOT.step += 1;
    if HOT.step >= HOT.stop {
        slow();
    }
}

// ------------------------------------------------------------------ decisions

unsafe fn rearm(t: usize) {
    let s = HOT.step;
    let tk = &mut T[t];
    tk.preempt_at = match &mut POL {
        Policy::None => NONE,
        Policy::Random { mean, burst, p_burst, .. } => {
            let m = if *burst > 0 && RNG.below(1000) < *p_burst as u64 { *burst } else { *mean };
            s + RNG.geom(m)
        }
        Policy::Pct { .. } => {
            // change points are drawn lazily: exponential gaps
            if let Policy::Pct { depth, span } = &POL {
                s + RNG.geom((*span / (*depth as u64).max(1)).max(1))
            } else {
                NONE
            }
        }
        Policy::Replay(v) => {
            let v = &v[t];
            if tk.list == usize::MAX {
                NONE
            } else {
                let v = &v[tk.list].1;
                while tk.ent < v.len() && v[tk.ent].step + tk.base <= s {
                    tk.ent += 1;
                }
                if tk.ent < v.len() {
                    v[tk.ent].step + tk.base
                } else {
                    NONE
                }
            }
        }
    };
}
unsafe fn set_stop() {
    let t = &T[CUR];
    HOT.stop = t.preempt_at.min(t.fair_at).min(t.op_limit);
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if EXITING {
        HOT.stop = NONE;
        return;
    }
    if CUR == MAIN {
        if HOT.step >= T[MAIN].op_limit {
            T[MAIN].op_limit = NONE;
            fatal("NOPROGRESS", &["the operation did not finish within its step bound"]);
        }
        HOT.stop = T[MAIN].op_limit;
        return;
    }
    let errno = *libc::__errno_location();
    let s = HOT.step;
    let t = CUR;
    if s >= T[t].op_limit {
        T[t].op_limit = NONE;
        fatal("NOPROGRESS", &["the operation did not finish within its step bound"]);
    }
    let planned = s >= T[t].preempt_at;
    let fair = s >= T[t].fair_at;
    if planned || fair {
        STATS.preemptions += planned as u64;
        give_way(St::Runnable, planned);
    } else {
        set_stop();
    }
    *libc::__errno_location() = errno;
}

unsafe fn entry_here(t: usize, s: u64) -> Option<Entry> {
    if let Policy::Replay(v) = &POL {
        let tk = &mut T[t];
        if tk.list == usize::MAX {
            return None;
        }
        let v = &v[t][tk.list].1;
        let mut i = tk.ent;
        while i > 0 && v[i - 1].step + tk.base >= s {
            i -= 1;
        }
        while i < v.len() && v[i].step + tk.base < s {
            i += 1;
        }
        tk.ent = i;
        if i < v.len() && v[i].step + tk.base == s {
            return Some(v[i]);
        }
    }
    None
}
/// task `t` begins operation `op` at its current step
unsafe fn begin(t: usize, op: u64) {
    let tk = &mut T[t];
    tk.cur_op = op;
    tk.base = HOT.step;
    if let Policy::Replay(v) = &POL {
        tk.ent = 0;
        tk.list = v[t].iter().position(|x| x.0 == op).unwrap_or(usize::MAX);
        rearm(t);
        if t == CUR && t != MAIN {
            set_stop();
        }
    }
}

unsafe fn refresh() {
    // expired timers become runnable
    let n = now();
    for i in 0..NT {
        let k = &mut T[i];
        if (k.st == St::Futex || k.st == St::Sleep) && k.wake_at != 0 && k.wake_at <= n {
            k.timed_out = k.st == St::Futex;
            STATS.timeouts += k.timed_out as u64;
            k.st = St::Runnable;
            k.wake_at = 0;
        }
    }
}

/// Choose who runs after `t` (which is in state `T[t].st`) gives way at step `s`.
unsafe fn choose(t: usize, s: u64, random_ok: bool) -> usize {
    let mut ent = Entry { op: T[t].cur_op, step: s - T[t].base, stall: 0, task: t as u8, next: NOBODY, wake: NOBODY };
    let rec = entry_here(t, s);
    // stalls and spurious wake-ups
    let mut stall = 0;
    let mut wake = NOBODY;
    match &POL {
        Policy::Random { p_stall, stall_ns, p_spur, .. } if t != MAIN => {
            if random_ok && T[t].freeze && T[t].st == St::Runnable {
                stall = 1 << (10 + RNG.below(13));
                stall += RNG.below(stall);
                T[t].freeze = false;
            } else if random_ok && *p_stall > 0 && T[t].st == St::Runnable && RNG.below(10_000) < *p_stall as u64 {
                stall = RNG.geom(*stall_ns);
            }
            if *p_spur > 0 && RNG.below(10_000) < *p_spur as u64 {
                let mut c = [0usize; MAXT];
                let mut n = 0;
                for i in 0..NT {
                    if T[i].st == St::Futex {
                        c[n] = i;
                        n += 1;
                    }
                }
                if n > 0 {
                    wake = c[RNG.idx(n)] as u8;
                }
            }
        }
        _ => {
            if let Some(e) = rec {
                stall = e.stall;
                wake = e.wake;
            }
        }
    }
    if stall > 0 && t != MAIN && T[t].st == St::Runnable {
        T[t].st = St::Sleep;
        T[t].wake_at = now() + stall;
        STATS.stalls += 1;
        ent.stall = stall;
    }
    if wake != NOBODY && (wake as usize) < NT && T[wake as usize].st == St::Futex {
        T[wake as usize].st = St::Runnable;
        T[wake as usize].wake_at = 0;
        STATS.spurious += 1;
        ent.wake = wake;
    }
    let n;
    loop {
        refresh();
        let mut c = [0usize; MAXT];
        let mut k = 0;
        for i in 0..NT {
            if T[i].st == St::Runnable {
                c[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            // let time pass, then release barriers
            let mut best = NONE;
            for i in 0..NT {
                if (T[i].st == St::Futex || T[i].st == St::Sleep) && T[i].wake_at != 0 && T[i].wake_at < best {
                    best = T[i].wake_at;
                }
            }
            if best != NONE {
                let d = best.saturating_sub(now());
                TIME += d;
                STATS.jumps += 1;
                continue;
            }
            let mut any = false;
            for i in 0..NT {
                if T[i].st == St::Barrier {
                    T[i].st = St::Runnable;
                    any = true;
                }
            }
            if any {
                STATS.barriers += 1;
                continue;
            }
            let mut blocked = false;
            for i in 0..NT {
                blocked |= T[i].st == St::Futex;
            }
            if blocked {
                if CUR != MAIN && T[CUR].st != St::Futex {
                    for i in 0..NT {
                        if T[i].st == St::Futex {
                            CUR = i;
                        }
                    }
                }
                fatal("DEADLOCK", &["every unfinished task is blocked in a lock"]);
            }
            n = MAIN; // everybody is done
            break;
        }
        if k == 1 {
            n = c[0];
            if let Policy::Random { .. } | Policy::Pct { .. } = &POL {
                break;
            }
            break;
        }
        match &POL {
            Policy::Random { .. } => {
                // somebody else, if there is somebody else
                let mut pick = c[RNG.idx(k)];
                if pick == t && T[t].st == St::Runnable {
                    let mut o = [0usize; MAXT];
                    let mut m = 0;
                    for &x in &c[..k] {
                        if x != t {
                            o[m] = x;
                            m += 1;
                        }
                    }
                    pick = o[RNG.idx(m)];
                }
                n = pick;
            }
            Policy::Pct { .. } => {
                if t != MAIN && T[t].st == St::Runnable {
                    SEQ += 1;
                    T[t].prio = (SEQ & 0x7fff_ffff) as u32 | 0x8000_0000; // larger value = lower priority
                }
                let mut b = c[0];
                for &x in &c[..k] {
                    if T[x].prio < T[b].prio {
                        b = x;
                    }
                }
                n = b;
            }
            _ => {
                let want = rec.map(|e| e.next).unwrap_or(NOBODY);
                if want != NOBODY && (want as usize) < NT && T[want as usize].st == St::Runnable {
                    n = want as usize;
                } else {
                    // default: the next one, cyclically
                    let mut b = c[0];
                    let from = if t == MAIN { MAXT } else { t };
                    for &x in &c[..k] {
                        if x > from {
                            b = x;
                            break;
                        }
                    }
                    n = b;
                }
            }
        }
        break;
    }
    ent.next = n as u8;
    if n != MAIN && (n != t || ent.stall > 0 || ent.wake != NOBODY) {
        if *NLOG < LOGCAP as u64 {
            *LOG.add(*NLOG as usize) = ent;
            *NLOG += 1;
        } else {
            LOGFULL = true;
        }
    }
    n
}

/// The running task stops in state `st`; returns when it runs again.
unsafe fn give_way(st: St, planned: bool) {
    let t = CUR;
    T[t].st = st;
    let s = HOT.step;
    let n = choose(t, s, planned);
    if n == MAIN {
        // only possible when everything is done; a running task is not
        fatal("HARNESS", &["no task to run"]);
    }
    // (staying is not recorded, so it must leave no trace)
    if n != t || s >= T[t].fair_at {
        T[t].fair_at = s + FAIR;
    }
    rearm(t);
    if n == t {
        set_stop();
        return;
    }
    go(t, n);
    set_stop();
}

unsafe fn save(t: usize) {
    let k = &mut T[t];
    k.step = HOT.step;
    k.user = HOT.user;
    k.last = HOT.last;
    k.fail_at = heap::FAIL_AT;
    k.op_allocs = heap::OP_ALLOCS;
    k.op_max = heap::OP_MAX;
    k.ctx = heap::CTX;
}
unsafe fn load(t: usize) {
    let k = &T[t];
    HOT.step = k.step;
    HOT.user = k.user;
    HOT.last = k.last;
    STEP0 = k.step;
    heap::FAIL_AT = k.fail_at;
    heap::OP_ALLOCS = k.op_allocs;
    heap::OP_MAX = k.op_max;
    heap::CTX = k.ctx;
}

unsafe fn go(t: usize, n: usize) {
    STATS.switches += 1;
    let n0 = now() - JUMP;
    let s = HOT.step;
    save(t);
    TIME = n0;
    if t != MAIN && n != MAIN {
        mix((t as u64) << 56 ^ (n as u64) << 48 ^ s);
        if T[n].in_lib && T[t].in_lib {
            STATS.inop += 1;
            if !PAIRS.is_null() {
                let a = T[t].last as u64;
                let b = T[n].last as u64;
                let h = (a.wrapping_mul(0x9E37_79B9) ^ b.wrapping_mul(0x85EB_CA77_C2B2)).wrapping_mul(0x2545_F491_4F6C_DD1D) >> 44;
                let h = h as usize & (PAIR_BITS - 1);
                *PAIRS.add(h >> 3) |= 1 << (h & 7);
            }
        }
    }
    load(n);
    CUR = n;
    if n != MAIN {
        let k = &mut T[n];
        k.fair_at = k.step + FAIR;
        HOT.stop = NONE;
        set_stop_for(n);
    } else {
        HOT.stop = NONE;
    }
    if HOPS {
        sys::hop(&mut T[t].stand, T[n].stand, T[n].fs);
    } else {
        sys::wake(&T[n].go);
        sys::wait(&T[t].go);
    }
}
unsafe fn set_stop_for(n: usize) {
    let t = &T[n];
    HOT.stop = t.preempt_at.min(t.fair_at).min(t.op_limit);
}

// ------------------------------------------------------------------- blocking

pub unsafe fn futex_wait(addr: usize, bits: u32, deadline: u64) -> i64 {
    let t = CUR;
    let u = HOT.user;
    HOT.step += 1;
    STATS.futex_waits += 1;
    SEQ += 1;
    T[t].faddr = addr;
    T[t].fbits = bits;
    T[t].wake_at = deadline;
    T[t].timed_out = false;
    T[t].fseq = SEQ;
    give_way(St::Futex, false);
    HOT.user = u;
    if T[t].timed_out {
        -110
    } else {
        0
    }
}
pub unsafe fn futex_wake(addr: usize, bits: u32, max: u64) -> i64 {
    STATS.futex_wakes += 1;
    let mut woken = 0;
    while woken < max.min(1 << 31) as i64 {
        let mut best = MAXT;
        for i in 0..NT {
            let k = &T[i];
            if k.st == St::Futex && k.faddr == addr && k.fbits & bits != 0 && (best == MAXT || k.fseq < T[best].fseq) {
                best = i;
            }
        }
        if best == MAXT {
            break;
        }
        T[best].st = St::Runnable;
        T[best].wake_at = 0;
        woken += 1;
    }
    HOT.step += 1;
    if HOT.step >= HOT.stop {
        slow();
    }
    woken
}
pub fn yield_now() {
    unsafe {
        HOT.step += 1;
        give_way(St::Runnable, false);
    }
}
pub fn sleep_until(t: u64) {
    unsafe {
        HOT.step += 1;
        T[CUR].wake_at = t.max(now() + 1);
        give_way(St::Sleep, false);
    }
}
/// wait until nobody else can run without one of the waiting tasks
pub fn barrier() {
    if !in_task() {
        return;
    }
    unsafe {
        HOT.step += 1;
        give_way(St::Barrier, false);
    }
}
/// A scheduling point inside harness code (a sink or a call-back), more likely
/// than others to be used: `p` per mille under a random policy.
pub fn point(p: u64) {
    if !in_task() {
        return;
    }
    unsafe {
        HOT.step += 1;
        let hit = match &POL {
            Policy::Random { .. } | Policy::Pct { .. } => RNG.below(1000) < p,
            Policy::Replay(_) => HOT.step >= T[CUR].preempt_at,
            Policy::None => false,
        };
        if hit {
            STATS.preemptions += 1;
            give_way(St::Runnable, true);
        } else if HOT.step >= HOT.stop {
            slow();
        }
    }
}

// ----------------------------------------------------------------- operations

/// Enter code under simulation. `limit`: step bound, `fail`: which allocation fails (0: none).
pub fn enter(limit: u64, fail: u64, op: u64) {
    unsafe {
        // the schedule is keyed by what was marked last, not by `op`: an
        // operation may enter the library several times
        let t = CUR;
        T[t].cur_lib = op;
        T[t].op_limit = HOT.step + limit;
        T[t].in_lib = true;
        heap::FAIL_AT = fail;
        heap::OP_ALLOCS = 0;
        heap::OP_MAX = 0;
        heap::CTX = op;
        if t != MAIN {
            set_stop();
        } else {
            HOT.stop = T[t].op_limit;
        }
        HOT.user = 1;
    }
}
pub fn leave() -> OpStat {
    unsafe {
        HOT.user = 0;
        let t = CUR;
        let lim = T[t].op_limit;
        T[t].op_limit = NONE;
        T[t].in_lib = false;
        let armed = heap::FAIL_AT;
        heap::FAIL_AT = 0;
        heap::CTX = 0;
        if t != MAIN {
            set_stop();
        } else {
            HOT.stop = NONE;
        }
        OpStat { allocs: heap::OP_ALLOCS, max_alloc: heap::OP_MAX, not_fired: armed, limit_at: lim, step: HOT.step }
    }
}
pub struct OpStat {
    pub allocs: u64,
    pub max_alloc: u64,
    pub not_fired: u64,
    pub limit_at: u64,
    pub step: u64,
}
/// Leave / re-enter simulated code from inside a call-back.
pub fn pause() -> u32 {
    unsafe {
        let u = HOT.user;
        HOT.user = 0;
        u
    }
}
pub fn resume(u: u32) {
    unsafe { HOT.user = u }
}
pub fn steps() -> u64 {
    unsafe { HOT.step }
}
/// disarm the pending allocation failure, returning it
pub fn swap_fail(n: u64) -> u64 {
    unsafe {
        let o = heap::FAIL_AT;
        heap::FAIL_AT = n;
        o
    }
}

// -------------------------------------------------------------------- life cycle

pub unsafe fn start(policy: Policy, seed: u64) {
    let mut r = Rng::new(seed);
    RNG = r.fork();
    SRNG = r.fork();
    if let Policy::Random { cold, sync, .. } = &policy {
        COLD = *cold as u64;
        SYNC = *sync as u64;
    }
    POL = policy;
    ACTIVE = true;
    HOPS = sys::can_hop() && std::env::var("RSIM_THREADS").is_err();
    if HOPS {
        T[MAIN].fs = sys::thread_pointer();
    }
    CUR = MAIN;
    if COVMAP.is_null() {
        COVMAP = COV_LOCAL.as_mut_ptr();
    }
    if LOG.is_null() {
        LOG = libc::mmap(std::ptr::null_mut(), LOGCAP * std::mem::size_of::<Entry>(), 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut Entry;
    }
}
/// Each task is a thread with a stack and thread-local storage of its own.
/// Where the processor lets a program set its thread pointer, the thread only
/// lends these two: it sleeps, and the driver thread plays the task on them,
/// which makes a switch a jump.  Otherwise the threads hand over to each other.
extern "C" fn boot(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let t = arg as usize;
        if HOPS {
            let k = &mut T[t];
            k.fs = sys::thread_pointer();
            k.stand = sys::new_stand(play, t);
            sys::wake(&T[MAIN].go);
            sys::wait(&T[t].go);
            // the task is over
            return std::ptr::null_mut();
        }
        sys::wait(&T[t].go);
        body(t);
        sys::wake(&T[MAIN].go);
    }
    std::ptr::null_mut()
}
unsafe extern "C" fn play(t: usize) -> ! {
    body(t);
    sys::hop(&mut T[t].stand, T[MAIN].stand, T[MAIN].fs);
    libc::_exit(90)
}
unsafe fn body(t: usize) {
    let b = T[t].body.take().unwrap();
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).is_err() {
        fatal("HARNESS", &["the simulated client panicked"]);
    }
    thread_exit();
    // whatever is left (of the thread library itself) runs after this function
    // returns and before pthread_join in the driver does; it is not preempted
    EXITING = true;
    HOT.user = 0;
    T[t].st = St::Done;
    T[t].step = HOT.step;
    let n0 = now() - JUMP;
    TIME = n0;
    STEP0 = HOT.step;
}
/// Destructors of thread-local objects, per task: they are simulated code like any other.
const DTORS: usize = 64;
static mut DTOR: [[(usize, usize); DTORS]; MAXT + 1] = [[(0, 0); DTORS]; MAXT + 1];
static mut NDTOR: [usize; MAXT + 1] = [0; MAXT + 1];
/// false: not the business of a task
pub unsafe fn at_thread_exit(f: usize, obj: usize) -> bool {
    if !in_task() || NDTOR[CUR] >= DTORS {
        return false;
    }
    DTOR[CUR][NDTOR[CUR]] = (f, obj);
    NDTOR[CUR] += 1;
    true
}
/// Run what the task left to be done at its end.
pub fn thread_exit() {
    unsafe {
        let t = CUR;
        while NDTOR[t] > 0 {
            NDTOR[t] -= 1;
            let (f, obj) = DTOR[t][NDTOR[t]];
            let f: extern "C" fn(*mut libc::c_void) = std::mem::transmute(f);
            let op = T[t].cur_lib;
            enter(100_000_000, 0, op);
            f(obj as *mut _);
            leave();
        }
    }
}
pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    unsafe {
        let t = (0..NT).find(|&i| T[i].st == St::Free).unwrap_or(NT);
        assert!(t < MAXT);
        NT = NT.max(t + 1);
        let step = T[t].step;
        T[t] = task0();
        T[t].step = step;
        T[t].base = step;
        T[t].st = St::Runnable;
        T[t].body = Some(f);
        T[t].prio = RNG.below(1 << 20) as u32;
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 4 << 20);
        let r = sys::real_create(&mut T[t].thread, &attr, boot, t as *mut _);
        if r != 0 {
            fatal("HARNESS", &["pthread_create failed"]);
        }
        if HOPS {
            sys::wait(&T[MAIN].go);
        }
        t
    }
}
/// A thread made by the code under simulation becomes one more task.
pub unsafe fn spawn_inner(f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> Option<libc::pthread_t> {
    if NT >= MAXT && !(0..NT).any(|i| T[i].st == St::Free) {
        return None;
    }
    let (p, u) = (CUR, pause());
    let (arg, f) = (arg as usize, f as usize);
    let t = spawn(Box::new(move || {
        let t = CUR;
        HOT.user = 1;
        let f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void = std::mem::transmute(f);
        T[t].ret = f(arg as *mut _) as usize;
        HOT.user = 0;
        T[t].op_limit = NONE;
    }));
    let k = &mut T[t];
    k.inner = true;
    SEQ += 1;
    k.name = 0x7d00_0000_0000 + SEQ;
    k.in_lib = true;
    k.cur_op = T[p].cur_op;
    k.cur_lib = T[p].cur_lib;
    k.ctx = heap::CTX;
    k.op_limit = k.step.saturating_add(T[p].op_limit.saturating_sub(HOT.step));
    k.fair_at = k.step + FAIR;
    let s = HOT.step;
    HOT.step = T[t].step;
    begin(t, T[p].cur_op);
    rearm(t);
    HOT.step = s;
    resume(u);
    alloc_point();
    Some(T[t].name)
}
/// None: not a thread of the code under simulation
pub unsafe fn join_inner(th: libc::pthread_t) -> Option<usize> {
    let d = (0..NT).find(|&i| T[i].inner && T[i].st != St::Free && T[i].name == th)?;
    while T[d].joined == 0 {
        futex_wait(&raw const T[d].joined as usize, u32::MAX, 0);
    }
    T[d].inner = false;
    T[d].st = St::Free;
    Some(T[d].ret)
}
pub unsafe fn detach_inner(th: libc::pthread_t) {
    for k in T.iter_mut().take(NT) {
        if k.inner && k.st != St::Free && k.name == th {
            k.detached = true;
            if k.joined == 1 {
                k.st = St::Free;
            }
        }
    }
}
/// Run all spawned tasks to completion.
pub fn run_all(op0: u64) {
    unsafe {
        begin(MAIN, op0);
        IN_TASKS = true;
        if COLD != 0 && NT > 1 {
            PASSED = [0; COV_N];
        }
        // the first preemption point of every task
        for i in 0..NT {
            if T[i].st == St::Runnable {
                let save_step = HOT.step;
                HOT.step = T[i].step;
                T[i].fair_at = T[i].step + FAIR;
                begin(i, op0);
                rearm(i);
                HOT.step = save_step;
            }
        }
        loop {
            HOT.step += 1;
            let s = HOT.step;
            let n = choose(MAIN, s, false);
            if n == MAIN {
                break;
            }
            go(MAIN, n);
            // a task has finished: CUR still names it
            let d = CUR;
            if HOPS {
                sys::wake(&T[d].go);
            }
            sys::real_join(T[d].thread, std::ptr::null_mut());
            EXITING = false;
            CUR = MAIN;
            let tm = TIME;
            load(MAIN);
            TIME = tm;
            HOT.stop = NONE;
            if T[d].inner {
                T[d].joined = 1;
                if T[d].detached {
                    T[d].st = St::Free;
                }
                futex_wake(&raw const T[d].joined as usize, u32::MAX, u64::MAX);
            }
        }
        IN_TASKS = false;
        NT = 0;
    }
}
pub fn log_len() -> usize {
    unsafe { *NLOG as usize }
}
/// where decisions are recorded (memory shared with the parent)
pub unsafe fn set_log(n: *mut u64, e: *mut Entry) {
    NLOG = n;
    LOG = e;
    *n = 0;
}
/// the running task begins step `op` of its plan (for steps that run no library code)
pub fn mark(op: u64) {
    unsafe { begin(CUR, op) }
}
pub fn stats() -> &'static Stats {
    #[allow(static_mut_refs)]
    unsafe {
        &STATS
    }
}
