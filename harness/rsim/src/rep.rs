//! What a run tells the orchestrator, in memory shared with it.
use simrt::sched::{self, Entry};

pub const TEXT: usize = 4 << 20;
pub const NC: usize = 64;
#[repr(C)]
pub struct Rep {
    pub done: u64,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub nlog: u64,
    pub logfull: u64,
    pub cov: u64,
    pub c: [u64; NC],
    pub len: u64,
    pub text: [u8; TEXT],
}
/// counters
pub const NAMES: &[&str] = &[
    "operations", "skipped", "alloc_failures", "alloc_armed_not_reached", "callback_panics", "callback_yields", "callback_stalls", "callback_reentries",
    "sink_errors", "rejected", "inplace_updates", "drops", "switches", "preemptions", "switches_inside_two_operations", "stalls", "spurious_wakeups",
    "futex_waits", "futex_wakes", "lock_timeouts", "clock_jumps", "random_bytes_calls", "heap_allocs", "heap_reused_blocks", "heap_peak_bytes",
    "corrupted_messages", "dropped", "duplicated", "delayed", "partitions", "node_crashes", "torn_writes", "lost_writes", "clock_skews", "redone_items",
    "decodes", "decode_errors", "deliveries", "restarts", "prints", "rounds", "barriers", "snapshots", "comparisons", "disk_errors", "bitrot", "nested_operations", "atomic_accesses",
];
macro_rules! ctr {
    ($($n:ident = $v:expr;)*) => { $(pub const $n: usize = $v;)* };
}
ctr! {
    OPS = 0; SKIP = 1; AFAIL = 2; AMISS = 3; CPANIC = 4; CYIELD = 5; CSTALL = 6; CREENT = 7; SERR = 8; REJ = 9; INPL = 10; DROPS = 11;
    SW = 12; PRE = 13; SWIN = 14; STALLS = 15; SPUR = 16; FW = 17; FK = 18; FT = 19; JUMPS = 20; RND = 21; HA = 22; HR = 23; HP = 24;
    CORR = 25; NDROP = 26; NDUP = 27; NDELAY = 28; NPART = 29; NCRASH = 30; NTORN = 31; NLOST = 32; NSKEW = 33; REDO = 34; DEC = 35; DECERR = 36; DELIV = 37; RESTART = 38; PRINTS = 39; ROUNDS = 40; BARR = 41; SNAPS = 42; CMPS = 43; DISKERR = 44; BITROT = 45; NESTED = 46; ATOM = 47;
}
pub struct Shared {
    pub rep: *mut Rep,
    pub log: *mut Entry,
    pub cov: *mut u8,
    pub pairs: *mut u8,
}
static mut REP: *mut Rep = std::ptr::null_mut();

pub unsafe fn shm(n: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), n, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}
impl Shared {
    pub fn new() -> Shared {
        unsafe {
            Shared {
                rep: shm(std::mem::size_of::<Rep>()) as *mut Rep,
                log: shm(sched::LOGCAP * std::mem::size_of::<Entry>()) as *mut Entry,
                cov: shm(sched::COV_N),
                pairs: shm(sched::PAIR_BITS / 8),
            }
        }
    }
}
pub unsafe fn attach(s: &Shared) {
    REP = s.rep;
    let r = &mut *REP;
    r.done = 0;
    r.len = 0;
    r.hash = 0;
    r.steps = 0;
    r.sim_ns = 0;
    r.c = [0; NC];
    r.logfull = 0;
    sched::set_log(&mut r.nlog, s.log);
    sched::set_cov(s.cov, s.pairs);
    sched::set_fatal(fatal);
}
pub fn rep() -> &'static mut Rep {
    unsafe { &mut *REP }
}
pub fn add(i: usize, n: u64) {
    rep().c[i] += n;
}
/// no allocation: also called with the heap in an unknown state
pub fn line(parts: &[&str]) {
    let r = rep();
    let need: usize = parts.iter().map(|p| p.len() + 1).sum::<usize>() + 1;
    if r.len as usize + need >= TEXT {
        return;
    }
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            r.text[r.len as usize] = b' ';
            r.len += 1;
        }
        for &b in p.as_bytes() {
            r.text[r.len as usize] = if b == b'\n' { b';' } else { b };
            r.len += 1;
        }
    }
    r.text[r.len as usize] = b'\n';
    r.len += 1;
}
fn fatal(kind: &str, msg: &str) {
    finish();
    let t = sched::cur();
    let op = unsafe { sched::T[t].cur_op };
    let n = simrt::heap::num(op);
    line(&["X", kind, &n, msg]);
}
/// copy what the simulator counted
pub fn finish() {
    let s = sched::stats();
    let r = rep();
    unsafe {
        r.hash = sched::HASH;
        r.logfull = sched::LOGFULL as u64;
        r.c[HA] = simrt::heap::ST.allocs;
        r.c[HR] = simrt::heap::REUSED;
        r.c[HP] = simrt::heap::ST.peak;
        let f = &*(&raw const crate::user::FIRED);
        r.c[CPANIC] = f[0];
        r.c[CYIELD] = f[1];
        r.c[CSTALL] = f[2];
        r.c[CREENT] = f[3];
        r.c[SERR] = f[4];
    }
    r.sim_ns = sched::sim_elapsed();
    r.c[SW] = s.switches;
    r.c[PRE] = s.preemptions;
    r.c[SWIN] = s.inop;
    r.c[STALLS] = s.stalls;
    r.c[SPUR] = s.spurious;
    r.c[FW] = s.futex_waits;
    r.c[FK] = s.futex_wakes;
    r.c[FT] = s.timeouts;
    r.c[JUMPS] = s.jumps;
    r.c[RND] = s.randoms;
    r.c[ATOM] = s.atomics;
    r.c[BARR] = s.barriers;
}
