//! One run = one forked process.
use crate::machine;
use crate::plan::Plan;
use crate::rep::{self, Rep, Shared};
use simrt::{heap, sched};

/// seconds of processor time a run may take
pub static mut CPU: u64 = 20;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// the simulator stopped the run (an X line says why)
    Fatal,
    Crash(i32),
    /// used up its processor time
    Hang,
    /// stopped by the orchestrator's wall clock without having used processor time
    Stuck,
    Exit(i32),
}
pub struct Outcome {
    pub end: End,
    pub lines: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub c: [u64; rep::NC],
    pub sched: Vec<sched::Entry>,
    pub logfull: bool,
}

pub fn fork_run(sh: &Shared, want_log: bool, f: &dyn Fn()) -> Outcome {
    unsafe {
        rep::attach(sh);
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            let n = if simrt::sys::can_hop() { CPU } else { 4 * CPU };
            let cpu = libc::rlimit { rlim_cur: n, rlim_max: n + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            if std::env::var("RSIM_STDERR").is_err() {
                libc::dup2(fd, 2);
            }
            libc::alarm(300.max(2 * n as u32));
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if std::env::var("RSIM_STDERR").is_err() {
                std::panic::set_hook(Box::new(|_| ()));
            }
            heap::map();
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                rep::line(&["X", "HARNESS", "0", "the driver panicked"]);
                libc::_exit(90);
            }
            rep::finish();
            rep::rep().done = 1;
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let r: &Rep = &*sh.rep;
        let end = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU => End::Hang,
                libc::SIGALRM => End::Stuck,
                // the hard limit, if the soft one was caught
                s => End::Crash(s),
            }
        } else {
            match libc::WEXITSTATUS(st) {
                0 if r.done == 1 => End::Done,
                90 => End::Fatal,
                n => End::Exit(n),
            }
        };
        let text = String::from_utf8_lossy(&r.text[..r.len as usize]).into_owned();
        Outcome {
            end,
            lines: text.lines().map(|s| s.to_string()).collect(),
            hash: r.hash,
            steps: r.steps,
            sim_ns: r.sim_ns,
            c: r.c,
            sched: if want_log { (0..r.nlog as usize).map(|i| *sh.log.add(i)).collect() } else { vec![] },
            logfull: r.logfull != 0,
        }
    }
}
pub fn run(sh: &Shared, plan: &Plan, want_log: bool) -> Outcome {
    fork_run(sh, want_log, &|| unsafe {
        heap::on(plan.num("heap", 0) as u8);
        sched::start(plan.policy(), plan.seed);
        if plan.flag("world") == Some("net") {
            crate::net::run(plan);
        } else {
            machine::run(plan);
        }
    })
}
/// the outcome of one operation alone, in a new process, on fresh operands
pub fn solo(sh: &Shared, query: &str) -> String {
    let o = fork_run(sh, false, &|| unsafe {
        heap::on(0);
        sched::start(sched::Policy::None, 1);
        machine::solo(query);
    });
    match o.end {
        End::Done => o.lines.iter().find_map(|l| l.strip_prefix("R ")).unwrap_or("?").to_string(),
        e => format!("END {:?} {}", e, o.lines.last().cloned().unwrap_or_default()),
    }
}
