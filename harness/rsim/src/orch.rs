//! Seeded search: plans are generated, run, judged; the first violation is
//! minimised, written down and replayed.
use crate::child::{self, End, Outcome};
use crate::plan::{Plan, Pol, Who};
use crate::props::{self, Finding};
use crate::rep::{self, Shared};
use simrt::rng::Rng;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

const NH: usize = 1 << 20;
#[repr(C)]
struct Ctl {
    next: AtomicU64,
    stop: AtomicU64,
    winner: AtomicU64,
}
#[repr(C)]
struct Agg {
    seeds: u64,
    execs: u64,
    nontriv: u64,
    solos: u64,
    foreign: u64,
    twice: u64,
    sim_ns: u64,
    steps: u64,
    variants: u64,
    known: u64,
    trouble: u64,
    unreplayed: u64,
    overlap: u64,
    c: [u64; rep::NC],
    state: u64,
    msg_len: u64,
    msg: [u8; 1 << 16],
    nh: u64,
    h: [u64; NH],
    ns: u64,
    samples: [u8; 1 << 14],
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ i.wrapping_mul(0xD134_2543_DE82_EF95));
    r.next()
}

pub struct Ctx<'a> {
    pub sh: &'a Shared,
    solo: HashMap<String, String>,
    /// a run was found that does not end
    hangs: bool,
    pub solos: u64,
    pub execs: u64,
    pub foreign: u64,
    pub known: Vec<Known>,
    pub knowns: Vec<String>,
    deadline: Instant,
    acc: Option<*mut Agg>,
}
#[derive(Clone)]
pub struct Known {
    prop: String,
    class: String,
    has: String,
}
pub fn known() -> Vec<Known> {
    let dir = std::env::var("RSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", dir)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        // finding: property=C05 class=MISMATCH has=<text of the finding>
        if let Some(r) = l.strip_prefix("finding: property=") {
            if let Some((p, r)) = r.split_once(" class=") {
                if let Some((c, h)) = r.split_once(" has=") {
                    v.push(Known { prop: p.into(), class: c.into(), has: h.into() });
                }
            }
        }
    }
    v
}

impl<'a> Ctx<'a> {
    pub fn new(sh: &'a Shared) -> Ctx<'a> {
        Ctx { sh, solo: HashMap::new(), solos: 0, execs: 0, foreign: 0, known: known(), knowns: vec![], deadline: Instant::now() + std::time::Duration::from_secs(3600), acc: None, hangs: false }
    }
    pub fn exec(&mut self, p: &Plan, log: bool) -> Result<Outcome, String> {
        self.execs += 1;
        let o = child::run(self.sh, p, log);
        if let Some(a) = self.acc {
            unsafe {
                let a = &mut *a;
                for i in 0..rep::NC {
                    if i == rep::HP {
                        a.c[i] = a.c[i].max(o.c[i]);
                    } else {
                        a.c[i] += o.c[i];
                    }
                }
                a.sim_ns += o.sim_ns;
                a.execs += 1;
                a.overlap += (o.c[rep::SWIN] > 0) as u64;
            }
        }
        match props::broken(&o) {
            Some(e) => Err(e),
            None => Ok(o),
        }
    }
    pub fn judge(&mut self, prop: &str, o: &Outcome) -> Option<Finding> {
        let sh = self.sh;
        let mut foreign = 0;
        let mut n = 0;
        let cache = &mut self.solo;
        if cache.len() > 50_000 {
            cache.clear();
        }
        // the outcome lives in its own memory, so running others is fine
        let r = props::judge(
            prop,
            o,
            &mut |q: &str| {
                if let Some(x) = cache.get(q) {
                    return x.clone();
                }
                n += 1;
                let s = child::solo(sh, q);
                cache.insert(q.to_string(), s.clone());
                s
            },
            &mut foreign,
        );
        self.solos += n;
        self.foreign += foreign;
        let r = r?;
        for k in &self.known {
            if k.prop == prop && k.class == r.class && r.detail.contains(&k.has) {
                let l = format!("property={} class={} {}", prop, k.class, k.has);
                if !self.knowns.contains(&l) {
                    self.knowns.push(l);
                }
                return None;
            }
        }
        Some(r)
    }
    /// Run a plan and whatever else it takes to decide about it. A finding
    /// comes with the plan that shows it.
    pub fn evaluate(&mut self, p: &Plan, log: bool) -> Result<(Outcome, Option<(Plan, Finding)>), String> {
        let prop = p.prop.clone();
        let c04 = prop == "C04" && p.flag("sameround").is_none();
        let mut o = self.exec(p, log || c04)?;
        let mut f = self.judge(&prop, &o);
        if o.end == End::Hang && !self.hangs {
            // slow, or does it never end?
            unsafe { child::CPU *= 6 };
            let o2 = self.exec(p, log || c04);
            unsafe { child::CPU /= 6 };
            o = o2?;
            f = self.judge(&prop, &o);
            self.hangs = o.end == End::Hang;
        }
        if f.as_ref().is_some_and(|f| f.class == "LEAK") && p.flag("longer").is_none() {
            // a bound, if there is one, must show in a longer run
            let mut q = p.clone();
            q.set("longer", 1);
            q.set("rounds", p.num("rounds", 1) * 8);
            let o2 = self.exec(&q, false)?;
            if !self.judge(&prop, &o2).is_some_and(|f| f.class == "LEAK") {
                self.foreign += 1;
                f = None;
            }
        }
        if let Some(f) = f {
            let mut q = p.clone();
            if f.class == "WEAR" && p.flag("longer").is_none() {
                // a bound, if there is one, must show in a longer run
                q.set("longer", 1);
                q.set("rounds", p.num("rounds", 1) * 4);
                q.set("cap", p.num("cap", 16_000_000) * 6);
                let o2 = self.exec(&q, false)?;
                return Ok(match self.judge(&prop, &o2) {
                    Some(f2) if f2.class == "WEAR" => (o, Some((p.clone(), f))),
                    _ => {
                        self.foreign += 1;
                        (o, None)
                    }
                });
            }
            if prop == "C03" && matches!(f.class.as_str(), "MISMATCH" | "CRASH" | "DEADLOCK" | "NOPROGRESS" | "HANG" | "REENTRY") || prop == "C06" && f.class == "MISMATCH" {
                // is it the failure, or the update, that does it?
                let o2 = if log { None } else { Some(self.exec(p, true)?) };
                let oo = o2.as_ref().unwrap_or(&o);
                q = replayed(p, oo);
                let stripped = strip(&q, &o);
                let (o3, f3) = {
                    let x = self.exec(&stripped, false)?;
                    let y = self.judge(&prop, &x);
                    (x, y)
                };
                let _ = o3;
                if f3.is_some_and(|g| g.class == f.class) {
                    self.foreign += 1;
                    return Ok((o, None));
                }
            }
            return Ok((o, Some((q, f))));
        }
        if c04 && o.end == End::Done && !o.logfull {
            let grew = props::growth(&o);
            for r in grew.into_iter().take(3) {
                let mut q = p.clone();
                q.set("rounds", 8);
                q.set("sameround", 1);
                q.pol = Pol::Replay;
                q.sched = o
                    .sched
                    .iter()
                    .filter(|e| e.op / crate::machine::ROUND == r as u64)
                    .map(|e| {
                        let mut e = *e;
                        e.op %= crate::machine::ROUND;
                        e
                    })
                    .collect();
                let o2 = self.exec(&q, false)?;
                if let Some(f) = self.judge(&prop, &o2) {
                    if f.class == "LEAK" {
                        let mut q2 = q.clone();
                        q2.set("rounds", 40);
                        let o3 = self.exec(&q2, false)?;
                        if self.judge(&prop, &o3).is_none() {
                            continue;
                        }
                    }
                    return Ok((o, Some((q, f))));
                }
            }
        }
        Ok((o, None))
    }
}
/// the same run with its schedule written down
pub fn replayed(p: &Plan, o: &Outcome) -> Plan {
    let mut q = p.clone();
    if !o.logfull && p.pol != Pol::Replay {
        q.pol = Pol::Replay;
        q.sched = o.sched.clone();
    }
    q
}
/// without injected faults and failing operations (C03), or without updates in place (C06)
fn strip(p: &Plan, o: &Outcome) -> Plan {
    let mut q = p.clone();
    if p.prop == "C06" {
        q.ops.retain(|x| !crate::ops::is_inplace(&x.name) && x.name != "drop");
        return q;
    }
    let failed: HashSet<u32> = o.lines.iter().filter_map(|l| l.strip_prefix("F ")?.parse().ok()).collect();
    for x in &mut q.ops {
        x.alloc = 0;
        x.cb = None;
    }
    q.ops.retain(|x| !failed.contains(&x.id));
    q
}

/// C03: the same plan with failures at places that exist
fn variants(p: &Plan, o: &Outcome, seed: u64) -> Vec<Plan> {
    let mut r = Rng::new(seed ^ 0x5151);
    let mut al: Vec<(u32, u64)> = vec![];
    for l in &o.lines {
        if let Some(x) = l.strip_prefix("A ") {
            if let Some((a, b)) = x.split_once(' ') {
                if let (Ok(a), Ok(b)) = (a.parse(), b.parse::<u64>()) {
                    if b > 0 {
                        al.push((a, b));
                    }
                }
            }
        }
    }
    let mut v = vec![];
    if al.is_empty() {
        return v;
    }
    for _ in 0..6 {
        let mut q = p.clone();
        q.flags.remove("count");
        for _ in 0..1 + r.below(3) {
            let (id, n) = al[r.idx(al.len())];
            if let Some(x) = q.ops.iter_mut().find(|x| x.id == id) {
                if x.who != Who::Setup || r.p(1, 4) {
                    x.alloc = match r.below(3) {
                        0 => 1 + r.below(n),
                        1 => n - r.below(n.min(4)),
                        _ => 1 + r.below(n.min(6)),
                    };
                }
            }
        }
        v.push(q);
    }
    v
}

pub fn nontrivial(prop: &str, o: &Outcome) -> bool {
    let c = |i: usize| o.c[i] > 0;
    match prop {
        "C01" => c(rep::SWIN),
        "C02" => c(rep::SWIN) || c(rep::AFAIL) || c(rep::CPANIC) || c(rep::CREENT) || c(rep::STALLS) || c(rep::SPUR),
        "C03" => c(rep::AFAIL) || c(rep::CPANIC) || c(rep::REJ),
        "C04" => o.c[rep::ROUNDS] > 1 && o.c[rep::DROPS] > 0,
        "C05" => o.c[rep::OPS] >= 8,
        "C06" => c(rep::INPL) && c(rep::SNAPS),
        "C07" => c(rep::CORR) && c(rep::DEC),
        "C08" => o.c[rep::CMPS] >= 3 && c(rep::SW),
        "C11" => o.c[rep::ROUNDS] >= 64,
        "C09" => c(rep::DELIV) && (c(rep::NDROP) || c(rep::NDUP) || c(rep::NDELAY) || c(rep::NPART) || c(rep::NCRASH)),
        _ => c(rep::SERR) || c(rep::CPANIC) || c(rep::CREENT),
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "a run counts when at least one task switch happened while two tasks were both inside a library operation",
        "C02" => "a run counts when tasks overlapped inside operations, or a stall, spurious wake-up, re-entrant or panicking call-back or allocation failure happened",
        "C03" => "a run counts when at least one operation failed: injected allocation failure, panicking call-back, or rejected arguments",
        "C04" => "a run counts when the whole history of building, using and dropping was repeated at least twice",
        "C05" => "a run counts when at least 8 operations were executed in one process and their results compared",
        "C06" => "a run counts when handles were updated in place and other live handles were compared before and after",
        "C07" => "a run counts when at least one damaged encoding was decoded",
        "C08" => "a run counts when tasks were switched during a reduction with at least three checked partial results",
        "C09" => "a run counts when messages were delivered and at least one message or node fault happened",
        "C11" => "a run counts when the same objects were used for at least 64 rounds",
        _ => "a run counts when at least one sink failed, panicked, or called back into the library",
    }
}

// --------------------------------------------------------------- minimisation

fn fails(cx: &mut Ctx, p: &Plan, class: &str) -> Option<Finding> {
    match cx.evaluate(p, false) {
        Ok((_, Some((_, f)))) if f.class == class => Some(f),
        _ => None,
    }
}
pub fn minimise(cx: &mut Ctx, p: &Plan, class: &str, secs: u64) -> Plan {
    let end = Instant::now() + std::time::Duration::from_secs(secs);
    let mut best = p.clone();
    let mut trials = 0;
    let mut go = |cx: &mut Ctx, q: &Plan| -> bool {
        trials += 1;
        trials < 1500 && Instant::now() < end && fails(cx, q, class).is_some()
    };
    for _pass in 0..3 {
        let before = (best.ops.len(), best.sched.len());
        // operations
        let mut n = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut q = best.clone();
                let hi = (i + n).min(q.ops.len());
                q.ops.drain(i..hi);
                if go(cx, &q) {
                    best = q;
                } else {
                    i += n;
                }
            }
            if n == 1 {
                break;
            }
            n /= 2;
        }
        // switches
        let mut n = best.sched.len();
        while n > 0 {
            let mut i = 0;
            while i < best.sched.len() {
                let mut q = best.clone();
                let hi = (i + n).min(q.sched.len());
                q.sched.drain(i..hi);
                if go(cx, &q) {
                    best = q;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        // faults
        for i in 0..best.ops.len() {
            if best.ops[i].alloc > 0 {
                let mut q = best.clone();
                q.ops[i].alloc = 0;
                if go(cx, &q) {
                    best = q;
                }
            }
            if best.ops[i].cb.is_some() {
                let mut q = best.clone();
                q.ops[i].cb = None;
                if go(cx, &q) {
                    best = q;
                }
            }
        }
        for k in ["heap", "deep", "count"] {
            if best.flag(k).is_some_and(|v| v != "0") {
                let mut q = best.clone();
                q.flags.remove(k);
                if go(cx, &q) {
                    best = q;
                }
            }
        }
        if (best.ops.len(), best.sched.len()) == before {
            break;
        }
    }
    // schedule entries of operations that are gone
    let live: HashSet<u64> = best.ops.iter().map(|o| o.id as u64).collect();
    let mut q = best.clone();
    q.sched.retain(|e| e.op % crate::machine::ROUND >= 80_000 || live.contains(&(e.op % crate::machine::ROUND)));
    if q.sched.len() < best.sched.len() && go(cx, &q) {
        best = q;
    }
    best
}

// -------------------------------------------------------------------- workers

fn say(a: &mut Agg, state: u64, m: &str) {
    let b = m.as_bytes();
    let n = b.len().min(a.msg.len());
    a.msg[..n].copy_from_slice(&b[..n]);
    a.msg_len = n as u64;
    a.state = state;
}
fn worker(id: usize, prop: &str, base: u64, secs: f64, ctl: &Ctl, agg: &mut Agg, sh: &Shared, first: u64, count: u64) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&have), &mut have);
        let cpus: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &have)).collect();
        libc::CPU_SET(cpus[id % cpus.len()], &mut set);
        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
    }
    let t0 = Instant::now();
    let mut cx = Ctx::new(sh);
    cx.acc = Some(agg);
    cx.deadline = t0 + std::time::Duration::from_secs_f64(secs);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut sampled = 0;
    'all: while ctl.stop.load(SeqCst) == 0 {
        let i = ctl.next.fetch_add(1, SeqCst);
        if i >= count || t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let i = first + i;
        let seed = seed_of(base, i);
        let Ok(plan) = std::panic::catch_unwind(|| props::plan(prop, seed)) else {
            note(agg, &format!("seed {} (index {}): no plan", seed, i));
            continue;
        };
        agg.seeds += 1;
        let mut todo = vec![plan];
        let mut k = 0;
        while k < todo.len() {
            if ctl.stop.load(SeqCst) != 0 {
                break 'all;
            }
            let p = todo[k].clone();
            let (o, f) = match cx.evaluate(&p, std::env::var("RSIM_KEEP").is_ok()) {
                Ok(x) => x,
                Err(e) => {
                    if std::env::var("RSIM_KEEP").is_ok() {
                        let _ = std::fs::write("/tmp/broken.txt", p.text());
                    }
                    note(agg, &format!("seed {} (index {}): {}", seed, i, e));
                    k += 1;
                    continue;
                }
            };
            if let Some((q, f)) = f {
                if ctl.winner.compare_exchange(0, id as u64 + 1, SeqCst, SeqCst).is_ok() {
                    ctl.stop.store(1, SeqCst);
                    cx.acc = None;
                    if report(&mut cx, agg, prop, i, &q, &f) || agg.trouble > 3 {
                        break 'all;
                    }
                    // not reproducible: not reported; look for another
                    cx.acc = Some(agg);
                    ctl.stop.store(0, SeqCst);
                    ctl.winner.store(0, SeqCst);
                    k += 1;
                    continue;
                }
                break 'all;
            }
            if k == 0 && prop == "C03" {
                todo.extend(variants(&p, &o, seed));
            }
            if k > 0 {
                agg.variants += 1;
            }
            if nontrivial(prop, &o) {
                agg.nontriv += 1;
                seen.insert(o.hash);
                if sampled < 2 && (i % 97 == 0 || t0.elapsed().as_secs_f64() > secs / 3.0) && agg.ns < 8000 {
                    sampled += 1;
                    let mut t = p.text();
                    t.truncate(2500);
                    let t = format!("{}-> hash {:016x}, {} switches, {} ns simulated\x1e", t, o.hash, o.c[rep::SW], o.sim_ns);
                    let n = t.len().min(agg.samples.len() - agg.ns as usize);
                    agg.samples[agg.ns as usize..agg.ns as usize + n].copy_from_slice(&t.as_bytes()[..n]);
                    agg.ns += n as u64;
                }
            }
            if (i + k as u64) % 61 == 0 {
                // the same run again, from its recorded schedule when it has one
                let o1 = cx.exec(&p, true);
                let o2 = match &o1 {
                    Ok(x) => cx.exec(&replayed(&p, x), std::env::var("RSIM_KEEP").is_ok()),
                    Err(e) => Err(e.clone()),
                };
                agg.twice += 1;
                match (o1, o2) {
                    (Ok(a), Ok(b)) if a.hash == o.hash && b.hash == o.hash && a.lines == o.lines && b.lines == o.lines => {}
                    (a, b) => {
                        if std::env::var("RSIM_KEEP").is_ok() {
                            let _ = std::fs::write("/tmp/nondet.txt", p.text());
                            let f = |x: &Outcome| format!("{}\n{}", x.lines.join("\n"), x.sched.iter().map(|e| format!("{:?}\n", e)).collect::<String>());
                            let _ = std::fs::write("/tmp/nondet.0", f(&o));
                            if let Ok(a) = &a {
                                let _ = std::fs::write("/tmp/nondet.1", f(a));
                            }
                            if let Ok(a) = &b {
                                let _ = std::fs::write("/tmp/nondet.2", f(a));
                            }
                        }
                        note(agg, &format!("seed {} (index {}): not repeatable: {:x} again {:x?} replayed {:x?}", seed, i, o.hash, a.map(|x| x.hash), b.map(|x| x.hash)));
                    }
                }
            }
            k += 1;
        }
    }
    agg.solos = cx.solos;
    agg.foreign = cx.foreign;
    for l in &cx.knowns {
        agg.known += 1;
        let _ = l;
    }
    if agg.state == 0 {
        say(agg, 1, &cx.knowns.join("\n"));
    }
    for (n, h) in seen.into_iter().enumerate() {
        if n >= NH {
            break;
        }
        agg.h[n] = h;
        agg.nh = n as u64 + 1;
    }
}

pub fn outdir() -> String {
    std::env::var("RSIM_OUT").unwrap_or_else(|_| "/verif".into())
}
fn replay_twice(path: &str) -> Vec<String> {
    let me = std::env::current_exe().unwrap();
    (0..2)
        .map(|_| {
            let o = std::process::Command::new(&me).args(["replay", path]).output();
            o.map(|o| String::from_utf8_lossy(&o.stdout).lines().find(|l| l.starts_with("RESULT ")).unwrap_or("none").to_string()).unwrap_or_default()
        })
        .collect()
}
fn report(cx: &mut Ctx, agg: &mut Agg, prop: &str, idx: u64, q: &Plan, f: &Finding) -> bool {
    let dir = format!("{}/replays", outdir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.txt", dir, prop, idx);
    let mut cands: Vec<Plan> = vec![];
    // with the schedule written down
    if let Ok(o) = cx.exec(q, true) {
        let r = replayed(q, &o);
        if fails(cx, &r, &f.class).is_some() {
            cands.push(minimise(cx, &r, &f.class, 25));
            cands.push(r);
        } else {
            cands.push(minimise(cx, q, &f.class, 25));
        }
    }
    cands.push(q.clone());
    for c in cands {
        let head = match fails(cx, &c, &f.class) {
            Some(g) => g,
            None => continue,
        };
        let text = format!("{}# class {} operation {}: {}\n", c.text(), head.class, head.op, head.detail);
        let _ = std::fs::write(&path, text);
        let r = replay_twice(&path);
        if r[0] == r[1] && r[0].contains(&format!("class {}", f.class)) {
            say(agg, 3, &format!("{}\n{} operation {}: {}\n{} operations, {} switches, {} executions to minimise\n{}", path, head.class, head.op, head.detail, c.ops.len(), c.sched.len(), cx.execs, r[0]));
            return true;
        }
    }
    note(agg, &format!("finding {:?} at index {} did not replay", f, idx));
    agg.unreplayed += 1;
    false
}
/// trouble of the simulator's own: the first is kept
fn note(agg: &mut Agg, m: &str) {
    agg.trouble += 1;
    if agg.state == 0 {
        say(agg, 2, m);
    }
}

unsafe fn shared<T>() -> &'static mut T {
    &mut *(rep::shm(std::mem::size_of::<T>()) as *mut T)
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub secs: f64,
    pub jobs: usize,
    pub first: u64,
    pub count: u64,
    pub base: u64,
    pub build_s: f64,
}
pub fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let prop = o.prop.as_str();
    unsafe {
        let ctl: &Ctl = shared::<Ctl>();
        let shs: Vec<Shared> = (0..o.jobs).map(|_| Shared::new()).collect();
        let mut aggs: Vec<&'static mut Agg> = (0..o.jobs).map(|_| shared::<Agg>()).collect();
        let mut pids = vec![];
        for w in 0..o.jobs {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(w, prop, o.base, o.secs, ctl, aggs[w], &shs[w], o.first, o.count);
                libc::_exit(0);
            }
            pids.push(pid);
        }
        let mut dead = vec![];
        for (w, pid) in pids.iter().enumerate() {
            let mut st = 0;
            while libc::waitpid(*pid, &mut st, 0) < 0 {}
            if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                dead.push(format!("worker {} ended with status {:x}", w, st));
            }
        }
        let wall = t0.elapsed().as_secs_f64();
        let mut all: HashSet<u64> = HashSet::new();
        for a in &aggs {
            all.extend(&a.h[..a.nh as usize]);
        }
        let msg = |a: &Agg| String::from_utf8_lossy(&a.msg[..a.msg_len as usize]).into_owned();
        let viol: Option<String> = aggs.iter().find(|a| a.state == 3).map(|a| msg(a));
        let err: Option<String> = aggs.iter().find(|a| a.state == 2).map(|a| msg(a)).or(dead.first().cloned());
        // evidence
        let sum = |f: &dyn Fn(&Agg) -> u64| aggs.iter().map(|a| f(a)).sum::<u64>();
        let mut edges: HashSet<usize> = HashSet::new();
        let mut pairs = 0u64;
        let mut pm = vec![0u8; simrt::sched::PAIR_BITS / 8];
        for s in &shs {
            for i in 0..simrt::sched::COV_N {
                if *s.cov.add(i) != 0 {
                    edges.insert(i);
                }
            }
            for (i, x) in pm.iter_mut().enumerate() {
                *x |= *s.pairs.add(i);
            }
        }
        for x in &pm {
            pairs += x.count_ones() as u64;
        }
        if let Ok(f) = std::env::var("RSIM_COVOUT") {
            let (pcs, n) = simrt::sched::PCS;
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
            let base = maps.lines().find(|l| l.ends_with("rsim")).and_then(|l| l.split('-').next()).and_then(|x| usize::from_str_radix(x, 16).ok()).unwrap_or(0);
            let t: String = (0..n).map(|i| format!("{:#x} {}\n", (*pcs.add(i))[0].wrapping_sub(base), edges.contains(&(i + 1)) as u8)).collect();
            let _ = std::fs::write(f, t);
        }
        let execs = sum(&|a| a.execs);
        let seeds = sum(&|a| a.seeds);
        let mut c = [0u64; rep::NC];
        for a in &aggs {
            for i in 0..rep::NC {
                if i == rep::HP {
                    c[i] = c[i].max(a.c[i]);
                } else {
                    c[i] += a.c[i];
                }
            }
        }
        let mut samples: Vec<String> = vec![];
        for a in &aggs {
            let s = String::from_utf8_lossy(&a.samples[..a.ns as usize]).into_owned();
            for x in s.split('\x1e') {
                if !x.is_empty() && samples.len() < 4 {
                    samples.push(x.to_string());
                }
            }
        }
        let mut faults = String::new();
        let mut other = String::new();
        for (i, n) in rep::NAMES.iter().enumerate() {
            let is_fault = [rep::AFAIL, rep::CPANIC, rep::CYIELD, rep::CSTALL, rep::CREENT, rep::SERR, rep::REJ, rep::STALLS, rep::SPUR, rep::CORR, rep::NDROP, rep::NDUP, rep::NDELAY, rep::NPART, rep::NCRASH, rep::NTORN, rep::NLOST, rep::NSKEW, rep::DISKERR, rep::BITROT, rep::PRE].contains(&i);
            let t = if is_fault { &mut faults } else { &mut other };
            if c[i] > 0 {
                let _ = write!(t, "{}\"{}\": {}", if t.is_empty() { "" } else { ", " }, n, c[i]);
            }
        }
        let rate = |n: u64| n as f64 / wall.max(0.001) * 3600.0;
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"wall_s\": {:.1},\n \"violations\": {},\n",
            prop,
            o.tier,
            o.base,
            wall + o.build_s,
            viol.is_some() as u8
        );
        let _ = write!(
            j,
            " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"seeds\": {},\n  \"seed_indices\": \"{}..{} of base seed {}\",\n  \"fault_variants_of_a_seed\": {},\n  \"seeds_per_hour\": {:.0},\n  \"runs_per_hour\": {:.0},\n  \"simulated_seconds\": {:.6},\n  \"runs_with_overlapping_operations\": {},\n  \"distinct_switch_sites\": {{\"measure\": \"pairs (basic block left, basic block resumed) of switches between two tasks both inside library operations, hashed to 20 bits\", \"count\": {}}},\n  \"instrumented_edges_reached\": {},\n  \"faults_injected\": {{{}}},\n  \"events\": {{{}}},\n  \"lone_executions\": {},\n  \"differences_also_present_alone\": {},\n  \"runs_repeated_and_identical\": {},\n  \"runs_without_verdict\": {},\n",
            execs,
            all.len(),
            js(&format!("seed -> plan (objects, per-task programs, fault commands) and scheduling policy, see DESIGN.md; {}; distinct by the hash of the run's switches and results", rule(prop))),
            seeds,
            o.first,
            o.first + seeds,
            o.base,
            sum(&|a| a.variants),
            rate(seeds),
            rate(execs),
            sum(&|a| a.sim_ns) as f64 / 1e9,
            sum(&|a| a.overlap),
            pairs,
            edges.len(),
            faults,
            other,
            sum(&|a| a.solos),
            sum(&|a| a.foreign),
            sum(&|a| a.twice),
            sum(&|a| a.trouble),
        );
        let _ = write!(j, "  \"real_components\": [\"redox-ecc (all of /repo/src, compiled from the working tree with edge and memory-access call-backs)\", \"atomic_refcell\", \"num-bigint, num-integer, num-traits, impl_ops\", \"std (Arc, fmt, locks, unwinding)\"],\n");
        let _ = write!(j, "  \"simulated_components\": [\"thread scheduler\", \"futex, clock, getrandom, sleep\", \"heap (allocation failure, address reuse, poison)\", \"output sinks and user-defined maps\"{}],\n", if prop == "C09" { ", \"network\", \"disks\", \"process crash and restart\"" } else { "" });
        let _ = write!(j, "  \"samples\": [{}]\n }},\n", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(j, " \"assumptions\": [\"operations are instrumented at basic-block edges and memory accesses of library code; big-integer routines run without interruption inside them\", \"sequentially consistent memory: the simulator interleaves, it does not reorder\", \"the affine reference model in harness/model\"]\n}}\n");
        let _ = std::fs::create_dir_all(format!("{}/evidence", outdir()));
        let _ = std::fs::write(format!("{}/evidence/{}.json", outdir(), prop), j);
        println!("{} {}: {} seeds, {} runs, {} distinct, {} switch pairs, {} edges, {} solo, {} foreign, {:.1} s", prop, o.tier, seeds, execs, all.len(), pairs, edges.len(), sum(&|a| a.solos), sum(&|a| a.foreign), wall);
        println!("  {} | {}", faults, other);
        let mut ks: Vec<String> = vec![];
        for a in aggs.iter() {
            if a.state == 1 {
                for l in msg(a).lines() {
                    if !ks.contains(&l.to_string()) {
                        ks.push(l.to_string());
                    }
                }
            }
        }
        for k in known() {
            if k.prop == prop {
                println!("KNOWN-FINDING: property={} class={} {}", prop, k.class, k.has);
            }
        }
        let _ = ks;
        if let Some(v) = viol {
            let mut it = v.lines();
            let path = it.next().unwrap_or("?");
            for l in it {
                println!("  {}", l);
            }
            println!("VIOLATION property={} replay={}", prop, path);
            return 1;
        }
        let trouble = sum(&|a| a.trouble);
        let seeds = seeds.max(1);
        if let Some(e) = err {
            // a few runs without a verdict are noted; many mean that nothing was decided
            let bad = trouble > 5 + seeds / 200 || dead.len() > o.jobs / 4 || sum(&|a| a.unreplayed) > 0;
            println!("{}: {} ({} in {} seeds, {} workers lost)", if bad { "HARNESS ERROR" } else { "note" }, e, trouble, seeds, dead.len());
            if bad {
                return 2;
            }
        }
        if execs == 0 {
            println!("HARNESS ERROR: nothing was run");
            return 2;
        }
        0
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// run a replay file once; prints what happened
pub fn replay(path: &str, verbose: bool) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("{}: {}", path, e);
            return 2;
        }
    };
    let Some(p) = Plan::parse(&t) else {
        println!("{}: not a replay file", path);
        return 2;
    };
    let sh = Shared::new();
    let mut cx = Ctx::new(&sh);
    match cx.exec(&p, true) {
        Err(e) => {
            println!("HARNESS ERROR: {}", e);
            2
        }
        Ok(o) => {
            if verbose {
                println!("{:?} sim {} ns, {} switches", o.end, o.sim_ns, o.sched.len());
                for l in &o.lines {
                    println!("  {}", l);
                }
                for (i, n) in rep::NAMES.iter().enumerate() {
                    if o.c[i] > 0 {
                        print!("{}={} ", n, o.c[i]);
                    }
                }
                println!();
            }
            let f = cx.judge(&p.prop, &o);
            match f {
                Some(f) => {
                    println!("{} operation {}: {}", f.class, f.op, f.detail);
                    println!("RESULT class {} op {} hash {:016x}", f.class, f.op, o.hash);
                    println!("VIOLATION property={} replay={}", p.prop, path);
                    1
                }
                None => {
                    println!("RESULT none hash {:016x}", o.hash);
                    0
                }
            }
        }
    }
}
