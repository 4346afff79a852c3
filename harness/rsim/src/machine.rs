//! The register machine: runs a plan on real objects under the simulator.
use crate::ops::{self, Exp, A, MA, O};
use crate::plan::{Arg, Op, Plan, Who};
use crate::rep;
use crate::user::{self, Do};
use crate::val::*;
use simrt::{heap, sched};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ROUND: u64 = 100_000;
pub const LIMIT: u64 = 100_000_000;

#[derive(Default)]
struct Slot {
    v: Option<V>,
    m: Option<M>,
    sh: Option<Sh>,
    pins: u32,
    excl: bool,
    owner: usize,
    snap: Option<String>,
    /// has its value, but is not printed in the usual form
    odd: bool,
}
struct World {
    plan: &'static Plan,
    slots: Vec<Slot>,
    round: u64,
    key0: u64,
    seen: BTreeSet<String>,
    snap: bool,
    deep: bool,
    count: bool,
    /// C11: cost of every operation in every round
    wear: bool,
    costs: Vec<Vec<(u64, u64)>>,
    spent: u64,
    bag: Vec<(V, M)>,
    bagged: Option<M>,
    inflight: u32,
    trace: bool,
    /// the same threads in every round: rounds begun, tasks done with this one
    gate: u32,
    done: u32,
}
static mut W: *mut World = std::ptr::null_mut();
fn w() -> &'static mut World {
    unsafe { &mut *W }
}
struct Send_<T>(T);
unsafe impl<T> Send for Send_<T> {}

/// operands that may only be used by the task that made them
fn unshared(v: &V) -> bool {
    matches!(v, V::Ab0(_) | V::EllT(_) | V::Rat(_) | V::Iso(_))
}

pub fn run(plan: &Plan) {
    let plan: &'static Plan = unsafe { &*(plan as *const Plan) };
    let n = plan.ops.iter().map(|o| o.id as usize + 1).max().unwrap_or(0);
    let mut world = World {
        plan,
        slots: (0..n).map(|_| Slot::default()).collect(),
        round: 0,
        key0: 0,
        seen: BTreeSet::new(),
        snap: plan.flag("snap").is_some(),
        deep: plan.flag("deep").is_some(),
        count: plan.flag("count").is_some(),
        wear: plan.flag("wear").is_some(),
        costs: vec![vec![]; n],
        spent: 0,
        bag: vec![],
        bagged: None,
        inflight: 0,
        trace: std::env::var("RSIM_TRACE").is_ok(),
        gate: 0,
        done: 0,
    };
    unsafe { W = &mut world };
    if plan.prop == "C01" {
        let v = unshareable();
        if !v.is_empty() {
            rep::line(&["X", "NOTSYNC", "0", &v.join(", "), "cannot be shared between threads (not Send + Sync)"]);
        }
    }
    let rounds = plan.num("rounds", 1);
    let mut live = vec![];
    if plan.flag("wear").is_some() {
        return wear(plan, rounds);
    }
    if plan.flag("lasting").is_some() {
        for x in lasting(plan, rounds, 0) {
            live.push(x);
        }
        return report_live(plan, &live);
    }
    for r in 0..rounds {
        w().round = r;
        w().key0 = if plan.flag("sameround").is_some() { 0 } else { r * ROUND };
        phase(Who::Setup);
        phase_tasks();
        phase(Who::Final);
        rep::add(rep::ROUNDS, 1);
        unsafe { live.push(heap::ST.ulive_bytes) };
    }
    report_live(plan, &live);
}
fn report_live(plan: &Plan, live: &[u64]) {
    if plan.num("rounds", 1) > 1 {
        let s: Vec<String> = live.iter().map(|x| x.to_string()).collect();
        rep::line(&["L", &s.join(" ")]);
    }
    rep::rep().steps = sched::now();
}
fn ops_of(who: Who) -> Vec<&'static Op> {
    w().plan.ops.iter().filter(|o| o.who == who).collect()
}
fn finish(ops: &[&'static Op]) {
    for o in ops {
        step(o);
    }
    // whatever is left is dropped by simulated code
    sched::mark(w().key0 + 90_000);
    for i in 0..w().slots.len() {
        drop_slot(i, 90_000 + i as u64);
    }
    let b = std::mem::take(&mut w().bag);
    for (v, _) in b {
        user_drop(v, 99_000);
    }
    w().bagged = None;
}
/// All rounds in the same threads, so that what a thread keeps for itself lasts.
/// Task 0 leads: it prepares a round, takes part in it and tidies up after it.
/// With a cap (C11), the objects of the setup phase last as well.
fn lasting(plan: &Plan, rounds: u64, cap: u64) -> Vec<u64> {
    let wear = cap > 0;
    let n = plan.tasks().max(1);
    let same = plan.flag("sameround").is_some();
    let mut live: Vec<u64> = vec![];
    let out = &raw mut live;
    let out = out as usize;
    sched::spawn(Box::new(move || {
        let (setup, mine, last) = (ops_of(Who::Setup), ops_of(Who::Task(0)), ops_of(Who::Final));
        let live = unsafe { &mut *(out as *mut Vec<u64>) };
        live.reserve(rounds as usize);
        let mut keep: Vec<bool> = vec![];
        for r in 0..rounds {
            w().round = r;
            w().key0 = if same { 0 } else { r * ROUND };
            if !wear || r == 0 {
                for o in &setup {
                    step(o);
                }
                keep = w().slots.iter().map(|s| wear && s.v.is_some()).collect();
            }
            sched::mark(w().key0 + 80_004);
            w().gate = r as u32 + 1;
            unsafe { sched::futex_wake(&raw const w().gate as usize, u32::MAX, u64::MAX) };
            for o in &mine {
                step(o);
            }
            sched::mark(w().key0 + 80_005);
            while w().done + 1 < n as u32 {
                unsafe { sched::futex_wait(&raw const w().done as usize, u32::MAX, 0) };
            }
            w().done = 0;
            if wear {
                sched::mark(w().key0 + 90_000);
                for (i, k) in keep.iter().enumerate() {
                    if !k {
                        drop_slot(i, 90_000 + i as u64);
                    }
                }
            } else {
                finish(&last);
            }
            rep::add(rep::ROUNDS, 1);
            unsafe { live.push(heap::ST.ulive_bytes) };
            if wear && r >= 63 && w().spent + 100 * unsafe { sched::STATS.switches } > cap {
                break;
            }
        }
        if wear {
            finish(&last);
        }
        w().gate = u32::MAX;
        unsafe { sched::futex_wake(&raw const w().gate as usize, u32::MAX, u64::MAX) };
    }));
    for t in 1..n {
        sched::spawn(Box::new(move || {
            let mine = ops_of(Who::Task(t as u8));
            let mut r = 0;
            loop {
                while w().gate <= r {
                    unsafe { sched::futex_wait(&raw const w().gate as usize, u32::MAX, 0) };
                }
                if w().gate == u32::MAX {
                    break;
                }
                r = w().gate;
                for o in &mine {
                    step(o);
                }
                sched::mark(w().key0 + 80_006);
                w().done += 1;
                unsafe { sched::futex_wake(&raw const w().done as usize, u32::MAX, u64::MAX) };
            }
        }));
    }
    sched::run_all(80_001);
    live
}
/// C11: the objects of the setup phase are used over and over, with other values
/// every time; whatever else was made is dropped after each round.
fn wear(plan: &Plan, rounds: u64) {
    let cap = plan.num("cap", 16_000_000);
    let live = if plan.flag("lasting").is_some() { lasting(plan, rounds, cap) } else { wear_rounds(rounds, cap) };
    rep::rep().steps = sched::now();
    let n = live.len();
    if n < 64 {
        return;
    }
    if crate::props::keeps_growing(&live) {
        let m = |i: usize| heap::num(live[i]);
        rep::line(&["X", "WEAR", "0", "memory held between rounds keeps growing:", &m(n / 8), &m(n / 4), &m(n / 2), &m(n - n / 4), &m(n - 1), "bytes after", &heap::num(n as u64), "rounds"]);
    }
    for (id, c) in w().costs.iter().enumerate() {
        let n = c.len();
        if n < 64 {
            continue;
        }
        let med = |f: &dyn Fn(&(u64, u64)) -> u64, a: usize, b: usize| {
            let mut v: Vec<u64> = c[a..b].iter().map(f).collect();
            v.sort();
            v[v.len() / 2]
        };
        for (what, f) in [("steps", (|x: &(u64, u64)| x.0) as fn(&(u64, u64)) -> u64), ("bytes at once", |x| x.1)] {
            let first = c[1..n / 4].iter().map(f).max().unwrap_or(0);
            let last = med(&f, n - n / 4, n);
            if last > 2 * first + 64 && last > med(&f, n / 2, n - n / 4) {
                let name = w().plan.ops.iter().find(|o| o.id as usize == id).map(|o| o.name.clone()).unwrap_or_default();
                rep::line(&["X", "WEAR", &heap::num(id as u64), &name, "takes more and more", what, ": at most", &heap::num(first), "in the first quarter, usually", &heap::num(last), "in the last of", &heap::num(n as u64)]);
            }
        }
    }
}
fn wear_rounds(rounds: u64, cap: u64) -> Vec<u64> {
    let mut live: Vec<u64> = vec![];
    phase(Who::Setup);
    let keep: Vec<bool> = w().slots.iter().map(|s| s.v.is_some()).collect();
    for r in 0..rounds {
        w().round = r;
        w().key0 = r * ROUND;
        phase_tasks();
        for (i, k) in keep.iter().enumerate() {
            if !k && w().slots[i].v.is_some() {
                round_end(keep.clone());
                break;
            }
        }
        rep::add(rep::ROUNDS, 1);
        unsafe { live.push(heap::ST.ulive_bytes) };
        if r >= 63 && w().spent + 100 * unsafe { sched::STATS.switches } > cap {
            break;
        }
    }
    phase(Who::Final);
    live
}
fn round_end(keep: Vec<bool>) {
    sched::spawn(Box::new(move || {
        sched::mark(w().key0 + 90_000);
        for (i, k) in keep.iter().enumerate() {
            if !k {
                drop_slot(i, 90_000 + i as u64);
            }
        }
    }));
    sched::run_all(w().key0 + 80_003);
}
/// another number every round
fn vary(o: &Op, l: &str, round: u64) -> Option<String> {
    if round == 0 || !matches!(o.name.as_str(), "elt" | "estr" | "sc" | "scnew" | "powu" | "powi" | "fldv") {
        return None;
    }
    let one = |x: &str| -> Option<String> {
        let n: num_bigint::BigInt = x.parse().ok()?;
        if o.name == "fldv" {
            return Some((n + 2 * round).to_string());
        }
        // of the same length, more or less
        let b = n.bits().max(3);
        let m: num_bigint::BigInt = (num_bigint::BigInt::from(1) << b) - 1;
        let k = num_bigint::BigInt::from(round.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
        let v: num_bigint::BigInt = (n + k.pow(2 + (b / 128) as u32)) & m;
        Some(v.to_string())
    };
    let read = |x: &str| x.parse::<num_bigint::BigInt>().is_ok();
    if o.name == "estr" && !l.split(',').all(read) && !l.contains('x') && !l.starts_with("-0") && !(l.starts_with('0') && l.len() > 2) {
        // another text that is no number
        return Some(format!("{}q{}", l, round));
    }
    match l.split_once(',') {
        Some((a, b)) => Some(format!("{},{}", one(a)?, one(b)?)),
        None => one(l),
    }
}
fn phase(who: Who) {
    let ops: Vec<&'static Op> = w().plan.ops.iter().filter(|o| o.who == who).collect();
    if ops.is_empty() && who == Who::Setup {
        return;
    }
    let last = who == Who::Final;
    sched::spawn(Box::new(move || {
        if last {
            return finish(&ops);
        }
        for o in ops {
            step(o);
        }
    }));
    sched::run_all(w().key0 + if last { 80_002 } else { 80_000 });
}
fn phase_tasks() {
    let n = w().plan.tasks();
    if n == 0 {
        return;
    }
    for t in 0..n {
        let ops: Vec<&'static Op> = w().plan.ops.iter().filter(|o| o.who == Who::Task(t as u8)).collect();
        sched::spawn(Box::new(move || {
            for o in ops {
                step(o);
            }
        }));
    }
    sched::run_all(w().key0 + 80_001);
}
fn user_drop(v: V, op: u64) {
    sched::enter(LIMIT, 0, w().key0 + op);
    let r = catch_unwind(AssertUnwindSafe(move || drop(v)));
    sched::leave();
    if r.is_err() {
        rep::line(&["X", "VALUE", &heap::num(op), "dropping a handle panicked"]);
    }
}
fn drop_slot(i: usize, op: u64) {
    let s = &mut w().slots[i];
    if s.pins > 0 || s.excl {
        return;
    }
    s.m = None;
    s.snap = None;
    s.sh = None;
    if let Some(v) = s.v.take() {
        user_drop(v, op);
    }
}

fn skip(o: &Op) {
    let _ = o;
    rep::add(rep::SKIP, 1);
}

/// text of a query to the lone-execution oracle
fn query(o: &Op, ma: &[MA]) -> String {
    let mut s = format!("{}.{}", o.name, if o.var.starts_with('m') { "vv" } else { o.var.as_str() });
    for a in ma {
        s.push('|');
        match a {
            MA::M(m) => s.push_str(&m.text()),
            MA::L(l) => {
                s.push('=');
                s.push_str(l)
            }
        }
    }
    s
}
fn exp_text(e: &Exp, o: &Op, ma: &[MA]) -> Option<String> {
    Some(match e {
        Exp::Val(m) => m.text(),
        Exp::Text(t) => format!("T:{}", t.replace('\n', ";")),
        Exp::Unit => {
            if ops::is_inplace(&o.name) {
                match &ma[0] {
                    MA::M(m) => ops::expect_inplace(&o.name, m).text(),
                    _ => "U".into(),
                }
            } else {
                "U".into()
            }
        }
        Exp::Panic => "PANIC".into(),
        Exp::Solo => return None,
    })
}

/// the operation every task is in
static mut NOW: [Option<&'static Op>; sched::MAXT + 1] = [None; sched::MAXT + 1];

/// values of the objects alive now, those of the operation under way more often
pub fn alive() -> Vec<M> {
    let mut v: Vec<M> = w().slots.iter().filter(|s| s.v.is_some()).filter_map(|s| s.m.clone()).collect();
    if let Some(o) = unsafe { NOW[sched::cur()] } {
        for a in &o.args {
            if let Arg::V(i) = a {
                if let Some(m) = &w().slots[*i as usize].m {
                    for _ in 0..1 + v.len() / 3 {
                        v.push(m.clone());
                    }
                }
            }
        }
    }
    v
}
/// an operation run by a call-back: how it is written down and what the model says
pub fn call_text(name: &str, var: &str, ma: &[MA]) -> (String, Option<String>) {
    let o = Op { id: 0, who: crate::plan::Who::Final, name: name.into(), var: var.into(), args: vec![], alloc: 0, cb: None, wait: false };
    (query(&o, ma), exp_text(&ops::expect(name, var, ma), &o, ma))
}
pub fn nested(q: &str, got: &str, want: Option<&str>) {
    rep::add(rep::NESTED, 1);
    if want != Some(got) {
        let id = unsafe { NOW[sched::cur()] }.map_or(0, |o| o.id);
        let l = format!("{}\x1f{}\x1f{}", q, got, want.unwrap_or_default());
        if w().seen.insert(format!("N{}", l)) {
            rep::line(&["N", &heap::num(id as u64), &l]);
        }
    }
}

fn ready(s: &Slot, t: usize) -> bool {
    s.v.is_some() && !s.excl && (s.owner == t || !unshared(s.v.as_ref().unwrap()))
}

fn step(o: &'static Op) {
    let t = sched::cur();
    let key = w().key0 + o.id as u64;
    sched::mark(key);
    match o.name.as_str() {
        "corrupt" => return corrupt(o),
        "bput" | "bmul" | "bred" | "bdone" => return bag(o),
        "barrier" => return sched::barrier(),
        // the thread ends here: what follows happens in destructors of thread-local objects
        "exit" => return sched::thread_exit(),
        "keep" => return keep_value(o),
        _ => {}
    }
    // operands
    let mut ids = vec![];
    for a in &o.args {
        if let Arg::V(v) = a {
            ids.push(*v as usize);
        }
    }
    if ids.iter().any(|&i| i >= w().slots.len()) {
        return skip(o);
    }
    if o.wait {
        let mut k = 0;
        while k < 400 && ids.iter().any(|&i| w().slots[i].v.is_none()) {
            sched::sleep_until(sched::now() + 5_000);
            k += 1;
        }
    }
    if !ids.iter().all(|&i| ready(&w().slots[i], t)) {
        return skip(o);
    }
    let inplace = ops::is_inplace(&o.name);
    let moves = o.name == "drop" || o.var.starts_with('m');
    if inplace || moves {
        if ids.is_empty() || w().slots[ids[0]].pins > 0 || ids[1..].contains(&ids[0]) {
            return skip(o);
        }
    }
    let ma: Vec<MA> = o
        .args
        .iter()
        .map(|a| match a {
            Arg::V(v) => MA::M(w().slots[*v as usize].m.clone().unwrap()),
            Arg::L(l) => MA::L((if w().wear { vary(o, l, w().round) } else { None }).unwrap_or_else(|| l.clone())),
        })
        .collect();
    let exp = if w().wear { Exp::Solo } else { ops::expect(&o.name, &o.var, &ma) };
    let sh = ops::shape(&o.name, &ma);
    let arg0_sh = ids.first().and_then(|&i| w().slots[i].sh.clone());
    for (n, &i) in ids.iter().enumerate() {
        if n == 0 && (inplace || moves) {
            w().slots[i].excl = true;
        } else {
            w().slots[i].pins += 1;
        }
    }
    let mut moved: Option<V> = None;
    if moves {
        moved = w().slots[ids[0]].v.take();
    }
    let (what, at) = o.cb();
    unsafe {
        NOW[t] = Some(o);
        user::CB[t] = user::CB0;
        user::CB[t].what = what;
        user::CB[t].at = at;
    }
    rep::add(rep::OPS, 1);
    if inplace {
        rep::add(rep::INPL, 1);
    }
    if o.name == "drop" {
        rep::add(rep::DROPS, 1);
    }
    if o.name == "print" {
        print(o, ids[0], key);
        unpin(&ids, false);
        return;
    }
    let mut res: Result<Result<O, ops::Skip>, ()>;
    let st;
    {
        let mut args: Vec<A> = Vec::with_capacity(o.args.len() + 1);
        for (n, a) in o.args.iter().enumerate() {
            args.push(match a {
                Arg::L(l) => match &ma[n] {
                    MA::L(l) => A::L(l.as_str()),
                    _ => A::L(l.as_str()),
                },
                Arg::V(v) => {
                    let p = &raw mut w().slots[*v as usize].v;
                    if n == 0 && moves {
                        A::O(moved.take())
                    } else if n == 0 && inplace {
                        A::X(unsafe { (*p).as_mut().unwrap() })
                    } else {
                        A::R(unsafe { (*p).as_ref().unwrap() })
                    }
                }
            });
        }
        sched::enter(LIMIT, o.alloc, key);
        res = catch_unwind(AssertUnwindSafe(|| {
            let r = ops::exec(&o.name, &o.var, &mut args);
            if moves {
                args.clear(); // consumed by simulated code
            }
            r
        }))
        .map_err(|_| ());
        st = sched::leave();
        if let (Ok(_), true) = (&res, moves) {
            // nothing
        } else if moves {
            // the operation failed before or after consuming its operand
            let a = std::mem::take(&mut args);
            for x in a {
                if let A::O(Some(v)) = x {
                    user_drop(v, 70_000 + o.id as u64);
                }
            }
        }
    }
    if moves {
        let s = &mut w().slots[ids[0]];
        s.m = None;
        s.sh = None;
        s.snap = None;
    }
    unpin(&ids, inplace || moves);
    if let Ok(Err(_)) = &res {
        return skip(o);
    }
    let cb = unsafe { user::CB[t] };
    let alloc_fired = o.alloc > 0 && st.not_fired == 0;
    if o.alloc > 0 {
        rep::add(if alloc_fired { rep::AFAIL } else { rep::AMISS }, 1);
    }
    if w().wear {
        let c = LIMIT - (st.limit_at - st.step).min(LIMIT);
        w().spent += c + 200 + 150 * st.allocs;
        // what scalars cost depends on how long they are, and running totals may grow up to the order
        let bits: u64 = ma.iter().map(|a| if let MA::M(M::S(_, k)) = a { k.bits() } else { 0 }).max().unwrap_or(0);
        let c = if bits > 0 { c * 256 / bits } else { c };
        w().costs[o.id as usize].push((c, st.max_alloc));
    }
    if w().count {
        rep::line(&["A", &heap::num(o.id as u64), &heap::num(st.allocs)]);
    }
    // outcome
    let mut keep: Option<(V, M)> = None;
    let mut odd = false;
    let got = match std::mem::replace(&mut res, Err(())) {
        Err(()) => "PANIC".to_string(),
        Ok(Ok(O::V(v))) => {
            let mut m = observe(&v, &sh);
            let g = m.text();
            if let (true, Exp::Val(e)) = (m.is_bad(), &exp) {
                // another form of the right value?
                let same = ops::clone(&v).is_some_and(|c| catch_unwind(AssertUnwindSafe(|| same_as_fresh(&c, e))).unwrap_or(false));
                if same {
                    odd = true;
                    m = e.clone();
                }
            }
            keep = Some((v, m));
            g
        }
        Ok(Ok(O::T(s))) => {
            if o.name == "show" {
                if let Some(MA::M(M::P(sp, _))) = ma.first() {
                    read_point(sp, &s).map(|m| m.text()).unwrap_or_else(|| format!("bad:{}", s))
                } else {
                    format!("T:{}", s)
                }
            } else {
                format!("T:{}", s)
            }
        }
        Ok(Ok(O::U)) => {
            if inplace {
                String::new() // read below
            } else {
                "U".into()
            }
        }
        Ok(Err(_)) => unreachable!(),
    };
    let mut got = got.replace('\n', ";");
    if inplace {
        let s = &mut w().slots[ids[0]];
        let m = observe(s.v.as_ref().unwrap(), arg0_sh.as_ref().unwrap());
        let failed = got == "PANIC";
        let txt = m.text();
        if failed {
            let before = s.m.as_ref().unwrap().text();
            if txt != before {
                rep::line(&["X", "TORN", &heap::num(o.id as u64), &o.name, "failed and left", &txt, "where there was", &before]);
            }
        } else {
            got = txt;
        }
        s.odd = false;
        if m.is_bad() {
            let v = s.v.take();
            s.m = None;
            s.sh = None;
            if let Some(v) = v {
                user_drop(v, 71_000);
            }
        } else {
            s.m = Some(m);
        }
        s.snap = None;
    }
    sched::mix(hash(&got));
    if w().trace {
        rep::line(&["H", &heap::num(o.id as u64), &got, &heap::num(sched::steps()), &heap::num(unsafe { sched::HASH })]);
    }
    let failed = got == "PANIC" || got == "T:ERR";
    if failed {
        rep::add(rep::REJ, 1);
        rep::line(&["F", &heap::num(o.id as u64)]);
    }
    // judgement
    let want = if o.name == "show" && matches!(ma.first(), Some(MA::M(M::P(..)))) {
        match &ma[0] {
            MA::M(m) => Some(m.text()),
            _ => None,
        }
    } else {
        exp_text(&exp, o, &ma)
    };
    let injected = alloc_fired || (cb.fired && matches!(cb.what, Do::Panic | Do::Err | Do::ErrOnce));
    rep::add(rep::CMPS, 1);
    if ops::repr_dependent(&o.name, &ma) && o.name == "showf" {
        // printed coordinates depend on the representation
    } else if w().wear || injected && failed {
        // not judged here; or the injected failure surfaced
    } else if o.name == "dec" && w().plan.flag("decode").is_some() {
        judge_decode(o, &ma, &got, st.max_alloc);
    } else if matches!(o.name.as_str(), "ebe" | "ele" | "scbe") && w().plan.flag("decode").is_some() {
        judge_deser(o, &ma, &got, want.as_deref(), st.max_alloc);
    } else if want.as_deref() != Some(got.as_str()) {
        let q = query(o, &ma);
        let l = format!("{}\x1f{}\x1f{}", q, got, want.unwrap_or_default());
        if w().seen.insert(l.clone()) {
            rep::line(&["S", &heap::num(o.id as u64), &l]);
        }
    }
    if let Some((v, m)) = keep {
        let s = &mut w().slots[o.id as usize];
        if m.is_bad() {
            user_drop(v, 72_000);
        } else if let Some(old) = s.v.take() {
            user_drop(old, 73_000);
            user_drop(v, 74_000);
            s.m = None;
        } else {
            s.v = Some(v);
            s.m = Some(m);
            s.sh = Some(sh);
            s.owner = t;
            s.snap = None;
            s.odd = odd;
        }
    }
    if injected && failed {
        // operands of a failed operation
        for &i in &ids {
            let s = &w().slots[i];
            if s.excl || s.v.is_none() || s.odd || (inplace && i == ids[0]) {
                continue;
            }
            let now = observe(s.v.as_ref().unwrap(), s.sh.as_ref().unwrap()).text();
            let was = s.m.as_ref().unwrap().text();
            if now != was {
                rep::line(&["X", "OPERAND", &heap::num(o.id as u64), "operand", &heap::num(i as u64), "became", &now, "was", &was]);
            }
        }
    }
    if w().snap {
        snapshots(o);
    }
}
/// `keep vA vB`: from now on A is what B was
fn keep_value(o: &'static Op) {
    let [Arg::V(a), Arg::V(b)] = o.args[..] else { return skip(o) };
    let (a, b) = (a as usize, b as usize);
    let t = sched::cur();
    let n = w().slots.len();
    if a >= n || b >= n || a == b || !ready(&w().slots[a], t) || !ready(&w().slots[b], t) || w().slots[a].pins > 0 || w().slots[b].pins > 0 {
        return skip(o);
    }
    let old = w().slots[a].v.take();
    let s = std::mem::take(&mut w().slots[b]);
    let owner = w().slots[a].owner;
    w().slots[a] = s;
    w().slots[a].owner = owner;
    if let Some(v) = old {
        user_drop(v, 75_000 + o.id as u64);
    }
}
fn unpin(ids: &[usize], first_excl: bool) {
    for (n, &i) in ids.iter().enumerate() {
        if n == 0 && first_excl {
            w().slots[i].excl = false;
        } else {
            w().slots[i].pins -= 1;
        }
    }
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
fn snapshots(o: &Op) {
    let deep = w().deep;
    for i in 0..w().slots.len() {
        let s = &mut w().slots[i];
        if s.excl || s.v.is_none() || unshared(s.v.as_ref().unwrap()) {
            continue;
        }
        rep::add(rep::SNAPS, 1);
        let now = match catch_unwind(AssertUnwindSafe(|| snapshot(s.v.as_ref().unwrap(), deep))) {
            Ok(x) => x,
            Err(_) => "PANIC".into(),
        };
        match &s.snap {
            None => s.snap = Some(now),
            Some(old) if *old != now => {
                rep::line(&["X", "ALIAS", &heap::num(o.id as u64), "handle", &format!("v{}", i), "changed from", old, "to", &now, "after", &o.text()]);
                s.snap = Some(now);
                // keep the shadow true
                let m = observe(s.v.as_ref().unwrap(), s.sh.as_ref().unwrap());
                s.odd = false;
                if m.is_bad() {
                    s.v.take();
                    s.m = None;
                } else {
                    s.m = Some(m);
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ printing

fn print(o: &'static Op, i: usize, key: u64) {
    let t = sched::cur();
    let v = w().slots[i].v.as_ref().unwrap();
    // half of the time an object of the same value that was never printed before;
    // what it looks like is known from another one
    let new = match &w().slots[i].m {
        Some(m) if o.id % 2 == 0 && !w().slots[i].odd => catch_unwind(AssertUnwindSafe(|| (crate::val::fresh(m), crate::val::fresh(m)))).ok(),
        _ => None,
    };
    let (v, like) = match &new {
        Some((a, b)) => (a, b),
        None => (v, v),
    };
    let full = match catch_unwind(AssertUnwindSafe(|| show(like))) {
        Ok(Some(f)) => f,
        _ => return skip(o),
    };
    rep::add(rep::PRINTS, 1);
    // the complete text in the format asked for
    let whole = |v: &V| -> Option<String> {
        let keep = unsafe { std::mem::replace(&mut user::CB[t], user::CB0) };
        let mut b = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| ops::sink(v, &o.var, &mut user::Sink { got: &mut b, over: false, v, full: "", m: &M::B(vec![]) })));
        unsafe { user::CB[t] = keep };
        match r {
            Ok(Some(Ok(()))) => Some(String::from_utf8_lossy(&b).into_owned()),
            _ => None,
        }
    };
    let Some(text) = whole(like) else {
        rep::line(&["X", "SINK", &heap::num(o.id as u64), "printing", kind_name(v), "into a healthy sink fails"]);
        return;
    };
    let mut got: Vec<u8> = Vec::with_capacity(text.len() + 64);
    let m0 = w().slots[i].m.clone().unwrap_or(M::Bad(String::new()));
    let mut sink = user::Sink { got: &mut got, over: false, v, full: &full, m: &m0 };
    sched::enter(LIMIT, o.alloc, key);
    let r = catch_unwind(AssertUnwindSafe(|| ops::sink(v, &o.var, &mut sink)));
    let st = sched::leave();
    let over = sink.over;
    let cb = unsafe { user::CB[t] };
    let alloc_fired = o.alloc > 0 && st.not_fired == 0;
    if o.alloc > 0 {
        rep::add(if alloc_fired { rep::AFAIL } else { rep::AMISS }, 1);
    }
    let again = catch_unwind(AssertUnwindSafe(|| show(v))).ok().flatten().unwrap_or_else(|| "PANIC".into());
    let id = heap::num(o.id as u64);
    let outcome = match &r {
        Err(_) => "panic",
        Ok(None) => return skip(o),
        Ok(Some(Ok(()))) => "ok",
        Ok(Some(Err(_))) => "error",
    };
    if outcome != "ok" {
        rep::add(rep::REJ, 1);
        rep::line(&["F", &id]);
    }
    let want = if cb.fired && matches!(cb.what, Do::Err | Do::ErrOnce) {
        "error"
    } else if cb.fired && cb.what == Do::Panic {
        "panic"
    } else if alloc_fired {
        "any"
    } else {
        "ok"
    };
    let _ = over;
    let gtxt = String::from_utf8_lossy(&got).into_owned();
    sched::mix(hash(&gtxt));
    let detail = format!("printing {} into a sink ({}): {}", kind_name(v), o.cb.as_deref().unwrap_or("healthy"), outcome);
    rep::add(rep::CMPS, 1);
    if want != "any" && outcome != want {
        rep::line(&["X", "SINK", &id, &detail, "expected", want]);
    }
    // also what a sink that failed once was given afterwards
    if !text.as_bytes().starts_with(&got) {
        rep::line(&["X", "PREFIX", &id, &detail, "received", &gtxt, "of", &text]);
    }
    if outcome == "ok" && gtxt != text {
        rep::line(&["X", "TEXT", &id, &detail, "received", &gtxt, "of", &text]);
    }
    let text2 = whole(v).unwrap_or_else(|| "FAIL".into());
    if text2 != text {
        rep::line(&["X", "AFTER", &id, &detail, "then prints", &text2, "instead of", &text]);
    }
    if again != full {
        rep::line(&["X", "AFTER", &id, &detail, "then prints", &again, "instead of", &full]);
    }
    // the value itself
    let s = &w().slots[i];
    let now = observe(v, s.sh.as_ref().unwrap()).text();
    let was = s.m.as_ref().unwrap().text();
    if now != was && !s.odd {
        rep::line(&["X", "OPERAND", &id, &detail, "value became", &now, "was", &was]);
    }
}

// ---------------------------------------------------------------- corruption

/// `corrupt vB m1 m2 ...`: a transport or storage fault on bytes
fn corrupt(o: &'static Op) {
    let (Some(Arg::V(i)), t) = (o.args.first(), sched::cur()) else { return skip(o) };
    let Some(M::B(b)) = w().slots.get(*i as usize).and_then(|s| s.m.clone()) else { return skip(o) };
    let mut b = b;
    for a in &o.args[1..] {
        let other = |x: &str| -> Vec<u8> {
            x.parse::<usize>()
                .ok()
                .and_then(|i| match w().slots.get(i).and_then(|s| s.m.as_ref()) {
                    Some(M::B(b)) => Some(b.clone()),
                    _ => None,
                })
                .unwrap_or_default()
        };
        if let Arg::L(l) = a {
            crate::fault::mutate(&mut b, l, &other);
        }
    }
    rep::add(rep::CORR, 1);
    let s = &mut w().slots[o.id as usize];
    s.m = Some(M::B(b.clone()));
    s.v = Some(V::B(b));
    s.sh = Some(Sh::B);
    s.owner = t;
}

fn judge_decode(o: &Op, ma: &[MA], got: &str, max_alloc: u64) {
    rep::add(rep::DEC, 1);
    let id = heap::num(o.id as u64);
    let (MA::M(M::C(s)), MA::M(M::B(b))) = (&ma[0], &ma[1]) else { return };
    if got == "T:ERR" {
        rep::add(rep::DECERR, 1);
    }
    if max_alloc > 65536 + 16 * b.len() as u64 {
        rep::line(&["X", "BLOWUP", &id, "decoding", &hex(b), "asked for", &heap::num(max_alloc), "bytes"]);
    }
    if !s.sqrt_ok() && !(b.first() == Some(&4) && s.kind() != model::Kind::T) {
        return;
    }
    let ok = |p: &model::P| M::P(s, p.clone()).text();
    let (good, want) = match ops::model_decode(s, b) {
        ops::Dec::Point(p) => (got == ok(&p), ok(&p)),
        ops::Dec::Err => (got == "T:ERR", "an error".into()),
        ops::Dec::ErrOr(p) => (got == "T:ERR" || got == ok(&p), format!("an error or {}", ok(&p))),
    };
    if !good {
        rep::line(&["X", "DECODE", &id, &s.name, "decoding", &hex(b), "gave", got, "expected", &want]);
    }
}

/// An encoding of an element that arrived intact is read as that element;
/// anything else is an error or some reduced element.
fn judge_deser(o: &Op, ma: &[MA], got: &str, want: Option<&str>, max_alloc: u64) {
    rep::add(rep::DEC, 1);
    let id = heap::num(o.id as u64);
    let (MA::M(m), MA::M(M::B(b))) = (&ma[0], &ma[1]) else { return };
    if got == "T:ERR" {
        rep::add(rep::DECERR, 1);
    }
    if max_alloc > 65536 + 16 * b.len() as u64 {
        rep::line(&["X", "BLOWUP", &id, "reading", &hex(b), "asked for", &heap::num(max_alloc), "bytes"]);
    }
    let le = o.name == "ele";
    let num = |b: &[u8]| if le { model::U::from_bytes_le(b) } else { model::U::from_bytes_be(b) };
    let (p, parts) = match m {
        M::F(p) => (p.clone(), 1),
        M::G(p) => (p.clone(), 2),
        M::C(s) => (s.c.r.clone(), 1),
        _ => return,
    };
    let n = model::F::new(p.clone()).bytes();
    let intact = b.len() == n * parts && b.chunks(n).all(|c| num(c) < p);
    let reduced = || -> bool {
        let v: Vec<model::U> = got.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        got != "PANIC" && !got.starts_with("bad") && !got.starts_with("T:") && v.len() >= parts && v[v.len() - parts..].iter().all(|x| *x < p)
    };
    let good = if intact { Some(got) == want } else { got == "T:ERR" || Some(got) == want || reduced() };
    if !good {
        rep::line(&["X", "DECODE", &id, &o.name, "reading", &hex(b), "modulo", &p.to_string(), "gave", got, "expected", want.unwrap_or("an error")]);
    }
}

// ----------------------------------------------------------------------- bag

/// A shared bag of partial results, reduced by whoever takes two of them.
fn bag(o: &'static Op) {
    let key = w().key0 + o.id as u64;
    let mul = w().plan.flag("bag") == Some("mul");
    let opn = if mul { "mul" } else { "add" };
    let lit = |n: usize| -> u64 {
        match o.args.get(n) {
            Some(Arg::L(l)) => l.parse().unwrap_or(0),
            _ => 0,
        }
    };
    match o.name.as_str() {
        "bput" | "bmul" => {
            let ids: Vec<usize> = o.args.iter().filter_map(|a| if let Arg::V(v) = a { Some(*v as usize) } else { None }).collect();
            let t = sched::cur();
            if ids.is_empty() || !ids.iter().all(|&i| i < w().slots.len() && ready(&w().slots[i], t)) {
                return skip(o);
            }
            let ma: Vec<MA> = ids.iter().map(|&i| MA::M(w().slots[i].m.clone().unwrap())).collect();
            let name = if o.name == "bmul" {
                "smul"
            } else if o.var.is_empty() {
                "clone"
            } else {
                "neg"
            };
            // failing attempts are repeated until one succeeds, as a supervisor would
            for attempt in 0..3u64 {
                let mut args: Vec<A> = ids.iter().map(|&i| A::R(unsafe { (*(&raw const w().slots[i].v)).as_ref().unwrap() })).collect();
                for &i in &ids {
                    w().slots[i].pins += 1;
                }
                w().inflight += 1;
                let r = call(name, &o.var, &mut args, if attempt == 0 { o.alloc } else { 0 }, key);
                w().inflight -= 1;
                drop(args);
                for &i in &ids {
                    w().slots[i].pins -= 1;
                }
                rep::add(rep::OPS, 1);
                match r {
                    Ok(v) => {
                        let m = observe(&v, &ops::shape(name, &ma));
                        let want = match ops::expect(name, &o.var, &ma) {
                            Exp::Val(x) => x,
                            _ => return skip(o),
                        };
                        check_partial(o, &m, &want, name, &ma);
                        if m.is_bad() {
                            user_drop(v, 75_000);
                            return;
                        }
                        w().bagged = Some(match w().bagged.take() {
                            None => want.clone(),
                            Some(acc) => match ops::expect(opn, "rr", &[MA::M(acc.clone()), MA::M(want)]) {
                                Exp::Val(x) => x,
                                _ => acc,
                            },
                        });
                        w().bag.push((v, m));
                        return;
                    }
                    Err(injected) => {
                        rep::add(rep::REDO, 1);
                        if !injected {
                            rep::line(&["X", "WORKER", &heap::num(o.id as u64), name, "panicked on", &query(&Op { name: name.into(), ..o.clone() }, &ma)]);
                            return;
                        }
                    }
                }
            }
        }
        _ => {
            let all = o.name == "bdone";
            loop {
                let mut k = 0;
                while w().bag.len() < 2 && w().inflight > 0 && k < 400 {
                    sched::sleep_until(sched::now() + 5_000);
                    k += 1;
                }
                if w().bag.len() < 2 {
                    break;
                }
                let n = w().bag.len();
                let a = w().bag.swap_remove(lit(0) as usize % n);
                let b = w().bag.swap_remove(lit(1) as usize % (n - 1));
                w().inflight += 1;
                let ma = [MA::M(a.1.clone()), MA::M(b.1.clone())];
                let mut args = vec![A::R(&a.0), A::R(&b.0)];
                let r = call(opn, &o.var, &mut args, o.alloc, key);
                drop(args);
                w().inflight -= 1;
                rep::add(rep::OPS, 1);
                match r {
                    Ok(v) => {
                        let m = observe(&v, &ops::shape(opn, &ma));
                        let want = match ops::expect(opn, &o.var, &ma) {
                            Exp::Val(x) => x,
                            _ => {
                                user_drop(v, 76_000);
                                return skip(o);
                            }
                        };
                        check_partial(o, &m, &want, opn, &ma);
                        user_drop(a.0, 76_001);
                        user_drop(b.0, 76_002);
                        if m.is_bad() {
                            user_drop(v, 76_003);
                        } else {
                            w().bag.push((v, m));
                        }
                    }
                    Err(injected) => {
                        rep::add(rep::REDO, 1);
                        if !injected {
                            rep::line(&["X", "WORKER", &heap::num(o.id as u64), opn, "panicked on", &query(&Op { name: opn.into(), ..o.clone() }, &ma)]);
                        }
                        w().bag.push(a);
                        w().bag.push(b);
                        if all {
                            break;
                        }
                    }
                }
                if !all {
                    return;
                }
            }
            if all {
                // the last item is the answer
                let want = w().bagged.clone();
                let got = w().bag.first().map(|x| x.1.clone());
                rep::add(rep::CMPS, 1);
                if let (Some(want), Some(got)) = (want, got) {
                    if w().bag.len() == 1 && want.text() != got.text() {
                        rep::line(&["X", "TOTAL", &heap::num(o.id as u64), "final value", &got.text(), "expected", &want.text()]);
                    }
                    sched::mix(hash(&got.text()));
                    // equality as the library sees it
                    if w().bag.len() == 1 {
                        let v = &w().bag[0].0;
                        let same = catch_unwind(AssertUnwindSafe(|| same_as_fresh(v, &want))).unwrap_or(false);
                        if !same && want.text() == got.text() {
                            rep::line(&["X", "TOTAL", &heap::num(o.id as u64), "the final value does not compare equal to", &want.text()]);
                        }
                    }
                }
            }
        }
    }
}
fn check_partial(o: &Op, got: &M, want: &M, name: &str, ma: &[MA]) {
    rep::add(rep::CMPS, 1);
    sched::mix(hash(&got.text()));
    if got.text() != want.text() {
        rep::line(&["X", "PARTIAL", &heap::num(o.id as u64), "partial value", &got.text(), "expected", &want.text(), "for", &query(&Op { name: name.into(), ..o.clone() }, ma)]);
    }
}
/// Ok(value), or Err(true) if an injected failure made it fail
fn call(name: &str, var: &str, args: &mut [A], alloc: u64, key: u64) -> Result<V, bool> {
    sched::enter(LIMIT, alloc, key);
    let r = catch_unwind(AssertUnwindSafe(|| ops::exec(name, var, args)));
    let st = sched::leave();
    let fired = alloc > 0 && st.not_fired == 0;
    if alloc > 0 {
        rep::add(if fired { rep::AFAIL } else { rep::AMISS }, 1);
    }
    match r {
        Ok(Ok(O::V(v))) => Ok(v),
        _ => Err(fired),
    }
}

// ---------------------------------------------------------------------- solo

/// `name.var|arg|arg`: run it once on fresh operands and report the outcome
pub fn solo(q: &str) {
    let q: &'static str = unsafe { &*(q as *const str) };
    let s = Send_(q);
    sched::spawn(Box::new(move || {
        let s = s;
        let r = solo_(s.0);
        rep::line(&["R", &r.replace('\n', ";")]);
    }));
    sched::run_all(0);
}
fn solo_(q: &str) -> String {
    let v: Vec<&str> = q.split('|').collect();
    let (name, var) = v[0].split_once('.').unwrap();
    let mut ma = vec![];
    let mut real = vec![];
    for a in &v[1..] {
        if let Some(l) = a.strip_prefix('=') {
            ma.push(MA::L(l.into()));
            real.push(None);
        } else {
            let Some(m) = M::parse(a) else { return "?".into() };
            let r = catch_unwind(AssertUnwindSafe(|| fresh(&m)));
            let Ok(x) = r else { return "NOFRESH".into() };
            ma.push(MA::M(m));
            real.push(Some(x));
        }
    }
    let sh = ops::shape(name, &ma);
    let inplace = ops::is_inplace(name);
    let r = {
        let mut args: Vec<A> = vec![];
        for (i, x) in real.iter_mut().enumerate() {
            args.push(match x {
                None => match &ma[i] {
                    MA::L(l) => A::L(l),
                    _ => unreachable!(),
                },
                Some(x) => {
                    if i == 0 && inplace {
                        A::X(x)
                    } else if i == 0 && name == "drop" {
                        return "U".into();
                    } else {
                        A::R(x)
                    }
                }
            });
        }
        sched::enter(LIMIT, 0, 1);
        let r = catch_unwind(AssertUnwindSafe(|| ops::exec(name, var, &mut args)));
        sched::leave();
        r
    };
    match r {
        Err(_) => "PANIC".into(),
        Ok(Err(_)) => "SKIP".into(),
        Ok(Ok(O::V(x))) => observe(&x, &sh).text(),
        Ok(Ok(O::T(t))) => {
            if name == "show" {
                if let Some(MA::M(M::P(sp, _))) = ma.first() {
                    return read_point(sp, &t).map(|m| m.text()).unwrap_or_else(|| format!("bad:{}", t));
                }
            }
            format!("T:{}", t)
        }
        Ok(Ok(O::U)) => {
            if inplace {
                let s0 = match &ma[0] {
                    MA::M(m) => ops::shape("clone", &[MA::M(m.clone())]),
                    _ => Sh::Text,
                };
                observe(real[0].as_ref().unwrap(), &s0).text()
            } else {
                "U".into()
            }
        }
    }
}
