//! One generator and one judge per property.
use crate::child::{End, Outcome};
use crate::gen::{rbig, Cat, Cat::*, Gen, Reg, Ty, COMMON};
use crate::plan::{Arg, Op, Plan, Pol, Who};
use crate::spec;
use model::Kind;
use std::collections::BTreeMap;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"];

fn prof(over: &[(Cat, u32)]) -> Vec<(Cat, u32)> {
    let mut v = COMMON.to_vec();
    for (c, w) in over {
        if let Some(x) = v.iter_mut().find(|x| x.0 == *c) {
            x.1 = *w;
        } else {
            v.push((*c, *w));
        }
    }
    v
}

/// plans for seed number `seed`: usually one
pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut g = Gen::new(prop, seed);
    let heap = *g.r.pick(&[0, 0, 1, 2]);
    g.plan.set("heap", heap);
    match prop {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => crate::net::plan(&mut g),
        "C11" => c11(&mut g),
        _ => c10(&mut g),
    }
    g.plan
}

fn shared_maps(g: &mut Gen) {
    for _ in 0..g.r.below(3) {
        let Some(c) = g.find(&|t| matches!(t, Ty::C(_))) else { return };
        let Ty::C(s) = c.ty.clone() else { return };
        if s.kind() != Kind::T {
            g.make_map(&c, s);
        }
    }
}
fn tasks(g: &mut Gen, n: u64, lo: u64, hi: u64, p: &[(Cat, u32)]) {
    // breadth first, so that tasks can refer to each other's results
    let k = g.r.range(lo, hi);
    for _ in 0..k {
        for t in 0..n {
            g.who = Who::Task(t as u8);
            if g.r.p(5, 6) {
                g.random_op(p);
            }
        }
    }
}

/// Everybody does the same kind of thing at once, each with objects over another
/// field or curve, or over another instance of the same one.
fn storm(g: &mut Gen, n: u64, lo: u64, hi: u64) {
    let cat = *g.r.pick(&[Sqrt, Sqrt, FArith, Pow, FCmp, FMake, FSer, PArith, PMul, PCmp, PEnc, PDec, PNew, Norm, SArith, SSer, SMake, MapUse, MapUse, NewInst, Const, Show, UserMap]);
    g.flat = true;
    let k = 2 + g.r.below(2);
    if matches!(cat, Sqrt | FArith | Pow | FCmp | FMake | FSer) && g.r.p(4, 5) {
        g.fields(k, 4);
    } else {
        let kind = *g.r.pick(&[Kind::W, Kind::W, Kind::M, Kind::T]);
        let same = g.r.p(1, 4);
        let t = spec::toys(kind);
        let mut s = t[g.r.idx(t.len())];
        for _ in 0..k {
            if !same {
                s = if g.r.p(1, 10) {
                    let v = spec::shipped(kind);
                    v[g.r.idx(v.len())]
                } else {
                    t[g.r.idx(t.len())]
                };
            }
            g.curve(s, 3);
        }
    }
    if matches!(cat, MapUse) {
        shared_maps(g);
        shared_maps(g);
    }
    // bytes to read
    if matches!(cat, PDec | FMake) {
        for _ in 0..6 {
            g.emit(PEnc);
        }
    }
    let mut only = None;
    let again = g.r.p(1, 2);
    let narrow = again || g.r.p(1, 2);
    let k = if again { g.r.range(1, 2) } else { g.r.range(lo, hi) };
    let (from, had) = (g.plan.ops.len(), g.budget);
    for _ in 0..k {
        for t in 0..n {
            g.who = Who::Task(t as u8);
            if !narrow {
                only = None;
            }
            if g.r.p(1, 12) || !g.same_op(cat, &mut only) {
                g.random_op(COMMON);
            }
        }
    }
    if again {
        // each task the same over and over
        let after = g.budget;
        let mut mine: Vec<Op> = g.plan.ops[from..].to_vec();
        mine.retain(|o| !o.var.starts_with('m') && !matches!(o.name.as_str(), "drop" | "crowd" | "norm" | "setzero" | "setone"));
        for _ in 0..g.r.range(3, 3 + 2 * hi) {
            if !g.spend((had - had.min(after)) as u64 + 1) {
                break;
            }
            for o in &mine {
                g.who = o.who;
                g.op(&o.name, &o.var, o.args.clone(), None);
                g.last().cb = o.cb.clone();
            }
        }
    }
}

/// The first uses of the library in the process, by everybody at once: nothing is made
/// beforehand, each task makes its own curve, map or field, the same or a related one.
fn firsts(g: &mut Gen) {
    let n = *g.r.pick(&[2, 2, 3, 3, 4]);
    g.cross = 10;
    let subject = |g: &mut Gen| -> String {
        match g.r.below(12) {
            0..=2 => "isecp".into(),
            3 => "ibls".into(),
            4 => "r25519".into(),
            5 => "r448".into(),
            6 | 7 => g.any_shipped().name.clone(),
            8 => "field".into(),
            _ => {
                let kind = *g.r.pick(&[Kind::W, Kind::W, Kind::M, Kind::T]);
                let t = spec::toys(kind);
                t[g.r.idx(t.len())].name.clone()
            }
        }
    };
    let main = subject(g);
    let fam = g.prime();
    let all_same = g.r.p(2, 3);
    let extra = g.r.below(5);
    // mostly everybody goes the same way, so that the same step is the first for all
    let aligned = g.r.p(2, 3);
    for t in 0..n {
        g.who = Who::Task(t as u8);
        let what = if all_same || g.r.p(1, 2) { main.clone() } else { subject(g) };
        let iso = crate::val::iso_specs(&what);
        let rat = if what.starts_with('r') { crate::val::rat_specs(&what) } else { None };
        let (from, to) = match (iso, rat) {
            (Some((a, b)), _) | (_, Some((a, b))) => (Some(a), Some(b)),
            _ => (spec::get(&what), None),
        };
        let Some(a) = from else {
            g.field(&fam, 2);
            for _ in 0..1 + g.r.below(3) {
                g.random_op(&[(Sqrt, 20), (FArith, 5), (FSer, 5), (FMake, 10), (Show, 2)]);
            }
            continue;
        };
        let mut map = |g: &mut Gen| {
            if iso.is_some() {
                g.op("iso", "", vec![Gen::l(&what)], Some(Ty::I(what.clone())))
            } else {
                g.op("rat", "", vec![Gen::l(&what)], Some(Ty::R(what.clone())))
            }
        };
        let early = if aligned { false } else { g.r.p(1, 2) };
        let mut m = None;
        if to.is_some() && early {
            m = Some(map(g));
        }
        let c = g.op("cur", "", vec![Gen::l(&a.name)], Some(Ty::C(a)));
        let p = g.op("gen", "", vec![Arg::V(c)], Some(Ty::P(a)));
        if let Some(b) = to {
            let m = match m {
                Some(m) => m,
                None => map(g),
            };
            let q = g.op("push", "", vec![Arg::V(m), Arg::V(p)], Some(Ty::P(b)));
            if rat.is_some() && g.r.p(1, 2) {
                g.op("pull", "", vec![Arg::V(m), Arg::V(q)], Some(Ty::P(a)));
            }
            if g.r.p(1, 3) {
                g.op("cod", "", vec![Arg::V(m)], Some(Ty::C(b)));
            }
        } else if aligned || g.r.p(1, 2) {
            let f = g.op("fieldof", "", vec![Arg::V(c)], Some(Ty::F(a.c.f.p.clone())));
            let u = g.num(&a.c.f.p);
            g.op("elt", "", vec![Arg::V(f), Gen::l(u)], Some(Ty::E(a.c.f.p.clone())));
            if let Some(c) = g.find(&|t| *t == Ty::C(a)) {
                g.make_map(&c, a);
            }
        }
        for _ in 0..extra {
            g.random_op(&[(MapUse, 30), (PArith, 8), (PEnc, 10), (PDec, 10), (PCmp, 4), (Const, 6), (NewInst, 4), (SMake, 5), (SArith, 3), (SSer, 3), (FMake, 4), (Show, 4), (Sqrt, 8), (PMul, 1), (MapMk, 4)]);
        }
    }
}
fn c01(g: &mut Gen) {
    if g.r.p(1, 8) {
        firsts(g);
        g.plan.pol = g.policy(20, 20);
        return;
    }
    if g.r.p(2, 5) {
        g.cross = 30;
        let n = *g.r.pick(&[2, 2, 2, 3, 4]);
        storm(g, n, 2, 12);
        g.plan.pol = g.policy(20, 20);
        if let Pol::Random { mean, cold, .. } = &mut g.plan.pol {
            if *cold <= 1000 {
                *mean = (*mean).min(g.r.logu(1, 10));
            }
        }
        return;
    }
    let style = g.r.below(10);
    if style < 3 {
        // first use of one cold field by everybody
        let n = 1 + g.r.below(3);
        g.fields(n, 3);
    } else if style < 5 {
        let s = if g.r.p(1, 4) { g.any_shipped() } else { g.toy() };
        g.curve(s, 3);
        shared_maps(g);
    } else {
        let n = 1 + g.r.below(3);
        g.universe(n, 12);
        shared_maps(g);
    }
    g.cross = 100;
    let n = *g.r.pick(&[2, 2, 2, 3, 3, 4, 5, 6]);
    let p = if g.r.p(1, 2) { prof(&[(Sqrt, 40), (InPlace, 2), (MapUse, 15), (PDec, 10)]) } else { prof(&[(NewInst, 5)]) };
    tasks(g, n, 2, 9, &p);
    g.plan.pol = g.policy(20, 20);
}
fn c02(g: &mut Gen) {
    if g.r.p(1, 10) {
        g.cbs = vec!["panic", "yield", "stall", "reenter", "reenter"];
        g.p_cb = 300;
        firsts(g);
        faults(g, 3);
        g.plan.pol = g.policy(300, 300);
        return;
    }
    let parts = 1 + g.r.below(2);
    if g.r.p(1, 3) {
        g.fields(2, 3);
    } else {
        g.universe(parts, 12);
    }
    shared_maps(g);
    g.cross = 200;
    g.cbs = vec!["panic", "yield", "stall", "reenter", "reenter"];
    g.p_cb = 600;
    let n = *g.r.pick(&[1, 2, 2, 3, 4, 6, 8]);
    if g.r.p(1, 5) {
        storm(g, n, 2, 5);
    } else {
        let p = prof(&[(Sqrt, 25), (MapMk, 3), (MapUse, 15), (UserMap, 30), (Print, 12), (PDec, 8), (Misuse, 8)]);
        tasks(g, n, 2, 8, &p);
    }
    faults(g, 4);
    g.plan.pol = g.policy(300, 300);
}
/// allocation failures at guessed places
fn faults(g: &mut Gen, max: u64) {
    let n = g.plan.ops.len();
    if n == 0 {
        return;
    }
    for _ in 0..g.r.below(max + 1) {
        let i = g.r.idx(n);
        let a = if g.r.p(1, 2) { 1 + g.r.below(8) } else { g.r.logu(0, 10) };
        let o = &mut g.plan.ops[i];
        if o.who != Who::Setup && !matches!(o.name.as_str(), "drop" | "barrier" | "exit" | "corrupt") {
            o.alloc = a;
        }
    }
}
fn c03(g: &mut Gen) {
    if g.r.p(1, 10) {
        firsts(g);
        faults(g, 4);
        g.who = Who::Final;
        g.cross = 500;
        g.random_ops(6, &prof(&[(Sqrt, 30), (MapMk, 10), (MapUse, 10), (NewInst, 10)]));
        g.plan.pol = g.policy(20, 20);
        g.plan.set("count", 1);
        return;
    }
    if g.r.p(1, 10) {
        wear(g);
        g.plan.set("count", 1);
        return;
    }
    let parts = 1 + g.r.below(2);
    g.budget = 30_000;
    if g.r.p(1, 3) {
        g.fields(2, 3);
    } else {
        g.universe(parts, 8);
    }
    shared_maps(g);
    g.cross = 150;
    g.cbs = vec!["panic"];
    g.p_cb = 400;
    let n = *g.r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let p = prof(&[(Sqrt, 25), (Misuse, 14), (MapMk, 5), (MapUse, 14), (InPlace, 6), (Norm, 6), (Print, 4), (PDec, 8), (UserMap, 14)]);
    if n > 0 && g.r.p(1, 5) {
        storm(g, n, 2, 5);
        g.who = Who::Final;
        g.random_ops(6, &prof(&[(Sqrt, 30)]));
    } else if n == 0 {
        g.who = Who::Final;
        let k = 4 + g.r.below(16);
        g.random_ops(k, &p);
    } else {
        tasks(g, n, 2, 8, &p);
        g.who = Who::Final;
        g.random_ops(6, &prof(&[(Sqrt, 30)]));
    }
    g.plan.pol = g.policy(20, 20);
    g.plan.set("count", 1);
}
/// The same few failures over and over in one process (a peer that keeps sending the same
/// bad message, a caller that keeps retrying), with healthy work in between and after.
fn wear(g: &mut Gen) {
    g.budget = 30_000;
    g.flat = true;
    g.cbs = vec!["panic"];
    g.p_cb = 0;
    let kind = *g.r.pick(&[Kind::W, Kind::W, Kind::M, Kind::T]);
    let t = spec::toys(kind);
    let s = t[g.r.idx(t.len())];
    g.curve(s, 4);
    for _ in 0..3 {
        g.emit(PEnc);
    }
    let sent: Vec<u32> = g.regs.iter().filter(|r| matches!(r.ty, Ty::BC(_))).map(|r| r.id).collect();
    let c = g.regs.iter().find(|r| matches!(r.ty, Ty::C(_))).map(|r| r.id).unwrap();
    let mut bad = vec![];
    for i in 0..3 {
        if let Some(&b) = sent.get(i % sent.len().max(1)) {
            let m = if g.r.p(2, 3) {
                format!("lit:{}", crate::val::hex(&g.crafted(&Ty::BC(s))))
            } else {
                g.mutation()
            };
            bad.push(g.op("corrupt", "", vec![Arg::V(b), Gen::l(m)], None));
        }
    }
    if matches!(kind, Kind::W | Kind::M) && g.r.p(1, 2) {
        shared_maps(g);
    }
    let n = *g.r.pick(&[1u64, 1, 1, 2, 3]);
    let p = prof(&[(Misuse, 60), (UserMap, 12), (MapUse, 8), (Sqrt, 6)]);
    for _ in 0..1 + g.r.below(3) {
        g.who = Who::Task(g.r.below(n) as u8);
        let from = g.plan.ops.len();
        if !bad.is_empty() && g.r.p(1, 2) {
            let b = bad[g.r.idx(bad.len())];
            g.op("dec", "", vec![Arg::V(c), Arg::V(b)], None);
        } else if g.r.p(2, 3) {
            g.p_cb = 1000;
            g.random_op(&p);
            g.p_cb = 0;
        } else {
            g.random_op(COMMON);
            let a = g.r.logu(0, 6) + 1;
            g.last().alloc = a;
        }
        let mut mine: Vec<Op> = g.plan.ops[from..].to_vec();
        mine.retain(|o| !o.var.starts_with('m') && !matches!(o.name.as_str(), "drop" | "crowd" | "norm" | "setzero" | "setone" | "cur" | "fld" | "fld2"));
        let k = g.r.logu(2, 6);
        for i in 0..k {
            for o in &mine {
                g.op(&o.name, &o.var, o.args.clone(), None);
                let cb = o.cb.clone();
                let a = if o.alloc > 0 { 1 + (o.alloc + i) % 40 } else { 0 };
                let l = g.last();
                l.cb = cb;
                l.alloc = a;
            }
            if g.r.p(1, 30) {
                g.random_op(COMMON);
            }
        }
        // healthy messages from the same peer
        for &b in &sent {
            if g.r.p(1, 2) {
                g.op("dec", "", vec![Arg::V(c), Arg::V(b)], Some(Ty::P(s)));
            }
        }
    }
    g.who = Who::Final;
    for &b in &sent {
        g.op("dec", "", vec![Arg::V(c), Arg::V(b)], Some(Ty::P(s)));
    }
    g.random_ops(10, COMMON);
    g.random_ops(3, &prof(&[(Sqrt, 30)]));
    g.plan.pol = g.policy(40, 20);
}
/// what a thread keeps in thread-local objects of its own is dropped while it ends
fn last_drops(g: &mut Gen, n: u64) {
    for t in 0..n {
        let me = Who::Task(t as u8);
        g.who = me;
        let mut mine: Vec<usize> = (0..g.regs.len())
            .filter(|&i| {
                let r = &g.regs[i];
                !r.gone && r.who == me && !g.plan.ops.iter().any(|o| o.who != me && o.args.iter().any(|a| matches!(a, Arg::V(v) if *v == r.id)))
            })
            .collect();
        if mine.is_empty() {
            continue;
        }
        g.op("exit", "", vec![], None);
        for _ in 0..1 + g.r.below(4) {
            if mine.is_empty() {
                break;
            }
            let k = g.r.idx(mine.len());
            let i = mine.swap_remove(k);
            g.regs[i].gone = true;
            let id = g.regs[i].id;
            g.op("drop", "", vec![Arg::V(id)], None);
        }
    }
}
fn c04(g: &mut Gen) {
    // now and then a long history of short rounds
    let long = g.r.p(1, 24);
    let lasting = g.r.p(1, 2);
    g.budget = if long { 400 } else { 8_000 };
    let parts = 1 + if long { 0 } else { g.r.below(3) };
    if g.r.p(1, if long { 2 } else { 3 }) {
        let n = 1 + if long { 0 } else { g.r.below(3) };
        g.fields(n, 3);
    } else {
        g.universe(parts, 10);
    }
    shared_maps(g);
    g.cross = 100;
    g.cbs = vec!["panic", "yield"];
    g.p_cb = 200;
    let n = *g.r.pick(&[0, 0, 1, 1, 2, 3]);
    let p = prof(&[(Sqrt, 25), (Drop, 12), (Clone, 6), (Misuse, 4), (MapMk, 6), (UserMap, 5), (Print, 2), (NewInst, 8)]);
    if n == 0 {
        g.who = Who::Final;
        let k = 4 + g.r.below(20);
        g.random_ops(k, &p);
    } else {
        tasks(g, n, 2, 8, &p);
        if !lasting && g.r.p(1, 3) {
            last_drops(g, n);
        }
        g.who = Who::Final;
        g.random_ops(3, &p);
    }
    // drop in some order, sometimes from another thread
    let mut left: Vec<u32> = g.regs.iter().filter(|r| !r.gone).map(|r| r.id).collect();
    g.r.idx(1);
    for i in (1..left.len()).rev() {
        let j = g.r.idx(i + 1);
        left.swap(i, j);
    }
    g.who = Who::Final;
    for id in left {
        g.op("drop", "", vec![Arg::V(id)], None);
    }
    faults(g, 3);
    g.plan.pol = g.policy(20, 20);
    g.plan.set("rounds", if long { 96 } else { 5 });
    if lasting {
        g.plan.set("lasting", 1);
    }
}
fn c05(g: &mut Gen) {
    g.budget = 60_000;
    g.cbs = vec!["reenter"];
    g.p_cb = 150;
    if g.r.p(1, 60) {
        long(g);
        return;
    }
    if g.r.p(1, 12) {
        return if g.r.p(1, 3) { kin_points(g) } else { kin(g) };
    }
    if g.r.p(1, 16) {
        return meetings(g);
    }
    let style = g.r.below(7);
    let parts = 1 + g.r.below(4);
    match style {
        6 => linked(g),
        0 => {
            // many fields over related primes
            g.plan.set("heap", 0);
            let n = 2 + g.r.below(6);
            g.fields(n, 2);
        }
        1 => {
            let s = if g.r.p(1, 5) { g.any_shipped() } else { g.toy() };
            g.curve(s, 5);
        }
        2 => {
            g.plan.set("heap", 0);
            g.universe(parts, 8);
        }
        _ => g.universe(parts, 8),
    }
    let n = *g.r.pick(&[1, 1, 1, 1, 2, 3]);
    g.cross = 500;
    let p = match style {
        0 => prof(&[(Sqrt, 40), (NewInst, 12), (Drop, 25), (FMake, 25), (FCmp, 8)]),
        1 => prof(&[(PArith, 40), (PMul, 8), (PCmp, 14), (PEnc, 8), (Norm, 6)]),
        2 => prof(&[(NewInst, 12), (Drop, 20), (Sqrt, 25)]),
        6 => vec![(PArith, 30), (MapUse, 40), (MapMk, 2), (Norm, 5), (PCmp, 8), (PEnc, 4), (PDec, 4), (PMul, 2), (FMake, 3), (Const, 1), (Clone, 2), (Drop, 1)],
        _ => prof(&[(PArith, 16), (UserMap, 5)]),
    };
    let k = g.r.logu(4, 7);
    if g.r.p(1, 12) {
        // first of all, a great many others
        if g.r.p(1, 2) {
            g.who = Who::Task(0);
            g.random_ops(6, &p);
        }
        let n = g.r.logu(7, 16);
        g.crowd(n);
    }
    if style == 3 {
        storm(g, n, 3, 12);
    } else if n == 1 {
        g.who = Who::Task(0);
        for i in 0..k {
            g.random_op(&p);
            if style == 0 && i % 5 == 4 {
                churn(g);
            }
        }
    } else {
        tasks(g, n, k / n / 2 + 2, k / n + 2, &p);
    }
    g.plan.pol = if n > 1 && g.r.p(1, 2) { Pol::Random { mean: 20_000, burst: 0, p_burst: 0, p_stall: 0, stall_ns: 0, p_spur: 0, cold: 0, sync: 0 } } else { Pol::None };
}
/// two curves and the map between them
fn linked(g: &mut Gen) {
    let k = g.r.below(8);
    let name = match k {
        0 | 1 => "isecp".to_string(),
        2 => "ibls".into(),
        3 => "r25519".into(),
        4 => "r448".into(),
        _ => {
            let t = spec::toys(Kind::T);
            crate::val::rat_for(t[g.r.idx(t.len())])
        }
    };
    let (a, b) = if k < 3 { crate::val::iso_specs(&name).unwrap() } else { crate::val::rat_specs(&name).unwrap() };
    let n = 2 + g.r.below(3);
    g.curve(a, n);
    if k >= 3 || g.r.p(1, 3) {
        g.curve(b, 2);
    }
    // the tasks use it, so a task makes it
    g.who = Who::Task(0);
    if k < 3 {
        g.op("iso", "", vec![Gen::l(&name)], Some(Ty::I(name)));
    } else {
        g.op("rat", "", vec![Gen::l(&name)], Some(Ty::R(name)));
    }
    if k < 3 {
        if let Some(c) = g.find(&|t| *t == Ty::C(a)) {
            let z = if k < 2 { "-11" } else { "11" };
            g.op("sswu", "", vec![Arg::V(c.id), Gen::l(z)], Some(Ty::K("sswu".into(), a, a.c.f.p.clone())));
        }
    }
    g.who = Who::Setup;
}
/// a long history of one object: hundreds or thousands of short-lived operands
fn long(g: &mut Gen) {
    let n = g.r.logu(7, 11);
    g.plan.pol = Pol::None;
    if g.r.p(1, 2) {
        let p = g.prime();
        let quad = p.bit(0) && p.bit(1) && g.r.p(1, 4);
        let f = g.op(if quad { "fld2" } else { "fld" }, "", vec![Gen::l(&p)], None);
        g.who = Who::Task(0);
        let mut last = None;
        for _ in 0..n {
            let (a, b) = (g.num(&p), g.num(&p));
            let e = if quad { g.op("estr", "", vec![Arg::V(f), Gen::l(format!("{},{}", a, b))], None) } else { g.op(*g.r.clone().pick(&["elt", "estr"]), "", vec![Arg::V(f), Gen::l(a)], None) };
            let k = b.trim_start_matches('-').to_string();
            let y = last.unwrap_or(e);
            let (v, mut made) = match g.r.below(12) {
                0 => (g.op("sq", "r", vec![Arg::V(e), Gen::l("2")], None), vec![]),
                1 | 2 => {
                    let q = g.op("sq", "r", vec![Arg::V(e), Gen::l("2")], None);
                    (g.op("sqrt", "", vec![Arg::V(q)], None), vec![q])
                }
                3 => {
                    g.op("issq", "", vec![Arg::V(e)], None);
                    (g.op("neg", "r", vec![Arg::V(e)], None), vec![])
                }
                4 => (g.op("rinv", "", vec![Arg::V(e), Gen::l("1")], None), vec![]),
                5 => (g.op("powu", "", vec![Arg::V(e), Gen::l(k)], None), vec![]),
                6 => {
                    let b = g.op("tobe", "", vec![Arg::V(e)], None);
                    (g.op("ebe", "", vec![Arg::V(f), Arg::V(b)], None), vec![b])
                }
                7 => {
                    g.op("show", "", vec![Arg::V(e)], None);
                    (g.op("add", "rr", vec![Arg::V(e), Arg::V(y)], None), vec![])
                }
                8 => {
                    g.op("eq", "", vec![Arg::V(e), Arg::V(y)], None);
                    (g.op("sub", "rr", vec![Arg::V(e), Arg::V(y)], None), vec![])
                }
                9 => (g.op("div", "rr", vec![Arg::V(e), Arg::V(y)], None), vec![]),
                _ => (g.op("mul", "rr", vec![Arg::V(e), Arg::V(y)], None), vec![]),
            };
            made.push(e);
            made.extend(last.replace(v));
            for x in made {
                g.op("drop", "", vec![Arg::V(x)], None);
            }
        }
        return;
    }
    let s = if g.r.p(1, 12) { g.any_shipped() } else { g.toy() };
    let n = if s.shipped { n / 8 } else { n };
    let c = g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
    let reg = g.regs.last().unwrap().clone();
    let k0 = g.regs.len();
    if s.kind() != Kind::T {
        g.make_map(&reg, s);
    }
    let map = g.regs[k0..].iter().find(|r| matches!(&r.ty, Ty::K(k, _, p) if !k.starts_with("ab0") && *p == s.c.f.p)).map(|r| r.id);
    let f = g.op("fieldof", "", vec![Arg::V(c)], None);
    g.who = Who::Task(0);
    let mut last = None;
    for _ in 0..n {
        let p = match g.some_point(s) {
            Some((x, y)) => g.op("ptl", "", vec![Arg::V(c), Gen::l(x), Gen::l(y)], None),
            None => g.op("id", "", vec![Arg::V(c)], None),
        };
        let y = last.unwrap_or(p);
        let (v, mut made) = match g.r.below(9) {
            0 | 1 => {
                let z = g.r.below(2);
                let b = g.op("enc", "", vec![Arg::V(p), Gen::l(z)], None);
                (g.op("dec", "", vec![Arg::V(c), Arg::V(b)], None), vec![b])
            }
            2 => {
                let k = g.num(&s.c.r);
                let k = g.op("sc", "", vec![Arg::V(c), Gen::l(k)], None);
                (g.op("smul", "rr", vec![Arg::V(p), Arg::V(k)], None), vec![k])
            }
            3 => {
                g.op("iszero", "", vec![Arg::V(p)], None);
                g.op("eq", "", vec![Arg::V(p), Arg::V(y)], None);
                (g.op("neg", "r", vec![Arg::V(p)], None), vec![])
            }
            4 => (g.op("normed", "", vec![Arg::V(y)], None), vec![]),
            5 if map.is_some() => {
                let u = g.num(&s.c.f.p);
                let u = g.op("elt", "", vec![Arg::V(f), Gen::l(u)], None);
                (g.op("map", "", vec![Arg::V(map.unwrap()), Arg::V(u)], None), vec![u])
            }
            _ => (g.op("add", "rr", vec![Arg::V(p), Arg::V(y)], None), vec![]),
        };
        made.push(p);
        made.extend(last.replace(v));
        for x in made {
            g.op("drop", "", vec![Arg::V(x)], None);
        }
    }
}
/// what a careless key, fingerprint or comparison could take for the pair (a, b)
fn kin_of(g: &mut Gen, a: &model::U, b: &model::U, p: &model::U) -> (model::U, model::U) {
    use model::U;
    let one = U::from(1u32);
    let bits = p.bits();
    let (x, y) = match g.r.below(16) {
        0 => (b.clone(), a.clone()),
        1 => (a.clone(), p - b),
        2 => (p - a, p - b),
        3 => {
            let d = one << g.r.below(bits);
            (a + &d, b + p - d % p)
        }
        // the same digits, the comma elsewhere
        4..=7 => {
            let radix = if g.r.p(2, 3) { 10 } else { 16 };
            let t = format!("{}{}", a.to_str_radix(radix), b.to_str_radix(radix));
            let mut out = (b.clone(), a.clone());
            for _ in 0..8 {
                let k = 1 + g.r.idx(t.len().max(2) - 1);
                let (u, v) = t.split_at(k.min(t.len()));
                if v.is_empty() || v.len() > 1 && v.starts_with('0') {
                    continue;
                }
                let (u, v) = (U::parse_bytes(u.as_bytes(), radix).unwrap(), U::parse_bytes(v.as_bytes(), radix).unwrap());
                if u < *p && v < *p && u != *a {
                    out = (u, v);
                    break;
                }
            }
            out
        }
        8 => {
            let m = one << g.r.below(bits);
            (a ^ &m, b ^ m)
        }
        9 => {
            let w = [8u64, 16, 32, 64][g.r.idx(4)];
            let m = (one << w) - 1u32;
            let h = rbig(&mut g.r, p);
            // the same low word, another rest
            ((a & &m) + ((h >> w) << w), b.clone())
        }
        10 => {
            let w = [8u64, 16, 32, 64][g.r.idx(4)];
            let m = (one << w) - 1u32;
            let l = rbig(&mut g.r, p) & m;
            (((a >> w) << w) + l, b.clone())
        }
        // words, or bytes, in another order
        11 => {
            let mut v = a.to_bytes_le();
            let w = [1usize, 4, 8][g.r.idx(3)];
            if v.len() > w {
                let k = v.len() / w;
                let (i, j) = (g.r.idx(k), g.r.idx(k));
                for t in 0..w {
                    v.swap(i * w + t, j * w + t);
                }
            }
            (U::from_bytes_le(&v), b.clone())
        }
        12 => {
            let mut v = a.to_bytes_le();
            v.reverse();
            (U::from_bytes_le(&v), b.clone())
        }
        13 => (a << [8u32, 32, 64][g.r.idx(3)], b.clone()),
        14 => (a.clone(), rbig(&mut g.r, p)),
        _ => (rbig(&mut g.r, p), rbig(&mut g.r, p)),
    };
    (x % p, y % p)
}
/// one or two questions put to many values that are easily mistaken for each other
fn kin(g: &mut Gen) {
    let n = g.r.logu(4, 7);
    g.plan.pol = Pol::None;
    g.plan.set("heap", g.r.below(2));
    let ops: Vec<u64> = (0..1 + g.r.below(2)).map(|_| g.r.below(9)).collect();
    let curve = g.r.p(1, 4);
    let s = if curve { Some(if g.r.p(1, 6) { g.any_shipped() } else { g.toy() }) } else { None };
    let (p, c) = match s {
        Some(s) => {
            let c = g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
            (s.c.r.clone(), c)
        }
        None => (g.prime(), 0),
    };
    let n = if s.is_some_and(|s| s.shipped) { n / 12 + 2 } else { n };
    let quad = !curve && p.bit(0) && p.bit(1) && g.r.p(1, 2);
    let f = if curve { 0 } else { g.op(if quad { "fld2" } else { "fld" }, "", vec![Gen::l(&p)], None) };
    let base = s.and_then(|s| g.some_point(s).map(|xy| g.op("ptl", "", vec![Arg::V(c), Gen::l(xy.0), Gen::l(xy.1)], None)));
    g.who = Who::Task(0);
    let mut known = vec![(rbig(&mut g.r, &p), rbig(&mut g.r, &p))];
    let keep = g.r.below(3);
    let mut alive: Vec<u32> = vec![];
    let mut fixed = None;
    for i in 0..n {
        let k = if g.r.p(1, 2) { known.len() - 1 } else { g.r.idx(known.len()) };
        let (a, b) = known[k].clone();
        let (a, b) = if i == 0 { (a, b) } else if g.r.p(1, 8) { (a, b) } else { kin_of(g, &a, &b, &p) };
        known.push((a.clone(), b.clone()));
        let mut made = vec![];
        if curve {
            let k = g.op("sc", "", vec![Arg::V(c), Gen::l(&a)], None);
            made.push(k);
            match (ops[g.r.idx(ops.len())], base) {
                (0..=5, Some(q)) => made.push(g.op("smul", "rr", vec![Arg::V(q), Arg::V(k)], None)),
                (6, _) => made.push(g.op("rinv", "", vec![Arg::V(k), Gen::l("1")], None)),
                (7, _) => made.push(g.op("tobe", "", vec![Arg::V(k)], None)),
                _ => {
                    let y = *fixed.get_or_insert(k);
                    made.push(g.op("mul", "rr", vec![Arg::V(k), Arg::V(y)], None));
                }
            }
        } else {
            let e = if quad { g.op("estr", "", vec![Arg::V(f), Gen::l(format!("{},{}", a, b))], None) } else { g.op("elt", "", vec![Arg::V(f), Gen::l(&a)], None) };
            made.push(e);
            let y = *fixed.get_or_insert(e);
            match ops[g.r.idx(ops.len())] {
                0 | 1 => {
                    g.op("issq", "", vec![Arg::V(e)], None);
                }
                2 => {
                    let q = g.op("sq", "r", vec![Arg::V(e), Gen::l("2")], None);
                    made.push(q);
                    made.push(g.op("sqrt", "", vec![Arg::V(q)], None));
                }
                3 => made.push(g.op("rinv", "", vec![Arg::V(e), Gen::l("1")], None)),
                4 => made.push(g.op("powu", "", vec![Arg::V(e), Gen::l(&b)], None)),
                5 => {
                    g.op("sgn", "", vec![Arg::V(e)], None);
                    g.op("show", "", vec![Arg::V(e)], None);
                    made.push(g.op("tobe", "", vec![Arg::V(e)], None));
                }
                6 => made.push(g.op("mul", "rr", vec![Arg::V(e), Arg::V(y)], None)),
                7 => {
                    made.push(g.op("div", "rr", vec![Arg::V(y), Arg::V(e)], None));
                    g.op("eq", "", vec![Arg::V(e), Arg::V(y)], None);
                }
                _ => {
                    made.push(g.op("neg", "r", vec![Arg::V(e)], None));
                    made.push(g.op("add", "rr", vec![Arg::V(e), Arg::V(y)], None));
                }
            }
        }
        let fx = fixed;
        alive.extend(made.into_iter().filter(|x| Some(*x) != fx));
        if keep > 0 {
            while alive.len() as u64 > (keep - 1) * 12 {
                let i = g.r.idx(alive.len());
                let x = alive.swap_remove(i);
                g.op("drop", "", vec![Arg::V(x)], None);
            }
        }
    }
}
/// the same, with points of one curve, and with the elements a map is given
fn kin_points(g: &mut Gen) {
    g.plan.pol = Pol::None;
    g.plan.set("heap", g.r.below(2));
    let s = if g.r.p(1, 6) { g.any_shipped() } else { g.toy() };
    let n = g.r.logu(4, 7);
    let n = if s.shipped { n / 6 + 2 } else { n };
    let c = g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
    let reg = g.regs.last().unwrap().clone();
    let k0 = g.regs.len();
    g.who = Who::Task(0); // some maps stay where they were made
    g.make_map(&reg, s);
    g.who = Who::Setup;
    let map = g.regs.get(k0).map(|r| (r.id, r.ty.clone()));
    let (mut how, field) = match &map {
        Some((_, Ty::K(_, _, p))) if g.r.p(2, 3) => (vec![20], Some(p.clone())),
        Some((_, Ty::R(n))) if g.r.p(2, 3) && crate::val::rat_specs(n).is_some_and(|x| x.0 == s) => (vec![21], None),
        _ => (vec![], None),
    };
    if how.is_empty() {
        how = (0..1 + g.r.below(2)).map(|_| g.r.below(9)).collect();
    }
    let k = g.scalar_lit(s);
    let k = g.op("sc", "", vec![Arg::V(c), Gen::l(k)], None);
    let f = field.as_ref().map(|p| g.op("fld", "", vec![Gen::l(p)], None));
    g.who = Who::Task(0);
    let mut known = vec![g.some_point(s)];
    let mut us = vec![rbig(&mut g.r, field.as_ref().unwrap_or(&s.c.f.p))];
    let mut fixed = None;
    let keep = g.r.below(3);
    let mut alive: Vec<u32> = vec![];
    for _ in 0..n {
        let mut made = vec![];
        if let (Some(f), Some(p)) = (f, &field) {
            let u = us[us.len() - 1 - g.r.idx(us.len().min(6))].clone();
            let u = if g.r.p(1, 8) { u } else { kin_of(g, &u, &u, p).0 };
            us.push(u.clone());
            let u = g.op("elt", "", vec![Arg::V(f), Gen::l(u)], None);
            made.push(u);
            made.push(g.op("map", "", vec![Arg::V(map.as_ref().unwrap().0), Arg::V(u)], None));
        } else {
            let q = known[known.len() - 1 - g.r.idx(known.len().min(6))].clone();
            let e = &s.c;
            let q = match if s.no_sums() { g.r.below(3) } else { g.r.below(10) } {
                0 => q,
                1 => e.neg(&q),
                2 => g.some_point(s),
                3..=5 => {
                    let v = s.small();
                    if v.is_empty() {
                        e.neg(&q)
                    } else {
                        let t = v[g.r.idx(v.len())].clone();
                        e.add(&q, &t)
                    }
                }
                6 => e.add(&q, &q),
                7 => e.add(&q, &e.gen()),
                8 => e.id(),
                _ => g.some_point(s),
            };
            known.push(q.clone());
            let q = match q {
                Some((x, y)) => g.op("ptl", "", vec![Arg::V(c), Gen::l(x), Gen::l(y)], None),
                None => g.op("id", "", vec![Arg::V(c)], None),
            };
            made.push(q);
            // the same value in other coordinates
            let q = if g.r.p(1, 3) && !s.no_sums() {
                let y = *fixed.get_or_insert(q);
                let t = g.op("add", "rr", vec![Arg::V(q), Arg::V(y)], None);
                let u = g.op("sub", "rr", vec![Arg::V(t), Arg::V(y)], None);
                made.extend([t, u]);
                u
            } else {
                q
            };
            let y = *fixed.get_or_insert(q);
            match how[g.r.idx(how.len())] {
                0 | 1 => {
                    let z = g.r.below(2);
                    let b = g.op("enc", "", vec![Arg::V(q), Gen::l(z)], None);
                    made.push(b);
                    made.push(g.op("dec", "", vec![Arg::V(c), Arg::V(b)], None));
                }
                2 => made.push(g.op("normed", "", vec![Arg::V(q)], None)),
                3 | 4 => {
                    let (a, b) = if g.r.p(1, 2) { (q, y) } else { (y, q) };
                    made.push(g.op("add", "rr", vec![Arg::V(a), Arg::V(b)], None));
                }
                5 => made.push(g.op("smul", "rr", vec![Arg::V(q), Arg::V(k)], None)),
                6 => {
                    g.op("eq", "", vec![Arg::V(q), Arg::V(y)], None);
                    g.op("iszero", "", vec![Arg::V(q)], None);
                }
                21 => {
                    let Some((id, _)) = map else { return };
                    let m = g.op("push", "", vec![Arg::V(id), Arg::V(q)], None);
                    made.push(m);
                    made.push(g.op("pull", "", vec![Arg::V(id), Arg::V(m)], None));
                }
                _ => {
                    made.push(g.op("neg", "r", vec![Arg::V(q)], None));
                    made.push(g.op("sub", "rr", vec![Arg::V(y), Arg::V(q)], None));
                }
            }
        }
        let fx = fixed;
        alive.extend(made.into_iter().filter(|x| Some(*x) != fx));
        if keep > 0 {
            while alive.len() as u64 > (keep - 1) * 12 {
                let i = g.r.idx(alive.len());
                let x = alive.swap_remove(i);
                g.op("drop", "", vec![Arg::V(x)], None);
            }
        }
    }
}
/// a long-lived field meets others: some its equals, some not, one after the other in the same place
fn meetings(g: &mut Gen) {
    g.plan.set("heap", 0);
    g.plan.pol = Pol::None;
    let fam = *g.r.pick(model::primes::FAMILIES);
    let pick = |g: &mut Gen| -> model::U { g.r.pick(fam.1).parse().unwrap() };
    let p = pick(g);
    let f = g.op("fld", "", vec![Gen::l(&p)], None);
    let n = g.num(&p);
    let x = g.op("elt", "", vec![Arg::V(f), Gen::l(n)], None);
    g.who = Who::Task(0);
    let k = g.r.logu(3, 6);
    let ways = [*g.r.pick(&["add", "mul", "sub", "eq", "div"]), *g.r.pick(&["add", "eq"])];
    let share = 1 + g.r.below(3);
    for _ in 0..k {
        let q = if g.r.p(share, 4) { p.clone() } else { pick(g) };
        let f = g.op("fld", "", vec![Gen::l(&q)], None);
        let n = g.num(&q);
        let y = g.op("elt", "", vec![Arg::V(f), Gen::l(n)], None);
        let mut v = vec![f, y];
        for _ in 0..1 + g.r.below(2) {
            let o = ways[g.r.idx(2)];
            let (a, b) = if g.r.p(1, 2) { (x, y) } else { (y, x) };
            let z = g.op(o, "rr", vec![Arg::V(a), Arg::V(b)], None);
            if o != "eq" {
                v.push(z);
            }
        }
        if g.r.p(1, 4) {
            v.push(g.op("sq", "r", vec![Arg::V(y), Gen::l("2")], None));
            g.op("issq", "", vec![Arg::V(y)], None);
        }
        while !v.is_empty() {
            let i = g.r.idx(v.len());
            let x = v.swap_remove(i);
            g.op("drop", "", vec![Arg::V(x)], None);
        }
    }
}
/// a field, its cache and its elements come and go; the next one may lie at the same address
fn churn(g: &mut Gen) {
    let fam = *g.r.pick(model::primes::FAMILIES);
    for _ in 0..1 + g.r.below(3) {
        let p: model::U = g.r.pick(fam.1).parse().unwrap();
        let f = g.op("fld", "", vec![Gen::l(&p)], None);
        let n = g.num(&p);
        let e = g.op("elt", "", vec![Arg::V(f), Gen::l(n)], None);
        let q = g.op("sq", "r", vec![Arg::V(e), Gen::l("2")], None);
        let mut v = vec![f, e, q];
        // everything whose answer follows from the field alone
        for _ in 0..1 + g.r.below(3) {
            let k = g.num(&p).trim_start_matches('-').to_string();
            match g.r.below(9) {
                0..=2 => v.push(g.op("sqrt", "", vec![Arg::V(q)], None)),
                3 | 4 => {
                    let x = if g.r.p(1, 2) { q } else { e };
                    g.op("issq", "", vec![Arg::V(x)], None);
                }
                5 => v.push(g.op("rinv", "", vec![Arg::V(e), Gen::l("1")], None)),
                6 => v.push(g.op("powu", "", vec![Arg::V(e), Gen::l(k)], None)),
                7 => v.push(g.op("div", "rr", vec![Arg::V(q), Arg::V(e)], None)),
                _ => {
                    g.op("sgn", "", vec![Arg::V(e)], None);
                    g.op("tobe", "", vec![Arg::V(e)], None);
                }
            }
        }
        while !v.is_empty() {
            let i = g.r.idx(v.len());
            let x = v.swap_remove(i);
            g.op("drop", "", vec![Arg::V(x)], None);
        }
    }
}
fn c06(g: &mut Gen) {
    g.budget = 15_000;
    let parts = 1 + g.r.below(2);
    g.universe(parts, 6);
    g.cross = 300;
    let n = *g.r.pick(&[1, 1, 2, 3]);
    let p = prof(&[(InPlace, 40), (Clone, 15), (Norm, 12), (PArith, 14), (FArith, 14), (Sqrt, 6), (PEnc, 8), (PMul, 2), (Drop, 6)]);
    let k = 6 + g.r.below(20);
    tasks(g, n, k / n, k / n + 4, &p);
    g.plan.pol = g.policy(10, 10);
    g.plan.set("snap", 1);
    if g.r.p(2, 3) {
        g.plan.set("deep", 1);
    }
}
fn c07(g: &mut Gen) {
    g.budget = 40_000;
    let n = 1 + g.r.below(3);
    for _ in 0..n {
        let s = if g.r.p(1, 4) {
            g.any_shipped()
        } else if g.r.p(1, 10) {
            let t = spec::toys(Kind::M);
            spec::get(&format!("{}~b", t[g.r.idx(t.len())].name)).unwrap()
        } else {
            g.toy()
        };
        let k = 1 + g.r.below(4);
        g.curve(s, k);
    }
    if g.r.p(1, 2) {
        g.fields(1, 2);
    }
    let p: &[(Cat, u32)] = &[(PEnc, 20), (Corrupt, 40), (PDec, 45), (FSer, 10), (FDec, 14), (FMake, 4), (PNew, 6), (PArith, 6), (PMul, 1), (Misuse, 3), (SSer, 2), (SMake, 3), (Norm, 2)];
    let t = *g.r.pick(&[1, 1, 1, 2, 3]);
    g.cross = 200;
    g.who = Who::Setup;
    g.random_ops(6, &[(PEnc, 10), (FSer, 4)]);
    tasks(g, t, 20 / t, 60 / t, p);
    g.plan.pol = if t == 1 { Pol::None } else { g.policy(10, 10) };
    g.plan.set("decode", 1);
}
fn c08(g: &mut Gen) {
    g.budget = 40_000;
    let nt = *g.r.pick(&[1u64, 2, 2, 3, 4, 6]);
    let kind = g.r.below(10);
    let mul = kind == 9 || kind == 7 && g.r.p(1, 2);
    let items = 2 + g.r.below(14);
    if kind >= 7 {
        // elements or scalars
        if kind == 8 {
            let s = if g.r.p(1, 4) { g.any_shipped() } else { g.toy() };
            let c = g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
            for _ in 0..items {
                let k = if g.r.p(1, 2) { g.scalar_lit(s) } else { g.num(&s.c.r) };
                g.op("sc", "", vec![Arg::V(c), Gen::l(k)], Some(Ty::S(s)));
            }
        } else {
            let p = g.prime();
            let quad = p.bit(0) && p.bit(1) && g.r.p(1, 3);
            for _ in 0..1 + g.r.below(2) {
                g.op(if quad { "fld2" } else { "fld" }, "", vec![Gen::l(&p)], Some(if quad { Ty::G(p.clone()) } else { Ty::F(p.clone()) }));
            }
            for _ in 0..items {
                let f = g.find(&|t| matches!(t, Ty::F(_) | Ty::G(_))).unwrap();
                if quad {
                    let v = format!("{},{}", g.num(&p), g.num(&p));
                    g.op("estr", "", vec![Arg::V(f.id), Gen::l(v)], Some(Ty::H(p.clone())));
                } else {
                    let v = g.num(&p);
                    g.op("elt", "", vec![Arg::V(f.id), Gen::l(v)], Some(Ty::E(p.clone())));
                }
            }
        }
    } else {
        let s = if g.r.p(1, 5) { g.any_shipped() } else { g.toy() };
        let c1 = g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
        let c2 = if g.r.p(1, 2) { g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s))) } else { c1 };
        // few distinct points, so that equal and opposite partial sums are common
        let base: Vec<Option<(model::U, model::U)>> = {
            let n = 1 + g.r.below(4);
            (0..n).map(|_| g.some_point(s)).collect()
        };
        for _ in 0..items {
            let c = if g.r.p(1, 2) { c1 } else { c2 };
            let mut p = base[g.r.idx(base.len())].clone();
            if g.r.p(1, 3) {
                p = s.c.neg(&p);
            }
            if g.r.p(1, 8) {
                p = s.c.add(&p, &p);
            }
            let id = match p {
                Some((x, y)) => g.op("ptl", "", vec![Arg::V(c), Gen::l(x), Gen::l(y)], Some(Ty::P(s))),
                None => g.op("id", "", vec![Arg::V(c)], Some(Ty::P(s))),
            };
            if g.r.p(1, 4) {
                // another representation of the same point
                let q = base[g.r.idx(base.len())].clone();
                if let Some((x, y)) = q {
                    let q = g.op("ptl", "", vec![Arg::V(c), Gen::l(x), Gen::l(y)], None);
                    let t = g.op("add", "rr", vec![Arg::V(id), Arg::V(q)], None);
                    g.op("sub", "rr", vec![Arg::V(t), Arg::V(q)], Some(Ty::P(s)));
                }
            }
        }
        for _ in 0..1 + g.r.below(3) {
            let k = if g.r.p(1, 2) { g.scalar_lit(s) } else { g.num(&s.c.r) };
            g.op("sc", "", vec![Arg::V(c1), Gen::l(k)], Some(Ty::S(s)));
        }
    }
    if mul {
        g.plan.set("bag", "mul");
    } else {
        g.plan.set("bag", "add");
    }
    // everybody puts some and reduces some
    let items: Vec<_> = g.regs.iter().filter(|r| matches!(r.ty, Ty::P(_) | Ty::E(_) | Ty::H(_)) || kind == 8 && matches!(r.ty, Ty::S(_))).map(|r| (r.id, r.ty.clone())).collect();
    let scal: Vec<u32> = g.regs.iter().filter(|r| matches!(r.ty, Ty::S(_))).map(|r| r.id).collect();
    let shipped = matches!(items.first(), Some((_, Ty::P(s))) if s.shipped);
    let want_elts = kind >= 7;
    let mut todo: Vec<(u32, bool)> = items.iter().filter(|(_, t)| want_elts || matches!(t, Ty::P(_))).map(|(i, _)| (*i, !want_elts && !scal.is_empty() && g.r.p(1, if shipped { 12 } else { 4 }))).collect();
    for i in (1..todo.len()).rev() {
        let j = g.r.idx(i + 1);
        todo.swap(i, j);
    }
    let n = todo.len();
    for (i, (id, m)) in todo.into_iter().enumerate() {
        g.who = Who::Task((i as u64 % nt) as u8);
        if m {
            let k = scal[g.r.idx(scal.len())];
            g.op("bmul", "rr", vec![Arg::V(id), Arg::V(k)], None);
        } else {
            // as it is, or its negative
            let v = if g.r.p(1, 4) { *g.r.pick(&["r", "v"]) } else { "" };
            g.op("bput", v, vec![Arg::V(id)], None);
        }
        if g.r.p(1, 2) {
            bred(g);
        }
    }
    for t in 0..nt {
        g.who = Who::Task(t as u8);
        for _ in 0..g.r.below(2 + n as u64 / nt) {
            bred(g);
        }
    }
    g.who = Who::Final;
    let (a, b) = (g.r.below(100), g.r.below(100));
    g.op("bdone", "rr", vec![Gen::l(a), Gen::l(b)], None);
    // failing workers
    let m = g.plan.ops.len();
    for _ in 0..g.r.below(5) {
        let i = g.r.idx(m);
        let a = 1 + g.r.logu(0, 7);
        let o = &mut g.plan.ops[i];
        if matches!(o.name.as_str(), "bput" | "bmul" | "bred") {
            o.alloc = a;
        }
    }
    g.plan.pol = g.policy(50, 20);
}
fn bred(g: &mut Gen) {
    let (a, b) = (g.r.below(64), g.r.below(64));
    let v = *g.r.pick(&["rr", "rr", "rv", "vr", "vv"]);
    g.op("bred", v, vec![Gen::l(a), Gen::l(b)], None);
}
fn c10(g: &mut Gen) {
    g.budget = 10_000;
    let parts = 1 + g.r.below(2);
    g.universe(parts, 20);
    g.cross = 200;
    let n = *g.r.pick(&[1, 1, 1, 2, 3]);
    let p = prof(&[(Print, 150), (Sqrt, 6), (PMul, 2)]);
    tasks(g, n, 10 / n, 40 / n, &p);
    g.plan.pol = g.policy(20, 10);
    let _ = spec::reg();
}

/// The same objects, used over and over: other values every round, a few results kept.
fn c11(g: &mut Gen) {
    g.budget = 3_000;
    let shipped = g.r.p(1, 12);
    if !shipped && g.r.p(1, 3) {
        let e = 1 + g.r.below(3);
        g.fields(1, e);
    } else {
        let s = if shipped { g.any_shipped() } else { g.toy() };
        g.curve(s, 2);
        shared_maps(g);
    }
    let old = g.regs.clone();
    g.cross = 150;
    g.cbs = vec!["panic", "yield"];
    g.p_cb = 200;
    let n = if shipped { 1 } else { *g.r.pick(&[1, 1, 1, 2, 3]) };
    let rounds = 1 << if n == 1 { g.r.range(7, 10) } else { g.r.range(7, 8) };
    g.plan.set("wear", 1);
    g.plan.set("rounds", rounds);
    if !g.r.p(1, 4) {
        g.plan.set("lasting", 1);
    }
    for t in 0..n {
        g.who = Who::Task(t as u8);
        let mut made: Vec<Reg> = vec![];
        // values of every kind that differ from round to round
        for r in &old {
            let k0 = g.regs.len();
            match &r.ty {
                Ty::F(p) => {
                    let x = rbig(&mut g.r, p);
                    let e = g.op("elt", "", vec![Arg::V(r.id), Gen::l(x)], Some(Ty::E(p.clone())));
                    match g.r.below(5) {
                        0 | 1 => {
                            let q = g.op("sq", "r", vec![Arg::V(e), Gen::l("2")], Some(Ty::E(p.clone())));
                            g.op("sqrt", "", vec![Arg::V(q)], Some(Ty::E(p.clone())));
                        }
                        2 => {
                            g.op("issq", "", vec![Arg::V(e)], None);
                        }
                        3 => {
                            g.op("rinv", "", vec![Arg::V(e), Gen::l("1")], Some(Ty::E(p.clone())));
                        }
                        _ => {}
                    }
                    if g.r.p(1, 6) {
                        g.op("fldv", "", vec![Gen::l(p)], None);
                    }
                }
                Ty::G(p) => {
                    let (x, y) = (rbig(&mut g.r, p), rbig(&mut g.r, p));
                    g.op("estr", "", vec![Arg::V(r.id), Gen::l(format!("{},{}", x, y))], Some(Ty::H(p.clone())));
                }
                Ty::C(s) => {
                    let k = rbig(&mut g.r, &s.c.r);
                    let k = g.op("sc", "", vec![Arg::V(r.id), Gen::l(k)], Some(Ty::S(s)));
                    let q = g.op("gen", "", vec![Arg::V(r.id)], Some(Ty::P(s)));
                    if g.r.p(3, 4) {
                        g.op("smul", "rr", vec![Arg::V(q), Arg::V(k)], Some(Ty::P(s)));
                    }
                    if g.r.p(1, 3) {
                        g.op("cur", "", vec![Gen::l(&s.name)], Some(Ty::C(s)));
                    }
                    // letters, spoiled on the way or not
                    if g.r.p(1, 3) {
                        let m = g.op("smul", "rr", vec![Arg::V(q), Arg::V(k)], Some(Ty::P(s)));
                        let z = g.r.below(2);
                        let b = g.op("enc", "", vec![Arg::V(m), Gen::l(z)], Some(Ty::BC(s)));
                        let b = if g.r.p(3, 4) {
                            let m = g.mutation();
                            g.op("corrupt", "", vec![Arg::V(b), Gen::l(m)], Some(Ty::BC(s)))
                        } else {
                            b
                        };
                        g.op("dec", "", vec![Arg::V(r.id), Arg::V(b)], Some(Ty::P(s)));
                    }
                }
                _ => {}
            }
            made.extend(g.regs[k0..].iter().cloned());
        }
        // maps of those values
        for r in &old {
            if let Ty::K(_, s, p) = &r.ty {
                if let Some(u) = made.iter().rev().find(|x| matches!(&x.ty, Ty::E(q) if q == p)).map(|x| x.id) {
                    g.op("map", "", vec![Arg::V(r.id), Arg::V(u)], Some(Ty::P(s)));
                }
            }
        }
        let p = prof(&[(Sqrt, 20), (Drop, 0), (InPlace, 3), (NewInst, 8), (PDec, 15), (PEnc, 15), (Corrupt, 8), (UserMap, 4), (Print, 5), (Misuse, 5), (Show, 5), (FCmp, 10), (PCmp, 10)]);
        let k = g.r.range(3, 10);
        g.random_ops(k, &p);
        // running totals
        for _ in 0..g.r.below(6) {
            let Some(a) = old.get(g.r.idx(old.len().max(1))) else { break };
            if !matches!(a.ty, Ty::E(_) | Ty::H(_) | Ty::P(_) | Ty::S(_)) {
                continue;
            }
            let Some(b) = g.regs.iter().rev().find(|x| !x.gone && x.ty == a.ty && !old.iter().any(|o| o.id == x.id)).map(|x| x.id) else { continue };
            let op = if !matches!(a.ty, Ty::P(_)) && g.r.p(1, 3) { "mul" } else if g.r.p(1, 4) { "sub" } else { "add" };
            let s = g.op(op, "rr", vec![Arg::V(a.id), Arg::V(b)], None);
            g.op("keep", "", vec![Arg::V(a.id), Arg::V(s)], None);
        }
    }
    faults(g, 2);
    g.plan.pol = if n == 1 { Pol::None } else { g.policy(10, 10) };
    if let Pol::Random { mean, .. } = &mut g.plan.pol {
        *mean = (*mean).max(512);
    }
}
// -------------------------------------------------------------------- judging

#[derive(Clone, Debug, PartialEq)]
pub struct Finding {
    pub class: String,
    pub op: u32,
    pub detail: String,
}
pub type Solo<'a> = &'a mut dyn FnMut(&str) -> String;

/// is this kind of trouble a violation of `prop`?
fn relevant(prop: &str, class: &str) -> bool {
    match class {
        "CRASH" | "HEAP" => true,
        "DEADLOCK" | "NOPROGRESS" | "HANG" => !matches!(prop, "C04" | "C06" | "C11"),
        "MISMATCH" => matches!(prop, "C01" | "C03" | "C05" | "C06"),
        "TORN" | "OPERAND" => matches!(prop, "C03" | "C10") || prop == "C06" && class == "OPERAND",
        "REENTRY" => matches!(prop, "C01" | "C05" | "C10" | "C03"),
        "ALIAS" => prop == "C06",
        "LEAK" => prop == "C04",
        "DECODE" | "BLOWUP" => prop == "C07",
        "PARTIAL" | "TOTAL" | "WORKER" => prop == "C08",
        "SINK" | "PREFIX" | "TEXT" | "AFTER" => prop == "C10",
        "NOTSYNC" => prop == "C01",
        "NET" => prop == "C09",
        "WEAR" => prop == "C11",
        "VALUE" => true,
        _ => false,
    }
}
/// harness trouble: no verdict
pub fn broken(o: &Outcome) -> Option<String> {
    match &o.end {
        End::Exit(n) => Some(format!("run ended with status {} {:?}", n, o.lines.last())),
        End::Stuck => Some("run stopped by the wall clock".into()),
        End::Fatal => o.lines.iter().find(|l| l.starts_with("X HARNESS")).cloned(),
        _ => None,
    }
}
fn keep(s: &str, v: &[&str]) {
    if std::env::var("RSIM_KEEP").is_ok() {
        use std::io::Write;
        let f = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/foreign.txt");
        if let Ok(mut f) = f {
            let _ = writeln!(f, "solo {} | {}", s, v.join(" | "));
        }
    }
}
pub fn judge(prop: &str, o: &Outcome, solo: Solo, foreign: &mut u64) -> Option<Finding> {
    let mut out: Option<Finding> = None;
    let mut put = |f: Finding| {
        if out.is_none() && relevant(prop, &f.class) {
            out = Some(f);
        }
    };
    match &o.end {
        End::Crash(s) => put(Finding { class: "CRASH".into(), op: 0, detail: format!("the process died of signal {}", s) }),
        End::Hang => put(Finding { class: "HANG".into(), op: 0, detail: "the run used up its processor time".into() }),
        _ => {}
    }
    let mut cache: BTreeMap<String, String> = BTreeMap::new();
    for l in &o.lines {
        if let Some(r) = l.strip_prefix("X ") {
            let mut it = r.splitn(3, ' ');
            let class = it.next().unwrap_or("").to_string();
            let op = it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            put(Finding { class, op: (op % crate::machine::ROUND) as u32, detail: it.next().unwrap_or("").into() });
        } else if let Some((nest, r)) = l.strip_prefix("S ").map(|r| (false, r)).or(l.strip_prefix("N ").map(|r| (true, r))) {
            let class = if nest { "REENTRY" } else { "MISMATCH" };
            if !relevant(prop, class) {
                continue;
            }
            let Some((id, rest)) = r.split_once(' ') else { continue };
            let v: Vec<&str> = rest.split('\x1f').collect();
            if v.len() < 3 {
                continue;
            }
            let s = cache.entry(v[0].into()).or_insert_with(|| solo(v[0])).clone();
            if s == "SKIP" || s == "NOFRESH" || s == "?" || s.starts_with("END") {
                *foreign += 1;
                keep(&s, &v);
                continue;
            }
            if s == v[1] {
                if !v[2].is_empty() {
                    *foreign += 1;
                    keep(&s, &v);
                }
                continue;
            }
            put(Finding { class: class.into(), op: id.parse().unwrap_or(0), detail: format!("{} gave {} but alone {}", v[0], v[1], s) });
        } else if let Some(r) = l.strip_prefix("L ") {
            let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
            // growing in every round after the first
            let steady = v.len() >= 3 && v[1..].windows(2).all(|w| w[1] > w[0]);
            if steady || v.len() >= 64 && keeps_growing(&v) {
                put(Finding { class: "LEAK".into(), op: 0, detail: format!("live bytes after each round: {}", r) });
            }
        }
    }
    out
}
/// every part of the history holds more than all of an earlier one
pub fn keeps_growing(v: &[u64]) -> bool {
    let n = v.len();
    let d = n as u64 / 16 + 16;
    let max = |v: &[u64]| v.iter().copied().max().unwrap_or(0);
    let min = |v: &[u64]| v.iter().copied().min().unwrap_or(0);
    if min(&v[n / 2..]) > max(&v[n / 8..n / 4]) + d && min(&v[n - n / 4..]) > max(&v[n / 4..n / 2]) + d && min(&v[n - n / 8..]) > max(&v[n / 2..n - n / 4]) + d {
        return true;
    }
    // in leaps, each after twice as many rounds as the one before
    n >= 64 && (0..4).all(|k| {
        let e = n >> k;
        min(&v[e - e.div_ceil(24)..e]) > max(&v[..e / 2]) + 16
    })
}
/// rounds after which more memory was held than before (C04)
pub fn growth(o: &Outcome) -> Vec<usize> {
    for l in &o.lines {
        if let Some(r) = l.strip_prefix("L ") {
            let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
            return (2..v.len()).filter(|&i| v[i] > v[i - 1]).collect();
        }
    }
    vec![]
}
