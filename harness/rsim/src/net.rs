//! Independent parties: nodes with their own instances of the library, their
//! own disks, and a network between them. Only bytes cross.
//!
//! A plan is a data-flow: `rule.<what> <node> <out> <to mask> <format> <arg> t<tag>...`
//! runs at a node once it knows the values it needs, stores the encoding of
//! what it computed and sends it to others. The reference model computes the
//! same values. Faults are separate operations.
use crate::gen::{rbig, Gen};
use crate::ops::{self, Dec, A, O};
use crate::plan::{Arg, Op, Plan};
use crate::rep;
use crate::spec::{self, S};
use crate::val::*;
use model::{modp, Kind, F, F2, P, U};
use num_traits::{One, Zero};
use simrt::{heap, sched};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};

const LIMIT: u64 = 2_000_000_000;
const MS: u64 = 1_000_000;

struct Rule {
    id: u32,
    what: String,
    node: usize,
    out: u32,
    to: u64,
    fmt: char,
    arg: String,
    needs: Vec<u32>,
}
impl Rule {
    fn parse(o: &Op) -> Option<Rule> {
        let l = |i: usize| match o.args.get(i) {
            Some(Arg::L(l)) => Some(l.as_str()),
            _ => None,
        };
        let mut needs = vec![];
        for i in 5..o.args.len() {
            needs.push(l(i)?.strip_prefix('t')?.parse().ok()?);
        }
        Some(Rule {
            id: o.id,
            what: o.var.clone(),
            node: l(0)?.parse().ok()?,
            out: l(1)?.parse().ok()?,
            to: l(2)?.parse().ok()?,
            fmt: l(3)?.chars().next()?,
            arg: l(4)?.into(),
            needs,
        })
    }
}
/// what the model says a value is
#[derive(Clone, PartialEq)]
enum MV {
    P(P),
    E(U),
    H(U, U),
    S(U),
    T(String),
}
impl MV {
    fn text(&self) -> String {
        match self {
            MV::P(None) => "inf".into(),
            MV::P(Some((x, y))) => format!("({}, {})", x, y),
            MV::E(x) => format!("element {}", x),
            MV::H(x, y) => format!("element {}+i*{}", x, y),
            MV::S(x) => format!("scalar {}", x),
            MV::T(t) => t.clone(),
        }
    }
}
/// something that stops a handler
enum Stop {
    /// memory ran out: the process dies
    Oom,
    /// the library failed without a reason
    Bad,
    /// the plan makes no sense here
    Skip,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Start(usize),
    Msg { src: usize, dst: usize, tag: u32, bytes: Vec<u8> },
    Ack { src: usize, dst: usize, tag: u32 },
    Timer { node: usize, life: u32 },
}
#[derive(Default)]
struct Disk {
    durable: Vec<u8>,
    pending: Vec<u8>,
}
impl Disk {
    fn append(&mut self, tag: u32, b: &[u8]) {
        let mut r = vec![];
        r.extend((b.len() as u32).to_le_bytes());
        r.extend(tag.to_le_bytes());
        r.extend(sum(tag, b).to_le_bytes());
        r.extend(b);
        self.pending.extend(r);
    }
    fn sync(&mut self) {
        let p = std::mem::take(&mut self.pending);
        self.durable.extend(p);
    }
    fn records(&self) -> (Vec<(u32, Vec<u8>)>, usize) {
        let d = &self.durable;
        let mut v = vec![];
        let mut i = 0;
        while i + 16 <= d.len() {
            let n = u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as usize;
            let tag = u32::from_le_bytes(d[i + 4..i + 8].try_into().unwrap());
            let c = u64::from_le_bytes(d[i + 8..i + 16].try_into().unwrap());
            if i + 16 + n > d.len() || sum(tag, &d[i + 16..i + 16 + n]) != c {
                break;
            }
            v.push((tag, d[i + 16..i + 16 + n].to_vec()));
            i += 16 + n;
        }
        (v, i)
    }
}
fn sum(tag: u32, b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ tag as u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^ h >> 29
}
const ACKED: u32 = 1 << 30;

/// the objects of a running process
struct Proc {
    wire: V,
    own: Option<(V, V)>,
    field: V,
    quad: Option<V>,
    vals: BTreeMap<u32, V>,
}
struct Node {
    spec: S,
    twist: bool,
    up: bool,
    life: u32,
    disk: Disk,
    proc: Option<Proc>,
    /// mirror of the disk: what this process knows
    know: BTreeMap<u32, Vec<u8>>,
    order: Vec<u32>,
    acked: BTreeSet<(u32, usize)>,
    events: u64,
    tries: u32,
    armed: bool,
    slow: u64,
    skew: u64,
    failed: BTreeSet<u32>,
}
struct Crash {
    node: usize,
    event: u64,
    point: u64,
    down: u64,
    disk: String,
}
struct Net {
    rules: Vec<Rule>,
    nodes: Vec<Node>,
    wire: S,
    q: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    seed: u64,
    links: BTreeMap<(usize, usize), u64>,
    drops: Vec<(usize, usize, u64, u64)>,
    dups: Vec<(usize, usize, u64)>,
    delays: Vec<(usize, usize, u64, u64)>,
    parts: Vec<(u64, u64, u64)>,
    crashes: Vec<Crash>,
    ooms: Vec<(usize, u64, u64)>,
    expected: BTreeMap<u32, MV>,
    maps: BTreeMap<String, P>,
    /// allocation of the current handler that will fail (0: none)
    oom: u64,
    key: u64,
    now: u64,
    bad: u64,
}

pub fn run(p: &Plan) {
    let p: &'static Plan = unsafe { &*(p as *const Plan) };
    sched::spawn(Box::new(move || {
        if let Some(mut n) = Net::new(p) {
            n.go();
        }
    }));
    sched::run_all(80_000);
    rep::rep().steps = sched::now();
}

impl Net {
    fn new(p: &Plan) -> Option<Net> {
        let wire = spec::get(p.flag("wire")?)?;
        let mut n = Net {
            rules: vec![],
            nodes: vec![],
            wire,
            q: BinaryHeap::new(),
            seq: 0,
            seed: p.seed,
            links: BTreeMap::new(),
            drops: vec![],
            dups: vec![],
            delays: vec![],
            parts: vec![],
            crashes: vec![],
            ooms: vec![],
            expected: BTreeMap::new(),
            maps: BTreeMap::new(),
            oom: 0,
            key: 0,
            now: 0,
            bad: 0,
        };
        for o in &p.ops {
            let num = |i: usize| -> u64 {
                match o.args.get(i) {
                    Some(Arg::L(l)) => l.parse().unwrap_or(0),
                    _ => 0,
                }
            };
            let lit = |i: usize| -> &str {
                match o.args.get(i) {
                    Some(Arg::L(l)) => l,
                    _ => "",
                }
            };
            match o.name.as_str() {
                "node" => {
                    let s = spec::get(lit(0))?;
                    n.nodes.push(Node {
                        spec: s,
                        twist: s.name != wire.name,
                        up: false,
                        life: 0,
                        disk: Disk::default(),
                        proc: None,
                        know: BTreeMap::new(),
                        order: vec![],
                        acked: BTreeSet::new(),
                        events: 0,
                        tries: 0,
                        armed: false,
                        slow: num(1),
                        skew: num(2).max(1),
                        failed: BTreeSet::new(),
                    });
                    if num(1) > 0 {
                        rep::add(rep::NSKEW, 1);
                    }
                }
                "rule" => {
                    let r = Rule::parse(o)?;
                    // every value has one producer, and the flow no cycles
                    if !n.rules.iter().any(|x| x.out == r.out) && r.needs.iter().all(|t| n.rules.iter().any(|x| x.out == *t)) {
                        n.rules.push(r);
                    }
                }
                "drop" => n.drops.push((num(0) as usize, num(1) as usize, num(2), num(3))),
                "dup" => n.dups.push((num(0) as usize, num(1) as usize, num(2))),
                "delay" => n.delays.push((num(0) as usize, num(1) as usize, num(2), num(3))),
                "part" => n.parts.push((num(0), num(1), num(2))),
                "crash" => n.crashes.push(Crash { node: num(0) as usize, event: num(1), point: num(2), down: num(3), disk: lit(4).into() }),
                "oom" => n.ooms.push((num(0) as usize, num(1), num(2))),
                _ => {}
            }
        }
        let k = n.nodes.len();
        n.rules.retain(|r| r.node < k);
        // dropping a rule's node may leave its needs without a producer
        loop {
            let outs: BTreeSet<u32> = n.rules.iter().map(|r| r.out).collect();
            let before = n.rules.len();
            n.rules.retain(|r| r.needs.iter().all(|t| outs.contains(t)));
            if n.rules.len() == before {
                break;
            }
        }
        Some(n)
    }
    fn push(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.push(Reverse((t, self.seq, e)));
    }
    fn violation(&mut self, id: u32, parts: &[&str]) {
        self.bad += 1;
        let n = heap::num(id as u64);
        let mut v: Vec<&str> = vec!["X", "NET", &n];
        v.extend(parts);
        rep::line(&v);
    }

    // ---------------------------------------------------------- the library
    fn call(&mut self, name: &str, var: &str, args: &mut [A]) -> R<O> {
        rep::add(rep::OPS, 1);
        sched::enter(LIMIT, self.oom, self.key);
        let r = catch_unwind(AssertUnwindSafe(|| ops::exec(name, var, args)));
        let st = sched::leave();
        if self.oom > 0 {
            if st.not_fired == 0 {
                self.oom = 0;
                rep::add(rep::AFAIL, 1);
                // whatever came of it: the process is gone
                if let Ok(Ok(O::V(v))) = r {
                    self.dispose(v);
                }
                return Err(Stop::Oom);
            }
            self.oom = st.not_fired;
        }
        match r {
            Ok(Ok(o)) => Ok(o),
            Ok(Err(_)) => Err(Stop::Skip),
            Err(_) => {
                let k = self.key as u32;
                let mut what = name.to_string();
                for a in args.iter() {
                    what.push(' ');
                    match a {
                        A::R(v) => what.push_str(&catch_unwind(AssertUnwindSafe(|| snapshot(v, false))).unwrap_or_default()),
                        A::L(l) => what.push_str(l),
                        _ => {}
                    }
                }
                self.violation(k, &["the library panicked in", &what]);
                Err(Stop::Bad)
            }
        }
    }
    fn val(&mut self, name: &str, var: &str, args: &mut [A]) -> R<V> {
        match self.call(name, var, args)? {
            O::V(v) => Ok(v),
            O::T(t) => {
                let k = self.key as u32;
                self.violation(k, &[name, "gave", &t, "instead of a value"]);
                Err(Stop::Bad)
            }
            O::U => Err(Stop::Skip),
        }
    }
    fn text(&mut self, name: &str, args: &mut [A]) -> R<String> {
        match self.call(name, "", args)? {
            O::T(t) => Ok(t),
            _ => Err(Stop::Skip),
        }
    }
    fn bytes(&mut self, name: &str, args: &mut [A]) -> R<Vec<u8>> {
        match self.val(name, "", args)? {
            V::B(b) => Ok(b),
            _ => Err(Stop::Skip),
        }
    }
    fn dispose(&mut self, v: V) {
        sched::enter(LIMIT, 0, self.key);
        let r = catch_unwind(AssertUnwindSafe(move || drop(v)));
        sched::leave();
        if r.is_err() {
            let k = self.key as u32;
            self.violation(k, &["dropping a handle panicked"]);
        }
    }
    fn kill(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].proc.take() {
            let mut v = vec![p.wire, p.field];
            if let Some((a, b)) = p.own {
                v.push(a);
                v.push(b);
            }
            v.extend(p.quad);
            v.extend(p.vals.into_values());
            for x in v {
                self.dispose(x);
            }
        }
    }
    /// a new process: new instances, everything it knew decoded again
    fn boot(&mut self, n: usize) -> R<()> {
        let (wire, s, twist) = (self.wire, self.nodes[n].spec, self.nodes[n].twist);
        let w = self.val("cur", "", &mut [A::L(&wire.name)])?;
        let f = self.val("fieldof", "", &mut [A::R(&w)])?;
        let own = if twist {
            let c = self.val("cur", "", &mut [A::L(&s.name)])?;
            let t = if s.kind() == Kind::T { s } else { wire };
            let m = self.val("rat", "", &mut [A::L(&rat_for(t))])?;
            Some((c, m))
        } else {
            None
        };
        let p = &wire.c.f.p;
        let quad = if (p % 4u32) == U::from(3u32) && self.rules.iter().any(|r| r.what.starts_with('q')) { Some(self.val("fld2", "", &mut [A::L(&p.to_string())])?) } else { None };
        let mut pr = Proc { wire: w, own, field: f, quad, vals: BTreeMap::new() };
        let (recs, _) = self.nodes[n].disk.records();
        let mut last: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        let mut order = vec![];
        let mut acked = BTreeSet::new();
        for (tag, b) in recs {
            if tag & ACKED != 0 {
                acked.insert((tag & !ACKED, b[0] as usize));
                continue;
            }
            if last.insert(tag, b).is_none() {
                order.push(tag);
            }
        }
        for (tag, b) in &last {
            let v = self.read(&pr, *tag, b)?;
            if let Some(v) = v {
                pr.vals.insert(*tag, v);
            }
        }
        let nd = &mut self.nodes[n];
        nd.order = order;
        nd.acked = acked;
        nd.know = last;
        nd.proc = Some(pr);
        Ok(())
    }
    /// decode what came from a disk or the network, and compare with what was written
    fn read(&mut self, p: &Proc, tag: u32, b: &[u8]) -> R<Option<V>> {
        let Some((&k, b)) = b.split_first() else { return Err(Stop::Skip) };
        rep::add(rep::DEC, 1);
        // running sums carry the set of what they include
        let b = if k == b'a' { &b[8..] } else { b };
        let raw = V::B(b.to_vec());
        let v = match k {
            b'p' | b'a' => self.val("dec", "", &mut [A::R(&p.wire), A::R(&raw)])?,
            b'b' => self.val("ebe", "", &mut [A::R(&p.field), A::R(&raw)])?,
            b'l' => self.val("ele", "", &mut [A::R(&p.field), A::R(&raw)])?,
            b'B' | b'L' => match &p.quad {
                Some(q) => self.val(if k == b'B' { "ebe" } else { "ele" }, "", &mut [A::R(q), A::R(&raw)])?,
                None => return Err(Stop::Skip),
            },
            b's' => self.val("scbe", "", &mut [A::R(&p.wire), A::R(&raw)])?,
            b'z' => {
                let mut b = b.to_vec();
                b.reverse();
                let raw = V::B(b);
                self.val("scbe", "", &mut [A::R(&p.wire), A::R(&raw)])?
            }
            _ => return Ok(None),
        };
        if k == b'a' {
            return Ok(Some(v));
        }
        rep::add(rep::CMPS, 1);
        let want = self.expected.get(&tag).cloned();
        if let Some(want) = want {
            let got = self.observed(&v);
            if got.as_ref() != Some(&want) {
                let g = got.map(|g| g.text()).unwrap_or_else(|| format!("bad: {}", snapshot(&v, false)));
                let k = self.key as u32;
                self.violation(k, &["value", &format!("t{}", tag), "was read back as", &g, "but is", &want.text(), "bytes", &hex(b)]);
                self.dispose(v);
                return Err(Stop::Bad);
            }
        }
        Ok(Some(v))
    }
    fn observed(&self, v: &V) -> Option<MV> {
        let w = self.wire;
        let p = &w.c.f.p;
        let sh = match v {
            V::PW(_) | V::PM(_) | V::PT(_) => Sh::P(w),
            V::E(_) => Sh::E(p.clone()),
            V::H(_) => Sh::H(p.clone()),
            _ => Sh::S(w),
        };
        match observe(v, &sh) {
            M::P(_, p) => Some(MV::P(p)),
            M::E(_, x) => Some(MV::E(x)),
            M::H(_, x, y) => Some(MV::H(x, y)),
            M::S(_, x) => Some(MV::S(x)),
            _ => None,
        }
    }

    // ------------------------------------------------------------ the rules
    fn scalar(&mut self, pr: &Proc, k: &str) -> R<V> {
        self.val("sc", "", &mut [A::R(pr.own.as_ref().map(|o| &o.0).unwrap_or(&pr.wire)), A::L(k)])
    }
    /// from the wire's curve to this party's
    fn inward(&mut self, pr: &Proc, v: &V) -> R<V> {
        match &pr.own {
            None => self.val("clone", "", &mut [A::R(v)]),
            Some((_, m)) => self.val(if matches!(v, V::PM(_)) { "pull" } else { "push" }, "", &mut [A::R(m), A::R(v)]),
        }
    }
    fn outward(&mut self, pr: &Proc, v: V) -> R<V> {
        match &pr.own {
            None => Ok(v),
            Some((_, m)) => self.val(if matches!(v, V::PM(_)) { "pull" } else { "push" }, "", &mut [A::R(m), A::R(&v)]),
        }
    }
    /// a scalar of the wire's group, for this party's curve
    fn inward_scalar(&mut self, pr: &Proc, v: &V) -> R<V> {
        match &pr.own {
            None => self.val("clone", "", &mut [A::R(v)]),
            Some((c, _)) => {
                let b = V::B(self.bytes("tobe", &mut [A::R(v)])?);
                self.val("scbe", "", &mut [A::R(c), A::R(&b)])
            }
        }
    }
    fn compute(&mut self, n: usize, ri: usize, pr: &Proc) -> R<Vec<u8>> {
        let r: &'static Rule = unsafe { &*(&self.rules[ri] as *const Rule) };
        // arrival order
        let seq: Vec<u32> = self.nodes[n].order.iter().flat_map(|t| r.needs.iter().copied().filter(move |x| x == t)).collect();
        let get = |t: u32| -> R<&'static V> {
            match pr.vals.get(&t) {
                Some(v) => Ok(unsafe { &*(v as *const V) }),
                None => Err(Stop::Skip),
            }
        };
        let need = |i: usize| -> R<&'static V> { get(*r.needs.get(i).ok_or(Stop::Skip)?) };
        let mut a = r.arg.split(',');
        let (x, y) = (a.next().unwrap_or(""), a.next().unwrap_or(""));
        let var = ["rr", "rv", "vr", "vv"][(r.id as usize + n) % 4];
        let out: V = match r.what.as_str() {
            "lit" => {
                if x == "inf" {
                    self.val("id", "", &mut [A::R(&pr.wire)])?
                } else if x == "gen" {
                    self.val("gen", "", &mut [A::R(&pr.wire)])?
                } else {
                    self.val("ptl", "", &mut [A::R(&pr.wire), A::L(x), A::L(y)])?
                }
            }
            "mul" => {
                let k = self.scalar(pr, x)?;
                let p = self.inward(pr, need(0)?)?;
                let q = self.val("smul", var, &mut [A::R(&p), A::R(&k)])?;
                self.outward(pr, q)?
            }
            "smul" => {
                let p = self.inward(pr, need(0)?)?;
                let k = self.inward_scalar(pr, need(1)?)?;
                let q = self.val("smul", var, &mut [A::R(&p), A::R(&k)])?;
                self.outward(pr, q)?
            }
            "add" | "sub" => {
                let v = if r.what == "add" { seq } else { r.needs.clone() };
                let mut acc: Option<V> = None;
                for t in v {
                    let p = self.inward(pr, get(t)?)?;
                    acc = Some(match acc {
                        None => p,
                        Some(q) => self.val(&r.what, var, &mut [A::R(&q), A::R(&p)])?,
                    });
                }
                self.outward(pr, acc.ok_or(Stop::Skip)?)?
            }
            "neg" => {
                let p = self.inward(pr, need(0)?)?;
                let q = self.val("neg", "r", &mut [A::R(&p)])?;
                self.outward(pr, q)?
            }
            "re" => {
                if x == "norm" {
                    self.val("normed", "", &mut [A::R(need(0)?)])?
                } else {
                    self.val("clone", "", &mut [A::R(need(0)?)])?
                }
            }
            "eq" => {
                let t = self.text("eq", &mut [A::R(need(0)?), A::R(need(1)?)])?;
                return Ok([b"t", t.as_bytes()].concat());
            }
            "isid" => {
                let t = self.text("iszero", &mut [A::R(need(0)?)])?;
                return Ok([b"t", t.as_bytes()].concat());
            }
            "el" => self.val("elt", "", &mut [A::R(&pr.field), A::L(x)])?,
            "qel" => match &pr.quad {
                Some(q) => self.val("estr", "", &mut [A::R(q), A::L(&r.arg)])?,
                None => return Err(Stop::Skip),
            },
            "eop" | "qop" | "sop" => {
                if x == "sq" {
                    self.val("sq", "r", &mut [A::R(need(0)?), A::L("2")])?
                } else if x == "neg" {
                    self.val("neg", "r", &mut [A::R(need(0)?)])?
                } else if x == "pow" {
                    self.val("powu", "", &mut [A::R(need(0)?), A::L(y)])?
                } else {
                    self.val(x, var, &mut [A::R(need(0)?), A::R(need(1)?)])?
                }
            }
            // the even square root of a square
            "root" => {
                let s = self.val("sq", "r", &mut [A::R(need(0)?), A::L("2")])?;
                let v = self.val("sqrt", "", &mut [A::R(&s)])?;
                let t = self.text("sgn", &mut [A::R(&v)])?;
                if t == "-1" {
                    self.val("neg", "r", &mut [A::R(&v)])?
                } else {
                    v
                }
            }
            "sc" => self.val("sc", "", &mut [A::R(&pr.wire), A::L(x)])?,
            // a share of the secret: the polynomial at `arg`
            "poly" => {
                let i = self.val("sc", "", &mut [A::R(&pr.wire), A::L(x)])?;
                let mut acc: Option<V> = None;
                for t in r.needs.iter().rev() {
                    acc = Some(match acc {
                        None => self.val("clone", "", &mut [A::R(get(*t)?)])?,
                        Some(q) => {
                            let m = self.val("mul", var, &mut [A::R(&q), A::R(&i)])?;
                            self.val("add", var, &mut [A::R(&m), A::R(get(*t)?)])?
                        }
                    });
                }
                acc.ok_or(Stop::Skip)?
            }
            // share, generator, commitments: is the share the one committed to?
            "ver" => {
                let k = self.inward_scalar(pr, need(0)?)?;
                let g = self.inward(pr, need(1)?)?;
                let left = self.val("smul", var, &mut [A::R(&g), A::R(&k)])?;
                let mut acc: Option<V> = None;
                let i = self.scalar(pr, x)?;
                for t in r.needs[2..].iter().rev() {
                    let c = self.inward(pr, get(*t)?)?;
                    acc = Some(match acc {
                        None => c,
                        Some(q) => {
                            let m = self.val("smul", "kr", &mut [A::R(&q), A::R(&i)])?;
                            self.val("add", var, &mut [A::R(&m), A::R(&c)])?
                        }
                    });
                }
                let acc = acc.ok_or(Stop::Skip)?;
                let t = self.text("eq", &mut [A::R(&left), A::R(&acc)])?;
                return Ok([b"t", t.as_bytes()].concat());
            }
            // Lagrange interpolation at zero
            "interp" => {
                let xs: Vec<&str> = r.arg.split(',').collect();
                let mut acc: Option<V> = None;
                for (j, t) in r.needs.iter().enumerate() {
                    let mut l = self.val("clone", "", &mut [A::R(get(*t)?)])?;
                    let xj = self.val("sc", "", &mut [A::R(&pr.wire), A::L(xs[j])])?;
                    for (m, s) in xs.iter().enumerate() {
                        if m != j {
                            let xm = self.val("sc", "", &mut [A::R(&pr.wire), A::L(s)])?;
                            let d = self.val("sub", var, &mut [A::R(&xm), A::R(&xj)])?;
                            let q = self.val("div", var, &mut [A::R(&xm), A::R(&d)])?;
                            l = self.val("mul", var, &mut [A::R(&l), A::R(&q)])?;
                        }
                    }
                    acc = Some(match acc {
                        None => l,
                        Some(a) => self.val("add", var, &mut [A::R(&a), A::R(&l)])?,
                    });
                }
                acc.ok_or(Stop::Skip)?
            }
            // hash-to-curve maps by two routes
            "map" => {
                let u = need(0)?;
                match x {
                    "ab0" => {
                        let m = self.val("ab0", "", &mut [A::R(&pr.wire), A::L(y), A::L(r.arg.split(',').nth(2).unwrap_or(""))])?;
                        self.val("map", "", &mut [A::R(&m), A::R(u)])?
                    }
                    "isopush" => {
                        let i = self.val("iso", "", &mut [A::L(r.arg.split(',').nth(2).unwrap_or(""))])?;
                        let d = self.val("dom", "", &mut [A::R(&i)])?;
                        let m = self.val("sswu", "", &mut [A::R(&d), A::L(y)])?;
                        let q = self.val("map", "", &mut [A::R(&m), A::R(u)])?;
                        self.val("push", "", &mut [A::R(&i), A::R(&q)])?
                    }
                    // add first, then cross the isogeny
                    "isosum" => {
                        let i = self.val("iso", "", &mut [A::L(r.arg.split(',').nth(2).unwrap_or(""))])?;
                        let d = self.val("dom", "", &mut [A::R(&i)])?;
                        let m = self.val("sswu", "", &mut [A::R(&d), A::L(y)])?;
                        let q = self.val("map", "", &mut [A::R(&m), A::R(u)])?;
                        let s = self.val("map", "", &mut [A::R(&m), A::R(need(1)?)])?;
                        let q = self.val("add", var, &mut [A::R(&q), A::R(&s)])?;
                        self.val("push", "", &mut [A::R(&i), A::R(&q)])?
                    }
                    // a point of small order of the domain, alone or added to a mapped message
                    "isosmall" => {
                        let v: Vec<&str> = r.arg.split(',').collect();
                        let name = v.get(2).copied().unwrap_or("");
                        let i = self.val("iso", "", &mut [A::L(name)])?;
                        let d = self.val("dom", "", &mut [A::R(&i)])?;
                        let (sx, sy) = v.get(3).and_then(|t| t.split_once(':')).ok_or(Stop::Skip)?;
                        let s = self.val("ptl", "", &mut [A::R(&d), A::L(sx), A::L(sy)])?;
                        let q = if v.get(4) == Some(&"alone") {
                            s
                        } else {
                            let m = self.val("sswu", "", &mut [A::R(&d), A::L(y)])?;
                            let q = self.val("map", "", &mut [A::R(&m), A::R(u)])?;
                            self.val("add", var, &mut [A::R(&q), A::R(&s)])?
                        };
                        self.val("push", "", &mut [A::R(&i), A::R(&q)])?
                    }
                    "ellt" => {
                        let t = rat_for(self.wire);
                        match pr.own.as_ref() {
                            Some((c, m)) => {
                                let e = self.val("ell", "", &mut [A::R(c), A::L(y)])?;
                                let q = self.val("map", "", &mut [A::R(&e), A::R(u)])?;
                                self.val("pull", "", &mut [A::R(m), A::R(&q)])?
                            }
                            None => {
                                let e = self.val("ellt", "", &mut [A::R(&pr.wire), A::L(y), A::L(&t)])?;
                                self.val("map", "", &mut [A::R(&e), A::R(u)])?
                            }
                        }
                    }
                    "ell" if pr.own.is_some() && matches!(pr.wire, V::CM(_)) => {
                        // the Edwards map, brought to the Montgomery curve: times the degree
                        let (c, m) = pr.own.as_ref().unwrap();
                        let e = self.val("ellt", "", &mut [A::R(c), A::L(y), A::L(&rat_for(self.nodes[n].spec))])?;
                        let q = self.val("map", "", &mut [A::R(&e), A::R(u)])?;
                        self.val("push", "", &mut [A::R(m), A::R(&q)])?
                    }
                    k => {
                        let m = self.val(k, "", &mut [A::R(&pr.wire), A::L(y)])?;
                        self.val("map", "", &mut [A::R(&m), A::R(u)])?
                    }
                }
            }
            _ => return Err(Stop::Skip),
        };
        self.encode(r.fmt, &out)
    }
    fn encode(&mut self, fmt: char, v: &V) -> R<Vec<u8>> {
        let (k, b) = match v {
            V::PW(_) | V::PM(_) | V::PT(_) => (b'p', self.bytes("enc", &mut [A::R(v), A::L(if fmt == 'c' { "1" } else { "0" })])?),
            V::E(_) if fmt == 'l' => (b'l', self.bytes("tole", &mut [A::R(v)])?),
            V::E(_) => (b'b', self.bytes("tobe", &mut [A::R(v)])?),
            V::H(_) if fmt == 'l' => (b'L', self.bytes("tole", &mut [A::R(v)])?),
            V::H(_) => (b'B', self.bytes("tobe", &mut [A::R(v)])?),
            V::SW(_) | V::SM(_) | V::ST(_) if fmt == 'l' => (b'z', self.bytes("tole", &mut [A::R(v)])?),
            V::SW(_) | V::SM(_) | V::ST(_) => (b's', self.bytes("tobe", &mut [A::R(v)])?),
            _ => return Err(Stop::Skip),
        };
        Ok([&[k][..], &b].concat())
    }

    // ------------------------------------------------------------ the model
    /// the degree of the round trip through a party's own curve
    fn deg(&self, n: usize) -> U {
        if !self.nodes[n].twist {
            return U::one();
        }
        U::from(if self.wire.name.ends_with("448") { 4u32 } else { 1 })
    }
    fn model(&mut self, ri: usize, got: &[u8]) -> Option<MV> {
        let c = &self.wire.c;
        let r = &self.rules[ri];
        let f = &c.f;
        let sf = F::new(c.r.clone());
        let mv = |i: usize| -> Option<MV> { self.expected.get(r.needs.get(i)?).cloned() };
        let pt = |i: usize| match mv(i) {
            Some(MV::P(p)) => Some(p),
            _ => None,
        };
        let sc = |i: usize| match mv(i) {
            Some(MV::S(p)) => Some(p),
            _ => None,
        };
        let d = self.deg(r.node);
        let mut a = r.arg.split(',');
        let (x, y) = (a.next().unwrap_or(""), a.next().unwrap_or(""));
        let modr = |s: &str| modp(&parse_int(s), &c.r);
        Some(match r.what.as_str() {
            "lit" => MV::P(match x {
                "inf" => c.id(),
                "gen" => c.gen(),
                _ => Some((f.of(&parse_int(x)), f.of(&parse_int(y)))),
            }),
            "mul" => MV::P(c.mul(&d, &c.mul(&modr(x), &pt(0)?))),
            "smul" => MV::P(c.mul(&d, &c.mul(&sc(1)?, &pt(0)?))),
            "add" | "acc" => {
                let mut p = c.id();
                for i in 0..r.needs.len() {
                    p = c.add(&p, &pt(i)?);
                }
                MV::P(c.mul(&d, &p))
            }
            "sub" => {
                let mut p = pt(0)?;
                for i in 1..r.needs.len() {
                    p = c.add(&p, &c.neg(&pt(i)?));
                }
                MV::P(c.mul(&d, &p))
            }
            "neg" => MV::P(c.mul(&d, &c.neg(&pt(0)?))),
            "re" => mv(0)?,
            "eq" => MV::T(if mv(0)? == mv(1)? { "1" } else { "0" }.into()),
            "isid" => MV::T(if c.is_id(&pt(0)?) { "1" } else { "0" }.into()),
            "el" => MV::E(f.of(&parse_int(x))),
            "qel" => MV::H(f.of(&parse_int(x)), f.of(&parse_int(y))),
            "eop" => {
                let g = |i: usize| match mv(i) {
                    Some(MV::E(p)) => Some(p),
                    _ => None,
                };
                MV::E(match x {
                    "sq" => f.sq(&g(0)?),
                    "pow" => f.pow(&g(0)?, &y.parse().ok()?),
                    "neg" => f.neg(&g(0)?),
                    "add" => f.add(&g(0)?, &g(1)?),
                    "sub" => f.sub(&g(0)?, &g(1)?),
                    "mul" => f.mul(&g(0)?, &g(1)?),
                    _ => f.div(&g(0)?, &g(1)?),
                })
            }
            "qop" => {
                let q = F2 { f: F::new(f.p.clone()) };
                let g = |i: usize| match mv(i) {
                    Some(MV::H(x, y)) => Some((x, y)),
                    _ => None,
                };
                let v = match x {
                    "sq" => q.mul(&g(0)?, &g(0)?),
                    "pow" => q.pow(&g(0)?, &y.parse().ok()?),
                    "neg" => q.neg(&g(0)?),
                    "add" => q.add(&g(0)?, &g(1)?),
                    "sub" => q.sub(&g(0)?, &g(1)?),
                    "mul" => q.mul(&g(0)?, &g(1)?),
                    _ => {
                        let y = g(1)?;
                        let i = f.inv(&q.norm(&y));
                        q.mul(&g(0)?, &(f.mul(&i, &y.0), f.neg(&f.mul(&i, &y.1))))
                    }
                };
                MV::H(v.0, v.1)
            }
            "sop" => MV::S(match x {
                "neg" => sf.neg(&sc(0)?),
                "add" => sf.add(&sc(0)?, &sc(1)?),
                "sub" => sf.sub(&sc(0)?, &sc(1)?),
                "mul" => sf.mul(&sc(0)?, &sc(1)?),
                _ => sf.mul(&sc(0)?, &sf.pow(&sc(1)?, &(&c.r - 2u32))),
            }),
            "root" => match mv(0)? {
                MV::E(x) => MV::E(if x.bit(0) { f.neg(&x) } else { x }),
                MV::H(x, y) => {
                    if if x.is_zero() { y.bit(0) } else { x.bit(0) } {
                        MV::H(f.neg(&x), f.neg(&y))
                    } else {
                        MV::H(x, y)
                    }
                }
                _ => return None,
            },
            "sc" => MV::S(modr(x)),
            "poly" => {
                let mut v = U::zero();
                for i in (0..r.needs.len()).rev() {
                    v = sf.add(&sf.mul(&v, &modr(x)), &sc(i)?);
                }
                MV::S(v)
            }
            "ver" => {
                let l = c.mul(&sc(0)?, &pt(1)?);
                let mut v = c.id();
                for i in (2..r.needs.len()).rev() {
                    v = c.add(&c.mul(&modr(x), &v), &pt(i)?);
                }
                MV::T(if l == v { "1" } else { "0" }.into())
            }
            "interp" => {
                let xs: Vec<U> = r.arg.split(',').map(modr).collect();
                let mut v = U::zero();
                for j in 0..r.needs.len() {
                    let mut l = sc(j)?;
                    for m in 0..xs.len() {
                        if m != j {
                            l = sf.mul(&l, &sf.div(&xs[m], &sf.sub(&xs[m], &xs[j])));
                        }
                    }
                    v = sf.add(&v, &l);
                }
                MV::S(v)
            }
            "map" => {
                // the first answer counts; it must be a point of the curve
                let MV::E(u) = mv(0)? else { return None };
                if x == "isosum" {
                    let Some(MV::E(v)) = mv(1) else { return None };
                    let k = |u: &U| format!("ab0 1 {} {}", y, u);
                    if let (Some(p), Some(q)) = (self.maps.get(&k(&u)), self.maps.get(&k(&v))) {
                        return Some(MV::P(c.add(p, q)));
                    }
                    let (u, v) = if u < v { (u, v) } else { (v, u) };
                    let k = format!("isosum {} {} {}", y, u, v);
                    if let Some(p) = self.maps.get(&k) {
                        return Some(MV::P(p.clone()));
                    }
                    let Dec::Point(p) = ops::model_decode(self.wire, got.get(1..)?) else { return None };
                    self.maps.insert(k, p.clone());
                    return Some(MV::P(p));
                }
                if x == "isosmall" {
                    let v: Vec<&str> = r.arg.split(',').collect();
                    let Dec::Point(p) = ops::model_decode(self.wire, got.get(1..)?) else { return None };
                    let ks = format!("isosmall {} {}", v.get(2)?, v.get(3)?);
                    if v.get(4) == Some(&"alone") {
                        return Some(MV::P(self.maps.entry(ks).or_insert(p).clone()));
                    }
                    let km = format!("ab0 1 {} {}", y, u);
                    return Some(MV::P(match (self.maps.get(&km).cloned(), self.maps.get(&ks).cloned()) {
                        (Some(m), Some(s)) => c.add(&m, &s),
                        (Some(m), None) => {
                            self.maps.insert(ks, c.add(&p, &c.neg(&m)));
                            p
                        }
                        (None, Some(s)) => {
                            self.maps.insert(km, c.add(&p, &c.neg(&s)));
                            p
                        }
                        _ => p,
                    }));
                }
                let (family, scale) = match x {
                    "isopush" | "ab0" => ("ab0", U::one()),
                    "ell" => ("ell", d),
                    k => (k, U::one()),
                };
                let k = format!("{} {} {} {}", family, scale, y, u);
                if let Some(p) = self.maps.get(&k) {
                    MV::P(p.clone())
                } else {
                    let Dec::Point(p) = ops::model_decode(self.wire, got.get(1..)?) else { return None };
                    if scale.is_one() {
                        // what a party on the other curve must get
                        self.maps.insert(format!("{} {} {} {}", family, 4, y, u), c.mul(&U::from(4u32), &p));
                    }
                    self.maps.insert(k, p.clone());
                    MV::P(p)
                }
            }
            _ => return None,
        })
    }
    /// what a payload says, read by the model alone
    fn decoded(&self, b: &[u8]) -> Option<MV> {
        let (&k, b) = b.split_first()?;
        let f = &self.wire.c.f;
        let le = |b: &[u8]| U::from_bytes_le(b);
        let be = |b: &[u8]| U::from_bytes_be(b);
        let n = b.len() / 2;
        Some(match k {
            b'p' => match ops::model_decode(self.wire, b) {
                Dec::Point(p) => MV::P(p),
                _ => return None,
            },
            b'b' => MV::E(be(b) % &f.p),
            b'l' => MV::E(le(b) % &f.p),
            b'B' => MV::H(be(&b[..n]), be(&b[n..])),
            b'L' => MV::H(le(&b[..n]), le(&b[n..])),
            b's' => MV::S(be(b)),
            b'z' => MV::S(le(b)),
            b't' => MV::T(String::from_utf8_lossy(b).into()),
            _ => return None,
        })
    }

    // ------------------------------------------------------------ the world
    fn go(&mut self) {
        for n in 0..self.nodes.len() {
            let t = 1000 + hash3(self.seed, n as u64, 77) % MS;
            self.push(t, Ev::Start(n));
        }
        self.now = sched::now();
        let t0 = self.now;
        let quiet = self.parts.iter().map(|p| p.1).max().unwrap_or(0) + self.delays.iter().map(|p| p.3).max().unwrap_or(0) + self.crashes.iter().map(|c| c.down).sum::<u64>();
        // retransmissions are at most 64 ms (times skew and slowness) apart, and
        // every message can be lost a bounded number of times
        let lost: u64 = self.drops.iter().map(|d| d.3).sum();
        let maxslow = self.nodes.iter().map(|n| n.slow).max().unwrap_or(0);
        let depth = self.rules.len() as u64 + 2;
        let bound = t0 + quiet + (lost + depth + 2 * self.crashes.len() as u64 + 2 * self.ooms.len() as u64) * (600 * MS + 4 * maxslow) + 10_000 * MS;
        let mut handled = 0u64;
        while let Some(Reverse((t, _, e))) = self.q.pop() {
            if self.done() || self.bad > 8 {
                break;
            }
            let t = t0 + t;
            if t > sched::now() {
                sched::sleep_until(t);
            }
            self.now = sched::now().max(t) - t0;
            handled += 1;
            if sched::now() > bound || handled > 200_000 {
                break;
            }
            self.event(e);
        }
        self.finish();
    }
    /// every value that can be computed is known where it is wanted
    fn wanted(&self, n: usize) -> Vec<u32> {
        let mut v = vec![];
        for r in &self.rules {
            if (r.node == n || r.to >> n & 1 == 1) && self.possible(r.out) {
                v.push(r.out);
            }
        }
        v
    }
    fn at(&self, n: usize, tag: u32) -> bool {
        self.rules.iter().any(|r| r.out == tag && (r.node == n || r.to >> n & 1 == 1))
    }
    fn possible(&self, tag: u32) -> bool {
        match self.rules.iter().find(|r| r.out == tag) {
            Some(r) => !self.nodes[r.node].failed.contains(&tag) && r.needs.iter().all(|t| self.at(r.node, *t) && self.possible(*t)),
            None => false,
        }
    }
    fn complete(&self, n: usize, tag: u32) -> bool {
        let nd = &self.nodes[n];
        match nd.know.get(&tag) {
            None => false,
            Some(b) if b[0] == b'a' => self.rules.iter().find(|r| r.out == tag).map(|r| u64::from_le_bytes(b[1..9].try_into().unwrap()) == (1u64 << r.needs.len()) - 1).unwrap_or(true),
            _ => true,
        }
    }
    fn done(&self) -> bool {
        (0..self.nodes.len()).all(|n| self.nodes[n].up && self.wanted(n).iter().all(|t| self.complete(n, *t)))
    }
    fn crash(&mut self, n: usize, down: u64, disk: &str) {
        rep::add(rep::NCRASH, 1);
        self.kill(n);
        let nd = &mut self.nodes[n];
        nd.up = false;
        nd.armed = false;
        nd.life += 1;
        nd.know.clear();
        nd.order.clear();
        nd.acked.clear();
        let pend = std::mem::take(&mut nd.disk.pending);
        if disk == "keep" {
            nd.disk.durable.extend(pend);
        } else if let Some(k) = disk.strip_prefix("torn") {
            let k: usize = k.parse().unwrap_or(0);
            if !pend.is_empty() {
                rep::add(rep::NTORN, 1);
                nd.disk.durable.extend(&pend[..k % (pend.len() + 1)]);
            }
        } else if !pend.is_empty() {
            rep::add(rep::NLOST, 1);
        }
        let t = self.now + down.max(1000);
        self.push(t, Ev::Start(n));
    }
    /// does this crash happen here? `point`: 0 on arrival, 1 written, 2 synced, 3 sent
    fn crashes_at(&mut self, n: usize, point: u64) -> bool {
        let ev = self.nodes[n].events;
        if let Some(i) = self.crashes.iter().position(|c| c.node == n && c.event == ev && c.point == point) {
            let c = self.crashes.remove(i);
            self.crash(n, c.down, &c.disk);
            return true;
        }
        false
    }
    fn event(&mut self, e: Ev) {
        let n = match &e {
            Ev::Start(n) => *n,
            Ev::Msg { dst, .. } | Ev::Ack { dst, .. } => *dst,
            Ev::Timer { node, .. } => *node,
        };
        if let Ev::Start(_) = e {
            if self.nodes[n].up {
                return;
            }
        } else if !self.nodes[n].up {
            if !matches!(e, Ev::Timer { .. }) {
                rep::add(rep::NDROP, 1); // nobody is listening
            }
            return;
        }
        if let Ev::Timer { life, .. } = e {
            if life != self.nodes[n].life {
                return;
            }
        }
        self.nodes[n].events += 1;
        let ev = self.nodes[n].events;
        self.oom = self.ooms.iter().position(|o| o.0 == n && o.1 == ev).map(|i| self.ooms.remove(i).2).unwrap_or(0);
        self.key = 10_000 + n as u64;
        sched::mark(self.key);
        if self.crashes_at(n, 0) {
            return;
        }
        let r = self.handle(n, e);
        self.oom = 0;
        if let Err(Stop::Oom) = r {
            let d = hash3(self.seed, ev, 5) % (20 * MS);
            self.crash(n, d, "lost");
        }
    }
    fn handle(&mut self, n: usize, e: Ev) -> R<()> {
        match e {
            Ev::Start(_) => {
                rep::add(rep::RESTART, (self.nodes[n].life > 0) as u64);
                let (_, keep) = self.nodes[n].disk.records();
                self.nodes[n].disk.durable.truncate(keep);
                match self.boot(n) {
                    Ok(()) => {}
                    Err(Stop::Oom) => return Err(Stop::Oom),
                    Err(_) => return Ok(()), // reported
                }
                let nd = &mut self.nodes[n];
                nd.up = true;
                nd.tries = 0;
                let tags: Vec<u32> = nd.know.keys().copied().collect();
                for t in tags {
                    self.post(n, t);
                }
                self.timer(n);
                self.work(n)?;
            }
            Ev::Timer { .. } => {
                self.nodes[n].armed = false;
                self.nodes[n].tries += 1;
                let tags: Vec<u32> = self.nodes[n].know.keys().copied().collect();
                for t in tags {
                    self.post(n, t);
                }
                self.timer(n);
            }
            Ev::Ack { src, tag, .. } => {
                if self.nodes[n].acked.insert((tag, src)) {
                    // not worth a sync: a lost note costs one retransmission
                    self.nodes[n].disk.append(tag | ACKED, &[src as u8]);
                    self.nodes[n].tries = 0;
                }
            }
            Ev::Msg { src, tag, bytes, .. } => {
                rep::add(rep::DELIV, 1);
                if !self.nodes[n].know.contains_key(&tag) {
                    let pr = self.nodes[n].proc.take().ok_or(Stop::Skip)?;
                    let v = self.read(&pr, tag, &bytes);
                    self.nodes[n].proc = Some(pr);
                    match v {
                        Ok(v) => {
                            self.nodes[n].know.insert(tag, bytes.clone());
                            self.nodes[n].order.push(tag);
                            if let Some(v) = v {
                                if let Some(o) = self.nodes[n].proc.as_mut().unwrap().vals.insert(tag, v) {
                                    self.dispose(o);
                                }
                            }
                        }
                        Err(Stop::Oom) => return Err(Stop::Oom),
                        Err(_) => return Ok(()), // reported; never acknowledged
                    }
                    self.nodes[n].disk.append(tag, &bytes);
                    if self.crashes_at(n, 1) {
                        return Ok(());
                    }
                    self.nodes[n].disk.sync();
                    if self.crashes_at(n, 2) {
                        return Ok(());
                    }
                }
                self.send(n, src, Ev::Ack { src: n, dst: src, tag });
                if self.crashes_at(n, 3) {
                    return Ok(());
                }
                self.work(n)?;
            }
        }
        Ok(())
    }
    /// run whatever can run
    fn work(&mut self, n: usize) -> R<()> {
        let mut again = true;
        while again {
            again = false;
            for ri in 0..self.rules.len() {
                let (out, id) = (self.rules[ri].out, self.rules[ri].id);
                if self.rules[ri].node != n || self.nodes[n].failed.contains(&out) {
                    continue;
                }
                let acc = self.rules[ri].what == "acc";
                let ready = if acc { !self.complete(n, out) && self.fresh_for(n, ri).is_some() } else { !self.nodes[n].know.contains_key(&out) && self.rules[ri].needs.iter().all(|t| self.nodes[n].know.contains_key(t)) };
                if !ready {
                    continue;
                }
                self.key = id as u64;
                let pr = self.nodes[n].proc.take().ok_or(Stop::Skip)?;
                let r = if acc { self.accumulate(n, ri, &pr) } else { self.compute(n, ri, &pr) };
                self.nodes[n].proc = Some(pr);
                match r {
                    Ok(b) => {
                        let want = self.model(ri, &b);
                        sched::mix(sum(out, &b));
                        rep::add(rep::CMPS, 1);
                        if b[0] != b'a' {
                            let got = self.decoded(&b);
                            let ok = match (&want, &got) {
                                (Some(w), Some(g)) => w == g,
                                // no opinion
                                (None, Some(_)) => self.rules[ri].what != "map",
                                _ => false,
                            };
                            if !ok {
                                let (w, g) = (want.as_ref().map(|w| w.text()).unwrap_or("a point of the curve".into()), got.map(|g| g.text()).unwrap_or("no value".into()));
                                let what = format!("{} at node {} ({})", self.rules[ri].what, n, self.nodes[n].spec.name);
                                self.violation(id, &[&what, "gave", &hex(&b), "which is", &g, "expected", &w]);
                                self.nodes[n].failed.insert(out);
                                continue;
                            }
                            if let Some(w) = want {
                                self.expected.entry(out).or_insert(w);
                            }
                        }
                        if self.persist(n, out, b)? {
                            return Ok(()); // crashed
                        }
                        again = true;
                    }
                    Err(Stop::Oom) => return Err(Stop::Oom),
                    Err(_) => {
                        self.nodes[n].failed.insert(out);
                    }
                }
            }
        }
        Ok(())
    }
    fn persist(&mut self, n: usize, tag: u32, b: Vec<u8>) -> R<bool> {
        // the value is used from now on as it will be read back
        let pr = self.nodes[n].proc.take().ok_or(Stop::Skip)?;
        let v = self.read(&pr, tag, &b);
        self.nodes[n].proc = Some(pr);
        match v {
            Ok(v) => {
                if let Some(v) = v {
                    if let Some(o) = self.nodes[n].proc.as_mut().unwrap().vals.insert(tag, v) {
                        self.dispose(o);
                    }
                }
            }
            Err(Stop::Oom) => return Err(Stop::Oom),
            Err(_) => {
                self.nodes[n].failed.insert(tag);
                return Ok(false);
            }
        }
        self.nodes[n].disk.append(tag, &b);
        if self.nodes[n].know.insert(tag, b).is_none() {
            self.nodes[n].order.push(tag);
        }
        if self.crashes_at(n, 1) {
            return Ok(true);
        }
        self.nodes[n].disk.sync();
        if self.crashes_at(n, 2) {
            return Ok(true);
        }
        self.post(n, tag);
        self.timer(n);
        Ok(self.crashes_at(n, 3))
    }
    /// running sums: the next contribution not yet included, by arrival
    fn fresh_for(&self, n: usize, ri: usize) -> Option<u32> {
        let r = &self.rules[ri];
        let nd = &self.nodes[n];
        let mask = nd.know.get(&r.out).map(|b| u64::from_le_bytes(b[1..9].try_into().unwrap())).unwrap_or(0);
        nd.order.iter().copied().find(|t| r.needs.iter().position(|x| x == t).map(|i| mask >> i & 1 == 0).unwrap_or(false))
    }
    fn accumulate(&mut self, n: usize, ri: usize, pr: &Proc) -> R<Vec<u8>> {
        let t = self.fresh_for(n, ri).ok_or(Stop::Skip)?;
        let out = self.rules[ri].out;
        let i = self.rules[ri].needs.iter().position(|x| *x == t).unwrap();
        let mask = self.nodes[n].know.get(&out).map(|b| u64::from_le_bytes(b[1..9].try_into().unwrap())).unwrap_or(0) | 1 << i;
        let v = pr.vals.get(&t).ok_or(Stop::Skip)?;
        let sum = match pr.vals.get(&out) {
            None => self.val("clone", "", &mut [A::R(v)])?,
            Some(o) => self.val("add", "rr", &mut [A::R(o), A::R(v)])?,
        };
        let fmt = self.rules[ri].fmt;
        let b = self.encode(fmt, &sum)?;
        // the sum so far
        let mut want = self.wire.c.id();
        for (j, t) in self.rules[ri].needs.clone().iter().enumerate() {
            if mask >> j & 1 == 1 {
                if let Some(MV::P(p)) = self.expected.get(t) {
                    want = self.wire.c.add(&want, p);
                }
            }
        }
        let got = self.decoded(&b);
        if got != Some(MV::P(want.clone())) {
            let id = self.rules[ri].id;
            let g = got.map(|g| g.text()).unwrap_or("no value".into());
            self.violation(id, &["running sum at node", &heap::num(n as u64), "is", &hex(&b), "which is", &g, "expected", &MV::P(want).text()]);
            return Err(Stop::Bad);
        }
        Ok([&[b'a'][..], &mask.to_le_bytes(), &b[1..]].concat())
    }
    fn post(&mut self, n: usize, tag: u32) {
        let Some(ri) = self.rules.iter().position(|r| r.out == tag && r.node == n) else { return };
        if self.rules[ri].what == "acc" {
            return;
        }
        for d in 0..self.nodes.len() {
            if d != n && self.rules[ri].to >> d & 1 == 1 && !self.nodes[n].acked.contains(&(tag, d)) {
                let b = self.nodes[n].know[&tag].clone();
                self.send(n, d, Ev::Msg { src: n, dst: d, tag, bytes: b });
            }
        }
    }
    fn send(&mut self, s: usize, d: usize, e: Ev) {
        let c = self.links.entry((s, d)).or_insert(0);
        *c += 1;
        let k = *c;
        for (t0, t1, mask) in &self.parts {
            if self.now >= *t0 && self.now < *t1 && (mask >> s & 1) != (mask >> d & 1) {
                rep::add(rep::NPART, 1);
                return;
            }
        }
        if self.drops.iter().any(|x| x.0 == s && x.1 == d && k >= x.2 && k < x.2 + x.3) {
            rep::add(rep::NDROP, 1);
            return;
        }
        let mut t = self.now + self.nodes[s].slow + 1000 + hash3(self.seed ^ k, s as u64, d as u64) % (2 * MS);
        if let Some(x) = self.delays.iter().find(|x| x.0 == s && x.1 == d && x.2 == k) {
            t += x.3;
            rep::add(rep::NDELAY, 1);
        }
        if self.dups.iter().any(|x| x.0 == s && x.1 == d && x.2 == k) {
            rep::add(rep::NDUP, 1);
            let t2 = t + hash3(self.seed ^ k, d as u64, 99) % (30 * MS);
            self.push(t2, e.clone());
        }
        self.push(t, e);
    }
    fn timer(&mut self, n: usize) {
        let nd = &self.nodes[n];
        let unsent = self.rules.iter().any(|r| r.node == n && nd.know.contains_key(&r.out) && (0..self.nodes.len()).any(|d| d != n && r.to >> d & 1 == 1 && !nd.acked.contains(&(r.out, d))));
        if !unsent || nd.armed {
            return;
        }
        let back = 4 * MS << nd.tries.min(4);
        let t = self.now + back * nd.skew / 100;
        let life = nd.life;
        self.nodes[n].armed = true;
        self.push(t, Ev::Timer { node: n, life });
    }
    fn finish(&mut self) {
        if self.bad == 0 && !self.done() {
            for n in 0..self.nodes.len() {
                if !self.nodes[n].up {
                    self.violation(0, &["node", &heap::num(n as u64), "never came back"]);
                    continue;
                }
                let missing: Vec<String> = self.wanted(n).iter().filter(|t| !self.complete(n, **t)).map(|t| format!("t{}", t)).collect();
                if !missing.is_empty() {
                    self.violation(0, &["node", &heap::num(n as u64), "never learnt", &missing.join(" ")]);
                }
            }
        }
        // everybody restarts once more and reads everything back
        for n in 0..self.nodes.len() {
            if !self.nodes[n].up || self.bad > 0 {
                continue;
            }
            self.key = 20_000 + n as u64;
            self.nodes[n].disk.sync();
            let before: BTreeMap<u32, Vec<u8>> = self.nodes[n].know.clone();
            self.kill(n);
            rep::add(rep::RESTART, 1);
            if self.boot(n).is_ok() {
                let pr = self.nodes[n].proc.take().unwrap();
                let w = self.wire;
                for (t, v) in &pr.vals {
                    // equal, as the library sees it, to the value built from numbers, and written as before
                    rep::add(rep::CMPS, 1);
                    let b = &before[t];
                    if b[0] == b'a' {
                        continue;
                    }
                    if let Some(e) = self.expected.get(t).cloned() {
                        let p = w.c.f.p.clone();
                        let m = match e {
                            MV::P(x) => M::P(w, x),
                            MV::E(x) => M::E(p, x),
                            MV::H(x, y) => M::H(p, x, y),
                            MV::S(x) => M::S(w, x),
                            MV::T(_) => continue,
                        };
                        if !catch_unwind(AssertUnwindSafe(|| same_as_fresh(v, &m))).unwrap_or(false) {
                            self.violation(0, &["after a restart", &format!("t{}", t), "does not compare equal to", &m.text()]);
                        }
                    }
                    // the same bytes again: compressed encodings are two or three times shorter
                    let comp = match (b[0], w.kind()) {
                        (b'p', Kind::T) => 'c',
                        (b'p', _) if b[1] == 2 || b[1] == 3 => 'c',
                        (b'l' | b'L' | b'z', _) => 'l',
                        _ => 'u',
                    };
                    match self.encode(comp, v) {
                        Ok(x) if x == *b => {}
                        Ok(x) => self.violation(0, &["after a restart", &format!("t{}", t), "is written as", &hex(&x), "instead of", &hex(b)]),
                        Err(_) => {}
                    }
                }
                self.nodes[n].proc = Some(pr);
            }
        }
        for n in 0..self.nodes.len() {
            self.kill(n);
        }
    }
}
fn hash3(a: u64, b: u64, c: u64) -> u64 {
    let mut r = simrt::rng::Rng::new(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ c.wrapping_mul(0xD1B5_4A32_D192_ED03));
    r.next()
}

// -------------------------------------------------------------------- plans

struct Pl {
    n: usize,
    tag: u32,
    wire: S,
    /// points, elements, elements of the extension, scalars, with where they are known
    vals: Vec<(u32, char, u64)>,
}
impl Pl {
    fn rule(&mut self, g: &mut Gen, what: &str, node: usize, to: u64, arg: &str, needs: &[u32], ty: char) -> u32 {
        self.tag += 1;
        let fmt = if g.r.p(1, 2) { if ty == 'p' { "c" } else { "l" } } else { "u" };
        let mut a = vec![Gen::l(node), Gen::l(self.tag), Gen::l(to), Gen::l(fmt), Gen::l(if arg.is_empty() { "-" } else { arg })];
        a.extend(needs.iter().map(|t| Gen::l(format!("t{}", t))));
        g.op("rule", what, a, None);
        self.vals.push((self.tag, ty, to | 1 << node));
        self.tag
    }
    fn all(&self) -> u64 {
        (1 << self.n) - 1
    }
    fn some(&self, g: &mut Gen) -> u64 {
        if g.r.p(1, 2) {
            self.all()
        } else {
            g.r.next() & self.all()
        }
    }
    fn known(&self, g: &mut Gen, node: usize, ty: char) -> Option<u32> {
        let v: Vec<u32> = self.vals.iter().filter(|x| x.1 == ty && x.2 >> node & 1 == 1).map(|x| x.0).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[g.r.idx(v.len())])
        }
    }
    fn point(&self, g: &mut Gen) -> String {
        match g.r.below(10) {
            0 => "inf".into(),
            1 => "gen".into(),
            _ => match g.some_point(self.wire) {
                Some((x, y)) => format!("{},{}", x, y),
                None => "inf".into(),
            },
        }
    }
    fn k(&self, g: &mut Gen) -> String {
        let r = self.wire.c.r.clone();
        match g.r.below(5) {
            0 => g.num(&r),
            1 => U::from(g.r.below(9)).to_string(),
            2 => g.scalar_lit(self.wire),
            _ => rbig(&mut g.r, &r).to_string(),
        }
    }
}

pub fn plan(g: &mut Gen) {
    g.plan.set("world", "net");
    let shipped = g.r.p(2, 5);
    let kind = *g.r.pick(&[Kind::W, Kind::W, Kind::W, Kind::M, Kind::M, Kind::T]);
    let v = if shipped { spec::shipped(kind) } else { spec::toys(kind) };
    // roots are needed to read compressed points
    let v: Vec<S> = v.into_iter().filter(|s| s.sqrt_ok()).collect();
    let mut wire = v[g.r.idx(v.len())];
    if kind == Kind::M && !shipped && g.r.p(1, 4) {
        wire = spec::get(&format!("{}~b", wire.name)).unwrap();
    }
    g.plan.set("wire", &wire.name);
    let n = 2 + g.r.below(if shipped { 3 } else { 4 }) as usize;
    let other: Option<S> = match wire.kind() {
        Kind::W => None,
        k => {
            let c: Vec<S> = ["r25519".to_string(), "r448".to_string()]
                .into_iter()
                .chain(spec::toys(Kind::T).iter().map(|t| format!("rtoy.{}", t.name)))
                .filter_map(|x| rat_specs(&x))
                .filter_map(|(t, m)| if k == Kind::M && m.name == wire.name { Some(t) } else if k == Kind::T && t.name == wire.name { Some(m) } else { None })
                .collect();
            c.first().copied().filter(|s| s.sqrt_ok())
        }
    };
    for _ in 0..n {
        let s = match other {
            Some(o) if g.r.p(1, 2) => o,
            _ => wire,
        };
        let slow = if g.r.p(1, 8) { g.r.logu(18, 25) } else { 0 };
        let skew = *g.r.pick(&[100u64, 100, 100, 90, 130, 300, 25]);
        g.op("node", "", vec![Gen::l(&s.name), Gen::l(slow), Gen::l(skew)], None);
    }
    let mut p = Pl { n, tag: 0, wire, vals: vec![] };
    let parts = if shipped { 1 } else { 1 + g.r.below(3) };
    for _ in 0..parts {
        let iso = matches!(wire.name.as_str(), "SECP256K1" | "BLS12381G1") && g.r.p(1, 2);
        match if iso {
            3
        } else if wire.no_sums() {
            4 + g.r.below(2)
        } else {
            g.r.below(8)
        } {
            0 => dh(g, &mut p),
            1 => sums(g, &mut p),
            2 => vss(g, &mut p),
            3 => maps(g, &mut p),
            4 => echo(g, &mut p),
            5 => elements(g, &mut p),
            _ => any(g, &mut p),
        }
    }
    faults(g, n);
}
/// every party applies its secret to what went around the ring
fn dh(g: &mut Gen, p: &mut Pl) {
    let b = p.point(g);
    let start = g.r.idx(p.n);
    let base = p.rule(g, "lit", start, p.all(), &b, &[], 'p');
    let ks: Vec<String> = (0..p.n).map(|_| p.k(g)).collect();
    let mut ends = vec![];
    for o in 0..p.n {
        let mut t = base;
        for h in 0..p.n {
            let i = (o + h) % p.n;
            let to = if h + 1 < p.n { 1 << ((i + 1) % p.n) } else { p.all() };
            t = p.rule(g, "mul", i, to, &ks[i], &[t], 'p');
        }
        ends.push(t);
    }
    for e in 1..ends.len() {
        let i = g.r.idx(p.n);
        p.rule(g, "eq", i, 0, "", &[ends[0], ends[e]], 't');
    }
}
fn sums(g: &mut Gen, p: &mut Pl) {
    let m = p.n + g.r.idx(6);
    let base: Vec<String> = (0..1 + g.r.below(3)).map(|_| p.point(g)).collect();
    let mut c = vec![];
    for j in 0..m {
        let b = base[g.r.idx(base.len())].clone();
        let i = j % p.n;
        let t = p.rule(g, "lit", i, p.all(), &b, &[], 'p');
        c.push(match g.r.below(4) {
            0 => p.rule(g, "neg", i, p.all(), "", &[t], 'p'),
            1 => {
                let k = p.k(g);
                p.rule(g, "mul", i, p.all(), &k, &[t], 'p')
            }
            _ => t,
        });
    }
    let mut r = vec![];
    for i in 0..p.n {
        if g.r.p(1, 2) {
            p.rule(g, "acc", i, 0, "", &c, 'a');
        }
        r.push(p.rule(g, "add", i, p.all(), "", &c, 'p'));
    }
    for e in 1..r.len() {
        let i = g.r.idx(p.n);
        p.rule(g, "eq", i, 0, "", &[r[0], r[e]], 't');
    }
}
fn vss(g: &mut Gen, p: &mut Pl) {
    if p.wire.c.r < U::from(50u32) {
        return;
    }
    let d = g.r.idx(p.n);
    let t = 1 + g.r.idx(p.n.min(3));
    let gen = p.rule(g, "lit", d, p.all(), "gen", &[], 'p');
    let mut a = vec![];
    let mut com = vec![];
    for _ in 0..t {
        let k = p.k(g);
        a.push(p.rule(g, "sc", d, 0, &k, &[], 's'));
        // committed to on the wire's curve whatever the dealer's is: the generator went through it too
        com.push(p.rule(g, "smul", d, p.all(), "", &[gen, *a.last().unwrap()], 'p'));
    }
    let gd = {
        let one = p.rule(g, "sc", d, 0, "1", &[], 's');
        p.rule(g, "smul", d, p.all(), "", &[gen, one], 'p')
    };
    let mut shares = vec![];
    for i in 0..p.n {
        let x = (i + 1).to_string();
        let s = p.rule(g, "poly", d, p.all(), &x, &a, 's');
        let bad = g.r.p(1, 6);
        let v = if bad {
            let o = p.rule(g, "sc", d, 0, "1", &[], 's');
            p.rule(g, "sop", d, p.all(), "add", &[s, o], 's')
        } else {
            s
        };
        let mut needs = vec![v, gd];
        needs.extend(&com);
        p.rule(g, "ver", i, 0, &x, &needs, 't');
        shares.push((s, x));
    }
    for i in 0..p.n {
        let mut v = shares.clone();
        while v.len() > t {
            let j = g.r.idx(v.len());
            v.remove(j);
        }
        let xs: Vec<String> = v.iter().map(|x| x.1.clone()).collect();
        let ts: Vec<u32> = v.iter().map(|x| x.0).collect();
        p.rule(g, "interp", i, 0, &xs.join(","), &ts, 's');
    }
}
fn maps(g: &mut Gen, p: &mut Pl) {
    let w = p.wire;
    let kinds: Vec<(&str, String)> = match (w.name.as_str(), w.kind()) {
        ("P256", _) => vec![("sswu", "-10".into())],
        ("P384", _) => vec![("sswu", "-12".into())],
        ("P521", _) => vec![("sswu", "-4".into())],
        ("SECP256K1", _) => vec![("ab0", "-11,isecp".into()), ("isopush", "-11,isecp".into()), ("svdw", "1".into())],
        ("BLS12381G1", _) => vec![("ab0", "11,ibls".into()), ("isopush", "11,ibls".into()), ("svdw", "-3".into())],
        (_, Kind::M) if w.z.is_some() => vec![("ell", w.z.as_ref().unwrap().to_string())],
        (n, Kind::T) if w.z.is_some() && !n.contains('~') => vec![("ellt", w.z.as_ref().unwrap().to_string())],
        _ => return any(g, p),
    };
    let fp = w.c.f.p.clone();
    let m = 1 + g.r.below(2);
    let mut us = vec![];
    for _ in 0..m {
        let u = g.num(&fp);
        let i = g.r.idx(p.n);
        us.push(p.rule(g, "el", i, p.all(), &u, &[], 'e'));
    }
    for i in 0..p.n {
        for u in &us {
            let fam = &kinds[g.r.idx(kinds.len())];
            let a = format!("{},{}", fam.0, fam.1);
            if fam.0 == "isopush" && g.r.p(1, 2) {
                let v = us[g.r.idx(us.len())];
                let a = format!("isosum,{}", fam.1);
                p.rule(g, "map", i, 0, &a, &[*u, v], 'p');
            }
            if fam.0 == "isopush" && g.r.p(1, 2) {
                let dom = fam.1.split(',').nth(1).and_then(iso_specs).map(|x| x.0.small()).unwrap_or(&[]);
                if !dom.is_empty() {
                    let Some((sx, sy)) = dom[g.r.idx(dom.len())].clone() else { continue };
                    let j = format!("{}:{}", sx, sy);
                    for alone in ["alone", "sum"] {
                        let a = format!("isosmall,{},{},{}", fam.1, j, alone);
                        p.rule(g, "map", i, 0, &a, &[*u], 'p');
                    }
                }
            }
            let to = p.some(g);
            p.rule(g, "map", i, to, &a, &[*u], 'p');
        }
    }
}
/// values travel through several parties and come home
fn echo(g: &mut Gen, p: &mut Pl) {
    for _ in 0..1 + g.r.below(3) {
        let o = g.r.idx(p.n);
        let ty = *g.r.pick(&['p', 'p', 'e', 's']);
        let first = match ty {
            'p' => {
                let b = p.point(g);
                p.rule(g, "lit", o, p.all(), &b, &[], 'p')
            }
            'e' => {
                let b = g.num(&p.wire.c.f.p.clone());
                p.rule(g, "el", o, p.all(), &b, &[], 'e')
            }
            _ => {
                let b = p.k(g);
                p.rule(g, "sc", o, p.all(), &b, &[], 's')
            }
        };
        let mut t = first;
        for _ in 0..1 + g.r.below(4) {
            let i = g.r.idx(p.n);
            let a = if ty == 'p' && g.r.p(1, 2) { "norm" } else { "" };
            t = p.rule(g, "re", i, p.all(), a, &[t], ty);
        }
        p.rule(g, "eq", o, 0, "", &[first, t], 't');
        if ty == 'p' {
            p.rule(g, "isid", o, 0, "", &[t], 't');
        }
    }
}
/// serialized field elements of both kinds
fn elements(g: &mut Gen, p: &mut Pl) {
    let fp = p.wire.c.f.p.clone();
    let quad = (&fp % 4u32) == U::from(3u32) && g.r.p(1, 2);
    let (lit, opn, ty) = if quad { ("qel", "qop", 'h') } else { ("el", "eop", 'e') };
    for _ in 0..2 + g.r.below(3) {
        let i = g.r.idx(p.n);
        let a = if quad { format!("{},{}", g.num(&fp), g.num(&fp)) } else { g.num(&fp) };
        p.rule(g, lit, i, p.all(), &a, &[], ty);
    }
    for _ in 0..2 + g.r.below(6) {
        let i = g.r.idx(p.n);
        let (Some(x), Some(y)) = (p.known(g, i, ty), p.known(g, i, ty)) else { continue };
        let to = p.some(g);
        let o = *g.r.pick(&["add", "sub", "mul", "div", "sq", "neg", "root", "pow"]);
        if o == "root" {
            if quad || p.wire.sqrt_ok() {
                p.rule(g, "root", i, to, "", &[x], ty);
            }
        } else if o == "pow" {
            let e = match g.r.below(4) {
                0 => U::from(g.r.below(40)),
                1 => &fp - 1u32,
                2 => &fp + g.r.below(3),
                _ => crate::gen::rbig(&mut g.r, &(&fp * &fp)),
            };
            p.rule(g, opn, i, to, &format!("pow,{}", e), &[x], ty);
        } else if o == "sq" || o == "neg" {
            p.rule(g, opn, i, to, o, &[x], ty);
        } else {
            p.rule(g, opn, i, to, o, &[x, y], ty);
        }
    }
}
/// any flow of points and scalars
fn any(g: &mut Gen, p: &mut Pl) {
    for _ in 0..2 + g.r.below(3) {
        let i = g.r.idx(p.n);
        let b = p.point(g);
        let to = p.some(g);
        p.rule(g, "lit", i, to, &b, &[], 'p');
    }
    let i = g.r.idx(p.n);
    let k = p.k(g);
    p.rule(g, "sc", i, p.all(), &k, &[], 's');
    for _ in 0..3 + g.r.below(8) {
        let i = g.r.idx(p.n);
        let to = p.some(g);
        let (Some(x), Some(y)) = (p.known(g, i, 'p'), p.known(g, i, 'p')) else { continue };
        match g.r.below(9) {
            0 => {
                let k = p.k(g);
                p.rule(g, "mul", i, to, &k, &[x], 'p');
            }
            1 => {
                p.rule(g, "sub", i, to, "", &[x, y], 'p');
            }
            2 | 3 => {
                p.rule(g, "add", i, to, "", &[x, y], 'p');
            }
            4 => {
                p.rule(g, "neg", i, to, "", &[x], 'p');
            }
            5 => {
                if let Some(s) = p.known(g, i, 's') {
                    p.rule(g, "smul", i, to, "", &[x, s], 'p');
                }
            }
            6 => {
                if let (Some(s), Some(t)) = (p.known(g, i, 's'), p.known(g, i, 's')) {
                    let o = *g.r.pick(&["add", "sub", "mul", "div", "neg"]);
                    if o == "neg" {
                        p.rule(g, "sop", i, to, o, &[s], 's');
                    } else {
                        p.rule(g, "sop", i, to, o, &[s, t], 's');
                    }
                }
            }
            7 => {
                p.rule(g, "re", i, to, "norm", &[x], 'p');
            }
            _ => {
                p.rule(g, "eq", i, 0, "", &[x, y], 't');
            }
        }
    }
}
fn faults(g: &mut Gen, n: usize) {
    let link = |g: &mut Gen| {
        let a = g.r.idx(n);
        (a, (a + 1 + g.r.idx(n - 1)) % n)
    };
    let heavy = g.r.below(3);
    for _ in 0..g.r.below(2 + 6 * heavy) {
        let (a, b) = link(g);
        let k = 1 + g.r.below(12);
        let m = 1 + g.r.below(4);
        g.op("drop", "", vec![Gen::l(a), Gen::l(b), Gen::l(k), Gen::l(m)], None);
    }
    for _ in 0..g.r.below(2 + 4 * heavy) {
        let (a, b) = link(g);
        let k = 1 + g.r.below(12);
        g.op("dup", "", vec![Gen::l(a), Gen::l(b), Gen::l(k)], None);
    }
    for _ in 0..g.r.below(2 + 4 * heavy) {
        let (a, b) = link(g);
        let k = 1 + g.r.below(12);
        let t = g.r.logu(16, 27);
        g.op("delay", "", vec![Gen::l(a), Gen::l(b), Gen::l(k), Gen::l(t)], None);
    }
    if g.r.p(1, 3) {
        let t = g.r.logu(10, 25);
        let d = g.r.logu(20, 28);
        let m = g.r.next() & ((1 << n) - 1);
        g.op("part", "", vec![Gen::l(t), Gen::l(t + d), Gen::l(m)], None);
    }
    for _ in 0..g.r.below(1 + 3 * heavy) {
        let a = g.r.idx(n);
        let e = 1 + g.r.below(20);
        let pt = g.r.below(4);
        let down = g.r.logu(15, 26);
        let disk = match g.r.below(3) {
            0 => "keep".to_string(),
            1 => "lost".into(),
            _ => format!("torn{}", g.r.below(120)),
        };
        g.op("crash", "", vec![Gen::l(a), Gen::l(e), Gen::l(pt), Gen::l(down), Gen::l(disk)], None);
    }
    for _ in 0..g.r.below(1 + 2 * heavy) {
        let a = g.r.idx(n);
        let e = 1 + g.r.below(12);
        let k = g.r.logu(0, 10);
        g.op("oom", "", vec![Gen::l(a), Gen::l(e), Gen::l(k)], None);
    }
}
