//! A plan: everything a run does, as text. One plan and one schedule (or one
//! policy and seed) are one execution.
use crate::user::{parse_do, Do};
use simrt::sched::{Entry, Policy};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Who {
    Setup,
    Task(u8),
    Final,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Arg {
    V(u32),
    L(String),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub id: u32,
    pub who: Who,
    pub name: String,
    pub var: String,
    pub args: Vec<Arg>,
    /// fail the n-th allocation of this operation
    pub alloc: u64,
    pub cb: Option<String>,
    /// wait (in simulated time) for operands other tasks are still computing
    pub wait: bool,
}
impl Op {
    pub fn faulty(&self) -> bool {
        self.alloc > 0 || self.cb.is_some()
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = write!(
            s,
            "{} {} {}",
            self.id,
            match self.who {
                Who::Setup => "s".to_string(),
                Who::Final => "f".to_string(),
                Who::Task(t) => t.to_string(),
            },
            self.name
        );
        if !self.var.is_empty() {
            let _ = write!(s, ".{}", self.var);
        }
        for a in &self.args {
            match a {
                Arg::V(v) => {
                    let _ = write!(s, " v{}", v);
                }
                Arg::L(l) => {
                    let _ = write!(s, " {}", l);
                }
            }
        }
        if self.alloc > 0 {
            let _ = write!(s, " !alloc={}", self.alloc);
        }
        if let Some(c) = &self.cb {
            let _ = write!(s, " !cb={}", c);
        }
        if self.wait {
            s.push_str(" !wait");
        }
        s
    }
    pub fn parse(s: &str) -> Option<Op> {
        let mut it = s.split_whitespace();
        let id = it.next()?.parse().ok()?;
        let who = match it.next()? {
            "s" => Who::Setup,
            "f" => Who::Final,
            t => Who::Task(t.parse().ok()?),
        };
        let m = it.next()?;
        let (name, var) = m.split_once('.').unwrap_or((m, ""));
        let mut o = Op { id, who, name: name.into(), var: var.into(), args: vec![], alloc: 0, cb: None, wait: false };
        for a in it {
            if let Some(n) = a.strip_prefix("!alloc=") {
                o.alloc = n.parse().ok()?;
            } else if let Some(c) = a.strip_prefix("!cb=") {
                parse_do(c)?;
                o.cb = Some(c.into());
            } else if a == "!wait" {
                o.wait = true;
            } else {
                o.args.push(arg(a));
            }
        }
        Some(o)
    }
    pub fn cb(&self) -> (Do, u64) {
        self.cb.as_deref().and_then(parse_do).unwrap_or((Do::Nothing, 0))
    }
}
pub fn arg(a: &str) -> Arg {
    if let Some(n) = a.strip_prefix('v') {
        if let Ok(n) = n.parse() {
            return Arg::V(n);
        }
    }
    Arg::L(a.into())
}

#[derive(Clone, Default, Debug)]
pub struct Plan {
    pub prop: String,
    /// everything random that the program under simulation sees (getrandom, heap policy) and the scheduler
    pub seed: u64,
    pub flags: BTreeMap<String, String>,
    pub pol: Pol,
    pub ops: Vec<Op>,
    pub sched: Vec<Entry>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub enum Pol {
    #[default]
    None,
    Random {
        mean: u64,
        burst: u64,
        p_burst: u32,
        p_stall: u32,
        stall_ns: u64,
        p_spur: u32,
        cold: u32,
        sync: u32,
    },
    Pct {
        depth: u32,
        span: u64,
    },
    Replay,
}

impl Plan {
    pub fn flag(&self, k: &str) -> Option<&str> {
        self.flags.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.flag(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.flags.insert(k.into(), v.to_string());
    }
    pub fn tasks(&self) -> usize {
        self.ops
            .iter()
            .filter_map(|o| match o.who {
                Who::Task(t) => Some(t as usize + 1),
                _ => None,
            })
            .max()
            .unwrap_or(0)
    }
    pub fn policy(&self) -> Policy {
        match self.pol {
            Pol::None => Policy::None,
            Pol::Random { mean, burst, p_burst, p_stall, stall_ns, p_spur, cold, sync } => Policy::Random { mean, burst, p_burst, p_stall, stall_ns, p_spur, cold, sync },
            Pol::Pct { depth, span } => Policy::Pct { depth, span },
            Pol::Replay => Policy::replay(&self.sched),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "rsim-replay 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "seed {}", self.seed);
        for (k, v) in &self.flags {
            let _ = writeln!(s, "flag {} {}", k, v);
        }
        match &self.pol {
            Pol::None => {}
            Pol::Random { mean, burst, p_burst, p_stall, stall_ns, p_spur, cold, sync } => {
                let _ = writeln!(s, "policy random {} {} {} {} {} {} {} {}", mean, burst, p_burst, p_stall, stall_ns, p_spur, cold, sync);
            }
            Pol::Pct { depth, span } => {
                let _ = writeln!(s, "policy pct {} {}", depth, span);
            }
            Pol::Replay => {
                let _ = writeln!(s, "policy replay");
            }
        }
        for o in &self.ops {
            let _ = writeln!(s, "op {}", o.text());
        }
        for e in &self.sched {
            let _ = writeln!(s, "sched task {} op {} step {} next {} stall {} wake {}", e.task, e.op, e.step, e.next, e.stall, e.wake);
        }
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan::default();
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "prop" => p.prop = r.into(),
                "seed" => p.seed = r.parse().ok()?,
                "flag" => {
                    let (a, b) = r.split_once(' ').unwrap_or((r, "1"));
                    p.set(a, b);
                }
                "policy" => {
                    let v: Vec<&str> = r.split(' ').collect();
                    let n = |i: usize| -> Option<u64> { v.get(i)?.parse().ok() };
                    p.pol = match v[0] {
                        "random" => Pol::Random { mean: n(1)?, burst: n(2)?, p_burst: n(3)? as u32, p_stall: n(4)? as u32, stall_ns: n(5)?, p_spur: n(6)? as u32, cold: n(7).unwrap_or(0) as u32, sync: n(8).unwrap_or(0) as u32 },
                        "pct" => Pol::Pct { depth: n(1)? as u32, span: n(2)? },
                        "replay" => Pol::Replay,
                        _ => Pol::None,
                    }
                }
                "op" => p.ops.push(Op::parse(r)?),
                "sched" => {
                    let v: Vec<&str> = r.split(' ').collect();
                    let n = |i: usize| -> Option<u64> { v.get(i)?.parse().ok() };
                    p.sched.push(Entry { task: n(1)? as u8, op: n(3)?, step: n(5)?, next: n(7)? as u8, stall: n(9)?, wake: n(11)? as u8 });
                }
                _ => {}
            }
        }
        Some(p)
    }
}
