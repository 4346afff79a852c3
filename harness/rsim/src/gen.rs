//! Random plans. A plan is a function of (property, seed) only.
use crate::plan::{Arg, Op, Plan, Pol, Who};
use crate::spec::{self, S};
use model::{Kind, U};
use num_traits::{One, Zero};
use simrt::rng::Rng;

#[derive(Clone, PartialEq)]
pub enum Ty {
    F(U),
    G(U),
    E(U),
    H(U),
    C(S),
    P(S),
    S(S),
    /// bytes; of what
    BC(S),
    BF(U),
    BG(U),
    /// map kind, curve, modulus of its input
    K(String, S, U),
    R(String),
    I(String),
    /// the identifier of a shipped curve
    N(S),
}
impl Ty {
    fn local(&self) -> bool {
        match self {
            Ty::R(_) | Ty::I(_) => true,
            Ty::K(k, _, _) => k == "ellt" || k.starts_with("ab0"),
            _ => false,
        }
    }
}
#[derive(Clone)]
pub struct Reg {
    pub id: u32,
    pub ty: Ty,
    pub who: Who,
    pub gone: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat {
    Sqrt,
    FArith,
    Pow,
    FCmp,
    Cmov,
    FMake,
    FSer,
    FDec,
    PArith,
    PMul,
    PCmp,
    PEnc,
    PDec,
    PNew,
    Norm,
    SArith,
    SSer,
    SMake,
    MapMk,
    MapUse,
    Clone,
    Drop,
    InPlace,
    NewInst,
    Misuse,
    Show,
    Const,
    Print,
    Corrupt,
    UserMap,
}
use Cat::*;
pub const COMMON: &[(Cat, u32)] = &[
    (Sqrt, 10),
    (FArith, 10),
    (Pow, 3),
    (FCmp, 4),
    (Cmov, 2),
    (FMake, 6),
    (FSer, 3),
    (FDec, 2),
    (PArith, 10),
    (PMul, 4),
    (PCmp, 5),
    (PEnc, 4),
    (PDec, 4),
    (PNew, 4),
    (Norm, 2),
    (SArith, 4),
    (SSer, 3),
    (SMake, 3),
    (MapMk, 2),
    (MapUse, 6),
    (Clone, 2),
    (Drop, 2),
    (InPlace, 2),
    (NewInst, 2),
    (Misuse, 2),
    (Show, 2),
    (Const, 1),
];

pub struct Gen {
    /// rare operations as often as others
    pub flat: bool,
    pub r: Rng,
    pub plan: Plan,
    pub regs: Vec<Reg>,
    pub next: u32,
    pub who: Who,
    /// per mille: use what another task makes
    pub cross: u64,
    pub budget: i64,
    /// callbacks may be told to do these
    pub cbs: Vec<&'static str>,
    pub p_cb: u64,
}

pub fn rbig(r: &mut Rng, n: &U) -> U {
    let len = (n.bits() + 64).div_ceil(8);
    let bytes: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    U::from_bytes_le(&bytes) % n
}

impl Gen {
    pub fn new(prop: &str, seed: u64) -> Gen {
        let mut r = Rng::new(seed ^ hash(prop));
        let s = r.next();
        Gen {
            flat: false,
            r,
            plan: Plan { prop: prop.into(), seed: s >> 1, ..Plan::default() },
            regs: vec![],
            next: 1,
            who: Who::Setup,
            cross: 0,
            budget: 60_000,
            cbs: vec![],
            p_cb: 0,
        }
    }
    pub fn op(&mut self, name: &str, var: &str, args: Vec<Arg>, ty: Option<Ty>) -> u32 {
        let id = self.next;
        self.next += 1;
        let me = self.who;
        let wait = args.iter().any(|a| match a {
            Arg::V(v) => self.regs.iter().any(|r| r.id == *v && r.who != me && r.who != Who::Setup) && me != Who::Final,
            _ => false,
        });
        self.plan.ops.push(Op { id, who: self.who, name: name.into(), var: var.into(), args, alloc: 0, cb: None, wait });
        if let Some(ty) = ty {
            self.regs.push(Reg { id, ty, who: self.who, gone: false });
        }
        id
    }
    fn coin(&self) -> bool {
        (self.next as u64 ^ self.plan.seed).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 63 == 1
    }
    pub fn last(&mut self) -> &mut Op {
        self.plan.ops.last_mut().unwrap()
    }
    pub fn find(&mut self, f: &dyn Fn(&Ty) -> bool) -> Option<Reg> {
        let me = self.who;
        let cross = self.r.below(1000) < self.cross || me == Who::Final;
        let mut c: Vec<Reg> = vec![];
        for r in &self.regs {
            if r.gone || !f(&r.ty) {
                continue;
            }
            let own = r.who == me;
            let ok = own || (!r.ty.local() && (r.who == Who::Setup || cross));
            if ok {
                c.push(r.clone());
                // what is new is more interesting
                if own {
                    c.push(r.clone());
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let n = c.len();
        let i = if self.r.p(1, 3) { n - 1 - self.r.idx(n.min(4)) } else { self.r.idx(n) };
        Some(c[i].clone())
    }
    fn v(r: &Reg) -> Arg {
        Arg::V(r.id)
    }
    pub fn l(s: impl ToString) -> Arg {
        Arg::L(s.to_string())
    }
    fn var2(&mut self) -> &'static str {
        ["rr", "rr", "rv", "vr", "vv"][self.r.idx(5)]
    }
    pub fn spend(&mut self, c: u64) -> bool {
        if self.budget < 0 {
            return false;
        }
        self.budget -= c as i64;
        true
    }

    // ------------------------------------------------------------- literals
    pub fn num(&mut self, p: &U) -> String {
        let two = U::from(2u32);
        let v = match self.r.below(17) {
            0 => U::zero(),
            1 => U::one(),
            2 => two,
            3 => p - 1u32,
            4 => (p - 1u32) >> 1,
            5 => (p + 1u32) >> 1,
            6 => p.clone(),
            7 => p + self.r.below(5),
            8 => {
                let x = rbig(&mut self.r, p);
                (&x * &x) % p
            }
            9 => U::from(self.r.below(256)),
            // any length, and next to a power of two
            10 | 11 => {
                let k = self.r.below(p.bits());
                rbig(&mut self.r, p) >> k
            }
            12 => (U::one() << self.r.below(p.bits())) - self.r.below(2),
            _ => rbig(&mut self.r, p),
        };
        if self.r.p(1, 8) {
            format!("-{}", v)
        } else {
            v.to_string()
        }
    }
    pub fn scalar_lit(&mut self, s: S) -> String {
        let r = s.c.r.clone();
        match self.r.below(11) {
            0 => self.num(&r),
            1 => U::from(self.r.below(20)).to_string(),
            2 => (&r - 1u32 - self.r.below(3).min(r.to_u64_digits()[0] - 2)).to_string(),
            3 => (&r + self.r.below(3)).to_string(),
            // sparse and all-ones
            4 => (U::one() << self.r.below(r.bits())).to_string(),
            5 => ((U::one() << self.r.below(r.bits())) - 1u32).to_string(),
            6 => {
                let k = self.r.below(r.bits());
                (rbig(&mut self.r, &r) >> k).to_string()
            }
            // a run of zeros or ones inside, sometimes word-aligned
            8 => {
                let w = [8, 16, 32, 64][self.r.below(4) as usize];
                let k = self.r.below(r.bits().div_ceil(w));
                let x = rbig(&mut self.r, &r);
                let m = ((U::one() << w) - 1u32) << (k * w);
                (&x ^ (&x & m)).to_string()
            }
            7 => {
                let (a, b) = (self.r.below(r.bits()), self.r.below(r.bits()));
                let m = ((U::one() << a.max(b)) - 1u32) ^ ((U::one() << a.min(b)) - 1u32);
                let x = rbig(&mut self.r, &r);
                let y = if self.r.p(1, 2) { &x | &m } else { &x ^ (&x & &m) };
                (y % &r).to_string()
            }
            _ => rbig(&mut self.r, &r).to_string(),
        }
    }
    /// affine coordinates of some point of the curve, any order
    pub fn some_point(&mut self, s: S) -> Option<(U, U)> {
        let c = &s.c;
        match if s.no_sums() { 2 } else { self.r.below(6) } {
            0 | 1 => {
                let k = if self.r.p(1, 4) { U::from(self.r.below(9)) } else { rbig(&mut self.r, &c.r) };
                let p = c.mul(&k, &c.gen());
                if self.r.p(1, 4) {
                    c.neg(&p)
                } else {
                    p
                }
            }
            2 | 3 => {
                for _ in 0..20 {
                    let x = match self.r.below(6) {
                        0 | 1 => U::from(self.r.below(50)) % &c.f.p,
                        // leading zero bytes, one of them more often than not
                        2 => {
                            let k = if self.r.p(1, 2) { 8 + c.f.p.bits() % 8 } else { self.r.below(c.f.p.bits()) };
                            rbig(&mut self.r, &c.f.p) >> k
                        }
                        _ => rbig(&mut self.r, &c.f.p),
                    };
                    if let Some(p) = c.lift(&x) {
                        let p = if self.r.p(1, 2) { Some(p) } else { c.neg(&Some(p)) };
                        return p;
                    }
                }
                c.id()
            }
            // exactly of small order, alone or on top of a multiple of the generator
            4 => {
                let v = s.small();
                if v.is_empty() {
                    return c.gen();
                }
                let q = v[self.r.idx(v.len())].clone();
                if self.r.p(1, 3) {
                    let k = rbig(&mut self.r, &c.r);
                    c.add(&q, &c.mul(&k, &c.gen()))
                } else {
                    q
                }
            }
            // r times something
            _ => {
                for _ in 0..20 {
                    let x = rbig(&mut self.r, &c.f.p);
                    if let Some(p) = c.lift(&x) {
                        let q = c.mul(&c.r, &Some(p));
                        if !c.is_id(&q) || self.r.p(1, 4) {
                            return q;
                        }
                        if s.cofactor_one() {
                            return c.id();
                        }
                    }
                }
                c.id()
            }
        }
    }

    // -------------------------------------------------------------- set-up
    /// a curve, one or more instances of it, points and scalars
    pub fn curve(&mut self, s: S, npts: u64) {
        let n = 1 + self.r.below(2);
        let mut cs = vec![];
        for _ in 0..n {
            let nm = if self.r.p(1, 12) && !s.shipped && spec::get(&format!("{}~g", s.name)).is_some() { format!("{}~g", s.name) } else { s.name.clone() };
            let sp = spec::get(&nm).unwrap();
            cs.push((self.op("cur", "", vec![Self::l(&nm)], Some(Ty::C(sp))), sp));
        }
        for _ in 0..npts {
            let (c, sp) = cs[self.r.idx(cs.len())];
            match self.r.below(6) {
                0 => {
                    self.op("gen", "", vec![Arg::V(c)], Some(Ty::P(sp)));
                }
                1 if self.r.p(1, 2) => {
                    self.op("id", "", vec![Arg::V(c)], Some(Ty::P(sp)));
                }
                _ => {
                    if let Some((x, y)) = self.some_point(sp) {
                        self.op("ptl", "", vec![Arg::V(c), Self::l(x), Self::l(y)], Some(Ty::P(sp)));
                    } else {
                        self.op("gen", "", vec![Arg::V(c)], Some(Ty::P(sp)));
                    }
                }
            }
        }
        for _ in 0..1 + self.r.below(2) {
            let (c, sp) = cs[self.r.idx(cs.len())];
            let k = self.scalar_lit(sp);
            self.op("sc", "", vec![Arg::V(c), Self::l(k)], Some(Ty::S(sp)));
        }
        // elements of its field
        let (c, sp) = cs[0];
        if sp.shipped && self.r.p(1, 2) {
            self.op("cid", "", vec![Self::l(&sp.name)], Some(Ty::N(sp)));
        }
        let p = sp.c.f.p.clone();
        let f = self.op("fieldof", "", vec![Arg::V(c)], Some(Ty::F(p.clone())));
        for _ in 0..1 + self.r.below(3) {
            let n = self.num(&p);
            self.op("elt", "", vec![Arg::V(f), Self::l(n)], Some(Ty::E(p.clone())));
        }
    }
    pub fn prime(&mut self) -> U {
        let fam = *self.r.pick(model::primes::FAMILIES);
        self.r.pick(fam.1).parse().unwrap()
    }
    /// a few fields over related primes, some of them built twice
    pub fn fields(&mut self, n: u64, elts: u64) {
        let mut fam = *self.r.pick(model::primes::FAMILIES);
        if self.flat && self.r.p(1, 2) {
            let v: Vec<_> = model::primes::FAMILIES.iter().filter(|f| f.1[0].len() < 20).collect();
            fam = **self.r.pick(&v);
        }
        for _ in 0..n {
            let p: U = if self.r.p(1, 10) {
                // no square roots here
                U::from([17u32, 41, 73, 97, 193, 257, 65537, 2, 3, 5][self.r.idx(10)])
            } else {
                self.r.pick(fam.1).parse().unwrap()
            };
            self.field(&p, elts);
        }
    }
    pub fn field(&mut self, p: &U, elts: u64) {
        let three_mod_4 = p.bit(0) && p.bit(1);
        let quad = three_mod_4 && self.r.p(1, 3);
        let (ty, ety) = if quad { (Ty::G(p.clone()), Ty::H(p.clone())) } else { (Ty::F(p.clone()), Ty::E(p.clone())) };
        let mut f = self.op(if quad { "fld2" } else { "fld" }, "", vec![Self::l(p)], Some(ty.clone()));
        for _ in 0..elts {
            if self.r.p(1, 6) {
                f = self.op(if quad { "fld2" } else { "fld" }, "", vec![Self::l(p)], Some(ty.clone()));
            }
            if quad {
                let (a, b) = (self.num(p), self.num(p));
                self.op("estr", "", vec![Arg::V(f), Self::l(format!("{},{}", a, b))], Some(ety.clone()));
            } else {
                let n = self.num(p);
                self.op("elt", "", vec![Arg::V(f), Self::l(n)], Some(ety.clone()));
            }
        }
    }
    pub fn toy(&mut self) -> S {
        let k = *self.r.pick(&[Kind::W, Kind::M, Kind::T]);
        let t = spec::toys(k);
        // small ones more often: special cases are common there
        let n = t.len();
        let i = if self.r.p(1, 2) { self.r.idx(n.min(8)) } else { self.r.idx(n) };
        t[i]
    }
    pub fn any_shipped(&mut self) -> S {
        let k = *self.r.pick(&[Kind::W, Kind::W, Kind::M, Kind::T]);
        let t = spec::shipped(k);
        t[self.r.idx(t.len())]
    }
    /// some mixture
    pub fn universe(&mut self, parts: u64, p_shipped: u64) {
        for _ in 0..parts {
            match self.r.below(10) {
                0..=3 => {
                    let n = 1 + self.r.below(3);
                    let e = 1 + self.r.below(4);
                    self.fields(n, e);
                }
                _ => {
                    let s = if self.r.below(100) < p_shipped { self.any_shipped() } else { self.toy() };
                    let n = 1 + self.r.below(4);
                    self.curve(s, n);
                }
            }
        }
    }

    // ---------------------------------------------------------- operations
    fn w(p: &U) -> u64 {
        // relative cost of a field multiplication
        let b = p.bits().div_ceil(64);
        b * b
    }
    pub fn random_op(&mut self, prof: &[(Cat, u32)]) {
        let tot: u32 = prof.iter().map(|x| x.1).sum();
        for _ in 0..12 {
            let mut k = self.r.below(tot as u64) as u32;
            let mut cat = prof[0].0;
            for (c, w) in prof {
                if k < *w {
                    cat = *c;
                    break;
                }
                k -= w;
            }
            if self.emit(cat) {
                return;
            }
        }
    }
    pub fn random_ops(&mut self, n: u64, prof: &[(Cat, u32)]) {
        for _ in 0..n {
            self.random_op(prof);
        }
    }
    fn maybe_cb(&mut self) {
        if !self.cbs.is_empty() && self.r.below(1000) < self.p_cb {
            let c = *self.r.pick(&self.cbs.clone());
            let re = format!("reenter{}", self.r.below(1000));
            let c = if c == "reenter" { re.as_str() } else { c };
            let c = if c == "stall" { format!("stall{}@{}", self.r.logu(8, 22), self.r.below(2)) } else { format!("{}@{}", c, self.r.below(2)) };
            self.last().cb = Some(c);
        }
    }
    pub fn is_e(t: &Ty) -> bool {
        matches!(t, Ty::E(_) | Ty::H(_))
    }
    pub fn emit(&mut self, cat: Cat) -> bool {
        match cat {
            Sqrt => {
                let Some(e) = self.find(&Self::is_e) else { return false };
                let p = match &e.ty {
                    Ty::E(p) | Ty::H(p) => p.clone(),
                    _ => return false,
                };
                if !self.spend(Self::w(&p) * p.bits() * 2 / 64 + 5) {
                    return false;
                }
                if self.r.p(if self.flat { 2 } else { 3 }, 4) {
                    self.op("sqrt", "", vec![Self::v(&e)], Some(e.ty.clone()));
                } else {
                    let o = *self.r.pick(&["issq", "issq", "issq", "sgn"]);
                    self.op(o, "", vec![Self::v(&e)], None);
                }
            }
            FArith => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let ty = a.ty.clone();
                let var = self.var2();
                match self.r.below(8) {
                    0..=4 => {
                        let t = ty.clone();
                        let Some(b) = self.find(&|x| *x == t) else { return false };
                        let o = *self.r.pick(&["add", "sub", "mul", "div"]);
                        self.spend(3);
                        self.op(o, var, vec![Self::v(&a), Self::v(&b)], Some(ty));
                    }
                    5 => {
                        self.op("neg", if self.coin() { "v" } else { "r" }, vec![Self::v(&a)], Some(ty));
                    }
                    6 => {
                        self.spend(10);
                        if self.r.p(1, 2) {
                            self.op("inv", "", vec![Self::v(&a), Self::l("-1")], Some(ty));
                        } else {
                            self.op("rinv", "", vec![Self::v(&a), Self::l("1")], Some(ty));
                        }
                    }
                    _ => {
                        self.op("sq", if self.coin() { "v" } else { "r" }, vec![Self::v(&a), Self::l("2")], Some(ty));
                    }
                }
            }
            Pow => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let (p, quad) = match &a.ty {
                    Ty::E(p) => (p.clone(), false),
                    Ty::H(p) => (p.clone(), true),
                    _ => return false,
                };
                if !self.spend(Self::w(&p) * p.bits() / 64 + 5) {
                    return false;
                }
                let n = self.num(&p);
                if self.r.p(1, 2) || quad && n.starts_with('-') {
                    let n = n.trim_start_matches('-').to_string();
                    self.op("powu", "", vec![Self::v(&a), Self::l(n)], Some(a.ty.clone()));
                } else {
                    self.op("powi", "", vec![Self::v(&a), Self::l(n)], Some(a.ty.clone()));
                }
            }
            FCmp => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let t = a.ty.clone();
                if self.r.p(1, 2) {
                    let o = *self.r.pick(&["iszero", "isone"]);
                    self.op(o, "", vec![Self::v(&a)], None);
                } else {
                    let Some(b) = self.find(&|x| *x == t) else { return false };
                    let o = if matches!(t, Ty::E(_)) { *self.r.pick(&["eq", "ne"]) } else { "eq" };
                    self.op(o, "", vec![Self::v(&a), Self::v(&b)], None);
                }
            }
            Cmov => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let t = a.ty.clone();
                let Some(b) = self.find(&|x| *x == t) else { return false };
                let k = self.r.below(2);
                self.op("cmov", "", vec![Self::v(&a), Self::v(&b), Self::l(k)], Some(t));
            }
            FMake => {
                let Some(f) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_))) else { return false };
                let (p, et) = match &f.ty {
                    Ty::F(p) => (p.clone(), Ty::E(p.clone())),
                    Ty::G(p) => (p.clone(), Ty::H(p.clone())),
                    _ => return false,
                };
                let quad = matches!(f.ty, Ty::G(_));
                match self.r.below(6) {
                    0 => {
                        let o = *self.r.pick(&["zero", "one"]);
                        self.op(o, "", vec![Self::v(&f)], Some(et));
                    }
                    1 => {
                        let ty = *self.r.pick(&["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]);
                        let x = self.r.next();
                        let n = match ty {
                            "u8" => (x as u8).to_string(),
                            "u16" => (x as u16).to_string(),
                            "u32" => (x as u32).to_string(),
                            "u64" => x.to_string(),
                            "i8" => (x as i8).to_string(),
                            "i16" => (x as i16).to_string(),
                            "i32" => (x as i32).to_string(),
                            _ => (x as i64).to_string(),
                        };
                        self.op("ei", "", vec![Self::v(&f), Self::l(ty), Self::l(n)], Some(et));
                    }
                    2 => {
                        let lit = |g: &mut Gen| {
                            let n = g.num(&p);
                            let neg = n.starts_with('-');
                            let m: U = n.trim_start_matches('-').parse().unwrap();
                            let s = match g.r.below(4) {
                                0 => format!("0x{}", m.to_str_radix(16)),
                                1 => format!("0b{}", m.to_str_radix(2)),
                                2 => format!("0o{}", m.to_str_radix(8)),
                                _ => m.to_string(),
                            };
                            if neg {
                                format!("-{}", s)
                            } else {
                                s
                            }
                        };
                        let s = if quad { format!("{},{}", lit(self), lit(self)) } else { lit(self) };
                        self.op("estr", if self.coin() { "l" } else { "" }, vec![Self::v(&f), Self::l(s)], Some(et));
                    }
                    3 => {
                        let q = p.clone();
                        let Some(b) = self.find(&|t| if quad { *t == Ty::BG(q.clone()) } else { matches!(t, Ty::BF(_) | Ty::BC(_)) }) else { return false };
                        let o = *self.r.pick(&["ebe", "ele"]);
                        self.op(o, "", vec![Self::v(&f), Self::v(&b)], Some(et));
                    }
                    _ => {
                        let n = self.num(&p);
                        self.op("elt", "", vec![Self::v(&f), Self::l(n)], Some(et));
                    }
                }
            }
            FSer => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let o = *self.r.pick(&["tobe", "tole"]);
                let t = match &a.ty {
                    Ty::E(p) => Ty::BF(p.clone()),
                    Ty::H(p) => Ty::BG(p.clone()),
                    _ => return false,
                };
                self.op(o, "", vec![Self::v(&a)], Some(t));
            }
            FDec => {
                let Some(b) = self.find(&|t| matches!(t, Ty::BF(_) | Ty::BG(_))) else { return false };
                let o = *self.r.pick(&["ebe", "ele"]);
                match b.ty.clone() {
                    Ty::BG(p) => {
                        let Some(f) = self.find(&|t| *t == Ty::G(p.clone())) else { return false };
                        self.op(o, "", vec![Self::v(&f), Self::v(&b)], Some(Ty::H(p)));
                    }
                    Ty::BF(_) if self.r.p(1, 4) => {
                        let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                        let Ty::C(s) = c.ty.clone() else { return false };
                        self.op("scbe", "", vec![Self::v(&c), Self::v(&b)], Some(Ty::S(s)));
                    }
                    _ => {
                        let Some(f) = self.find(&|t| matches!(t, Ty::F(_))) else { return false };
                        let Ty::F(p) = f.ty.clone() else { return false };
                        self.op(o, "", vec![Self::v(&f), Self::v(&b)], Some(Ty::E(p)));
                    }
                }
            }
            PArith => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let t = a.ty.clone();
                if self.r.p(1, 5) || matches!(&t, Ty::P(s) if s.no_sums()) {
                    self.op("neg", if self.coin() { "v" } else { "r" }, vec![Self::v(&a)], Some(t));
                    return true;
                }
                let Some(b) = self.find(&|x| *x == t) else { return false };
                let var = self.var2();
                let o = *self.r.pick(&["add", "add", "sub"]);
                self.spend(20);
                self.op(o, var, vec![Self::v(&a), Self::v(&b)], Some(t));
            }
            PMul => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let Ty::P(s) = a.ty.clone() else { return false };
                if s.no_sums() {
                    return false;
                }
                let Some(k) = self.find(&|x| *x == Ty::S(s)) else { return false };
                let c = s.c.r.bits() * (20 + 2 * Self::w(&s.c.f.p)) / 8;
                if !self.spend(c) {
                    return false;
                }
                let var = *self.r.pick(&["rr", "rv", "vr", "vv", "kr", "kv", "kk"]);
                self.op("smul", var, vec![Self::v(&a), Self::v(&k)], Some(Ty::P(s)));
            }
            PCmp => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let Ty::P(s) = a.ty.clone() else { return false };
                match self.r.below(5) {
                    0 => {
                        self.op("iszero", "", vec![Self::v(&a)], None);
                    }
                    1 => {
                        let Some(c) = self.find(&|x| *x == Ty::C(s)) else { return false };
                        self.op("oncurve", "", vec![Self::v(&c), Self::v(&a)], None);
                    }
                    2 if s.kind() == Kind::M => {
                        self.op("tt", "", vec![Self::v(&a)], None);
                    }
                    _ => {
                        let Some(b) = self.find(&|x| *x == Ty::P(s)) else { return false };
                        let o = *self.r.pick(&["eq", "ne"]);
                        self.op(o, "", vec![Self::v(&a), Self::v(&b)], None);
                    }
                }
            }
            PEnc => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let Ty::P(s) = a.ty.clone() else { return false };
                self.spend(10);
                let z = self.r.below(2);
                self.op("enc", "", vec![Self::v(&a), Self::l(z)], Some(Ty::BC(s)));
            }
            PDec => {
                let Some(b) = self.find(&|t| matches!(t, Ty::BC(_))) else { return false };
                let Ty::BC(s) = b.ty.clone() else { return false };
                let Some(c) = self.find(&|x| *x == Ty::C(s)) else { return false };
                if !self.spend(Self::w(&s.c.f.p) * s.bits() / 32 + 5) {
                    return false;
                }
                self.op("dec", "", vec![Self::v(&c), Self::v(&b)], Some(Ty::P(s)));
            }
            PNew => {
                let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                let Ty::C(s) = c.ty.clone() else { return false };
                match self.r.below(5) {
                    0 => {
                        self.op("id", "", vec![Self::v(&c)], Some(Ty::P(s)));
                    }
                    1 => {
                        self.op("gen", "", vec![Self::v(&c)], Some(Ty::P(s)));
                    }
                    _ => {
                        if s.shipped && !self.spend(500) {
                            return false;
                        }
                        let Some((x, y)) = self.some_point(s) else { return false };
                        if self.r.p(1, 3) {
                            let p = s.c.f.p.clone();
                            let q = p.clone();
                            let Some(f) = self.find(&|t| *t == Ty::F(q.clone())) else { return false };
                            let a = self.op("elt", "", vec![Self::v(&f), Self::l(x)], Some(Ty::E(p.clone())));
                            let b = self.op("elt", "", vec![Self::v(&f), Self::l(y)], Some(Ty::E(p)));
                            self.op("pt", "", vec![Self::v(&c), Arg::V(a), Arg::V(b)], Some(Ty::P(s)));
                        } else {
                            self.op("ptl", "", vec![Self::v(&c), Self::l(x), Self::l(y)], Some(Ty::P(s)));
                        }
                    }
                }
            }
            Norm => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                if self.r.p(1, 2) {
                    self.op("normed", "", vec![Self::v(&a)], Some(a.ty.clone()));
                } else {
                    self.op("norm", "", vec![Self::v(&a)], None);
                }
            }
            SArith => {
                let Some(a) = self.find(&|t| matches!(t, Ty::S(_))) else { return false };
                let t = a.ty.clone();
                match self.r.below(6) {
                    0 => {
                        self.op("neg", if self.coin() { "v" } else { "r" }, vec![Self::v(&a)], Some(t));
                    }
                    1 => {
                        self.spend(10);
                        self.op("rinv", "", vec![Self::v(&a), Self::l("1")], Some(t));
                    }
                    2 => {
                        let Some(b) = self.find(&|x| *x == t) else { return false };
                        self.op("eq", "", vec![Self::v(&a), Self::v(&b)], None);
                    }
                    _ => {
                        let Some(b) = self.find(&|x| *x == t) else { return false };
                        let var = self.var2();
                        let o = *self.r.pick(&["add", "sub", "mul", "div"]);
                        self.op(o, var, vec![Self::v(&a), Self::v(&b)], Some(t));
                    }
                }
            }
            SSer => {
                let Some(a) = self.find(&|t| matches!(t, Ty::S(_))) else { return false };
                let Ty::S(s) = a.ty.clone() else { return false };
                if self.r.p(1, 2) {
                    let d = *self.r.pick(&["lr", "rl"]);
                    self.op("bits", "", vec![Self::v(&a), Self::l(d)], None);
                } else {
                    let o = *self.r.pick(&["tobe", "tole"]);
                    self.op(o, "", vec![Self::v(&a)], Some(Ty::BF(s.c.r.clone())));
                }
            }
            SMake => {
                let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                let Ty::C(s) = c.ty.clone() else { return false };
                if self.r.p(1, 4) {
                    let Some(b) = self.find(&|t| matches!(t, Ty::BF(_))) else { return false };
                    self.op("scbe", "", vec![Self::v(&c), Self::v(&b)], Some(Ty::S(s)));
                } else {
                    let k = self.scalar_lit(s);
                    let o = *self.r.pick(&["sc", "scnew"]);
                    self.op(o, "", vec![Self::v(&c), Self::l(k)], Some(Ty::S(s)));
                }
            }
            MapMk => {
                let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                let Ty::C(s) = c.ty.clone() else { return false };
                self.make_map(&c, s);
            }
            MapUse => return self.use_map(),
            Clone => {
                let Some(a) = self.find(&|t| !t.local() && !matches!(t, Ty::K(k, _, _) if k != "sswu")) else { return false };
                self.op("clone", "", vec![Self::v(&a)], Some(a.ty.clone()));
            }
            Drop => {
                let me = self.who;
                let own: Vec<usize> = (0..self.regs.len()).filter(|&i| self.regs[i].who == me && !self.regs[i].gone && me != Who::Setup).collect();
                if own.len() < 3 {
                    return false;
                }
                let i = own[self.r.idx(own.len())];
                self.regs[i].gone = true;
                let id = self.regs[i].id;
                self.op("drop", "", vec![Arg::V(id)], None);
            }
            InPlace => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_) | Ty::E(_) | Ty::H(_))) else { return false };
                let o = match a.ty {
                    Ty::P(_) => "norm",
                    _ => *self.r.pick(&["setzero", "setone"]),
                };
                // mostly on a clone, so that there is something to be kept apart from
                let id = if self.r.p(2, 3) { self.op("clone", "", vec![Self::v(&a)], Some(a.ty.clone())) } else { a.id };
                self.op(o, "", vec![Arg::V(id)], None);
            }
            NewInst if self.r.p(1, 6) => {
                let n = self.r.logu(3, 8);
                self.crowd(n);
            }
            NewInst => {
                let Some(a) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_) | Ty::C(_))) else { return false };
                match &a.ty {
                    Ty::F(p) => self.op("fld", "", vec![Self::l(p)], Some(a.ty.clone())),
                    Ty::G(p) => self.op("fld2", "", vec![Self::l(p)], Some(a.ty.clone())),
                    Ty::C(s) => {
                        if self.r.p(1, 2) {
                            self.op("cur", "", vec![Self::l(&s.name)], Some(a.ty.clone()))
                        } else {
                            self.op("fieldof", "", vec![Self::v(&a)], Some(Ty::F(s.c.f.p.clone())))
                        }
                    }
                    _ => return false,
                };
            }
            Misuse => return self.misuse(),
            Show => {
                let Some(a) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_) | Ty::E(_) | Ty::H(_) | Ty::C(_) | Ty::P(_) | Ty::S(_) | Ty::N(_))) else { return false };
                let o = *self.r.pick(&["show", "show", "showf"]);
                self.op(o, "", vec![Self::v(&a)], None);
            }
            Const => {
                let Some(a) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_) | Ty::C(_) | Ty::N(_))) else { return false };
                let o = match a.ty {
                    Ty::N(_) => *self.r.pick(&["getc", "eq"]),
                    Ty::C(_) => *self.r.pick(&["ord", "cof", "eq"]),
                    _ => *self.r.pick(&["modulus", "fsize", "eq"]),
                };
                if o == "eq" {
                    let t = a.ty.clone();
                    let Some(b) = self.find(&|x| std::mem::discriminant(x) == std::mem::discriminant(&t)) else { return false };
                    if let (Ty::C(x), Ty::C(y)) | (Ty::N(x), Ty::N(y)) = (&a.ty, &b.ty) {
                        if x.kind() != y.kind() {
                            return false;
                        }
                    }
                    self.op("eq", "", vec![Self::v(&a), Self::v(&b)], None);
                } else {
                    let t = match &a.ty {
                        Ty::N(s) => Some(Ty::C(s)),
                        _ => None,
                    };
                    self.op(o, "", vec![Self::v(&a)], t);
                }
            }
            Print => {
                let Some(a) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_) | Ty::E(_) | Ty::H(_) | Ty::C(_) | Ty::P(_) | Ty::S(_) | Ty::N(_))) else { return false };
                let var = if self.r.p(3, 4) { "" } else { *self.r.pick(&["pad", "alt", "prec", "plus", "twice"]) };
                self.op("print", var, vec![Self::v(&a)], None);
                if self.r.p(4, 5) {
                    let k = if self.r.p(1, 3) { self.r.below(8) } else { self.r.logu(0, 9) };
                    let c = *self.r.pick(&["err", "err", "err1", "panic", "yield", "reenter", "reenter", "stall"]);
                    let re = format!("reenter{}", self.r.below(1000));
                    let c = if c == "reenter" { re.as_str() } else { c };
                    let c = if c == "stall" { format!("stall{}@{}", self.r.logu(8, 22), k) } else { format!("{}@{}", c, k) };
                    self.last().cb = Some(c);
                }
            }
            UserMap => return self.user_map(),
            Corrupt => {
                let Some(b) = self.find(&|t| matches!(t, Ty::BC(_) | Ty::BF(_) | Ty::BG(_))) else { return false };
                let mut a = vec![Self::v(&b)];
                let mut n = if self.r.p(3, 4) { 1 } else { 2 + self.r.below(2) };
                if self.r.p(1, 5) {
                    let h = crate::val::hex(&self.crafted(&b.ty));
                    a.push(Self::l(format!("lit:{}", h)));
                    n = if self.r.p(3, 4) { 0 } else { 1 };
                }
                for _ in 0..n {
                    let m = self.mutation();
                    a.push(Self::l(m));
                }
                self.op("corrupt", "", a, Some(b.ty.clone()));
            }
        }
        true
    }
    /// a message such as a hostile party sends: numbers at and beyond the modulus, other tags
    pub fn crafted(&mut self, t: &Ty) -> Vec<u8> {
        let edge = |g: &mut Gen, p: &U, v: &U, size: usize| -> U {
            let lim = U::from(1u32) << (8 * size);
            let n = match g.r.below(10) {
                0 => U::from(0u32),
                1 => U::from(g.r.below(4)),
                2 | 3 => p.clone(),
                4 => p + U::from(1 + g.r.below(3)),
                5 => p - 1u32,
                6 => &lim - 1u32 - U::from(g.r.below(2)),
                7 | 8 => v + p * U::from(1 + g.r.below(2)),
                _ => v.clone(),
            };
            n % lim
        };
        match t {
            Ty::BC(s) => {
                let s: S = s;
                let p = s.c.f.p.clone();
                let pt = self.some_point(s).unwrap_or((U::from(0u32), U::from(1u32)));
                let keep = self.r.below(4); // which coordinate stays as it is
                if s.kind() == Kind::T {
                    let size = (p.bits() as usize + 1).div_ceil(8);
                    let n = edge(self, &p, &pt.1, size);
                    let mut b = model::pad_be(&n, size);
                    b.reverse();
                    if self.r.p(1, 2) {
                        b[size - 1] ^= 128;
                    }
                    return b;
                }
                let size = (p.bits() as usize).div_ceil(8);
                let x = if keep == 1 { pt.0.clone() } else { edge(self, &p, &pt.0, size) };
                let y = if keep == 0 { pt.1.clone() } else { edge(self, &p, &pt.1, size) };
                let tag = if self.r.p(1, 6) { self.r.below(256) as u8 } else { *self.r.pick(&[2u8, 2, 3, 3, 4, 4, 4, 4, 0, 1, 5]) };
                let long = if self.r.p(1, 8) { self.r.p(1, 2) } else { tag == 4 };
                let mut b = vec![tag];
                b.extend(model::pad_be(&x, size));
                if long {
                    b.extend(model::pad_be(&y, size));
                }
                b
            }
            Ty::BF(p) => {
                let size = (p.bits() as usize).div_ceil(8);
                let v = rbig(&mut self.r, p);
                let n = edge(self, p, &v, size);
                let mut b = model::pad_be(&n, size);
                if self.r.p(1, 2) {
                    b.reverse();
                }
                b
            }
            Ty::BG(p) => {
                let size = (p.bits() as usize).div_ceil(8);
                let mut b = vec![];
                for _ in 0..2 {
                    let v = rbig(&mut self.r, p);
                    let n = edge(self, p, &v, size);
                    b.extend(model::pad_be(&n, size));
                }
                b
            }
            _ => vec![],
        }
    }
    pub fn mutation(&mut self) -> String {
        let r = &mut self.r;
        match r.below(18) {
            17 => "sign0".into(),
            0..=2 => format!("flip{}", if r.p(1, 3) { r.below(16) } else { r.below(1100) }),
            3 => format!("cut{}", if r.p(1, 2) { 1 } else { r.below(140) }),
            4 => format!("keep{}", if r.p(1, 2) { r.below(3) } else { r.below(140) }),
            5 => format!("grow{}_{}", if r.p(1, 6) { *r.pick(&[128u64, 256, 256, 512, 65536]) } else if r.p(1, 10) { r.logu(6, 16) } else { 1 + r.below(3) }, r.below(256)),
            6 => format!("pre{}_{}", 1 + r.below(2), if r.p(1, 2) { 0 } else { r.below(256) }),
            7 => format!("del{}", if r.p(1, 2) { 0 } else { r.below(140) }),
            8 => format!("dup{}", if r.p(1, 2) { 0 } else { r.below(140) }),
            9 => format!("ins{}_{}", r.below(140), if r.p(1, 2) { 0 } else { r.below(256) }),
            10 => format!("swap{}_{}", r.below(140), r.below(140)),
            11 => format!("{}{}", if r.p(1, 2) { "zero" } else { "ones" }, r.below(70)),
            12 => format!("set{}_{}", if r.p(1, 2) { 0 } else { r.below(140) }, if r.p(1, 2) { r.below(8) } else { r.below(256) }),
            13 => format!("inc{}_{}", r.below(140), 1 + r.below(255)),
            14 => format!("rand{}_{}", r.below(70), r.next() >> 8),
            15 => {
                if r.p(1, 2) {
                    "rev".into()
                } else {
                    format!("rot{}", r.below(70))
                }
            }
            _ => {
                let ids: Vec<u32> = self.regs.iter().filter(|x| matches!(x.ty, Ty::BC(_) | Ty::BF(_) | Ty::BG(_))).map(|x| x.id).collect();
                if ids.is_empty() {
                    return "rev".into();
                }
                let i = ids[self.r.idx(ids.len())];
                format!("{}{}", if self.r.p(1, 2) { "take" } else { "cat" }, i)
            }
        }
    }
    pub fn make_map(&mut self, c: &Reg, s: S) {
        if s.no_sums() {
            return;
        }
        let p = s.c.f.p.clone();
        let z = match self.r.below(4) {
            0 => "-1".to_string(),
            1 => "2".to_string(),
            _ => match (&s.z, s.name.as_str()) {
                (Some(z), _) => z.to_string(),
                (None, "P256") => "-10".into(),
                (None, "P384") => "-12".into(),
                (None, "P521") => "-4".into(),
                (None, "SECP256K1_3ISO") => "-11".into(),
                (None, "BLS12381G1_11ISO") => "11".into(),
                (None, "BLS12381G1") => "-3".into(),
                (None, "SECP256K1") => "1".into(),
                _ => self.num(&p),
            },
        };
        match s.kind() {
            Kind::W => match self.r.below(3) {
                0 => {
                    self.op("sswu", "", vec![Self::v(c), Self::l(z)], Some(Ty::K("sswu".into(), s, p)));
                }
                1 => {
                    self.op("svdw", "", vec![Self::v(c), Self::l(z)], Some(Ty::K("svdw".into(), s, p)));
                }
                _ => {
                    // onto s from somewhere
                    let i = match s.name.as_str() {
                        "SECP256K1" => "isecp".to_string(),
                        "BLS12381G1" => "ibls".to_string(),
                        n if !s.shipped => {
                            let t = spec::toys(Kind::W);
                            let d = t[self.r.idx(t.len())];
                            format!("itoy.{}.{}", d.name, n)
                        }
                        _ => return,
                    };
                    let Some((d, _)) = crate::val::iso_specs(&i) else { return };
                    let z = match i.as_str() {
                        "isecp" => "-11".to_string(),
                        "ibls" => "11".to_string(),
                        _ => self.num(&d.c.f.p),
                    };
                    if self.r.p(1, 3) {
                        self.op("iso", "", vec![Self::l(&i)], Some(Ty::I(i)));
                    } else {
                        self.op("ab0", "", vec![Self::v(c), Self::l(z), Self::l(&i)], Some(Ty::K(format!("ab0.{}", i), s, d.c.f.p.clone())));
                    }
                }
            },
            Kind::M => {
                self.op("ell", "", vec![Self::v(c), Self::l(z)], Some(Ty::K("ell".into(), s, p)));
            }
            Kind::T => {
                if s.name.contains('~') {
                    return;
                }
                let n = crate::val::rat_for(s);
                if self.r.p(1, 2) {
                    self.op("rat", "", vec![Self::l(&n)], Some(Ty::R(n)));
                } else {
                    self.op("ellt", "", vec![Self::v(c), Self::l(z), Self::l(n)], Some(Ty::K("ellt".into(), s, p)));
                }
            }
        }
    }
    /// use a map that calls the user back, making it and what it needs if there is none
    fn user_map(&mut self) -> bool {
        let own = |g: &mut Gen, f: &dyn Fn(&Ty) -> bool| -> Option<Reg> {
            let me = g.who;
            let v: Vec<Reg> = g.regs.iter().filter(|r| r.who == me && !r.gone && f(&r.ty)).cloned().collect();
            if v.is_empty() {
                None
            } else {
                Some(v[g.r.idx(v.len())].clone())
            }
        };
        let have = own(self, &|t| t.local());
        let k = match have {
            Some(k) if self.r.p(7, 8) => k,
            _ => {
                let usable = |t: &Ty| match t {
                    Ty::C(s) => match s.kind() {
                        Kind::T => !s.name.contains('~'),
                        Kind::W => !s.shipped || matches!(s.name.as_str(), "SECP256K1" | "BLS12381G1"),
                        _ => false,
                    },
                    _ => false,
                };
                let c = match self.find(&usable) {
                    Some(c) => c,
                    None => {
                        let s = loop {
                            let s = if self.r.p(1, 6) { self.any_shipped() } else { self.toy() };
                            if usable(&Ty::C(s)) {
                                break s;
                            }
                        };
                        let id = self.op("cur", "", vec![Self::l(&s.name)], Some(Ty::C(s)));
                        self.regs.iter().find(|r| r.id == id).unwrap().clone()
                    }
                };
                let Ty::C(s) = c.ty.clone() else { return false };
                let n0 = self.regs.len();
                for _ in 0..12 {
                    self.make_map(&c, s);
                    if self.regs.len() > n0 && self.regs.last().unwrap().ty.local() {
                        break;
                    }
                    // not one of the user's
                    while self.regs.len() > n0 {
                        self.regs.pop();
                        self.plan.ops.pop();
                        self.next -= 1;
                    }
                }
                if self.regs.len() == n0 {
                    return false;
                }
                self.regs.last().unwrap().clone()
            }
        };
        match k.ty.clone() {
            Ty::K(_, s, p) => {
                if !self.spend(Self::w(&p) * p.bits() / 8 + 20) {
                    return false;
                }
                let q = p.clone();
                let u = match self.find(&|t| *t == Ty::E(q.clone())) {
                    Some(u) if self.r.p(3, 4) => u.id,
                    _ => {
                        let f = self.op("fld", "", vec![Self::l(&p)], Some(Ty::F(p.clone())));
                        let n = self.num(&p);
                        self.op("elt", "", vec![Arg::V(f), Self::l(n)], Some(Ty::E(p.clone())))
                    }
                };
                self.op("map", "", vec![Self::v(&k), Arg::V(u)], Some(Ty::P(s)));
            }
            ref t @ (Ty::R(_) | Ty::I(_)) => {
                let (a, b, rat) = match t {
                    Ty::R(n) => {
                        let Some((a, b)) = crate::val::rat_specs(n) else { return false };
                        (a, b, true)
                    }
                    Ty::I(n) => {
                        let Some((a, b)) = crate::val::iso_specs(n) else { return false };
                        (a, b, false)
                    }
                    _ => return false,
                };
                if !self.spend(300) {
                    return false;
                }
                let (o, from, to) = if rat && self.r.p(1, 2) { ("pull", b, a) } else { ("push", a, b) };
                let x = match self.find(&|t| *t == Ty::P(from)) {
                    Some(x) if self.r.p(4, 5) => x.id,
                    _ => {
                        let c = self.op("cur", "", vec![Self::l(&from.name)], Some(Ty::C(from)));
                        match self.some_point(from) {
                            Some((x, y)) => self.op("ptl", "", vec![Arg::V(c), Self::l(x), Self::l(y)], Some(Ty::P(from))),
                            None => self.op("gen", "", vec![Arg::V(c)], Some(Ty::P(from))),
                        }
                    }
                };
                self.op(o, "", vec![Self::v(&k), Arg::V(x)], Some(Ty::P(to)));
            }
            _ => return false,
        }
        self.maybe_cb();
        true
    }
    /// `n` operations of one category; after the first, by the same name only
    pub fn same_op(&mut self, cat: Cat, only: &mut Option<String>) -> bool {
        for _ in 0..8 {
            let (a, b, c, budget) = (self.plan.ops.len(), self.regs.len(), self.next, self.budget);
            if !self.emit(cat) {
                continue;
            }
            let name = self.last().name.clone();
            match only {
                Some(n) if *n != name => {
                    self.plan.ops.truncate(a);
                    self.regs.truncate(b);
                    self.next = c;
                    self.budget = budget;
                }
                Some(_) => return true,
                None => {
                    *only = Some(name);
                    return true;
                }
            }
        }
        false
    }
    fn use_map(&mut self) -> bool {
        let Some(k) = self.find(&|t| matches!(t, Ty::K(..) | Ty::R(_) | Ty::I(_))) else { return false };
        match k.ty.clone() {
            Ty::K(kind, s, p) => {
                if !self.spend(Self::w(&p) * p.bits() / 8 + 20) {
                    return false;
                }
                let q = p.clone();
                let Some(u) = self.find(&|t| *t == Ty::E(q.clone())) else { return false };
                self.op("map", "", vec![Self::v(&k), Self::v(&u)], Some(Ty::P(s)));
                if kind == "ellt" || kind.starts_with("ab0") {
                    self.maybe_cb();
                }
            }
            Ty::R(n) => {
                let Some((a, b)) = crate::val::rat_specs(&n) else { return false };
                match self.r.below(5) {
                    0 => {
                        let (o, s) = if self.r.p(1, 2) { ("dom", a) } else { ("cod", b) };
                        self.op(o, "", vec![Self::v(&k)], Some(Ty::C(s)));
                    }
                    1 | 2 => {
                        let Some(p) = self.find(&|t| *t == Ty::P(a)) else { return false };
                        self.op("push", "", vec![Self::v(&k), Self::v(&p)], Some(Ty::P(b)));
                        self.maybe_cb();
                    }
                    _ => {
                        let Some(p) = self.find(&|t| *t == Ty::P(b)) else { return false };
                        self.op("pull", "", vec![Self::v(&k), Self::v(&p)], Some(Ty::P(a)));
                        self.maybe_cb();
                    }
                }
            }
            Ty::I(n) => {
                let Some((a, b)) = crate::val::iso_specs(&n) else { return false };
                if self.r.p(1, 4) {
                    let (o, s) = if self.r.p(1, 2) { ("dom", a) } else { ("cod", b) };
                    self.op(o, "", vec![Self::v(&k)], Some(Ty::C(s)));
                } else {
                    let Some(p) = self.find(&|t| *t == Ty::P(a)) else { return false };
                    if !self.spend(300) {
                        return false;
                    }
                    self.op("push", "", vec![Self::v(&k), Self::v(&p)], Some(Ty::P(b)));
                    self.maybe_cb();
                }
            }
            _ => return false,
        }
        true
    }
    /// calls that must be refused
    pub fn misuse(&mut self) -> bool {
        match self.r.below(9) {
            0 => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let t = a.ty.clone();
                let Some(b) = self.find(&|x| *x != t && std::mem::discriminant(x) == std::mem::discriminant(&t)) else { return false };
                let o = *self.r.pick(&["add", "sub", "mul", "div", "eq"]);
                self.op(o, "rr", vec![Self::v(&a), Self::v(&b)], if o == "eq" { None } else { Some(t) });
            }
            1 => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let Ty::P(s) = a.ty.clone() else { return false };
                let Some(b) = self.find(&|x| matches!(x, Ty::P(q) if *q != s && q.kind() == s.kind())) else { return false };
                let o = *self.r.pick(&["add", "sub", "eq"]);
                self.op(o, "rr", vec![Self::v(&a), Self::v(&b)], if o == "eq" { None } else { Some(Ty::P(s)) });
            }
            2 => {
                let Some(a) = self.find(&|t| matches!(t, Ty::P(_))) else { return false };
                let Ty::P(s) = a.ty.clone() else { return false };
                let Some(b) = self.find(&|x| matches!(x, Ty::S(q) if *q != s && q.kind() == s.kind())) else { return false };
                if !self.spend(200) {
                    return false;
                }
                self.op("smul", "rr", vec![Self::v(&a), Self::v(&b)], Some(Ty::P(s)));
            }
            3 => {
                let Some(a) = self.find(&Self::is_e) else { return false };
                let (o, n) = *self.r.pick(&[("sq", "3"), ("inv", "-2"), ("inv", "2"), ("rinv", "2"), ("sq", "0")]);
                self.op(o, "r", vec![Self::v(&a), Self::l(n)], Some(a.ty.clone()));
            }
            4 => {
                let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                let Ty::C(s) = c.ty.clone() else { return false };
                let (x, y) = (self.num(&s.c.f.p), self.num(&s.c.f.p));
                self.op("ptl", "", vec![Self::v(&c), Self::l(x), Self::l(y)], Some(Ty::P(s)));
            }
            5 => {
                let Some(f) = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_))) else { return false };
                let et = match &f.ty {
                    Ty::F(p) => Ty::E(p.clone()),
                    Ty::G(p) => Ty::H(p.clone()),
                    _ => return false,
                };
                let s = *self.r.pick(&["zz", "0x", "-", "0b2", "1,2,3", ",", "12a", "--3", "0o9", "0X1f", "+5", "1_000"]);
                self.op("estr", "", vec![Self::v(&f), Self::l(s)], Some(et));
            }
            6 => {
                // no square roots over this field
                let p = U::from([17u32, 41, 73, 97, 193, 257, 65537, 7681][self.r.idx(8)]);
                let f = self.op("fld", "", vec![Self::l(&p)], Some(Ty::F(p.clone())));
                let n = self.num(&p);
                let e = self.op("elt", "", vec![Arg::V(f), Self::l(n)], Some(Ty::E(p.clone())));
                self.op("sqrt", "", vec![Arg::V(e)], Some(Ty::E(p)));
            }
            7 => {
                let Some(c) = self.find(&|t| matches!(t, Ty::C(_))) else { return false };
                let Ty::C(s) = c.ty.clone() else { return false };
                let Some(b) = self.find(&|t| matches!(t, Ty::BF(_) | Ty::BC(_))) else { return false };
                if !self.spend(Self::w(&s.c.f.p) * s.bits() / 32 + 5) {
                    return false;
                }
                self.op("dec", "", vec![Self::v(&c), Self::v(&b)], Some(Ty::P(s)));
            }
            _ => {
                let Some(a) = self.find(&|t| matches!(t, Ty::S(_))) else { return false };
                let Ty::S(s) = a.ty.clone() else { return false };
                let Some(b) = self.find(&|x| matches!(x, Ty::S(q) if *q != s && q.kind() == s.kind())) else { return false };
                let o = *self.r.pick(&["add", "mul", "div"]);
                self.op(o, "rr", vec![Self::v(&a), Self::v(&b)], Some(Ty::S(s)));
            }
        }
        true
    }

    // ------------------------------------------------------------ schedules
    pub fn policy(&mut self, p_stall: u32, p_spur: u32) -> Pol {
        let r = &mut self.r;
        match r.below(10) {
            0 => Pol::None,
            1..=3 => Pol::Pct { depth: 1 + r.below(6) as u32, span: r.logu(5, 16) },
            _ => {
                let cold = match r.below(12) {
                    0..=3 => *r.pick(&[30, 100, 300, 500]),
                    4..=7 => *r.pick(&[1002, 1005, 1010, 1020, 1050, 1100]),
                    _ => 0,
                };
                let sync = *r.pick(&[0, 0, 0, 30, 100, 300, 500, 1010, 1030, 1100, 1300, 1500]);
                // the odd switch elsewhere
                let mean = if cold > 1000 || sync > 0 && r.p(2, 3) { r.logu(12, 20) } else if cold > 0 && r.p(3, 4) { r.logu(8, 16) } else { r.logu(1, 13) };
                let burst = if r.p(1, 2) { r.logu(0, 4) } else { 0 };
                Pol::Random { mean, burst, p_burst: if burst > 0 { *r.pick(&[20u32, 100, 300]) } else { 0 }, p_stall: if r.p(1, 2) { p_stall } else { 0 }, stall_ns: r.logu(9, 20), p_spur: if r.p(1, 2) { p_spur } else { 0 }, cold, sync }
            }
        }
    }
    /// a great many short-lived objects
    pub fn crowd(&mut self, n: u64) {
        let of = self.find(&|t| matches!(t, Ty::F(_) | Ty::G(_) | Ty::C(_)));
        match of {
            Some(x) if self.r.p(1, 2) => {
                let c = match &x.ty {
                    Ty::C(s) => Self::w(&s.c.f.p) * s.bits() / 16 + 20,
                    Ty::F(p) => Self::w(p) * p.bits() / 64 + 5,
                    _ => 5,
                };
                let n = n.min((self.budget.max(0) as u64 / c).max(1));
                if self.spend(n * c) {
                    self.op("crowd", "", vec![Self::v(&x), Self::l(n)], None);
                }
            }
            _ => {
                let n = n.min(4 * self.budget.max(1) as u64);
                if self.spend(n / 4) {
                    self.op("crowd", "", vec![Self::l(n)], None);
                }
            }
        }
    }
    /// sprinkle scheduling noise over tasks: barriers
    pub fn barrier(&mut self, ntasks: u64) {
        for t in 0..ntasks {
            self.who = Who::Task(t as u8);
            self.op("barrier", "", vec![], None);
        }
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
