//! Curve specifications by name, shared by the model and the real construction.
use model::{Kind, Spec, C, U};
use num_traits::Zero;
use redox_ecc::instances::*;
use redox_ecc::{edwards as t, montgomery as m, weierstrass as w};
use std::collections::BTreeMap;

pub struct Sp {
    pub name: String,
    pub c: C,
    pub spec: Spec,
    pub shipped: bool,
    /// names of variants (other generator / order) of the same curve
    pub wp: Option<w::Params>,
    pub mp: Option<m::Params>,
    pub tp: Option<t::Params>,
    /// Edwards toys: scaling to the Montgomery toy of the same index
    pub tscale: Option<U>,
    /// non-square suitable for elligator
    pub z: Option<U>,
}
pub type S = &'static Sp;

pub struct Reg {
    pub all: Vec<S>,
    by: BTreeMap<String, S>,
}
static mut REG: Option<Reg> = None;

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn build(spec: Spec, name: String, shipped: bool, tscale: Option<U>, z: Option<U>) -> S {
    let c = C::new(&spec);
    let (mut wp, mut mp, mut tp) = (None, None, None);
    let p = leak(c.f.p.to_string());
    let dec = |u: &U| leak(u.to_string());
    let f = &c.f;
    let s = f.of(&model::big(spec.s));
    match spec.kind {
        Kind::W => wp = Some(w::Params { name: leak(name.clone()), p, a: dec(&c.a), b: dec(&c.b), r: dec(&c.r), h: dec(&c.h), gx: dec(&c.g.0), gy: dec(&c.g.1) }),
        Kind::M => mp = Some(m::Params { name: leak(name.clone()), p, a: dec(&c.a), b: dec(&c.b), s: dec(&s), r: dec(&c.r), h: dec(&c.h), gx: dec(&c.g.0), gy: dec(&c.g.1) }),
        Kind::T => tp = Some(t::Params { name: leak(name.clone()), p, a: dec(&c.a), d: dec(&c.b), r: dec(&c.r), h: dec(&c.h), gx: dec(&c.g.0), gy: dec(&c.g.1) }),
    }
    Box::leak(Box::new(Sp { name, c, spec, shipped, wp, mp, tp, tscale, z }))
}

pub fn init() {
    unsafe {
        if (*(&raw const REG)).is_some() {
            return;
        }
    }
    let mut all: Vec<S> = vec![];
    let mut add = |spec: Spec, shipped: bool, ts: Option<U>, z: Option<U>| {
        let base = build(spec.clone(), spec.name.to_string(), shipped, ts, z);
        all.push(base);
        if !shipped {
            // same curve, different generator
            let g2 = base.c.add(&base.c.gen(), &base.c.gen()).unwrap();
            let mut v = spec.clone();
            v.gx = leak(g2.0.to_string());
            v.gy = leak(g2.1.to_string());
            all.push(build(v, format!("{}~g", spec.name), false, None, None));
            // same curve, different declared order
            let mut v = spec.clone();
            v.r = leak((&base.c.r + 2u32).to_string());
            all.push(build(v, format!("{}~r", spec.name), false, None, None));
            // another coefficient of y^2: points can be made, written and read,
            // but the library only adds them when it is one
            if spec.kind == Kind::M {
                let mut v = spec.clone();
                let mut k = 2u32 + (all.len() as u32 * 7) % 19;
                loop {
                    v.b = leak(k.to_string());
                    let c = C::new(&v);
                    let one = U::from(1u32);
                    if c.b != one && c.b != &c.f.p - 1u32 && !c.b.is_zero() {
                        let g = (1u32..).find_map(|x| c.lift(&(U::from(x) % &c.f.p)).filter(|p| !p.1.is_zero()));
                        let Some(g) = g else { break };
                        v.gx = leak(g.0.to_string());
                        v.gy = leak(g.1.to_string());
                        break;
                    }
                    k += 1;
                }
                all.push(build(v, format!("{}~b", spec.name), false, None, None));
            }
        }
    };
    for s in model::shipped::ALL {
        let z = match s.kind {
            Kind::M | Kind::T => {
                let f = C::new(s).f;
                let mut z = U::from(2u32);
                while f.is_square(&z) {
                    z += 1u32;
                }
                Some(z)
            }
            _ => None,
        };
        add(s.clone(), true, None, z);
    }
    for k in [Kind::W, Kind::M, Kind::T] {
        for (i, s) in model::toy_specs(k).into_iter().enumerate() {
            let z = match k {
                Kind::M => Some(model::big(model::toys::MS[i].z).to_biguint().unwrap()),
                Kind::T => Some(model::big(model::toys::TS[i].z).to_biguint().unwrap()),
                _ => None,
            };
            let ts = match k {
                Kind::T => Some(model::big(model::toys::TS[i].t).to_biguint().unwrap()),
                _ => None,
            };
            add(s, false, ts, z);
        }
    }
    let by = all.iter().map(|s| (s.name.clone(), *s)).collect();
    unsafe {
        REG = Some(Reg { all, by });
    }
}
pub fn reg() -> &'static Reg {
    unsafe { (*(&raw const REG)).as_ref().unwrap() }
}
pub fn get(name: &str) -> Option<S> {
    reg().by.get(name).copied()
}
pub fn toys(k: Kind) -> Vec<S> {
    reg().all.iter().copied().filter(|s| !s.shipped && s.spec.kind == k && !s.name.contains('~')).collect()
}
pub fn shipped(k: Kind) -> Vec<S> {
    reg().all.iter().copied().filter(|s| s.shipped && s.spec.kind == k).collect()
}
impl Sp {
    pub fn kind(&self) -> Kind {
        self.spec.kind
    }
    pub fn real_w(&self) -> w::Curve {
        if self.shipped {
            match self.name.as_str() {
                "P256" => return P256.get(),
                "P384" => return P384.get(),
                "P521" => return P521.get(),
                "SECP256K1" => return SECP256K1.get(),
                "SECP256K1_3ISO" => return SECP256K1_3ISO.get(),
                "BLS12381G1" => return BLS12381G1.get(),
                "BLS12381G1_11ISO" => return BLS12381G1_11ISO.get(),
                _ => {}
            }
        }
        w::Curve::from(self.wp.as_ref().unwrap())
    }
    pub fn real_m(&self) -> m::Curve {
        if self.shipped {
            match self.name.as_str() {
                "CURVE25519" => return CURVE25519.get(),
                "CURVE448" => return CURVE448.get(),
                _ => {}
            }
        }
        m::Curve::from(self.mp.as_ref().unwrap())
    }
    pub fn real_t(&self) -> t::Curve {
        if self.shipped {
            match self.name.as_str() {
                "EDWARDS25519" => return EDWARDS25519.get(),
                "EDWARDS448" => return EDWARDS448.get(),
                _ => {}
            }
        }
        t::Curve::from(self.tp.as_ref().unwrap())
    }
    pub fn cofactor_one(&self) -> bool {
        self.c.h == U::from(1u32)
    }
    /// points whose order is a small prime power: the same list every time
    pub fn small(&'static self) -> &'static [model::P] {
        static mut CACHE: Vec<(&'static str, &'static [model::P])> = vec![];
        let cache = unsafe { &mut *(&raw mut CACHE) };
        if let Some(x) = cache.iter().find(|x| std::ptr::eq(x.0, self.name.as_str())) {
            return x.1;
        }
        let c = &self.c;
        let n = &c.r * &c.h;
        let mut out: Vec<model::P> = vec![];
        let mut x = U::from(0u32);
        let limit = if self.c.f.p.bits() > 40 { 300u32 } else { 40 };
        for q in 2..limit {
            let mut m = n.clone();
            let mut v = 0;
            while (&m % q).is_zero() {
                m /= q;
                v += 1;
            }
            if v == 0 || (2..q).any(|d| q % d == 0) || m.is_zero() {
                continue;
            }
            let mut found = 0;
            for _ in 0..60 {
                x += 1u32;
                let Some(p) = c.lift(&(&x % &c.f.p)) else { continue };
                let mut t = c.mul(&m, &Some(p));
                let mut chain = vec![];
                for _ in 0..v {
                    if c.is_id(&t) {
                        break;
                    }
                    chain.push(t.clone());
                    t = c.mul(&U::from(q), &t);
                }
                if chain.is_empty() || !c.is_id(&t) {
                    continue;
                }
                let base = chain.pop().unwrap();
                out.extend(chain);
                let mut t = base.clone();
                for _ in 1..q.min(12) {
                    out.push(t.clone());
                    t = c.add(&t, &base);
                }
                found += 1;
                if found == 3 {
                    break;
                }
            }
        }
        let mut u: Vec<model::P> = vec![];
        for t in out {
            if !c.is_id(&t) && !u.contains(&t) && u.len() < 200 {
                u.push(t);
            }
        }
        let u: &'static [model::P] = Box::leak(u.into_boxed_slice());
        cache.push((self.name.as_str(), u));
        u
    }
    pub fn bits(&self) -> u64 {
        self.c.f.p.bits()
    }
    /// square roots are supported over this field
    pub fn sqrt_ok(&self) -> bool {
        let r: U = &self.c.f.p % 8u32;
        let r = r.to_u32_digits().first().copied().unwrap_or(0);
        r % 4 == 3 || r == 5
    }
    /// points of this curve cannot be added
    pub fn no_sums(&self) -> bool {
        self.name.ends_with("~b")
    }
    pub fn b_zero(&self) -> bool {
        self.c.b.is_zero()
    }
}
