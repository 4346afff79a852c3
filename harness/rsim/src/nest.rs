//! What a call-back does when it calls back into the library: a few seeded
//! operations on fresh objects with the values of those alive at the moment,
//! each judged like any other operation.
use crate::machine;
use crate::ops::{self, A, MA, O};
use crate::spec;
use crate::val::*;
use model::{Kind, U};
use simrt::heap::AllocFailed;
use simrt::rng::Rng;
use simrt::sched;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

type Call = (&'static str, &'static str, Vec<MA>);

fn big(r: &mut Rng, p: &U) -> U {
    match r.below(4) {
        0 => U::from(r.below(6)) % p,
        1 => p - U::from(1 + r.below(3)).min(p.clone()),
        _ => (U::from(r.next()) * U::from(r.next()) * U::from(r.next())) % p,
    }
}
fn l(s: impl ToString) -> MA {
    MA::L(s.to_string())
}
fn point(r: &mut Rng, s: spec::S) -> M {
    let k = if s.shipped { r.below(5) } else { r.below(50) };
    M::P(s, s.c.mul(&U::from(k), &s.c.gen()))
}

fn choose(r: &mut Rng, ms: &[M]) -> Option<Call> {
    let m = r.pick(ms).clone();
    let x = MA::M(m.clone());
    let same = |r: &mut Rng, f: &dyn Fn(&M) -> bool| -> M {
        let v: Vec<&M> = ms.iter().filter(|m| f(m)).collect();
        if v.is_empty() {
            m.clone()
        } else {
            (*r.pick(&v)).clone()
        }
    };
    Some(match &m {
        M::E(p, _) | M::H(p, _, _) => {
            let d = matches!(m, M::H(..));
            let y = MA::M(same(r, &|o| match o {
                M::E(q, _) => !d && p == q,
                M::H(q, _, _) => d && p == q,
                _ => false,
            }));
            match r.below(14) {
                0 | 1 => ("sqrt", "", vec![x]),
                2 => ("issq", "", vec![x]),
                3 => ("inv", "", vec![x, l(-1)]),
                4 => ("sq", "", vec![x, l(2)]),
                5 => ("neg", "", vec![x]),
                6 => ("tobe", "", vec![x]),
                7 => ("show", "", vec![x]),
                8 => ("add", "rr", vec![x, y]),
                9 => ("div", "rr", vec![x, y]),
                10 => ("sgn", "", vec![x]),
                11 => ("powu", "", vec![x, l(r.below(1000))]),
                12 if !d => ("estr", "", vec![MA::M(M::F(p.clone())), l(r.next())]),
                12 => ("estr", "", vec![MA::M(M::G(p.clone())), l(format!("{},{}", r.next(), r.next()))]),
                _ => ("mul", "rr", vec![x, y]),
            }
        }
        M::F(p) | M::G(p) => match r.below(6) {
            0 => ("show", "", vec![x]),
            1 => ("elt", "", vec![x, l(r.next())]),
            2 => ("one", "", vec![x]),
            3 if matches!(m, M::F(_)) => ("fld", "", vec![l(p)]),
            3 => ("fld2", "", vec![l(p)]),
            4 if matches!(m, M::F(_)) => ("sqrt", "", vec![MA::M(M::E(p.clone(), U::from(4u32) % p))]),
            _ => ("fsize", "", vec![x]),
        },
        M::C(s) => {
            let s: spec::S = s;
            match r.below(8) {
                0 => ("gen", "", vec![x]),
                1 => ("show", "", vec![x]),
                2 => ("cur", "", vec![l(&s.name)]),
                3 => ("sc", "", vec![x, l(r.next())]),
                4 => ("eq", "", vec![x.clone(), x]),
                5 => {
                    let Some((a, b)) = s.c.gen() else { return None };
                    ("ptl", "", vec![x, l(a), l(b)])
                }
                6 => {
                    let g = point(r, s);
                    let M::P(_, q) = &g else { return None };
                    ("dec", "", vec![x, MA::M(M::B(s.c.enc(q, r.p(1, 2))))])
                }
                _ => {
                    let n = r.below(4) as usize;
                    ("dec", "", vec![x, MA::M(M::B(vec![r.below(256) as u8; n]))])
                }
            }
        }
        M::P(s, _) => {
            let s: spec::S = s;
            let y = MA::M(same(r, &|o| matches!(o, M::P(t, _) if *t == s)));
            match r.below(9) {
                0 => ("add", "rr", vec![x, y]),
                1 => ("sub", "rr", vec![x, y]),
                2 => ("eq", "", vec![x, y]),
                3 => ("smul", "rr", vec![x, MA::M(M::S(s, U::from(r.below(300)) % &s.c.r))]),
                4 => ("enc", "", vec![x, l(r.below(2))]),
                5 => ("show", "", vec![x]),
                6 => ("normed", "", vec![x]),
                7 => ("oncurve", "", vec![MA::M(M::C(s)), x]),
                _ => ("neg", "", vec![x]),
            }
        }
        M::S(s, _) => {
            let s: spec::S = s;
            let y = MA::M(same(r, &|o| matches!(o, M::S(t, _) if *t == s)));
            match r.below(6) {
                0 => ("add", "rr", vec![x, y]),
                1 => ("mul", "rr", vec![x, y]),
                2 => ("div", "rr", vec![x, y]),
                3 => ("show", "", vec![x]),
                4 => ("tobe", "", vec![x]),
                _ => ("bits", "", vec![x, l(if r.p(1, 2) { "lr" } else { "rl" })]),
            }
        }
        M::K(k, s, _) => {
            let s: spec::S = s;
            // the isogeny-composed map takes elements of the same field
            let _ = k;
            let u = big(r, &s.c.f.p);
            ("map", "", vec![x, MA::M(M::E(s.c.f.p.clone(), u))])
        }
        M::R(n) => {
            let (d, c) = rat_specs(n)?;
            if r.p(1, 2) {
                ("push", "", vec![x, MA::M(point(r, d))])
            } else {
                ("pull", "", vec![x, MA::M(point(r, c))])
            }
        }
        M::I(n) => {
            let (d, _) = iso_specs(n)?;
            ("push", "", vec![x, MA::M(point(r, d))])
        }
        M::N(_) => (*r.pick(&["show", "getc"]), "", vec![x]),
        M::B(_) | M::Bad(_) => return None,
    })
}

/// Called in simulated code; returns in simulated code.
pub fn run(seed: u64) {
    let u = sched::pause();
    let mut r = Rng::new(0x6e65_7374 ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let ms = machine::alive();
    let n = 1 + r.below(3);
    let mut calls: Vec<(Call, String, Option<String>, Sh)> = vec![];
    for _ in 0..n * 4 {
        if ms.is_empty() || calls.len() as u64 == n {
            break;
        }
        // whole curves and maps are rarer than their points: look for them
        let maps: Vec<M> = ms.iter().filter(|m| matches!(m, M::K(..) | M::R(_) | M::I(_) | M::C(_))).cloned().collect();
        let from = if !maps.is_empty() && r.p(1, 2) { &maps } else { &ms };
        let Some(c) = choose(&mut r, from) else { continue };
        // a point of no curve in a slot cannot be rebuilt
        if let Some(MA::M(M::P(s, p))) = c.2.first() {
            if !s.c.on(p) && s.kind() != Kind::W {
                continue;
            }
        }
        let (q, want) = machine::call_text(c.0, c.1, &c.2);
        let sh = ops::shape(c.0, &c.2);
        calls.push((c, q, want, sh));
    }
    for ((name, var, args), q, want, sh) in &calls {
        // rebuild the operands and run, all of it in simulated code
        sched::resume(u);
        let res = catch_unwind(AssertUnwindSafe(|| {
            let real: Vec<Option<V>> = args
                .iter()
                .map(|a| match a {
                    MA::M(m) => Some(fresh(m)),
                    MA::L(_) => None,
                })
                .collect();
            let mut a: Vec<A> = args
                .iter()
                .zip(&real)
                .map(|(m, v)| match (m, v) {
                    (MA::L(l), _) => A::L(l.as_str()),
                    (_, Some(v)) => A::R(v),
                    _ => unreachable!(),
                })
                .collect();
            match ops::exec(name, var, &mut a) {
                Ok(O::V(v)) => Some(observe(&v, sh).text()),
                Ok(O::T(t)) => Some(match (*name, args.first()) {
                    ("show", Some(MA::M(M::P(sp, _)))) => read_point(sp, &t).map(|m| m.text()).unwrap_or_else(|| format!("bad:{}", t)),
                    _ => format!("T:{}", t),
                }),
                Ok(O::U) => Some("U".into()),
                Err(_) => None,
            }
        }));
        sched::pause();
        let got = match res {
            Ok(Some(t)) => t.replace('\n', ";"),
            Ok(None) => continue,
            Err(p) if p.is::<AllocFailed>() => {
                sched::resume(u);
                resume_unwind(p)
            }
            Err(p) => {
                drop(p);
                "PANIC".into()
            }
        };
        machine::nested(q, &got, want.as_deref());
    }
    drop(calls);
    drop(ms);
    sched::resume(u);
}
