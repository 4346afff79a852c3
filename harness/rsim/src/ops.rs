//! The operations of the public interface: how they are run on real objects,
//! what they give by the model, and the type of what they give.
use crate::spec::{self, S};
use crate::user::Sink;
use crate::val::*;
use model::{modp, Kind, F, F2, P, U};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::ops::{Deserialize, FromFactory, IntoFactory, Serialize};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards as t, montgomery as m, weierstrass as w};

pub enum A<'a> {
    R(&'a V),
    /// exclusive access (in-place operations)
    X(&'a mut V),
    /// the value itself (moved in)
    O(Option<V>),
    L(&'a str),
}
pub enum O {
    V(V),
    T(String),
    U,
}

pub struct Skip; // ill-typed: cannot be run

macro_rules! bin {
    ($a:expr, $b:expr, $var:expr, $op:tt) => {
        match $var {
            "rr" => $a $op $b,
            "rv" => $a $op $b.clone(),
            "vr" => $a.clone() $op $b,
            _ => $a.clone() $op $b.clone(),
        }
    };
}
macro_rules! una {
    ($a:expr, $var:expr, $op:tt) => {
        if $var == "v" { $op $a.clone() } else { $op $a }
    };
}
fn yes(b: bool) -> O {
    O::T(if b { "1" } else { "0" }.into())
}
fn el_str<Fd, El>(f: &Fd, s: &str, lift: bool) -> El
where
    Fd: for<'a> FromFactory<&'a str, Output = El>,
{
    if lift {
        s.lift(f)
    } else {
        FromFactory::from(f, s)
    }
}
fn el_int<Fd, El>(f: &Fd, ty: &str, n: &str) -> Option<El>
where
    Fd: Field<Elt = El> + FromFactoryPrimitive<El>,
{
    macro_rules! p {
        ($t:ty) => {
            FromFactory::<$t>::from(f, n.parse::<$t>().ok()?)
        };
    }
    Some(match ty {
        "u8" => p!(u8),
        "u16" => p!(u16),
        "u32" => p!(u32),
        "u64" => p!(u64),
        "i8" => p!(i8),
        "i16" => p!(i16),
        "i32" => p!(i32),
        _ => p!(i64),
    })
}
fn io<T>(r: Result<T, std::io::Error>, f: impl Fn(T) -> V) -> O {
    match r {
        Ok(v) => O::V(f(v)),
        Err(e) => {
            drop(e);
            O::T("ERR".into())
        }
    }
}
fn bitstr(it: &mut dyn Iterator<Item = bool>) -> O {
    let mut s = String::new();
    for b in it {
        s.push(if b { '1' } else { '0' });
        if s.len() > 5000 {
            s.push('+');
            break;
        }
    }
    O::T(s)
}

macro_rules! curve_exec {
    ($fname:ident, $C:ident, $P:ident, $S:ident, $md:ident, $ellm:expr) => {
        fn $fname(name: &str, var: &str, a: &mut [A]) -> Option<Result<O, Skip>> {
            use A::{L, R, X};
            Some(Ok(match (name, a) {
                ("fieldof", [R(V::$C(c))]) => O::V(V::F(c.get_field())),
                ("id", [R(V::$C(c))]) => O::V(V::$P(c.identity())),
                ("gen", [R(V::$C(c))]) => O::V(V::$P(c.get_generator())),
                ("pt", [R(V::$C(c)), R(V::E(x)), R(V::E(y))]) => O::V(V::$P(c.new_point(x.clone(), y.clone()))),
                ("ptl", [R(V::$C(c)), L(x), L(y)]) => {
                    let f = c.get_field();
                    O::V(V::$P(c.new_point(f.elt(parse_int(x)), f.elt(parse_int(y)))))
                }
                ("sc", [R(V::$C(c)), L(k)]) => O::V(V::$S(c.new_scalar(parse_int(k)))),
                ("scbe", [R(V::$C(c)), R(V::B(k))]) => O::V(V::$S(c.new_scalar(BigInt::from_bytes_be(num_bigint::Sign::Plus, k)))),
                ("scnew", [R(V::$C(c)), L(k)]) => O::V(V::$S($md::Scalar::new(parse_int(k), &c.get_order()))),
                ("oncurve", [R(V::$C(c)), R(V::$P(p))]) => yes(c.is_on_curve(p)),
                ("ord", [R(V::$C(c))]) => O::T(c.get_order().to_string()),
                ("cof", [R(V::$C(c))]) => O::T(c.get_cofactor().to_string()),
                ("dec", [R(V::$C(c)), R(V::B(b))]) => io(c.decode(b), V::$P),
                ("eq", [R(V::$C(x)), R(V::$C(y))]) => yes(x == y),
                ("eq", [R(V::$P(x)), R(V::$P(y))]) => yes(x == y),
                ("ne", [R(V::$P(x)), R(V::$P(y))]) => yes(x != y),
                ("iszero", [R(V::$P(x))]) => yes(x.is_zero()),
                ("add", [R(V::$P(x)), R(V::$P(y))]) => O::V(V::$P(bin!(x, y, var, +))),
                ("sub", [R(V::$P(x)), R(V::$P(y))]) => O::V(V::$P(bin!(x, y, var, -))),
                ("neg", [R(V::$P(x))]) => O::V(V::$P(una!(x, var, -))),
                ("smul", [R(V::$P(x)), R(V::$S(k))]) => O::V(V::$P(match var {
                    "rr" => x * k,
                    "rv" => x * k.clone(),
                    "vr" => x.clone() * k,
                    "vv" => x.clone() * k.clone(),
                    "kr" => k * x,
                    "kv" => k.clone() * x,
                    _ => k.clone() * x.clone(),
                })),
                ("enc", [R(V::$P(x)), L(z)]) => O::V(V::B(x.encode(*z == "1"))),
                ("norm", [X(V::$P(x))]) => {
                    x.normalize();
                    O::U
                }
                ("normed", [R(V::$P(x))]) => {
                    let mut y = x.clone();
                    y.normalize();
                    O::V(V::$P(y))
                }
                ("add", [R(V::$S(x)), R(V::$S(y))]) => O::V(V::$S(bin!(x, y, var, +))),
                ("sub", [R(V::$S(x)), R(V::$S(y))]) => O::V(V::$S(bin!(x, y, var, -))),
                ("mul", [R(V::$S(x)), R(V::$S(y))]) => O::V(V::$S(bin!(x, y, var, *))),
                ("div", [R(V::$S(x)), R(V::$S(y))]) => O::V(V::$S(bin!(x, y, var, /))),
                ("neg", [R(V::$S(x))]) => O::V(V::$S(una!(x, var, -))),
                ("rinv", [R(V::$S(x)), L(n)]) => O::V(V::$S(n.parse::<u32>().unwrap() / x)),
                ("tobe", [R(V::$S(x))]) => O::V(V::B(x.to_bytes_be())),
                ("tole", [R(V::$S(x))]) => O::V(V::B(x.to_bytes_le())),
                ("bits", [R(V::$S(x)), L(d)]) => {
                    if *d == "lr" {
                        bitstr(&mut x.iter_lr())
                    } else {
                        bitstr(&mut x.iter_rl())
                    }
                }
                _ => return None,
            }))
        }
    };
}
curve_exec!(ex_w, CW, PW, SW, w, 0);
curve_exec!(ex_m, CM, PM, SM, m, 1);
curve_exec!(ex_t, CT, PT, ST, t, 2);

fn ex_elt(name: &str, var: &str, a: &mut [A]) -> Option<Result<O, Skip>> {
    use A::{L, R, X};
    macro_rules! fe {
        ($v:ident, $x:ident, $y:ident, $e:expr) => {
            O::V(V::$v($e))
        };
    }
    Some(Ok(match (name, a) {
        // fields
        ("elt", [R(V::F(f)), L(n)]) => O::V(V::E(f.elt(parse_int(n)))),
        ("elt", [R(V::G(f)), L(n)]) => O::V(V::H(f.elt(parse_int(n)))),
        ("estr", [R(V::F(f)), L(s)]) => O::V(V::E(el_str::<Fp, FpElt>(f, unq(s), var == "l"))),
        ("estr", [R(V::G(f)), L(s)]) => O::V(V::H(el_str::<Fp2, Fp2Elt>(f, unq(s), var == "l"))),
        ("ei", [R(V::F(f)), L(ty), L(n)]) => O::V(V::E(match el_int(f, ty, n) {
            Some(e) => e,
            None => return Some(Err(Skip)),
        })),
        ("ei", [R(V::G(f)), L(ty), L(n)]) => O::V(V::H(match el_int(f, ty, n) {
            Some(e) => e,
            None => return Some(Err(Skip)),
        })),
        ("ebe", [R(V::F(f)), R(V::B(b))]) => io(f.from_bytes_be(b), V::E),
        ("ele", [R(V::F(f)), R(V::B(b))]) => io(f.from_bytes_le(b), V::E),
        ("ebe", [R(V::G(f)), R(V::B(b))]) => io(f.from_bytes_be(b), V::H),
        ("ele", [R(V::G(f)), R(V::B(b))]) => io(f.from_bytes_le(b), V::H),
        ("zero", [R(V::F(f))]) => O::V(V::E(f.zero())),
        ("one", [R(V::F(f))]) => O::V(V::E(f.one())),
        ("zero", [R(V::G(f))]) => O::V(V::H(f.zero())),
        ("one", [R(V::G(f))]) => O::V(V::H(f.one())),
        ("modulus", [R(V::F(f))]) => O::T(f.get_modulus().to_string()),
        ("modulus", [R(V::G(f))]) => O::T(f.get_modulus().to_string()),
        ("fsize", [R(V::F(f))]) => O::T(f.size_bytes().to_string()),
        ("fsize", [R(V::G(f))]) => O::T(f.size_bytes().to_string()),
        ("eq", [R(V::F(x)), R(V::F(y))]) => yes(x == y),
        ("eq", [R(V::G(x)), R(V::G(y))]) => yes(x == y),
        // elements
        ("add", [R(V::E(x)), R(V::E(y))]) => fe!(E, x, y, bin!(x, y, var, +)),
        ("sub", [R(V::E(x)), R(V::E(y))]) => fe!(E, x, y, bin!(x, y, var, -)),
        ("mul", [R(V::E(x)), R(V::E(y))]) => fe!(E, x, y, bin!(x, y, var, *)),
        ("div", [R(V::E(x)), R(V::E(y))]) => fe!(E, x, y, bin!(x, y, var, /)),
        ("add", [R(V::H(x)), R(V::H(y))]) => fe!(H, x, y, bin!(x, y, var, +)),
        ("sub", [R(V::H(x)), R(V::H(y))]) => fe!(H, x, y, bin!(x, y, var, -)),
        ("mul", [R(V::H(x)), R(V::H(y))]) => fe!(H, x, y, bin!(x, y, var, *)),
        ("div", [R(V::H(x)), R(V::H(y))]) => fe!(H, x, y, bin!(x, y, var, /)),
        ("neg", [R(V::E(x))]) => O::V(V::E(una!(x, var, -))),
        ("neg", [R(V::H(x))]) => O::V(V::H(una!(x, var, -))),
        ("inv", [R(V::E(x)), L(n)]) => O::V(V::E(x ^ n.parse::<i32>().unwrap())),
        ("inv", [R(V::H(x)), L(n)]) => O::V(V::H(x ^ n.parse::<i32>().unwrap())),
        ("rinv", [R(V::E(x)), L(n)]) => O::V(V::E(n.parse::<u32>().unwrap() / x)),
        ("rinv", [R(V::H(x)), L(n)]) => O::V(V::H(n.parse::<u32>().unwrap() / x)),
        ("sq", [R(V::E(x)), L(n)]) => O::V(V::E(if var == "v" { x.clone() ^ n.parse::<u32>().unwrap() } else { x ^ n.parse::<u32>().unwrap() })),
        ("sq", [R(V::H(x)), L(n)]) => O::V(V::H(if var == "v" { x.clone() ^ n.parse::<u32>().unwrap() } else { x ^ n.parse::<u32>().unwrap() })),
        ("powu", [R(V::E(x)), L(n)]) => O::V(V::E(x ^ &n.parse::<BigUint>().unwrap())),
        ("powu", [R(V::H(x)), L(n)]) => O::V(V::H(x ^ &n.parse::<BigUint>().unwrap())),
        ("powi", [R(V::E(x)), L(n)]) => O::V(V::E(x ^ &n.parse::<BigInt>().unwrap())),
        ("powi", [R(V::H(x)), L(n)]) => O::V(V::H(x ^ &n.parse::<BigInt>().unwrap())),
        ("sqrt", [R(V::E(x))]) => O::V(V::E(x.sqrt())),
        ("sqrt", [R(V::H(x))]) => O::V(V::H(x.sqrt())),
        ("issq", [R(V::E(x))]) => yes(x.is_square()),
        ("issq", [R(V::H(x))]) => yes(x.is_square()),
        ("sgn", [R(V::E(x))]) => O::T(x.sgn0().to_string()),
        ("sgn", [R(V::H(x))]) => O::T(x.sgn0().to_string()),
        ("cmov", [R(V::E(x)), R(V::E(y)), L(b)]) => O::V(V::E(FpElt::cmov(x, y, *b == "1"))),
        ("cmov", [R(V::H(x)), R(V::H(y)), L(b)]) => O::V(V::H(Fp2Elt::cmov(x, y, *b == "1"))),
        ("iszero", [R(V::E(x))]) => yes(x.is_zero()),
        ("iszero", [R(V::H(x))]) => yes(x.is_zero()),
        ("isone", [R(V::E(x))]) => yes(x.is_one()),
        ("isone", [R(V::H(x))]) => yes(x.is_one()),
        ("eq", [R(V::E(x)), R(V::E(y))]) => yes(x == y),
        ("eq", [R(V::H(x)), R(V::H(y))]) => yes(x == y),
        ("ne", [R(V::E(x)), R(V::E(y))]) => yes(x != y),
        ("eq", [R(V::SW(x)), R(V::SW(y))]) => yes(x == y),
        ("eq", [R(V::ST(x)), R(V::ST(y))]) => yes(x == y),
        ("tobe", [R(V::E(x))]) => O::V(V::B(x.to_bytes_be())),
        ("tobe", [R(V::H(x))]) => O::V(V::B(x.to_bytes_be())),
        ("tole", [R(V::E(x))]) => O::V(V::B(x.to_bytes_le())),
        ("tole", [R(V::H(x))]) => O::V(V::B(x.to_bytes_le())),
        ("setzero", [X(V::E(x))]) => {
            x.set_zero();
            O::U
        }
        ("setzero", [X(V::H(x))]) => {
            x.set_zero();
            O::U
        }
        ("setone", [X(V::E(x))]) => {
            x.set_one();
            O::U
        }
        ("setone", [X(V::H(x))]) => {
            x.set_one();
            O::U
        }
        ("tt", [R(V::PM(x))]) => yes(x.is_two_torsion()),
        _ => return None,
    }))
}
/// literal strings in plans: `_` is empty, `%20` is a blank
fn unq(s: &str) -> &str {
    if s == "_" {
        ""
    } else {
        s
    }
}

pub fn clone(v: &V) -> Option<V> {
    Some(match v {
        V::F(x) => V::F(x.clone()),
        V::G(x) => V::G(x.clone()),
        V::E(x) => V::E(x.clone()),
        V::H(x) => V::H(x.clone()),
        V::CW(x) => V::CW(x.clone()),
        V::CM(x) => V::CM(x.clone()),
        V::CT(x) => V::CT(x.clone()),
        V::PW(x) => V::PW(x.clone()),
        V::PM(x) => V::PM(x.clone()),
        V::PT(x) => V::PT(x.clone()),
        V::SW(x) => V::SW(x.clone()),
        V::SM(x) => V::SM(x.clone()),
        V::ST(x) => V::ST(x.clone()),
        V::B(x) => V::B(x.clone()),
        V::Sswu(x) => V::Sswu(x.clone()),
        V::NW(x) => V::NW(*x),
        V::NM(x) => V::NM(*x),
        V::NT(x) => V::NT(*x),
        _ => return None,
    })
}

/// many short-lived fields, one after the other
fn crowd(n: &str) -> O {
    const PR: [u32; 13] = [103, 7, 101, 131, 65537, 11, 10007, 19, 1000003, 29, 2147483647, 97, 23];
    let n: u32 = n.parse().unwrap();
    for i in 0..n {
        let p = PR[(i ^ n) as usize % PR.len()];
        if i % 8 == 5 {
            let f = Fp2::new(p.into());
            let e = f.elt((i + 2).into());
            let _ = (&e * &e + f.one()) == e;
            continue;
        }
        let f = Fp::new(p.into());
        let e = f.elt((i + 2).into());
        match (i + n) % 5 {
            0 => {
                e.is_square();
            }
            1 if p % 4 == 3 || p % 8 == 5 => {
                (&e * &e).sqrt();
            }
            2 => {
                e.to_bytes_be();
            }
            3 => {
                let _ = 1u32 / &e;
            }
            _ => {
                let _ = &e + &e;
            }
        }
    }
    O::U
}
/// many short-lived values over one object
fn crowd_of(v: &V, n: &str) -> Option<()> {
    let n: u32 = n.parse().unwrap();
    macro_rules! points {
        ($e:expr) => {{
            let g = $e.get_generator();
            let mut p = $e.identity();
            for i in 0..n {
                let q = &p + &g;
                match i % 7 {
                    0 => {
                        let _ = $e.decode(&q.encode(i % 2 == 0));
                    }
                    1 => {
                        let _ = q == p;
                    }
                    2 => {
                        let _ = &q * &$e.new_scalar((i % 100).into());
                    }
                    3 => p = &q + &q,
                    _ => p = q,
                }
            }
        }};
    }
    match v {
        V::F(f) => {
            let p = f.get_modulus();
            let m8 = (&p % 8u32).to_u32().unwrap();
            for i in 0..n {
                let e = f.elt(BigInt::from(i) * 7919 + n);
                match i % 5 {
                    0 => {
                        e.is_square();
                    }
                    1 | 2 if m8 % 4 == 3 || m8 == 5 => {
                        (&e * &e).sqrt();
                    }
                    3 => {
                        let _ = 1u32 / &e;
                    }
                    _ => {
                        let _ = f.from_bytes_be(&e.to_bytes_be());
                    }
                }
            }
        }
        V::G(f) => {
            for i in 0..n {
                let e = f.elt(BigInt::from(i) * 7919 + n);
                let _ = (&e * &e + f.one()) == e;
            }
        }
        V::CW(e) => points!(e),
        V::CM(e) => points!(e),
        V::CT(e) => points!(e),
        _ => return None,
    }
    Some(())
}
fn ex_misc(name: &str, a: &mut [A]) -> Option<Result<O, Skip>> {
    use A::{L, R};
    Some(Ok(match (name, a) {
        ("fld", [L(p)]) => O::V(V::F(Fp::new(p.parse().unwrap()))),
        ("fldv", [L(p)]) => {
            let f = Fp::new(p.parse().unwrap());
            let x = f.elt(parse_int("12345678901"));
            let y = &x * &x + f.one();
            O::T(format!("{} {}", y, y == x))
        }
        ("crowd", [L(n)]) => crowd(n),
        ("crowd", [R(v), L(n)]) => {
            if crowd_of(v, n).is_none() {
                return Some(Err(Skip));
            }
            O::U
        }
        ("fld2", [L(p)]) => O::V(V::G(Fp2::new(p.parse().unwrap()))),
        ("cur", [L(s)]) => match spec::get(s) {
            Some(s) => O::V(fresh(&M::C(s))),
            None => return Some(Err(Skip)),
        },
        ("cid", [L(s)]) => match spec::get(s).and_then(|s| ident(s)) {
            Some(v) => O::V(v),
            None => return Some(Err(Skip)),
        },
        ("getc", [R(V::NW(x))]) => O::V(V::CW(redox_ecc::instances::GetCurve::get(x))),
        ("getc", [R(V::NM(x))]) => O::V(V::CM(redox_ecc::instances::GetCurve::get(x))),
        ("getc", [R(V::NT(x))]) => O::V(V::CT(redox_ecc::instances::GetCurve::get(x))),
        ("eq", [R(V::NW(x)), R(V::NW(y))]) => yes(x == y),
        ("eq", [R(V::NM(x)), R(V::NM(y))]) => yes(x == y),
        ("eq", [R(V::NT(x)), R(V::NT(y))]) => yes(x == y),
        ("clone", [R(x)]) => match clone(x) {
            Some(v) => O::V(v),
            None => return Some(Err(Skip)),
        },
        ("show", [R(x)]) => match show(x) {
            Some(t) => O::T(t),
            None => return Some(Err(Skip)),
        },
        ("showf", [R(x)]) => match show_fmt(x) {
            Some(t) => O::T(t),
            None => return Some(Err(Skip)),
        },
        ("drop", [A::O(v)]) => {
            drop(v.take());
            O::U
        }
        ("sswu", [R(V::CW(c)), L(z)]) => O::V(V::Sswu(w::SSWU::new(c.clone(), c.get_field().elt(parse_int(z))))),
        ("svdw", [R(V::CW(c)), L(z)]) => O::V(V::Svdw(w::SVDW::new(c.clone(), c.get_field().elt(parse_int(z))))),
        ("ell", [R(V::CM(c)), L(z)]) => O::V(V::Ell(m::Ell2::new(c.clone(), c.get_field().elt(parse_int(z))))),
        ("ellt", [R(V::CT(c)), L(z), L(r)]) => O::V(V::EllT(t::Ell2::new(c.clone(), c.get_field().elt(parse_int(z)), Some(rat(r))))),
        ("ab0", [R(V::CW(c)), L(z), L(i)]) => {
            let i = iso(i);
            let f = i.domain().get_field();
            O::V(V::Ab0(w::SSWUAB0::new(c.clone(), f.elt(parse_int(z)), i)))
        }
        ("map", [R(V::Sswu(k)), R(V::E(u))]) => O::V(V::PW(k.map(u))),
        ("map", [R(V::Svdw(k)), R(V::E(u))]) => O::V(V::PW(k.map(u))),
        ("map", [R(V::Ab0(k)), R(V::E(u))]) => O::V(V::PW(k.map(u))),
        ("map", [R(V::Ell(k)), R(V::E(u))]) => O::V(V::PM(k.map(u))),
        ("map", [R(V::EllT(k)), R(V::E(u))]) => O::V(V::PT(k.map(u))),
        ("rat", [L(n)]) => O::V(V::Rat(rat(n))),
        ("iso", [L(n)]) => O::V(V::Iso(iso(n))),
        ("push", [R(V::Rat(r)), R(V::PT(p))]) => O::V(V::PM(r.push(p.clone()))),
        ("pull", [R(V::Rat(r)), R(V::PM(p))]) => O::V(V::PT(r.pull(p.clone()))),
        ("push", [R(V::Iso(r)), R(V::PW(p))]) => O::V(V::PW(r.push(p.clone()))),
        ("dom", [R(V::Rat(r))]) => O::V(V::CT(r.domain())),
        ("cod", [R(V::Rat(r))]) => O::V(V::CM(r.codomain())),
        ("dom", [R(V::Iso(r))]) => O::V(V::CW(r.domain())),
        ("cod", [R(V::Iso(r))]) => O::V(V::CW(r.codomain())),
        _ => return None,
    }))
}
fn show_fmt(v: &V) -> Option<String> {
    macro_rules! f {
        ($x:expr) => {
            format!("{:>5}|{:#}|{:.3}|{:+}", $x, $x, $x, $x)
        };
    }
    Some(match v {
        V::F(x) => f!(x),
        V::G(x) => f!(x),
        V::E(x) => f!(x),
        V::H(x) => f!(x),
        V::CW(x) => f!(x),
        V::CM(x) => f!(x),
        V::CT(x) => f!(x),
        V::PW(x) => f!(x),
        V::PM(x) => f!(x),
        V::PT(x) => f!(x),
        V::SW(x) => f!(x),
        V::SM(x) => f!(x),
        V::ST(x) => f!(x),
        V::NW(x) => f!(x),
        V::NM(x) => f!(x),
        V::NT(x) => f!(x),
        _ => return None,
    })
}
/// print into a sink; `var` picks the format
pub fn sink(v: &V, var: &str, s: &mut Sink) -> Option<std::fmt::Result> {
    use std::fmt::Write;
    macro_rules! w {
        ($x:expr) => {
            match var {
                "pad" => write!(s, "{:>12}", $x),
                "alt" => write!(s, "{:#}", $x),
                "prec" => write!(s, "{:.3}", $x),
                "plus" => write!(s, "{:+}", $x),
                "twice" => write!(s, "<{}|{}>", $x, $x),
                _ => write!(s, "{}", $x),
            }
        };
    }
    Some(match v {
        V::F(x) => w!(x),
        V::G(x) => w!(x),
        V::E(x) => w!(x),
        V::H(x) => w!(x),
        V::CW(x) => w!(x),
        V::CM(x) => w!(x),
        V::CT(x) => w!(x),
        V::PW(x) => w!(x),
        V::PM(x) => w!(x),
        V::PT(x) => w!(x),
        V::SW(x) => w!(x),
        V::SM(x) => w!(x),
        V::ST(x) => w!(x),
        V::NW(x) => w!(x),
        V::NM(x) => w!(x),
        V::NT(x) => w!(x),
        _ => return None,
    })
}

/// the first operand is consumed
fn ex_move(name: &str, a: &mut [A]) -> Result<O, Skip> {
    let (first, rest) = a.split_first_mut().ok_or(Skip)?;
    let A::O(slot) = first else { return Err(Skip) };
    let Some(v) = slot.take() else { return Err(Skip) };
    macro_rules! arms {
        ($($k:ident)*) => {
            match (name, v, &*rest) {
                $(
                ("add", V::$k(x), [A::R(V::$k(y))]) => return Ok(O::V(V::$k(x + y))),
                ("sub", V::$k(x), [A::R(V::$k(y))]) => return Ok(O::V(V::$k(x - y))),
                ("neg", V::$k(x), []) => return Ok(O::V(V::$k(-x))),
                )*
                (_, v, _) => v,
            }
        };
    }
    macro_rules! arms2 {
        ($v:expr, $($k:ident)*) => {
            match (name, $v, &*rest) {
                $(
                ("mul", V::$k(x), [A::R(V::$k(y))]) => return Ok(O::V(V::$k(x * y))),
                ("div", V::$k(x), [A::R(V::$k(y))]) => return Ok(O::V(V::$k(x / y))),
                )*
                (_, v, _) => v,
            }
        };
    }
    let v = arms!(E H PW PM PT SW SM ST);
    let v = arms2!(v, E H SW SM ST);
    let v = match (name, v, &*rest) {
        ("smul", V::PW(x), [A::R(V::SW(k))]) => return Ok(O::V(V::PW(x * k))),
        ("smul", V::PM(x), [A::R(V::SM(k))]) => return Ok(O::V(V::PM(x * k))),
        ("smul", V::PT(x), [A::R(V::ST(k))]) => return Ok(O::V(V::PT(x * k))),
        ("sq", V::E(x), [A::L("2")]) => return Ok(O::V(V::E(x ^ 2u32))),
        ("sq", V::H(x), [A::L("2")]) => return Ok(O::V(V::H(x ^ 2u32))),
        (_, v, _) => v,
    };
    *slot = Some(v);
    Err(Skip)
}

/// Run `name.var` on real operands. May panic.
pub fn exec(name: &str, var: &str, a: &mut [A]) -> Result<O, Skip> {
    if var.starts_with('m') {
        return ex_move(name, a);
    }
    if let Some(r) = ex_elt(name, var, a) {
        return r;
    }
    if let Some(r) = ex_w(name, var, a) {
        return r;
    }
    if let Some(r) = ex_m(name, var, a) {
        return r;
    }
    if let Some(r) = ex_t(name, var, a) {
        return r;
    }
    ex_misc(name, a).unwrap_or(Err(Skip))
}

// ---------------------------------------------------------------- the model

#[derive(Clone)]
pub enum MA {
    M(M),
    L(String),
}
pub enum Exp {
    Val(M),
    Text(String),
    Unit,
    Panic,
    /// a value nobody but the library knows: compare with a lone execution
    Solo,
}

fn sh_of(m: &M) -> Sh {
    match m {
        M::F(p) => Sh::F(p.clone()),
        M::G(p) => Sh::G(p.clone()),
        M::E(p, _) => Sh::E(p.clone()),
        M::H(p, _, _) => Sh::H(p.clone()),
        M::C(s) => Sh::C(s),
        M::P(s, _) => Sh::P(s),
        M::S(s, _) => Sh::S(s),
        M::B(_) => Sh::B,
        M::K(a, b, c) => Sh::K(a.clone(), b, c.clone()),
        M::R(n) => Sh::R(n.clone()),
        M::I(n) => Sh::I(n.clone()),
        M::N(s) => Sh::N(s),
        M::Bad(_) => Sh::Text,
    }
}
/// the type of the result of an operation that returns a value
pub fn shape(name: &str, a: &[MA]) -> Sh {
    use MA::L;
    let m = |i: usize| -> Option<&M> {
        match a.get(i) {
            Some(MA::M(m)) => Some(m),
            _ => None,
        }
    };
    match (name, m(0), a) {
        ("fld", _, [L(p)]) => p.parse().map(Sh::F).unwrap_or(Sh::Text),
        ("fld2", _, [L(p)]) => p.parse().map(Sh::G).unwrap_or(Sh::Text),
        ("cur", _, [L(s)]) => spec::get(s).map(Sh::C).unwrap_or(Sh::Text),
        ("cid", _, [L(s)]) => spec::get(s).map(Sh::N).unwrap_or(Sh::Text),
        ("getc", Some(M::N(s)), _) => Sh::C(s),
        ("elt" | "estr" | "ei" | "ebe" | "ele" | "zero" | "one", Some(M::F(p)), _) => Sh::E(p.clone()),
        ("elt" | "estr" | "ei" | "ebe" | "ele" | "zero" | "one", Some(M::G(p)), _) => Sh::H(p.clone()),
        ("tobe" | "tole" | "enc", _, _) => Sh::B,
        ("fieldof", Some(M::C(s)), _) => Sh::F(s.c.f.p.clone()),
        ("id" | "gen" | "pt" | "ptl" | "dec", Some(M::C(s)), _) => Sh::P(s),
        ("sc" | "scbe" | "scnew", Some(M::C(s)), _) => Sh::S(s),
        ("sswu" | "svdw" | "ell", Some(M::C(s)), [_, L(z)]) => Sh::K(name.into(), s, modp(&parse_int(z), &s.c.f.p)),
        ("ellt", Some(M::C(s)), [_, L(z), L(_)]) => Sh::K(name.into(), s, modp(&parse_int(z), &s.c.f.p)),
        ("ab0", Some(M::C(s)), [_, L(z), L(i)]) => {
            let p = iso_specs(i).map(|x| x.0.c.f.p.clone()).unwrap_or(U::one());
            Sh::K(format!("ab0.{}", i), s, modp(&parse_int(z), &p))
        }
        ("map", Some(M::K(_, s, _)), _) => Sh::P(s),
        ("rat", _, [L(n)]) => Sh::R(n.clone()),
        ("iso", _, [L(n)]) => Sh::I(n.clone()),
        ("push", Some(M::R(n)), _) => rat_specs(n).map(|x| Sh::P(x.1)).unwrap_or(Sh::Text),
        ("pull", Some(M::R(n)), _) => rat_specs(n).map(|x| Sh::P(x.0)).unwrap_or(Sh::Text),
        ("push", Some(M::I(n)), _) => iso_specs(n).map(|x| Sh::P(x.1)).unwrap_or(Sh::Text),
        ("dom", Some(M::R(n)), _) => rat_specs(n).map(|x| Sh::C(x.0)).unwrap_or(Sh::Text),
        ("cod", Some(M::R(n)), _) => rat_specs(n).map(|x| Sh::C(x.1)).unwrap_or(Sh::Text),
        ("dom", Some(M::I(n)), _) => iso_specs(n).map(|x| Sh::C(x.0)).unwrap_or(Sh::Text),
        ("cod", Some(M::I(n)), _) => iso_specs(n).map(|x| Sh::C(x.1)).unwrap_or(Sh::Text),
        (_, Some(m), _) => sh_of(m),
        _ => Sh::Text,
    }
}

/// what `FromFactory<&str>` makes of a string
pub fn parse_radix(s: &str) -> Option<BigInt> {
    if s.is_empty() {
        return Some(BigInt::zero());
    }
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (radix, d) = match r.get(0..2) {
        Some("0o") => (8, &r[2..]),
        Some("0x") => (16, &r[2..]),
        Some("0b") => (2, &r[2..]),
        _ => (10, r),
    };
    if d.is_empty() || !d.bytes().all(|b| (b as char).is_digit(radix)) {
        return None;
    }
    let n = BigInt::parse_bytes(d.as_bytes(), radix)?;
    Some(if neg { -n } else { n })
}
fn b01(b: bool) -> Exp {
    Exp::Text(if b { "1" } else { "0" }.into())
}
fn be2(f: &F, a: &U, b: &U, le: bool) -> Vec<u8> {
    let mut x = f.be(a);
    let mut y = f.be(b);
    if le {
        x.reverse();
        y.reverse();
    }
    x.extend(y);
    x
}
fn size_r(s: S) -> usize {
    (s.c.r.bits() as usize).div_ceil(8)
}
pub fn same_group(a: S, b: S) -> bool {
    // comparable points: every parameter of the curve is the same
    a.kind() == b.kind() && a.c.f.p == b.c.f.p && a.c.a == b.c.a && a.c.b == b.c.b && a.c.r == b.c.r && a.c.h == b.c.h && a.c.g == b.c.g && (a.kind() != Kind::M || a.spec.s == b.spec.s)
}
fn proj_eq(a: S, p: &P, q: &P) -> bool {
    let _ = a;
    p == q
}

/// What the decoder has to say about `b`: a point, an error, or (for
/// strings that are not an encoding but may be read as one) either.
pub enum Dec {
    Point(P),
    Err,
    ErrOr(P),
}
pub fn model_decode(s: S, b: &[u8]) -> Dec {
    let c = &s.c;
    let f = &c.f;
    match c.kind {
        Kind::T => {
            let size = (f.p.bits() as usize + 1).div_ceil(8);
            if b.len() != size {
                return Dec::Err;
            }
            let sign = b[size - 1] >> 7;
            let mut yb = b.to_vec();
            yb[size - 1] &= 127;
            let y = U::from_bytes_le(&yb);
            if y >= f.p {
                return Dec::Err;
            }
            match c.lift(&y) {
                Some((x, y)) if c.on(&Some((x.clone(), y.clone()))) => {
                    if x.is_zero() && sign == 1 {
                        return Dec::Err;
                    }
                    let x = if x.bit(0) == (sign == 1) { x } else { f.neg(&x) };
                    Dec::Point(Some((x, y)))
                }
                _ => Dec::Err,
            }
        }
        _ => {
            let n = f.bytes();
            if b.is_empty() {
                return Dec::Err;
            }
            match b[0] {
                0 if b.len() == 1 => Dec::Point(None),
                4 if b.len() == 2 * n + 1 => {
                    let x = U::from_bytes_be(&b[1..n + 1]);
                    let y = U::from_bytes_be(&b[n + 1..]);
                    if x >= f.p || y >= f.p {
                        return Dec::Err;
                    }
                    let p = Some((x, y));
                    if c.on(&p) {
                        Dec::Point(p)
                    } else {
                        Dec::Err
                    }
                }
                2 | 3 if b.len() == n + 1 => {
                    let x = U::from_bytes_be(&b[1..]);
                    if x >= f.p {
                        return Dec::Err;
                    }
                    match c.lift(&x) {
                        Some((x, y)) => {
                            if y.is_zero() {
                                return if b[0] == 2 { Dec::Point(Some((x, y))) } else { Dec::ErrOr(Some((x, y))) };
                            }
                            let y = if y.bit(0) == (b[0] == 3) { y } else { f.neg(&y) };
                            Dec::Point(Some((x, y)))
                        }
                        None => Dec::Err,
                    }
                }
                _ => Dec::Err,
            }
        }
    }
}

/// The model's answer.  `Err(Skip)`: ill-typed.
pub fn expect(name: &str, var: &str, a: &[MA]) -> Exp {
    use MA::{L, M as R};
    let _ = var;
    let fz = |p: &U| F::new(p.clone());
    let f2 = |p: &U| F2 { f: F::new(p.clone()) };
    match (name, a) {
        ("fld", [L(p)]) => Exp::Val(M::F(p.parse().unwrap())),
        ("fld2", [L(p)]) => Exp::Val(M::G(p.parse().unwrap())),
        ("cur", [L(s)]) => Exp::Val(M::C(spec::get(s).unwrap())),
        ("clone", [R(x)]) | ("normed", [R(x)]) => Exp::Val(x.clone()),
        ("drop" | "setzero" | "setone" | "norm" | "crowd", _) => Exp::Unit,
        ("elt", [R(M::F(p)), L(n)]) | ("ei", [R(M::F(p)), L(_), L(n)]) => Exp::Val(M::E(p.clone(), modp(&parse_int(n), p))),
        ("elt", [R(M::G(p)), L(n)]) | ("ei", [R(M::G(p)), L(_), L(n)]) => Exp::Val(M::H(p.clone(), modp(&parse_int(n), p), U::zero())),
        ("estr", [R(M::F(p)), L(s)]) => match parse_radix(unq(s)) {
            Some(n) => Exp::Val(M::E(p.clone(), modp(&n, p))),
            None => Exp::Solo,
        },
        ("estr", [R(M::G(p)), L(s)]) => match unq(s).split_once(',') {
            Some((x, y)) => match (parse_radix(x), parse_radix(y)) {
                (Some(x), Some(y)) => Exp::Val(M::H(p.clone(), modp(&x, p), modp(&y, p))),
                _ => Exp::Solo,
            },
            None => Exp::Panic,
        },
        ("ebe", [R(M::F(p)), R(M::B(b))]) => Exp::Val(M::E(p.clone(), U::from_bytes_be(b) % p)),
        ("ele", [R(M::F(p)), R(M::B(b))]) => Exp::Val(M::E(p.clone(), U::from_bytes_le(b) % p)),
        ("ebe" | "ele", [R(M::G(p)), R(M::B(b))]) => {
            let n = fz(p).bytes();
            if b.len() != 2 * n {
                return Exp::Text("ERR".into());
            }
            let g = |x: &[u8]| if name == "ebe" { U::from_bytes_be(x) } else { U::from_bytes_le(x) } % p;
            Exp::Val(M::H(p.clone(), g(&b[..n]), g(&b[n..])))
        }
        ("zero", [R(M::F(p))]) => Exp::Val(M::E(p.clone(), U::zero())),
        ("one", [R(M::F(p))]) => Exp::Val(M::E(p.clone(), U::one() % p)),
        ("zero", [R(M::G(p))]) => Exp::Val(M::H(p.clone(), U::zero(), U::zero())),
        ("one", [R(M::G(p))]) => Exp::Val(M::H(p.clone(), U::one(), U::zero())),
        ("modulus", [R(M::F(p))]) | ("modulus", [R(M::G(p))]) => Exp::Text(p.to_string()),
        ("fsize", [R(M::F(p))]) => Exp::Text(fz(p).bytes().to_string()),
        ("fsize", [R(M::G(p))]) => Exp::Text((2 * fz(p).bytes()).to_string()),
        ("eq", [R(M::F(p)), R(M::F(q))]) | ("eq", [R(M::G(p)), R(M::G(q))]) => b01(p == q),
        // elements of GF(p)
        ("add" | "sub" | "mul" | "div", [R(M::E(p, x)), R(M::E(q, y))]) => {
            if p != q {
                return Exp::Panic;
            }
            let f = fz(p);
            Exp::Val(M::E(
                p.clone(),
                match name {
                    "add" => f.add(x, y),
                    "sub" => f.sub(x, y),
                    "mul" => f.mul(x, y),
                    _ => f.div(x, y),
                },
            ))
        }
        ("add" | "sub" | "mul" | "div", [R(M::H(p, x0, x1)), R(M::H(q, y0, y1))]) => {
            if p != q {
                return Exp::Panic;
            }
            let f = f2(p);
            let (x, y) = ((x0.clone(), x1.clone()), (y0.clone(), y1.clone()));
            let r = match name {
                "add" => f.add(&x, &y),
                "sub" => f.sub(&x, &y),
                "mul" => f.mul(&x, &y),
                _ => {
                    let i = f.f.inv(&f.norm(&y));
                    f.mul(&x, &(f.f.mul(&i, y0), f.f.neg(&f.f.mul(&i, y1))))
                }
            };
            Exp::Val(M::H(p.clone(), r.0, r.1))
        }
        ("neg", [R(M::E(p, x))]) => Exp::Val(M::E(p.clone(), fz(p).neg(x))),
        ("neg", [R(M::H(p, x, y))]) => Exp::Val(M::H(p.clone(), fz(p).neg(x), fz(p).neg(y))),
        ("inv", [R(_), L(n)]) if n != "-1" => Exp::Panic,
        ("rinv", [R(_), L(n)]) if n != "1" => Exp::Panic,
        ("sq", [R(_), L(n)]) if n != "2" => Exp::Panic,
        ("inv" | "rinv", [R(M::E(p, x)), _]) => Exp::Val(M::E(p.clone(), fz(p).inv(x))),
        ("inv" | "rinv", [R(M::H(p, x, y)), _]) => {
            let f = f2(p);
            let i = f.f.inv(&f.norm(&(x.clone(), y.clone())));
            Exp::Val(M::H(p.clone(), f.f.mul(&i, x), f.f.neg(&f.f.mul(&i, y))))
        }
        ("sq", [R(M::E(p, x)), _]) => Exp::Val(M::E(p.clone(), fz(p).sq(x))),
        ("sq", [R(M::H(p, x, y)), _]) => {
            let x = (x.clone(), y.clone());
            let r = f2(p).mul(&x, &x);
            Exp::Val(M::H(p.clone(), r.0, r.1))
        }
        ("powu", [R(M::E(p, x)), L(n)]) => Exp::Val(M::E(p.clone(), fz(p).pow(x, &n.parse().unwrap()))),
        ("powi", [R(M::E(p, x)), L(n)]) => {
            if x.is_zero() {
                return Exp::Solo;
            }
            let e = parse_int(n).mod_floor(&bi(&(p - 1u32))).to_biguint().unwrap();
            Exp::Val(M::E(p.clone(), fz(p).pow(x, &e)))
        }
        ("powu" | "powi", [R(M::H(p, x, y)), L(n)]) => {
            let e = parse_int(n);
            match e.to_biguint() {
                Some(e) => {
                    let r = f2(p).pow(&(x.clone(), y.clone()), &e);
                    Exp::Val(M::H(p.clone(), r.0, r.1))
                }
                None => Exp::Solo,
            }
        }
        ("issq", [R(M::E(p, x))]) => b01(fz(p).is_square(x)),
        ("issq", [R(M::H(p, x, y))]) => b01(f2(p).is_square(&(x.clone(), y.clone()))),
        ("sgn", [R(M::E(_, x))]) => Exp::Text(if x.bit(0) { "-1" } else { "1" }.into()),
        ("sgn", [R(M::H(_, x, y))]) => {
            let z = if x.is_zero() { y } else { x };
            Exp::Text(if z.bit(0) { "-1" } else { "1" }.into())
        }
        ("cmov", [R(x), R(y), L(b)]) => Exp::Val(if b == "1" { y.clone() } else { x.clone() }),
        ("iszero", [R(M::E(_, x))]) => b01(x.is_zero()),
        ("iszero", [R(M::H(_, x, y))]) => b01(x.is_zero() && y.is_zero()),
        ("isone", [R(M::E(_, x))]) => b01(x.is_one()),
        ("isone", [R(M::H(_, x, y))]) => b01(x.is_one() && y.is_zero()),
        ("eq", [R(M::E(p, x)), R(M::E(q, y))]) => b01(p == q && x == y),
        ("ne", [R(M::E(p, x)), R(M::E(q, y))]) => b01(!(p == q && x == y)),
        ("eq", [R(M::H(p, x, y)), R(M::H(q, z, w))]) => b01(p == q && x == z && y == w),
        ("tobe" | "tole", [R(M::E(p, x))]) => {
            let mut b = fz(p).be(x);
            if name == "tole" {
                b.reverse();
            }
            Exp::Val(M::B(b))
        }
        ("tobe" | "tole", [R(M::H(p, x, y))]) => Exp::Val(M::B(be2(&fz(p), x, y, name == "tole"))),
        // curves
        ("fieldof", [R(M::C(s))]) => Exp::Val(M::F(s.c.f.p.clone())),
        ("id", [R(M::C(s))]) => Exp::Val(M::P(s, s.c.id())),
        ("gen", [R(M::C(s))]) => Exp::Val(M::P(s, s.c.gen())),
        ("pt", [R(M::C(s)), R(M::E(p, x)), R(M::E(q, y))]) => {
            let v = Some((x.clone(), y.clone()));
            if *p != s.c.f.p || p != q {
                return Exp::Panic;
            }
            if s.c.on(&v) {
                Exp::Val(M::P(s, v))
            } else {
                Exp::Panic
            }
        }
        ("ptl", [R(M::C(s)), L(x), L(y)]) => {
            let v = Some((s.c.f.of(&parse_int(x)), s.c.f.of(&parse_int(y))));
            if s.c.on(&v) {
                Exp::Val(M::P(s, v))
            } else {
                Exp::Panic
            }
        }
        ("sc" | "scnew", [R(M::C(s)), L(k)]) => Exp::Val(M::S(s, modp(&parse_int(k), &s.c.r))),
        ("scbe", [R(M::C(s)), R(M::B(k))]) => Exp::Val(M::S(s, U::from_bytes_be(k) % &s.c.r)),
        ("oncurve", [R(M::C(s)), R(M::P(q, p))]) => {
            if s.c.f.p != q.c.f.p {
                return Exp::Panic;
            }
            if same_group(s, q) || (s.c.a == q.c.a && s.c.b == q.c.b) {
                b01(true)
            } else if s.kind() == Kind::T {
                b01(s.c.on(p))
            } else {
                b01(p.is_none() || s.c.on(p))
            }
        }
        ("ord", [R(M::C(s))]) => Exp::Text(s.c.r.to_string()),
        ("cof", [R(M::C(s))]) => Exp::Text(s.c.h.to_string()),
        ("dec", [R(M::C(s)), R(M::B(b))]) => match model_decode(s, b) {
            Dec::Point(p) => {
                if s.sqrt_ok() || b.first() == Some(&4) || b.len() == 1 && s.kind() != Kind::T {
                    Exp::Val(M::P(s, p))
                } else {
                    Exp::Solo
                }
            }
            Dec::Err if s.sqrt_ok() => Exp::Text("ERR".into()),
            _ => Exp::Solo,
        },
        ("eq", [R(M::C(x)), R(M::C(y))]) => b01(same_group(x, y)),
        ("eq" | "ne", [R(M::P(s, p)), R(M::P(q, r))]) => {
            if s.c.f.p != q.c.f.p {
                return Exp::Panic;
            }
            b01((same_group(s, q) && proj_eq(s, p, r)) == (name == "eq"))
        }
        ("iszero", [R(M::P(s, p))]) => b01(s.c.is_id(p)),
        ("add" | "sub", [R(M::P(s, p)), R(M::P(q, r))]) => {
            if !same_group(s, q) {
                return Exp::Panic;
            }
            Exp::Val(M::P(s, if name == "add" { s.c.add(p, r) } else { s.c.add(p, &s.c.neg(r)) }))
        }
        ("neg", [R(M::P(s, p))]) => Exp::Val(M::P(s, s.c.neg(p))),
        ("smul", [R(M::P(s, p)), R(M::S(q, k))]) => {
            if s.c.r != q.c.r {
                return Exp::Panic;
            }
            Exp::Val(M::P(s, s.c.mul(k, p)))
        }
        ("enc", [R(M::P(s, p)), L(z)]) => Exp::Val(M::B(s.c.enc(p, z == "1"))),
        ("tt", [R(M::P(_, p))]) => b01(matches!(p, Some((_, y)) if y.is_zero())),
        // scalars
        ("add" | "sub" | "mul" | "div", [R(M::S(s, x)), R(M::S(q, y))]) => {
            if s.c.r != q.c.r {
                return Exp::Panic;
            }
            let f = fz(&s.c.r);
            let r = match name {
                "add" => f.add(x, y),
                "sub" => f.sub(x, y),
                "mul" => f.mul(x, y),
                _ => f.mul(x, &f.pow(y, &(&s.c.r - 2u32))),
            };
            Exp::Val(M::S(s, r))
        }
        ("neg", [R(M::S(s, x))]) => Exp::Val(M::S(s, fz(&s.c.r).neg(x))),
        ("rinv", [R(M::S(s, x)), _]) => Exp::Val(M::S(s, fz(&s.c.r).pow(x, &(&s.c.r - 2u32)))),
        ("eq", [R(M::S(s, x)), R(M::S(q, y))]) => b01(s.c.r == q.c.r && x == y),
        ("tobe" | "tole", [R(M::S(s, x))]) => {
            let mut b = model::pad_be(x, size_r(s));
            if name == "tole" {
                b.reverse();
            }
            Exp::Val(M::B(b))
        }
        ("bits", [R(M::S(_, k)), L(d)]) => {
            let n = k.bits();
            let s: String = if d == "lr" { (0..n).rev().map(|i| if k.bit(i) { '1' } else { '0' }).collect() } else { (0..n).map(|i| if k.bit(i) { '1' } else { '0' }).collect() };
            Exp::Text(s)
        }
        ("cid", [L(n)]) => spec::get(n).map(|s| Exp::Val(M::N(s))).unwrap_or(Exp::Solo),
        ("getc", [R(M::N(s))]) => Exp::Val(M::C(s)),
        ("eq", [R(M::N(s)), R(M::N(q))]) => b01(s.name == q.name),
        ("rat", [L(n)]) => Exp::Val(M::R(n.clone())),
        ("iso", [L(n)]) => Exp::Val(M::I(n.clone())),
        ("dom", [R(M::R(n))]) => rat_specs(n).map(|x| Exp::Val(M::C(x.0))).unwrap_or(Exp::Solo),
        ("cod", [R(M::R(n))]) => rat_specs(n).map(|x| Exp::Val(M::C(x.1))).unwrap_or(Exp::Solo),
        ("dom", [R(M::I(n))]) => iso_specs(n).map(|x| Exp::Val(M::C(x.0))).unwrap_or(Exp::Solo),
        ("cod", [R(M::I(n))]) => iso_specs(n).map(|x| Exp::Val(M::C(x.1))).unwrap_or(Exp::Solo),
        ("show", [R(M::F(p))]) => Exp::Text(format!("GF({})", p)),
        ("show", [R(M::E(_, n))]) => Exp::Text(n.to_string()),
        ("show", [R(M::S(_, n))]) => Exp::Text(n.to_string()),
        _ => {
            let _ = 0u8.to_u8();
            Exp::Solo
        }
    }
}
/// the new value of a handle updated in place
pub fn expect_inplace(name: &str, m: &M) -> M {
    match (name, m) {
        ("setzero", M::E(p, _)) => M::E(p.clone(), U::zero()),
        ("setone", M::E(p, _)) => M::E(p.clone(), U::one()),
        ("setzero", M::H(p, _, _)) => M::H(p.clone(), U::zero(), U::zero()),
        ("setone", M::H(p, _, _)) => M::H(p.clone(), U::one(), U::zero()),
        _ => m.clone(),
    }
}
pub fn is_inplace(name: &str) -> bool {
    matches!(name, "setzero" | "setone" | "norm")
}
/// the printed form of these depends on the representation, which is not a value
pub fn repr_dependent(name: &str, a: &[MA]) -> bool {
    (name == "show" || name == "showf") && matches!(a, [MA::M(M::P(..))])
}
