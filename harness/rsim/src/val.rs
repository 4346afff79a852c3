//! Real objects, their shadows, and how a real object is observed.
use crate::spec::{self, S};
use model::{big, Kind, P, U};
use num_bigint::{BigInt, Sign};
use num_traits::{One, Zero};
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::ops::Serialize;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards as t, montgomery as m, weierstrass as w};
use std::fmt::Write;

pub type DynRat = Box<dyn RationalMap<E0 = t::Curve, E1 = m::Curve>>;
pub type DynIso = Box<dyn Isogeny<E0 = w::Curve, E1 = w::Curve>>;

pub enum V {
    F(Fp),
    G(Fp2),
    E(FpElt),
    H(Fp2Elt),
    CW(w::Curve),
    CM(m::Curve),
    CT(t::Curve),
    PW(w::Point),
    PM(m::Point),
    PT(t::Point),
    SW(w::Scalar),
    SM(m::Scalar),
    ST(t::Scalar),
    B(Vec<u8>),
    Sswu(w::SSWU),
    Svdw(w::SVDW),
    Ell(m::Ell2),
    Ab0(w::SSWUAB0),
    EllT(t::Ell2),
    Rat(DynRat),
    Iso(DynIso),
    NW(redox_ecc::instances::WeCurveID),
    NM(redox_ecc::instances::MtCurveID),
    NT(redox_ecc::instances::EdCurveID),
}

/// What a handle is worth: the shadow every real object carries.
#[derive(Clone, PartialEq)]
pub enum M {
    F(U),
    G(U),
    E(U, U),
    H(U, U, U),
    C(S),
    P(S, P),
    S(S, U),
    B(Vec<u8>),
    /// sswu / svdw / ell with parameter z, on a curve
    K(String, S, U),
    /// shipped or user map by name (r25519, r448, isecp, ibls, rtoy:<T spec>, itoy:<dom>:<cod>)
    R(String),
    I(String),
    /// a curve identifier
    N(S),
    Bad(String),
}
impl PartialEq for spec::Sp {
    fn eq(&self, o: &Self) -> bool {
        self.name == o.name
    }
}

/// The type of a result, with what is needed to read it.
#[derive(Clone)]
pub enum Sh {
    F(U),
    G(U),
    E(U),
    H(U),
    C(S),
    P(S),
    S(S),
    B,
    K(String, S, U),
    R(String),
    I(String),
    N(S),
    Text,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

impl M {
    pub fn text(&self) -> String {
        match self {
            M::F(p) => format!("F:{}", p),
            M::G(p) => format!("G:{}", p),
            M::E(p, n) => format!("E:{}:{}", p, n),
            M::H(p, a, b) => format!("H:{}:{}:{}", p, a, b),
            M::C(s) => format!("C:{}", s.name),
            M::P(s, None) => format!("P:{}:inf", s.name),
            M::P(s, Some((x, y))) => format!("P:{}:{}:{}", s.name, x, y),
            M::S(s, k) => format!("S:{}:{}", s.name, k),
            M::B(b) => format!("B:{}", hex(b)),
            M::K(k, s, z) => format!("K:{}:{}:{}", k, s.name, z),
            M::R(n) => format!("R:{}", n),
            M::I(n) => format!("I:{}", n),
            M::N(s) => format!("N:{}", s.name),
            M::Bad(t) => format!("bad:{}", t),
        }
    }
    pub fn parse(s: &str) -> Option<M> {
        let v: Vec<&str> = s.split(':').collect();
        let n = |i: usize| -> Option<U> { v.get(i)?.parse::<U>().ok() };
        Some(match v[0] {
            "F" => M::F(n(1)?),
            "G" => M::G(n(1)?),
            "E" => M::E(n(1)?, n(2)?),
            "H" => M::H(n(1)?, n(2)?, n(3)?),
            "C" => M::C(spec::get(v.get(1)?)?),
            "P" => {
                let sp = spec::get(v.get(1)?)?;
                if *v.get(2)? == "inf" {
                    M::P(sp, None)
                } else {
                    M::P(sp, Some((n(2)?, n(3)?)))
                }
            }
            "S" => M::S(spec::get(v.get(1)?)?, n(2)?),
            "B" => M::B(unhex(v.get(1)?)),
            "K" => M::K(v.get(1)?.to_string(), spec::get(v.get(2)?)?, n(3)?),
            "R" => M::R(s[2..].to_string()),
            "I" => M::I(s[2..].to_string()),
            "N" => M::N(spec::get(v.get(1)?)?),
            _ => return None,
        })
    }
    pub fn is_bad(&self) -> bool {
        matches!(self, M::Bad(_))
    }
}

pub fn bi(u: &U) -> BigInt {
    BigInt::from_biguint(Sign::Plus, u.clone())
}

/// Maps of the user: names and the specs they connect.
pub fn rat_specs(name: &str) -> Option<(S, S)> {
    match name {
        "r25519" => Some((spec::get("EDWARDS25519")?, spec::get("CURVE25519")?)),
        "r448" => Some((spec::get("EDWARDS448")?, spec::get("CURVE448")?)),
        _ => {
            let t = name.strip_prefix("rtoy.")?;
            let i = t.strip_prefix("toyT")?;
            Some((spec::get(t)?, spec::get(&format!("toyM{}", i))?))
        }
    }
}
pub fn iso_specs(name: &str) -> Option<(S, S)> {
    match name {
        "isecp" => Some((spec::get("SECP256K1_3ISO")?, spec::get("SECP256K1")?)),
        "ibls" => Some((spec::get("BLS12381G1_11ISO")?, spec::get("BLS12381G1")?)),
        _ => {
            let v: Vec<&str> = name.split('.').collect();
            if v.len() == 3 && v[0] == "itoy" {
                Some((spec::get(v[1])?, spec::get(v[2])?))
            } else {
                None
            }
        }
    }
}

/// A fresh real object worth `m`. May panic (run it under catch_unwind).
pub fn fresh(m: &M) -> V {
    match m {
        M::F(p) => V::F(Fp::new(p.clone())),
        M::G(p) => V::G(Fp2::new(p.clone())),
        M::E(p, n) => V::E(Fp::new(p.clone()).elt(bi(n))),
        M::H(p, a, b) => V::H(fresh2(&Fp2::new(p.clone()), a, b)),
        M::C(s) => match s.kind() {
            Kind::W => V::CW(s.real_w()),
            Kind::M => V::CM(s.real_m()),
            Kind::T => V::CT(s.real_t()),
        },
        M::P(s, p) => match s.kind() {
            Kind::W => V::PW(point(&s.real_w(), p)),
            Kind::M => V::PM(point(&s.real_m(), p)),
            Kind::T => V::PT(point(&s.real_t(), p)),
        },
        M::S(s, k) => match s.kind() {
            Kind::W => V::SW(s.real_w().new_scalar(bi(k))),
            Kind::M => V::SM(s.real_m().new_scalar(bi(k))),
            Kind::T => V::ST(s.real_t().new_scalar(bi(k))),
        },
        M::B(b) => V::B(b.clone()),
        M::K(k, s, z) => match k.as_str() {
            "sswu" => {
                let c = s.real_w();
                let z = c.get_field().elt(bi(z));
                V::Sswu(w::SSWU::new(c, z))
            }
            "svdw" => {
                let c = s.real_w();
                let z = c.get_field().elt(bi(z));
                V::Svdw(w::SVDW::new(c, z))
            }
            "ell" => {
                let c = s.real_m();
                let z = c.get_field().elt(bi(z));
                V::Ell(m::Ell2::new(c, z))
            }
            "ellt" => {
                let c = s.real_t();
                let z = c.get_field().elt(bi(z));
                V::EllT(t::Ell2::new(c, z, Some(rat(&rat_for(s)))))
            }
            k => {
                // ab0.<iso name>
                let i = k.strip_prefix("ab0.").unwrap();
                let c = s.real_w();
                let z = c.get_field().elt(bi(z));
                V::Ab0(w::SSWUAB0::new(c, z, iso(i)))
            }
        },
        M::R(n) => V::Rat(rat(n)),
        M::I(n) => V::Iso(iso(n)),
        M::N(s) => ident(s).expect("shipped"),
        M::Bad(_) => panic!("no value"),
    }
}
pub fn ident(s: S) -> Option<V> {
    use redox_ecc::instances::*;
    Some(match s.name.as_str() {
        "P256" => V::NW(P256),
        "P384" => V::NW(P384),
        "P521" => V::NW(P521),
        "SECP256K1" => V::NW(SECP256K1),
        "SECP256K1_3ISO" => V::NW(SECP256K1_3ISO),
        "BLS12381G1" => V::NW(BLS12381G1),
        "BLS12381G1_11ISO" => V::NW(BLS12381G1_11ISO),
        "CURVE25519" => V::NM(CURVE25519),
        "CURVE448" => V::NM(CURVE448),
        "EDWARDS25519" => V::NT(EDWARDS25519),
        "EDWARDS448" => V::NT(EDWARDS448),
        _ => return None,
    })
}
pub fn rat_for(s: S) -> String {
    match s.name.as_str() {
        "EDWARDS25519" => "r25519".into(),
        "EDWARDS448" => "r448".into(),
        n => format!("rtoy.{}", n),
    }
}
pub fn rat(n: &str) -> DynRat {
    use redox_ecc::instances::*;
    match n {
        "r25519" => wrap_rat(Box::new(edwards25519_to_curve25519())),
        "r448" => wrap_rat(Box::new(edwards448_to_curve448())),
        _ => Box::new(crate::user::UserRat::new(n)),
    }
}
fn wrap_rat(r: DynRat) -> DynRat {
    Box::new(crate::user::WrapRat(r))
}
pub fn iso(n: &str) -> DynIso {
    use redox_ecc::instances::*;
    match n {
        "isecp" => Box::new(crate::user::WrapIso(Box::new(get_isogeny_secp256k1()))),
        "ibls" => Box::new(crate::user::WrapIso(Box::new(get_isogeny_bls12381g1()))),
        _ => Box::new(crate::user::UserIso::new(n)),
    }
}
fn fresh2(f: &Fp2, a: &U, b: &U) -> Fp2Elt {
    use redox_ecc::ops::FromFactory;
    FromFactory::from(f, format!("{},{}", a, b).as_str())
}
fn point<E: EllipticCurve>(c: &E, p: &P) -> E::Point
where
    E::F: Field,
{
    match p {
        None => c.identity(),
        Some((x, y)) => {
            let f = c.get_field();
            c.new_point(f.elt(bi(x)), f.elt(bi(y)))
        }
    }
}

/// as `show`, from harness code: a panic is an answer too
pub fn shown(v: &V) -> Option<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show(v))).unwrap_or_else(|_| Some("PANIC".into()))
}
pub fn show(v: &V) -> Option<String> {
    Some(match v {
        V::F(x) => x.to_string(),
        V::G(x) => x.to_string(),
        V::E(x) => x.to_string(),
        V::H(x) => x.to_string(),
        V::CW(x) => x.to_string(),
        V::CM(x) => x.to_string(),
        V::CT(x) => x.to_string(),
        V::PW(x) => x.to_string(),
        V::PM(x) => x.to_string(),
        V::PT(x) => x.to_string(),
        V::SW(x) => x.to_string(),
        V::SM(x) => x.to_string(),
        V::ST(x) => x.to_string(),
        V::NW(x) => x.to_string(),
        V::NM(x) => x.to_string(),
        V::NT(x) => x.to_string(),
        _ => return None,
    })
}
pub fn kind_name(v: &V) -> &'static str {
    match v {
        V::F(_) => "F",
        V::G(_) => "G",
        V::E(_) => "E",
        V::H(_) => "H",
        V::CW(_) | V::CM(_) | V::CT(_) => "C",
        V::PW(_) | V::PM(_) | V::PT(_) => "P",
        V::SW(_) | V::SM(_) | V::ST(_) => "S",
        V::B(_) => "B",
        V::Rat(_) => "R",
        V::Iso(_) => "I",
        V::NW(_) | V::NM(_) | V::NT(_) => "N",
        _ => "K",
    }
}
/// everything a caller can see of a handle without changing it
pub fn snapshot(v: &V, deep: bool) -> String {
    let mut s = shown(v).unwrap_or_default();
    match v {
        V::B(b) => s.push_str(&hex(b)),
        V::E(x) if deep => s.push_str(&hex(&x.to_bytes_be())),
        V::H(x) if deep => s.push_str(&hex(&x.to_bytes_be())),
        V::PW(x) if deep => s.push_str(&hex(&x.encode(false))),
        V::PM(x) if deep => s.push_str(&hex(&x.encode(false))),
        V::PT(x) if deep => s.push_str(&hex(&x.encode(false))),
        V::SW(x) if deep => s.push_str(&hex(&x.to_bytes_be())),
        V::SM(x) if deep => s.push_str(&hex(&x.to_bytes_be())),
        V::ST(x) if deep => s.push_str(&hex(&x.to_bytes_be())),
        _ => {}
    }
    s
}

fn dec(s: &str) -> Option<U> {
    s.trim().parse::<U>().ok()
}
fn field<'a>(s: &'a str, k: char) -> Option<&'a str> {
    for l in s.lines() {
        let l = l.trim();
        let mut it = l.chars();
        if it.next() == Some(k) {
            if let Some(r) = it.as_str().trim_start().strip_prefix(':') {
                return Some(r.trim());
            }
        }
    }
    None
}

/// Value of an affine triple as printed.
pub fn read_point(sp: S, text: &str) -> Option<M> {
    let x = dec(field(text, 'x')?)?;
    let y = dec(field(text, 'y')?)?;
    let z = dec(field(text, 'z')?)?;
    let f = &sp.c.f;
    if x >= f.p || y >= f.p || z >= f.p {
        return None;
    }
    match sp.kind() {
        Kind::T => {
            let t = dec(field(text, 't')?)?;
            if z.is_zero() || f.mul(&t, &z) != f.mul(&x, &y) {
                return None;
            }
        }
        _ => {
            if z.is_zero() {
                return if x.is_zero() && !y.is_zero() { Some(M::P(sp, None)) } else { None };
            }
        }
    }
    let (x, y) = if z.is_one() {
        (x, y)
    } else {
        let i = f.inv(&z);
        (f.mul(&x, &i), f.mul(&y, &i))
    };
    let p = Some((x, y));
    if !sp.c.on(&p) {
        return None;
    }
    Some(M::P(sp, p))
}

/// Read a real object whose type is known.
pub fn observe(v: &V, sh: &Sh) -> M {
    let txt = shown(v);
    let bad = |why: &str| M::Bad(format!("{} {}", why, txt.clone().unwrap_or_default().replace('\n', " ")));
    match (v, sh) {
        (V::F(x), Sh::F(p)) => {
            if x.get_modulus() == bi(p) {
                M::F(p.clone())
            } else {
                bad("field")
            }
        }
        (V::G(x), Sh::G(p)) => {
            if x.get_modulus() == bi(p) {
                M::G(p.clone())
            } else {
                bad("field")
            }
        }
        (V::E(_), Sh::E(p)) => match dec(txt.as_ref().unwrap()) {
            Some(n) if n < *p => M::E(p.clone(), n),
            _ => bad("element"),
        },
        (V::H(_), Sh::H(p)) => {
            let t = txt.as_ref().unwrap();
            let v: Vec<&str> = t.split("+i*").collect();
            if v.len() == 2 {
                if let (Some(a), Some(b)) = (dec(v[0]), dec(v[1])) {
                    if a < *p && b < *p {
                        return M::H(p.clone(), a, b);
                    }
                }
            }
            bad("element")
        }
        (V::CW(_), Sh::C(s)) | (V::CM(_), Sh::C(s)) | (V::CT(_), Sh::C(s)) => {
            // two numbers are printed: a and b (or d)
            let t = txt.as_ref().unwrap();
            let a = field(t, 'a').and_then(dec);
            let b = field(t, 'b').or(field(t, 'd')).and_then(dec);
            if a.as_ref() == Some(&s.c.a) && b.as_ref() == Some(&s.c.b) {
                M::C(s)
            } else {
                bad("curve")
            }
        }
        (V::PW(_), Sh::P(s)) | (V::PM(_), Sh::P(s)) | (V::PT(_), Sh::P(s)) => read_point(s, txt.as_ref().unwrap()).unwrap_or_else(|| bad("point")),
        (V::SW(_), Sh::S(s)) | (V::SM(_), Sh::S(s)) | (V::ST(_), Sh::S(s)) => match dec(txt.as_ref().unwrap()) {
            Some(n) if n < s.c.r => M::S(s, n),
            _ => bad("scalar"),
        },
        (V::B(b), Sh::B) => M::B(b.clone()),
        (V::Rat(_), Sh::R(n)) => M::R(n.clone()),
        (V::Iso(_), Sh::I(n)) => M::I(n.clone()),
        (V::NW(_) | V::NM(_) | V::NT(_), Sh::N(s)) => M::N(s),
        (V::Sswu(_), Sh::K(k, s, z)) | (V::Svdw(_), Sh::K(k, s, z)) | (V::Ell(_), Sh::K(k, s, z)) | (V::Ab0(_), Sh::K(k, s, z)) | (V::EllT(_), Sh::K(k, s, z)) => M::K(k.clone(), s, z.clone()),
        _ => bad("type"),
    }
}
/// Equality with a pristine object, as a caller would test it.
pub fn same_as_fresh(v: &V, m: &M) -> bool {
    match (v, fresh(m)) {
        (V::F(a), V::F(b)) => *a == b,
        (V::G(a), V::G(b)) => *a == b,
        (V::E(a), V::E(b)) => *a == b,
        (V::H(a), V::H(b)) => *a == b,
        (V::CW(a), V::CW(b)) => *a == b,
        (V::CM(a), V::CM(b)) => *a == b,
        (V::CT(a), V::CT(b)) => *a == b,
        (V::PW(a), V::PW(b)) => *a == b,
        (V::PM(a), V::PM(b)) => *a == b,
        (V::PT(a), V::PT(b)) => *a == b,
        (V::SW(a), V::SW(b)) => *a == b,
        (V::SM(a), V::SM(b)) => a.to_bytes_be() == b.to_bytes_be(),
        (V::ST(a), V::ST(b)) => *a == b,
        (V::NW(a), V::NW(b)) => *a == b,
        (V::NM(a), V::NM(b)) => *a == b,
        (V::NT(a), V::NT(b)) => *a == b,
        _ => true,
    }
}
pub fn parse_int(s: &str) -> BigInt {
    if let Some(r) = s.strip_prefix('-') {
        -big(r)
    } else {
        big(s)
    }
}

// ------------------------------------------------- may it cross threads at all
struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
trait Otherwise {
    const SHAREABLE: bool = false;
}
impl<T: ?Sized> Otherwise for Probe<T> {}
impl<T: ?Sized + Send + Sync> Probe<T> {
    const SHAREABLE: bool = true;
}
/// types that the properties promise can be shared and are not Send + Sync
pub fn unshareable() -> Vec<&'static str> {
    let mut v = vec![];
    macro_rules! probe {
        ($($n:literal $t:ty),* $(,)?) => { $( if !<Probe<$t>>::SHAREABLE { v.push($n); } )* };
    }
    probe!(
        "primefield::Fp" Fp, "primefield::FpElt" FpElt, "quadraticfield::Fp2" Fp2, "quadraticfield::Fp2Elt" Fp2Elt,
        "weierstrass::Curve" w::Curve, "weierstrass::Point" w::Point, "weierstrass::Scalar" w::Scalar,
        "montgomery::Curve" m::Curve, "montgomery::Point" m::Point, "montgomery::Scalar" m::Scalar,
        "edwards::Curve" t::Curve, "edwards::Point" t::Point, "edwards::Scalar" t::Scalar,
        "weierstrass::SSWU" w::SSWU, "weierstrass::SVDW" w::SVDW, "montgomery::Ell2" m::Ell2,
    );
    v
}
