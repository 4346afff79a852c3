//! User-supplied code called back by the library: maps and output sinks that
//! can be told to fail, panic, stall, give way or call back into the library.
use crate::spec::S;
use crate::val::*;
use num_bigint::{BigInt, Sign};
use num_traits::Zero;
use redox_ecc::ellipticcurve::*;
use redox_ecc::field::*;
use redox_ecc::ops::FromFactory;
use redox_ecc::{edwards as t, montgomery as m, weierstrass as w};
use simrt::sched;

#[derive(Debug)]
pub struct CbFault;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Do {
    Nothing,
    Panic,
    Yield,
    Stall(u64),
    Reenter(u64),
    /// sinks only: report an error, for good or once
    Err,
    ErrOnce,
}
#[derive(Clone, Copy)]
pub struct Cb {
    pub what: Do,
    /// sinks: byte position; maps: number of the call
    pub at: u64,
    pub fired: bool,
    pub calls: u64,
}
pub const CB0: Cb = Cb { what: Do::Nothing, at: 0, fired: false, calls: 0 };
pub static mut CB: [Cb; sched::MAXT + 1] = [CB0; sched::MAXT + 1];
pub static mut FIRED: [u64; 6] = [0; 6];

pub fn parse_do(s: &str) -> Option<(Do, u64)> {
    let v: Vec<&str> = s.split('@').collect();
    let at = v.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    Some((
        match v[0] {
            "panic" => Do::Panic,
            "yield" => Do::Yield,
            "err" => Do::Err,
            "err1" => Do::ErrOnce,
            x => match x.strip_prefix("reenter") {
                Some(k) => Do::Reenter(k.parse().ok()?),
                None => Do::Stall(x.strip_prefix("stall")?.parse().ok()?),
            },
        },
        at,
    ))
}

fn take() -> Do {
    unsafe {
        let c = &mut CB[sched::cur()];
        c.calls += 1;
        if c.what != Do::Nothing && !c.fired && c.calls > c.at {
            c.fired = true;
            return c.what;
        }
    }
    Do::Nothing
}
fn note(i: usize) {
    unsafe { FIRED[i] += 1 }
}
fn stall_or_yield(d: Do) {
    match d {
        Do::Yield => {
            note(1);
            sched::point(1000)
        }
        Do::Stall(ns) => {
            note(2);
            if sched::in_task() {
                sched::sleep_until(sched::now() + ns)
            }
        }
        _ => sched::point(100),
    }
}
/// called at the start of every user-supplied map
fn hook() {
    let u = sched::pause();
    let d = take();
    stall_or_yield(d);
    sched::resume(u);
    match d {
        Do::Panic => {
            note(0);
            std::panic::panic_any(CbFault)
        }
        Do::Reenter(k) => {
            note(3);
            crate::nest::run(k);
        }
        _ => {}
    }
}

pub struct WrapRat(pub DynRat);
impl RationalMap for WrapRat {
    type E0 = t::Curve;
    type E1 = m::Curve;
    fn domain(&self) -> t::Curve {
        self.0.domain()
    }
    fn codomain(&self) -> m::Curve {
        self.0.codomain()
    }
    fn push(&self, p: t::Point) -> m::Point {
        hook();
        self.0.push(p)
    }
    fn pull(&self, p: m::Point) -> t::Point {
        hook();
        self.0.pull(p)
    }
}
pub struct WrapIso(pub DynIso);
impl Isogeny for WrapIso {
    type E0 = w::Curve;
    type E1 = w::Curve;
    fn domain(&self) -> w::Curve {
        self.0.domain()
    }
    fn codomain(&self) -> w::Curve {
        self.0.codomain()
    }
    fn push(&self, p: w::Point) -> w::Point {
        hook();
        self.0.push(p)
    }
}

/// A user's isogeny-shaped map between toy curves: hash the encoding to a
/// multiple of the generator.
pub struct UserIso {
    d: w::Curve,
    c: w::Curve,
    e1: S,
}
impl UserIso {
    pub fn new(n: &str) -> UserIso {
        let (d, c) = iso_specs(n).unwrap();
        UserIso { d: d.real_w(), c: c.real_w(), e1: c }
    }
}
impl Isogeny for UserIso {
    type E0 = w::Curve;
    type E1 = w::Curve;
    fn domain(&self) -> w::Curve {
        self.d.clone()
    }
    fn codomain(&self) -> w::Curve {
        self.c.clone()
    }
    fn push(&self, p: w::Point) -> w::Point {
        hook();
        let k = BigInt::from_bytes_be(Sign::Plus, &p.encode(true)) % 97;
        let _ = self.e1;
        self.c.get_generator() * self.c.new_scalar(k)
    }
}

/// The canonical birational map between a twisted Edwards toy curve and its
/// Montgomery form, written by a user over the public interface.
pub struct UserRat {
    d: t::Curve,
    c: m::Curve,
    scale: BigInt,
}
impl UserRat {
    pub fn new(n: &str) -> UserRat {
        let (d, c) = rat_specs(n).unwrap();
        UserRat { scale: bi(d.tscale.as_ref().unwrap()), d: d.real_t(), c: c.real_m() }
    }
}
impl RationalMap for UserRat {
    type E0 = t::Curve;
    type E1 = m::Curve;
    fn domain(&self) -> t::Curve {
        self.d.clone()
    }
    fn codomain(&self) -> m::Curve {
        self.c.clone()
    }
    fn push(&self, p: t::Point) -> m::Point {
        hook();
        let f = self.c.get_field();
        let mut b = p.encode(true);
        let n = b.len();
        b[n - 1] &= 127;
        let y = f.elt(BigInt::from_bytes_le(Sign::Plus, &b));
        if p.is_zero() {
            return self.c.identity();
        }
        let num = f.one() + &y;
        if num.is_zero() {
            return self.c.new_point(f.zero(), f.zero());
        }
        // x from the curve equation would lose the sign: go through the difference P - (0,-1)
        let u = num / (f.one() - &y);
        let x = edwards_x(&p, &f);
        let v = f.elt(self.scale.clone()) * &u / &x;
        self.c.new_point(u, v)
    }
    fn pull(&self, p: m::Point) -> t::Point {
        hook();
        let f = self.d.get_field();
        if p.is_zero() {
            return self.d.identity();
        }
        let b = p.encode(false);
        let n = (b.len() - 1) / 2;
        let u = f.elt(BigInt::from_bytes_be(Sign::Plus, &b[1..1 + n]));
        let v = f.elt(BigInt::from_bytes_be(Sign::Plus, &b[1 + n..]));
        let up = &u + f.one();
        if v.is_zero() || up.is_zero() {
            return self.d.new_point(f.zero(), -f.one());
        }
        let x = f.elt(self.scale.clone()) * &u / &v;
        let y = (&u - f.one()) / up;
        self.d.new_point(x, y)
    }
}
/// x coordinate by way of the printed form (the public interface has no other)
fn edwards_x(p: &t::Point, f: &redox_ecc::primefield::Fp) -> redox_ecc::primefield::FpElt {
    let mut q = p.clone();
    q.normalize();
    let s = q.to_string();
    for l in s.lines() {
        if let Some(r) = l.trim().strip_prefix("x:") {
            return FromFactory::from(f, r.trim());
        }
    }
    f.zero()
}

/// A sink that takes bytes until told otherwise.
pub struct Sink<'a> {
    pub got: &'a mut Vec<u8>,
    pub over: bool,
    pub v: &'a V,
    pub full: &'a str,
    pub m: &'a M,
}
fn read_point_of(m: &M, t: &str) -> Option<M> {
    match m {
        M::P(s, _) => read_point(s, &t.replace(';', "\n")),
        _ => None,
    }
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let u = sched::pause();
        let c = unsafe { &mut CB[sched::cur()] };
        c.calls += 1;
        if c.fired && c.what == Do::Err {
            self.over = true;
            sched::resume(u);
            return Err(std::fmt::Error);
        }
        let pos = self.got.len() as u64;
        let end = pos + s.len() as u64;
        if c.what != Do::Nothing && !c.fired && end > c.at {
            c.fired = true;
            let k = (c.at - pos.min(c.at)) as usize;
            self.got.extend_from_slice(&s.as_bytes()[..k]);
            match c.what {
                Do::Err | Do::ErrOnce => {
                    note(4);
                    sched::resume(u);
                    return Err(std::fmt::Error);
                }
                Do::Panic => {
                    note(0);
                    sched::resume(u);
                    std::panic::panic_any(CbFault);
                }
                Do::Reenter(k) => {
                    note(3);
                    // the very object that is being printed, then others
                    sched::resume(u);
                    let t = show(self.v).unwrap_or_default();
                    sched::pause();
                    let q = format!("show.|{}", self.m.text());
                    let t = t.replace('\n', ";");
                    match (self.m, read_point_of(self.m, &t)) {
                        (M::P(..), Some(m)) => crate::machine::nested(&q, &m.text(), Some(&self.m.text())),
                        _ => crate::machine::nested(&q, &format!("T:{}", t), Some(&format!("T:{}", self.full.replace('\n', ";")))),
                    }
                    drop(t);
                    sched::resume(u);
                    crate::nest::run(k);
                    sched::pause();
                }
                d => stall_or_yield(d),
            }
            self.got.extend_from_slice(&s.as_bytes()[k..]);
        } else {
            sched::point(50);
            self.got.extend_from_slice(s.as_bytes());
        }
        sched::resume(u);
        Ok(())
    }
}
