//! Executable reference model: textbook affine arithmetic, written without
//! looking like (or calling) the library under test.  Trivial inside on purpose.
pub mod primes;
pub mod shipped;
pub mod toys;

use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};

pub type U = BigUint;

pub fn big(s: &str) -> BigInt {
    if let Some(h) = s.strip_prefix("0x") {
        BigInt::parse_bytes(h.as_bytes(), 16).unwrap()
    } else {
        BigInt::parse_bytes(s.as_bytes(), 10).unwrap()
    }
}
pub fn modp(n: &BigInt, p: &U) -> U {
    let p = BigInt::from_biguint(Sign::Plus, p.clone());
    let mut r = n % &p;
    if r.sign() == Sign::Minus {
        r += &p;
    }
    r.to_biguint().unwrap()
}

/// Prime field, values are plain integers in `0..p`.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct F {
    pub p: U,
}
impl F {
    pub fn new(p: U) -> F {
        F { p }
    }
    pub fn of(&self, n: &BigInt) -> U {
        modp(n, &self.p)
    }
    pub fn small(&self, n: u32) -> U {
        U::from(n) % &self.p
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        (a + b) % &self.p
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        (a + &self.p - b) % &self.p
    }
    pub fn neg(&self, a: &U) -> U {
        (&self.p - a) % &self.p
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        (a * b) % &self.p
    }
    pub fn sq(&self, a: &U) -> U {
        self.mul(a, a)
    }
    /// inv0: extended Euclid, 0 maps to 0.
    pub fn inv(&self, a: &U) -> U {
        if a.is_zero() {
            return U::zero();
        }
        let (mut r0, mut r1) = (BigInt::from(self.p.clone()), BigInt::from(a.clone()));
        let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
        while !r1.is_zero() {
            let q = &r0 / &r1;
            let r2 = &r0 - &q * &r1;
            let t2 = &t0 - &q * &t1;
            r0 = r1;
            r1 = r2;
            t0 = t1;
            t1 = t2;
        }
        modp(&t0, &self.p)
    }
    pub fn div(&self, a: &U, b: &U) -> U {
        self.mul(a, &self.inv(b))
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = U::one() % &self.p;
        let n = e.bits();
        for i in (0..n).rev() {
            r = self.sq(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// 0, 1 or -1.
    pub fn legendre(&self, a: &U) -> i32 {
        if a.is_zero() {
            return 0;
        }
        let e = (&self.p - 1u32) >> 1;
        if self.pow(a, &e).is_one() {
            1
        } else {
            -1
        }
    }
    pub fn is_square(&self, a: &U) -> bool {
        self.legendre(a) >= 0
    }
    /// A square root by Tonelli-Shanks (any prime), None for a non-residue.
    pub fn sqrt(&self, a: &U) -> Option<U> {
        if a.is_zero() {
            return Some(U::zero());
        }
        if self.p.bit(0) && self.p.bit(1) {
            let r = self.pow(a, &((&self.p + 1u32) >> 2));
            return if self.sq(&r) == *a { Some(r) } else { None };
        }
        if self.legendre(a) != 1 {
            return None;
        }
        let mut q = &self.p - 1u32;
        let mut s = 0u32;
        while !q.bit(0) {
            q >>= 1;
            s += 1;
        }
        let mut z = U::from(2u32);
        while self.legendre(&z) != -1 {
            z += 1u32;
        }
        let mut m = s;
        let mut c = self.pow(&z, &q);
        let mut t = self.pow(a, &q);
        let mut r = self.pow(a, &((&q + 1u32) >> 1));
        while !t.is_one() {
            let mut i = 0;
            let mut t2 = t.clone();
            while !t2.is_one() {
                t2 = self.sq(&t2);
                i += 1;
            }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) {
                b = self.sq(&b);
            }
            m = i;
            c = self.sq(&b);
            t = self.mul(&t, &c);
            r = self.mul(&r, &b);
        }
        Some(r)
    }
    pub fn bytes(&self) -> usize {
        (self.p.bits() as usize).div_ceil(8)
    }
    pub fn be(&self, a: &U) -> Vec<u8> {
        pad_be(a, self.bytes())
    }
}
pub fn pad_be(a: &U, len: usize) -> Vec<u8> {
    let b = if a.is_zero() { vec![] } else { a.to_bytes_be() };
    let mut out = vec![0u8; len - b.len()];
    out.extend_from_slice(&b);
    out
}

/// GF(p^2) = GF(p)[i]/(i^2+1), p = 3 mod 4.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct F2 {
    pub f: F,
}
pub type U2 = (U, U);
impl F2 {
    pub fn add(&self, a: &U2, b: &U2) -> U2 {
        (self.f.add(&a.0, &b.0), self.f.add(&a.1, &b.1))
    }
    pub fn sub(&self, a: &U2, b: &U2) -> U2 {
        (self.f.sub(&a.0, &b.0), self.f.sub(&a.1, &b.1))
    }
    pub fn neg(&self, a: &U2) -> U2 {
        (self.f.neg(&a.0), self.f.neg(&a.1))
    }
    pub fn mul(&self, a: &U2, b: &U2) -> U2 {
        let f = &self.f;
        (
            f.sub(&f.mul(&a.0, &b.0), &f.mul(&a.1, &b.1)),
            f.add(&f.mul(&a.0, &b.1), &f.mul(&a.1, &b.0)),
        )
    }
    pub fn norm(&self, a: &U2) -> U {
        self.f.add(&self.f.sq(&a.0), &self.f.sq(&a.1))
    }
    pub fn pow(&self, a: &U2, e: &U) -> U2 {
        let mut r = (U::one() % &self.f.p, U::zero());
        for i in (0..e.bits()).rev() {
            r = self.mul(&r, &r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// quadratic residue in GF(p^2) (0 counts as a square)
    pub fn is_square(&self, a: &U2) -> bool {
        self.f.legendre(&self.norm(a)) >= 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    W,
    M,
    T,
}

/// Curve description shared by the model and the real construction.
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub name: &'static str,
    pub p: &'static str,
    pub a: &'static str,
    /// `b` (Weierstrass, Montgomery) or `d` (Edwards)
    pub b: &'static str,
    pub s: &'static str,
    pub r: &'static str,
    pub h: &'static str,
    pub gx: &'static str,
    pub gy: &'static str,
}

/// Affine point; `None` is the point at infinity (never used for Edwards).
pub type P = Option<(U, U)>;

#[derive(Clone, Debug)]
pub struct C {
    pub kind: Kind,
    pub f: F,
    pub a: U,
    pub b: U,
    pub r: U,
    pub h: U,
    pub g: (U, U),
    pub name: &'static str,
}

impl C {
    pub fn new(s: &Spec) -> C {
        let f = F::new(big(s.p).to_biguint().unwrap());
        C {
            kind: s.kind,
            a: f.of(&big(s.a)),
            b: f.of(&big(s.b)),
            r: big(s.r).to_biguint().unwrap(),
            h: big(s.h).to_biguint().unwrap(),
            g: (f.of(&big(s.gx)), f.of(&big(s.gy))),
            name: s.name,
            f,
        }
    }
    pub fn id(&self) -> P {
        match self.kind {
            Kind::T => Some((U::zero(), U::one())),
            _ => None,
        }
    }
    pub fn is_id(&self, p: &P) -> bool {
        *p == self.id()
    }
    pub fn gen(&self) -> P {
        Some(self.g.clone())
    }
    pub fn on(&self, p: &P) -> bool {
        let f = &self.f;
        match p {
            None => self.kind != Kind::T,
            Some((x, y)) => match self.kind {
                Kind::W | Kind::M => {
                    let l = if self.kind == Kind::W {
                        f.sq(y)
                    } else {
                        f.mul(&self.b, &f.sq(y))
                    };
                    l == self.rhs(x)
                }
                Kind::T => {
                    let (xx, yy) = (f.sq(x), f.sq(y));
                    let l = f.add(&f.mul(&self.a, &xx), &yy);
                    let r = f.add(&U::one(), &f.mul(&self.b, &f.mul(&xx, &yy)));
                    l == r
                }
            },
        }
    }
    /// right-hand side in x (Weierstrass/Montgomery)
    pub fn rhs(&self, x: &U) -> U {
        let f = &self.f;
        match self.kind {
            Kind::W => f.add(&f.mul(&f.add(&f.sq(x), &self.a), x), &self.b),
            Kind::M => f.mul(
                &f.add(&f.mul(&f.add(x, &self.a), x), &U::one()),
                x,
            ),
            Kind::T => unreachable!(),
        }
    }
    /// y from x (W/M) or x from y (T): one of the two roots.
    pub fn lift(&self, c: &U) -> P {
        let f = &self.f;
        match self.kind {
            Kind::W => f.sqrt(&self.rhs(c)).map(|y| (c.clone(), y)),
            Kind::M => f
                .sqrt(&f.div(&self.rhs(c), &self.b))
                .map(|y| (c.clone(), y)),
            Kind::T => {
                let yy = f.sq(c);
                let u = f.sub(&yy, &U::one());
                let v = f.sub(&f.mul(&self.b, &yy), &self.a);
                f.sqrt(&f.div(&u, &v)).map(|x| (x, c.clone()))
            }
        }
    }
    pub fn neg(&self, p: &P) -> P {
        p.as_ref().map(|(x, y)| match self.kind {
            Kind::T => (self.f.neg(x), y.clone()),
            _ => (x.clone(), self.f.neg(y)),
        })
    }
    pub fn add(&self, p: &P, q: &P) -> P {
        let f = &self.f;
        if self.kind == Kind::T {
            let ((x1, y1), (x2, y2)) = (p.as_ref().unwrap(), q.as_ref().unwrap());
            let x12 = f.mul(x1, x2);
            let y12 = f.mul(y1, y2);
            let t = f.mul(&self.b, &f.mul(&x12, &y12));
            let xn = f.add(&f.mul(x1, y2), &f.mul(y1, x2));
            let yn = f.sub(&y12, &f.mul(&self.a, &x12));
            return Some((
                f.div(&xn, &f.add(&U::one(), &t)),
                f.div(&yn, &f.sub(&U::one(), &t)),
            ));
        }
        let (x1, y1) = match p {
            None => return q.clone(),
            Some(v) => v,
        };
        let (x2, y2) = match q {
            None => return p.clone(),
            Some(v) => v,
        };
        let two = f.small(2);
        let three = f.small(3);
        let l = if x1 == x2 {
            if f.add(y1, y2).is_zero() {
                return None;
            }
            match self.kind {
                Kind::W => f.div(&f.add(&f.mul(&three, &f.sq(x1)), &self.a), &f.mul(&two, y1)),
                _ => f.div(
                    &f.add(
                        &f.add(&f.mul(&three, &f.sq(x1)), &f.mul(&f.mul(&two, &self.a), x1)),
                        &U::one(),
                    ),
                    &f.mul(&f.mul(&two, &self.b), y1),
                ),
            }
        } else {
            f.div(&f.sub(y2, y1), &f.sub(x2, x1))
        };
        let x3 = match self.kind {
            Kind::W => f.sub(&f.sub(&f.sq(&l), x1), x2),
            _ => f.sub(
                &f.sub(&f.sub(&f.mul(&self.b, &f.sq(&l)), &self.a), x1),
                x2,
            ),
        };
        let y3 = f.sub(&f.mul(&l, &f.sub(x1, &x3)), y1);
        Some((x3, y3))
    }
    /// the definition: repeated affine addition
    pub fn mul_slow(&self, k: &U, p: &P) -> P {
        let mut q = self.id();
        for i in (0..k.bits()).rev() {
            q = self.add(&q, &q);
            if k.bit(i) {
                q = self.add(&q, p);
            }
        }
        q
    }
    /// the same with one inversion
    pub fn mul(&self, k: &U, p: &P) -> P {
        if k.bits() < 3 {
            return self.mul_slow(k, p);
        }
        let Some((x, y)) = p else { return None };
        let f = &self.f;
        let g = (x.clone(), y.clone(), U::one());
        let mut q = if self.kind == Kind::T { (U::zero(), U::one(), U::one()) } else { (U::zero(), U::one(), U::zero()) };
        for i in (0..k.bits()).rev() {
            q = self.proj_add(&q, &q);
            if k.bit(i) {
                q = self.proj_add(&q, &g);
            }
        }
        if q.2.is_zero() {
            return None;
        }
        let i = f.inv(&q.2);
        Some((f.mul(&q.0, &i), f.mul(&q.1, &i)))
    }
    fn proj_add(&self, p: &(U, U, U), q: &(U, U, U)) -> (U, U, U) {
        let f = &self.f;
        let ((x1, y1, z1), (x2, y2, z2)) = (p, q);
        if self.kind == Kind::T {
            let a = f.mul(z1, z2);
            let b = f.sq(&a);
            let c = f.mul(x1, x2);
            let d = f.mul(y1, y2);
            let e = f.mul(&self.b, &f.mul(&c, &d));
            let (ff, g) = (f.sub(&b, &e), f.add(&b, &e));
            let h = f.sub(&f.sub(&f.mul(&f.add(x1, y1), &f.add(x2, y2)), &c), &d);
            return (f.mul(&a, &f.mul(&ff, &h)), f.mul(&a, &f.mul(&g, &f.sub(&d, &f.mul(&self.a, &c)))), f.mul(&ff, &g));
        }
        if z1.is_zero() {
            return q.clone();
        }
        if z2.is_zero() {
            return p.clone();
        }
        let inf = (U::zero(), U::one(), U::zero());
        // b y^2 = x^3 + a2 x^2 + a4 x + a6
        let m = self.kind == Kind::M;
        let byb = |v: U| if m { f.mul(&self.b, &v) } else { v };
        let (x1z2, x2z1, y1z2, y2z1) = (f.mul(x1, z2), f.mul(x2, z1), f.mul(y1, z2), f.mul(y2, z1));
        if x1z2 == x2z1 {
            if y1z2 != y2z1 || y1.is_zero() {
                return inf;
            }
            let (xx, zz) = (f.sq(x1), f.sq(z1));
            let three = f.add(&f.add(&xx, &xx), &xx);
            let w = if m {
                let t = f.mul(&self.a, &f.mul(x1, z1));
                f.add(&f.add(&three, &f.add(&t, &t)), &zz)
            } else {
                f.add(&three, &f.mul(&self.a, &zz))
            };
            let yz = f.mul(y1, z1);
            let s = byb(f.add(&yz, &yz));
            let ss = f.sq(&s);
            let xss = f.mul(x1, &ss);
            let ssz = f.mul(&ss, z1);
            let mut a = f.sub(&f.mul(&byb(f.sq(&w)), z1), &f.add(&xss, &xss));
            if m {
                a = f.sub(&a, &f.mul(&self.a, &ssz));
            }
            let sss = f.mul(&ss, &s);
            return (f.mul(&a, &s), f.sub(&f.mul(&w, &f.sub(&xss, &a)), &f.mul(y1, &sss)), f.mul(&sss, z1));
        }
        let (u, v) = (f.sub(&y2z1, &y1z2), f.sub(&x2z1, &x1z2));
        let (vv, zz) = (f.sq(&v), f.mul(z1, z2));
        let vvv = f.mul(&vv, &v);
        let vx = f.mul(&vv, &x1z2);
        let mut a = f.sub(&f.sub(&f.mul(&byb(f.sq(&u)), &zz), &vvv), &f.add(&vx, &vx));
        if m {
            a = f.sub(&a, &f.mul(&self.a, &f.mul(&vv, &zz)));
        }
        (f.mul(&v, &a), f.sub(&f.mul(&u, &f.sub(&vx, &a)), &f.mul(&vvv, &y1z2)), f.mul(&vvv, &zz))
    }
    /// length of an encoding that carries coordinates
    pub fn enc(&self, p: &P, compress: bool) -> Vec<u8> {
        let f = &self.f;
        match self.kind {
            Kind::T => {
                let (x, y) = p.as_ref().unwrap();
                let size = (f.p.bits() as usize + 1).div_ceil(8);
                let mut b = pad_be(y, size);
                b.reverse();
                if x.bit(0) {
                    b[size - 1] |= 0x80;
                }
                b
            }
            _ => match p {
                None => vec![0],
                Some((x, y)) => {
                    let mut o = vec![if !compress {
                        4
                    } else if y.bit(0) {
                        3
                    } else {
                        2
                    }];
                    o.extend(f.be(x));
                    if !compress {
                        o.extend(f.be(y));
                    }
                    o
                }
            },
        }
    }
}

macro_rules! sp {
    ($k:expr,$n:expr,$p:expr,$a:expr,$b:expr,$s:expr,$r:expr,$h:expr,$gx:expr,$gy:expr) => {
        Spec { kind: $k, name: $n, p: $p, a: $a, b: $b, s: $s, r: $r, h: $h, gx: $gx, gy: $gy }
    };
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// Every toy curve. Edwards `i` is birational to Montgomery `i`.
pub fn toy_specs(kind: Kind) -> Vec<Spec> {
    match kind {
        Kind::W => toys::WS
            .iter()
            .enumerate()
            .map(|(i, c)| sp!(Kind::W, leak(format!("toyW{i}")), c.p, c.a, c.b, "0", c.r, c.h, c.gx, c.gy))
            .collect(),
        Kind::M => toys::MS
            .iter()
            .enumerate()
            .map(|(i, c)| sp!(Kind::M, leak(format!("toyM{i}")), c.p, c.a, c.b, c.s, c.r, c.h, c.gx, c.gy))
            .collect(),
        Kind::T => toys::TS
            .iter()
            .enumerate()
            .map(|(i, c)| sp!(Kind::T, leak(format!("toyT{i}")), c.p, c.a, c.d, "0", c.r, c.h, c.gx, c.gy))
            .collect(),
    }
}
