//! The curves under test and the adapter between the library and the reference mathematics.
use crate::gen::*;
use crate::refm::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};
use redox_ecc::ellipticcurve::{Decode, EcPoint, EcScalar, EllipticCurve};
use redox_ecc::field::Field;
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::ops::Serialize as _;
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::{edwards, montgomery, weierstrass};
use std::collections::HashMap;
use std::sync::OnceLock;

pub fn fe(f: &Fp, v: &Z) -> FpElt {
    f.elt(v.clone())
}
pub fn zof(x: &impl std::fmt::Display) -> Result<Z, String> {
    let s = x.to_string();
    s.trim().parse::<BigInt>().map_err(|_| format!("not an integer: {s:?}"))
}

// ---------------------------------------------------------------- curve data
#[derive(serde::Deserialize)]
struct CJ {
    kind: String,
    name: String,
    builtin: bool,
    p: String,
    a: String,
    b: String,
    s: String,
    r: String,
    h: String,
    gx: String,
    gy: String,
}
pub fn all_specs() -> &'static Vec<Spec> {
    static S: OnceLock<Vec<Spec>> = OnceLock::new();
    S.get_or_init(|| {
        let v: Vec<CJ> = serde_json::from_str(include_str!("../data/curves.json")).unwrap();
        v.iter()
            .map(|c| Spec {
                kind: match c.kind.as_str() {
                    "W" => Kind::W,
                    "M" => Kind::M,
                    _ => Kind::E,
                },
                name: c.name.clone(),
                builtin: c.builtin,
                ordered: true,
                p: zhex(&c.p),
                a: zhex(&c.a),
                b: zhex(&c.b),
                s: zhex(&c.s),
                r: zhex(&c.r),
                h: zhex(&c.h),
                gx: zhex(&c.gx),
                gy: zhex(&c.gy),
            })
            .collect()
    })
}
pub fn spec(name: &str) -> Spec {
    all_specs().iter().find(|s| s.name == name).unwrap().clone()
}

/// multiplicity-one largest odd prime factor of n, if any
fn order_of(n: u64) -> Option<(u64, u64)> {
    let mut m = n;
    let mut best = None;
    let mut d = 2;
    while m > 1 {
        if d * d > m {
            d = m;
        }
        if m % d == 0 {
            let mut k = 0;
            while m % d == 0 {
                m /= d;
                k += 1;
            }
            best = Some((d, k));
        }
        d += 1;
    }
    match best {
        Some((r, 1)) if r > 2 => Some((r, n / r)),
        _ => None,
    }
}
fn squares(p: u64) -> Vec<bool> {
    let mut t = vec![false; p as usize];
    for x in 0..p {
        t[(x * x % p) as usize] = true;
    }
    t
}
fn inv_u(a: u64, p: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u64, a % p, p - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
/// number of points of a toy curve
fn count(kind: Kind, p: u64, a: u64, b: u64, sq: &[bool]) -> u64 {
    let leg = |v: u64| if v == 0 { 1 } else if sq[v as usize] { 2 } else { 0 };
    match kind {
        Kind::W => 1 + (0..p).map(|x| leg((x * x % p * x + a * x + b) % p)).sum::<u64>(),
        Kind::M => {
            let ib = inv_u(b, p);
            1 + (0..p).map(|x| leg((x * x % p * x + a * (x * x % p) + x) % p * ib % p)).sum::<u64>()
        }
        Kind::E => (0..p)
            .map(|y| {
                let y2 = y * y % p;
                let den = (a + p * p - b * y2) % p;
                assert!(den != 0);
                leg((1 + p - y2) % p * inv_u(den, p) % p)
            })
            .sum(),
    }
}
fn nonsingular(kind: Kind, p: u64, a: u64, b: u64) -> bool {
    match kind {
        Kind::W => (4 * (a * a % p * a % p) + 27 * (b * b % p)) % p != 0,
        Kind::M => b % p != 0 && a * a % p != 4 % p,
        Kind::E => a % p != 0 && b % p != 0 && a % p != b % p,
    }
}
fn toy(kind: Kind, p: u64, a: u64, b: u64, sq: &[bool], need_order: bool) -> Option<Spec> {
    if !nonsingular(kind, p, a, b) {
        return None;
    }
    if kind == Kind::E && (!sq[a as usize] || sq[b as usize]) {
        return None;
    }
    let n = count(kind, p, a, b, sq);
    let odd_needed = kind == Kind::W && need_order;
    if odd_needed && n % 2 == 0 {
        return None;
    }
    let (r, h, ordered) = match order_of(n) {
        Some((r, h)) => (r, h, true),
        None if need_order => return None,
        None => (7, 1, false),
    };
    let letter = match kind {
        Kind::W => "W",
        Kind::M => "M",
        Kind::E => "E",
    };
    let mut c = Spec {
        kind,
        name: format!("{letter}/{p}/{a}/{b}"),
        builtin: false,
        ordered,
        p: z(p as i64),
        a: z(a as i64),
        b: z(b as i64),
        s: z(0),
        r: z(r as i64),
        h: z(h as i64),
        gx: z(0),
        gy: z(1),
    };
    if kind == Kind::M {
        // completeness: a value that is no point's y
        let ib = inv_u(b, p);
        let mut has = vec![false; p as usize];
        let roots: Vec<Vec<u64>> = {
            let mut t = vec![vec![]; p as usize];
            for y in 0..p {
                t[(y * y % p) as usize].push(y);
            }
            t
        };
        for x in 0..p {
            for y in &roots[((x * x % p * x + a * (x * x % p) + x) % p * ib % p) as usize] {
                has[*y as usize] = true;
            }
        }
        match (0..p).find(|y| !has[*y as usize]) {
            Some(s) => c.s = z(s as i64),
            None if need_order => return None,
            None => c.s = z(1),
        }
    }
    if ordered {
        let mut v = z(0);
        loop {
            if &v >= &c.p {
                return None;
            }
            if let Some(q) = c.lift(&v, (p % 3) == 1) {
                let g = c.mul(&q, &c.h);
                if g != c.zero() {
                    let (x, y) = g.unwrap();
                    c.gx = x;
                    c.gy = y;
                    break;
                }
            }
            v += 1;
        }
    } else if let Some((x, y)) = c.lift_next(&z(0), false) {
        c.gx = x;
        c.gy = y;
    }
    Some(c)
}
pub const TINY: [u64; 4] = [5, 7, 11, 13];
const SMALLP: [u64; 22] =
    [17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 97, 101, 103, 107, 109, 127];
const MIDP: [u64; 10] = [131, 241, 251, 257, 509, 521, 1009, 4093, 65521, 65537];
struct Lcg(u64);
impl Lcg {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 17
    }
    fn big(&mut self, p: &Z) -> Z {
        let v: Vec<u32> = (0..20).map(|_| self.next() as u32).collect();
        md(&limbs(&v), p)
    }
}
/// curves over word-boundary primes whose order is unknown but on which the formulas are complete
fn unordered(kind: Kind) -> Vec<Spec> {
    let mut out = vec![];
    let mut rng = Lcg(0x5eed ^ kind as u64);
    let r: Z = (Z::one() << 127usize) - 1;
    for (e, d) in [(31, -1), (32, -5), (32, 15), (61, -1), (63, -25), (64, -59), (64, 13), (96, -17), (127, -1), (128, -159), (128, 51), (130, -5), (192, -237), (255, -31), (256, -189), (256, 297)] {
        let p: Z = (Z::one() << e as usize) + d as i64;
        let mut k = 0;
        while k < 2 {
            let (a, b) = (rng.big(&p), rng.big(&p));
            let a = if kind == Kind::W && k == 0 { &p - 3 } else { a };
            let mut c = Spec {
                kind,
                name: String::new(),
                builtin: false,
                ordered: false,
                p: p.clone(),
                a,
                b,
                s: z(0),
                r: r.clone(),
                h: z(1),
                gx: z(0),
                gy: z(1),
            };
            let ok = match kind {
                Kind::W => roots(&[c.b.clone(), c.a.clone(), z(0), z(1)], &p).is_empty(),
                Kind::M => {
                    c.s = rng.big(&p);
                    if k == 0 {
                        c.s = z(1 + (c.s.bits() % 5) as i64);
                    }
                    points_with_y(&c, &c.s.clone()).is_empty()
                }
                Kind::E => {
                    c.a = md(&(&c.a * &c.a), &p);
                    if k == 0 {
                        c.a = z(1);
                    }
                    jacobi(&c.b, &p) == -1
                }
            };
            if !ok {
                continue;
            }
            c.name = format!("{kind:?}/2^{e}{d:+}/{k}");
            let (x, y) = c.lift_next(&rng.big(&p), true).unwrap();
            c.gx = x;
            c.gy = y;
            out.push(c);
            k += 1;
        }
    }
    out
}
fn toys(kind: Kind) -> Vec<Spec> {
    let mut out = vec![];
    for p in TINY {
        let sq = squares(p);
        for a in 0..p {
            for b in 0..p {
                out.extend(toy(kind, p, a, b, &sq, true));
            }
        }
    }
    for (ps, lim) in [(&SMALLP[..], 6), (&MIDP[..], 3)] {
        for &p in ps {
            let sq = squares(p);
            let mut rng = Lcg(p * 31 + kind as u64);
            let mut n = 0;
            let mut tries = 0;
            while n < lim && tries < 60 {
                tries += 1;
                let mut a = rng.next() % p;
                let b = rng.next() % p;
                if kind == Kind::E && !sq[a as usize] {
                    a = a * a % p;
                }
                if let Some(c) = toy(kind, p, a, b, &sq, true) {
                    if !out.iter().any(|o: &Spec| o.name == c.name) {
                        out.push(c);
                        n += 1;
                    }
                }
            }
        }
    }
    out
}
/// every nonsingular toy curve over small primes the maps work on (no condition on the order)
pub fn map_toys(kind: Kind) -> &'static Vec<Spec> {
    static W: OnceLock<Vec<Spec>> = OnceLock::new();
    static M: OnceLock<Vec<Spec>> = OnceLock::new();
    let cell = if kind == Kind::W { &W } else { &M };
    cell.get_or_init(|| {
        let mut out = vec![];
        for p in [5u64, 7, 11, 13] {
            let sq = squares(p);
            for a in 0..p {
                for b in 0..p {
                    out.extend(toy(kind, p, a, b, &sq, false));
                }
            }
        }
        for p in [19u64, 23, 29, 31, 37, 43, 47, 53, 59, 61, 67, 71, 79, 103, 127, 251, 509, 1019, 4093, 65521, 65539] {
            let sq = squares(p);
            let mut rng = Lcg(p * 77 + kind as u64);
            for k in 0..8 {
                let mut a = rng.next() % p;
                let mut b = rng.next() % p;
                if kind == Kind::W && k == 6 {
                    a = 0;
                }
                if kind == Kind::W && k == 7 {
                    b = 0;
                }
                out.extend(toy(kind, p, a, b, &sq, false));
            }
        }
        out.sort_by(|a, b| (&a.p, &a.a, &a.b).cmp(&(&b.p, &b.a, &b.b)));
        out.dedup_by(|a, b| a.name == b.name);
        out
    })
}

// ---------------------------------------------------------------- models
struct EqProbe<'a, T>(&'a T, &'a T);
trait EqYes {
    fn cmp_eq(&self) -> Option<bool>;
}
#[allow(dead_code)]
trait EqNo {
    fn cmp_eq(&self) -> Option<bool>;
}
impl<T: PartialEq> EqYes for EqProbe<'_, T> {
    fn cmp_eq(&self) -> Option<bool> {
        Some(self.0 == self.1)
    }
}
impl<T> EqNo for &EqProbe<'_, T> {
    fn cmp_eq(&self) -> Option<bool> {
        None
    }
}
/// the texts of a parameter set
#[derive(Clone, Debug)]
pub struct Texts {
    pub name: String,
    pub p: String,
    pub a: String,
    pub b: String,
    pub s: String,
    pub r: String,
    pub h: String,
    pub gx: String,
    pub gy: String,
}
impl Texts {
    pub fn of(s: &Spec) -> Texts {
        Texts {
            name: s.name.clone(),
            p: s.p.to_string(),
            a: s.a.to_string(),
            b: s.b.to_string(),
            s: s.s.to_string(),
            r: s.r.to_string(),
            h: s.h.to_string(),
            gx: s.gx.to_string(),
            gy: s.gy.to_string(),
        }
    }
}
pub trait Model: Sized + 'static {
    const K: Kind;
    const NAME: &'static str;
    type C: EllipticCurve<F = Fp, Scalar = Self::S, Point = Self::P> + Decode<Deser = Self::P> + Clone + PartialEq + std::fmt::Display;
    type P: EcPoint<Self::S> + Clone + 'static;
    type S: EcScalar + Clone;
    type Params: Sync + Send;
    fn leak_text(t: &Texts) -> &'static Self::Params;
    fn leak(s: &Spec) -> &'static Self::Params {
        Self::leak_text(&Texts::of(s))
    }
    fn curve(p: &'static Self::Params) -> Self::C;
    fn builtin(name: &str) -> Option<Self::C>;
    fn worlds() -> &'static Worlds<Self>;
    fn adds(a: &Self::P, b: &Self::P) -> Vec<Self::P>;
    fn subs(a: &Self::P, b: &Self::P) -> Vec<Self::P>;
    fn negs(a: &Self::P) -> Vec<Self::P>;
    const MULS: usize;
    fn mul(form: usize, a: &Self::P, k: &Self::S) -> Self::P;
    fn norm(a: &mut Self::P);
    fn scalar(k: Z, r: &BigUint) -> Self::S;
    fn s_add(a: &Self::S, b: &Self::S) -> Vec<Self::S>;
    fn s_sub(a: &Self::S, b: &Self::S) -> Vec<Self::S>;
    fn s_mul(a: &Self::S, b: &Self::S) -> Vec<Self::S>;
    fn s_div(a: &Self::S, b: &Self::S) -> Vec<Self::S>;
    fn s_neg(a: &Self::S) -> Vec<Self::S>;
    /// a single operand form
    fn add1(form: usize, a: &Self::P, b: &Self::P) -> Self::P;
    fn sub1(form: usize, a: &Self::P, b: &Self::P) -> Self::P;
    fn s_add1(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn s_sub1(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn s_mul1(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    fn s_div1(form: usize, a: &Self::S, b: &Self::S) -> Self::S;
    /// None: the model offers no scalar comparison
    fn s_eq(a: &Self::S, b: &Self::S) -> Option<bool>;
    fn s_inv(a: &Self::S) -> Self::S;
    fn s_inv_num(n: u32, a: &Self::S) -> Self::S;
    fn lr(a: &Self::S, cap: usize) -> Vec<bool>;
    fn rl(a: &Self::S, cap: usize) -> Vec<bool>;
}
macro_rules! forms {
    ($a:expr, $b:expr, $op:tt) => {{
        let (a, b) = ($a, $b);
        let mut v = vec![a $op b, a.clone() $op b, a $op b.clone(), a.clone() $op b.clone()];
        // both operands one and the same object
        if a.to_string() == b.to_string() {
            v.push(a $op a);
        }
        v
    }};
}
pub(crate) use forms;
/// The element with value x, reached by the operations that `k` names. All of them give the value x in the
/// reference; when they do not in the library, the comparisons of the element tell.
/// add .. inv compute with reference values, mk makes an element from one; r is a value that is not zero.
macro_rules! via {
    ($k:expr, $x:expr, $r:expr, $mk:expr, $add:expr, $sub:expr, $mul:expr, $inv:expr) => {{
        let (x, r, mk) = ($x, $r, $mk);
        let (add, sub, mul, inv) = ($add, $sub, $mul, $inv);
        let zero = sub(x, x);
        match $k % 16 {
            0 | 1 | 2 => mk(x),
            3 => mk(&sub(x, r)) + &mk(r),
            4 => mk(&add(x, r)) - &mk(r),
            5 => -mk(&sub(&zero, x)),
            6 => &mk(&mul(x, &inv(r))) * &mk(r),
            7 => mk(&mul(x, r)) / &mk(r),
            8 => -(-mk(x)),
            // sums of sums, on the right and on the left
            9 | 10 => {
                let e = mk(r);
                let rr = add(r, r);
                let s = mk(&sub(&sub(x, &rr), &rr));
                let t = &(&e + &e) + &(&e + &e);
                if $k % 16 == 9 { s + &t } else { t + &s }
            }
            // long chains
            11 | 12 => {
                let (mut t, e) = (mk(x), mk(r));
                for _ in 0..20 {
                    t = if $k % 16 == 11 { t + &e } else { t - &e };
                }
                for _ in 0..20 {
                    t = if $k % 16 == 11 { &t - &e } else { &e + &t };
                }
                t
            }
            13 => {
                let t = mk(x);
                let d = &t + &t;
                d - &t
            }
            // differences of differences
            14 => {
                let e = mk(r);
                let o = &mk(&sub(x, r)) - &e;
                let q = &(-&e) - &e;
                &o - &q + &(&e - &e)
            }
            _ => {
                let (t, e) = (mk(x), mk(r));
                let d = &(&t + &e) * &(&t + &e);
                // (t+e)^2 - t(t+e) - e(t+e) + t
                let s = &t + &e;
                &(&d - &(&t * &s)) - &(&e * &s) + &t
            }
        }
    }};
}
pub(crate) use via;
macro_rules! form1 {
    ($f:expr, $a:expr, $b:expr, $op:tt) => {{
        let (a, b) = ($a, $b);
        match $f % 4 {
            0 => a $op b,
            1 => a.clone() $op b,
            2 => a $op b.clone(),
            _ => a.clone() $op b.clone(),
        }
    }};
}
pub(crate) use form1;
fn lk(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
macro_rules! model {
    ($T:ident, $kind:expr, $m:ident, $bname:ident, [$($id:expr => $n:literal),*], |$sp:ident| $extra:expr) => {
        pub struct $T;
        impl Model for $T {
            const K: Kind = $kind;
            const NAME: &'static str = stringify!($m);
            type C = $m::Curve;
            type P = $m::Point;
            type S = $m::Scalar;
            type Params = $m::Params;
            fn leak_text($sp: &Texts) -> &'static $m::Params {
                Box::leak(Box::new($extra))
            }
            fn curve(p: &'static $m::Params) -> $m::Curve {
                $m::Curve::from(p)
            }
            fn builtin(name: &str) -> Option<$m::Curve> {
                match name {
                    $($n => Some($id.get()),)*
                    _ => None,
                }
            }
            fn worlds() -> &'static Worlds<Self> {
                static S: OnceLock<Worlds<$T>> = OnceLock::new();
                S.get_or_init(Worlds::new)
            }
            fn adds(a: &Self::P, b: &Self::P) -> Vec<Self::P> { forms!(a, b, +) }
            fn subs(a: &Self::P, b: &Self::P) -> Vec<Self::P> { forms!(a, b, -) }
            fn negs(a: &Self::P) -> Vec<Self::P> { vec![-a, -(a.clone())] }
            const MULS: usize = 7;
            fn mul(form: usize, a: &Self::P, k: &Self::S) -> Self::P {
                match form % 7 {
                    0 => a * k,
                    1 => a.clone() * k,
                    2 => a * k.clone(),
                    3 => a.clone() * k.clone(),
                    4 => k * a,
                    5 => k.clone() * a,
                    _ => k.clone() * a.clone(),
                }
            }
            fn norm(a: &mut Self::P) { a.normalize() }
            fn scalar(k: Z, r: &BigUint) -> Self::S { $m::Scalar::new(k, r) }
            fn s_add(a: &Self::S, b: &Self::S) -> Vec<Self::S> { forms!(a, b, +) }
            fn s_sub(a: &Self::S, b: &Self::S) -> Vec<Self::S> { forms!(a, b, -) }
            fn s_mul(a: &Self::S, b: &Self::S) -> Vec<Self::S> { forms!(a, b, *) }
            fn s_div(a: &Self::S, b: &Self::S) -> Vec<Self::S> { forms!(a, b, /) }
            fn s_neg(a: &Self::S) -> Vec<Self::S> { vec![-a, -(a.clone())] }
            fn add1(form: usize, a: &Self::P, b: &Self::P) -> Self::P { form1!(form, a, b, +) }
            fn sub1(form: usize, a: &Self::P, b: &Self::P) -> Self::P { form1!(form, a, b, -) }
            fn s_add1(form: usize, a: &Self::S, b: &Self::S) -> Self::S { form1!(form, a, b, +) }
            fn s_sub1(form: usize, a: &Self::S, b: &Self::S) -> Self::S { form1!(form, a, b, -) }
            fn s_mul1(form: usize, a: &Self::S, b: &Self::S) -> Self::S { form1!(form, a, b, *) }
            fn s_div1(form: usize, a: &Self::S, b: &Self::S) -> Self::S { form1!(form, a, b, /) }
            fn s_eq(a: &Self::S, b: &Self::S) -> Option<bool> { (&EqProbe(a, b)).cmp_eq() }
            fn s_inv(a: &Self::S) -> Self::S { 1u32 / a }
            fn s_inv_num(n: u32, a: &Self::S) -> Self::S { n / a }
            fn lr(a: &Self::S, cap: usize) -> Vec<bool> { a.iter_lr().take(cap).collect() }
            fn rl(a: &Self::S, cap: usize) -> Vec<bool> { a.iter_rl().take(cap).collect() }
        }
    };
}
model!(W, Kind::W, weierstrass, WB,
    [ins::P256 => "P256", ins::P384 => "P384", ins::P521 => "P521", ins::SECP256K1 => "secp256k1",
     ins::SECP256K1_3ISO => "secp256k1_3iso", ins::BLS12381G1 => "bls12381_g1", ins::BLS12381G1_11ISO => "bls12381_g1_11iso"],
    |s| weierstrass::Params {
        name: lk(&s.name), p: lk(&s.p), a: lk(&s.a), b: lk(&s.b),
        r: lk(&s.r), h: lk(&s.h), gx: lk(&s.gx), gy: lk(&s.gy),
    });
model!(M, Kind::M, montgomery, MB,
    [ins::CURVE25519 => "curve25519", ins::CURVE448 => "curve448"],
    |s| montgomery::Params {
        name: lk(&s.name), p: lk(&s.p), a: lk(&s.a), b: lk(&s.b), s: lk(&s.s),
        r: lk(&s.r), h: lk(&s.h), gx: lk(&s.gx), gy: lk(&s.gy),
    });
model!(E, Kind::E, edwards, EB,
    [ins::EDWARDS25519 => "edwards25519", ins::EDWARDS448 => "edwards448"],
    |s| edwards::Params {
        name: lk(&s.name), p: lk(&s.p), a: lk(&s.a), d: lk(&s.b),
        r: lk(&s.r), h: lk(&s.h), gx: lk(&s.gx), gy: lk(&s.gy),
    });

pub struct World<M: Model> {
    pub s: Spec,
    params: &'static M::Params,
    low: OnceLock<Vec<RP>>,
    sy: OnceLock<Vec<RP>>,
    g2: OnceLock<Vec<RP>>,
    gm: OnceLock<Vec<RP>>,
    all: OnceLock<Vec<RP>>,
}
impl<M: Model> World<M> {
    pub fn of(s: Spec) -> World<M> {
        let params = M::leak(&s);
        World {
            s,
            params,
            low: OnceLock::new(),
            sy: OnceLock::new(),
            g2: OnceLock::new(),
            gm: OnceLock::new(),
            all: OnceLock::new(),
        }
    }
    /// a fresh instance of the curve, with a fresh field
    pub fn curve(&self) -> M::C {
        M::builtin(&self.s.name).unwrap_or_else(|| M::curve(self.params))
    }
    pub fn custom(&self) -> M::C {
        M::curve(self.params)
    }
    pub fn toy(&self) -> bool {
        self.s.p < z(200_000)
    }
    pub fn big(&self) -> bool {
        !self.toy()
    }
    /// all points (toy curves only)
    pub fn all(&self) -> &Vec<RP> {
        self.all.get_or_init(|| {
            let mut v = vec![];
            if self.s.kind != Kind::E {
                v.push(None);
            }
            let mut x = z(0);
            while x < self.s.p {
                for n in [false, true] {
                    if let Some(q) = self.s.lift(&x, n) {
                        if v.last() != Some(&q) {
                            v.push(q);
                        }
                    }
                }
                x += 1;
            }
            v
        })
    }
    /// points annihilated by the cofactor, neutral element first
    pub fn low(&self) -> &Vec<RP> {
        self.low.get_or_init(|| {
            let s = &self.s;
            let mut v = vec![s.zero()];
            if s.h.is_one() || (s.h > z(1000) && self.big()) || !s.ordered {
                if s.kind == Kind::M {
                    v.push(Some((z(0), z(0))));
                }
                if s.kind == Kind::E {
                    v.push(Some((z(0), &s.p - 1)));
                }
                return v;
            }
            if s.p < z(3000) {
                for q in self.all() {
                    if q != &s.zero() && s.mul(q, &s.h) == s.zero() {
                        v.push(q.clone());
                    }
                }
                return v;
            }
            let mut x = z(2);
            for i in 0..8 {
                let q = s.mul(&s.lift_next(&x, i % 2 == 0), &s.r);
                x += 7;
                let mut t = q.clone();
                for _ in 0..12 {
                    if !v.contains(&t) {
                        v.push(t.clone());
                    }
                    t = s.add(&t, &q);
                }
            }
            v.sort_by_key(|q| (q != &s.zero(), q.clone()));
            v
        })
    }
    /// points with a small y coordinate
    pub fn sy(&self) -> &Vec<RP> {
        self.sy.get_or_init(|| {
            let mut v = vec![];
            for y in 0..16i64 {
                for y in [z(y), -z(y), &self.s.s + y, &self.s.s - y] {
                    v.extend(points_with_y(&self.s, &y));
                }
                if v.len() > 60 {
                    break;
                }
            }
            // and with y of few non-zero words
            let n = self.s.p.bits() as u32;
            for e in [8, 16, 31, 32, 33, 63, 64, 65, 96, 128, 192, n.saturating_sub(33), n.saturating_sub(17), n.saturating_sub(9), n.saturating_sub(2)] {
                if e < n {
                    let t = Z::one() << e;
                    for y in [t.clone(), -&t, t * 3 + 1] {
                        v.extend(points_with_y(&self.s, &y));
                    }
                }
            }
            if v.is_empty() {
                v.push(self.s.zero());
            }
            v
        })
    }
    pub fn pt(&self, r: &PtR) -> RP {
        let s = &self.s;
        let sp = || vec![z(0), s.gx.clone(), s.gy.clone(), s.a.clone(), s.b.clone(), s.s.clone()];
        match r {
            PtR::O => s.zero(),
            PtR::G(k) => {
                let t = self.gm.get_or_init(|| {
                    let mut v = vec![s.zero()];
                    for i in 0..20 {
                        v.push(s.add(&v[i], &s.gen()));
                    }
                    v
                });
                let q = &t[k.unsigned_abs() as usize % t.len()];
                if *k < 0 {
                    s.neg(q)
                } else {
                    q.clone()
                }
            }
            PtR::G2(i, n) => {
                let t = self.g2.get_or_init(|| {
                    let mut v = vec![s.gen()];
                    for i in 1..s.r.bits() as usize {
                        v.push(s.add(&v[i - 1], &v[i - 1]));
                    }
                    v
                });
                let q = &t[*i as usize % t.len()];
                if *n {
                    s.neg(q)
                } else {
                    q.clone()
                }
            }
            PtR::Lift(v, n) => s.lift_next(&v.ev(&s.p, &sp()), *n),
            PtR::Low(i) => self.low()[*i as usize % self.low().len()].clone(),
            PtR::LowPlus(i, v, n) => {
                let l = &self.low()[*i as usize % self.low().len()];
                s.add(l, &s.lift_next(&v.ev(&s.p, &sp()), *n))
            }
            PtR::Sy(i) => self.sy()[*i as usize % self.sy().len()].clone(),
        }
    }
    pub fn rel(&self, p: &RP, r: &RelR) -> RP {
        let s = &self.s;
        match r {
            RelR::Free(q) => self.pt(q),
            RelR::Same => p.clone(),
            RelR::Neg => s.neg(p),
            RelR::PlusSy(i, n) => {
                let t = self.pt(&PtR::Sy(*i));
                if *n {
                    s.sub(p, &t)
                } else {
                    s.add(p, &t)
                }
            }
            RelR::PlusLow(i) => s.add(p, &self.pt(&PtR::Low(*i))),
            RelR::Dbl => s.add(p, p),
            RelR::SumTo(q) => s.sub(&self.pt(q), p),
            RelR::SameY(i) => match p {
                Some((_, y)) => {
                    let v = points_with_y(s, y);
                    v.get(*i as usize % v.len().max(1)).cloned().unwrap_or_else(|| p.clone())
                }
                None => s.zero(),
            },
            RelR::Near(e, d) => match p {
                Some((x, y)) => {
                    let c = if s.kind == Kind::E { y } else { x };
                    let step = Z::one() << (*e as usize % s.p.bits() as usize);
                    let mut v = md(&(c + &step * *d), &s.p);
                    for _ in 0..200 {
                        if let Some(q) = s.lift(&v, d % 2 != 0) {
                            return q;
                        }
                        v = md(&(v + &step), &s.p);
                    }
                    s.neg(p)
                }
                None => s.zero(),
            },
        }
    }
    pub fn mk(&self, c: &M::C, q: &RP) -> M::P {
        match q {
            None => c.identity(),
            Some((x, y)) => {
                let f = c.get_field();
                c.new_point(fe(&f, x), fe(&f, y))
            }
        }
    }
    /// the same point in another internal representation, made with library operations.
    /// Falls back to the fresh point if these operations do not return the right point (that is
    /// the group-law properties' business).
    pub fn rep(&self, c: &M::C, q: &RP, rep: u8) -> M::P {
        let p = self.mk(c, q);
        let r = crate::engine::attempt(|| {
            let g = c.get_generator();
            let add = |a: &M::P, b: &M::P| M::adds(a, b).swap_remove(0);
            let sub = |a: &M::P, b: &M::P| M::subs(a, b).swap_remove(0);
            let neg = |a: &M::P| M::negs(a).swap_remove(0);
            match if rep < 20 { rep % 10 } else { rep } {
                0 => p.clone(),
                // a chain, and sums of sums
                20 => {
                    let t = (0..12).fold(p.clone(), |t, _| add(&t, &g));
                    (0..12).fold(t, |t, _| sub(&t, &g))
                }
                21 => {
                    let (gg, d) = (add(&g, &g), sub(&p, &g));
                    let s = add(&gg, &add(&d, &g));
                    add(&s, &neg(&gg))
                }
                22 => {
                    let d = add(&p, &p);
                    let q = add(&d, &d);
                    sub(&sub(&q, &d), &sub(&d, &p))
                }
                1 => add(&p, &c.identity()),
                2 => sub(&add(&p, &g), &g),
                3 => add(&sub(&p, &g), &g),
                4 => neg(&neg(&p)),
                5 => sub(&add(&p, &p), &p),
                6 => sub(&c.identity(), &neg(&p)),
                7 => {
                    let l = self.mk(c, &self.pt(&PtR::Lift(IntR::S(rep as u16), rep % 20 > 9)));
                    sub(&add(&l, &p), &l)
                }
                8 => {
                    let gg = add(&g, &g);
                    let o = sub(&gg, &gg);
                    add(&o, &p)
                }
                _ => {
                    let mut t = sub(&add(&p, &g), &g);
                    M::norm(&mut t);
                    t
                }
            }
        });
        match r {
            Some(t) if self.aff(&t).as_ref() == Ok(q) => t,
            _ => p,
        }
    }
    /// affine value of a library point, read from its printed projective coordinates
    pub fn aff(&self, p: &M::P) -> Result<RP, String> {
        let s = &self.s;
        let m = coords(p)?;
        let get = |k: &str| m.get(k).cloned().ok_or(format!("no {k} in {p}"));
        let (x, y, zc) = (get("x")?, get("y")?, m.get("z").cloned().unwrap_or_else(Z::one));
        for v in m.values() {
            if v.is_negative() || v >= &s.p {
                return Err(format!("coordinate not reduced: {p}"));
            }
        }
        if zc.is_zero() {
            if s.kind != Kind::E && x.is_zero() && !y.is_zero() {
                return Ok(None);
            }
            return Err(format!("degenerate point: {p}"));
        }
        if let Some(t) = m.get("t") {
            if !md(&(t * &zc - &x * &y), &s.p).is_zero() {
                return Err(format!("inconsistent extended coordinates: {p}"));
            }
        }
        let i = inv0(&zc, &s.p);
        let q = Some((mulm(&x, &i, &s.p), mulm(&y, &i, &s.p)));
        if !s.on_rp(&q) {
            return Err(format!("not on the curve: {p}"));
        }
        Ok(q)
    }
    pub fn r_u(&self) -> BigUint {
        ub(&self.s.r)
    }
    pub fn not1mod8(&self) -> bool {
        Class::Not1mod8.ok(&self.s.p)
    }
    /// is this affine point of order dividing r
    pub fn in_subgroup(&self, q: &RP) -> bool {
        self.s.ordered && (self.s.h.is_one() || self.s.mul(q, &self.s.r) == self.s.zero())
    }
}
pub fn coords(p: &impl std::fmt::Display) -> Result<HashMap<String, Z>, String> {
    let t = p.to_string();
    let mut m = HashMap::new();
    for l in t.lines() {
        if let Some((k, v)) = l.split_once(':') {
            let v = v.trim().parse::<BigInt>().map_err(|_| format!("unreadable point {t:?}"))?;
            m.insert(k.trim().to_string(), v);
        }
    }
    Ok(m)
}
pub struct Worlds<M: Model> {
    pub v: Vec<World<M>>,
    ix: HashMap<String, usize>,
}
impl<M: Model> Worlds<M> {
    fn new() -> Self {
        let mut v: Vec<World<M>> = vec![];
        v.extend(toys(M::K).into_iter().map(World::of));
        v.extend(unordered(M::K).into_iter().map(World::of));
        v.extend(all_specs().iter().filter(|s| s.kind == M::K).cloned().map(World::of));
        let ix = v.iter().enumerate().map(|(i, w)| (w.s.name.clone(), i)).collect();
        Worlds { v, ix }
    }
    pub fn get(&self, name: &str) -> &World<M> {
        &self.v[*self.ix.get(name).unwrap_or_else(|| panic!("unknown curve {name}"))]
    }
}
pub fn w<M: Model>(name: &str) -> &'static World<M> {
    M::worlds().get(name)
}
/// strategy for a curve name: toy curves, curves over word-boundary primes, standard curves
pub fn curve_name<M: Model>(weights: (u32, u32, u32), ok: fn(&World<M>) -> bool) -> proptest::strategy::BoxedStrategy<String> {
    use proptest::prelude::*;
    let names = |f: &dyn Fn(&World<M>) -> bool| -> Vec<String> {
        M::worlds().v.iter().filter(|w| ok(w) && f(w)).map(|w| w.s.name.clone()).collect()
    };
    let toy = names(&|w| w.toy());
    let mid = names(&|w| w.big() && !w.s.ordered);
    let big = names(&|w| w.big() && w.s.ordered);
    let mut arms = vec![];
    for (wt, v) in [(weights.0, toy), (weights.1, mid), (weights.2, big)] {
        if wt > 0 && !v.is_empty() {
            arms.push((wt, proptest::sample::select(v).boxed()));
        }
    }
    proptest::strategy::Union::new_weighted(arms).boxed()
}
pub fn to_be(x: &FpElt) -> Vec<u8> {
    x.to_bytes_be()
}
