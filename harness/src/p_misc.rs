//! C27-C30: mixing, sharing between threads, purity, memory.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_field::{e2, fp, z2};
use crate::p_group::{is_pt, show, variant};
use crate::p_inst::{the_iso, the_map};
use crate::p_map::ell2_ok;
use crate::refm::*;
use crate::world::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use proptest::prelude::*;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::field::{Field, Sgn0, Sqrt};
use redox_ecc::ops::{Deserialize as De, Serialize as Ser};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use redox_ecc::{edwards, montgomery, weierstrass};
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------- C27
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MixF {
    p: PrimeR,
    q: PrimeR,
    #[serde(default)]
    rel: u8,
    a: IntR,
    b: IntR,
}
macro_rules! refuse {
    ($what:expr, $($n:expr => $e:expr),* $(,)?) => {
        $( if let Some(r) = attempt(|| $e) {
            return Err(format!("{}: {} returned {}", $what, $n, r));
        } )*
    };
}
macro_rules! refuse_ops {
    ($what:expr, $a:expr, $b:expr, [$($op:tt)*]) => {
        $(
            refuse!($what,
                concat!("&a ", stringify!($op), " &b") => $a $op $b,
                concat!("a ", stringify!($op), " &b") => $a.clone() $op $b,
                concat!("&a ", stringify!($op), " b") => $a $op $b.clone(),
                concat!("a ", stringify!($op), " b") => $a.clone() $op $b.clone());
        )*
    };
}
/// a modulus for the second field: free, or easily taken for the first one
fn other_prime(p: &Z, q: &PrimeR, rel: u8, class: Class) -> Z {
    match rel {
        1 => companions(p, class)[1].clone(),
        2 => companions(p, class)[2].clone(),
        3 | 4 if p.bits() < 270 => {
            // the same low 32 or 64 bits
            static C: std::sync::Mutex<Option<std::collections::HashMap<(Z, usize), Z>>> = std::sync::Mutex::new(None);
            let k = if rel == 3 { 32 } else { 64 };
            let mut m = C.lock().unwrap();
            m.get_or_insert_with(Default::default)
                .entry((p.clone(), k))
                .or_insert_with(|| (1..).map(|i| p + (z(i) << k)).find(|q| is_prime(q)).unwrap())
                .clone()
        }
        _ => q.p(class),
    }
}
fn mix_fp(k: &MixF) -> Res {
    let p = k.p.p(Class::Any);
    let q = other_prime(&p, &k.q, k.rel, Class::Any);
    let (x, y) = (k.a.e(&p), k.b.e(&q));
    let (f, g) = (fp(&p), fp(&q));
    let (a, b) = (&fe(&f, &x), &fe(&g, &y));
    ensure!((f == g) == (p == q), "GF({p}) == GF({q}) is {}", f == g);
    if p == q {
        // separately created instances combine
        for (n, r, want) in [("+", a + b, &x + &y), ("-", a - b, &x - &y), ("*", a * b, &x * &y)] {
            ensure!(zof(&r)? == md(&want, &p), "{x} {n} {y} mod {p} between two instances = {r}");
        }
        let r = a / b;
        ensure!(zof(&r)? == mulm(&x, &inv0(&y, &p), &p), "{x} / {y} mod {p} between two instances = {r}");
        ensure!((a == b) == (x == y), "{x} == {y} mod {p} between two instances is {}", a == b);
        return Ok(Obs::nt(true).n(5).l("separate instances"));
    }
    let what = format!("a={x} in GF({p}), b={y} in GF({q})");
    refuse_ops!(what, a, b, [+ - * /]);
    refuse_ops!(what, b, a, [+ - * /]);
    let e = attempt(|| a == b || b == a);
    ensure!(e == Some(false), "{what}: a == b {}", if e.is_none() { "panicked" } else { "is true" });
    Ok(Obs::nt(true).n(32).lif(x == y, "same representative").lif(x.is_zero() || y.is_zero(), "zero operand"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MixF2 {
    p: PrimeR,
    q: PrimeR,
    #[serde(default)]
    rel: u8,
    a: (IntR, IntR),
    b: (IntR, IntR),
}
fn mix_fp2(k: &MixF2) -> Res {
    let p = k.p.p(Class::P3mod4);
    let q = other_prime(&p, &k.q, k.rel, Class::P3mod4);
    let (x, y) = (C2(k.a.0.e(&p), k.a.1.e(&p)), C2(k.b.0.e(&q), k.b.1.e(&q)));
    let (f, g) = (Fp2::new(ub(&p)), Fp2::new(ub(&q)));
    let (a, b) = (&e2(&f, &x), &e2(&g, &y));
    ensure!((f == g) == (p == q), "GF({p}^2) == GF({q}^2) is {}", f == g);
    if p == q {
        for (n, r, want) in [("+", a + b, x.add(&y, &p)), ("-", a - b, x.sub(&y, &p)), ("*", a * b, x.mul(&y, &p))] {
            ensure!(z2(&r)? == want, "{x:?} {n} {y:?} mod {p} between two instances = {r}");
        }
        ensure!((a == b) == (x == y), "{x:?} == {y:?} mod {p} between two instances is {}", a == b);
        return Ok(Obs::nt(true).n(4).l("separate instances"));
    }
    let what = format!("a={x:?} in GF({p}^2), b={y:?} in GF({q}^2)");
    refuse_ops!(what, a, b, [+ - * /]);
    refuse_ops!(what, b, a, [+ - * /]);
    let e = attempt(|| a == b || b == a);
    ensure!(e == Some(false), "{what}: a == b {}", if e.is_none() { "panicked" } else { "is true" });
    Ok(Obs::nt(true).n(32).lif(x == y, "same representative").lif(x.is_zero() || y.is_zero(), "zero operand"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MixP {
    c: String,
    d: String,
    kind: u8,
    p: PtR,
    q: PtR,
    rp: u8,
    k: IntR,
}
fn mix_pts<M: Model>(k: &MixP) -> Res {
    let w1 = w::<M>(&k.c);
    let var;
    // 0..: same field with one coefficient changed; otherwise any other curve; or the same curve
    let w2 = match k.kind % 4 {
        0 | 1 => {
            var = variant::<M>(&w1.s, k.kind / 4);
            &var
        }
        2 => w::<M>(&k.d),
        _ => w1,
    };
    let (c1, c2) = (w1.curve(), w2.curve());
    let p = w1.pt(&k.p);
    let a = &w1.rep(&c1, &p, k.rp);
    if w1.s.name == w2.s.name {
        ensure!(c1 == c2, "two instances of {} are unequal", w1.s.name);
        let q = w2.pt(&k.q);
        let b = &w2.rep(&c2, &q, k.rp + 3);
        is_pt(w1, &c1, "sum of points of two instances", &M::adds(a, b)[0], &w1.s.add(&p, &q))?;
        is_pt(w1, &c1, "difference of points of two instances", &M::subs(a, b)[0], &w1.s.sub(&p, &q))?;
        let e = k.k.e(&w1.s.r) & z(0xffff);
        is_pt(w1, &c1, "multiple by a scalar of another instance", &M::mul(k.rp as usize, a, &c2.new_scalar(e.clone())), &w1.s.mul(&p, &e))?;
        ensure!((a == b) == (p == q), "{} == {} between two instances of {}", show(&p), show(&q), w1.s.name);
        ensure!(c1.is_on_curve(b) && c2.is_on_curve(a), "membership between two instances of {}", w1.s.name);
        return Ok(Obs::nt(true).n(6).l("separate instances"));
    }
    let q = if w2.s.name.contains('+') {
        if w2.s.on_rp(&p) { p.clone() } else if k.rp % 2 == 0 { w2.s.zero() } else { w2.s.lift_next(&k.k.e(&w2.s.p), false) }
    } else {
        w2.pt(&k.q)
    };
    let b = &w2.mk(&c2, &q);
    ensure!(!(c1 == c2), "{} and {} compare equal", w1.s.name, w2.s.name);
    for (n, x, y) in [("P+Q", a, b), ("Q+P", b, a)] {
        for (m, f) in [("+", M::adds as fn(&M::P, &M::P) -> Vec<M::P>), ("-", M::subs)] {
            // the operator forms are tried one by one: each must refuse
            for i in 0..4 {
                if let Some(r) = attempt(|| if m == "+" { M::add1(i, x, y) } else { M::sub1(i, x, y) }) {
                    return Err(format!("{n} ({m}, operand form {i}) with P={} on {}, Q={} on {} returned {r}",
                        show(&p), w1.s.name, show(&q), w2.s.name));
                }
            }
            ensure!(attempt(|| f(x, y)).is_none(), "{n}");
        }
    }
    Ok(Obs::nt(true).n(16).lif(w1.s.p == w2.s.p, "same field").lif(p == q, "same coordinates")
        .lif(p == w1.s.zero() || q == w2.s.zero(), "identity operand").lif(w1.s.r == w2.s.r, "same order"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MixS {
    c: String,
    d: String,
    p: PtR,
    r: PrimeR,
    a: IntR,
    b: IntR,
    kind: u8,
}
fn mix_scalars<M: Model>(k: &MixS) -> Res {
    let w1 = w::<M>(&k.c);
    let c1 = w1.curve();
    let r1 = &w1.s.r;
    let r2: Z = match k.kind % 4 {
        0 => w::<M>(&k.d).s.r.clone(),
        1 => k.r.p(Class::Any),
        2 => r1 + 2,
        _ => match k.kind / 4 % 8 {
            0 => r1 << 1usize,
            1 => r1 + (Z::one() << 32usize),
            2 => r1 + (Z::one() << 64usize),
            3 => r1 + (Z::one() << 256usize),
            _ => r1.clone(),
        },
    };
    let (x, y) = (k.a.e(r1), k.b.e(&r2));
    let a = &c1.new_scalar(x.clone());
    let b = &M::scalar(y.clone(), &ub(&r2));
    if &r2 == r1 {
        for (n, got, want) in [
            ("+", M::s_add(a, b), md(&(&x + &y), r1)),
            ("-", M::s_sub(a, b), md(&(&x - &y), r1)),
            ("*", M::s_mul(a, b), mulm(&x, &y, r1)),
        ] {
            for g in got {
                ensure!(zof(&g)? == want, "{x} {n} {y} mod {r1} between two scalars made apart = {g}");
            }
        }
        ensure!(M::s_eq(a, b).map_or(true, |e| e == (x == y)), "{x} == {y} mod {r1}");
        return Ok(Obs::nt(true).n(13).l("separate instances"));
    }
    let what = format!("{x} mod {r1} and {y} mod {r2}");
    for i in 0..4 {
        for (n, f) in [("+", M::s_add1 as fn(usize, &M::S, &M::S) -> M::S), ("-", M::s_sub1), ("*", M::s_mul1), ("/", M::s_div1)] {
            for (u, v) in [(a, b), (b, a)] {
                if let Some(r) = attempt(|| f(i, u, v)) {
                    return Err(format!("{} scalars {what}: {n} (operand form {i}) returned {r}", M::NAME));
                }
            }
        }
    }
    let e = attempt(|| M::s_eq(a, b).unwrap_or(false));
    ensure!(e == Some(false), "{} scalars {what}: == {e:?}", M::NAME);
    let p = w1.pt(&k.p);
    let pt = w1.mk(&c1, &p);
    for i in 0..M::MULS {
        if let Some(r) = attempt(|| M::mul(i, &pt, b)) {
            return Err(format!("point {} of {} (order {r1}) times scalar {y} of order {r2} (operand form {i}) returned {r}", show(&p), w1.s.name));
        }
    }
    Ok(Obs::nt(true).n(39).lif(x == y, "same representative").lif(p == w1.s.zero(), "identity").lif(y.is_zero(), "zero scalar"))
}
pub fn c27() -> Property {
    fn f1() -> BoxedStrategy<MixF> {
        prop_oneof![
            3 => (prime_r(), prime_r(), 0u8..8, int_r(), int_r()).prop_map(|(p, q, rel, a, b)| MixF { p, q, rel, a, b }),
            1 => (prime_r(), int_r(), int_r()).prop_map(|(p, a, b)| MixF { q: p.clone(), rel: 0, p, a, b }),
        ]
        .boxed()
    }
    fn f2() -> BoxedStrategy<MixF2> {
        let ab = || ((int_r(), int_r()), (int_r(), int_r()));
        prop_oneof![
            3 => (prime_r(), prime_r(), 0u8..8, ab()).prop_map(|(p, q, rel, (a, b))| MixF2 { p, q, rel, a, b }),
            1 => (prime_r(), ab()).prop_map(|(p, (a, b))| MixF2 { q: p.clone(), rel: 0, p, a, b }),
        ]
        .boxed()
    }
    fn ps<M: Model>() -> BoxedStrategy<MixP> {
        let n = || curve_name::<M>((3, 2, 4), |_| true);
        (n(), n(), any::<u8>(), pt_r(), pt_r(), 0u8..20, int_r()).prop_map(|(c, d, kind, p, q, rp, k)| MixP { c, d, kind, p, q, rp, k }).boxed()
    }
    fn ss<M: Model>() -> BoxedStrategy<MixS> {
        let n = || curve_name::<M>((3, 1, 4), |w| w.s.ordered);
        (n(), n(), pt_r(), prime_r(), int_r(), int_r(), any::<u8>()).prop_map(|(c, d, p, r, a, b, kind)| MixS { c, d, p, r, a, b, kind }).boxed()
    }
    Property {
        id: "C27",
        rule: "pairs of prime fields, extension fields, curves (other field; same field with only a or only b changed, order and cofactor kept) and scalar orders, operands incl. zero and identity, every operand form in both orders; a quarter of the cases use two instances of the same thing, which must combine; all cases non-trivial",
        assumptions: &["refusal is a panic, as the library documents by its panicking checks"],
        clauses: vec![
            pt("prime-fields", 8000, 200000, f1, mix_fp),
            pt("extension-fields", 5000, 120000, f2, mix_fp2),
            pt("points-weierstrass", 3500, 80000, ps::<W>, mix_pts::<W>),
            pt("points-montgomery", 3500, 80000, ps::<M>, mix_pts::<M>),
            pt("points-edwards", 3500, 80000, ps::<E>, mix_pts::<E>),
            pt("scalars-weierstrass", 3500, 80000, ss::<W>, mix_scalars::<W>),
            pt("scalars-montgomery", 3500, 80000, ss::<M>, mix_scalars::<M>),
            pt("scalars-edwards", 3500, 80000, ss::<E>, mix_scalars::<E>),
        ],
    }
}

// ---------------------------------------------------------------- programs over a field or a curve
/// one operation; operands are indices into the pool of values made so far
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Op {
    pub o: u8,
    pub i: u8,
    pub j: u8,
    /// which instance of the field or curve makes new values
    pub f: u8,
    pub v: IntR,
    /// which of the fields or curves of the history the operation works in
    #[serde(default)]
    pub w: u8,
}
impl Op {
    fn form(&self) -> usize {
        (self.j >> 5) as usize + self.f as usize
    }
}
pub(crate) fn op_s(n: u8) -> BoxedStrategy<Op> {
    (0..n, any::<u8>(), any::<u8>(), 0u8..3, int_r(), 0u8..6).prop_map(|(o, i, j, f, v, w)| Op { o, i, j, f, v, w }).boxed()
}
/// primes to be used next to p: of the same length and residue class, and of another class
pub(crate) fn companions(p: &Z, class: Class) -> Vec<Z> {
    static C: std::sync::Mutex<Option<std::collections::HashMap<(Z, u8), Vec<Z>>>> = std::sync::Mutex::new(None);
    let key = (p.clone(), class as u8);
    if let Some(v) = C.lock().unwrap().get_or_insert_with(Default::default).get(&key) {
        return v.clone();
    }
    if p.bits() > 600 {
        let other = |k: usize| large_primes().iter().filter(|q| *q != p && class.ok(q)).nth(k).unwrap().clone();
        return vec![p.clone(), other(p.bits() as usize % 3), other(3)];
    }
    let find = |same: bool| -> Z {
        let ok = |q: &Z| class.ok(q) && q != p && ((low8(q) & 7 == low8(p) & 7) == same) && is_prime(q);
        // downwards first, which keeps the length more often
        let (mut q, mut r): (Z, Z) = (p - 2, p + 2);
        loop {
            if q > z(2) && q.bits() == p.bits() && ok(&q) {
                return q;
            }
            if (q <= z(2) || q.bits() < p.bits()) && ok(&r) {
                return r;
            }
            if q <= z(2) || q.bits() < p.bits() {
                r += 2;
            } else {
                q -= 2;
            }
        }
    };
    let v = vec![p.clone(), find(true), find(false)];
    C.lock().unwrap().as_mut().unwrap().insert(key, v.clone());
    v
}
pub enum Out<T> {
    V(T),
    T(String),
}
impl<T: std::fmt::Display> Out<T> {
    pub fn text(&self) -> String {
        match self {
            Out::V(v) => v.to_string(),
            Out::T(s) => s.clone(),
        }
    }
}
/// prime and extension fields under one roof
pub trait FK: 'static {
    type F: Field<Elt = Self::T> + Clone + PartialEq + std::fmt::Display;
    type T: Clone + PartialEq + std::fmt::Display + redox_ecc::field::CMov + Sqrt + Sgn0 + Zero + One + Ser + redox_ecc::field::FieldElement + std::ops::BitXor<u32, Output = Self::T>;
    const NAME: &'static str;
    const CLASS: Class;
    fn new(p: &Z) -> Self::F;
    fn mk(f: &Self::F, a: &Z, b: &Z) -> Self::T;
    /// rebuild an element from its printed form
    fn re(f: &Self::F, t: &Self::T) -> Self::T;
    fn powu(a: &Self::T, e: &BigUint) -> Self::T;
    fn parse(f: &Self::F, s: &str) -> Self::T;
    fn from_be(f: &Self::F, b: &[u8]) -> Option<Self::T>;
    /// a sum, difference, product or quotient (o = 0 to 3) in one of the operand forms
    fn bin(o: u8, form: usize, a: &Self::T, b: &Self::T) -> Self::T;
    fn neg(form: usize, a: &Self::T) -> Self::T;
    fn inv(a: &Self::T) -> Self::T;
    fn val(a: &Self::T) -> C2;
}
/// the result of an operation against the reference arithmetic, where it is determined
pub(crate) fn fref<K: FK>(p: &Z, a: &K::T, b: &K::T, op: &Op, out: &Out<K::T>) -> Result<(), String> {
    let (x, y) = (K::val(a), K::val(b));
    let one = C2(md(&Z::one(), p), Z::zero());
    let want = match op.o {
        0 => x.add(&y, p),
        1 => x.sub(&y, p),
        2 => x.mul(&y, p),
        3 => x.mul(&y.inv0(p), p),
        4 => x.neg(p),
        5 => x.inv0(p),
        6 => x.pow(&op.v.e(&(Z::one() << 40usize)), p),
        14 => x.clone(),
        19 => C2(Z::zero(), Z::zero()),
        20 => one.add(&y, p),
        21 => one,
        8..=11 => {
            let Out::V(r) = out else { return Err("no root".into()) };
            let r = K::val(r);
            let arg = if op.o == 11 { x.mul(&x, p) } else { x.clone() };
            let sq = if K::CLASS == Class::P3mod4 { arg.is_sq(p) } else { is_sq(&arg.0, p) };
            if sq && r.mul(&r, p) != arg {
                return Err(format!("{} p={p} {op:?}: {r:?} is not a square root of {arg:?}", K::NAME));
            }
            return Ok(());
        }
        _ => return Ok(()),
    };
    match out {
        Out::V(v) if K::val(v) == want => Ok(()),
        o => Err(format!("{} p={p} {op:?} on {x:?} and {y:?}: {}, expected {want:?}", K::NAME, o.text())),
    }
}
pub struct K1;
impl FK for K1 {
    type F = Fp;
    type T = FpElt;
    const NAME: &'static str = "GF(p)";
    const CLASS: Class = Class::Not1mod8;
    fn new(p: &Z) -> Fp {
        fp(p)
    }
    fn mk(f: &Fp, a: &Z, _: &Z) -> FpElt {
        fe(f, a)
    }
    fn re(f: &Fp, t: &FpElt) -> FpElt {
        fe(f, &zof(t).unwrap())
    }
    fn powu(a: &FpElt, e: &BigUint) -> FpElt {
        a ^ e
    }
    fn parse(f: &Fp, s: &str) -> FpElt {
        redox_ecc::ops::FromFactory::from(f, s)
    }
    fn from_be(f: &Fp, b: &[u8]) -> Option<FpElt> {
        f.from_bytes_be(b).ok()
    }
    fn bin(o: u8, form: usize, a: &FpElt, b: &FpElt) -> FpElt {
        match o {
            0 => form1!(form, a, b, +),
            1 => form1!(form, a, b, -),
            2 => form1!(form, a, b, *),
            _ => form1!(form, a, b, /),
        }
    }
    fn neg(form: usize, a: &FpElt) -> FpElt {
        if form & 1 == 0 {
            -a
        } else {
            -a.clone()
        }
    }
    fn inv(a: &FpElt) -> FpElt {
        1u32 / a
    }
    fn val(a: &FpElt) -> C2 {
        C2(zof(a).unwrap(), Z::zero())
    }
}
pub struct K2;
impl FK for K2 {
    type F = Fp2;
    type T = Fp2Elt;
    const NAME: &'static str = "GF(p^2)";
    const CLASS: Class = Class::P3mod4;
    fn new(p: &Z) -> Fp2 {
        Fp2::new(ub(p))
    }
    fn mk(f: &Fp2, a: &Z, b: &Z) -> Fp2Elt {
        e2(f, &C2(a.clone(), b.clone()))
    }
    fn re(f: &Fp2, t: &Fp2Elt) -> Fp2Elt {
        e2(f, &z2(t).unwrap())
    }
    fn powu(a: &Fp2Elt, e: &BigUint) -> Fp2Elt {
        a ^ e
    }
    fn parse(f: &Fp2, s: &str) -> Fp2Elt {
        redox_ecc::ops::FromFactory::from(f, format!("{s},{s}").as_str())
    }
    fn from_be(f: &Fp2, b: &[u8]) -> Option<Fp2Elt> {
        f.from_bytes_be(b).ok()
    }
    fn bin(o: u8, form: usize, a: &Fp2Elt, b: &Fp2Elt) -> Fp2Elt {
        match o {
            0 => form1!(form, a, b, +),
            1 => form1!(form, a, b, -),
            2 => form1!(form, a, b, *),
            _ => form1!(form, a, b, /),
        }
    }
    fn neg(form: usize, a: &Fp2Elt) -> Fp2Elt {
        if form & 1 == 0 {
            -a
        } else {
            -a.clone()
        }
    }
    fn inv(a: &Fp2Elt) -> Fp2Elt {
        1u32 / a
    }
    fn val(a: &Fp2Elt) -> C2 {
        z2(a).unwrap()
    }
}
pub(crate) const FOPS: u8 = 22;
pub(crate) fn fop<K: FK>(f: &K::F, p: &Z, a: &K::T, b: &K::T, op: &Op) -> Out<K::T> {
    match op.o {
        0..=3 => Out::V(K::bin(op.o, op.form(), a, b)),
        4 => Out::V(K::neg(op.form(), a)),
        5 => Out::V(K::inv(a)),
        6 => Out::V(K::powu(a, &ub(&op.v.e(&(Z::one() << 40usize))))),
        7 => Out::T(a.is_square().to_string()),
        8..=10 => Out::V(a.sqrt()),
        11 => Out::V((a.clone() * a).sqrt()),
        12 => Out::T(a.sgn0().to_string()),
        13 => Out::T(hex(&a.to_bytes_be()) + &hex(&a.to_bytes_le())),
        14 => match K::from_be(f, &a.to_bytes_be()) {
            Some(v) => Out::V(v),
            None => Out::T("refused".into()),
        },
        15 => Out::V(K::parse(f, &op.v.e(p).to_string())),
        16 => Out::V(f.elt(op.v.raw(p, &[]))),
        17 => Out::T((a == b).to_string()),
        18 => Out::T(format!("{} {} {} {}", f.size_bytes(), f.get_modulus(), a.is_zero(), a.is_one())),
        19 => {
            let mut t = a.clone();
            t.set_zero();
            Out::V(t)
        }
        20 => {
            let mut t = a.clone();
            t.set_one();
            Out::V(t + b)
        }
        _ => Out::V(f.one() + f.zero()),
    }
}
/// map inputs on each model
pub trait MapOp: Model {
    fn map1(w: &World<Self>, c: &Self::C, zz: &Z, u: &Z) -> Option<Self::P>;
}
pub(crate) fn near(s: &Spec, from: &Z, ok: fn(&Spec, &Z) -> bool) -> Option<Z> {
    (0..60).map(|i| md(&(from + i), &s.p)).find(|k| ok(s, k))
}
impl MapOp for W {
    fn map1(w: &World<W>, c: &weierstrass::Curve, zz: &Z, u: &Z) -> Option<weierstrass::Point> {
        let f = c.get_field();
        if let (true, Some(k)) = (odd(u), near(&w.s, zz, sswu_exists)) {
            return Some(weierstrass::SSWU::new(c.clone(), fe(&f, &k)).map(&fe(&f, u)));
        }
        let i = match w.s.name.as_str() {
            "secp256k1" => Some(0),
            "bls12381_g1" => Some(1),
            _ => None,
        };
        if let (true, Some(i)) = (u.bit(1), i) {
            let iso = the_iso(i);
            let d = crate::p_inst::iso(i).dom;
            let k = near(&d.s, zz, sswu_exists)?;
            return Some(weierstrass::SSWUAB0::new(c.clone(), fe(&iso.domain().get_field(), &k), iso).map(&fe(&f, u)));
        }
        let k = near(&w.s, zz, svdw_exists)?;
        Some(weierstrass::SVDW::new(c.clone(), fe(&f, &k)).map(&fe(&f, u)))
    }
}
impl MapOp for M {
    fn map1(w: &World<M>, c: &montgomery::Curve, zz: &Z, u: &Z) -> Option<montgomery::Point> {
        let f = c.get_field();
        let k = near(&w.s, zz, ell2_ok)?;
        if u.bit(1) && w.s.builtin {
            return Some(the_map((w.s.name == "curve448") as u8).push(E::builtin(if w.s.name == "curve448" { "edwards448" } else { "edwards25519" }).unwrap().get_generator()));
        }
        Some(montgomery::Ell2::new(c.clone(), fe(&f, &k)).map(&fe(&f, u)))
    }
}
impl MapOp for E {
    fn map1(w: &World<E>, c: &edwards::Curve, zz: &Z, u: &Z) -> Option<edwards::Point> {
        let i = match w.s.name.as_str() {
            "edwards25519" => 0,
            "edwards448" => 1,
            _ => return None,
        };
        let f = c.get_field();
        let m = crate::world::w::<M>(if i == 0 { "curve25519" } else { "curve448" });
        let k = near(&m.s, zz, ell2_ok)?;
        Some(edwards::Ell2::new(c.clone(), fe(&f, &k), Some(the_map(i))).map(&fe(&f, u)))
    }
}
pub(crate) const COPS: u8 = 19;
pub(crate) fn cop<M: MapOp>(w: &World<M>, c: &M::C, a: &M::P, b: &M::P, op: &Op) -> Out<M::P> {
    let s = &w.s;
    let n = op.v.e(&s.p);
    match op.o {
        0 | 1 => Out::V(M::add1(op.j as usize, a, b)),
        2 => Out::V(M::sub1(op.j as usize, a, b)),
        3 => Out::V(M::negs(a).swap_remove(0)),
        4 => {
            let k = if w.toy() { op.v.e(&s.r) } else { op.v.e(&(Z::one() << 24usize)) };
            Out::V(M::mul(op.j as usize, a, &c.new_scalar(k)))
        }
        5 | 6 => {
            // decompression
            match c.decode(&a.encode(true)) {
                Ok(p) => Out::V(p),
                Err(_) => Out::T("refused".into()),
            }
        }
        7 => match c.decode(&a.encode(false)) {
            Ok(p) => Out::V(p),
            Err(_) => Out::T("refused".into()),
        },
        8 => Out::T(hex(&a.encode(false)) + "/" + &hex(&a.encode(true))),
        9 => Out::T((a == b).to_string()),
        10 => Out::T(format!("{} {}", a.is_zero(), c.is_on_curve(a))),
        11 => {
            let mut t = a.clone();
            M::norm(&mut t);
            Out::V(t)
        }
        12 | 13 => match M::map1(w, c, &(n.clone() >> 3usize), &n) {
            Some(p) => Out::V(p),
            None => Out::T("no map".into()),
        },
        14 => {
            let k = c.new_scalar(n);
            Out::T(format!("{k} {:?} {}", M::lr(&k, 64), hex(&k.to_bytes_be())))
        }
        15 => Out::V(c.get_generator()),
        16 => Out::V(c.identity()),
        17 => Out::T(format!("{} {} {}", c.get_order(), c.get_cofactor(), c.get_field().get_modulus())),
        _ => {
            let mut b = a.encode(true);
            let l = b.len();
            b[l - 1] ^= 1 + (op.j % 7);
            match c.decode(&b) {
                Ok(p) => Out::V(p),
                Err(_) => Out::T("refused".into()),
            }
        }
    }
}

// ---------------------------------------------------------------- C29
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FieldHist {
    p: PrimeR,
    init: Vec<(IntR, IntR)>,
    ops: Vec<Op>,
}
fn field_hist_s() -> BoxedStrategy<FieldHist> {
    (prime_r(), proptest::collection::vec((int_r(), int_r()), 2..5), proptest::collection::vec(op_s(FOPS), 1..22))
        .prop_map(|(p, init, ops)| FieldHist { p, init, ops })
        .boxed()
}
/// index of the field or curve an operation works in: half of the operations in the first one
pub(crate) fn pick_w(op: &Op, n: usize) -> usize {
    (op.w as usize).saturating_sub(2).min(n - 1)
}
/// the field that makes the i-th first value: one of those of the history, or one of its own that is gone afterwards
fn own<K: FK>(f: &[K::F; 3], i: usize, p: &Z) -> K::F {
    if i % 4 == 3 { K::new(p) } else { f[i % 3].clone() }
}
fn home<M: Model>(w: &World<M>, c: &[M::C; 3], i: usize) -> M::C {
    if i % 3 == 2 { w.curve() } else { c[i % 3].clone() }
}
fn field_hist<K: FK>(k: &FieldHist) -> Res {
    let ps = companions(&k.p.p(K::CLASS), K::CLASS);
    let fs: Vec<[K::F; 3]> = ps.iter().map(|p| { let f0 = K::new(p); [f0.clone(), K::new(p), f0] }).collect();
    let mut pools: Vec<Vec<K::T>> = vec![];
    for (p, f) in ps.iter().zip(&fs) {
        pools.push(k.init.iter().enumerate().map(|(i, (a, b))| K::mk(&own::<K>(&f, i, p), &a.e(p), &b.e(p))).collect());
    }
    let mut texts: Vec<Vec<String>> = pools.iter().map(|v| v.iter().map(|v| v.to_string()).collect()).collect();
    let mut log: Vec<(usize, usize, String)> = vec![];
    let (mut roots, mut after, mut used) = (0, 0, [false; 3]);
    for (n, op) in k.ops.iter().enumerate() {
        let w = pick_w(op, ps.len());
        used[w] = true;
        let (p, pool) = (&ps[w], &pools[w]);
        let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
        let out = fop::<K>(&fs[w][op.f as usize], p, &pool[i], &pool[j], op);
        fref::<K>(p, &pool[i], &pool[j], op, &out).map_err(|e| format!("step {n}: {e}"))?;
        let t = out.text();
        // the same operation on operands rebuilt in a field of its own, without any history
        let g = K::new(p);
        let fresh = fop::<K>(&g, p, &K::re(&g, &pool[i]), &K::re(&g, &pool[j]), op).text();
        ensure!(t == fresh, "{} p={p} step {n} {op:?}: operands {} and {}: {t} after the history, {fresh} without it",
            K::NAME, texts[w][i], texts[w][j]);
        for (v, t) in pools.iter().flatten().zip(texts.iter().flatten()) {
            ensure!(&v.to_string() == t, "{} p={p} step {n} {op:?} changed another value from {t} to {v}", K::NAME);
        }
        log.push((i, j, t));
        after += (roots > 0) as u64;
        roots += (7..=11).contains(&op.o) as u64;
        if let Out::V(v) = out {
            texts[w].push(v.to_string());
            pools[w].push(v);
        }
    }
    for (n, (op, (i, j, t))) in k.ops.iter().zip(&log).enumerate().rev() {
        let w = pick_w(op, ps.len());
        let again = fop::<K>(&fs[w][op.f as usize], &ps[w], &pools[w][*i], &pools[w][*j], op).text();
        ensure!(&again == t, "{} p={} step {n} {op:?} repeated at the end: {again}, first {t}", K::NAME, ps[w]);
    }
    for (v, t) in pools.iter().flatten().zip(texts.iter().flatten()) {
        ensure!(&v.to_string() == t, "{} p={}: a value changed from {t} to {v}", K::NAME, ps[0]);
    }
    let mixed = used.iter().filter(|u| **u).count() > 1;
    Ok(Obs::nt(after > 0)
        .n(3 * k.ops.len() as u64)
        .lif(after > 0, "operations after a square root")
        .lif(mixed, "several fields")
        .lif(log.len() > 8, "long history"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CurveHist {
    c: String,
    /// another curve, used by some of the operations
    #[serde(default)]
    d: String,
    init: Vec<PtR>,
    ops: Vec<Op>,
}
fn curve_hist_s<M: Model>(len: usize) -> BoxedStrategy<CurveHist> {
    (
        curve_name::<M>((4, 2, 4), |w| w.not1mod8()),
        proptest::collection::vec(pt_r(), 2..4),
        proptest::collection::vec(op_s(COPS), 1..len),
        curve_name::<M>((4, 2, 4), |w| w.not1mod8()),
    )
        .prop_map(|(c, init, ops, d)| CurveHist { c, d, init, ops })
        .boxed()
}
pub(crate) fn value<M: Model>(w: &World<M>, o: &Out<M::P>) -> Result<String, String> {
    match o {
        Out::V(p) => Ok(show(&w.aff(p)?)),
        Out::T(s) => Ok(s.clone()),
    }
}
/// the result of an operation against the reference group law, where it is determined
pub(crate) fn cref<M: MapOp>(w: &World<M>, a: &M::P, b: &M::P, op: &Op, out: &Out<M::P>) -> Result<(), String> {
    let s = &w.s;
    let (x, y) = (w.aff(a)?, w.aff(b)?);
    let want = match op.o {
        0 | 1 => s.add(&x, &y),
        2 => s.sub(&x, &y),
        3 => s.neg(&x),
        4 => {
            let k = if w.toy() { op.v.e(&s.r) } else { op.v.e(&(Z::one() << 24usize)) };
            s.mul(&x, &md(&k, &s.r))
        }
        5..=7 | 11 => x.clone(),
        15 => s.gen(),
        16 => s.zero(),
        _ => return Ok(()),
    };
    let t = value(w, out)?;
    ensure!(t == show(&want), "{} {op:?} on {} and {}: {t}, expected {}", s.name, show(&x), show(&y), show(&want));
    Ok(())
}
fn curve_hist<M: MapOp>(k: &CurveHist) -> Res {
    let mut ws: Vec<&World<M>> = vec![w::<M>(&k.c)];
    if !k.d.is_empty() && k.d != k.c {
        ws.push(w::<M>(&k.d));
    }
    let cs: Vec<[M::C; 3]> = ws.iter().map(|w| { let c0 = w.curve(); [c0.clone(), w.curve(), c0] }).collect();
    let mut pools: Vec<Vec<M::P>> = vec![];
    for (w, c) in ws.iter().zip(&cs) {
        pools.push(k.init.iter().enumerate().map(|(i, r)| w.rep(&home(*w, &c, i), &w.pt(r), i as u8 + 1)).collect());
    }
    let mut texts: Vec<Vec<String>> = pools.iter().map(|v| v.iter().map(|v| v.to_string()).collect()).collect();
    let mut log: Vec<(usize, usize, String)> = vec![];
    let (mut roots, mut after, mut used) = (0, 0, [false; 2]);
    for (n, op) in k.ops.iter().enumerate() {
        let q = pick_w(op, ws.len());
        used[q] = true;
        let (w, pool) = (ws[q], &pools[q]);
        let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
        let out = cop::<M>(w, &cs[q][op.f as usize], &pool[i], &pool[j], op);
        cref(w, &pool[i], &pool[j], op, &out).map_err(|e| format!("step {n}: {e}"))?;
        let g = w.curve();
        let (a, b) = (w.mk(&g, &w.aff(&pool[i])?), w.mk(&g, &w.aff(&pool[j])?));
        let fresh = cop::<M>(w, &g, &a, &b, op);
        let (t, u) = (value(w, &out)?, value(w, &fresh)?);
        ensure!(t == u, "{} step {n} {op:?} on {} and {}: {t} after the history, {u} without it", w.s.name, texts[q][i], texts[q][j]);
        for (v, t) in pools.iter().flatten().zip(texts.iter().flatten()) {
            ensure!(&v.to_string() == t, "{} step {n} {op:?} changed another value from {t} to {v}", w.s.name);
        }
        log.push((i, j, out.text()));
        after += (roots > 0) as u64;
        roots += [5, 6, 12, 13, 18].contains(&op.o) as u64;
        if let Out::V(v) = out {
            texts[q].push(v.to_string());
            pools[q].push(v);
        }
    }
    for (n, (op, (i, j, t))) in k.ops.iter().zip(&log).enumerate().rev() {
        let q = pick_w(op, ws.len());
        let again = cop::<M>(ws[q], &cs[q][op.f as usize], &pools[q][*i], &pools[q][*j], op).text();
        ensure!(&again == t, "{} step {n} {op:?} repeated at the end: {again}, first {t}", ws[q].s.name);
    }
    for (v, t) in pools.iter().flatten().zip(texts.iter().flatten()) {
        ensure!(&v.to_string() == t, "{}: a value changed from {t} to {v}", ws[0].s.name);
    }
    Ok(Obs::nt(after > 0)
        .n(3 * k.ops.len() as u64)
        .lif(after > 0, "operations after a square root")
        .lif(used[0] && used[1], "several curves")
        .lif(ws[0].s.builtin, "built-in curve"))
}
/// a program repeated many times in the same fields, with new operands each time
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LongHist {
    p: PrimeR,
    init: Vec<(IntR, IntR)>,
    ops: Vec<Op>,
    rounds: u32,
}
fn long_s() -> BoxedStrategy<LongHist> {
    (prime_r(), proptest::collection::vec((int_r(), int_r()), 2..5), proptest::collection::vec(op_s(FOPS), 1..30), 1u32..60)
        .prop_map(|(p, init, ops, rounds)| LongHist { p, init, ops, rounds })
        .boxed()
}
/// more operations of each kind than a 16-bit counter counts, in small fields
fn marathon_s() -> BoxedStrategy<LongHist> {
    let p = prop_oneof![(0u8..=255).prop_map(PrimeR::Small), any::<u32>().prop_map(|v| PrimeR::Next(vec![v]))];
    (p, proptest::collection::vec((int_r(), int_r()), 2..5), proptest::collection::vec(op_s(FOPS), 1..4), 66_000u32..70_000)
        .prop_map(|(p, init, ops, rounds)| LongHist { p, init, ops, rounds })
        .boxed()
}
const POOL: usize = 24;
fn long_hist<K: FK>(k: &LongHist) -> Res {
    let p = k.p.p(K::CLASS);
    let ps = companions(&p, K::CLASS);
    let rounds = if p.bits() > 600 { 1 } else if p.bits() > 300 { k.rounds / 8 + 1 } else if p.bits() > 130 { k.rounds / 2 + 1 } else { k.rounds } as usize;
    let fs: Vec<[K::F; 3]> = ps.iter().map(|p| { let f0 = K::new(p); [f0.clone(), K::new(p), f0] }).collect();
    let mut pools: Vec<Vec<K::T>> = vec![];
    for (p, f) in ps.iter().zip(&fs) {
        pools.push(k.init.iter().enumerate().map(|(i, (a, b))| K::mk(&own::<K>(&f, i, p), &a.e(p), &b.e(p))).collect());
    }
    let first: Vec<Vec<(K::T, String)>> = pools.iter().map(|v| v.iter().map(|v| (v.clone(), v.to_string())).collect()).collect();
    // the first results of the program, before and after everything else
    let run = |n: usize| -> String {
        let o = &k.ops[n];
        let w = pick_w(o, ps.len());
        let v = &first[w];
        fop::<K>(&fs[w][o.f as usize], &ps[w], &v[o.i as usize % v.len()].0, &v[o.j as usize % v.len()].0, o).text()
    };
    let start: Vec<String> = (0..k.ops.len()).map(run).collect();
    let mut n = 0;
    for r in 0..rounds {
        for op in &k.ops {
            let w = pick_w(op, ps.len());
            let pool = &pools[w];
            let (i, j) = ((op.i as usize + r) % pool.len(), (op.j as usize + 3 * r) % pool.len());
            let out = fop::<K>(&fs[w][op.f as usize], &ps[w], &pool[i], &pool[j], op);
            fref::<K>(&ps[w], &pool[i], &pool[j], op, &out).map_err(|e| format!("operation {n} of the history: {e}"))?;
            n += 1;
            if let Out::V(v) = out {
                let l = pools[w].len();
                if l < POOL {
                    pools[w].push(v);
                } else {
                    pools[w][n % l] = v;
                }
            }
        }
    }
    for (i, t) in start.iter().enumerate() {
        let again = run(i);
        ensure!(&again == t, "{} p={p}: {:?} gives {again} after {n} other operations, {t} before them", K::NAME, k.ops[i]);
    }
    for (v, t) in first.iter().flatten() {
        ensure!(&v.to_string() == t, "{} p={p}: a value changed from {t} to {v}", K::NAME);
    }
    Ok(Obs::nt(n > 50).n(n as u64).lif(n > 200, "over 200 operations").lif(n > 1000, "over 1000 operations"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LongCurve {
    c: String,
    d: String,
    init: Vec<PtR>,
    ops: Vec<Op>,
    rounds: u32,
}
fn long_curve_s<M: Model>() -> BoxedStrategy<LongCurve> {
    let n = || curve_name::<M>((6, 2, 4), |w| w.not1mod8());
    (n(), n(), proptest::collection::vec(pt_r(), 2..4), proptest::collection::vec(op_s(COPS), 1..16), 1u32..24)
        .prop_map(|(c, d, init, ops, rounds)| LongCurve { c, d, init, ops, rounds })
        .boxed()
}
fn long_curve<M: MapOp>(k: &LongCurve) -> Res {
    let mut ws: Vec<&World<M>> = vec![w::<M>(&k.c)];
    if k.d != k.c {
        ws.push(w::<M>(&k.d));
    }
    let rounds = if ws.iter().all(|w| w.toy()) { k.rounds } else { k.rounds / 6 + 1 } as usize;
    let cs: Vec<[M::C; 3]> = ws.iter().map(|w| { let c0 = w.curve(); [c0.clone(), w.curve(), c0] }).collect();
    let mut pools: Vec<Vec<M::P>> = vec![];
    for (w, c) in ws.iter().zip(&cs) {
        pools.push(k.init.iter().enumerate().map(|(i, r)| w.rep(&home(*w, &c, i), &w.pt(r), i as u8 + 1)).collect());
    }
    let first: Vec<Vec<(M::P, String)>> = pools.iter().map(|v| v.iter().map(|v| (v.clone(), v.to_string())).collect()).collect();
    let run = |n: usize| -> String {
        let o = &k.ops[n];
        let q = pick_w(o, ws.len());
        let v = &first[q];
        cop::<M>(ws[q], &cs[q][o.f as usize], &v[o.i as usize % v.len()].0, &v[o.j as usize % v.len()].0, o).text()
    };
    let start: Vec<String> = (0..k.ops.len()).map(run).collect();
    let mut n = 0;
    for r in 0..rounds {
        for op in &k.ops {
            let q = pick_w(op, ws.len());
            let pool = &pools[q];
            let (i, j) = ((op.i as usize + r) % pool.len(), (op.j as usize + 3 * r) % pool.len());
            let out = cop::<M>(ws[q], &cs[q][op.f as usize], &pool[i], &pool[j], op);
            cref(ws[q], &pool[i], &pool[j], op, &out).map_err(|e| format!("operation {n} of the history: {e}"))?;
            n += 1;
            if let Out::V(v) = out {
                let l = pools[q].len();
                if l < POOL {
                    pools[q].push(v);
                } else {
                    pools[q][n % l] = v;
                }
            }
        }
    }
    for (i, t) in start.iter().enumerate() {
        let again = run(i);
        ensure!(&again == t, "{}: {:?} gives {again} after {n} other operations, {t} before them", ws[0].s.name, k.ops[i]);
    }
    for (v, t) in first.iter().flatten() {
        ensure!(&v.to_string() == t, "{}: a value changed from {t} to {v}", ws[0].s.name);
    }
    Ok(Obs::nt(n > 50).n(n as u64).lif(n > 100, "over 100 operations").lif(ws.len() > 1, "several curves"))
}
fn marathon_curve_s<M: Model>() -> BoxedStrategy<LongCurve> {
    let n = || curve_name::<M>((1, 0, 0), |w| w.not1mod8());
    (n(), n(), proptest::collection::vec(pt_r(), 2..4), proptest::collection::vec(op_s(COPS), 1..3), 66_000u32..70_000)
        .prop_map(|(c, d, init, ops, rounds)| LongCurve { c, d, init, ops, rounds })
        .boxed()
}
/// operations on scalars of several groups
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ScHist {
    r: PrimeR,
    init: Vec<IntR>,
    ops: Vec<Op>,
    rounds: u32,
}
const SOPS: u8 = 15;
fn sc_hist_s() -> BoxedStrategy<ScHist> {
    (prime_r(), proptest::collection::vec(int_r(), 2..5), proptest::collection::vec(op_s(SOPS), 1..22), 1u32..6)
        .prop_map(|(r, init, ops, rounds)| ScHist { r, init, ops, rounds })
        .boxed()
}
/// a scalar operation and its reference value
fn sop<M: Model>(r: &Z, a: &M::S, b: &M::S, op: &Op) -> Result<(Out<M::S>, String), String> {
    let (x, y) = (zof(a)?, zof(b)?);
    let form = op.form();
    let len = (r.bits() as usize + 7) / 8;
    let v = |s: M::S, z: Z| (Out::V(s), md(&z, r).to_string());
    let digits = |d: Vec<bool>| d.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
    let bin = if x.is_zero() { String::new() } else { x.to_str_radix(2) };
    Ok(match op.o {
        0 | 1 => v(M::s_add1(form, a, b), &x + &y),
        2 => v(M::s_sub1(form, a, b), &x - &y),
        3 | 4 => v(M::s_mul1(form, a, b), &x * &y),
        5 => v(M::s_div1(form, a, b), &x * inv0(&y, r)),
        6 => v(M::s_neg(a).swap_remove(form & 1), -&x),
        7 => v(M::s_inv(a), inv0(&x, r)),
        8 => (Out::T(hex(&a.to_bytes_be())), hex(&be(&x, len))),
        9 => {
            let mut w = be(&x, len);
            w.reverse();
            (Out::T(hex(&a.to_bytes_le())), hex(&w))
        }
        10 => (Out::T(digits(M::lr(a, len * 8 + 70))), bin),
        11 => (Out::T(digits(M::rl(a, len * 8 + 70))), bin.chars().rev().collect()),
        12 => {
            let raw = op.v.raw(r, &[]);
            v(M::scalar(-raw.clone(), &ub(r)), -raw)
        }
        13 => {
            let e = M::s_eq(a, b).unwrap_or(x == y);
            (Out::T(e.to_string()), (x == y).to_string())
        }
        _ => v(M::scalar(op.v.e(r), &ub(r)), op.v.e(r)),
    })
}
fn sc_hist<M: Model>(k: &ScHist) -> Res {
    let rs = companions(&k.r.p(Class::Not1mod8), Class::Not1mod8);
    let mut pools: Vec<Vec<M::S>> = rs.iter().map(|r| k.init.iter().map(|v| M::scalar(v.e(r), &ub(r))).collect()).collect();
    let first: Vec<Vec<(M::S, String)>> = pools.iter().map(|v| v.iter().map(|v| (v.clone(), v.to_string())).collect()).collect();
    let (mut n, mut used) = (0usize, [false; 3]);
    for t in 0..k.rounds as usize {
        for op in &k.ops {
            let w = pick_w(op, rs.len());
            used[w] = true;
            let pool = &pools[w];
            let (i, j) = ((op.i as usize + t) % pool.len(), (op.j as usize + 3 * t) % pool.len());
            let (out, want) = sop::<M>(&rs[w], &pool[i], &pool[j], op)?;
            ensure!(out.text() == want, "{} scalars mod {}, operation {n} of the history, {op:?} on {} and {}: {}, expected {want}",
                M::NAME, rs[w], pool[i], pool[j], out.text());
            n += 1;
            if let Out::V(v) = out {
                let l = pools[w].len();
                if l < POOL {
                    pools[w].push(v);
                } else {
                    pools[w][n % l] = v;
                }
            }
        }
        for (v, t) in first.iter().flatten() {
            ensure!(&v.to_string() == t, "{} scalars: a value changed from {t} to {v}", M::NAME);
        }
        for (p, f) in pools.iter().zip(&first) {
            for (v, (_, t)) in p.iter().zip(f).take(if p.len() < POOL { f.len() } else { 0 }) {
                ensure!(&v.to_string() == t, "{} scalars: an operand changed from {t} to {v}", M::NAME);
            }
        }
    }
    Ok(Obs::nt(n > 3).n(n as u64).lif(used.iter().filter(|u| **u).count() > 1, "several groups").lif(n > 40, "over 40 operations"))
}
pub fn c29() -> Property {
    Property {
        id: "C29",
        rule: "histories of up to 21 operations (arithmetic, powers, roots, encodings, decompression, maps, in-place changes of clones) over two instances and a clone of a field or curve, interleaved with operations on fields of the same length and of another residue class or on a second curve; results that are determined are compared with the reference arithmetic; after each step all earlier values are compared with their first printed form and the result with the same operation on a fresh instance; every operation is repeated at the end; long clauses run up to some 1700 operations with a bounded pool, each compared with the reference, and compare the first results with those at the end; marathons repeat one to three operations over 66000 times; histories of scalars of three groups; some first values come from a field or curve dropped before the history; non-trivial: an operation follows a square root",
        assumptions: &["printed form shows the whole internal value"],
        clauses: vec![
            pt("prime-field-histories", 6000, 150000, field_hist_s, field_hist::<K1>),
            pt("extension-field-histories", 2500, 60000, field_hist_s, field_hist::<K2>),
            pt("weierstrass-histories", 1200, 30000, || curve_hist_s::<W>(16), curve_hist::<W>),
            pt("montgomery-histories", 1200, 30000, || curve_hist_s::<M>(16), curve_hist::<M>),
            pt("edwards-histories", 1200, 30000, || curve_hist_s::<E>(16), curve_hist::<E>),
            pt("long-prime-field-histories", 500, 12000, long_s, long_hist::<K1>),
            pt("long-extension-field-histories", 250, 6000, long_s, long_hist::<K2>),
            pt("long-weierstrass-histories", 200, 5000, long_curve_s::<W>, long_curve::<W>),
            pt("long-montgomery-histories", 200, 5000, long_curve_s::<M>, long_curve::<M>),
            pt("long-edwards-histories", 200, 5000, long_curve_s::<E>, long_curve::<E>),
            pt("weierstrass-scalar-histories", 1500, 40000, sc_hist_s, sc_hist::<W>),
            pt("montgomery-scalar-histories", 1500, 40000, sc_hist_s, sc_hist::<M>),
            pt("edwards-scalar-histories", 1500, 40000, sc_hist_s, sc_hist::<E>),
            pt("prime-field-marathons", 16, 320, marathon_s, long_hist::<K1>),
            pt("extension-field-marathons", 8, 160, marathon_s, long_hist::<K2>),
            pt("weierstrass-marathons", 8, 160, marathon_curve_s::<W>, long_curve::<W>),
            pt("montgomery-marathons", 8, 160, marathon_curve_s::<M>, long_curve::<M>),
            pt("edwards-marathons", 8, 160, marathon_curve_s::<E>, long_curve::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C28
pub(crate) struct Force<T>(pub T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}
impl<T> Force<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}
/// is the type Send + Sync, decided without failing to compile when it is not
struct Probe<T>(std::marker::PhantomData<T>);
trait No {
    fn shared(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shared(&self) -> bool {
        true
    }
}
macro_rules! shared {
    ($t:ty) => {
        (&Probe::<$t>(std::marker::PhantomData)).shared()
    };
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TypeC {
    name: String,
}
fn types() -> Vec<(&'static str, bool)> {
    vec![
        ("primefield::Fp", shared!(Fp)),
        ("primefield::FpElt", shared!(FpElt)),
        ("quadraticfield::Fp2", shared!(Fp2)),
        ("quadraticfield::Fp2Elt", shared!(Fp2Elt)),
        ("weierstrass::Curve", shared!(weierstrass::Curve)),
        ("weierstrass::Point", shared!(weierstrass::Point)),
        ("weierstrass::Scalar", shared!(weierstrass::Scalar)),
        ("weierstrass::SSWU", shared!(weierstrass::SSWU)),
        ("weierstrass::SVDW", shared!(weierstrass::SVDW)),
        ("montgomery::Curve", shared!(montgomery::Curve)),
        ("montgomery::Point", shared!(montgomery::Point)),
        ("montgomery::Scalar", shared!(montgomery::Scalar)),
        ("montgomery::Ell2", shared!(montgomery::Ell2)),
        ("edwards::Curve", shared!(edwards::Curve)),
        ("edwards::Point", shared!(edwards::Point)),
        ("edwards::Scalar", shared!(edwards::Scalar)),
    ]
}
fn type_case(c: &TypeC) -> Res {
    let ok = types().iter().find(|t| t.0 == c.name).ok_or("unknown type")?.1;
    ensure!(ok, "{} cannot be shared between threads (not Send + Sync)", c.name);
    Ok(Obs::nt(true))
}
pub(crate) fn all_shared() -> bool {
    types().iter().all(|t| t.1)
}
const THREADS: usize = 8;
/// THREADS threads run `f`; the first complaint, or that some never came back
fn together(f: impl Fn(usize, &Barrier) -> Option<String> + Send + Sync + 'static) -> Result<(), String> {
    let f = Arc::new((f, Barrier::new(THREADS)));
    let (tx, rx) = std::sync::mpsc::channel();
    for t in 0..THREADS {
        let (f, tx) = (f.clone(), tx.clone());
        std::thread::spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.0(t, &f.1)));
            drop(f);
            let _ = tx.send(r.unwrap_or_else(|_| Some(format!("thread {t} panicked: {}", last_panic()))));
        });
    }
    let mut bad = None;
    for done in 0..THREADS {
        match rx.recv_timeout(std::time::Duration::from_secs(90)) {
            Ok(r) => bad = bad.or(r),
            Err(_) => {
                return Err(bad.unwrap_or(format!("{STUCK}{} of {THREADS} threads are blocked: none came back within 90 s", THREADS - done)));
            }
        }
    }
    bad.map_or(Ok(()), Err)
}
const STUCK: &str = "stuck: ";
/// blocked threads stay blocked, so a case that got stuck is not run again in this process; nor is
/// it made smaller
fn unless_stuck<C: Serialize>(k: &C, run: impl FnOnce() -> Res) -> Res {
    static SEEN: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
    let me = serde_json::to_string(k).unwrap();
    if let Some((c, m)) = &*SEEN.lock().unwrap() {
        return if *c == me { Err(m.clone()) } else { Ok(Obs::nt(false)) };
    }
    let r = run();
    if let Err(m) = &r {
        if m.contains(STUCK) {
            *SEEN.lock().unwrap() = Some((me, m.clone()));
        }
    }
    r
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Race {
    p: PrimeR,
    init: Vec<(IntR, IntR)>,
    ops: Vec<Op>,
    reps: u16,
    #[serde(default)]
    several: bool,
    /// elements of two instances of the field, as left and right operands in either order
    #[serde(default)]
    twin: bool,
}
/// the operands of an operation for a thread
fn operands(o: &Op, n: usize, twin: bool, swap: bool) -> (usize, usize) {
    let (mut i, mut j) = (o.i as usize % n, o.j as usize % n);
    if twin && i % 2 == j % 2 {
        j = (j + 1) % n;
    }
    if swap {
        std::mem::swap(&mut i, &mut j);
    }
    (i, j)
}
/// all threads, starting at a barrier, run the program on fresh fields: in one shared field, or
/// (`several`) spread over three fields
fn race_field<K: FK>(k: &Race) -> Res {
    if !all_shared() {
        return Ok(Obs::nt(false).l("types cannot be shared"));
    }
    unless_stuck(k, || race_field_(PhantomData::<K>, k))
}
fn race_field_<K: FK>(_: PhantomData<K>, k: &Race) -> Res {
    let mut ps = companions(&k.p.p(K::CLASS), K::CLASS);
    ps.truncate(if k.several { 3 } else { 1 });
    let pool = |p: &Z, f: &[K::F; 2]| -> Vec<K::T> {
        k.init.iter().enumerate().map(|(n, (a, b))| K::mk(&f[k.twin as usize & n], &a.e(p), &b.e(p))).collect()
    };
    // the single-threaded results, from separate instances
    let mut want: Vec<[Vec<String>; 2]> = vec![];
    for p in &ps {
        let g = [K::new(p), K::new(p)];
        let gp = pool(p, &g);
        let mut ws = [vec![], vec![]];
        for o in &k.ops {
            for s in 0..1 + k.twin as usize {
                let (i, j) = operands(o, gp.len(), k.twin, s == 1);
                let r = fop::<K>(&g[s], p, &gp[i], &gp[j], o);
                fref::<K>(p, &gp[i], &gp[j], o, &r).map_err(|e| format!("alone: {e}"))?;
                ws[s].push(r.text());
            }
        }
        want.push(ws);
    }
    let reps = if ps[0].bits() > 600 { 1 } else { k.reps };
    // comparing and adding takes much less time than starting the threads
    let rounds = if k.twin && ps[0].bits() < 300 { 12 } else { 1 };
    for rep in 0..reps {
        let f: Vec<[K::F; 2]> = ps.iter().map(|p| [K::new(p), K::new(p)]).collect();
        let pools: Vec<Vec<K::T>> = ps.iter().zip(&f).map(|(p, f)| pool(p, f)).collect();
        let all = Force((f, pools, want.clone(), ps.clone(), k.clone()));
        together(move |t, bar| {
            let (f, pool, want, ps, k) = all.get();
            let q = t % ps.len();
            let s = k.twin && (t / ps.len()) % 2 == 1;
            let (p, f, pl, want) = (&ps[q], &f[q][s as usize], &pool[q], &want[q][s as usize]);
            // own clones for half of the threads
            let fl = f.clone();
            let fl = if t % 2 == 0 { &fl } else { f };
            bar.wait();
            for n in 0..k.ops.len() * rounds {
                // every thread runs the whole program, a quarter of them from another start
                let n = (n + if t % 4 == 3 { t } else { 0 }) % k.ops.len();
                let o = &k.ops[n];
                let (i, j) = operands(o, pl.len(), k.twin, s);
                let r = attempt(|| fop::<K>(fl, p, &pl[i], &pl[j], o).text());
                let m = match r {
                    Some(r) if r == want[n] => continue,
                    Some(r) => format!("{r}, alone {}", want[n]),
                    None => format!("panicked: {}", last_panic()),
                };
                return Some(format!("{} p={p} thread {t} of {THREADS}, operation {n} {o:?}: {m}", K::NAME));
            }
            None
        })
        .map_err(|m| format!("{m} (repetition {rep})"))?;
    }
    let n = k.ops.iter().filter(|o| (8..=11).contains(&o.o)).count();
    Ok(Obs::nt(n > 0)
        .n(reps as u64 * (THREADS * k.ops.len() * rounds) as u64 - 1)
        .lif(n > 0, "square roots on a fresh field")
        .lif(k.twin, "two instances")
        .lif(k.several, "several fields"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RaceC {
    c: String,
    /// another curve, used by every third thread
    #[serde(default)]
    d: String,
    init: Vec<PtR>,
    ops: Vec<Op>,
    reps: u16,
    #[serde(default)]
    twin: bool,
}
fn race_curve<M: MapOp>(k: &RaceC) -> Res {
    if !all_shared() {
        return Ok(Obs::nt(false).l("types cannot be shared"));
    }
    unless_stuck(k, || race_curve_(PhantomData::<M>, k))
}
fn race_curve_<M: MapOp>(_: PhantomData<M>, k: &RaceC) -> Res {
    let mut ws: Vec<&'static World<M>> = vec![w::<M>(&k.c)];
    if !k.d.is_empty() && k.d != k.c {
        ws.push(w::<M>(&k.d));
    }
    let pts: Vec<Vec<RP>> = ws.iter().map(|w| k.init.iter().map(|r| w.pt(r)).collect()).collect();
    let pool = |w: &World<M>, c: &[M::C; 2], pts: &[RP]| -> Vec<M::P> {
        pts.iter().enumerate().map(|(n, q)| w.mk(&c[k.twin as usize & n], q)).collect()
    };
    let mut want: Vec<[Vec<String>; 2]> = vec![];
    for (w, pts) in ws.iter().zip(&pts) {
        let g = [w.curve(), w.curve()];
        let gp = pool(w, &g, pts);
        let mut v = [vec![], vec![]];
        for o in &k.ops {
            for s in 0..1 + k.twin as usize {
                let (i, j) = operands(o, gp.len(), k.twin, s == 1);
                let r = cop::<M>(w, &g[s], &gp[i], &gp[j], o);
                cref(w, &gp[i], &gp[j], o, &r).map_err(|e| format!("alone: {e}"))?;
                v[s].push(r.text());
            }
        }
        want.push(v);
    }
    let rounds = if k.twin && ws.iter().all(|w| w.toy()) { 4 } else { 1 };
    for rep in 0..k.reps {
        let c: Vec<[M::C; 2]> = ws.iter().map(|w| [w.curve(), w.curve()]).collect();
        let pools: Vec<Vec<M::P>> = ws.iter().zip(&pts).zip(&c).map(|((w, pts), c)| pool(w, c, pts)).collect();
        let all = Force((c, pools, want.clone(), ws.clone(), k.clone()));
        together(move |t, bar| {
            let (c, pool, want, ws, k) = all.get();
            let q = (t % 3 == 2) as usize % ws.len();
            let s = k.twin && t % 2 == 1;
            let (w, want) = (ws[q], &want[q][s as usize]);
            let (c, pl) = (&c[q][s as usize], &pool[q]);
            bar.wait();
            for n in 0..k.ops.len() * rounds {
                let n = (n + if t % 4 == 3 { t } else { 0 }) % k.ops.len();
                let o = &k.ops[n];
                let (i, j) = operands(o, pl.len(), k.twin, s);
                let r = attempt(|| cop::<M>(w, c, &pl[i], &pl[j], o).text());
                let m = match r {
                    Some(r) if r == want[n] => continue,
                    Some(r) => format!("{r}, alone {}", want[n]),
                    None => format!("panicked: {}", last_panic()),
                };
                return Some(format!("{} thread {t} of {THREADS}, operation {n} {o:?}: {m}", w.s.name));
            }
            None
        })
        .map_err(|m| format!("{m} (repetition {rep})"))?;
    }
    let n = k.ops.iter().filter(|o| [5, 6, 12, 13, 18].contains(&o.o)).count();
    Ok(Obs::nt(n > 0)
        .n(k.reps as u64 * (THREADS * k.ops.len() * rounds) as u64 - 1)
        .lif(n > 0, "square roots on a fresh field")
        .lif(k.twin, "two instances")
        .lif(ws.len() > 1, "two curves"))
}
/// one map value shared by the threads
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RaceM {
    kind: u8,
    u: Vec<IntR>,
    reps: u16,
}
fn race_map(k: &RaceM) -> Res {
    if !all_shared() {
        return Ok(Obs::nt(false).l("types cannot be shared"));
    }
    unless_stuck(k, || race_map_(k))
}
fn race_map_(k: &RaceM) -> Res {
    fn go<T: MapToCurve + 'static>(mk: impl Fn() -> (T, <T::E as EllipticCurve>::F), us: &[Z], reps: u16, name: &'static str) -> Res
    where
        <T::E as EllipticCurve>::F: 'static,
    {
        fn run<T: MapToCurve>(m: &T, f: &<T::E as EllipticCurve>::F, u: &Z) -> String {
            m.map(&f.elt(u.clone())).to_string()
        }
        let (m, f) = mk();
        let want: Vec<String> = us.iter().map(|u| run(&m, &f, u)).collect();
        for rep in 0..reps {
            let all = Force((mk(), want.clone(), us.to_vec()));
            together(move |t, bar| {
                let ((m, f), want, us) = all.get();
                bar.wait();
                for n in 0..us.len() {
                    let m = match attempt(|| run(m, f, &us[n])) {
                        Some(r) if r == want[n] => continue,
                        Some(r) => format!("{r}, alone {}", want[n]),
                        None => format!("panicked: {}", last_panic()),
                    };
                    return Some(format!("{name} of {} in thread {t}: {m}", us[n]));
                }
                None
            })
            .map_err(|m| format!("{m} (repetition {rep})"))?;
        }
        Ok(Obs::nt(true).n(reps as u64 * (THREADS * us.len()) as u64 - 1))
    }
    let us = |s: &Spec| k.u.iter().map(|u| u.e(&s.p)).collect::<Vec<_>>();
    match k.kind % 3 {
        0 => {
            let w = w::<W>("P256");
            go(|| { let c = w.curve(); let f = c.get_field(); (weierstrass::SSWU::new(c, f.elt(z(-10))), f) }, &us(&w.s), k.reps, "SSWU")
        }
        1 => {
            let w = w::<M>("curve25519");
            go(|| { let c = w.curve(); let f = c.get_field(); (montgomery::Ell2::new(c, f.elt(z(2))), f) }, &us(&w.s), k.reps, "Elligator 2")
        }
        _ => {
            let w = w::<W>("secp256k1");
            let zz = near(&w.s, &z(1), svdw_exists).unwrap();
            go(|| { let c = w.curve(); let f = c.get_field(); (weierstrass::SVDW::new(c, f.elt(zz.clone())), f) }, &us(&w.s), k.reps, "SVDW")
        }
    }
}
pub fn c28() -> Property {
    fn fs() -> BoxedStrategy<Race> {
        // programs rich in square roots, a third of them nothing else
        let o = || prop_oneof![2 => op_s(FOPS), 3 => op_s(FOPS).prop_map(|mut o| { o.o = 8 + o.o % 4; o }), 1 => op_s(FOPS).prop_map(|mut o| { o.o = [17, 0, 1, 2][o.o as usize % 4]; o })];
        (prime_r(), proptest::collection::vec((int_r(), int_r()), 2..5), proptest::collection::vec(o(), 1..6), any::<bool>(), any::<bool>())
            .prop_map(|(p, init, ops, several, twin)| Race { p, init, ops, reps: 12, several, twin })
            .boxed()
    }
    fn cs<M: Model>() -> BoxedStrategy<RaceC> {
        let o = || prop_oneof![2 => op_s(COPS), 3 => op_s(COPS).prop_map(|mut o| { o.o = [5, 6, 12, 13, 18][o.o as usize % 5]; o })];
        (curve_name::<M>((3, 1, 4), |w| w.not1mod8()), proptest::collection::vec(pt_r(), 2..4), proptest::collection::vec(o(), 1..5), curve_name::<M>((3, 1, 4), |w| w.not1mod8()), any::<bool>())
            .prop_map(|(c, init, ops, d, twin)| RaceC { c, d, init, ops, reps: 6, twin })
            .boxed()
    }
    fn ms() -> BoxedStrategy<RaceM> {
        (0u8..3, proptest::collection::vec(int_r(), 1..4)).prop_map(|(kind, u)| RaceM { kind, u, reps: 6 }).boxed()
    }
    Property {
        id: "C28",
        rule: "programs of 1-5 operations (mostly square roots, decompressions and maps) on a fresh field, curve or map shared by 8 threads, on two instances of one of them as left and right operands in either order, or on two or three fields or curves spread over them, that start at a barrier, repeated on fresh instances; every result is compared with a single-threaded run; non-trivial: the program takes a square root; the scheduler is not controlled, so interleavings are sampled, not enumerated",
        assumptions: &["interleavings are sampled by the operating system's scheduler on 8 cores"],
        clauses: vec![
            en("types-can-be-shared", |_| types().iter().map(|t| TypeC { name: t.0.into() }).collect(), type_case),
            pt("prime-field", 420, 9000, fs, race_field::<K1>).alone(),
            pt("extension-field", 220, 5000, fs, race_field::<K2>).alone(),
            pt("weierstrass", 130, 2500, cs::<W>, race_curve::<W>).alone(),
            pt("montgomery", 130, 2500, cs::<M>, race_curve::<M>).alone(),
            pt("edwards", 130, 2500, cs::<E>, race_curve::<E>).alone(),
            pt("maps", 150, 3000, ms, race_map).alone(),
        ],
    }
}

// ---------------------------------------------------------------- C30
pub mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
    }
    pub struct Counting;
    fn add(n: i64) {
        let _ = LIVE.try_with(|c| c.set(c.get() + n));
    }
    // bytes allocated minus bytes freed by the current thread
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as i64 - l.size() as i64);
            System.realloc(p, l, n)
        }
    }
    pub fn live() -> i64 {
        LIVE.with(|c| c.get())
    }
}
/// live bytes after each of a few repetitions must not keep growing
pub(crate) fn leak_check(what: &str, session: &dyn Fn()) -> Result<(), String> {
    for _ in 0..3 {
        session(); // one-time initialisation anywhere
    }
    let mut prev = heap::live();
    let first = prev;
    let mut grew = 0;
    let n = 6;
    for _ in 0..n {
        session();
        let now = heap::live();
        grew += (now > prev) as u32;
        prev = now;
    }
    ensure!(grew < n, "{what}: live heap grows at every repetition, {} bytes in {n} repetitions", prev - first);
    Ok(())
}
fn leak_field<K: FK>(k: &FieldHist) -> Res {
    let p = k.p.p(K::CLASS);
    let ab: Vec<(Z, Z)> = k.init.iter().map(|(a, b)| (a.e(&p), b.e(&p))).collect();
    leak_check(&format!("{} p={p} {:?}", K::NAME, k.ops), &|| {
        let fs = [K::new(&p), K::new(&p)];
        let fs = [fs[0].clone(), fs[1].clone(), fs[0].clone()];
        let mut pool: Vec<K::T> = ab.iter().enumerate().map(|(i, (a, b))| K::mk(&fs[i % 3], a, b)).collect();
        for op in &k.ops {
            let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
            if let Out::V(v) = fop::<K>(&fs[op.f as usize], &p, &pool[i], &pool[j], op) {
                pool.push(v);
            }
        }
    })?;
    let n = k.ops.iter().filter(|o| (8..=11).contains(&o.o)).count();
    Ok(Obs::nt(n > 0).n(5).lif(n > 0, "square roots").lif(low8(&p) & 7 == 5, "p = 5 mod 8"))
}
fn leak_curve<M: MapOp>(k: &CurveHist) -> Res {
    let w = w::<M>(&k.c);
    let pts: Vec<RP> = k.init.iter().map(|r| w.pt(r)).collect();
    leak_check(&format!("{} {:?}", w.s.name, k.ops), &|| {
        let c0 = w.curve();
        let cs = [c0.clone(), w.curve(), c0];
        let mut pool: Vec<M::P> = pts.iter().enumerate().map(|(i, q)| w.mk(&cs[i % 3], q)).collect();
        for op in &k.ops {
            let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
            if let Out::V(v) = cop::<M>(w, &cs[op.f as usize], &pool[i], &pool[j], op) {
                pool.push(v);
            }
        }
    })?;
    let n = k.ops.iter().filter(|o| [5, 6, 12, 13, 18].contains(&o.o)).count();
    Ok(Obs::nt(n > 0).n(5).lif(n > 0, "square roots").lif(low8(&w.s.p) & 7 == 5, "p = 5 mod 8"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LeakM {
    i: u8,
    u: IntR,
}
fn leak_maps(k: &LeakM) -> Res {
    let what = format!("map {} on {:?}", k.i % 6, k.u);
    let (d, e) = (w::<W>("secp256k1_3iso"), w::<W>("bls12381_g1_11iso"));
    leak_check(&what, &|| match k.i % 6 {
        // constructions that are refused
        4 => {
            let c = d.curve();
            let f = c.get_field();
            attempt(|| weierstrass::SSWU::new(c.clone(), f.elt(k.u.e(&d.s.p))).map(&f.one()).is_zero());
            attempt(|| weierstrass::SSWUAB0::new(c.clone(), f.elt(k.u.e(&d.s.p)), the_iso(1)).map(&f.one()).is_zero());
            attempt(|| weierstrass::SVDW::new(c.clone(), f.elt(k.u.e(&d.s.p))).map(&f.one()).is_zero());
        }
        5 => {
            let c = E::builtin("edwards25519").unwrap();
            let f = c.get_field();
            attempt(|| edwards::Ell2::new(c.clone(), f.elt(k.u.e(&d.s.p)), Some(the_map(1))).map(&f.one()).is_zero());
            attempt(|| edwards::Ell2::new(c.clone(), f.elt(k.u.e(&d.s.p)), None).map(&f.one()).is_zero());
        }
        0 | 1 => {
            let m = the_iso(k.i % 2);
            let wd = if k.i % 2 == 0 { d } else { e };
            let q = wd.s.lift_next(&k.u.e(&wd.s.p), false);
            let _ = m.push(wd.mk(&m.domain(), &q)).to_string();
        }
        i => {
            let m = the_map(i - 2);
            let g = m.domain().get_generator();
            let _ = m.pull(m.push(&g + &g)).encode(true);
        }
    })?;
    Ok(Obs::nt(true).n(5))
}
/// strings that are mostly refused: wrong lengths, tags and coordinates
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LeakD {
    m: u8,
    c: String,
    p: PtR,
    v: Vec<(u8, u8)>,
}
fn leak_decode<M: Model>(k: &LeakD) -> Res {
    let w = w::<M>(&k.c);
    let q = w.pt(&k.p);
    let mut refused = 0;
    {
        let c = w.curve();
        let enc = [w.mk(&c, &q).encode(true), w.mk(&c, &q).encode(false)];
        let f = c.get_field();
        let strings: Vec<Vec<u8>> = k
            .v
            .iter()
            .map(|&(how, x)| {
                let mut b = enc[how as usize & 1].clone();
                let l = b.len();
                match (how >> 1) % 8 {
                    0 => b.truncate(x as usize % l),
                    1 => b.resize(l + 1 + x as usize % 70, x),
                    2 => b[0] = x,
                    3 => b[l - 1] ^= 1 << (x % 8),
                    4 => b[x as usize % l] ^= 1 + x / 16,
                    5 => b[1 % l..].fill(0xff),
                    6 => b.fill(x),
                    _ => b = vec![x; how as usize],
                }
                b
            })
            .collect();
        refused += strings.iter().filter(|b| !matches!(attempt(|| c.decode(b).is_ok()), Some(true))).count();
        let f2 = Fp2::new(ub(&w.s.p));
        leak_check(&format!("{} decoding {:?}", w.s.name, strings), &|| {
            for b in &strings {
                attempt(|| {
                    let e = c.decode(b).map(|p| p.to_string()).map_err(|e| e.to_string());
                    e.is_ok()
                });
                attempt(|| f2.from_bytes_be(b).is_ok() && f2.from_bytes_le(b).is_ok());
                attempt(|| f.from_bytes_be(b).is_ok() && f.from_bytes_le(b).is_ok());
            }
        })?;
    }
    Ok(Obs::nt(refused > 0).n(5).lif(refused > 0, "refused strings"))
}
pub fn c30() -> Property {
    fn ds<M: Model>(m: u8) -> BoxedStrategy<LeakD> {
        (curve_name::<M>((2, 1, 4), |w| w.not1mod8()), pt_r(), proptest::collection::vec((any::<u8>(), any::<u8>()), 1..6))
            .prop_map(move |(c, p, v)| LeakD { m, c, p, v })
            .boxed()
    }
    Property {
        id: "C30",
        rule: "sessions that create fields, curves, points and maps, run up to 21 operations, some of them refused, or decode up to five strings that are mostly refused, and drop everything, repeated; a counting allocator compares live bytes after each repetition; non-trivial: the session takes a square root or refuses something",
        assumptions: &["a session allocates and frees on one thread", "growth means growth at each of six repetitions after three warm-up runs"],
        clauses: [vec![
            pt("prime-field-sessions", 3000, 60000, field_hist_s, leak_field::<K1>),
            pt("extension-field-sessions", 1000, 20000, field_hist_s, leak_field::<K2>),
            pt("weierstrass-sessions", 400, 8000, || curve_hist_s::<W>(10), leak_curve::<W>),
            pt("montgomery-sessions", 400, 8000, || curve_hist_s::<M>(10), leak_curve::<M>),
            pt("edwards-sessions", 400, 8000, || curve_hist_s::<E>(10), leak_curve::<E>),
            pt("decoders", 2400, 40000, || prop_oneof![ds::<W>(0), ds::<M>(1), ds::<E>(2)].boxed(), |k: &LeakD| match k.m {
                0 => leak_decode::<W>(k),
                1 => leak_decode::<M>(k),
                _ => leak_decode::<E>(k),
            }),
            pt("map-sessions", 300, 6000, || (0u8..6, int_r()).prop_map(|(i, u)| LeakM { i, u }).boxed(), leak_maps),
        ], crate::p_more::refusal_sessions()]
        .into_iter()
        .flatten()
        .collect(),
    }
}
