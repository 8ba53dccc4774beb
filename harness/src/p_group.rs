//! C08-C16, C18: scalars, group laws, equality, construction, encodings, on all curve models.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_field::pivot;
use crate::refm::*;
use crate::world::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode};
use redox_ecc::ops::Serialize as Ser;
use serde::{Deserialize, Serialize};

pub fn show(q: &RP) -> String {
    match q {
        None => "O".into(),
        Some((x, y)) => format!("({x}, {y})"),
    }
}
/// the library point is valid, on its curve by the library's own test, and equals the reference
pub fn is_pt<M: Model>(w: &World<M>, c: &M::C, name: &str, got: &M::P, want: &RP) -> Result<(), String> {
    let g = w.aff(got).map_err(|m| format!("{}: {name}: {m}", w.s.name))?;
    ensure!(&g == want, "{}: {name}: got {}, expected {}", w.s.name, show(&g), show(want));
    ensure!(c.is_on_curve(got), "{}: {name}: is_on_curve is false for {got}", w.s.name);
    observe(w, c, name, got, want)
}
/// the result has its value by every way of looking at it
fn observe<M: Model>(w: &World<M>, c: &M::C, name: &str, got: &M::P, want: &RP) -> Result<(), String> {
    let s = &w.s;
    let zero = want == &s.zero();
    ensure!(got.is_zero() == zero, "{}: {name}: is_zero is {} for {}", s.name, got.is_zero(), show(want));
    if let Some(m) = (got as &dyn std::any::Any).downcast_ref::<redox_ecc::montgomery::Point>() {
        let two = matches!(want, Some((_, y)) if y.is_zero());
        ensure!(m.is_two_torsion() == two, "{}: {name}: is_two_torsion is {} for {}", s.name, !two, show(want));
    }
    // the costlier comparisons on a part of the results, chosen by the value
    let pick = want.as_ref().map_or(0, |(x, y)| low8(x) ^ low8(y));
    if pick % 4 == 0 || w.toy() {
        let e = w.mk(c, want);
        ensure!(got == &e && &e == got, "{}: {name}: the result prints as {got} but differs from {}", s.name, show(want));
    }
    if pick % 16 == 0 {
        for comp in [false, true] {
            let b = got.encode(comp);
            ensure!(b == s.encode(want, comp), "{}: {name}: the result {} is encoded as {}", s.name, show(want), hex(&b));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
#[derive(Serialize, Deserialize, Clone, Debug)]
struct ScC {
    r: PrimeR,
    a: AnyInt,
    b: AnyInt,
    rel: u8,
    #[serde(default)]
    via: (u8, u8),
}
fn s_same<M: Model>(name: &str, got: &[M::S], want: &Z, r: &Z) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        let v = zof(g)?;
        ensure!(&v == want, "{} scalar mod {r}: {name} (operand form {i}): got {v}, expected {want}", M::NAME);
        let b = BigInt::from_bytes_be(num_bigint::Sign::Plus, &g.to_bytes_be());
        ensure!(&b == want, "{} scalar mod {r}: {name} (operand form {i}): prints as {v} but is encoded as {b}", M::NAME);
        let e = M::scalar(want.clone(), &ub(r));
        ensure!(M::s_eq(g, &e).unwrap_or(true), "{} scalar mod {r}: {name} (operand form {i}): prints as {v} but differs from it", M::NAME);
    }
    Ok(())
}
fn scalar_case<M: Model>(c: &ScC) -> Res {
    let r = c.r.p(Class::Any);
    let ru = ub(&r);
    let raw = c.a.ev(&r);
    let x = md(&raw, &r);
    let y = match c.rel {
        0 => x.clone(),
        1 => md(&-&x, &r),
        2 => inv0(&x, &r),
        // the product, the sum, the quotient has the second recipe
        9 => md(&(c.b.ev(&r) * inv0(&x, &r)), &r),
        10 => md(&(c.b.ev(&r) - &x), &r),
        11 => md(&(&x * inv0(&md(&c.b.ev(&r), &r), &r)), &r),
        _ => md(&c.b.ev(&r), &r),
    };
    scalar_pair::<M>(&r, &ru, &raw, &y, c.via)?;
    Ok(Obs::nt(x > z(1) && y > z(1)).n(30).lif(raw != x, "reduced").lif(raw.is_negative(), "negative")
        .lif(x.is_zero(), "zero").lif(y.is_zero(), "divide by zero").lif(x.bits() % 32 == 0 && nz(&x), "full top digit")
        .lif(c.via.0 % 16 > 2 && c.via.1 % 16 > 2, "both operands computed"))
}
/// M::S with operators, in one form each
struct Sc<M: Model>(M::S);
macro_rules! sc_op {
    ($t:ident, $m:ident, $f:ident, $n:literal) => {
        impl<'a, M: Model> std::ops::$t<&'a Sc<M>> for Sc<M> {
            type Output = Sc<M>;
            fn $m(self, o: &'a Sc<M>) -> Sc<M> {
                Sc(M::$f($n, &self.0, &o.0))
            }
        }
        impl<'a, 'b, M: Model> std::ops::$t<&'a Sc<M>> for &'b Sc<M> {
            type Output = Sc<M>;
            fn $m(self, o: &'a Sc<M>) -> Sc<M> {
                Sc(M::$f(0, &self.0, &o.0))
            }
        }
    };
}
sc_op!(Add, add, s_add1, 1);
sc_op!(Sub, sub, s_sub1, 1);
sc_op!(Mul, mul, s_mul1, 1);
sc_op!(Div, div, s_div1, 1);
impl<M: Model> std::ops::Neg for Sc<M> {
    type Output = Sc<M>;
    fn neg(self) -> Sc<M> {
        Sc(M::s_neg(&self.0).swap_remove(0))
    }
}
impl<'a, M: Model> std::ops::Neg for &'a Sc<M> {
    type Output = Sc<M>;
    fn neg(self) -> Sc<M> {
        Sc(M::s_neg(&self.0).swap_remove(0))
    }
}
fn via_s<M: Model>(r: &Z, ru: &BigUint, x: &Z, k: u8) -> M::S {
    let e: Sc<M> = via!(k, x, &pivot(x, k, r), |v: &Z| Sc::<M>(M::scalar(v.clone(), ru)), |a: &Z, b: &Z| md(&(a + b), r),
        |a: &Z, b: &Z| md(&(a - b), r), |a: &Z, b: &Z| md(&(a * b), r), |a: &Z| inv0(a, r));
    e.0
}
fn scalar_pair<M: Model>(r: &Z, ru: &BigUint, raw: &Z, y: &Z, (ka, kb): (u8, u8)) -> Result<(), String> {
    let x = &md(raw, r);
    let a = &if ka % 16 < 3 { M::scalar(raw.clone(), ru) } else { via_s::<M>(r, ru, x, ka) };
    let b = &via_s::<M>(r, ru, y, kb);
    s_same::<M>("operand a", &[a.clone()], x, r)?;
    s_same::<M>("operand b", &[b.clone()], y, r)?;
    s_same::<M>("a+b", &M::s_add(a, b), &md(&(x + y), r), r)?;
    s_same::<M>("a-b", &M::s_sub(a, b), &md(&(x - y), r), r)?;
    s_same::<M>("a*b", &M::s_mul(a, b), &md(&(x * y), r), r)?;
    s_same::<M>("-a", &M::s_neg(a), &md(&-x, r), r)?;
    let iy = inv0(y, r);
    s_same::<M>("1/b", &[M::s_inv(b)], &iy, r)?;
    s_same::<M>("a/b", &M::s_div(a, b), &md(&(x * &iy), r), r)?;
    ensure!(M::s_eq(a, b).map_or(true, |e| e == (x == y)), "{} scalar ==", M::NAME);
    // digits
    let n = x.bits() as usize;
    let want: Vec<bool> = (0..n as u64).map(|i| x.bit(i)).collect();
    let rl = M::rl(a, n + 70);
    ensure!(rl == want, "{} iter_rl of {x}: {} digits", M::NAME, rl.len());
    let mut lr = M::lr(a, n + 70);
    lr.reverse();
    ensure!(lr == want, "{} iter_lr of {x}: {} digits", M::NAME, lr.len());
    // serialization
    let len = (r.bits() as usize + 7) / 8;
    let w = be(x, len);
    ensure!(a.to_bytes_be() == w, "{} to_bytes_be({x}) = {}", M::NAME, hex(&a.to_bytes_be()));
    let wl: Vec<u8> = w.iter().rev().cloned().collect();
    ensure!(a.to_bytes_le() == wl, "{} to_bytes_le({x}) = {}", M::NAME, hex(&a.to_bytes_le()));
    Ok(())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RA {
    r: u32,
    a: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct CurveSc {
    m: u8,
    c: String,
    a: AnyInt,
    b: AnyInt,
}
fn curve_scalar<M: Model>(c: &CurveSc) -> Res {
    let w = w::<M>(&c.c);
    let e = w.curve();
    let r = &w.s.r;
    let v = c.a.ev(r);
    let u = c.b.ev(r);
    let (a, b) = (e.new_scalar(v.clone()), e.new_scalar(u.clone()));
    s_same::<M>("curve.new_scalar", &[a.clone()], &md(&v, r), r)?;
    s_same::<M>("curve a*b", &M::s_mul(&a, &b), &md(&(&v * &u), r), r)?;
    s_same::<M>("curve a+b", &M::s_add(&a, &b), &md(&(&v + &u), r), r)?;
    ensure!(M::s_eq(&a, &M::scalar(v.clone(), &ub(r))).unwrap_or(true), "new_scalar and Scalar::new differ");
    Ok(Obs::nt(v != md(&v, r)).n(2))
}
fn shorthand_num<M: Model>(c: &ScC) -> Res {
    let r = c.r.p(Class::Any);
    let x = md(&c.a.ev(&r), &r);
    let a = M::scalar(x.clone(), &ub(&r));
    let n = u32::try_from(md(&c.b.ev(&r), &z(1 << 32))).unwrap();
    for n in [n, 0, 2] {
        if let Some(q) = attempt(|| M::s_inv_num(n, &a)) {
            s_same::<M>("n/a", &[q], &md(&(inv0(&x, &r) * n), &r), &r)?;
        }
    }
    Ok(Obs::nt(x > z(1)))
}
pub fn c08() -> Property {
    fn s() -> BoxedStrategy<ScC> {
        (prime_r(), any_int(), any_int(), 0u8..12, (0u8..80, 0u8..80)).prop_map(|(r, a, b, rel, via)| ScC { r, a, b, rel, via }).boxed()
    }
    fn ex<M: Model>(c: &RA) -> Res {
        let r = z(c.r as i64);
        for b in 0..c.r {
            scalar_pair::<M>(&r, &ub(&r), &z(c.a as i64), &z(b as i64), ((c.a + b) as u8, (c.a ^ (3 * b)) as u8))?;
        }
        Ok(Obs::nt(c.a > 1).n(30 * c.r as u64))
    }
    fn exs(t: Tier) -> Vec<RA> {
        let lim = if t == Tier::Quick { 31 } else { 131 };
        small_primes().iter().filter(|r| **r <= lim).flat_map(|&r| (0..r).map(move |a| RA { r, a })).collect()
    }
    Property {
        id: "C08",
        rule: "prime orders (small, word-boundary, curve orders, random) and integer recipes of any sign and size, on all three models; non-trivial: both scalars outside {0,1}; exhaustive clause: every pair of scalars of small orders",
        assumptions: &["num-bigint integer arithmetic"],
        clauses: vec![
            en("exhaustive-weierstrass", exs, ex::<W>),
            en("exhaustive-montgomery", exs, ex::<M>),
            en("exhaustive-edwards", exs, ex::<E>),
            pt("weierstrass", 12000, 250000, s, scalar_case::<W>),
            pt("montgomery", 12000, 250000, s, scalar_case::<M>),
            pt("edwards", 12000, 250000, s, scalar_case::<E>),
            pt("numerators", 1500, 30000, s, |c: &ScC| {
                shorthand_num::<W>(c)?;
                shorthand_num::<M>(c)?;
                shorthand_num::<E>(c)
            }),
            pt("from-curve", 3000, 60000, || {
                let any = (1, 1, 2);
                let n = prop_oneof![
                    curve_name::<W>(any, |_| true).prop_map(|c| (0u8, c)),
                    curve_name::<M>(any, |_| true).prop_map(|c| (1u8, c)),
                    curve_name::<E>(any, |_| true).prop_map(|c| (2u8, c))
                ];
                (n, any_int(), any_int()).prop_map(|((m, c), a, b)| CurveSc { m, c, a, b }).boxed()
            }, |c: &CurveSc| match c.m {
                0 => curve_scalar::<W>(c),
                1 => curve_scalar::<M>(c),
                _ => curve_scalar::<E>(c),
            }),
        ],
    }
}

// ---------------------------------------------------------------- C09, C10, C11
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pair {
    pub c: String,
    pub p: PtR,
    pub q: RelR,
    pub rp: u8,
    pub rq: u8,
}
pub fn pair_s<M: Model>(wt: (u32, u32, u32), ok: fn(&World<M>) -> bool) -> BoxedStrategy<Pair> {
    (curve_name::<M>(wt, ok), pt_r(), rel_r(), 0u8..23, 0u8..23).prop_map(|(c, p, q, rp, rq)| Pair { c, p, q, rp, rq }).boxed()
}
fn laws<M: Model>(w: &World<M>, c: &M::C, a: &M::P, b: &M::P, p: &RP, q: &RP) -> Result<(), String> {
    let s = &w.s;
    for (i, g) in M::adds(a, b).iter().enumerate() {
        is_pt(w, c, &format!("P+Q (operand form {i}) P={} Q={}", show(p), show(q)), g, &s.add(p, q))?;
    }
    for (i, g) in M::subs(a, b).iter().enumerate() {
        is_pt(w, c, &format!("P-Q (operand form {i}) P={} Q={}", show(p), show(q)), g, &s.sub(p, q))?;
    }
    for (i, g) in M::negs(a).iter().enumerate() {
        is_pt(w, c, &format!("-P (operand form {i}) P={}", show(p)), g, &s.neg(p))?;
    }
    is_pt(w, c, &format!("P+P P={}", show(p)), &M::adds(a, a)[0], &s.add(p, p))?;
    is_pt(w, c, &format!("P-P P={}", show(p)), &M::subs(a, a)[0], &s.zero())
}
fn group_case<M: Model>(k: &Pair) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = w.pt(&k.p);
    let q = w.rel(&p, &k.q);
    let (a, b) = (w.rep(&c, &p, k.rp), w.rep(&c, &q, k.rq));
    laws(w, &c, &a, &b, &p, &q)?;
    let o = w.s.zero();
    let is_z1 = |x: &M::P| coords(x).map(|m| m.get("z").map_or(true, |v| v.is_one())).unwrap_or(false);
    Ok(Obs::nt(p != o && q != o).n(11)
        .lif(p == q, "equal").lif(p == w.s.neg(&q), "opposite").lif(p == o || q == o, "identity involved")
        .lif(!is_z1(&a) && !is_z1(&b), "both unnormalized").lif(w.toy(), "toy curve").lif(w.s.builtin, "built-in curve")
        .lif(matches!(k.q, RelR::PlusSy(..)), "difference with small y")
        .lif(w.low().len() > 1 && w.low().contains(&p), "low order"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ex {
    pub c: String,
    pub i: usize,
}
/// one case per point of each toy curve over the tiny primes (and a few larger ones)
pub fn all_points<M: Model>(t: Tier, quick: i64, thorough: i64) -> Vec<Ex> {
    let lim = z(if t == Tier::Quick { quick } else { thorough });
    M::worlds()
        .v
        .iter()
        .filter(|w| w.s.p <= lim)
        .flat_map(|w| (0..w.all().len()).map(move |i| Ex { c: w.s.name.clone(), i }))
        .collect()
}
fn group_ex<M: Model>(k: &Ex) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let all = w.all();
    let p = &all[k.i];
    let a = w.mk(&c, p);
    for (j, q) in all.iter().enumerate() {
        let b = w.rep(&c, q, ((k.i + j) % 10) as u8);
        laws(w, &c, &a, &b, p, q)?;
    }
    Ok(Obs::nt(p != &w.s.zero()).n(12 * all.len() as u64))
}
fn group<M: Model>(id: &'static str, quick: u32, lim: i64, extra: Vec<Clause>) -> Property {
    let mut clauses = vec![
        en("exhaustive-toy-curves", move |t| all_points::<M>(t, lim, 61), group_ex::<M>),
        pt("pairs", quick, quick * 25, || pair_s::<M>((3, 3, 5), |_| true), group_case::<M>),
    ];
    clauses.extend(extra);
    Property {
        id,
        rule: "curves (toy, word-boundary primes, standard), point recipes (identity, generator multiples, lifted points, low-order, small-y), related second operands, ten representation changes on each; non-trivial: neither operand is the identity; exhaustive clause: every pair of points of every listed toy curve",
        assumptions: &["affine textbook group law over num-bigint", "projective coordinates are read from the points' Display output"],
        clauses,
    }
}
pub fn c09() -> Property {
    group::<W>("C09", 12000, 17, vec![])
}
/// built-in Montgomery curves: the difference that degenerates the formula is no point of the curve
fn mont_s(k: &Pair) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = w.pt(&k.p);
    let mut n = 0;
    // every point with |y| <= 20 as the difference
    let lo = k.rp as i64 % 20;
    for y in [lo, -lo] {
        for d in points_with_y(&w.s, &z(y)) {
            let q = w.s.add(&p, &d);
            let (a, b) = (w.mk(&c, &p), w.rep(&c, &q, k.rq));
            laws(w, &c, &a, &b, &p, &q)?;
            n += 1;
        }
    }
    Ok(Obs::nt(n > 0).n(12 * n))
}
pub fn c10() -> Property {
    group::<M>("C10", 10000, 13, vec![pt("built-in-small-y-differences", 400, 6000, || pair_s::<M>((0, 0, 1), |w| w.s.builtin), mont_s)])
}
pub fn c11() -> Property {
    group::<E>("C11", 10000, 17, vec![])
}

// ---------------------------------------------------------------- C12
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MulC {
    c: String,
    p: PtR,
    q: PtR,
    k: AnyInt,
    l: IntR,
    rp: u8,
    form: u8,
}
fn mul_s<M: Model>(wt: (u32, u32, u32)) -> BoxedStrategy<MulC> {
    (curve_name::<M>(wt, |_| true), pt_r(), pt_r(), any_int(), int_r(), 0u8..20, 0u8..7)
        .prop_map(|(c, p, q, k, l, rp, form)| MulC { c, p, q, k, l, rp, form })
        .boxed()
}
fn mul_case<M: Model>(m: &MulC) -> Res {
    let w = w::<M>(&m.c);
    let c = w.curve();
    let r = &w.s.r;
    let p = w.pt(&m.p);
    let a = w.rep(&c, &p, m.rp);
    let raw = m.k.ev(r);
    let k = md(&raw, r);
    let s = c.new_scalar(raw.clone());
    let got = M::mul(m.form as usize, &a, &s);
    is_pt(w, &c, &format!("k*P (operand form {}) k={k} P={}", m.form, show(&p)), &got, &w.s.mul(&p, &k))?;
    if w.toy() {
        for f in 0..M::MULS {
            is_pt(w, &c, &format!("k*P (operand form {f}) k={k} P={}", show(&p)), &M::mul(f, &a, &s), &w.s.mul(&p, &k))?;
        }
    }
    Ok(Obs::nt(k > z(1) && p != w.s.zero()).n(if w.toy() { 7 } else { 0 })
        .lif(k.is_zero(), "scalar zero").lif(k.is_one(), "scalar one").lif(&k + 1 == *r, "scalar -1").lif(raw != k, "scalar reduced")
        .lif(k.bits() % 32 == 0 && nz(&k), "full top digit").lif(p == w.s.zero(), "identity").lif(w.low().len() > 1 && w.low().contains(&p), "low order")
        .lif(w.s.builtin, "built-in curve"))
}
fn lin_case<M: Model>(m: &MulC) -> Res {
    let w = w::<M>(&m.c);
    let c = w.curve();
    let r = &w.s.r;
    let h = if w.s.ordered { &w.s.h } else { return Ok(Obs::nt(false)) };
    // points of order r: cofactor multiples
    let p = w.s.mul(&w.pt(&m.p), h);
    let q = w.s.mul(&w.pt(&m.q), h);
    let k = md(&m.k.ev(r), r);
    let l = m.l.e(r);
    let (sk, sl) = (c.new_scalar(k.clone()), c.new_scalar(l.clone()));
    let a = w.rep(&c, &p, m.rp);
    let b = w.rep(&c, &q, m.rp / 2);
    let mul = |x: &M::P, s: &M::S| M::mul(m.form as usize, x, s);
    let add = |x: &M::P, y: &M::P| M::adds(x, y).swap_remove(0);
    let ctx = || format!("{}: k={k} l={l} P={} Q={}", w.s.name, show(&p), show(&q));
    let kp = mul(&a, &sk);
    ensure!(mul(&a, &M::s_add(&sk, &sl)[0]) == add(&kp, &mul(&a, &sl)), "(k+l)P != kP+lP, {}", ctx());
    if w.toy() || m.form % 2 == 0 {
        ensure!(mul(&add(&a, &b), &sk) == add(&kp, &mul(&b, &sk)), "k(P+Q) != kP+kQ, {}", ctx());
        ensure!(mul(&kp, &sl) == mul(&a, &M::s_mul(&sk, &sl)[0]), "l(kP) != (kl)P, {}", ctx());
    } else {
        ensure!(mul(&a, &c.new_scalar(z(-1))) == M::negs(&a)[0], "(r-1)P != -P, {}", ctx());
        let cong = c.new_scalar(&k + r * (1 + m.rp as i64) * if m.rp % 2 == 0 { 1 } else { -1 });
        ensure!(mul(&a, &cong) == kp, "congruent scalars differ, {}", ctx());
        ensure!(mul(&a, &c.new_scalar(z(0))).is_zero(), "0*P != O, {}", ctx());
        ensure!(mul(&a, &c.new_scalar(z(1))) == a, "1*P != P, {}", ctx());
    }
    Ok(Obs::nt(k > z(1) && p != w.s.zero()).n(2))
}
fn mul_ex<M: Model>(k: &Ex) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = &w.all()[k.i];
    let a = w.rep(&c, p, (k.i % 10) as u8);
    let mut acc = w.s.zero();
    let r = u64::try_from(&w.s.r).unwrap();
    for n in 0..r {
        let s = c.new_scalar(BigInt::from(n));
        is_pt(w, &c, &format!("{n}*{}", show(p)), &M::mul(n as usize, &a, &s), &acc)?;
        acc = w.s.add(&acc, p);
    }
    Ok(Obs::nt(p != &w.s.zero()).n(r))
}
pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "curves of all models, point recipes in ten representations, integer recipes of any sign and size as scalars, seven operand forms; non-trivial: scalar > 1 and point not the identity; exhaustive clause: every point of toy curves times every scalar; linearity clause on points of order r",
        assumptions: &["right-to-left affine double-and-add as reference; repeated addition in the exhaustive clauses"],
        clauses: vec![
            en("exhaustive-weierstrass", |t| all_points::<W>(t, 13, 61), mul_ex::<W>),
            en("exhaustive-montgomery", |t| all_points::<M>(t, 23, 61), mul_ex::<M>),
            en("exhaustive-edwards", |t| all_points::<E>(t, 23, 61), mul_ex::<E>),
            pt("weierstrass", 3000, 60000, || mul_s::<W>((5, 2, 4)), mul_case::<W>),
            pt("montgomery", 2000, 40000, || mul_s::<M>((5, 2, 4)), mul_case::<M>),
            pt("edwards", 2000, 40000, || mul_s::<E>((5, 2, 4)), mul_case::<E>),
            pt("linear-weierstrass", 900, 16000, || mul_s::<W>((3, 0, 1)), lin_case::<W>),
            pt("linear-montgomery", 600, 10000, || mul_s::<M>((3, 0, 1)), lin_case::<M>),
            pt("linear-edwards", 600, 10000, || mul_s::<E>((3, 0, 1)), lin_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C13
fn eq_case<M: Model>(k: &Pair) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let c2 = w.curve();
    let p = w.pt(&k.p);
    let q = w.rel(&p, &k.q);
    let (a, b) = (w.rep(&c, &p, k.rp), w.rep(&c2, &q, k.rq));
    ensure!((a == b) == (p == q), "{}: {} == {} is {}", w.s.name, show(&p), show(&q), a == b);
    ensure!((b == a) == (p == q), "{}: {} == {} is {} (swapped)", w.s.name, show(&q), show(&p), b == a);
    ensure!((a != b) == (p != q), "{}: !=", w.s.name);
    #[allow(clippy::eq_op)]
    let same = a == a;
    ensure!(same && a == a.clone(), "{}: {} is not equal to itself", w.s.name, show(&p));
    let o = c.identity();
    for (x, v) in [(&a, &p), (&b, &q)] {
        let zero = v == &w.s.zero();
        ensure!(x.is_zero() == zero, "{}: is_zero({}) = {} for {x}", w.s.name, show(v), x.is_zero());
        ensure!((x == &o) == zero && (&o == x) == zero, "{}: {} == identity is {}", w.s.name, show(v), x == &o);
        let mut n = x.clone();
        M::norm(&mut n);
        is_pt(w, &c, &format!("normalize({x})"), &n, v)?;
        ensure!(&n == x && x == &n, "{}: normalize changes {x} into {n}", w.s.name);
        ensure!(n.is_zero() == zero, "{}: is_zero of normalized {}", w.s.name, show(v));
        let t = n.to_string();
        M::norm(&mut n);
        ensure!(n.to_string() == t, "{}: normalize is not idempotent: {t} then {n}", w.s.name);
        if zero == (p == w.s.zero()) {
            // textual identity of equal points
            let mut u = w.mk(&c2, v);
            M::norm(&mut u);
            ensure!(u.to_string() == t, "{}: normalized equal points print differently: {u} and {t}", w.s.name);
        }
    }
    let diff = a.to_string() != b.to_string();
    Ok(Obs::nt(p != q || diff).n(16).lif(p == q && diff, "equal, different coordinates")
        .lif(p == w.s.zero(), "identity").lif(p == w.s.neg(&q) && p != q, "opposite").lif(p != q, "unequal"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cross {
    c: String,
    d: String,
    p: PtR,
    q: PtR,
    rp: u8,
    field_change: u8,
}
/// same field, one coefficient changed, everything else as in `s`
pub fn variant<M: Model>(s: &Spec, n: u8) -> World<M> {
    let mut v = s.clone();
    v.builtin = false;
    v.ordered = false;
    v.name = format!("{}+{n}", s.name);
    let mut d = 1 + (n as i64 / 2);
    loop {
        let (a, b) = if n % 2 == 0 { (md(&(&s.a + d), &s.p), s.b.clone()) } else { (s.a.clone(), md(&(&s.b + d), &s.p)) };
        d += 1;
        let p = &s.p;
        let ok = match s.kind {
            Kind::W => !md(&(z(4) * &a * &a * &a + z(27) * &b * &b), p).is_zero(),
            Kind::M => nz(&b) && !md(&(&a * &a - 4), p).is_zero(),
            Kind::E => nz(&a) && nz(&b) && a != b,
        };
        if ok && (a != s.a || b != s.b) {
            v.a = a;
            v.b = b;
            return World::of(v);
        }
        assert!(d < 4000);
    }
}
fn cross_case<M: Model>(k: &Cross) -> Res {
    let w1 = w::<M>(&k.c);
    let var;
    let w2 = if k.field_change % 2 == 0 {
        w::<M>(&k.d)
    } else {
        var = variant::<M>(&w1.s, k.field_change);
        &var
    };
    let (c1, c2) = (w1.curve(), w2.curve());
    let same = w1.s.name == w2.s.name;
    let p = w1.pt(&k.p);
    let q = if w2.s.name.contains('+') {
        // the same coordinates when they also lie on the other curve
        if w2.s.on_rp(&p) { p.clone() } else { w2.s.zero() }
    } else {
        w2.pt(&k.q)
    };
    let a = w1.rep(&c1, &p, k.rp);
    let b = w2.mk(&c2, &q);
    let want = same && p == q;
    let r1 = attempt(|| a == b).ok_or_else(|| format!("comparing a point of {} with one of {} panicked: {}", w1.s.name, w2.s.name, last_panic()))?;
    let r2 = attempt(|| b == a).ok_or_else(|| format!("comparing a point of {} with one of {} panicked: {}", w2.s.name, w1.s.name, last_panic()))?;
    ensure!(r1 == want && r2 == want, "{} {} == {} {}: {r1}", w1.s.name, show(&p), w2.s.name, show(&q));
    Ok(Obs::nt(!same).n(1).lif(w1.s.p == w2.s.p && !same, "same field").lif(p == q && !same, "same coordinates"))
}
fn cross_s<M: Model>() -> BoxedStrategy<Cross> {
    (curve_name::<M>((3, 1, 4), |_| true), curve_name::<M>((3, 1, 4), |_| true), pt_r(), pt_r(), 0u8..20, 0u8..20)
        .prop_map(|(c, d, p, q, rp, field_change)| Cross { c, d, p, q, rp, field_change })
        .boxed()
}
fn eq_ex<M: Model>(k: &Ex) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let all = w.all();
    let p = &all[k.i];
    let a = w.rep(&c, p, (k.i % 10) as u8);
    ensure!(a.is_zero() == (p == &w.s.zero()), "{}: is_zero({}) = {}", w.s.name, show(p), a.is_zero());
    for (j, q) in all.iter().enumerate() {
        let b = w.rep(&c, q, ((k.i + j) % 9 + 1) as u8);
        ensure!((a == b) == (j == k.i), "{}: {} == {} is {}", w.s.name, show(p), show(q), a == b);
    }
    Ok(Obs::nt(true).n(all.len() as u64))
}
pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "pairs of points of one curve in independent representations and instances (equal, opposite, low-order, identity) and pairs of points of different curves (other field, or one coefficient changed); non-trivial: unequal points, or equal points with different coordinates; exhaustive clause: every pair of toy-curve points",
        assumptions: &["projective coordinates are read from the points' Display output"],
        clauses: vec![
            en("exhaustive-weierstrass", |t| all_points::<W>(t, 13, 61), eq_ex::<W>),
            en("exhaustive-montgomery", |t| all_points::<M>(t, 23, 61), eq_ex::<M>),
            en("exhaustive-edwards", |t| all_points::<E>(t, 23, 61), eq_ex::<E>),
            pt("weierstrass", 6000, 120000, || pair_s::<W>((3, 2, 5), |_| true), eq_case::<W>),
            pt("montgomery", 6000, 120000, || pair_s::<M>((3, 2, 5), |_| true), eq_case::<M>),
            pt("edwards", 6000, 120000, || pair_s::<E>((3, 2, 5), |_| true), eq_case::<E>),
            pt("cross-weierstrass", 2500, 50000, cross_s::<W>, cross_case::<W>),
            pt("cross-montgomery", 2500, 50000, cross_s::<M>, cross_case::<M>),
            pt("cross-edwards", 2500, 50000, cross_s::<E>, cross_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C14
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Bend {
    None,
    SetY(IntR),
    SetX(IntR),
    AddX(i8),
    AddY(i8),
    Swap,
    NegX,
    NegY,
    Both(IntR, IntR),
    ScaleBoth(u8),
    /// a point of the curve with another coefficient
    Other(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NewPt {
    c: String,
    p: PtR,
    bend: Bend,
    rp: u8,
    var: u8,
}
fn newpt_s<M: Model>() -> BoxedStrategy<NewPt> {
    let bend = prop_oneof![
        3 => Just(Bend::None),
        2 => int_r().prop_map(Bend::SetY),
        2 => int_r().prop_map(Bend::SetX),
        2 => (-3i8..=3).prop_map(Bend::AddX),
        2 => (-3i8..=3).prop_map(Bend::AddY),
        1 => Just(Bend::Swap),
        1 => Just(Bend::NegX),
        1 => Just(Bend::NegY),
        2 => (int_r(), int_r()).prop_map(|(a, b)| Bend::Both(a, b)),
        1 => (2u8..6).prop_map(Bend::ScaleBoth),
        2 => (0u8..12).prop_map(Bend::Other),
    ];
    (curve_name::<M>((3, 2, 4), |_| true), pt_r(), bend, 0u8..20, 0u8..12).prop_map(|(c, p, bend, rp, var)| NewPt { c, p, bend, rp, var }).boxed()
}
fn try_new<M: Model>(w: &World<M>, c: &M::C, x: &Z, y: &Z) -> Result<bool, String> {
    let f = c.get_field();
    let on = w.s.on(x, y);
    match attempt(|| c.new_point(fe(&f, x), fe(&f, y))) {
        Some(pt) => {
            ensure!(on, "{}: new_point accepted ({x}, {y}), not on the curve", w.s.name);
            is_pt(w, c, "new_point", &pt, &Some((x.clone(), y.clone())))?;
        }
        None => ensure!(!on, "{}: new_point refused ({x}, {y}), which is on the curve: {}", w.s.name, last_panic()),
    }
    Ok(on)
}
fn new_case<M: Model>(k: &NewPt) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = &w.s.p;
    let base = match w.pt(&k.p) {
        None => w.s.gen(),
        t => t,
    };
    let (x, y) = base.clone().unwrap();
    let (x, y) = match &k.bend {
        Bend::None => (x, y),
        Bend::SetY(v) => (x, v.e(p)),
        Bend::SetX(v) => (v.e(p), y),
        Bend::AddX(d) => (md(&(x + *d), p), y),
        Bend::AddY(d) => (x, md(&(y + *d), p)),
        Bend::Swap => (y, x),
        Bend::NegX => (md(&-x, p), y),
        Bend::NegY => (x, md(&-y, p)),
        Bend::Both(a, b) => (a.e(p), b.e(p)),
        Bend::ScaleBoth(n) => (md(&(x * *n), p), md(&(y * *n), p)),
        Bend::Other(n) => {
            let v = variant::<M>(&w.s, *n);
            v.s.lift_next(&x, false).unwrap_or_else(|| (z(0), z(0)))
        }
    };
    let on = try_new(w, &c, &x, &y)?;
    // membership of valid points in any representation
    let q = w.pt(&k.p);
    let a = w.rep(&c, &q, k.rp);
    ensure!(c.is_on_curve(&a) && w.curve().is_on_curve(&a), "{}: is_on_curve false for {a}", w.s.name);
    // rejection of points that satisfy only another curve's equation
    let v = variant::<M>(&w.s, k.var);
    let mut rejected = false;
    if let Some((x, y)) = v.s.lift_next(&md(&(&base.unwrap().0 + k.rp), p), k.rp % 2 == 0) {
        if !w.s.on(&x, &y) {
            let vc = v.curve();
            let t = Some((x, y));
            let f = vc.get_field();
            let t0 = {
                let (x, y) = t.clone().unwrap();
                vc.new_point(fe(&f, &x), fe(&f, &y))
            };
            ensure!(!c.is_on_curve(&t0), "{}: accepts the point {} of {}", w.s.name, show(&t), v.s.name);
            // same, unnormalized (only where the other curve's formulas are complete enough)
            if let Some(u) = attempt(|| {
                let d = M::adds(&t0, &t0).swap_remove(0);
                M::subs(&d, &t0).swap_remove(0)
            }) {
                if v.aff(&u).as_ref() == Ok(&t) {
                    ensure!(!c.is_on_curve(&u), "{}: accepts {u} of {}", w.s.name, v.s.name);
                }
            }
            rejected = true;
        }
    }
    Ok(Obs::nt(true).n(4).lif(on, "on the curve").lif(!on, "off the curve").lif(rejected, "point of another curve"))
}
fn new_ex<M: Model>(k: &Ex) -> Res {
    // every coordinate pair with the i-th x
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = i64::try_from(&w.s.p).unwrap();
    if k.i as i64 >= p {
        return Ok(Obs::nt(false));
    }
    for y in 0..p {
        try_new(w, &c, &z(k.i as i64), &z(y))?;
    }
    Ok(Obs::nt(true).n(p as u64))
}
fn xs<M: Model>(t: Tier, q: i64, th: i64) -> Vec<Ex> {
    let lim = z(if t == Tier::Quick { q } else { th });
    M::worlds().v.iter().filter(|w| w.s.p <= lim).flat_map(|w| (0..i64::try_from(&w.s.p).unwrap()).map(move |i| Ex { c: w.s.name.clone(), i: i as usize })).collect()
}
pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "coordinates of curve points and of near misses (one coordinate changed, swapped, negated, scaled, taken from a curve with another coefficient, random); membership of points in ten representations and of points of other curves; non-trivial: every generated pair; exhaustive clause: every coordinate pair of toy curves",
        assumptions: &["the curve equation over num-bigint"],
        clauses: vec![
            en("exhaustive-weierstrass", |t| xs::<W>(t, 17, 61), new_ex::<W>),
            en("exhaustive-montgomery", |t| xs::<M>(t, 23, 61), new_ex::<M>),
            en("exhaustive-edwards", |t| xs::<E>(t, 23, 61), new_ex::<E>),
            pt("weierstrass", 8000, 160000, newpt_s::<W>, new_case::<W>),
            pt("montgomery", 8000, 160000, newpt_s::<M>, new_case::<M>),
            pt("edwards", 8000, 160000, newpt_s::<E>, new_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C15
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct OneP {
    c: String,
    p: PtR,
    rp: u8,
}
fn one_s<M: Model>() -> BoxedStrategy<OneP> {
    (curve_name::<M>((3, 2, 5), |_| true), pt_r(), 0u8..20).prop_map(|(c, p, rp)| OneP { c, p, rp }).boxed()
}
fn enc_check<M: Model>(w: &World<M>, c: &M::C, a: &M::P, p: &RP) -> Result<(), String> {
    for comp in [false, true] {
        let want = w.s.encode(p, comp);
        let got = a.encode(comp);
        ensure!(got == want, "{}: encode({}, compress={comp}) = {}, expected {}", w.s.name, show(p), hex(&got), hex(&want));
        let needs_root = w.s.kind == Kind::E || (comp && p.is_some());
        if w.not1mod8() || !needs_root {
            match c.decode(&got) {
                Ok(d) => {
                    is_pt(w, c, &format!("decode({})", hex(&got)), &d, p)?;
                    ensure!(&d == a, "{}: decoded point != original {}", w.s.name, show(p));
                }
                Err(e) => return Err(format!("{}: decode({}) = error {e}", w.s.name, hex(&got))),
            }
        }
    }
    Ok(())
}
fn enc_case<M: Model>(k: &OneP) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = w.pt(&k.p);
    let a = w.rep(&c, &p, k.rp);
    let before = a.to_string();
    enc_check(w, &c, &a, &p)?;
    ensure!(a.to_string() == before, "encode changed the point");
    let o = w.s.zero();
    let z1 = coords(&a)?.get("z").map_or(true, |v| v.is_one());
    let lead = p.as_ref().map_or(false, |(x, y)| x.bits() + 8 <= w.s.p.bits() || y.bits() + 8 <= w.s.p.bits());
    Ok(Obs::nt(p != o).n(7).lif(p == o, "identity").lif(!z1, "unnormalized").lif(lead, "leading zero byte")
        .lif(w.s.builtin, "built-in curve").lif(p.as_ref().map_or(false, |(x, y)| x.is_zero() || y.is_zero()), "zero coordinate"))
}
fn enc_ex<M: Model>(k: &Ex) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let p = &w.all()[k.i];
    for rep in 0..10 {
        enc_check(w, &c, &w.rep(&c, p, rep), p)?;
    }
    Ok(Obs::nt(p != &w.s.zero()).n(70))
}
pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "points of all models and curve sizes (identity, low-order, zero coordinates, short coordinates with leading zero bytes) in ten representations, both forms; non-trivial: point not the identity; exhaustive clause: every point of toy curves in every representation",
        assumptions: &["the layout stated in the property, written out over num-bigint"],
        clauses: vec![
            en("exhaustive-weierstrass", |t| all_points::<W>(t, 23, 130), enc_ex::<W>),
            en("exhaustive-montgomery", |t| all_points::<M>(t, 31, 130), enc_ex::<M>),
            en("exhaustive-edwards", |t| all_points::<E>(t, 31, 130), enc_ex::<E>),
            pt("weierstrass", 8000, 160000, one_s::<W>, enc_case::<W>),
            pt("montgomery", 8000, 160000, one_s::<M>, enc_case::<M>),
            pt("edwards", 8000, 160000, one_s::<E>, enc_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C16
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Mut {
    Flip(u16, u8),
    Set(u16, u8),
    Trunc(u16),
    Push(u8),
    Insert(u16, u8),
    Del(u16),
    Tag(u8),
    /// add k*p to a coordinate (when it still fits): non-canonical
    AddP(u8, u8),
    /// replace a coordinate
    Coord(u8, IntR, i8),
    Neg(u8),
    FlipLast(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum BytesR {
    Raw(Vec<u8>),
    /// tag and raw coordinates, in the right length
    Fields(u8, IntR, i8, IntR, i8, bool),
    Enc(PtR, bool, Vec<Mut>),
    /// right length, constant filling
    Fill(u8, u8, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DecC {
    c: String,
    b: BytesR,
}
fn tag() -> BoxedStrategy<u8> {
    prop_oneof![5 => 0u8..=7, 1 => any::<u8>(), 1 => Just(0x80u8)].boxed()
}
fn dec_s<M: Model>(wt: (u32, u32, u32)) -> BoxedStrategy<DecC> {
    let m = prop_oneof![
        2 => (any::<u16>(), 0u8..8).prop_map(|(i, b)| Mut::Flip(i, b)),
        2 => (any::<u16>(), prop_oneof![Just(0u8), Just(0xff), any::<u8>()]).prop_map(|(i, b)| Mut::Set(i, b)),
        1 => any::<u16>().prop_map(Mut::Trunc),
        1 => any::<u8>().prop_map(Mut::Push),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Mut::Insert(i, b)),
        1 => any::<u16>().prop_map(Mut::Del),
        3 => tag().prop_map(Mut::Tag),
        2 => (0u8..2, 1u8..3).prop_map(|(i, k)| Mut::AddP(i, k)),
        3 => (0u8..2, int_r(), -2i8..=2).prop_map(|(i, v, d)| Mut::Coord(i, v, d)),
        1 => (0u8..2).prop_map(Mut::Neg),
        2 => (0u8..8).prop_map(Mut::FlipLast),
    ];
    let b = prop_oneof![
        2 => proptest::collection::vec(prop_oneof![Just(0u8), Just(4), Just(2), Just(0xff), any::<u8>()], 0..6).prop_map(BytesR::Raw),
        1 => proptest::collection::vec(any::<u8>(), 0..140).prop_map(BytesR::Raw),
        4 => (tag(), int_r(), -2i8..=2, int_r(), -2i8..=2, any::<bool>()).prop_map(|(t, x, dx, y, dy, l)| BytesR::Fields(t, x, dx, y, dy, l)),
        6 => (pt_r(), any::<bool>(), proptest::collection::vec(m, 0..3)).prop_map(|(p, c, m)| BytesR::Enc(p, c, m)),
        1 => (tag(), prop_oneof![Just(0u8), Just(0xff), any::<u8>()], 0u8..4).prop_map(|(t, b, l)| BytesR::Fill(t, b, l)),
    ];
    (curve_name::<M>(wt, |w| w.not1mod8()), b).prop_map(|(c, b)| DecC { c, b }).boxed()
}
fn fit(v: &Z, n: usize) -> Vec<u8> {
    be(&md(v, &(Z::one() << (8 * n))), n)
}
/// the coordinate slots of an encoding, as byte ranges, and whether they are little-endian
fn slots(s: &Spec, len: usize) -> Vec<std::ops::Range<usize>> {
    let n = s.flen();
    if s.kind == Kind::E {
        vec![0..len]
    } else if len == 2 * n + 1 {
        vec![1..n + 1, n + 1..2 * n + 1]
    } else if len == n + 1 {
        vec![1..n + 1]
    } else {
        vec![]
    }
}
fn rd(b: &[u8], le: bool) -> Z {
    use num_bigint::Sign;
    if le {
        Z::from_bytes_le(Sign::Plus, b)
    } else {
        Z::from_bytes_be(Sign::Plus, b)
    }
}
fn wr(b: &mut [u8], v: &Z, le: bool) {
    let mut t = fit(v, b.len());
    if le {
        t.reverse();
    }
    b.copy_from_slice(&t);
}
fn bytes_of<M: Model>(w: &World<M>, r: &BytesR) -> Vec<u8> {
    let s = &w.s;
    let n = s.flen();
    let le = s.kind == Kind::E;
    let elen = (s.p.bits() as usize + 8) / 8;
    match r {
        BytesR::Raw(b) => b.clone(),
        BytesR::Fill(t, b, l) => {
            let len = match (le, l % 4) {
                (true, 0) => elen + 1,
                (true, 1) => elen - 1,
                (true, _) => elen,
                (_, 0) => 1,
                (_, 1) => n + 1,
                (_, 2) => 2 * n + 1,
                _ => n,
            };
            let mut v = vec![*b; len];
            if !le && len > 0 {
                v[0] = *t;
            }
            v
        }
        BytesR::Fields(t, x, dx, y, dy, long) => {
            let sp = [s.p.clone(), z(0), s.gx.clone(), s.gy.clone()];
            let xv = x.raw(&s.p, &sp) + *dx;
            let yv = y.raw(&s.p, &sp) + *dy;
            if le {
                let mut b = vec![0; elen];
                wr(&mut b, &yv, true);
                if *t >= 4 {
                    b[elen - 1] |= 0x80;
                } else if *t >= 2 {
                    b[elen - 1] &= 0x7f;
                }
                b
            } else {
                let mut b = vec![*t];
                b.extend(fit(&xv, n));
                if *long {
                    b.extend(fit(&yv, n));
                }
                b
            }
        }
        BytesR::Enc(p, c, muts) => {
            let mut b = s.encode(&w.pt(p), *c);
            for m in muts {
                let l = b.len();
                let at = |i: u16| i as usize % l.max(1);
                match m {
                    Mut::Flip(i, k) if l > 0 => b[at(*i)] ^= 1 << k,
                    Mut::Set(i, v) if l > 0 => b[at(*i)] = *v,
                    Mut::Trunc(i) if l > 0 => b.truncate(at(*i)),
                    Mut::Push(v) => b.push(*v),
                    Mut::Insert(i, v) => b.insert(at(*i), *v),
                    Mut::Del(i) if l > 0 => {
                        b.remove(at(*i));
                    }
                    Mut::Tag(t) if l > 0 => {
                        if le {
                            b[l - 1] ^= 0x80
                        } else {
                            b[0] = *t
                        }
                    }
                    Mut::FlipLast(k) if l > 0 => b[l - 1] ^= 1 << k,
                    Mut::AddP(i, _) | Mut::Coord(i, ..) | Mut::Neg(i) => {
                        let sl = slots(s, l);
                        if l == 0 || sl.is_empty() {
                            continue;
                        }
                        let rg = sl[*i as usize % sl.len()].clone();
                        let top = if le { b[l - 1] & 0x80 } else { 0 };
                        let mut cur = b[rg.clone()].to_vec();
                        if le {
                            *cur.last_mut().unwrap() &= 0x7f;
                        }
                        let v = rd(&cur, le);
                        let v = match m {
                            Mut::AddP(_, k) => v + &s.p * *k,
                            Mut::Coord(_, r, d) => r.e(&s.p) + *d,
                            _ => &s.p - v,
                        };
                        if v.is_negative() {
                            continue;
                        }
                        wr(&mut b[rg], &v, le);
                        if le {
                            b[l - 1] |= top;
                        }
                    }
                    _ => {}
                }
            }
            b
        }
    }
}
fn dec_check<M: Model>(w: &World<M>, c: &M::C, b: &[u8]) -> Result<bool, String> {
    let want = w.s.decode(b);
    let got = attempt(|| c.decode(b)).ok_or_else(|| format!("{}: decode({}) panicked: {}", w.s.name, hex(b), last_panic()))?;
    match (got, &want) {
        (Ok(p), Some(q)) => {
            is_pt(w, c, &format!("decode({})", hex(b)), &p, q)?;
            ensure!([false, true].iter().any(|&k| p.encode(k) == b), "{}: {} does not re-encode to itself", w.s.name, hex(b));
        }
        (Err(_), None) => {}
        (Ok(p), None) => return Err(format!("{}: decode({}) accepts a non-canonical or invalid string as {p}", w.s.name, hex(b))),
        (Err(e), Some(q)) => return Err(format!("{}: decode({}) refuses the encoding of {}: {e}", w.s.name, hex(b), show(q))),
    }
    Ok(want.is_some())
}
fn dec_case<M: Model>(k: &DecC) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let b = bytes_of(w, &k.b);
    let ok = dec_check(w, &c, &b)?;
    let n = w.s.flen();
    let right_len = if w.s.kind == Kind::E { b.len() == (w.s.p.bits() as usize + 8) / 8 } else { [1, n + 1, 2 * n + 1].contains(&b.len()) };
    Ok(Obs::nt(right_len).n(1).lif(ok, "valid").lif(!ok && right_len, "invalid, right length").lif(!right_len, "wrong length").lif(b.is_empty(), "empty").lif(w.s.builtin, "built-in curve"))
}
fn dec_ex<M: Model>(k: &Ex) -> Res {
    // toy curves with one-byte coordinates: every string of length 0..2 and, for curves with
    // sec1-style encodings, every three-byte string with an interesting tag, sharded by first byte
    let w = w::<M>(&k.c);
    let c = w.curve();
    let t = k.i as u8;
    let mut n = 0u64;
    if t == 0 {
        dec_check(w, &c, &[])?;
    }
    dec_check(w, &c, &[t])?;
    for x in 0..=255u8 {
        dec_check(w, &c, &[t, x])?;
        n += 1;
    }
    let lim = u32::try_from(&w.s.p).unwrap().min(252) as u8;
    if w.s.kind != Kind::E && t < 6 {
        for x in 0..lim + 3 {
            for y in 0..lim + 3 {
                dec_check(w, &c, &[t, x, y])?;
                n += 1;
            }
        }
    }
    Ok(Obs::nt(true).n(n))
}
fn dec_xs<M: Model>(t: Tier) -> Vec<Ex> {
    let lim = z(if t == Tier::Quick { 31 } else { 251 });
    let step = if t == Tier::Quick { 5 } else { 1 };
    M::worlds().v.iter().filter(|w| w.s.p <= lim && w.not1mod8()).enumerate().filter(|(i, w)| i % step == 0 || w.s.p > z(13)).flat_map(|(_, w)| (0..256).map(move |i| Ex { c: w.s.name.clone(), i })).collect()
}
pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "byte strings: arbitrary ones, raw tag/coordinate fields (at, above and below p), encodings of points with structured mutations (tag, bit flips, truncation, extension, non-reduced, replaced and negated coordinates); non-trivial: the string has an admissible length; exhaustive clause: every short string on toy curves",
        assumptions: &["strict reference decoder: accepts exactly what the reference encoder produces for the point it finds"],
        clauses: vec![
            en("exhaustive-weierstrass", dec_xs::<W>, dec_ex::<W>),
            en("exhaustive-montgomery", dec_xs::<M>, dec_ex::<M>),
            en("exhaustive-edwards", dec_xs::<E>, dec_ex::<E>),
            pt("weierstrass", 16000, 400000, || dec_s::<W>((3, 2, 5)), dec_case::<W>),
            pt("montgomery", 16000, 400000, || dec_s::<M>((3, 2, 5)), dec_case::<M>),
            pt("edwards", 16000, 400000, || dec_s::<E>((3, 2, 5)), dec_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C18
fn cof_case<M: Model>(k: &OneP) -> Res {
    let w = w::<M>(&k.c);
    let c = w.curve();
    let s = &w.s;
    let h = c.get_cofactor();
    let r = BigInt::from(c.get_order());
    ensure!(h.is_positive() && r.is_positive(), "{}: cofactor {h}, order {r}", s.name);
    let p = w.pt(&k.p);
    let a = w.rep(&c, &p, k.rp);
    // reference: r (h P) = O on the published curve
    let hp = s.mul(&p, &h);
    ensure!(s.mul(&hp, &r) == s.zero(), "{}: {r} * {h} * {} is not the identity", s.name, show(&p));
    if h < r {
        // the library itself: Q = h P, then (r-1) Q = -Q
        let q = M::mul(k.rp as usize, &a, &c.new_scalar(h.clone()));
        is_pt(w, &c, &format!("cofactor multiple of {}", show(&p)), &q, &hp)?;
        let m = M::mul(k.rp as usize, &q, &c.new_scalar(z(-1)));
        ensure!(M::adds(&m, &q)[0].is_zero(), "{}: (r-1)hP + hP != O for {}", s.name, show(&p));
    }
    let outside = s.mul(&p, &r) != s.zero();
    Ok(Obs::nt(p != s.zero()).n(2).lif(outside, "outside the subgroup").lif(s.builtin, "built-in curve"))
}
pub fn c18() -> Property {
    fn s<M: Model>() -> BoxedStrategy<OneP> {
        (curve_name::<M>((2, 0, 3), |w| w.s.ordered), pt_r(), 0u8..20).prop_map(|(c, p, rp)| OneP { c, p, rp }).boxed()
    }
    fn b<M: Model>() -> BoxedStrategy<OneP> {
        (curve_name::<M>((0, 0, 1), |w| w.s.builtin), pt_r(), 0u8..20).prop_map(|(c, p, rp)| OneP { c, p, rp }).boxed()
    }
    Property {
        id: "C18",
        rule: "points of all built-in, OpenSSL and toy curves of known order: generator multiples, lifted points (generally outside the subgroup), low-order points; non-trivial: point not the identity",
        assumptions: &["affine reference arithmetic on the published curve parameters"],
        clauses: vec![
            pt("weierstrass", 700, 14000, s::<W>, cof_case::<W>),
            pt("montgomery", 700, 14000, s::<M>, cof_case::<M>),
            pt("edwards", 700, 14000, s::<E>, cof_case::<E>),
            pt("built-in-weierstrass", 250, 5000, b::<W>, cof_case::<W>),
            pt("built-in-montgomery", 250, 5000, b::<M>, cof_case::<M>),
            pt("built-in-edwards", 250, 5000, b::<E>, cof_case::<E>),
        ],
    }
}
