//! C31-C35: parameter sets, protocols and algorithms over the generic interfaces, refusals,
//! hash-to-curve pipelines.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_group::{is_pt, show};
use crate::p_inst::{iso, ref_pull, the_iso, the_map};
use crate::p_map::*;
use crate::p_misc::*;
use crate::refm::*;
use crate::world::*;
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use redox_ecc::ellipticcurve::{Decode, EcPoint, EllipticCurve, Encode, MapToCurve};
use redox_ecc::field::{Field, FieldElement, Sqrt};
use redox_ecc::ops::Serialize as _;
use redox_ecc::instances as ins;
use redox_ecc::instances::GetCurve;
use redox_ecc::{edwards, montgomery, weierstrass};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C31
/// a way of writing an integer modulo p
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Note {
    /// 0, 1: decimal, 2: 0x, 3: 0x with upper-case digits, 4: 0o, 5: 0b
    base: u8,
    /// multiples of p added
    k: i8,
    /// leading zeros
    zeros: u8,
}
fn note_s() -> BoxedStrategy<Note> {
    (0u8..6, prop_oneof![4 => Just(0i8), 3 => -3i8..=3, 1 => any::<i8>()], prop_oneof![3 => Just(0u8), 1 => 0u8..40])
        .prop_map(|(base, k, zeros)| Note { base, k, zeros })
        .boxed()
}
impl Note {
    fn write(&self, v: &Z, p: &Z) -> String {
        let n = v + p * self.k;
        let (neg, m) = (n.is_negative(), n.abs());
        let (pre, d) = match self.base {
            0 | 1 => ("", m.to_str_radix(10)),
            2 => ("0x", m.to_str_radix(16)),
            3 => ("0x", m.to_str_radix(16).to_uppercase()),
            4 => ("0o", m.to_str_radix(8)),
            _ => ("0b", m.to_str_radix(2)),
        };
        format!("{}{pre}{}{d}", if neg { "-" } else { "" }, "0".repeat(self.zeros as usize))
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ParamC {
    c: String,
    n: Vec<Note>,
    p: PtR,
    q: PtR,
    k: IntR,
    rp: u8,
}
fn texts(s: &Spec, n: &[Note]) -> Texts {
    let mut t = Texts::of(s);
    let at = |i: usize| &n[i % n.len()];
    t.a = at(0).write(&s.a, &s.p);
    t.b = at(1).write(&s.b, &s.p);
    t.gx = at(2).write(&s.gx, &s.p);
    t.gy = at(3).write(&s.gy, &s.p);
    t.s = at(4).write(&s.s, &s.p);
    t
}
/// everything a curve reports about itself
fn reports<M: Model>(w: &World<M>, c: &M::C, gen: bool) -> Result<(), String> {
    let s = &w.s;
    let f = c.get_field();
    ensure!(f.get_modulus() == s.p, "{}: modulus {}, given {}", s.name, f.get_modulus(), s.p);
    ensure!(f.size_bytes() == s.flen(), "{}: field length {}, expected {}", s.name, f.size_bytes(), s.flen());
    ensure!(Z::from(c.get_order()) == s.r, "{}: order {}, given {}", s.name, c.get_order(), s.r);
    ensure!(c.get_cofactor() == s.h, "{}: cofactor {}, given {}", s.name, c.get_cofactor(), s.h);
    let m = coords(c)?;
    let key = if s.kind == Kind::E { "d" } else { "b" };
    for (k, v) in [("a", &s.a), (key, &s.b)] {
        ensure!(m.get(k) == Some(v), "{}: prints {k} = {:?}, given {v}", s.name, m.get(k).map(|x| x.to_string()));
    }
    is_pt(w, c, "identity", &c.identity(), &s.zero())?;
    if gen {
        is_pt(w, c, "generator", &c.get_generator(), &s.gen())?;
    }
    let k = c.new_scalar(&s.r + 1);
    ensure!(zof(&k)?.is_one(), "{}: new_scalar(r+1) = {k}", s.name);
    Ok(())
}
fn params_case<M: Model>(k: &ParamC) -> Res {
    let w = w::<M>(&k.c);
    let s = &w.s;
    let t = texts(s, &k.n);
    let c = M::curve(M::leak_text(&t));
    let c0 = w.custom();
    let what = format!("{} written as {t:?}", s.name);
    reports(w, &c, true).map_err(|e| format!("{what}: {e}"))?;
    ensure!(c == c0 && c0 == c, "{what}: differs from the curve with canonical parameters");
    ensure!(c.clone() == c, "{what}: differs from its clone");
    ensure!(c.to_string() == c0.to_string(), "{what}: prints as {c}, with canonical parameters {c0}");
    reports(w, &c.clone(), true).map_err(|e| format!("{what}: clone: {e}"))?;
    // the two combine
    let (p, q) = (w.pt(&k.p), w.pt(&k.q));
    let (a, b) = (w.rep(&c, &p, k.rp), w.rep(&c0, &q, k.rp / 2));
    is_pt(w, &c, &format!("{what}: {} + {}", show(&p), show(&q)), &M::add1(k.rp as usize, &a, &b), &s.add(&p, &q))?;
    is_pt(w, &c0, &format!("{what}: {} + {}", show(&q), show(&p)), &M::add1(k.rp as usize, &b, &a), &s.add(&p, &q))?;
    ensure!((a == b) == (p == q), "{what}: {} == {}", show(&p), show(&q));
    let e = k.k.e(&s.r) & z(0xff_ffff);
    is_pt(w, &c, &format!("{what}: {e} * {}", show(&q)), &M::mul(k.rp as usize, &b, &c.new_scalar(e.clone())), &s.mul(&q, &e))?;
    let e = k.k.e(&s.r) & z(0xffff);
    is_pt(w, &c, &format!("{what}: {e} * {}", show(&p)), &M::mul(k.rp as usize, &a, &c0.new_scalar(e.clone())), &s.mul(&p, &e))?;
    ensure!(c0.is_on_curve(&a) && c.is_on_curve(&b), "{what}: membership");
    if s.kind != Kind::E || w.not1mod8() {
        let d = c0.decode(&a.encode(false)).map_err(|e| format!("{what}: encoding of {} refused: {e}", show(&p)))?;
        ensure!(d == a, "{what}: {} comes back as {d}", show(&p));
    }
    let plain = k.n.iter().take(5).all(|n| n.base < 2 && n.k == 0 && n.zeros == 0);
    Ok(Obs::nt(!plain).n(24).lif(!plain, "written otherwise").lif(k.n.iter().any(|n| n.k < 0), "negative").lif(w.big(), "large field"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ParamD {
    c: String,
    /// what is changed
    what: u8,
    v: IntR,
    p: PtR,
    n: Vec<Note>,
}
fn params_diff<M: Model>(k: &ParamD) -> Res {
    let w0 = w::<M>(&k.c);
    let s0 = &w0.s;
    let mut s = s0.clone();
    let c0 = w0.custom();
    s.builtin = false;
    s.ordered = false;
    let p = &s0.p;
    let mut off = false;
    let names = ["field", "order", "cofactor", "generator", "opposite generator", "generator off the curve", "a", "b"];
    let what = names[k.what as usize % names.len()];
    match what {
        "field" => s.p = companions(p, Class::Any)[1 + (k.n.len() % 2)].clone(),
        "order" => s.r = k.v.raw(&s0.r, &[]).abs() % (&s0.r << 20usize) + 2,
        "cofactor" => s.h = k.v.raw(&s0.h, &[]).abs() + 1,
        "generator" => {
            let Some((x, y)) = w0.pt(&k.p) else { return Ok(Obs::nt(false)) };
            s.gx = x;
            s.gy = y;
        }
        "opposite generator" => {
            let (x, y) = s0.neg(&s0.gen()).unwrap();
            s.gx = x;
            s.gy = y;
        }
        "generator off the curve" => {
            let v = k.v.e(p);
            if k.n.len() % 2 == 0 {
                s.gx = v;
            } else {
                s.gy = v;
            }
            off = !s.on(&s.gx, &s.gy);
        }
        "a" => s.a = md(&(&s0.a + k.v.e(p)), p),
        _ => s.b = md(&(&s0.b + k.v.e(p)), p),
    }
    for v in [&mut s.a, &mut s.b, &mut s.gx, &mut s.gy, &mut s.s] {
        *v = md(v, &s.p);
    }
    let same = (&s.p, &s.a, &s.b, &s.r, &s.h, &s.gx, &s.gy) == (&s0.p, &s0.a, &s0.b, &s0.r, &s0.h, &s0.gx, &s0.gy);
    s.name = format!("{} with another {what}", s0.name);
    let w = World::<M>::of(s.clone());
    let Some(c) = attempt(|| M::curve(M::leak_text(&texts(&s, &k.n)))) else {
        ensure!(off || what == "field" || what == "a" || what == "b", "{}: refused: {}", s.name, last_panic());
        return Ok(Obs::nt(false).l("refused"));
    };
    ensure!((c == c0) == same && (c0 == c) == same, "{}: == is {}", s.name, c == c0);
    let on = s.on(&s.gx, &s.gy);
    reports(&w, &c, on)?;
    if !on {
        if let Some(g) = attempt(|| c.get_generator()) {
            return Err(format!("{}: the generator ({}, {}) is not on the curve, get_generator returned {g}", s.name, s.gx, s.gy));
        }
        // and nothing else is affected
        reports(&w, &c, false).map_err(|e| format!("after get_generator was refused: {e}"))?;
    }
    // points do not depend on the generator, the order or the cofactor
    let coeffs = (&s.p, &s.a, &s.b) == (&s0.p, &s0.a, &s0.b);
    if coeffs {
        let q = w0.pt(&k.p);
        let a = w.mk(&c, &q);
        is_pt(&w, &c, &format!("{} doubled", show(&q)), &M::adds(&a, &a)[0], &s.add(&q, &q))?;
        let e = k.v.e(&s.r) & z(0xfff);
        is_pt(&w, &c, &format!("{e} * {}", show(&q)), &M::mul(k.what as usize, &a, &c.new_scalar(e.clone())), &s.mul(&q, &e))?;
    }
    Ok(Obs::nt(!same).n(12).lif(off, "generator off the curve").lif(what == "field", "other field"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IdPair {
    i: usize,
    j: usize,
}
const IDS: [&str; 11] = [
    "P256", "P384", "P521", "secp256k1", "secp256k1_3iso", "bls12381_g1", "bls12381_g1_11iso", "curve25519", "curve448", "edwards25519",
    "edwards448",
];
fn id_case(k: &IdPair) -> Res {
    let (i, j) = (k.i % IDS.len(), k.j % IDS.len());
    let we = [ins::P256, ins::P384, ins::P521, ins::SECP256K1, ins::SECP256K1_3ISO, ins::BLS12381G1, ins::BLS12381G1_11ISO];
    let mt = [ins::CURVE25519, ins::CURVE448];
    let ed = [ins::EDWARDS25519, ins::EDWARDS448];
    macro_rules! pair {
        ($v:expr, $M:ty, $base:expr) => {
            if i >= $base && i < $base + $v.len() {
                let a = $v[i - $base];
                ensure!(a.to_string() == IDS[i], "identifier {} prints as {a}", IDS[i]);
                let w = w::<$M>(IDS[i]);
                let (c, d) = (a.get(), a.get());
                ensure!(c == d, "{}: two calls of get give unequal curves", IDS[i]);
                reports(w, &c, true)?;
                if j >= $base && j < $base + $v.len() {
                    let b = $v[j - $base];
                    ensure!((a == b) == (i == j), "identifiers {} == {} is {}", IDS[i], IDS[j], a == b);
                    ensure!((c == b.get()) == (i == j), "curves {} == {} is {}", IDS[i], IDS[j], c == b.get());
                }
            }
        };
    }
    pair!(we, W, 0);
    pair!(mt, M, 7);
    pair!(ed, E, 9);
    Ok(Obs::nt(true).n(12))
}
pub fn c31() -> Property {
    fn ps<M: Model>() -> BoxedStrategy<ParamC> {
        (curve_name::<M>((4, 2, 4), |_| true), proptest::collection::vec(note_s(), 5), pt_r(), pt_r(), int_r(), 0u8..20)
            .prop_map(|(c, n, p, q, k, rp)| ParamC { c, n, p, q, k, rp })
            .boxed()
    }
    fn ds<M: Model>() -> BoxedStrategy<ParamD> {
        (curve_name::<M>((4, 2, 4), |_| true), any::<u8>(), int_r(), pt_r(), proptest::collection::vec(note_s(), 1..5))
            .prop_map(|(c, what, v, p, n)| ParamD { c, what, v, p, n })
            .boxed()
    }
    Property {
        id: "C31",
        rule: "parameter sets of toy, word-boundary and standard curves with each coefficient and coordinate written in decimal, hexadecimal, octal or binary, negative, unreduced or with leading zeros; parameter sets with one entry changed (field, order, cofactor, generator, coefficient, generator off the curve); every pair of built-in identifiers; non-trivial: something is not written canonically, or the parameters differ",
        assumptions: &["a curve's coefficients are read from its printed form", "modulus, order and cofactor are written in decimal, as in the built-in curves"],
        clauses: vec![
            en("identifiers", |_| (0..IDS.len() * IDS.len()).map(|n| IdPair { i: n / IDS.len(), j: n % IDS.len() }).collect(), id_case),
            pt("written-weierstrass", 4000, 80000, ps::<W>, params_case::<W>),
            pt("written-montgomery", 4000, 80000, ps::<M>, params_case::<M>),
            pt("written-edwards", 4000, 80000, ps::<E>, params_case::<E>),
            pt("changed-weierstrass", 4000, 80000, ds::<W>, params_diff::<W>),
            pt("changed-montgomery", 4000, 80000, ds::<M>, params_diff::<M>),
            pt("changed-edwards", 4000, 80000, ds::<E>, params_diff::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C32
/// the interface a protocol sees: the library's traits and nothing else
struct Party<C: EllipticCurve> {
    c: C,
}
impl<C> Party<C>
where
    C: EllipticCurve + Decode<Deser = <C as EllipticCurve>::Point>,
    C::Point: Clone + 'static,
    C::Scalar: Clone + 'static,
{
    fn g(&self) -> C::Point {
        self.c.get_generator()
    }
    fn s(&self, v: &Z) -> C::Scalar {
        self.c.new_scalar(v.clone())
    }
    fn mul(&self, p: &C::Point, k: &C::Scalar, by_ref: bool) -> C::Point {
        if by_ref {
            p.clone() * k
        } else {
            p.clone() * k.clone()
        }
    }
    /// sum of k_i P_i
    fn msm(&self, v: &[(C::Scalar, C::Point)]) -> C::Point {
        v.iter().fold(self.c.identity(), |acc, (k, p)| acc + self.mul(p, k, true))
    }
    /// Horner's rule
    fn poly(&self, a: &[C::Scalar], x: &C::Scalar) -> C::Scalar {
        a.iter().rev().fold(self.s(&z(0)), |acc, a| acc * x + a)
    }
    /// value at 0 of the Lagrange basis polynomials
    fn lagrange0(&self, xs: &[C::Scalar]) -> Vec<C::Scalar> {
        (0..xs.len())
            .map(|i| {
                let mut n = self.s(&z(1));
                for j in (0..xs.len()).filter(|j| *j != i) {
                    n = n * &xs[j] / (xs[j].clone() - &xs[i]);
                }
                n
            })
            .collect()
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Proto {
    c: String,
    a: IntR,
    b: IntR,
    k: IntR,
    e: IntR,
    m: PtR,
    coef: Vec<IntR>,
    x0: u8,
    comp: bool,
    sel: u8,
}
fn proto<M: Model>(k: &Proto) -> Res {
    let w = w::<M>(&k.c);
    let s = &w.s;
    let r = &s.r;
    let (al, bo) = (Party { c: w.curve() }, Party { c: w.curve() });
    let (a, b, n, e) = (k.a.e(r), k.b.e(r), k.k.e(r), k.e.e(r));
    let name = |t: &str| format!("{}: {t} with a={a} b={b} k={n} e={e}", s.name);
    let is = |t: &str, got: &M::P, want: &RP| is_pt(w, &al.c, &name(t), got, want);
    // the same residues as integers of other sizes and signs: digests are longer than the order
    let far = |v: &Z, i: u8| match (k.sel >> 6) + i & 3 {
        0 => v.clone(),
        1 => v - r * (z(k.x0 as i64) + 1),
        2 => v + r * ((Z::one() << (k.x0 as usize + 8)) - 1),
        _ => v + r * (Z::one() << (512 + k.x0 as usize)),
    };
    let (sa, sb, sn, se) = (al.s(&far(&a, 0)), bo.s(&far(&b, 1)), al.s(&far(&n, 2)), al.s(&far(&e, 3)));
    let g = s.gen();
    let comp = k.comp && w.not1mod8();
    let can_decode = s.kind != Kind::E || w.not1mod8();
    let send = |p: &M::P, to: &Party<M::C>| -> Result<M::P, String> {
        if !can_decode {
            return Ok(p.clone());
        }
        let v = p.encode(comp);
        to.c.decode(&v).map_err(|e| format!("{}: {p} sent as {} was refused: {e}", s.name, hex(&v)))
    };
    let pa = al.mul(&al.g(), &sa, true);
    let ra = s.mul(&g, &a);
    is("aG", &pa, &ra)?;
    let mut evals = 1;
    // Diffie-Hellman, over encodings, between two instances of the curve
    if k.sel & 1 == 0 {
        let pb = bo.mul(&bo.g(), &sb, false);
        let (to_a, to_b) = (send(&pb, &al)?, send(&pa, &bo)?);
        let (ka, kb) = (al.mul(&to_a, &sa, false), bo.mul(&to_b, &sb, true));
        ensure!(ka == kb, "{}: {ka} and {kb}", name("Diffie-Hellman"));
        ensure!(ka.encode(true) == kb.encode(true) && ka.encode(false) == kb.encode(false), "{}", name("encodings of the shared secret"));
        is("Diffie-Hellman", &ka, &s.mul(&g, &mulm(&a, &b, r)))?;
        evals += 4;
    }
    // ElGamal with any point of the curve as message
    if k.sel & 2 == 0 {
        let m = w.pt(&k.m);
        let (c1, c2) = (bo.mul(&bo.g(), &sn, true), w.rep(&bo.c, &m, k.x0 % 20) + bo.mul(&send(&pa, &bo)?, &sn, true));
        let d = send(&c2, &al)? - al.mul(&send(&c1, &al)?, &sa, true);
        is("ElGamal decryption", &d, &m)?;
        ensure!(d == w.mk(&al.c, &m), "{}", name("ElGamal decryption =="));
        evals += 2;
    }
    // Schnorr, with a right and with wrong responses
    if k.sel & 4 == 0 {
        let rr = al.mul(&al.g(), &sn, false);
        let resp = sn.clone() + se.clone() * &sa;
        let check = |resp: &M::S, se: &M::S| bo.mul(&bo.g(), resp, true) == rr.clone() + bo.mul(&pa, se, true);
        ensure!(zof(&resp)? == md(&(&n + &e * &a), r), "{}: response {resp}", name("Schnorr"));
        ensure!(check(&resp, &se), "{}: refused", name("Schnorr"));
        ensure!(!check(&(resp.clone() + al.s(&z(1))), &se), "{}: a wrong response was accepted", name("Schnorr"));
        ensure!(check(&resp, &(se.clone() + al.s(&z(1)))) == a.is_zero(), "{}: wrong challenge", name("Schnorr"));
        evals += 4;
    }
    // ECDSA's equation
    if k.sel & 8 == 0 && nz(&n) {
        let kg = al.mul(&al.g(), &sn, true);
        let u = w.aff(&kg)?.map_or(z(0), |t| md(&t.0, r));
        let su = al.s(&u);
        let sig = (se.clone() + su.clone() * &sa) / &sn;
        let sr = mulm(&(&e + &u * &a), &inv0(&n, r), r);
        ensure!(zof(&sig)? == sr, "{}: signature {sig}, expected {sr}", name("ECDSA"));
        if nz(&sr) {
            let v = bo.mul(&bo.g(), &(se.clone() / &sig), true) + bo.mul(&pa, &(su / &sig), false);
            ensure!(v == kg, "{}: {v} and {kg}", name("ECDSA verification"));
            is("ECDSA verification", &v, &s.mul(&g, &n))?;
            evals += 2;
        }
        // blinding
        let back = al.mul(&al.mul(&pa, &sn, true), &M::s_inv(&sn), true);
        is("1/k (k aG)", &back, &ra)?;
        evals += 2;
    }
    // Pedersen commitments add up
    if k.sel & 16 == 0 {
        let h = al.mul(&al.g(), &se, true);
        let com = |p: &Party<M::C>, m: &M::S, t: &M::S| p.mul(&p.g(), m, true) + p.mul(&h, t, true);
        let sum = com(&al, &sa, &sn) + com(&bo, &sb, &sa);
        let both = com(&bo, &(sa.clone() + &sb), &(sn.clone() + &sa));
        ensure!(sum == both, "{}: {sum} and {both}", name("Pedersen"));
        is("Pedersen", &both, &s.mul(&g, &md(&(&a + &b + &e * (&n + &a)), r)))?;
        evals += 2;
    }
    // Shamir's secret sharing with Feldman's commitments
    if k.sel & 32 == 0 && r > &z(k.coef.len() as i64 + 1) {
        let mut co: Vec<Z> = k.coef.iter().map(|c| c.e(r)).collect();
        co[0] = a.clone();
        let t = co.len();
        let cs: Vec<M::S> = co.iter().map(|c| al.s(c)).collect();
        let xs: Vec<Z> = (0..t as i64).map(|i| 1 + md(&(z(k.x0 as i64) + i), &(r - 1))).collect();
        let sx: Vec<M::S> = xs.iter().map(|x| al.s(x)).collect();
        let shares: Vec<M::S> = sx.iter().map(|x| al.poly(&cs, x)).collect();
        for (x, y) in xs.iter().zip(&shares) {
            let want = co.iter().rev().fold(z(0), |acc, c| md(&(acc * x + c), r));
            ensure!(zof(y)? == want, "{}: share at {x} is {y}, expected {want}", name("Shamir"));
        }
        let l = al.lagrange0(&sx);
        let sec = l.iter().zip(&shares).fold(al.s(&z(0)), |acc, (l, y)| acc + l.clone() * y);
        ensure!(zof(&sec)? == a, "{}: shares at {xs:?} give {sec}, coefficients {co:?}", name("Shamir"));
        let pub_: Vec<M::P> = cs.iter().map(|c| al.mul(&al.g(), c, true)).collect();
        let i = k.x0 as usize % t;
        let mut pw = z(1);
        let mut terms = vec![];
        for p in &pub_ {
            terms.push((bo.s(&pw), p.clone()));
            pw = mulm(&pw, &xs[i], r);
        }
        let got = bo.msm(&terms);
        let want = bo.mul(&bo.g(), &shares[i], true);
        ensure!(got == want, "{}: share {i}: {got} and {want}", name("Feldman"));
        let terms: Vec<(M::S, M::P)> = l.iter().zip(&shares).map(|(l, y)| (l.clone(), bo.mul(&bo.g(), y, true))).collect();
        is("reconstruction in the exponent", &bo.msm(&terms), &ra)?;
        evals += 3 + t as u64;
    }
    Ok(Obs::nt(a > z(1)).n(evals).lif(w.big(), "large field").lif(!s.h.is_one(), "cofactor").lif(w.s.builtin, "built-in curve"))
}
pub fn c32() -> Property {
    fn ps<M: Model>() -> BoxedStrategy<Proto> {
        (
            curve_name::<M>((5, 0, 5), |w| w.s.ordered),
            (int_mostly_random(), int_mostly_random(), int_mostly_random(), int_mostly_random()),
            pt_r(),
            proptest::collection::vec(int_r(), 1..5),
            any::<u8>(),
            any::<bool>(),
            any::<u8>(),
        )
            .prop_map(|(c, (a, b, k, e), m, coef, x0, comp, sel)| Proto { c, a, b, k, e, m, coef, x0, comp, sel })
            .boxed()
    }
    Property {
        id: "C32",
        rule: "Diffie-Hellman, ElGamal, Schnorr, ECDSA's equation, Pedersen commitments, Shamir sharing with Feldman commitments, written against the EllipticCurve, EcPoint and EcScalar interfaces, between two instances of a toy or standard curve with secrets from recipes; every value compared with the reference and forged responses must be refused; non-trivial: the secret is not 0 or 1",
        assumptions: &["affine group law over num-bigint"],
        clauses: vec![
            pt("weierstrass", 1500, 30000, ps::<W>, proto::<W>),
            pt("montgomery", 1500, 30000, ps::<M>, proto::<M>),
            pt("edwards", 1500, 30000, ps::<E>, proto::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C33
/// an operation, or an attempt at something that is not allowed
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    Do(Op),
    /// which, operands, value, in another thread
    Bad(u8, Op, bool),
    /// the same attempt many times in a row
    Many(u8, Op, u16),
}
fn step_s(n: u8) -> BoxedStrategy<Step> {
    prop_oneof![
        3 => op_s(n).prop_map(Step::Do),
        2 => (any::<u8>(), op_s(n), prop_oneof![3 => Just(false), 1 => Just(true)]).prop_map(|(b, o, t)| Step::Bad(b, o, t)),
        1 => (any::<u8>(), op_s(n), proptest::sample::select(vec![4u16, 10, 20, 40, 70, 140])).prop_map(|(b, o, t)| Step::Many(b, o, t)),
    ]
    .boxed()
}
impl Step {
    /// (in another thread, how many times)
    fn how(&self) -> (bool, u16) {
        match self {
            Step::Bad(_, _, th) => (*th, 1),
            Step::Many(_, _, n) => (false, *n),
            Step::Do(_) => (false, 0),
        }
    }
}
/// runs f here or in another thread; what it printed, or None when it was refused
fn try_in(thread: bool, f: impl FnOnce() -> String) -> Option<String> {
    if !thread {
        return attempt(f);
    }
    // only the caller waits, so nothing is used by two threads at once
    let f = Force(f);
    std::thread::scope(|s| {
        s.spawn(move || {
            let f = f;
            attempt(f.0)
        })
        .join()
        .unwrap_or(None)
    })
}
const BADF: u8 = 9;
fn bad_field<K: FK>(f: &K::F, g: &K::F, h: &K::F, a: &K::T, b: &K::T, kind: u8, op: &Op, thread: bool) -> (bool, Option<String>) {
    // (must it be refused, what came)
    let v = op.v.raw(&f.get_modulus(), &[]);
    let x = || g.elt(v.clone());
    let bad = ["zz", "0xg", "1 2", "0b2", "1.5", "0o8", "1_0!"];
    match kind % BADF {
        0 => (true, try_in(thread, || (a.clone() + x()).to_string())),
        1 => (true, try_in(thread, || (a.clone() - &x()).to_string())),
        2 => (true, try_in(thread, || (x() * a).to_string())),
        3 => (true, try_in(thread, || (a.clone() / x()).to_string())),
        4 => (true, try_in(thread, || K::parse(f, bad[op.j as usize % bad.len()]).to_string())),
        // a field in which roots may be unsupported: whatever happens, it happens to this call only
        5 => (false, try_in(thread, || h.elt(v.clone()).sqrt().to_string())),
        6 => (false, try_in(thread, || K::from_be(f, &vec![0xff; op.j as usize]).map_or("refused".into(), |v| v.to_string()))),
        7 => (false, try_in(thread, || (b.clone() / a).sqrt().to_string())),
        _ => (false, try_in(thread, || h.elt(v.clone()).is_square().to_string())),
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RefF {
    p: PrimeR,
    /// field whose roots may be unsupported
    h: PrimeR,
    init: Vec<(IntR, IntR)>,
    steps: Vec<Step>,
}
fn refused_field<K: FK>(k: &RefF) -> Res {
    let p = k.p.p(K::CLASS);
    let q = companions(&p, K::CLASS)[1].clone();
    let hp = k.h.p(Class::Any);
    let fs = { let f0 = K::new(&p); [f0.clone(), K::new(&p), f0] };
    let (g, h) = (K::new(&q), K::new(&hp));
    let mut pool: Vec<K::T> = k.init.iter().enumerate().map(|(i, (a, b))| K::mk(&fs[i % 3], &a.e(&p), &b.e(&p))).collect();
    let mut texts: Vec<String> = pool.iter().map(|v| v.to_string()).collect();
    let (mut refused, mut after) = (0, 0);
    for (n, st) in k.steps.iter().enumerate() {
        match st {
            Step::Do(op) => {
                let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
                let what = || format!("{} p={p} step {n} {op:?} after {refused} refusals", K::NAME);
                let Some(out) = attempt(|| fop::<K>(&fs[op.f as usize], &p, &pool[i], &pool[j], op)) else {
                    return Err(format!("{}: panicked: {}", what(), last_panic()));
                };
                fref::<K>(&p, &pool[i], &pool[j], op, &out).map_err(|e| format!("{}: {e}", what()))?;
                let f = K::new(&p);
                let fresh = fop::<K>(&f, &p, &K::re(&f, &pool[i]), &K::re(&f, &pool[j]), op).text();
                ensure!(out.text() == fresh, "{}: {}, in a fresh field {fresh}", what(), out.text());
                after += (refused > 0) as u64;
                if let Out::V(v) = out {
                    texts.push(v.to_string());
                    pool.push(v);
                }
            }
            Step::Bad(b, op, _) | Step::Many(b, op, _) => {
                let (th, times) = st.how();
                let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
                let f = &fs[op.f as usize];
                let what = || format!("{} p={p} (other fields {q}, {hp}) step {n}: forbidden operation {} {op:?}", K::NAME, b % BADF);
                let (must, r1) = bad_field::<K>(f, &g, &h, &pool[i], &pool[j], *b, op, th);
                for t in 1..times {
                    let (_, r) = bad_field::<K>(f, &g, &h, &pool[i], &pool[j], *b, op, false);
                    ensure!(r1 == r, "{}: {r1:?}, repeated {t} times {r:?}", what());
                }
                ensure!(!(must && r1.is_some()), "{} returned {r1:?}", what());
                // again, and in fresh fields: the same answer
                let (_, r2) = bad_field::<K>(f, &g, &h, &pool[i], &pool[j], *b, op, false);
                ensure!(r1 == r2, "{}: {r1:?}, when repeated {r2:?}", what());
                let (f3, g3, h3) = (K::new(&p), K::new(&q), K::new(&hp));
                let (_, r3) = bad_field::<K>(&f3, &g3, &h3, &K::re(&f3, &pool[i]), &K::re(&f3, &pool[j]), *b, op, false);
                ensure!(r1 == r3, "{}: {r1:?}, in a fresh field {r3:?}", what());
                refused += r1.is_none() as u64;
                // the other fields still work
                let v = op.v.e(&hp);
                let x = h.elt(v.clone());
                ensure!(K::val(&(x.clone() * &x + h.one())).0 == md(&(&v * &v + 1), &hp), "{}: {v}^2+1 mod {hp} afterwards", what());
                let v = op.v.e(&q);
                let x = g.elt(v.clone());
                ensure!(K::val(&(x.clone() * &x).sqrt()).mul(&K::val(&(x.clone() * &x).sqrt()), &q) == C2(md(&(&v * &v), &q), z(0)), "{}: root of {v}^2 mod {q} afterwards", what());
            }
        }
        for (v, t) in pool.iter().zip(&texts) {
            ensure!(&v.to_string() == t, "{} p={p} step {n} {st:?} changed a value from {t} to {v}", K::NAME);
        }
    }
    Ok(Obs::nt(after > 0).n(3 * k.steps.len() as u64).lif(after > 0, "operations after a refusal").lif(low8(&hp) & 7 == 1, "field 1 mod 8"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RefC {
    c: String,
    d: String,
    init: Vec<PtR>,
    steps: Vec<Step>,
}
/// model-specific forbidden constructions
trait BadOp: MapOp {
    fn bad_map(w: &World<Self>, c: &Self::C, n: u8, v: &Z);
}
impl BadOp for W {
    fn bad_map(w: &World<W>, c: &weierstrass::Curve, n: u8, v: &Z) {
        let f = c.get_field();
        match n % 3 {
            0 => drop(weierstrass::SSWU::new(c.clone(), f.elt(z(if n % 2 == 0 { 0 } else { -1 })))),
            1 => {
                let bad = if w.s.name == "secp256k1" { 1 } else { 0 };
                let d = the_iso(bad).domain().get_field();
                drop(weierstrass::SSWUAB0::new(c.clone(), d.elt(v.clone()), the_iso(bad)))
            }
            _ => drop(weierstrass::SVDW::new(c.clone(), f.elt(roots(&[w.s.b.clone(), w.s.a.clone(), z(0), z(1)], &w.s.p).first().cloned().unwrap_or(z(0))))),
        }
    }
}
impl BadOp for M {
    fn bad_map(_: &World<M>, c: &montgomery::Curve, _: u8, v: &Z) {
        // Z of another field
        let f = crate::p_field::fp(&z(1_000_003));
        let m = montgomery::Ell2::new(c.clone(), f.elt(v.clone()));
        drop(m.map(&c.get_field().elt(v.clone())))
    }
}
impl BadOp for E {
    fn bad_map(w: &World<E>, c: &edwards::Curve, _: u8, v: &Z) {
        let i = if w.s.name == "edwards25519" { 1 } else { 0 };
        drop(edwards::Ell2::new(c.clone(), c.get_field().elt(v.clone()), Some(the_map(i))))
    }
}
const BADC: u8 = 10;
fn bad_curve<M: BadOp>(w: &World<M>, wd: &World<M>, c: &M::C, d: &M::C, a: &M::P, kind: u8, op: &Op, thread: bool) -> Result<(bool, Option<String>), String> {
    let s = &w.s;
    let v = op.v.raw(&s.p, &[]);
    let differ = (&s.p, &s.a, &s.b, &s.r) != (&wd.s.p, &wd.s.a, &wd.s.b, &wd.s.r);
    let other = |i: u8| {
        let q = wd.pt(&PtR::Lift(IntR::S(i as u16), false));
        wd.mk(d, &q)
    };
    Ok(match kind % BADC {
        0 => (differ, try_in(thread, || M::add1(op.j as usize, a, &other(op.j)).to_string())),
        1 => (differ, try_in(thread, || M::sub1(op.j as usize, &other(op.j), a).to_string())),
        2 => (s.r != wd.s.r, try_in(thread, || M::mul(op.j as usize, a, &d.new_scalar(v.clone())).to_string())),
        3 => {
            // coordinates off the curve
            let (x, mut y) = (op.v.e(&s.p), z(op.j as i64));
            while s.on(&x, &md(&y, &s.p)) {
                y += 1;
            }
            let f = c.get_field();
            (true, try_in(thread, || c.new_point(fe(&f, &x), fe(&f, &y)).to_string()))
        }
        4 | 5 => {
            // bytes that decode to nothing, or to something
            let mut b = if kind % 2 == 0 { a.encode(op.j % 2 == 0) } else { be(&md(&v, &(Z::one() << (8 * s.flen()))), s.flen() + 1) };
            let l = b.len();
            match op.f {
                0 => b.truncate(l.saturating_sub(1 + op.j as usize % 3)),
                1 => b[l - 1] ^= 1 << (op.j % 8),
                _ => b[0] = b[0].wrapping_add(op.j),
            }
            let ok = s.decode(&b).is_some();
            if !w.not1mod8() {
                return Ok((false, None));
            }
            (!ok, try_in(thread, || c.decode(&b).map(|p| p.to_string()).unwrap_or_else(|_| "refused".into())).filter(|t| t != "refused"))
        }
        6 => (true, try_in(thread, || {
            // a coordinate of another field
            let g = crate::p_field::fp(&z(1_000_003));
            c.new_point(fe(&g, &z(1)), c.get_field().one()).to_string()
        })),
        7 => (false, try_in(thread, || { M::bad_map(w, c, op.j, &v); "made".into() })),
        8 => (s.r != wd.s.r, try_in(thread, || M::s_add1(op.j as usize, &c.new_scalar(v.clone()), &d.new_scalar(v.clone())).to_string())),
        _ => (s.r != wd.s.r, try_in(thread, || M::s_div1(op.j as usize, &d.new_scalar(v.clone()), &c.new_scalar(v.clone())).to_string())),
    })
}
fn refused_curve<M: BadOp>(k: &RefC) -> Res {
    let (wc, wd) = (w::<M>(&k.c), w::<M>(&k.d));
    let s = &wc.s;
    let cs = { let c0 = wc.curve(); [c0.clone(), wc.curve(), c0] };
    let d = wd.curve();
    let mut pool: Vec<M::P> = k.init.iter().enumerate().map(|(i, r)| wc.rep(&cs[i % 3], &wc.pt(r), i as u8 + 1)).collect();
    let mut texts: Vec<String> = pool.iter().map(|v| v.to_string()).collect();
    let (mut refused, mut after) = (0, 0);
    for (n, st) in k.steps.iter().enumerate() {
        match st {
            Step::Do(op) => {
                let (i, j) = (op.i as usize % pool.len(), op.j as usize % pool.len());
                let what = || format!("{} step {n} {op:?} after {refused} refusals", s.name);
                let Some(out) = attempt(|| cop::<M>(wc, &cs[op.f as usize], &pool[i], &pool[j], op)) else {
                    return Err(format!("{}: panicked: {}", what(), last_panic()));
                };
                cref(wc, &pool[i], &pool[j], op, &out).map_err(|e| format!("{}: {e}", what()))?;
                let g = wc.curve();
                let (a, b) = (wc.mk(&g, &wc.aff(&pool[i])?), wc.mk(&g, &wc.aff(&pool[j])?));
                let (t, u) = (value(wc, &out)?, value(wc, &cop::<M>(wc, &g, &a, &b, op))?);
                ensure!(t == u, "{}: {t}, on a fresh curve {u}", what());
                after += (refused > 0) as u64;
                if let Out::V(v) = out {
                    texts.push(v.to_string());
                    pool.push(v);
                }
            }
            Step::Bad(b, op, _) | Step::Many(b, op, _) => {
                let (th, times) = st.how();
                let i = op.i as usize % pool.len();
                let c = &cs[op.f as usize];
                let what = || format!("{} (other curve {}) step {n}: forbidden operation {} {op:?}", s.name, wd.s.name, b % BADC);
                let (must, r1) = bad_curve::<M>(wc, wd, c, &d, &pool[i], *b, op, th)?;
                for t in 1..times {
                    let (_, r) = bad_curve::<M>(wc, wd, c, &d, &pool[i], *b, op, false)?;
                    ensure!(r1 == r, "{}: {r1:?}, repeated {t} times {r:?}", what());
                }
                ensure!(!(must && r1.is_some()), "{} returned {r1:?}", what());
                let (_, r2) = bad_curve::<M>(wc, wd, c, &d, &pool[i], *b, op, false)?;
                ensure!(r1 == r2, "{}: {r1:?}, when repeated {r2:?}", what());
                let (c3, d3) = (wc.curve(), wd.curve());
                let (_, r3) = bad_curve::<M>(wc, wd, &c3, &d3, &wc.mk(&c3, &wc.aff(&pool[i])?), *b, op, false)?;
                ensure!(r1.is_some() == r3.is_some(), "{}: {r1:?}, on fresh curves {r3:?}", what());
                refused += r1.is_none() as u64;
                // the other curve still works
                let q = wd.pt(&PtR::Lift(op.v.clone(), true));
                let a = wd.mk(&d, &q);
                is_pt(wd, &d, &format!("{}: {} doubled afterwards", what(), show(&q)), &M::add1(0, &a, &a), &wd.s.add(&q, &q))?;
            }
        }
        for (v, t) in pool.iter().zip(&texts) {
            ensure!(&v.to_string() == t, "{} step {n} {st:?} changed a value from {t} to {v}", s.name);
        }
    }
    Ok(Obs::nt(after > 0).n(3 * k.steps.len() as u64).lif(after > 0, "operations after a refusal").lif(wc.big(), "large field"))
}
/// refused operations do not lose memory that a session can give back later
fn refused_leak(k: &RefF) -> Res {
    let p = k.p.p(Class::Not1mod8);
    let q = companions(&p, Class::Not1mod8)[1].clone();
    leak_check(&format!("p={p} {:?}", k.steps), &|| {
        let (f, g, h) = (K1::new(&p), K1::new(&q), K1::new(&k.h.p(Class::Any)));
        let pool: Vec<_> = k.init.iter().map(|(a, b)| K1::mk(&f, &a.e(&p), &b.e(&p))).collect();
        for st in &k.steps {
            match st {
                Step::Do(op) => drop(fop::<K1>(&f, &p, &pool[op.i as usize % pool.len()], &pool[op.j as usize % pool.len()], op).text()),
                Step::Bad(b, op, _) | Step::Many(b, op, _) => drop(bad_field::<K1>(&f, &g, &h, &pool[op.i as usize % pool.len()], &pool[op.j as usize % pool.len()], *b, op, false)),
            }
        }
    })?;
    let n = k.steps.iter().filter(|s| !matches!(s, Step::Do(..))).count();
    Ok(Obs::nt(n > 0).n(5).lif(n > 0, "refusals"))
}
fn refused_leak_curve<M: BadOp>(k: &RefC) -> Res {
    let (wc, wd) = (w::<M>(&k.c), w::<M>(&k.d));
    let pts: Vec<RP> = k.init.iter().map(|r| wc.pt(r)).collect();
    leak_check(&format!("{} {} {:?}", k.c, k.d, k.steps), &|| {
        let (c, d) = (wc.curve(), wd.curve());
        let pool: Vec<M::P> = pts.iter().map(|q| wc.mk(&c, q)).collect();
        for st in &k.steps {
            match st {
                Step::Do(op) => drop(cop::<M>(wc, &c, &pool[op.i as usize % pool.len()], &pool[op.j as usize % pool.len()], op).text()),
                Step::Bad(b, op, _) | Step::Many(b, op, _) => drop(bad_curve::<M>(wc, wd, &c, &d, &pool[op.i as usize % pool.len()], *b, op, false)),
            }
        }
    })?;
    let n = k.steps.iter().filter(|s| !matches!(s, Step::Do(..))).count();
    Ok(Obs::nt(n > 0).n(5).lif(n > 0, "refusals"))
}
/// the sessions with refusals in them, for C30
pub fn refusal_sessions() -> Vec<Clause> {
    vec![
        pt("field-refusals", 500, 10000, ref_f_s, refused_leak),
        pt("weierstrass-refusals", 250, 5000, ref_c_s::<W>, refused_leak_curve::<W>),
        pt("montgomery-refusals", 250, 5000, ref_c_s::<M>, refused_leak_curve::<M>),
        pt("edwards-refusals", 250, 5000, ref_c_s::<E>, refused_leak_curve::<E>),
    ]
}
fn ref_c_s<M: Model>() -> BoxedStrategy<RefC> {
    let n = || curve_name::<M>((4, 2, 4), |w| w.not1mod8());
    (n(), n(), proptest::collection::vec(pt_r(), 2..4), proptest::collection::vec(step_s(COPS), 1..12))
        .prop_map(|(c, d, init, steps)| RefC { c, d, init, steps })
        .boxed()
}
fn ref_f_s() -> BoxedStrategy<RefF> {
    let h = prop_oneof![1 => prime_r(), 2 => proptest::sample::select(vec![17u32, 41, 73, 97, 257, 65537]).prop_map(|p| PrimeR::Next(vec![p]))];
    (prime_r(), h, proptest::collection::vec((int_r(), int_r()), 2..5), proptest::collection::vec(step_s(FOPS), 1..16))
        .prop_map(|(p, h, init, steps)| RefF { p, h, init, steps })
        .boxed()
}
pub fn c33() -> Property {
    Property {
        id: "C33",
        rule: "histories of up to 15 steps on a field or curve in which allowed operations alternate with forbidden ones (mixing, malformed texts and bytes, coordinates off the curve, scalars of another order, map parameters that do not fit, roots in fields without root support), a quarter of them in another thread, some up to 140 times in a row; each allowed result is compared with the reference and with a fresh instance, each forbidden one must be answered the same when repeated and on fresh instances, and all earlier values keep their printed form; non-trivial: an allowed operation follows a refusal",
        assumptions: &["refusal is a panic, or an error result for decoding"],
        clauses: vec![
            pt("prime-field", 5000, 100000, ref_f_s, refused_field::<K1>),
            pt("extension-field", 2500, 50000, ref_f_s, refused_field::<K2>),
            pt("weierstrass", 1500, 30000, ref_c_s::<W>, refused_curve::<W>),
            pt("montgomery", 1500, 30000, ref_c_s::<M>, refused_curve::<M>),
            pt("edwards", 1500, 30000, ref_c_s::<E>, refused_curve::<E>),
            pt("memory", 1500, 30000, ref_f_s, refused_leak),
            pt("memory-weierstrass", 400, 8000, ref_c_s::<W>, refused_leak_curve::<W>),
            pt("memory-montgomery", 400, 8000, ref_c_s::<M>, refused_leak_curve::<M>),
            pt("memory-edwards", 400, 8000, ref_c_s::<E>, refused_leak_curve::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C34
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hash {
    /// suite
    n: u8,
    c: String,
    z: IntR,
    u: IntR,
    v: IntR,
    rel: u8,
    comp: bool,
}
type RefMap<'a> = &'a dyn Fn(&Z) -> RP;
/// h (map(u) + map(v)) on one instance of the curve, against the reference and another instance
fn pipeline<M: Model, T: MapToCurve<E = M::C>>(w: &World<M>, mk: &dyn Fn(&M::C) -> T, want: RefMap, sp: &[Z], k: &Hash, name: &str) -> Res {
    let s = &w.s;
    let u = k.u.ev(&s.p, sp);
    let v = match k.rel {
        0 => u.clone(),
        1 => md(&-&u, &s.p),
        _ => k.v.ev(&s.p, sp),
    };
    let c = w.curve();
    let m = mk(&c);
    let f = c.get_field();
    let what = format!("{name} hash of u0={u}, u1={v}");
    let (q0, q1) = (m.map(&fe(&f, &u)), m.map(&fe(&f, &v)));
    let (r0, r1) = (want(&u), want(&v));
    let sum = M::add1(k.n as usize, &q0, &q1);
    let rsum = s.add(&r0, &r1);
    is_pt(w, &c, &format!("{what}: map(u0)+map(u1)"), &sum, &rsum)?;
    ensure!(M::add1(k.n as usize + 1, &q1, &q0) == sum, "{}: {what}: map(u1)+map(u0) is another point", s.name);
    let rp = s.mul(&rsum, &s.h);
    // clear the cofactor by additions, and by a scalar where the scalar is the cofactor
    let clear = |q: &M::P| {
        let mut acc = c.identity();
        for i in (0..s.h.bits()).rev() {
            acc = M::add1(0, &acc, &acc);
            if s.h.bit(i) {
                acc = M::add1(0, &acc, q);
            }
        }
        acc
    };
    let p = clear(&sum);
    is_pt(w, &c, &what, &p, &rp)?;
    ensure!(M::add1(0, &clear(&q0), &clear(&q1)) == p, "{}: {what}: clearing the cofactor of each part gives another point", s.name);
    if s.h < s.r {
        let t = M::mul(k.n as usize, &sum, &c.new_scalar(c.get_cofactor()));
        ensure!(t == p, "{}: {what}: the cofactor as a scalar gives {t}, by additions {p}", s.name);
    }
    if s.ordered {
        ensure!(s.mul(&rp, &s.r) == s.zero(), "reference: cofactor of {}", s.name);
        let t = M::mul(0, &p, &c.new_scalar(&s.r - 1));
        ensure!(M::add1(0, &t, &p).is_zero(), "{}: {what}: {p} is not in the subgroup of order r", s.name);
    }
    // another instance: same point, same encoding
    let c2 = w.curve();
    let m2 = mk(&c2);
    let f2 = c2.get_field();
    let p2 = M::add1(0, &m2.map(&fe(&f2, &v)), &m2.map(&fe(&f2, &u)));
    ensure!(p2 == sum && p2.encode(k.comp) == sum.encode(k.comp), "{}: {what}: another instance gives {p2}, this one {sum}", s.name);
    let d = c2.decode(&p.encode(k.comp)).map_err(|e| format!("{}: {what}: the encoding of {p} is refused: {e}", s.name))?;
    is_pt(w, &c2, &format!("{what}: decoded"), &d, &rp)?;
    Ok(Obs::nt(true).n(10).lif(rsum == s.zero(), "sum is the identity").lif(r0 == r1, "equal parts").lif(!s.h.is_one(), "cofactor")
        .lif(rp == s.zero(), "hash is the identity").lif(w.big(), "large field"))
}
fn hash_case(k: &Hash) -> Res {
    match k.n % 10 {
        // SSWU
        0 | 1 => {
            let w = w::<W>(&k.c);
            let s = &w.s;
            let zz = pick_z(s, &k.z, sswu_exists);
            pipeline::<W, _>(w, &|c| weierstrass::SSWU::new(c.clone(), fe(&c.get_field(), &zz)), &|u| Some(sswu(s, &zz, u).0), &sswu_sp(s, &zz), k, &format!("SSWU (Z={zz})"))
        }
        2 | 3 => {
            let i = (k.c == "bls12381_g1") as u8;
            let iw = iso(i);
            let s = &iw.dom.s;
            let zz = pick_z(s, &k.z, sswu_exists);
            let mut sp = kernel_us(s, &zz, &iw.velu.half);
            sp.extend(sswu_sp(s, &zz));
            let want = |u: &Z| iw.velu.push(&Some(sswu(s, &zz, u).0));
            pipeline::<W, _>(iw.cod, &|c| weierstrass::SSWUAB0::new(c.clone(), fe(&c.get_field(), &zz), the_iso(i)), &want, &sp, k, &format!("SSWUAB0 (Z={zz})"))
        }
        4 | 5 => {
            let w = w::<W>(&k.c);
            let s = &w.s;
            let zz = next_z(s, &k.z.e(&s.p), svdw_exists);
            pipeline::<W, _>(w, &|c| weierstrass::SVDW::new(c.clone(), fe(&c.get_field(), &zz)), &|u| Some(svdw(s, &zz, u).0), &svdw_sp(s, &zz), k, &format!("SVDW (Z={zz})"))
        }
        6 | 7 => {
            let w = w::<M>(&k.c);
            let s = &w.s;
            let zz = pick_z(s, &k.z, ell2_ok);
            let sp = if w.toy() || s.ordered { ell2_sp(s, w.low(), &zz) } else { ell2_sp(s, &[], &zz) };
            pipeline::<M, _>(w, &|c| montgomery::Ell2::new(c.clone(), fe(&c.get_field(), &zz)), &|u| Some(ell2(s, &zz, u).0), &sp, k, &format!("Elligator 2 (Z={zz})"))
        }
        8 => {
            let i = (k.c == "edwards448") as u8;
            let (we, wm) = (w::<E>(&k.c), w::<M>(if i == 0 { "curve25519" } else { "curve448" }));
            let zz = pick_z(&wm.s, &k.z, ell2_ok);
            let want = |u: &Z| ref_pull(i, &Some(ell2(&wm.s, &zz, u).0));
            let sp = ell2_sp(&wm.s, wm.low(), &zz);
            pipeline::<E, _>(we, &|c| edwards::Ell2::new(c.clone(), fe(&c.get_field(), &zz), Some(the_map(i))), &want, &sp, k, &format!("Edwards Elligator 2 (Z={zz})"))
        }
        _ => {
            let we = w::<E>(&k.c);
            let ms = mont_of(&we.s);
            let zz = next_z(&ms, &k.z.e(&ms.p), ell2_ok);
            let want = |u: &Z| toy_pull(&ms.p, &Some(ell2(&ms, &zz, u).0));
            let mk = |c: &edwards::Curve| {
                let wm = World::<M>::of(ms.clone());
                let rm = ToyMap { e: we.curve(), m: wm.curve(), es: we, ms: wm };
                edwards::Ell2::new(c.clone(), fe(&c.get_field(), &zz), Some(Box::new(rm)))
            };
            pipeline::<E, _>(we, &mk, &want, &ell2_sp(&ms, &[Some((z(0), z(0)))], &zz), k, &format!("Edwards Elligator 2 (Z={zz})"))
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct HashKat {
    c: String,
    z: i64,
    u0: String,
    u1: String,
    x: String,
    y: String,
}
fn hash_kat(k: &HashKat) -> Res {
    let w = w::<W>(&k.c);
    let c = w.curve();
    let f = c.get_field();
    let m = weierstrass::SSWU::new(c.clone(), fe(&f, &z(k.z)));
    let p = m.map(&fe(&f, &zhex(&k.u0))) + m.map(&fe(&f, &zhex(&k.u1)));
    is_pt(w, &c, "RFC 9380 vector", &p, &Some((zhex(&k.x), zhex(&k.y))))?;
    Ok(Obs::nt(true))
}
fn hash_s(n: u8, c: BoxedStrategy<String>) -> BoxedStrategy<Hash> {
    let u = || prop_oneof![3 => (0u8..40).prop_map(IntR::X), 4 => int_r(), 5 => wide().prop_map(IntR::L)];
    (c, z_s(), u(), u(), 0u8..10, any::<bool>()).prop_map(move |(c, z, u, v, rel, comp)| Hash { n, c, z, u, v, rel, comp }).boxed()
}
fn among(v: &[&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(v.to_vec()).prop_map(|s| s.to_string()).boxed()
}
pub fn c34() -> Property {
    fn has<M: Model>(w: &World<M>, ok: fn(&Spec, &Z) -> bool) -> bool {
        w.not1mod8() && w.s.p > z(4) && (0..200).any(|k| z(k) < w.s.p && ok(&w.s, &z(k)))
    }
    Property {
        id: "C34",
        rule: "suites of SSWU, SSWU with isogeny, Shallue-van de Woestijne, Elligator 2 on Montgomery and Edwards curves, on toy, word-boundary and standard curves; u0 and u1 from recipes incl. exceptional inputs, equal and opposite; h (map(u0)+map(u1)) is compared with the reference, with itself in the other order, on another instance, with the cofactor cleared part by part, and after encoding and decoding; all cases non-trivial",
        assumptions: &["maps, group law and isogenies evaluated over num-bigint from their definitions"],
        clauses: vec![
            en("rfc9380-vector", |_| vec![HashKat {
                c: "P256".into(), z: -10,
                u0: "ad5342c66a6dd0ff080df1da0ea1c04b96e0330dd89406465eeba11582515009".into(),
                u1: "8c0f1d43204bd6f6ea70ae8013070a1518b43873bcd850aafa0a9e220e2eea5a".into(),
                x: "2c15230b26dbc6fc9a37051158c95b79656e17a1a920b11394ca91c44247d3e4".into(),
                y: "8a7a74985cc5c776cdfe4b1f19884970453912e9d31528c060be9ab5c43e8415".into(),
            }], hash_kat),
            pt("sswu-standard", 700, 14000, || hash_s(0, among(&["P256", "P384", "P521", "secp256k1_3iso", "bls12381_g1_11iso"])), hash_case),
            pt("sswu-other", 1500, 30000, || hash_s(1, curve_name::<W>((4, 2, 1), |w| has(w, sswu_exists))), hash_case),
            pt("sswu-isogeny", 700, 14000, || hash_s(2, among(&["secp256k1", "bls12381_g1"])), hash_case),
            pt("svdw-standard", 500, 10000, || hash_s(4, among(&["P256", "P384", "P521", "secp256k1", "bls12381_g1"])), hash_case),
            pt("svdw-other", 1500, 30000, || hash_s(5, curve_name::<W>((4, 2, 1), |w| has(w, svdw_exists))), hash_case),
            pt("elligator2-standard", 700, 14000, || hash_s(6, among(&["curve25519", "curve448"])), hash_case),
            pt("elligator2-other", 1500, 30000, || hash_s(7, curve_name::<M>((4, 2, 1), |w| has(w, ell2_ok))), hash_case),
            pt("edwards-standard", 700, 14000, || hash_s(8, among(&["edwards25519", "edwards448"])), hash_case),
            pt("edwards-other", 1000, 20000, || hash_s(9, curve_name::<E>((4, 2, 0), toy_e_ok)), hash_case),
        ],
    }
}

// ---------------------------------------------------------------- C35
/// algorithms over any field, written against the Field and FieldElement interfaces
fn horner<T: FieldElement>(zero: &T, a: &[T], x: &T) -> T {
    a.iter().rev().fold(zero.clone(), |acc, c| acc * x + c)
}
/// coefficients of the polynomial of degree < n through n points
fn interpolate<T: FieldElement>(zero: &T, one: &T, xs: &[T], ys: &[T]) -> Vec<T> {
    let n = xs.len();
    let mut out = vec![zero.clone(); n];
    for i in 0..n {
        // prod_{j != i} (X - x_j) / (x_i - x_j)
        let mut num = vec![one.clone()];
        let mut den = one.clone();
        for j in (0..n).filter(|j| *j != i) {
            let mut next = vec![zero.clone(); num.len() + 1];
            for (d, c) in num.iter().enumerate() {
                next[d + 1] = next[d + 1].clone() + c;
                next[d] = next[d].clone() - c.clone() * &xs[j];
            }
            num = next;
            den = den * (xs[i].clone() - &xs[j]);
        }
        let k = ys[i].clone() / den;
        for (o, c) in out.iter_mut().zip(&num) {
            *o = o.clone() + c.clone() * &k;
        }
    }
    out
}
/// all inverses with one division
fn batch_inv<T: FieldElement>(one: &T, v: &[T]) -> Vec<T> {
    let mut pre = vec![one.clone()];
    for x in v {
        let l = pre.last().unwrap().clone();
        pre.push(l * x);
    }
    let mut inv = one.clone() / pre.last().unwrap();
    let mut out = vec![];
    for i in (0..v.len()).rev() {
        out.push(pre[i].clone() * &inv);
        inv = inv * &v[i];
    }
    out.reverse();
    out
}
/// Gaussian elimination on the rows of [A | b]; None when singular
fn solve<T: FieldElement>(mut m: Vec<Vec<T>>) -> Option<Vec<T>> {
    let n = m.len();
    for c in 0..n {
        let i = (c..n).find(|i| !m[*i][c].is_zero())?;
        m.swap(c, i);
        let piv = m[c][c].clone();
        for x in m[c].iter_mut() {
            *x = x.clone() / &piv;
        }
        for r in (0..n).filter(|r| *r != c) {
            let k = m[r][c].clone();
            for d in 0..=n {
                m[r][d] = m[r][d].clone() - k.clone() * &m[c][d];
            }
        }
    }
    Some(m.into_iter().map(|mut r| r.pop().unwrap()).collect())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Alg {
    p: PrimeR,
    v: Vec<(IntR, IntR)>,
    sel: u8,
}
fn alg_case<K: FK>(k: &Alg, class: Class) -> Res {
    let p = k.p.p(class);
    let f = K::new(&p);
    let ext = K::CLASS == Class::P3mod4;
    let vals: Vec<C2> = k.v.iter().map(|(a, b)| C2(a.e(&p), if ext { b.e(&p) } else { z(0) })).collect();
    let el: Vec<K::T> = vals.iter().enumerate().map(|(i, v)| if i % 2 == 0 { K::mk(&f, &v.0, &v.1) } else { K::mk(&K::new(&p), &v.0, &v.1) }).collect();
    let (zero, one) = (f.zero(), f.one());
    let o = C2(z(1), z(0));
    let what = |t: &str| format!("{} p={p} {t} of {vals:?}", K::NAME);
    let is = |t: &str, got: &K::T, want: &C2| -> Result<(), String> {
        ensure!(&K::val(got) == want, "{}: {got}, expected {want:?}", what(t));
        ensure!(got == &K::mk(&f, &want.0, &want.1), "{}: {got} is not equal to {want:?}", what(t));
        Ok(())
    };
    let x = &vals[0];
    let rh = vals.iter().rev().fold(C2(z(0), z(0)), |acc, c| acc.mul(x, &p).add(c, &p));
    is("Horner's rule", &horner(&zero, &el, &el[0]), &rh)?;
    let (sum, prod) = vals.iter().fold((C2(z(0), z(0)), o.clone()), |(s, t), v| (s.add(v, &p), t.mul(v, &p)));
    is("sum", &el.iter().fold(zero.clone(), |s, v| s + v), &sum)?;
    is("product", &el.iter().fold(one.clone(), |s, v| s * v), &prod)?;
    // the one power the interface offers
    is("square", &(el[0].clone() ^ 2u32), &x.mul(x, &p))?;
    // accumulators reset in place, selection by flags
    for (i, v) in el.iter().enumerate() {
        let w = C2(z(i as i64 % 2), vals[i].1.clone());
        let (mut s, mut t) = (v.clone(), K::mk(&f, &w.0, &w.1));
        s.set_one();
        is("set_one", &s, &o)?;
        is("product from set_one", &(s * v), &vals[i])?;
        t.set_one();
        is("set_one", &t, &o)?;
        t.set_zero();
        is("sum from set_zero", &(t + v), &vals[i])?;
        let flag = k.sel >> (i % 8) & 1 == 1;
        is("conditional move", &<K::T as redox_ecc::field::CMov>::cmov(&el[0], v, flag), if flag { &vals[i] } else { x })?;
    }
    // distinct nodes
    let mut nodes: Vec<usize> = vec![];
    for i in 0..vals.len() {
        if nodes.iter().all(|j| vals[*j] != vals[i]) {
            nodes.push(i);
        }
    }
    let n = nodes.len();
    let xs: Vec<K::T> = nodes.iter().map(|i| el[*i].clone()).collect();
    let ys: Vec<K::T> = (0..n).map(|i| el[(i + k.sel as usize) % el.len()].clone()).collect();
    let co = interpolate(&zero, &one, &xs, &ys);
    for i in 0..n {
        let got = horner(&zero, &co, &xs[i]);
        ensure!(got == ys[i], "{}: at {} it is {got}, expected {}", what("interpolation"), xs[i], ys[i]);
        let (a, b) = (K::val(&xs[i]), K::val(&ys[i]));
        let r = co.iter().rev().fold(C2(z(0), z(0)), |acc, c| acc.mul(&a, &p).add(&K::val(c), &p));
        ensure!(r == b, "{}: coefficients {:?}", what("interpolation"), co.iter().map(|c| c.to_string()).collect::<Vec<_>>());
    }
    let units: Vec<usize> = (0..vals.len()).filter(|i| !vals[*i].is_zero()).collect();
    let inv = batch_inv(&one, &units.iter().map(|i| el[*i].clone()).collect::<Vec<_>>());
    for (i, v) in units.iter().zip(&inv) {
        is("batch inversion", v, &vals[*i].inv0(&p))?;
        ensure!((el[*i].clone() * v).is_one(), "{}: x/x is not one", what("batch inversion"));
    }
    // a linear system
    let d = if vals.len() >= 6 { 2 } else { 1 };
    let m: Vec<Vec<K::T>> = (0..d).map(|r| (0..=d).map(|c| el[(r * (d + 1) + c) % el.len()].clone()).collect()).collect();
    let rows: Vec<Vec<C2>> = (0..d).map(|r| (0..=d).map(|c| vals[(r * (d + 1) + c) % vals.len()].clone()).collect()).collect();
    let det = if d == 1 { rows[0][0].clone() } else { rows[0][0].mul(&rows[1][1], &p).sub(&rows[0][1].mul(&rows[1][0], &p), &p) };
    match solve(m) {
        None => ensure!(det.is_zero(), "{}: singular, determinant {det:?}", what("linear system")),
        Some(t) => {
            ensure!(!det.is_zero(), "{}: solved, determinant 0", what("linear system"));
            for r in &rows {
                let lhs = (0..d).fold(C2(z(0), z(0)), |acc, c| acc.add(&r[c].mul(&K::val(&t[c]), &p), &p));
                ensure!(lhs == r[d], "{}: solution {:?}", what("linear system"), t.iter().map(|c| c.to_string()).collect::<Vec<_>>());
            }
        }
    }
    // Fermat, Frobenius, Euler
    let pu = ub(&p);
    let fr = K::powu(&el[0], &pu);
    is("p-th power", &fr, &if ext { C2(x.0.clone(), md(&-&x.1, &p)) } else { x.clone() })?;
    let y = el[1 % el.len()].clone();
    ensure!(K::powu(&(el[0].clone() + &y), &pu) == fr.clone() + K::powu(&y, &pu), "{}: (x+y)^p", what("Frobenius"));
    ensure!(K::powu(&(el[0].clone() * &y), &pu) == fr.clone() * K::powu(&y, &pu), "{}: (xy)^p", what("Frobenius"));
    let ord: Z = if ext { &p * &p - 1 } else { &p - 1 };
    let half = K::powu(&el[0], &ub(&(&ord >> 1usize)));
    let sq = el[0].is_square();
    ensure!(sq == (half.is_one() || half.is_zero()), "{}: is_square is {sq}, the power (q-1)/2 is {half}", what("Euler's criterion"));
    if !x.is_zero() {
        ensure!(half.is_one() || (half.clone() + &one).is_zero(), "{}: {half}", what("power (q-1)/2"));
    }
    if K::CLASS.ok(&p) {
        let s = (el[0].clone() * &el[0]).sqrt();
        ensure!(s == el[0] || s == K::neg(0, &el[0]), "{}: {s}", what("root of the square"));
    }
    // encodings of the values put together again
    for (v, w) in el.iter().zip(&vals) {
        if let Some(t) = K::from_be(&f, &v.to_bytes_be()) {
            is("decoded", &t, w)?;
        }
    }
    Ok(Obs::nt(vals.iter().any(|v| v != x)).n(20 + 3 * vals.len() as u64).lif(p.bits() > 128, "large field").lif(det.is_zero(), "singular system").lif(low8(&p) & 7 == 1, "p = 1 mod 8"))
}
pub fn c35() -> Property {
    fn s() -> BoxedStrategy<Alg> {
        (prime_r(), proptest::collection::vec((int_r(), int_r()), 2..9), any::<u8>()).prop_map(|(p, v, sel)| Alg { p, v, sel }).boxed()
    }
    Property {
        id: "C35",
        rule: "polynomial evaluation and interpolation, batch inversion, Gaussian elimination, sums, products, setters, conditional moves, powers, Frobenius and Euler's criterion written against the Field and FieldElement interfaces, on 2 to 8 elements from recipes made by different instances of a prime or extension field; every result compared with the same algorithm over num-bigint or with the relation it must satisfy; non-trivial: two different elements",
        assumptions: &["num-bigint arithmetic"],
        clauses: vec![
            pt("prime-field", 6000, 120000, s, |k: &Alg| alg_case::<K1>(k, Class::Any)),
            pt("extension-field", 3000, 60000, s, |k: &Alg| alg_case::<K2>(k, Class::P3mod4)),
        ],
    }
}
