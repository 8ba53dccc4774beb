//! C21-C26: maps from field elements to curve points and their constructors.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_group::{is_pt, variant};
use crate::p_inst::{iso, ref_pull, the_iso, the_map};
use crate::refm::*;
use crate::world::*;
use num_traits::{One, Zero};
use proptest::prelude::*;
use redox_ecc::ellipticcurve::{EllipticCurve, Isogeny, MapToCurve, RationalMap};
use redox_ecc::primefield::FpElt;
use redox_ecc::{edwards, montgomery, weierstrass};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- curves for maps
pub struct MW<M: Model> {
    names: Vec<String>,
    m: HashMap<String, World<M>>,
}
fn build_mw<M: Model>() -> MW<M> {
    let mut r = MW { names: vec![], m: HashMap::new() };
    for s in map_toys(M::K) {
        if Class::Not1mod8.ok(&s.p) {
            r.names.push(s.name.clone());
            r.m.insert(s.name.clone(), World::of(s.clone()));
        }
    }
    r
}
pub fn mww() -> &'static MW<W> {
    static S: OnceLock<MW<W>> = OnceLock::new();
    S.get_or_init(build_mw)
}
pub fn mwm() -> &'static MW<M> {
    static S: OnceLock<MW<M>> = OnceLock::new();
    S.get_or_init(build_mw)
}
impl MW<W> {
    pub fn get(&'static self, n: &str) -> &'static World<W> {
        self.m.get(n).unwrap_or_else(|| w::<W>(n))
    }
}
impl MW<M> {
    pub fn get(&'static self, n: &str) -> &'static World<M> {
        self.m.get(n).unwrap_or_else(|| w::<M>(n))
    }
}
/// names of curves on which some Z is admissible
pub(crate) fn with_z<M: Model>(mw: &'static MW<M>, ok: fn(&Spec, &Z) -> bool, toy: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if toy {
        for n in &mw.names {
            let s = &mw.m[n].s;
            let mut k = z(0);
            while k < s.p && k < z(200) {
                if ok(s, &k) {
                    v.push(n.clone());
                    break;
                }
                k += 1;
            }
        }
    } else {
        for w in &M::worlds().v {
            if w.big() && w.not1mod8() && (0..200).any(|k| ok(&w.s, &z(k))) {
                v.push(w.s.name.clone());
            }
        }
    }
    v
}
pub(crate) fn next_z(s: &Spec, from: &Z, ok: fn(&Spec, &Z) -> bool) -> Z {
    let mut k = md(from, &s.p);
    for _ in 0..5000 {
        if ok(s, &k) {
            return k;
        }
        k = md(&(k + 1), &s.p);
    }
    // a toy curve with all its admissible values far from the start
    let mut k = z(0);
    while !ok(s, &k) {
        k += 1;
    }
    k
}
fn std_z(name: &str) -> Option<i64> {
    Some(match name {
        "P256" => -10,
        "P384" => -12,
        "P521" => -4,
        "secp256k1_3iso" => -11,
        "bls12381_g1_11iso" => 11,
        "curve25519" | "edwards25519" => 2,
        "curve448" | "edwards448" => -1,
        _ => return None,
    })
}
/// Z recipe: 0 asks for the standard one
pub(crate) fn pick_z(s: &Spec, r: &IntR, ok: fn(&Spec, &Z) -> bool) -> Z {
    if let (IntR::S(0), Some(k)) = (r, std_z(&s.name)) {
        let k = md(&z(k), &s.p);
        assert!(ok(s, &k), "standard Z of {}", s.name);
        return k;
    }
    next_z(s, &r.e(&s.p), ok)
}
pub(crate) fn z_s() -> BoxedStrategy<IntR> {
    prop_oneof![4 => Just(IntR::S(0)), 3 => (0u16..40).prop_map(IntR::S), 2 => (1u16..40).prop_map(IntR::N), 3 => wide().prop_map(IntR::L)].boxed()
}
/// both square roots of v
fn both_roots(v: &Z, p: &Z) -> Vec<Z> {
    match sqrtm(v, p) {
        Some(r) => vec![md(&-&r, p), r],
        None => vec![],
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MapU {
    c: String,
    z: IntR,
    u: IntR,
    /// input mapped in between
    v: IntR,
}
pub(crate) fn u_s() -> BoxedStrategy<IntR> {
    prop_oneof![3 => (0u8..32).prop_map(IntR::X), 8 => int_r(), 3 => wide().prop_map(IntR::L)].boxed()
}
fn mapu_s<M: Model>(mw: &'static MW<M>, ok: fn(&Spec, &Z) -> bool) -> BoxedStrategy<MapU> {
    let c = prop_oneof![
        4 => proptest::sample::select(with_z(mw, ok, true)),
        6 => proptest::sample::select(with_z(mw, ok, false)),
    ];
    (c, z_s(), u_s(), u_s()).prop_map(|(c, z, u, v)| MapU { c, z, u, v }).boxed()
}
fn std_s(names: &'static [&'static str]) -> BoxedStrategy<MapU> {
    (proptest::sample::select(names), z_s(), u_s(), u_s()).prop_map(|(c, z, u, v)| MapU { c: c.to_string(), z, u, v }).boxed()
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CZ {
    c: String,
    z: i64,
}
/// every admissible Z of every toy curve up to the limit
fn every_z<M: Model>(mw: &'static MW<M>, ok: fn(&Spec, &Z) -> bool, lim: i64) -> Vec<CZ> {
    let mut v = vec![];
    for n in &mw.names {
        let s = &mw.m[n].s;
        if s.p <= z(lim) {
            let p: i64 = s.p.to_string().parse().unwrap();
            v.extend((0..p).filter(|k| ok(s, &z(*k))).map(|k| CZ { c: n.clone(), z: k }));
        }
    }
    v
}

/// run the map on u twice with another input in between, and on a second instance
fn check_map<M: Model, T: MapToCurve<E = M::C>>(
    w: &World<M>,
    mk: &dyn Fn(&M::C, &FpElt) -> T,
    zz: &Z,
    u: &Z,
    v: &Z,
    want: &dyn Fn(&Z) -> (Z, Z),
    name: &str,
) -> Result<(), String> {
    let c = w.curve();
    let f = c.get_field();
    let m = mk(&c, &fe(&f, zz));
    let what = format!("{name} with Z={zz} of u={u}");
    let q1 = m.map(&fe(&f, u));
    is_pt(w, &c, &what, &q1, &Some(want(u)))?;
    let q2 = m.map(&fe(&f, v));
    is_pt(w, &c, &format!("{name} with Z={zz} of u={v}"), &q2, &Some(want(v)))?;
    is_pt(w, &c, &format!("{what} (again)"), &m.map(&fe(&f, u)), &Some(want(u)))?;
    // input element and Z from other instances of the field
    let c2 = w.curve();
    let m2 = mk(&c2, &fe(&w.curve().get_field(), zz));
    let q3 = m2.map(&fe(&c.get_field(), u));
    is_pt(w, &c2, &format!("{what} (second instance)"), &q3, &Some(want(u)))
}
// ---------------------------------------------------------------- C21
pub(crate) fn sswu_sp(s: &Spec, zz: &Z) -> Vec<Z> {
    let p = &s.p;
    let mut v = vec![z(0)];
    v.extend(both_roots(&md(&-inv0(zz, p), p), p));
    v.push(z(1));
    v.push(p - 1);
    v
}
fn sswu_case(k: &MapU) -> Res {
    let w = mww().get(&k.c);
    let s = &w.s;
    let zz = pick_z(s, &k.z, sswu_exists);
    let sp = sswu_sp(s, &zz);
    let (u, v) = (k.u.ev(&s.p, &sp), k.v.ev(&s.p, &sp));
    check_map(w, &|c, zv| weierstrass::SSWU::new(c.clone(), zv.clone()), &zz, &u, &v, &|u| sswu(s, &zz, u).0, "SSWU")?;
    let (q, br) = sswu(s, &zz, &u);
    Ok(Obs::nt(true).n(3).lif(br == 0, "exceptional x").lif(br == 1, "first candidate").lif(br == 2, "second candidate")
        .lif(q.1.is_zero(), "y = 0").lif(u.is_zero(), "u = 0").lif(odd(&u), "odd u").lif(w.big(), "large field")
        .lif(low8(&s.p) & 3 == 1, "p = 5 mod 8"))
}
fn sswu_ex(k: &CZ) -> Res {
    let w = mww().get(&k.c);
    let s = &w.s;
    let zz = z(k.z);
    let c = w.curve();
    let f = c.get_field();
    let m = weierstrass::SSWU::new(c.clone(), fe(&f, &zz));
    let mut u = z(0);
    while u < s.p {
        is_pt(w, &c, &format!("SSWU with Z={zz} of u={u}"), &m.map(&fe(&f, &u)), &Some(sswu(s, &zz, &u).0))?;
        u += 1;
    }
    Ok(Obs::nt(true).n(k.c.len() as u64))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Kat {
    c: String,
    z: i64,
    u: String,
    x: String,
    y: String,
}
fn sswu_kat(k: &Kat) -> Res {
    let w = mww().get(&k.c);
    let c = w.curve();
    let f = c.get_field();
    let m = weierstrass::SSWU::new(c.clone(), fe(&f, &z(k.z)));
    is_pt(w, &c, "RFC 9380 vector", &m.map(&fe(&f, &zhex(&k.u))), &Some((zhex(&k.x), zhex(&k.y))))?;
    Ok(Obs::nt(true))
}
pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "curves (toy, word-boundary, standard) with admissible Z (standard or next admissible from a recipe), u from recipes incl. 0, +-1 and the roots of Zu^2 = -1; every case maps u, another input, u again, and u on a second instance; exhaustive clause: every toy curve, every admissible Z, every u; all cases non-trivial",
        assumptions: &["simplified SWU evaluated in affine form over num-bigint from its definition (RFC 9380 6.6.2)"],
        clauses: vec![
            en("rfc9380-vectors", |_| vec![Kat {
                c: "P256".into(), z: -10,
                u: "ad5342c66a6dd0ff080df1da0ea1c04b96e0330dd89406465eeba11582515009".into(),
                x: "ab640a12220d3ff283510ff3f4b1953d09fad35795140b1c5d64f313967934d5".into(),
                y: "dccb558863804a881d4fff3455716c836cef230e5209594ddd33d85c565b19b1".into(),
            }], sswu_kat),
            en("exhaustive-toy-curves", |t| every_z(mww(), sswu_exists, if t == Tier::Quick { 43 } else { 260 }), sswu_ex),
            pt("all-curves", 5000, 120000, || mapu_s(mww(), sswu_exists), sswu_case),
            pt("standard-curves", 2000, 50000, || std_s(&["P256", "P384", "P521", "secp256k1_3iso", "bls12381_g1_11iso"]), sswu_case),
        ],
    }
}

// ---------------------------------------------------------------- C22
/// an isogeny of toy curves given by its kernel, evaluated by the reference
pub struct ToyIso {
    pub dom: World<W>,
    pub cod: World<W>,
    pub velu: Velu,
}
pub fn toy_isos() -> &'static Vec<ToyIso> {
    static S: OnceLock<Vec<ToyIso>> = OnceLock::new();
    S.get_or_init(|| {
        let mut out: Vec<ToyIso> = vec![];
        for p in [7u64, 11, 13, 19, 23, 29, 31, 37, 43, 47, 53, 59, 61, 67] {
            let mut here = 0;
            let zp = z(p as i64);
            for a in 1..p {
                for b in 1..p {
                    let dom = Spec {
                        kind: Kind::W,
                        name: format!("D/{p}/{a}/{b}"),
                        builtin: false,
                        ordered: false,
                        p: zp.clone(),
                        a: z(a as i64),
                        b: z(b as i64),
                        s: z(0),
                        r: z(7),
                        h: z(1),
                        gx: z(0),
                        gy: z(1),
                    };
                    if (4 * (a * a % p * a % p) + 27 * (b * b % p)) % p == 0 || here >= 6 {
                        continue;
                    }
                    if !(1..p as i64).any(|k| sswu_exists(&dom, &z(k))) {
                        continue;
                    }
                    for x in 0..p as i64 {
                        let Some(q) = dom.lift(&z(x), false) else { continue };
                        let n = (2..=7i64).find(|n| dom.mul(&q, &z(*n)) == None);
                        let Some(n) = n.filter(|n| n % 2 == 1) else { continue };
                        let half: Vec<Z> = (1..=(n - 1) / 2).map(|i| dom.mul(&q, &z(i)).unwrap().0).collect();
                        let velu = Velu { dom: dom.clone(), half, k: Z::one() };
                        let (ca, cb) = velu.codomain();
                        if ca.is_zero() == cb.is_zero() {
                            continue;
                        }
                        let cod = Spec { a: ca, b: cb, name: format!("{}->{n}", dom.name), ..dom.clone() };
                        out.push(ToyIso { dom: World::of(dom.clone()), cod: World::of(cod), velu });
                        here += 1;
                        break;
                    }
                }
            }
        }
        out
    })
}
pub(crate) struct RefIso {
    pub i: usize,
    pub d: weierstrass::Curve,
    pub c: weierstrass::Curve,
}
impl Isogeny for RefIso {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> Self::E0 {
        self.d.clone()
    }
    fn codomain(&self) -> Self::E1 {
        self.c.clone()
    }
    fn push(&self, p: weierstrass::Point) -> weierstrass::Point {
        let t = &toy_isos()[self.i];
        let q = t.dom.aff(&p).expect("valid point");
        t.cod.mk(&self.c, &t.velu.push(&q))
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IsoU {
    i: u8,
    z: IntR,
    u: IntR,
    v: IntR,
}
/// inputs whose point falls in the kernel of the isogeny
pub(crate) fn kernel_us(s: &Spec, zz: &Z, xs: &[Z]) -> Vec<Z> {
    let p = &s.p;
    let mut v = vec![];
    for x in xs {
        // x1 = -B/A (1 + 1/(t^2+t)) or x2 = t x1, t = Z u^2
        let q = md(&(-x * &s.a * inv0(&s.b, p) - 1), p); // = 1/(t^2+t) for x = x1
        let mut ts = vec![];
        if nz(&q) {
            ts.extend(roots(&[md(&-inv0(&q, p), p), z(1), z(1)], p));
        }
        // x = x2: t x1 = x  =>  -B (t^2 + t + 1) = A x (t + 1)
        ts.extend(roots(&[md(&(&s.b + &s.a * x), p), md(&(&s.b + &s.a * x), p), s.b.clone()], p));
        for t in ts {
            for u in both_roots(&mulm(&t, &inv0(zz, p), p), p) {
                if sswu(s, zz, &u).0 .0 == *x {
                    v.push(u);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
fn ab0_std(k: &IsoU) -> Res {
    let iw = iso(k.i % 2);
    let s = &iw.dom.s;
    let zz = pick_z(s, &k.z, sswu_exists);
    let mut sp = kernel_us(s, &zz, &iw.velu.half);
    let nk = sp.len();
    sp.extend(sswu_sp(s, &zz));
    let (u, v) = (k.u.ev(&s.p, &sp), k.v.ev(&s.p, &sp));
    let want = |u: &Z| iw.velu.push(&Some(sswu(s, &zz, u).0));
    let c = iw.cod.curve();
    let f = c.get_field();
    let m = weierstrass::SSWUAB0::new(c.clone(), fe(&f, &zz), the_iso(k.i % 2));
    for u in [&u, &v, &u] {
        is_pt(iw.cod, &c, &format!("SSWUAB0 with Z={zz} of u={u}"), &m.map(&fe(&f, u)), &want(u))?;
    }
    Ok(Obs::nt(true).n(2).lif(want(&u).is_none(), "kernel input").lif(nk > 0, "curve with kernel inputs")
        .lif(k.z == IntR::S(0), "standard Z"))
}
fn ab0_toy(k: &IsoU) -> Res {
    let i = k.i as usize % toy_isos().len();
    let t = &toy_isos()[i];
    let s = &t.dom.s;
    let zz = next_z(s, &k.z.e(&s.p), sswu_exists);
    let c = t.cod.curve();
    let f = c.get_field();
    let m = weierstrass::SSWUAB0::new(c.clone(), fe(&f, &zz), Box::new(RefIso { i, d: t.dom.curve(), c: t.cod.curve() }));
    let mut u = z(0);
    while u < s.p {
        let want = t.velu.push(&Some(sswu(s, &zz, &u).0));
        is_pt(&t.cod, &c, &format!("SSWUAB0 with Z={zz} of u={u} from {}", s.name), &m.map(&fe(&f, &u)), &want)?;
        u += 1;
    }
    Ok(Obs::nt(true).n(5).lif(t.cod.s.a.is_zero(), "a = 0").lif(t.cod.s.b.is_zero(), "b = 0"))
}
pub fn c22() -> Property {
    fn s() -> BoxedStrategy<IsoU> {
        (0u8..2, z_s(), u_s(), u_s()).prop_map(|(i, z, u, v)| IsoU { i, z, u, v }).boxed()
    }
    fn toy(t: Tier) -> Vec<IsoU> {
        let nz = if t == Tier::Quick { 6 } else { 60 };
        (0..toy_isos().len()).flat_map(|i| (0..nz).map(move |k| IsoU { i: i as u8, z: IntR::S(k), u: IntR::S(0), v: IntR::S(0) })).collect()
    }
    Property {
        id: "C22",
        rule: "secp256k1 and BLS12-381 G1 with standard and other admissible Z, u from recipes incl. exceptional inputs and inputs whose SSWU point is in the isogeny's kernel; toy clause: isogenies of degree 3, 5, 7 onto toy curves with one zero coefficient supplied by the harness, every u; all cases non-trivial",
        assumptions: &["simplified SWU and Velu's formulas evaluated over num-bigint"],
        clauses: vec![
            en("toy-isogenies", toy, ab0_toy),
            pt("standard-curves", 5000, 120000, s, ab0_std),
        ],
    }
}

// ---------------------------------------------------------------- C23
pub(crate) fn svdw_sp(s: &Spec, zz: &Z) -> Vec<Z> {
    let p = &s.p;
    let ig = inv0(&s.g(zz), p);
    let mut v = vec![z(0)];
    v.extend(both_roots(&ig, p));
    v.extend(both_roots(&md(&-&ig, p), p));
    v.push(z(1));
    v.push(p - 1);
    v
}
fn svdw_case(k: &MapU) -> Res {
    let w = mww().get(&k.c);
    let s = &w.s;
    let zz = next_z(s, &k.z.e(&s.p), svdw_exists);
    let sp = svdw_sp(s, &zz);
    let (u, v) = (k.u.ev(&s.p, &sp), k.v.ev(&s.p, &sp));
    check_map(w, &|c, zv| weierstrass::SVDW::new(c.clone(), zv.clone()), &zz, &u, &v, &|u| svdw(s, &zz, u).0, "SVDW")?;
    let (q, br, exc) = svdw(s, &zz, &u);
    Ok(Obs::nt(true).n(3).lif(exc, "vanishing denominator").lif(br == 1, "first candidate").lif(br == 2, "second candidate")
        .lif(br == 3, "third candidate").lif(q.1.is_zero(), "y = 0").lif(w.big(), "large field")
        .lif(s.a.is_zero() || s.b.is_zero(), "zero coefficient").lif(low8(&s.p) & 3 == 1, "p = 5 mod 8"))
}
fn svdw_ex(k: &CZ) -> Res {
    let w = mww().get(&k.c);
    let s = &w.s;
    let zz = z(k.z);
    let c = w.curve();
    let f = c.get_field();
    let m = weierstrass::SVDW::new(c.clone(), fe(&f, &zz));
    let mut u = z(0);
    while u < s.p {
        is_pt(w, &c, &format!("SVDW with Z={zz} of u={u}"), &m.map(&fe(&f, &u)), &Some(svdw(s, &zz, &u).0))?;
        u += 1;
    }
    Ok(Obs::nt(true).n(k.c.len() as u64))
}
pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "curves (toy, word-boundary, standard) with admissible Z, u from recipes incl. 0, +-1 and the inputs that make a denominator vanish; every case maps u, another input, u again, and u on a second instance; exhaustive clause: every toy curve, every admissible Z, every u; all cases non-trivial",
        assumptions: &["Shallue-van de Woestijne evaluated in affine form over num-bigint from its definition (RFC 9380 6.6.1, with c3 of sign +1)"],
        clauses: vec![
            en("exhaustive-toy-curves", |t| every_z(mww(), svdw_exists, if t == Tier::Quick { 31 } else { 260 }), svdw_ex),
            pt("all-curves", 5000, 120000, || mapu_s(mww(), svdw_exists), svdw_case),
            pt("standard-curves", 2000, 50000, || std_s(&["P256", "P384", "P521", "secp256k1", "secp256k1_3iso", "bls12381_g1", "bls12381_g1_11iso"]), svdw_case),
        ],
    }
}

// ---------------------------------------------------------------- C24
pub fn ell2_ok(s: &Spec, zz: &Z) -> bool {
    jacobi(zz, &s.p) == -1 && nz(&s.a) && nz(&s.b)
}
/// 0, roots of Zu^2 = -1, and inputs reaching the low-order points
pub fn ell2_sp(s: &Spec, low: &[RP], zz: &Z) -> Vec<Z> {
    let p = &s.p;
    let iz = inv0(zz, p);
    let mut v = vec![z(0)];
    v.extend(both_roots(&md(&-&iz, p), p));
    let j = mulm(&s.a, &inv0(&s.b, p), p);
    for q in low.iter().flatten() {
        let x = mulm(&q.0, &inv0(&s.b, p), p);
        for x1 in [x.clone(), md(&(-&j - &x), p)] {
            // x1 = -J / (1 + Z u^2)
            let t = md(&((-&j * inv0(&x1, p) - 1) * &iz), p);
            v.extend(both_roots(&t, p));
        }
    }
    v.push(z(1));
    v.push(p - 1);
    v
}
fn ell2_case(k: &MapU) -> Res {
    let w = mwm().get(&k.c);
    let s = &w.s;
    let zz = pick_z(s, &k.z, ell2_ok);
    let sp = if s.p < z(3000) || w.s.ordered { ell2_sp(s, w.low(), &zz) } else { ell2_sp(s, &[], &zz) };
    let (u, v) = (k.u.ev(&s.p, &sp), k.v.ev(&s.p, &sp));
    let mk = |c: &montgomery::Curve, zv: &FpElt| montgomery::Ell2::new(c.clone(), zv.clone());
    check_map(w, &mk, &zz, &u, &v, &|u| ell2(s, &zz, u).0, "Elligator 2")?;
    let c = w.curve();
    let f = c.get_field();
    let m = mk(&c, &fe(&f, &zz));
    ensure!(m.map(&fe(&f, &u)) == m.map(&fe(&f, &-&u)), "{}: u={u} and -u map to different points", s.name);
    let (q, br) = ell2(s, &zz, &u);
    Ok(Obs::nt(true).n(4).lif(br == 0, "exceptional input").lif(br == 1, "first candidate").lif(br == 2, "second candidate")
        .lif(q.1.is_zero(), "y = 0").lif(!s.b.is_one(), "b != 1").lif(w.big(), "large field").lif(low8(&s.p) & 3 == 1, "p = 5 mod 8")
        .lif(w.low().contains(&Some(q)), "low-order image"))
}
fn ell2_ex(k: &CZ) -> Res {
    let w = mwm().get(&k.c);
    let s = &w.s;
    let zz = z(k.z);
    let c = w.curve();
    let f = c.get_field();
    let m = montgomery::Ell2::new(c.clone(), fe(&f, &zz));
    let mut u = z(0);
    while u < s.p {
        is_pt(w, &c, &format!("Elligator 2 with Z={zz} of u={u}"), &m.map(&fe(&f, &u)), &Some(ell2(s, &zz, &u).0))?;
        u += 1;
    }
    Ok(Obs::nt(true).n(k.c.len() as u64))
}
pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "Montgomery curves (toy with every b, word-boundary, standard) with standard or other non-square Z, u from recipes incl. 0, the roots of Zu^2 = -1 and preimages of low-order points; every case maps u, -u, another input, u again, and u on a second instance; exhaustive clause: every toy curve, every non-square Z, every u; all cases non-trivial",
        assumptions: &["Elligator 2 evaluated in affine form over num-bigint from its definition (RFC 9380 6.7.1)"],
        clauses: vec![
            en("exhaustive-toy-curves", |t| every_z(mwm(), ell2_ok, if t == Tier::Quick { 31 } else { 260 }), ell2_ex),
            pt("all-curves", 5000, 120000, || mapu_s(mwm(), ell2_ok), ell2_case),
            pt("standard-curves", 1600, 40000, || std_s(&["curve25519", "curve448"]), ell2_case),
        ],
    }
}

// ---------------------------------------------------------------- C25
/// canonical birational map of a toy Edwards curve, evaluated by the reference
pub(crate) struct ToyMap {
    pub e: edwards::Curve,
    pub m: montgomery::Curve,
    pub es: &'static World<E>,
    pub ms: World<M>,
}
pub(crate) fn mont_of(e: &Spec) -> Spec {
    let p = &e.p;
    let i = inv0(&(&e.a - &e.b), p);
    let mut m = e.clone();
    m.kind = Kind::M;
    m.ordered = false;
    m.name = format!("M({})", e.name);
    m.a = md(&(2 * (&e.a + &e.b) * &i), p);
    m.b = md(&(4 * &i), p);
    m.s = z(1);
    let (gx, gy) = toy_push(p, &e.gen()).unwrap_or((z(0), z(0)));
    m.gx = gx;
    m.gy = gy;
    m
}
pub(crate) fn toy_push(p: &Z, q: &RP) -> RP {
    let (x, y) = q.as_ref().unwrap();
    if x.is_zero() {
        return if y.is_one() { None } else { Some((z(0), z(0))) };
    }
    let u = mulm(&(1 + y), &inv0(&(1 - y), p), p);
    Some((u.clone(), mulm(&u, &inv0(x, p), p)))
}
pub(crate) fn toy_pull(p: &Z, q: &RP) -> RP {
    match q {
        None => Some((z(0), z(1))),
        Some((u, v)) => {
            if v.is_zero() {
                return Some((z(0), p - 1));
            }
            Some((mulm(u, &inv0(v, p), p), mulm(&(u - 1), &inv0(&(u + 1), p), p)))
        }
    }
}
impl RationalMap for ToyMap {
    type E0 = edwards::Curve;
    type E1 = montgomery::Curve;
    fn domain(&self) -> Self::E0 {
        self.e.clone()
    }
    fn codomain(&self) -> Self::E1 {
        self.m.clone()
    }
    fn push(&self, p: edwards::Point) -> montgomery::Point {
        self.ms.mk(&self.m, &toy_push(&self.es.s.p, &self.es.aff(&p).unwrap()))
    }
    fn pull(&self, p: montgomery::Point) -> edwards::Point {
        self.es.mk(&self.e, &toy_pull(&self.es.s.p, &self.ms.aff(&p).unwrap()))
    }
}
pub(crate) fn toy_e_ok(w: &World<E>) -> bool {
    w.not1mod8() && nz(&md(&(&w.s.a + &w.s.b), &w.s.p)) && !w.s.builtin && !all_specs().iter().any(|s| s.name == w.s.name)
}
fn ed_std(k: &MapU) -> Res {
    let i = (k.c == "edwards448") as u8;
    let we = w::<E>(&k.c);
    let wm = w::<M>(if i == 0 { "curve25519" } else { "curve448" });
    let s = &wm.s;
    let r = if k.z == IntR::S(0) { IntR::S(0) } else { k.z.clone() };
    let zz = pick_z(s, &r, ell2_ok);
    let sp = ell2_sp(s, wm.low(), &zz);
    let (u, v) = (k.u.ev(&s.p, &sp), k.v.ev(&s.p, &sp));
    let c = we.curve();
    let f = c.get_field();
    let m = edwards::Ell2::new(c.clone(), fe(&f, &zz), Some(the_map(i)));
    for u in [&u, &v, &u] {
        let q = Some(ell2(s, &zz, u).0);
        is_pt(we, &c, &format!("Edwards Elligator 2 with Z={zz} of u={u}"), &m.map(&fe(&f, u)), &ref_pull(i, &q))?;
    }
    let q = Some(ell2(s, &zz, &u).0);
    Ok(Obs::nt(true).n(2).lif(wm.low().contains(&q), "low-order Montgomery point").lif(k.z == IntR::S(0), "standard Z"))
}
fn ed_toy(k: &MapU) -> Res {
    let we = w::<E>(&k.c);
    let ms = mont_of(&we.s);
    let wm = World::<M>::of(ms.clone());
    let p = &ms.p;
    let zz = next_z(&ms, &k.z.e(p), ell2_ok);
    let c = we.curve();
    let f = c.get_field();
    let rm = ToyMap { e: we.curve(), m: wm.curve(), es: we, ms: wm };
    let m = edwards::Ell2::new(c.clone(), fe(&f, &zz), Some(Box::new(rm)));
    let sp = ell2_sp(&ms, &[Some((z(0), z(0)))], &zz);
    let mut us = vec![k.u.ev(p, &sp), k.v.ev(p, &sp)];
    if p < &z(60) {
        let mut u = z(0);
        while &u < p {
            us.push(u.clone());
            u += 1;
        }
    }
    let mut low = false;
    for u in &us {
        let q = ell2(&ms, &zz, u).0;
        low |= q.1.is_zero();
        is_pt(we, &c, &format!("Edwards Elligator 2 with Z={zz} of u={u}"), &m.map(&fe(&f, u)), &toy_pull(p, &Some(q)))?;
    }
    Ok(Obs::nt(true).n(us.len() as u64 - 1).lif(low, "image of order 2"))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Dom {
    i: u8,
    c: String,
    v: u8,
    z: IntR,
}
fn ed_domain(k: &Dom) -> Res {
    let i = k.i % 2;
    let we = w::<E>(if i == 0 { "edwards25519" } else { "edwards448" });
    let wm = w::<M>(if i == 0 { "curve25519" } else { "curve448" });
    let zz = pick_z(&wm.s, &k.z, ell2_ok);
    let good = we.curve();
    ensure!(
        attempt(|| edwards::Ell2::new(good.clone(), fe(&good.get_field(), &zz), Some(the_map(i)))).is_some(),
        "the map on its own domain was refused: {}", last_panic()
    );
    let other = if k.v % 3 == 0 { w::<E>(&k.c).curve() } else { variant::<E>(&we.s, k.v).curve() };
    if other == good {
        return Ok(Obs::nt(false));
    }
    let name = if k.v % 3 == 0 { k.c.clone() } else { format!("variant {} of {}", k.v, we.s.name) };
    ensure!(
        attempt(|| edwards::Ell2::new(other.clone(), fe(&good.get_field(), &zz), Some(the_map(i)))).is_none(),
        "Elligator 2 for {name} accepted the map of {}", we.s.name
    );
    Ok(Obs::nt(true))
}
pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "edwards25519 and edwards448 with standard and other non-square Z, toy and word-boundary Edwards curves with a rational map supplied by the harness, u from recipes incl. inputs hitting low-order Montgomery points (all u on small toy curves), wrong-domain constructions; all cases non-trivial except the same-curve draw",
        assumptions: &["Elligator 2 and the RFC 7748 / canonical birational maps evaluated over num-bigint"],
        clauses: vec![
            pt("standard-curves", 3000, 80000, || std_s(&["edwards25519", "edwards448"]), ed_std),
            pt("custom-maps", 2500, 60000, || {
                (curve_name::<E>((3, 2, 0), toy_e_ok), z_s(), u_s(), u_s()).prop_map(|(c, z, u, v)| MapU { c, z, u, v }).boxed()
            }, ed_toy),
            pt("wrong-domain", 1200, 20000, || {
                (0u8..2, curve_name::<E>((2, 1, 3), |_| true), any::<u8>(), z_s()).prop_map(|(i, c, v, z)| Dom { i, c, v, z }).boxed()
            }, ed_domain),
        ],
    }
}

// ---------------------------------------------------------------- C26
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Toy {
    p: i64,
    a: i64,
    b: i64,
}
fn toy_spec(kind: Kind, k: &Toy) -> Spec {
    Spec {
        kind,
        name: format!("K/{}/{}/{}", k.p, k.a, k.b),
        builtin: false,
        ordered: false,
        p: z(k.p),
        a: z(k.a),
        b: z(k.b),
        s: z(1),
        r: z(7),
        h: z(1),
        gx: z(0),
        gy: z(1),
    }
}
fn agree(name: &str, s: &Spec, zz: &Z, got: bool, want: bool) -> Result<(), String> {
    ensure!(got == want, "{name} for {} (a={} b={} p={}) with Z={zz}: {}", s.name, s.a, s.b, s.p,
        if got { "accepted, not admissible".to_string() } else { format!("refused, admissible ({})", last_panic()) });
    Ok(())
}
fn ctor_ex(k: &Toy) -> Res {
    let s = toy_spec(Kind::W, k);
    let w = World::<W>::of(s.clone());
    let c = w.curve();
    let f = c.get_field();
    let mut ok = 0;
    for i in 0..k.p {
        let zz = z(i);
        let want = sswu_exists(&s, &zz);
        ok += want as u64;
        agree("SSWU", &s, &zz, attempt(|| weierstrass::SSWU::new(c.clone(), fe(&f, &zz))).is_some(), want)?;
        if k.p % 8 != 1 {
            let want = svdw_exists(&s, &zz);
            ok += want as u64;
            agree("SVDW", &s, &zz, attempt(|| weierstrass::SVDW::new(c.clone(), fe(&f, &zz))).is_some(), want)?;
        }
    }
    Ok(Obs::nt(ok > 0).n(2 * k.p as u64))
}
fn ctor_m(k: &Toy) -> Res {
    let s = toy_spec(Kind::M, k);
    let w = World::<M>::of(s.clone());
    let c = w.curve();
    let f = c.get_field();
    for i in 0..k.p {
        let zz = z(i);
        if jacobi(&zz, &s.p) == -1 {
            let want = k.a != 0 && k.b != 0;
            agree("Elligator 2", &s, &zz, attempt(|| montgomery::Ell2::new(c.clone(), fe(&f, &zz))).is_some(), want)?;
        }
    }
    Ok(Obs::nt(true).n(k.p as u64 / 2))
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BigC {
    c: String,
    /// 0: the curve's own coefficients; otherwise a (1) or b (2) replaced by zero
    m: u8,
    z: IntR,
}
fn ctor_big(k: &BigC) -> Res {
    let mut s = w::<W>(&k.c).s.clone();
    s.builtin = false;
    s.name = format!("{}({})", k.c, k.m);
    match k.m {
        1 => s.a = z(0),
        2 => s.b = z(0),
        _ => {}
    }
    let p = &s.p;
    if md(&(z(4) * &s.a * &s.a * &s.a + z(27) * &s.b * &s.b), p).is_zero() {
        return Ok(Obs::nt(false));
    }
    let w = World::<W>::of(s.clone());
    // Z values near the boundary of each condition
    let mut sp = vec![z(0), p - 1];
    sp.extend(roots(&[s.b.clone(), s.a.clone(), z(0), z(1)], p));
    for r in roots(&[s.b.clone(), s.a.clone(), z(0), z(1)], p) {
        sp.push(md(&(-2 * &r), p));
        sp.push(mulm(&s.b, &inv0(&(&r * &s.a), p), p));
    }
    sp.extend(both_roots(&md(&(-Z::from(4 * &s.a) * inv0(&z(3), p)), p), p));
    let zz = k.z.ev(p, &sp);
    let c = w.curve();
    let f = c.get_field();
    let (w1, w2) = (sswu_exists(&s, &zz), svdw_exists(&s, &zz));
    agree("SSWU", &s, &zz, attempt(|| weierstrass::SSWU::new(c.clone(), fe(&f, &zz))).is_some(), w1)?;
    if w.not1mod8() {
        agree("SVDW", &s, &zz, attempt(|| weierstrass::SVDW::new(c.clone(), fe(&f, &zz))).is_some(), w2)?;
    }
    Ok(Obs::nt(true).n(1).lif(w1, "SSWU accepts").lif(w2, "SVDW accepts").lif(!w1 && !w2, "both refuse"))
}
struct Fake {
    d: weierstrass::Curve,
    c: weierstrass::Curve,
}
impl Isogeny for Fake {
    type E0 = weierstrass::Curve;
    type E1 = weierstrass::Curve;
    fn domain(&self) -> Self::E0 {
        self.d.clone()
    }
    fn codomain(&self) -> Self::E1 {
        self.c.clone()
    }
    fn push(&self, _: weierstrass::Point) -> weierstrass::Point {
        self.c.identity()
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ab0 {
    d: Toy,
    e: Toy,
    c: Toy,
    z: i64,
}
fn ctor_ab0(k: &Ab0) -> Res {
    let (d, e, c) = (toy_spec(Kind::W, &k.d), toy_spec(Kind::W, &k.e), toy_spec(Kind::W, &k.c));
    let zz = z(k.z);
    let want = (k.e.a, k.e.b, k.e.p) == (k.c.a, k.c.b, k.c.p) && ((k.e.a == 0) != (k.e.b == 0)) && sswu_exists(&d, &zz);
    let (cd, ce, cc) = (World::<W>::of(d.clone()).curve(), World::<W>::of(e.clone()).curve(), World::<W>::of(c).curve());
    let f = cd.get_field();
    let got = attempt(|| weierstrass::SSWUAB0::new(ce.clone(), fe(&f, &zz), Box::new(Fake { d: cd.clone(), c: cc.clone() }))).is_some();
    ensure!(got == want, "SSWUAB0 for a={} b={} p={} with an isogeny {:?} -> {:?}, Z={zz}: {}", k.e.a, k.e.b, k.e.p, k.d, k.c,
        if got { "accepted, not admissible".to_string() } else { format!("refused, admissible ({})", last_panic()) });
    Ok(Obs::nt(true).lif(want, "accepted").lif(!want, "refused"))
}
fn ab0_s() -> BoxedStrategy<Ab0> {
    fn nonsing(k: &Toy) -> bool {
        (4 * k.a * k.a * k.a + 27 * k.b * k.b) % k.p != 0
    }
    (proptest::sample::select(vec![7i64, 11, 13, 19, 23]), any::<[u8; 8]>(), 0u8..8)
        .prop_map(|(p, r, kind)| {
            let t = |i: usize| Toy { p, a: r[i] as i64 % p, b: r[i + 1] as i64 % p };
            // a domain with an admissible Z (unless kind 7: any Z)
            let mut d = t(0);
            let mut zz = r[6] as i64 % p;
            let mut n = 0;
            while !(nonsing(&d) && d.a * d.b != 0 && (1..p).any(|k| sswu_exists(&toy_spec(Kind::W, &d), &z(k)))) {
                d.b = (d.b + 1) % p;
                if d.b == 0 {
                    d.a = (d.a + 1) % p;
                }
                n += 1;
                assert!(n < 1000);
            }
            if kind != 7 {
                while !sswu_exists(&toy_spec(Kind::W, &d), &z(zz)) {
                    zz = (zz + 1) % p;
                }
            }
            let mut e = t(2);
            match r[7] % 4 {
                0 => e.a = 0,
                1 => e.b = 0,
                2 => {
                    e.a = 0;
                    e.b = e.b.max(1)
                }
                _ => {}
            }
            if !nonsing(&e) && (e.a, e.b) != (0, 0) {
                e = Toy { p, a: 0, b: 1 + e.b % (p - 1) };
            }
            let c = match kind {
                0 => t(4),
                1 => d.clone(),
                2 => Toy { p, a: e.b, b: e.a },
                _ => e.clone(),
            };
            Ab0 { d, e, c, z: zz }
        })
        .boxed()
}
pub fn c26() -> Property {
    fn curves(t: Tier, kind: Kind) -> Vec<Toy> {
        let lim = if t == Tier::Quick { 19 } else { 43 };
        let mut v = vec![];
        for p in [5i64, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43] {
            if p > lim {
                break;
            }
            for a in 0..p {
                for b in 0..p {
                    let ok = match kind {
                        Kind::W => (4 * a * a * a + 27 * b * b) % p != 0,
                        _ => (a * a - 4) % p != 0,
                    };
                    if ok {
                        v.push(Toy { p, a, b });
                    }
                }
            }
        }
        v
    }
    Property {
        id: "C26",
        rule: "exhaustive clauses: every non-singular curve over each prime up to 19 (quick) or 43, every Z, acceptance compared with the published conditions; large fields: Z recipes incl. roots that put each condition on its boundary; zero-coefficient variant with right, wrong and swapped codomains; non-trivial: curve with an admissible Z",
        assumptions: &["published conditions evaluated over num-bigint with Jacobi symbols"],
        clauses: vec![
            en("exhaustive-weierstrass", |t| curves(t, Kind::W), ctor_ex),
            en("exhaustive-montgomery", |t| curves(t, Kind::M), ctor_m),
            pt("large-fields", 4000, 80000, || {
                (curve_name::<W>((1, 2, 4), |_| true), 0u8..4, u_s()).prop_map(|(c, m, z)| BigC { c, m, z }).boxed()
            }, ctor_big),
            pt("zero-coefficient", 6000, 120000, ab0_s, ctor_ab0),
        ],
    }
}
