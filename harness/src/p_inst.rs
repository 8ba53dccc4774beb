//! C17, C19, C20: built-in curves, rational maps and isogenies.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_group::{is_pt, show};
use crate::refm::*;
use crate::world::*;
use num_bigint::BigInt;
use num_traits::One;
use proptest::prelude::*;
use redox_ecc::ellipticcurve::{EcPoint, EllipticCurve, Encode, Isogeny, RationalMap};
use redox_ecc::field::Field;
use redox_ecc::instances as ins;
use redox_ecc::{edwards, montgomery, weierstrass};
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

// ---------------------------------------------------------------- C17
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Named {
    c: String,
    k: IntR,
    p: PtR,
    form: u8,
}
fn params_case<M: Model>(k: &Named) -> Res {
    let w = w::<M>(&k.c);
    let s = &w.s;
    let c = M::builtin(&s.name).ok_or("no such built-in curve")?;
    let f = c.get_field();
    ensure!(f.get_modulus() == s.p, "{}: prime {} != published {}", s.name, f.get_modulus(), s.p);
    ensure!(f.size_bytes() == s.flen(), "{}: field length {}", s.name, f.size_bytes());
    ensure!(BigInt::from(c.get_order()) == s.r, "{}: order {} != published {}", s.name, c.get_order(), s.r);
    ensure!(c.get_cofactor() == s.h, "{}: cofactor {} != published {}", s.name, c.get_cofactor(), s.h);
    ensure!(is_prime(&s.r) && is_prime(&s.p), "published numbers");
    let g = c.get_generator();
    is_pt(w, &c, "generator", &g, &s.gen())?;
    // a and b: every point of the published curve is accepted, with three of them fixing a and b
    for i in 0..3u8 {
        let q = match &k.p {
            PtR::Lift(v, n) => s.lift_next(&(v.e(&s.p) + 1000 * i as i64), *n ^ (i == 1)),
            o => w.pt(o),
        };
        let a = attempt(|| w.mk(&c, &q)).ok_or_else(|| format!("{}: refuses its point {}", s.name, show(&q)))?;
        is_pt(w, &c, "new_point", &a, &q)?;
    }
    if s.kind != Kind::M {
        ensure!(c == w.custom(), "{}: not equal to the curve built from the published parameters", s.name);
    }
    // exact order: (r-1) G = -G, r G = O by reference and by the library
    ensure!(s.mul(&s.gen(), &s.r) == s.zero() && s.gen() != s.zero(), "{}: r G != O", s.name);
    let m = M::mul(k.form as usize, &g, &c.new_scalar(&s.r - 1));
    is_pt(w, &c, "(r-1)G", &m, &s.neg(&s.gen()))?;
    is_pt(w, &c, "(r-1)G+G", &M::adds(&m, &g)[0], &s.zero())?;
    Ok(Obs::nt(true).n(9))
}
fn mult_case<M: Model>(k: &Named) -> Res {
    let w = w::<M>(&k.c);
    let s = &w.s;
    let c = w.curve();
    let e = k.k.e(&s.r);
    let g = M::mul(k.form as usize, &c.get_generator(), &c.new_scalar(e.clone()));
    is_pt(w, &c, &format!("{e} G"), &g, &s.mul(&s.gen(), &e))?;
    Ok(Obs::nt(e > z(1)).lif(e.bits() > 128, "long scalar"))
}
#[derive(Deserialize)]
struct Vector {
    curve: String,
    kind: String,
    k: String,
    u: String,
    c: String,
}
fn vectors() -> &'static Vec<Vector> {
    static V: OnceLock<Vec<Vector>> = OnceLock::new();
    V.get_or_init(|| serde_json::from_str(include_str!("../data/vectors.json")).unwrap())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ix {
    i: usize,
}
fn vec_one<M: Model>(v: &Vector) -> Res {
    let w = w::<M>(&v.curve);
    let c = w.curve();
    let k = zhex(&v.k);
    let q = M::mul(v.u.len() / 7, &c.get_generator(), &c.new_scalar(k.clone()));
    if v.kind == "xdh" {
        let mut u = unhex(&v.u);
        u.reverse();
        let u = zhex(&hex(&u));
        let got = w.aff(&q)?;
        ensure!(got.as_ref().map(|t| &t.0) == Some(&u), "{}: {k} G has u = {}, OpenSSL {u}", v.curve, show(&got));
    } else {
        ensure!(hex(&q.encode(false)) == v.u, "{}: {k} G = {}, OpenSSL {}", v.curve, hex(&q.encode(false)), v.u);
        if !v.c.is_empty() {
            ensure!(hex(&q.encode(true)) == v.c, "{}: {k} G = {}, OpenSSL {}", v.curve, hex(&q.encode(true)), v.c);
        }
    }
    Ok(Obs::nt(k > z(1)).lif(w.s.builtin, "built-in curve"))
}
fn vec_case(k: &Ix) -> Res {
    let v = &vectors()[k.i];
    match spec(&v.curve).kind {
        Kind::W => vec_one::<W>(v),
        Kind::M => vec_one::<M>(v),
        Kind::E => vec_one::<E>(v),
    }
}
fn aux_case(k: &Ix) -> Res {
    let (a, b, img) = if k.i % 2 == 0 {
        let i = ins::get_isogeny_secp256k1();
        ("secp256k1_3iso", "secp256k1", i.push(i.domain().get_generator()))
    } else {
        let i = ins::get_isogeny_bls12381g1();
        ("bls12381_g1_11iso", "bls12381_g1", i.push(i.domain().get_generator()))
    };
    let (wa, wb) = (w::<W>(a), w::<W>(b));
    let (ca, cb) = (wa.curve(), wb.curve());
    ensure!(ca.get_field() == cb.get_field(), "{a} and {b}: different fields");
    ensure!(ca.get_order() == cb.get_order(), "{a} and {b}: different orders");
    is_pt(wb, &cb, "image of the generator", &img, &wb.s.gen())?;
    ensure!(img == cb.get_generator(), "{a}: the image of the generator is not equal to the generator");
    Ok(Obs::nt(true).n(4))
}
fn builtin_s<M: Model>() -> BoxedStrategy<Named> {
    (curve_name::<M>((0, 0, 1), |w| w.s.builtin), int_mostly_random(), (int_r(), any::<bool>()), 0u8..7)
        .prop_map(|(c, k, (v, n), form)| Named { c, k, p: PtR::Lift(v, n), form })
        .boxed()
}
fn each_builtin<M: Model>(t: Tier) -> Vec<Named> {
    let n = if t == Tier::Quick { 4 } else { 40 };
    (0..n)
        .flat_map(|i| {
            M::worlds().v.iter().filter(|w| w.s.builtin).map(move |w| Named {
                c: w.s.name.clone(),
                k: IntR::S(i as u16),
                p: PtR::Lift(IntR::L(vec![7919 * i + 1; 18]), i % 2 == 0),
                form: (i % 7) as u8,
            })
        })
        .collect()
}
pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "every built-in curve, scalars from recipes (uniform, around 0, r, powers of two), OpenSSL vectors; non-trivial: scalar outside {0,1}",
        assumptions: &["published curve constants and OpenSSL multiples committed in /verif/harness/data", "affine reference arithmetic"],
        clauses: vec![
            en("parameters-weierstrass", each_builtin::<W>, params_case::<W>),
            en("parameters-montgomery", each_builtin::<M>, params_case::<M>),
            en("parameters-edwards", each_builtin::<E>, params_case::<E>),
            en("isogenous-curves", |_| (0..2).map(|i| Ix { i }).collect(), aux_case),
            en("openssl-multiples", |_| (0..vectors().len()).map(|i| Ix { i }).collect(), vec_case),
            pt("multiples-weierstrass", 1500, 30000, builtin_s::<W>, mult_case::<W>),
            pt("multiples-montgomery", 900, 18000, builtin_s::<M>, mult_case::<M>),
            pt("multiples-edwards", 900, 18000, builtin_s::<E>, mult_case::<E>),
        ],
    }
}

// ---------------------------------------------------------------- C19
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MapC {
    p: PtR,
    q: RelR,
    rp: u8,
    rq: u8,
}
pub fn map25519_c() -> &'static Z {
    static C: OnceLock<Z> = OnceLock::new();
    C.get_or_init(|| {
        // the even square root of -486664, the choice that sends (gx, gy) to (9, published v)
        let p = spec("curve25519").p;
        let c = sqrtm(&z(-486664), &p).unwrap();
        if odd(&c) {
            p - c
        } else {
            c
        }
    })
}
pub fn ref_push(name: u8, q: &RP) -> RP {
    if name == 0 {
        ed25519_push(q, &spec("curve25519").p, map25519_c())
    } else {
        ed448_push(q, &spec("curve448").p)
    }
}
pub fn ref_pull(name: u8, q: &RP) -> RP {
    if name == 0 {
        ed25519_pull(q, &spec("curve25519").p, map25519_c())
    } else {
        ed448_pull(q, &spec("curve448").p)
    }
}
type RM = Box<dyn RationalMap<E0 = edwards::Curve, E1 = montgomery::Curve>>;
pub fn the_map(i: u8) -> RM {
    if i == 0 {
        Box::new(ins::edwards25519_to_curve25519())
    } else {
        Box::new(ins::edwards448_to_curve448())
    }
}
fn worlds(i: u8) -> (&'static World<E>, &'static World<M>) {
    if i == 0 {
        (w::<E>("edwards25519"), w::<M>("curve25519"))
    } else {
        (w::<E>("edwards448"), w::<M>("curve448"))
    }
}
fn push_case(i: u8, k: &MapC) -> Res {
    let (we, wm) = worlds(i);
    let m = the_map(i);
    let (ce, cm) = (we.curve(), wm.curve());
    ensure!(m.domain() == ce && m.codomain() == cm, "domain or codomain is not the built-in curve");
    let p = we.pt(&k.p);
    let q = we.rel(&p, &k.q);
    let (a, b) = (we.rep(&ce, &p, k.rp), we.rep(&ce, &q, k.rq));
    let (fa, fb) = (m.push(a.clone()), m.push(b.clone()));
    is_pt(wm, &cm, &format!("push of {}", show(&p)), &fa, &ref_push(i, &p))?;
    is_pt(wm, &cm, &format!("push of {}", show(&q)), &fb, &ref_push(i, &q))?;
    // homomorphism, on the library's values
    let sum = m.push(&a + &b);
    let want = wm.s.add(&ref_push(i, &p), &ref_push(i, &q));
    is_pt(wm, &cm, &format!("push of the sum of {} and {}", show(&p), show(&q)), &sum, &want)?;
    ensure!(sum == &fa + &fb, "push(P+Q) != push(P)+push(Q) for P={} Q={}", show(&p), show(&q));
    ensure!(m.push(-&a) == -&fa, "push(-P) != -push(P) for P={}", show(&p));
    // and back
    let back = m.pull(fa.clone());
    let want = if i == 0 { p.clone() } else { we.s.mul(&p, &z(4)) };
    is_pt(we, &ce, &format!("pull of the push of {}", show(&p)), &back, &want)?;
    Ok(Obs::nt(we.low().len() > 1 && p != we.s.zero()).n(6).lif(we.low().contains(&p), "low-order point")
        .lif(we.low().contains(&p) || we.low().contains(&q) || we.low().contains(&we.s.add(&p, &q)), "low-order point involved")
        .lif(k.rp % 10 != 0, "other representation"))
}
fn pull_case(i: u8, k: &MapC) -> Res {
    let (we, wm) = worlds(i);
    let m = the_map(i);
    let (ce, cm) = (we.curve(), wm.curve());
    let p = wm.pt(&k.p);
    let q = wm.rel(&p, &k.q);
    let (a, b) = (wm.rep(&cm, &p, k.rp), wm.rep(&cm, &q, k.rq));
    let (fa, fb) = (m.pull(a.clone()), m.pull(b.clone()));
    is_pt(we, &ce, &format!("pull of {}", show(&p)), &fa, &ref_pull(i, &p))?;
    is_pt(we, &ce, &format!("pull of {}", show(&q)), &fb, &ref_pull(i, &q))?;
    let sum = m.pull(&a + &b);
    let want = we.s.add(&ref_pull(i, &p), &ref_pull(i, &q));
    is_pt(we, &ce, &format!("pull of the sum of {} and {}", show(&p), show(&q)), &sum, &want)?;
    ensure!(sum == &fa + &fb, "pull(P+Q) != pull(P)+pull(Q) for P={} Q={}", show(&p), show(&q));
    ensure!(m.pull(-&a) == -&fa, "pull(-P) != -pull(P) for P={}", show(&p));
    let back = m.push(fa.clone());
    let want = if i == 0 { p.clone() } else { wm.s.mul(&p, &z(4)) };
    is_pt(wm, &cm, &format!("push of the pull of {}", show(&p)), &back, &want)?;
    Ok(Obs::nt(p != wm.s.zero()).n(6).lif(wm.low().contains(&p), "low-order point")
        .lif(wm.low().contains(&p) || wm.low().contains(&q) || wm.low().contains(&wm.s.add(&p, &q)), "low-order point involved")
        .lif(k.rp % 10 != 0, "other representation"))
}
fn base_case(k: &Ix) -> Res {
    let i = (k.i % 2) as u8;
    let (we, wm) = worlds(i);
    let m = the_map(i);
    let (ge, gm) = (we.curve().get_generator(), wm.curve().get_generator());
    ensure!(m.push(ge.clone()) == gm, "push of the {} base point is {}", we.s.name, m.push(ge));
    if i == 0 {
        ensure!(m.pull(gm.clone()) == ge, "pull of the {} base point is {}", wm.s.name, m.pull(gm));
    }
    ensure!(m.push(we.curve().identity()).is_zero() && m.pull(wm.curve().identity()).is_zero(), "identity not kept");
    Ok(Obs::nt(true).n(3))
}
fn every_low(_: Tier) -> Vec<MapC> {
    let mut v = vec![];
    for i in 0..8u8 {
        for j in 0..8u8 {
            for r in 0..20u8 {
                v.push(MapC { p: PtR::Low(i), q: RelR::Free(PtR::Low(j)), rp: r, rq: (3 * r + j) % 20 });
            }
        }
    }
    v
}
pub fn c19() -> Property {
    fn s() -> BoxedStrategy<MapC> {
        (pt_r(), rel_r(), 0u8..20, 0u8..20).prop_map(|(p, q, rp, rq)| MapC { p, q, rp, rq }).boxed()
    }
    Property {
        id: "C19",
        rule: "point recipes on each side (identity, generator multiples, lifted, low-order, low-order plus lifted), related second points, ten representation changes; non-trivial: first point not the identity; exhaustive clause: every pair of low-order points in every representation",
        assumptions: &["RFC 7748 map formulas evaluated in affine form over num-bigint"],
        clauses: vec![
            en("base-points", |_| (0..2).map(|i| Ix { i }).collect(), base_case),
            en("low-order-push-25519", every_low, |k: &MapC| push_case(0, k)),
            en("low-order-pull-25519", every_low, |k: &MapC| pull_case(0, k)),
            en("low-order-push-448", every_low, |k: &MapC| push_case(1, k)),
            en("low-order-pull-448", every_low, |k: &MapC| pull_case(1, k)),
            pt("push-25519", 4000, 120000, s, |k: &MapC| push_case(0, k)),
            pt("pull-25519", 4000, 120000, s, |k: &MapC| pull_case(0, k)),
            pt("push-448", 3000, 90000, s, |k: &MapC| push_case(1, k)),
            pt("pull-448", 3000, 90000, s, |k: &MapC| pull_case(1, k)),
        ],
    }
}

// ---------------------------------------------------------------- C20
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum IsoPt {
    P(PtR),
    /// kernel point
    K(u8),
    /// kernel point plus
    KPlus(u8, PtR),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct IsoC {
    p: IsoPt,
    q: IsoPt,
    rel: u8,
    rp: u8,
    rq: u8,
}
pub struct IsoW {
    pub dom: &'static World<W>,
    pub cod: &'static World<W>,
    pub velu: Velu,
    pub kernel: Vec<RP>,
}
pub fn iso(i: u8) -> &'static IsoW {
    static S: OnceLock<IsoW> = OnceLock::new();
    static B: OnceLock<IsoW> = OnceLock::new();
    let mk = |a: &str, b: &str, half: &[&str]| {
        let (dom, cod) = (w::<W>(a), w::<W>(b));
        let half: Vec<Z> = half.iter().map(|h| zhex(h)).collect();
        let mut kernel = vec![None];
        for x in &half {
            for n in [false, true] {
                kernel.extend(dom.s.lift(x, n));
            }
        }
        IsoW { velu: Velu::new(dom.s.clone(), &cod.s, half), dom, cod, kernel }
    };
    if i == 0 {
        S.get_or_init(|| mk("secp256k1_3iso", "secp256k1", &["89291c84de3e11f1041da6957255eed5fc964a4df050df221d6ad4ce6ab9c5a5"]))
    } else {
        B.get_or_init(|| {
            mk(
                "bls12381_g1_11iso",
                "bls12381_g1",
                &[
                    "10ef325dd1e98bdf0d97a4c6b7f968ed7f31f2fbff088acb39d5319cfc261ea18773405f325612742f0c5d90634bcf4",
                    "d7f2d0d03ae035321eed4c1479d13251abf0e9a96479623eb5380b575e319851fb5e5a8b43b9c1a46880f54bf2b2f7c",
                    "105249b4cac630ce5aa18e6c1189a18c82019b4e12e491fbac012c259ca3a67f638560b8bb416af02a4724385ed0fc8e",
                    "140d41735b10ce710727cd9356905701a2b866b803baa468948b7f423ddcc560c9a8f1cd5f8ed4297c37464fb8bfe4a7",
                    "1665a9c648e78314490a94f654d9b1039ab85847223bfaed9aa54f0f07736d122d1ceca1ac0e9123e753fde16e97c3d7",
                ],
            )
        })
    }
}
impl IsoW {
    pub fn pt(&self, r: &IsoPt) -> RP {
        let k = |i: &u8| &self.kernel[*i as usize % self.kernel.len()];
        match r {
            IsoPt::P(p) => self.dom.pt(p),
            IsoPt::K(i) => k(i).clone(),
            IsoPt::KPlus(i, p) => self.dom.s.add(k(i), &self.dom.pt(p)),
        }
    }
}
pub fn the_iso(i: u8) -> Box<dyn Isogeny<E0 = weierstrass::Curve, E1 = weierstrass::Curve>> {
    if i == 0 {
        Box::new(ins::get_isogeny_secp256k1())
    } else {
        Box::new(ins::get_isogeny_bls12381g1())
    }
}
fn iso_case(i: u8, k: &IsoC) -> Res {
    let iw = iso(i);
    let m = the_iso(i);
    let (cd, cc) = (iw.dom.curve(), iw.cod.curve());
    ensure!(m.domain() == cd && m.codomain() == cc, "domain or codomain is not the built-in curve");
    let p = iw.pt(&k.p);
    let q = match k.rel {
        0 => p.clone(),
        1 => iw.dom.s.neg(&p),
        2 => iw.dom.s.sub(&iw.kernel[k.rq as usize % iw.kernel.len()], &p),
        _ => iw.pt(&k.q),
    };
    let (a, b) = (iw.dom.rep(&cd, &p, k.rp), iw.dom.rep(&cd, &q, k.rq));
    let (fp, fq) = (iw.velu.push(&p), iw.velu.push(&q));
    let (fa, fb) = (m.push(a.clone()), m.push(b.clone()));
    is_pt(iw.cod, &cc, &format!("image of {}", show(&p)), &fa, &fp)?;
    is_pt(iw.cod, &cc, &format!("image of {}", show(&q)), &fb, &fq)?;
    let sum = m.push(&a + &b);
    is_pt(iw.cod, &cc, &format!("image of the sum of {} and {}", show(&p), show(&q)), &sum, &iw.cod.s.add(&fp, &fq))?;
    ensure!(sum == &fa + &fb, "image of the sum != sum of the images for P={} Q={}", show(&p), show(&q));
    ensure!(m.push(-&a) == -&fa, "image of -P != - image of P for P={}", show(&p));
    let ker = |t: &RP| iw.kernel.contains(t);
    let s = iw.dom.s.add(&p, &q);
    Ok(Obs::nt(p.is_some()).n(5).lif(ker(&p), "kernel point").lif(ker(&p) || ker(&q) || ker(&s), "kernel involved")
        .lif(k.rp % 10 != 0, "other representation").lif(p == q, "doubling"))
}
pub fn c20() -> Property {
    fn ip() -> BoxedStrategy<IsoPt> {
        prop_oneof![
            6 => pt_r().prop_map(IsoPt::P),
            2 => (0u8..11).prop_map(IsoPt::K),
            2 => (0u8..11, pt_r()).prop_map(|(i, p)| IsoPt::KPlus(i, p)),
        ]
        .boxed()
    }
    fn s() -> BoxedStrategy<IsoC> {
        (ip(), ip(), 0u8..8, 0u8..20, 0u8..20).prop_map(|(p, q, rel, rp, rq)| IsoC { p, q, rel, rp, rq }).boxed()
    }
    fn kernels(_: Tier) -> Vec<IsoC> {
        let mut v = vec![];
        for i in 0..11u8 {
            for j in 0..11u8 {
                for r in 0..4u8 {
                    v.push(IsoC { p: IsoPt::K(i), q: IsoPt::K(j), rel: 9, rp: 5 * r + i % 5, rq: (j + 7 * r) % 20 });
                }
            }
        }
        v
    }
    Property {
        id: "C20",
        rule: "point recipes on the domain curve, kernel points, kernel point plus a point, sums falling into the kernel, ten representation changes; non-trivial: first point not the identity; exhaustive clause: every pair of kernel points",
        assumptions: &["Velu's formulas from the kernel, normalized on the generators and checked against the codomain coefficients"],
        clauses: vec![
            en("kernel-bls12381", kernels, |k: &IsoC| iso_case(1, k)),
            pt("secp256k1", 4000, 120000, s, |k: &IsoC| iso_case(0, k)),
            pt("bls12381", 3000, 90000, s, |k: &IsoC| iso_case(1, k)),
        ],
    }
}
pub fn one() -> Z {
    Z::one()
}
