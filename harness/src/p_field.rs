//! C01-C07: fields.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use crate::world::{fe, forms, via, zof};
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, Zero};
use proptest::prelude::*;
use redox_ecc::field::{CMov, Field, Sgn0, Sqrt};
use redox_ecc::ops::{Deserialize as De, FromFactory, IntoFactory, Serialize as Ser};
use redox_ecc::primefield::{Fp, FpElt};
use redox_ecc::quadraticfield::{Fp2, Fp2Elt};
use serde::{Deserialize, Serialize};

pub fn fp(p: &Z) -> Fp {
    Fp::new(ub(p))
}
/// the element has this value by every way of looking at it
fn same(f: &Fp, name: &str, got: &FpElt, want: &Z) -> Result<(), String> {
    let g = zof(got)?;
    ensure!(&g == want, "{name}: got {g}, expected {want}");
    ensure!(got.is_zero() == want.is_zero() && got.is_one() == want.is_one(), "{name}: is_zero or is_one wrong on the result {g}");
    let e = fe(f, want);
    ensure!(got == &e && &e == got, "{name}: the result prints as {g} but differs from the element {g}");
    let b = BigInt::from_bytes_be(Sign::Plus, &got.to_bytes_be());
    ensure!(&b == want, "{name}: the result prints as {g} but is encoded as {b}");
    Ok(())
}
fn sames(f: &Fp, name: &str, got: &[FpElt], want: &Z) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        same(f, &format!("{name} (operand form {i})"), g, want)?;
    }
    Ok(())
}
/// a value that is not zero, to reach others by
pub fn pivot(x: &Z, k: u8, p: &Z) -> Z {
    let r = match k / 16 % 5 {
        0 => p - 1,
        1 => (p + 1i32) / 2,
        2 => md(&(x * x + 3), p),
        3 => md(&(x + 1), p),
        _ => md(&(z(1) << (p.bits() as usize - 1)), p),
    };
    let r = md(&r, p);
    if r.is_zero() { z(1) } else { r }
}
fn via_fp(f: &Fp, p: &Z, x: &Z, k: u8) -> FpElt {
    via!(k, x, &pivot(x, k, p), |v: &Z| fe(f, v), |a: &Z, b: &Z| md(&(a + b), p), |a: &Z, b: &Z| md(&(a - b), p),
        |a: &Z, b: &Z| md(&(a * b), p), |a: &Z| inv0(a, p))
}
fn via_fp2(f: &Fp2, p: &Z, x: &C2, k: u8) -> Fp2Elt {
    let r = C2(pivot(&x.0, k, p), pivot(&x.1, k.wrapping_add(7 * 16), p));
    via!(k, x, &r, |v: &C2| e2(f, v), |a: &C2, b: &C2| a.add(b, p), |a: &C2, b: &C2| a.sub(b, p), |a: &C2, b: &C2| a.mul(b, p),
        |a: &C2| a.inv0(p))
}
fn arith(f: &Fp, p: &Z, x: &Z, y: &Z, want_inv: bool, (ka, kb): (u8, u8)) -> Result<(), String> {
    let (a, b) = (&via_fp(f, p, x, ka), &via_fp(f, p, y, kb));
    same(&f, "operand a", a, x)?;
    same(&f, "operand b", b, y)?;
    sames(&f, "a+b", &forms!(a, b, +), &md(&(x + y), p))?;
    sames(&f, "a-b", &forms!(a, b, -), &md(&(x - y), p))?;
    sames(&f, "a*b", &forms!(a, b, *), &md(&(x * y), p))?;
    sames(&f, "-a", &[-a, -(a.clone())], &md(&-x, p))?;
    sames(&f, "a^2", &[a ^ 2u32, a.clone() ^ 2u32], &md(&(x * x), p))?;
    ensure!(a.is_zero() == x.is_zero(), "is_zero({x})");
    ensure!(a.is_one() == x.is_one(), "is_one({x})");
    ensure!((a == b) == (x == y), "{x} == {y}");
    if want_inv {
        let iy = inv0(y, p);
        sames(&f, "1/b", &[1u32 / b, b ^ -1i32, b.clone() ^ -1i32], &iy)?;
        sames(&f, "a/b", &forms!(a, b, /), &md(&(x * &iy), p))?;
    }
    Ok(())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Arith {
    p: PrimeR,
    a: AnyInt,
    b: AnyInt,
    rel: u8,
    /// how the operands came about
    #[serde(default)]
    via: (u8, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Build {
    p: PrimeR,
    v: AnyInt,
    w: i64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct OneP {
    p: u32,
    a: u32,
}
fn small_cases(t: Tier, quick: u32, thorough: u32, c: Class) -> Vec<OneP> {
    let lim = if t == Tier::Quick { quick } else { thorough };
    small_primes()
        .iter()
        .filter(|p| **p <= lim && c.ok(&z(**p as i64)))
        .flat_map(|&p| (0..p).map(move |a| OneP { p, a }))
        .collect()
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "prime moduli (small primes, word-boundary primes, curve primes and orders, random primes up to 256 bits, some of 607 to 2203 bits) times operand recipes biased to 0, 1, p-1, (p+-1)/2, powers of two, limb patterns; non-trivial: both operands outside {0,1}; exhaustive clause: every operand pair of every small prime",
        assumptions: &["num-bigint integer arithmetic and extended gcd"],
        clauses: vec![
            en("exhaustive-small-primes", |t| small_cases(t, 43, 251, Class::Any), |c| {
                let p = z(c.p as i64);
                let f = fp(&p);
                for b in 0..c.p {
                    arith(&f, &p, &z(c.a as i64), &z(b as i64), true, ((c.a + b) as u8, (c.a ^ (3 * b)) as u8)).map_err(|m| format!("b = {b}: {m}"))?;
                }
                Ok(Obs::nt(c.a > 1).n(18 * c.p as u64))
            }),
            pt("arithmetic", 24000, 600000, || {
                (prime_r(), any_int(), any_int(), 0u8..15, (0u8..80, 0u8..80)).prop_map(|(p, a, b, rel, via)| Arith { p, a, b, rel, via }).boxed()
            }, |c: &Arith| {
                let p = c.p.p(Class::Any);
                let x = md(&c.a.ev(&p), &p);
                let y = match c.rel {
                    0 => x.clone(),
                    1 => md(&-&x, &p),
                    2 => inv0(&x, &p),
                    3 => md(&(&p - 1 - &x), &p),
                    // the product, the sum, the quotient has the second recipe
                    12 => md(&(c.b.ev(&p) * inv0(&x, &p)), &p),
                    13 => md(&(c.b.ev(&p) - &x), &p),
                    14 => md(&(&x * inv0(&md(&c.b.ev(&p), &p), &p)), &p),
                    _ => md(&c.b.ev(&p), &p),
                };
                let big = p.bits() > 300 && c.rel % 4 != 0;
                arith(&fp(&p), &p, &x, &y, !big, c.via)?;
                Ok(Obs::nt(x > z(1) && y > z(1)).n(18)
                    .lif(x == y, "equal").lif(md(&(&x + &y), &p).is_zero(), "opposite").lif(&x + &y >= p, "carry")
                    .lif(x < y, "borrow").lif(y.is_zero(), "divide by zero").lif(p < z(1000), "small prime").lif(p.bits() > 200, "big prime")
                    .lif(c.via.0 % 16 > 2 && c.via.1 % 16 > 2, "both operands computed"))
            }),
            pt("construction", 16000, 300000, || {
                (prime_r(), any_int(), any::<i64>()).prop_map(|(p, v, w)| Build { p, v, w }).boxed()
            }, |c: &Build| {
                let p = c.p.p(Class::Any);
                let f = fp(&p);
                let v = c.v.ev(&p);
                same(&f, "elt", &f.elt(v.clone()), &md(&v, &p))?;
                ensure!(f.get_modulus() == p, "get_modulus");
                let w = c.w;
                macro_rules! from { ($($t:ty),*) => { $(
                    for n in [w as $t, <$t>::MAX, <$t>::MIN, (w >> 56) as $t] {
                        same(&f, concat!("from ", stringify!($t)), &FromFactory::<$t>::from(&f, n), &md(&BigInt::from(n), &p))?;
                        same(&f, concat!("lift ", stringify!($t)), &IntoFactory::<Fp, FpElt>::lift(n, &f), &md(&BigInt::from(n), &p))?;
                    }
                )* } }
                from!(u8, u16, u32, u64, i8, i16, i32, i64);
                same(&f, "zero()", &f.zero(), &z(0))?;
                same(&f, "one()", &f.one(), &z(1))?;
                ensure!(f.zero().is_zero() && !f.zero().is_one() && f.one().is_one() && !f.one().is_zero(), "zero/one predicates");
                let x = f.elt(v.clone());
                let mut t = x.clone();
                t.set_zero();
                same(&f, "set_zero", &t, &z(0))?;
                ensure!(t == f.zero(), "set_zero != zero()");
                t.set_one();
                same(&f, "set_one", &t, &z(1))?;
                same(&f, "set_* changed a copy", &x, &md(&v, &p))?;
                let y = f.elt(BigInt::from(w));
                same(&f, "cmov false", &FpElt::cmov(&x, &y, false), &md(&v, &p))?;
                same(&f, "cmov true", &FpElt::cmov(&x, &y, true), &md(&BigInt::from(w), &p))?;
                Ok(Obs::nt(v >= p || v.is_negative()).n(40).lif(v.is_negative(), "negative").lif(v.is_multiple(&p), "multiple of p"))
            }),
        ],
    }
}
trait Mult {
    fn is_multiple(&self, p: &Z) -> bool;
}
impl Mult for Z {
    fn is_multiple(&self, p: &Z) -> bool {
        md(self, p).is_zero()
    }
}

// ---------------------------------------------------------------- C02
#[derive(Serialize, Deserialize, Clone, Debug)]
enum ExpR {
    Int(IntR),
    /// m (p - 1) + d
    Ord(u16, i8),
    /// (p - 1) / 2^k + d
    Frac(u8, i8),
    /// m (p^2 - 1) / 2^k + d
    Ord2(u8, u8, i8),
    Wide(Vec<u32>),
    /// 2^(32 i) patterns: single digits far apart
    Digits(Vec<(u8, u32)>),
}
impl ExpR {
    fn ev(&self, p: &Z) -> Z {
        match self {
            ExpR::Int(v) => v.raw(p, &[]),
            ExpR::Ord(m, d) => (p - 1) * *m + *d,
            ExpR::Frac(k, d) => ((p - 1) >> *k as usize) + *d,
            ExpR::Ord2(m, k, d) => (((p * p - 1) * *m) >> *k as usize) + *d,
            ExpR::Wide(v) => limbs(v),
            ExpR::Digits(v) => {
                let mut l = vec![0u32; 40];
                for (i, d) in v {
                    l[*i as usize % 40] = *d;
                }
                limbs(&l)
            }
        }
    }
}
fn exp_r() -> BoxedStrategy<ExpR> {
    let d = prop_oneof![Just(1u32), Just(0x8000_0000), Just(0xffff_ffff), Just(0x7fff_ffff), any::<u32>()];
    prop_oneof![
        4 => int_r().prop_map(ExpR::Int),
        3 => (0u16..40, -3i8..=3).prop_map(|(m, d)| ExpR::Ord(m, d)),
        1 => (1u8..5, -2i8..=2).prop_map(|(k, d)| ExpR::Frac(k, d)),
        1 => (1u8..4, 0u8..5, -2i8..=2).prop_map(|(m, k, d)| ExpR::Ord2(m, k, d)),
        2 => proptest::collection::vec(any::<u32>(), 0..34).prop_map(ExpR::Wide),
        2 => proptest::collection::vec((0u8..24, d), 1..4).prop_map(ExpR::Digits),
    ]
    .boxed()
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PowC {
    p: PrimeR,
    a: IntR,
    b: IntR,
    e: ExpR,
    neg: bool,
}
fn pow_s() -> BoxedStrategy<PowC> {
    let base = prop_oneof![1 => Just(IntR::S(0)), 1 => Just(IntR::N(1)), 8 => int_r()];
    (prime_r(), base, int_r(), exp_r(), any::<bool>()).prop_map(|(p, a, b, e, neg)| PowC { p, a, b, e, neg }).boxed()
}
fn naive_pow(a: u64, e: u64, p: u64) -> u64 {
    (0..e).fold(1 % p, |r, _| r * a % p)
}
pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "base and exponent recipes: exponents small, near multiples of p-1, sparse 32-bit digit patterns, multiples and fractions of p^2-1, mostly up to 1088 bits and some beyond 4000, both signs; bases including 0 and -1; non-trivial: base outside {0,1} and |exponent| > 2; exhaustive clause: every base of small primes with every exponent in [-2p, 2p+2]",
        assumptions: &["right-to-left binary exponentiation over num-bigint integers as reference"],
        clauses: vec![
            en("exhaustive-small-primes", |t| small_cases(t, 23, 71, Class::Any), |c| {
                let p = z(c.p as i64);
                let f = fp(&p);
                let a = fe(&f, &z(c.a as i64));
                let pp = c.p as i64;
                for e in -2 * pp..=2 * pp + 2 {
                    let base = if e < 0 { inv0(&z(c.a as i64), &p) } else { z(c.a as i64) };
                    let want = naive_pow(u64::try_from(base).unwrap(), e.unsigned_abs(), c.p as u64);
                    same(&f, &format!("a^{e}"), &(&a ^ &BigInt::from(e)), &z(want as i64))?;
                    if e >= 0 {
                        same(&f, &format!("a^{e}u"), &(&a ^ &BigUint::from(e as u64)), &z(want as i64))?;
                    }
                }
                Ok(Obs::nt(c.a > 1).n(6 * c.p as u64))
            }),
            pt("prime-field", 16000, 400000, pow_s, |c: &PowC| {
                let p = c.p.p(Class::Any);
                let x = c.a.e(&p);
                let e = c.e.ev(&p);
                let e = if e.is_negative() { -e } else { e };
                let f = fp(&p);
                let a = fe(&f, &x);
                same(&f, "a ^ &BigUint", &(&a ^ &ub(&e)), &powm(&x, &e, &p))?;
                let se = if c.neg { -&e } else { e.clone() };
                same(&f, &format!("a ^ &BigInt({se})"), &(&a ^ &se), &pow_any(&x, &se, &p))?;
                same(&f, "operand changed", &a, &x)?;
                let q: Z = &p - 1;
                Ok(Obs::nt(x > z(1) && e > z(2)).n(2)
                    .lif(c.neg && !e.is_zero(), "negative exponent").lif(x.is_zero(), "base zero").lif(e.is_zero(), "exponent zero")
                    .lif(e >= p, "exponent >= p").lif(!e.is_zero() && e.is_multiple(&q), "multiple of p-1")
                    .lif(e.bits() % 32 == 0 && !e.is_zero(), "full top digit"))
            }),
            pt("extension-field", 6000, 120000, pow_s, |c: &PowC| {
                let p = c.p.p(Class::P3mod4);
                let x = C2(c.a.e(&p), c.b.e(&p));
                let e = c.e.ev(&p);
                let e = if e.is_negative() { -e } else { e };
                let f = Fp2::new(ub(&p));
                let a = e2(&f, &x);
                let want = x.pow(&e, &p);
                same2(&f, "a ^ &BigUint", &(&a ^ &ub(&e)), &want)?;
                same2(&f, "a ^ &BigInt", &(&a ^ &e), &want)?;
                Ok(Obs::nt(!x.is_zero() && e > z(2)).n(1).lif(e.bits() > 32, "several digits")
                    .lif((0..e.bits()).any(|i| i % 32 == 31 && e.bit(i)), "bit 31 of a digit").lif(e.is_zero(), "exponent zero"))
            }),
            pt("shorthand", 3000, 60000, || {
                (prime_r(), int_r(), prop_oneof![any::<u32>(), 0u32..5], prop_oneof![any::<i32>(), -4i32..4]).prop_map(|(p, a, u, i)| Short { p, a, u, i }).boxed()
            }, |c: &Short| {
                // shorthand exponents: the right power or a refusal, never a wrong value
                let p = c.p.p(Class::P3mod4);
                let x = c.a.e(&p);
                let f = fp(&p);
                let a = fe(&f, &x);
                let f2 = Fp2::new(ub(&p));
                let b = e2(&f2, &C2(x.clone(), z(1)));
                let bx = C2(x.clone(), z(1));
                let mut refused = 0;
                for u in [c.u, 2] {
                    for (k, r) in [attempt(|| &a ^ u), attempt(|| a.clone() ^ u)].into_iter().enumerate() {
                        ensure!(u != 2 || r.is_some(), "x ^ 2u32 refused");
                        match r {
                            Some(r) => same(&f, &format!("x ^ {u}u32 form {k}"), &r, &powm(&x, &z(u as i64), &p))?,
                            None => refused += 1,
                        }
                    }
                    if let Some(r) = attempt(|| &b ^ u) {
                        same2(&f2, &format!("fp2 x ^ {u}u32"), &r, &bx.pow(&z(u as i64), &p))?;
                    } else {
                        ensure!(u != 2, "fp2 x ^ 2u32 refused");
                    }
                    if let Some(r) = attempt(|| u / &a) {
                        same(&f, &format!("{u}u32 / x"), &r, &md(&(inv0(&x, &p) * u), &p))?;
                    }
                    if let Some(r) = attempt(|| u / &b) {
                        same2(&f2, &format!("fp2 {u}u32 / x"), &r, &bx.inv0(&p).mul(&C2(z(u as i64), z(0)), &p))?;
                    }
                }
                for i in [c.i, -1] {
                    match attempt(|| &a ^ i) {
                        Some(r) => same(&f, &format!("x ^ {i}i32"), &r, &pow_any(&x, &z(i as i64), &p))?,
                        None => ensure!(i != -1, "x ^ -1i32 refused"),
                    }
                    match attempt(|| &b ^ i) {
                        Some(r) => {
                            let base = if i < 0 { bx.inv0(&p) } else { bx.clone() };
                            same2(&f2, &format!("fp2 x ^ {i}i32"), &r, &base.pow(&z((i as i64).abs()), &p))?
                        }
                        None => ensure!(i != -1, "fp2 x ^ -1i32 refused"),
                    }
                }
                Ok(Obs::nt(x > z(1)).n(6).lif(refused > 0, "refused"))
            }),
        ],
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Short {
    p: PrimeR,
    a: IntR,
    u: u32,
    i: i32,
}

// ---------------------------------------------------------------- C03
#[derive(Serialize, Deserialize, Clone, Debug)]
struct SqC {
    p: PrimeR,
    a: IntR,
    mode: u8,
}
fn check_sqrt(p: &Z, f: &Fp, x: &Z) -> Result<(), String> {
    let a = fe(f, x);
    let sq = is_sq(x, p);
    ensure!(a.is_square() == sq, "is_square({x}) = {}", a.is_square());
    if Class::Not1mod8.ok(p) {
        let r = a.sqrt();
        let rr = zof(&r)?;
        ensure!(!rr.is_negative() && &rr < p, "sqrt({x}) = {rr} not reduced");
        if sq {
            ensure!(mulm(&rr, &rr, p) == *x, "sqrt({x}) = {rr}");
            ensure!(&(&r * &r) == &a, "sqrt({x})^2 != itself");
        }
        let again = a.sqrt();
        ensure!(again == r, "sqrt({x}) is not deterministic");
    } else if sq {
        if let Some(r) = attempt(|| a.sqrt()) {
            let rr = zof(&r)?;
            ensure!(mulm(&rr, &rr, p) == *x, "sqrt({x}) = {rr}");
        }
    }
    Ok(())
}
pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "elements: squares, negated squares, other residues and non-residues, 0, recipes; primes of every class modulo 16; non-trivial: element outside {0,1}; exhaustive clause: every element of every small prime",
        assumptions: &["Jacobi-symbol reference for residuosity; roots are checked by squaring"],
        clauses: vec![
            en("exhaustive-small-primes", |t| small_cases(t, 150, 1000, Class::Any), |c| {
                let p = z(c.p as i64);
                check_sqrt(&p, &fp(&p), &z(c.a as i64))?;
                Ok(Obs::nt(c.a > 1))
            }),
            pt("sqrt", 12000, 300000, || (prime_r(), int_r(), 0u8..5).prop_map(|(p, a, mode)| SqC { p, a, mode }).boxed(), |c: &SqC| {
                let p = c.p.p(Class::Any);
                let v = c.a.e(&p);
                let x = match c.mode {
                    0 | 1 => mulm(&v, &v, &p),
                    2 => md(&(-&v * &v), &p),
                    3 => md(&(z(2) * &v * &v), &p),
                    _ => v,
                };
                check_sqrt(&p, &fp(&p), &x)?;
                let m = low8(&p) & 7;
                Ok(Obs::nt(x > z(1)).lif(is_sq(&x, &p), "square").lif(!is_sq(&x, &p), "non-square")
                    .l(if m & 3 == 3 { "p=3 mod 4" } else if m == 5 { "p=5 mod 8" } else { "p=1 mod 8" })
                    .lif(m == 5 && is_sq(&x, &p) && x.modpow(&((&p - 1) >> 2), &p) == &p - 1, "second root branch"))
            }),
        ],
    }
}

// ---------------------------------------------------------------- C04
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Two {
    p: PrimeR,
    a: IntR,
    b: IntR,
}
fn two() -> BoxedStrategy<Two> {
    let coord = || prop_oneof![1 => Just(IntR::S(0)), 6 => int_r()];
    (prime_r(), coord(), coord()).prop_map(|(p, a, b)| Two { p, a, b }).boxed()
}
fn check_sgn2(p: &Z, f: &Fp2, x: &C2) -> Result<(), String> {
    let e = e2(f, x);
    ensure!(e.sgn0() == x.sgn(), "sgn0({x:?}) = {}, expected {}", e.sgn0(), x.sgn());
    let n = e2(f, &x.neg(p));
    if !x.is_zero() {
        ensure!(e.sgn0() == -n.sgn0(), "sgn0 does not separate {x:?} from its negative");
    }
    Ok(())
}
pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "element recipes of prime and quadratic fields (zero coordinates over-represented); non-trivial: non-zero element; exhaustive clause: every element of small fields",
        assumptions: &[],
        clauses: vec![
            en("exhaustive-small-primes", |t| small_cases(t, 60, 400, Class::Any), |c| {
                let p = z(c.p as i64);
                let f = fp(&p);
                let a = fe(&f, &z(c.a as i64));
                ensure!(a.sgn0() == if c.a % 2 == 0 { 1 } else { -1 }, "sgn0 = {}", a.sgn0());
                if c.a != 0 {
                    ensure!((-&a).sgn0() == -a.sgn0(), "negative");
                }
                if c.p % 4 == 3 {
                    let f2 = Fp2::new(ub(&p));
                    for b in 0..c.p {
                        check_sgn2(&p, &f2, &C2(z(c.a as i64), z(b as i64)))?;
                    }
                }
                Ok(Obs::nt(c.a > 0).n(c.p as u64))
            }),
            pt("prime-field", 20000, 400000, two, |c: &Two| {
                let p = c.p.p(Class::Any);
                let x = c.a.e(&p);
                let f = fp(&p);
                let a = fe(&f, &x);
                ensure!(a.sgn0() == sgn(&x), "sgn0({x}) = {}", a.sgn0());
                if nz(&x) {
                    ensure!((-&a).sgn0() == -a.sgn0(), "sgn0(-x) = sgn0(x) for {x}");
                }
                Ok(Obs::nt(nz(&x)).n(1).lif(odd(&x), "odd"))
            }),
            pt("extension-field", 12000, 300000, two, |c: &Two| {
                let p = c.p.p(Class::P3mod4);
                let x = C2(c.a.e(&p), c.b.e(&p));
                check_sgn2(&p, &Fp2::new(ub(&p)), &x)?;
                Ok(Obs::nt(!x.is_zero()).n(1).lif(x.0.is_zero(), "first coordinate zero").lif(x.1.is_zero(), "second coordinate zero"))
            }),
        ],
    }
}

// ---------------------------------------------------------------- C05, C06
pub fn e2(f: &Fp2, x: &C2) -> Fp2Elt {
    FromFactory::<&str>::from(f, &format!("{},{}", x.0, x.1))
}
pub fn z2(e: &Fp2Elt) -> Result<C2, String> {
    let s = e.to_string();
    let (a, b) = s.split_once("+i*").ok_or(format!("unreadable {s}"))?;
    Ok(C2(zof(&a)?, zof(&b)?))
}
pub fn same2(f: &Fp2, name: &str, got: &Fp2Elt, want: &C2) -> Result<(), String> {
    let g = z2(got)?;
    ensure!(&g == want, "{name}: got {g:?}, expected {want:?}");
    ensure!(got.is_zero() == want.is_zero(), "{name}: is_zero wrong on the result {g:?}");
    ensure!(got.is_one() == (want.0.is_one() && want.1.is_zero()), "{name}: is_one wrong on the result {g:?}");
    let e = e2(f, want);
    ensure!(got == &e && &e == got, "{name}: the result prints as {g:?} but differs from the element {g:?}");
    let b = got.to_bytes_be();
    let c = C2(BigInt::from_bytes_be(Sign::Plus, &b[..b.len() / 2]), BigInt::from_bytes_be(Sign::Plus, &b[b.len() / 2..]));
    ensure!(&c == want, "{name}: the result prints as {g:?} but is encoded as {c:?}");
    Ok(())
}
fn sames2(f: &Fp2, name: &str, got: &[Fp2Elt], want: &C2) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        same2(f, &format!("{name} (operand form {i})"), g, want)?;
    }
    Ok(())
}
fn arith2(f: &Fp2, p: &Z, x: &C2, y: &C2, div: bool, (ka, kb): (u8, u8)) -> Result<(), String> {
    let (a, b) = (&via_fp2(f, p, x, ka), &via_fp2(f, p, y, kb));
    same2(&f, "operand a", a, x)?;
    same2(&f, "operand b", b, y)?;
    sames2(&f, "a+b", &forms!(a, b, +), &x.add(y, p))?;
    sames2(&f, "a-b", &forms!(a, b, -), &x.sub(y, p))?;
    sames2(&f, "a*b", &forms!(a, b, *), &x.mul(y, p))?;
    sames2(&f, "-a", &[-a, -(a.clone())], &x.neg(p))?;
    sames2(&f, "a^2", &[a ^ 2u32, a.clone() ^ 2u32], &x.mul(x, p))?;
    ensure!(a.is_zero() == x.is_zero(), "is_zero");
    ensure!(a.is_one() == (x.0.is_one() && x.1.is_zero()), "is_one");
    ensure!((a == b) == (x == y), "==");
    let (mut t, mut u) = (a.clone(), a.clone());
    t.set_one();
    u.set_zero();
    sames2(&f, "set_one", &[t], &C2(z(1), z(0)))?;
    sames2(&f, "set_zero", &[u], &C2(z(0), z(0)))?;
    sames2(&f, "conditional move", &[Fp2Elt::cmov(a, b, true), Fp2Elt::cmov(b, b, false)], y)?;
    if div {
        let iy = y.inv0(p);
        sames2(&f, "1/b", &[1u32 / b, b ^ -1i32, b.clone() ^ -1i32], &iy)?;
        sames2(&f, "a/b", &forms!(a, b, /), &x.mul(&iy, p))?;
        if !y.is_zero() {
            ensure!((b * (1u32 / b)).is_one(), "b * 1/b != 1 for {y:?}");
        }
    }
    Ok(())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Quad {
    p: PrimeR,
    a: [IntR; 2],
    b: [IntR; 2],
    rel: u8,
    #[serde(default)]
    via: (u8, u8),
}
fn quad() -> BoxedStrategy<Quad> {
    let co = || prop_oneof![1 => Just(IntR::S(0)), 6 => int_r()];
    (prime_r(), co(), co(), co(), co(), 0u8..12, (0u8..80, 0u8..80)).prop_map(|(p, a, b, c, d, rel, via)| Quad { p, a: [a, b], b: [c, d], rel, via }).boxed()
}
pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "primes 3 mod 4 (small, word-boundary, curve primes, random), coordinate recipes with zeros over-represented, related operands; non-trivial: both operands non-zero and at least one non-real; exhaustive clause: every pair over small primes",
        assumptions: &["schoolbook complex arithmetic over num-bigint as reference"],
        clauses: vec![
            en("exhaustive-small-primes", |t| {
                let lim = if t == Tier::Quick { 11 } else { 23 };
                small_primes().iter().filter(|p| **p <= lim && **p % 4 == 3).flat_map(|&p| (0..p * p).map(move |a| OneP { p, a })).collect()
            }, |c| {
                let p = z(c.p as i64);
                let f = Fp2::new(ub(&p));
                let x = C2(z((c.a / c.p) as i64), z((c.a % c.p) as i64));
                for b in 0..c.p * c.p {
                    arith2(&f, &p, &x, &C2(z((b / c.p) as i64), z((b % c.p) as i64)), true, ((c.a + b) as u8, (c.a ^ (3 * b)) as u8)).map_err(|m| format!("b = {b}: {m}"))?;
                }
                Ok(Obs::nt(c.a > 1).n(18 * (c.p * c.p) as u64))
            }),
            pt("arithmetic", 12000, 300000, quad, |c: &Quad| {
                let p = c.p.p(Class::P3mod4);
                let x = C2(c.a[0].e(&p), c.a[1].e(&p));
                let y = match c.rel {
                    0 => x.clone(),
                    1 => x.neg(&p),
                    2 => C2(x.0.clone(), md(&-&x.1, &p)),
                    3 => C2(x.1.clone(), x.0.clone()),
                    // the product, the sum has the second recipe
                    10 => C2(c.b[0].e(&p), c.b[1].e(&p)).mul(&x.inv0(&p), &p),
                    11 => C2(c.b[0].e(&p), c.b[1].e(&p)).sub(&x, &p),
                    _ => C2(c.b[0].e(&p), c.b[1].e(&p)),
                };
                let f = Fp2::new(ub(&p));
                arith2(&f, &p, &x, &y, p.bits() < 300 || c.rel % 4 == 0, c.via)?;
                Ok(Obs::nt(!x.is_zero() && !y.is_zero() && (nz(&x.1) || nz(&y.1))).n(18)
                    .lif(y.is_zero(), "divide by zero").lif(y.0.is_zero() && nz(&y.1), "imaginary").lif(y.1.is_zero(), "real")
                    .lif(c.via.0 % 16 > 2 && c.via.1 % 16 > 2, "both operands computed"))
            }),
            pt("embedding", 6000, 120000, || (prime_r(), any_int(), any::<i64>()).prop_map(|(p, v, w)| Build { p, v, w }).boxed(), |c: &Build| {
                let p = c.p.p(Class::P3mod4);
                let f = Fp2::new(ub(&p));
                let v = c.v.ev(&p);
                let re = |v: &Z| C2(md(v, &p), z(0));
                same2(&f, "elt", &f.elt(v.clone()), &re(&v))?;
                ensure!(f.get_modulus() == p, "get_modulus");
                macro_rules! from { ($($t:ty),*) => { $(
                    for n in [c.w as $t, <$t>::MAX, <$t>::MIN] {
                        same2(&f, concat!("from ", stringify!($t)), &FromFactory::<$t>::from(&f, n), &re(&BigInt::from(n)))?;
                        same2(&f, concat!("lift ", stringify!($t)), &IntoFactory::<Fp2, Fp2Elt>::lift(n, &f), &re(&BigInt::from(n)))?;
                    }
                )* } }
                from!(u8, u16, u32, u64, i8, i16, i32, i64);
                same2(&f, "zero()", &f.zero(), &re(&z(0)))?;
                same2(&f, "one()", &f.one(), &re(&z(1)))?;
                let x = C2(md(&v, &p), md(&z(c.w), &p));
                let e = e2(&f, &x);
                let mut t = e.clone();
                t.set_zero();
                same2(&f, "set_zero", &t, &re(&z(0)))?;
                t = e.clone();
                t.set_one();
                same2(&f, "set_one", &t, &re(&z(1)))?;
                let y = e2(&f, &C2(z(0), z(1)));
                same2(&f, "cmov false", &Fp2Elt::cmov(&e, &y, false), &x)?;
                same2(&f, "cmov true", &Fp2Elt::cmov(&e, &y, true), &C2(z(0), z(1)))?;
                same2(&f, "i*i", &(&y * &y), &re(&z(-1)))?;
                Ok(Obs::nt(v >= p || v.is_negative()).n(30))
            }),
        ],
    }
}
fn check_sqrt2(p: &Z, f: &Fp2, x: &C2) -> Result<(), String> {
    let a = e2(f, x);
    let sq = x.is_sq(p);
    ensure!(a.is_square() == sq, "is_square({x:?}) = {}", a.is_square());
    let root = a.sqrt();
    let r = z2(&root)?;
    same2(f, "sqrt", &root, &r)?;
    if sq {
        ensure!(r.mul(&r, p) == *x, "sqrt({x:?}) = {r:?}");
    }
    Ok(())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Sq2 {
    p: PrimeR,
    a: IntR,
    b: IntR,
    mode: u8,
}
pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "elements: squares of recipes, recipes, real squares and non-squares, purely imaginary ones; non-trivial: non-zero; exhaustive clause: every element over small primes",
        assumptions: &["norm/Jacobi reference for residuosity, verified by enumeration over small primes; roots are checked by squaring"],
        clauses: vec![
            en("exhaustive-small-primes", |t| {
                let lim = if t == Tier::Quick { 43 } else { 131 };
                small_primes().iter().filter(|p| **p <= lim && **p % 4 == 3).flat_map(|&p| (0..p).map(move |a| OneP { p, a })).collect()
            }, |c| {
                let p = z(c.p as i64);
                let f = Fp2::new(ub(&p));
                let pp = c.p as u64;
                // squares by enumeration
                let mut is = vec![false; (pp * pp) as usize];
                for u in 0..pp {
                    for v in 0..pp {
                        is[((u * u + pp * pp - v * v) % pp * pp + 2 * u * v % pp) as usize] = true;
                    }
                }
                for b in 0..c.p {
                    let x = C2(z(c.a as i64), z(b as i64));
                    assert!(x.is_sq(&p) == is[(c.a * c.p + b) as usize], "HARNESS: norm reference");
                    check_sqrt2(&p, &f, &x)?;
                }
                Ok(Obs::nt(c.a > 0).n(c.p as u64))
            }),
            pt("sqrt", 4000, 80000, || {
                let co = || prop_oneof![1 => Just(IntR::S(0)), 5 => int_r()];
                (prime_r(), co(), co(), 0u8..4).prop_map(|(p, a, b, mode)| Sq2 { p, a, b, mode }).boxed()
            }, |c: &Sq2| {
                let p = c.p.p(Class::P3mod4);
                let v = C2(c.a.e(&p), c.b.e(&p));
                let x = match c.mode {
                    0 | 1 => v.mul(&v, &p),
                    2 => v.mul(&v, &p).neg(&p),
                    _ => v,
                };
                check_sqrt2(&p, &Fp2::new(ub(&p)), &x)?;
                Ok(Obs::nt(!x.is_zero()).lif(x.is_sq(&p), "square").lif(!x.is_sq(&p), "non-square").lif(x.is_zero(), "zero")
                    .lif(x.1.is_zero() && !is_sq(&x.0, &p), "real non-residue").lif(x.0.is_zero() && nz(&x.1), "imaginary"))
            }),
        ],
    }
}

// ---------------------------------------------------------------- C07
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Bytes {
    p: PrimeR,
    b: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Text {
    p: PrimeR,
    v: IntR,
    w: IntR,
    radix: u8,
    neg: [bool; 2],
    zeros: u8,
}
fn text(v: &Z, radix: u8, neg: bool, zeros: u8, upper: bool) -> String {
    let (pre, r) = [("", 10), ("0x", 16), ("0o", 8), ("0b", 2)][radix as usize % 4];
    let mut d = v.to_str_radix(r);
    if upper {
        d = d.to_uppercase();
    }
    format!("{}{pre}{}{d}", if neg { "-" } else { "" }, "0".repeat(zeros as usize % 4))
}
fn bytes_s() -> BoxedStrategy<Vec<u8>> {
    let b = || prop_oneof![Just(0u8), Just(0xff), any::<u8>()];
    prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..80),
        6 => proptest::collection::vec(b(), 0..80),
        1 => proptest::collection::vec(b(), 80..700),
    ]
    .boxed()
}
fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().cloned().collect()
}
pub fn c07() -> Property {
    use num_bigint::Sign;
    Property {
        id: "C07",
        rule: "element recipes, arbitrary byte strings of length 0 to 699, mostly below 80, and strings in four radices with sign and leading zeros; values on both sides of p; non-trivial: value with at least two bytes or one that needs reduction",
        assumptions: &["num-bigint radix conversion as reference"],
        clauses: vec![
            pt("roundtrip", 16000, 300000, two, |c: &Two| {
                let p = c.p.p(Class::Any);
                let f = fp(&p);
                let n = (p.bits() as usize + 7) / 8;
                ensure!(f.size_bytes() == n, "size_bytes {} for {} bits", f.size_bytes(), p.bits());
                let x = c.a.e(&p);
                let a = fe(&f, &x);
                let (be_, le_) = (a.to_bytes_be(), a.to_bytes_le());
                ensure!(be_ == be(&x, n), "to_bytes_be({x}) = {}", hex(&be_));
                ensure!(le_ == rev(&be(&x, n)), "to_bytes_le({x}) = {}", hex(&le_));
                let d1 = f.from_bytes_be(&be_).map_err(|e| format!("own bytes refused: {e}"))?;
                let d2 = f.from_bytes_le(&le_).map_err(|e| format!("own bytes refused: {e}"))?;
                ensure!(d1 == a && d2 == a, "bytes do not decode back");
                let s = a.to_string();
                let d3: FpElt = FromFactory::<&str>::from(&f, s.as_str());
                ensure!(d3 == a && s == x.to_string(), "printing {x} gives {s}");
                // extension
                let y = c.b.e(&p);
                let g = Fp2::new(ub(&p));
                ensure!(g.size_bytes() == 2 * n, "fp2 size_bytes");
                let v = C2(x.clone(), y.clone());
                let e = e2(&g, &v);
                let want_be: Vec<u8> = [be(&x, n), be(&y, n)].concat();
                let want_le: Vec<u8> = [rev(&be(&x, n)), rev(&be(&y, n))].concat();
                ensure!(e.to_bytes_be() == want_be, "fp2 to_bytes_be {}", hex(&e.to_bytes_be()));
                ensure!(e.to_bytes_le() == want_le, "fp2 to_bytes_le {}", hex(&e.to_bytes_le()));
                let q1 = g.from_bytes_be(&want_be).map_err(|e| e.to_string())?;
                let q2 = g.from_bytes_le(&want_le).map_err(|e| e.to_string())?;
                ensure!(q1 == e && q2 == e, "fp2 bytes do not decode back");
                same2(&g, "fp2 decoded", &q1, &v)?;
                Ok(Obs::nt(x > z(255)).n(12).lif(be_[0] == 0, "leading zero byte").lif(p.bits() % 8 == 0, "p fills its bytes").lif(p.bits() % 8 == 1, "one-bit top byte"))
            }),
            pt("from-bytes", 16000, 300000, || (prime_r(), bytes_s()).prop_map(|(p, b)| Bytes { p, b }).boxed(), |c: &Bytes| {
                let p = c.p.p(Class::Any);
                let f = fp(&p);
                let v = BigInt::from_bytes_be(Sign::Plus, &c.b);
                let l = BigInt::from_bytes_le(Sign::Plus, &c.b);
                same(&f, "from_bytes_be", &f.from_bytes_be(&c.b).map_err(|e| e.to_string())?, &md(&v, &p))?;
                same(&f, "from_bytes_le", &f.from_bytes_le(&c.b).map_err(|e| e.to_string())?, &md(&l, &p))?;
                let g = Fp2::new(ub(&p));
                let n = g.size_bytes() / 2;
                for k in [c.b.len(), n, 2 * n, 2 * n + 1, 2 * n - 1] {
                    let mut b = c.b.clone();
                    b.resize(k, 0x5a);
                    match (g.from_bytes_be(&b), g.from_bytes_le(&b)) {
                        (Ok(x), Ok(y)) => {
                            ensure!(k == 2 * n, "fp2 accepted {k} bytes");
                            let w = |s: &[u8], be: bool| md(&(if be { BigInt::from_bytes_be(Sign::Plus, s) } else { BigInt::from_bytes_le(Sign::Plus, s) }), &p);
                            same2(&g, "fp2 be", &x, &C2(w(&b[..n], true), w(&b[n..], true)))?;
                            same2(&g, "fp2 le", &y, &C2(w(&b[..n], false), w(&b[n..], false)))?;
                        }
                        (Err(_), Err(_)) => ensure!(k != 2 * n, "fp2 refused {k} bytes"),
                        _ => return Err("big- and little-endian disagree on the length".into()),
                    }
                }
                Ok(Obs::nt(v >= p).n(12).lif(c.b.is_empty(), "empty").lif(c.b.len() > n, "longer than the field"))
            }),
            pt("strings", 16000, 300000, || {
                (prime_r(), int_r(), int_r(), 0u8..8, any::<[bool; 2]>(), 0u8..8).prop_map(|(p, v, w, radix, neg, zeros)| Text { p, v, w, radix, neg, zeros }).boxed()
            }, |c: &Text| {
                let p = c.p.p(Class::Any);
                let f = fp(&p);
                let (v, w) = (c.v.raw(&p, &[]), c.w.raw(&p, &[]));
                let (v, w) = (v.abs(), w.abs());
                let s = text(&v, c.radix, c.neg[0], c.zeros, c.radix > 3);
                let t = text(&w, c.zeros, c.neg[1], c.radix, false);
                let val = |v: &Z, n: bool| md(&if n { -v } else { v.clone() }, &p);
                same(&f, &format!("parse {s:?}"), &FromFactory::<&str>::from(&f, s.as_str()), &val(&v, c.neg[0]))?;
                same(&f, &format!("parse {t:?}"), &FromFactory::<&str>::from(&f, t.as_str()), &val(&w, c.neg[1]))?;
                same(&f, &format!("lift {t:?}"), &IntoFactory::<Fp, FpElt>::lift(t.as_str(), &f), &val(&w, c.neg[1]))?;
                same(&f, "parse \"\"", &FromFactory::<&str>::from(&f, ""), &z(0))?;
                let g = Fp2::new(ub(&p));
                let st = format!("{s},{t}");
                same2(&g, &format!("parse {st:?}"), &FromFactory::<&str>::from(&g, st.as_str()), &C2(val(&v, c.neg[0]), val(&w, c.neg[1])))?;
                Ok(Obs::nt(v > z(255)).n(3).lif(c.neg[0], "negative").lif(s.len() == 1, "one character").lif(v >= p, "needs reduction")
                    .l(["decimal", "hex", "octal", "binary"][c.radix as usize % 4]))
            }),
        ],
    }
}
