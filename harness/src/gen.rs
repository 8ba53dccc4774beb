//! Input recipes: modulus-independent, serde-able descriptions of integers, primes, points and
//! encodings, with proptest strategies. Recipes are evaluated against a modulus / curve by the
//! reference mathematics, so one recipe reaches the same kind of boundary on every configuration.
use crate::refm::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum IntR {
    /// k
    S(u16),
    /// p - k
    N(u16),
    /// (p - 1) / 2 + d
    H(i8),
    /// 2^e + d
    P2(u16, i8),
    /// little-endian 32-bit limbs
    L(Vec<u32>),
    /// limbs truncated so that the value has k leading zero bytes in the byte length of p
    Sh(u8, Vec<u32>),
    /// the i-th special value of the property (modulo the number of specials)
    X(u8),
    /// far more than the length of any modulus: limbs shifted left
    Big(u16, Vec<u32>),
}
pub fn limbs(v: &[u32]) -> Z {
    BigInt::from(BigUint::new(v.to_vec()))
}
impl IntR {
    /// before reduction modulo p
    pub fn raw(&self, p: &Z, sp: &[Z]) -> Z {
        match self {
            IntR::S(k) => z(*k as i64),
            IntR::N(k) => p - *k,
            IntR::H(d) => ((p - 1) >> 1) + *d,
            IntR::P2(e, d) => (Z::one() << (*e as usize)) + *d,
            IntR::L(v) => limbs(v),
            IntR::Sh(k, v) => {
                let n = (p.bits() as usize + 7) / 8;
                let keep = n.saturating_sub(*k as usize);
                limbs(v).mod_floor_pow2(8 * keep)
            }
            IntR::Big(k, v) => limbs(v) << (*k as usize),
            IntR::X(i) => {
                if sp.is_empty() {
                    z(*i as i64)
                } else {
                    sp[*i as usize % sp.len()].clone()
                }
            }
        }
    }
    pub fn ev(&self, p: &Z, sp: &[Z]) -> Z {
        md(&self.raw(p, sp), p)
    }
    pub fn e(&self, p: &Z) -> Z {
        self.ev(p, &[])
    }
}
trait ModPow2 {
    fn mod_floor_pow2(&self, k: usize) -> Z;
}
impl ModPow2 for Z {
    fn mod_floor_pow2(&self, k: usize) -> Z {
        let m = Z::one() << k;
        md(self, &m)
    }
}
fn limb() -> BoxedStrategy<u32> {
    prop_oneof![
        Just(0u32),
        Just(1),
        Just(0xffff_ffff),
        Just(0x8000_0000),
        Just(0x7fff_ffff),
        Just(0xffff_fffe),
        any::<u32>(),
    ]
    .boxed()
}
pub fn wide() -> BoxedStrategy<Vec<u32>> {
    proptest::collection::vec(any::<u32>(), 18).boxed()
}
pub fn int_r() -> BoxedStrategy<IntR> {
    prop_oneof![
        3 => (0u16..=9).prop_map(IntR::S),
        2 => (0u16..700).prop_map(IntR::S),
        3 => (0u16..=9).prop_map(IntR::N),
        2 => (-3i8..=3).prop_map(IntR::H),
        3 => (0u16..560, -2i8..=2).prop_map(|(e, d)| IntR::P2(e, d)),
        4 => proptest::collection::vec(limb(), 0..=18).prop_map(IntR::L),
        7 => wide().prop_map(IntR::L),
        2 => (1u8..=6, wide()).prop_map(|(k, v)| IntR::Sh(k, v)),
        3 => (0u8..32).prop_map(IntR::X),
        1 => (0u16..4200, proptest::collection::vec(limb(), 1..40)).prop_map(|(k, v)| IntR::Big(k, v)),
    ]
    .boxed()
}
/// mostly uniform values, for expensive operations
pub fn int_mostly_random() -> BoxedStrategy<IntR> {
    prop_oneof![2 => int_r(), 3 => wide().prop_map(IntR::L)].boxed()
}
/// any integer, of any sign and of any size relative to p
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct AnyInt {
    pub neg: bool,
    pub v: IntR,
    /// multiples of p added
    pub m: i16,
    /// a large multiple of p added (or subtracted, when the first limb is odd)
    #[serde(default)]
    pub mm: Vec<u32>,
}
impl AnyInt {
    pub fn ev(&self, p: &Z) -> Z {
        let v = self.v.raw(p, &[]);
        let v = if self.neg { -v } else { v };
        let mm = limbs(&self.mm);
        let mm = if self.mm.first().map_or(false, |l| l % 2 == 1) { -mm } else { mm };
        v + p * self.m + p * mm
    }
}
pub fn any_int() -> BoxedStrategy<AnyInt> {
    (
        any::<bool>(),
        int_r(),
        prop_oneof![4 => Just(0i16), 2 => -3i16..=3, 1 => any::<i16>()],
        prop_oneof![8 => Just(vec![]), 1 => proptest::collection::vec(limb(), 1..20), 1 => wide()],
    )
        .prop_map(|(neg, v, m, mm)| AnyInt { neg, v, m, mm })
        .boxed()
}

// ---------------------------------------------------------------- prime moduli
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PrimeR {
    /// i-th odd prime
    Small(u8),
    /// i-th listed prime (word boundaries, curve primes and orders)
    Listed(u8),
    /// first prime of the residue class at or after these limbs
    Next(Vec<u32>),
    /// i-th prime of 607 to 2203 bits
    Large(u8),
}
pub fn small_primes() -> &'static Vec<u32> {
    static S: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    S.get_or_init(|| (3u32..1700).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect())
}
pub fn listed_primes() -> &'static Vec<Z> {
    static S: std::sync::OnceLock<Vec<Z>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Z> = vec![];
        for (e, d) in [
            (7, -1), (8, -5), (8, 1), (13, -1), (16, -15), (16, 1), (17, -1), (19, -1), (24, -3), (31, -1), (32, -5),
            (32, 15), (61, -1), (63, -25), (64, -59), (64, 13), (89, -1), (96, -17), (107, -1), (127, -1), (128, -159),
            (128, 51), (130, -5), (192, -237), (255, -31), (256, -189), (256, 297),
        ] {
            let p: Z = (Z::one() << e as usize) + d as i64;
            assert!(is_prime(&p), "listed prime 2^{e}{d:+}");
            v.push(p);
        }
        for s in crate::world::all_specs() {
            v.push(s.p.clone());
            v.push(s.r.clone());
        }
        // 64-bit and wider primes of every residue class modulo 16
        for k in [63usize, 64, 65, 127, 160] {
            for r in [1u8, 3, 5, 7, 9, 11, 13, 15] {
                v.push(next_prime(&((Z::one() << k) + 12345), Some((16, r))));
            }
        }
        v.sort();
        v.dedup();
        v.retain(|p| p > &z(2));
        v
    })
}
/// far beyond the curve primes; 2^607-1, 2^1279-1 and 2^2203-1 are Mersenne primes, the others were
/// found with sympy
pub fn large_primes() -> &'static Vec<Z> {
    static S: std::sync::OnceLock<Vec<Z>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        [
            (607, -1), (1279, -1), (2203, -1), (768, 241), (768, 427), (768, 12133), (768, 183), (768, 3225), (1024, 2113),
            (1024, 643), (1024, 12757), (1024, 3711), (1024, 1081), (2050, 4753), (2050, 1435), (2050, 4549), (2050, 17679),
            (2050, 1593),
        ]
        .iter()
        .map(|(e, d): &(usize, i64)| (Z::one() << *e) + *d)
        .collect()
    })
}
/// residue condition: any odd prime, 3 mod 4, or a prime this library can take roots in
#[derive(Clone, Copy, PartialEq)]
pub enum Class {
    Any,
    P3mod4,
    Not1mod8,
}
impl Class {
    pub fn ok(&self, p: &Z) -> bool {
        match self {
            Class::Any => true,
            Class::P3mod4 => low8(p) & 3 == 3,
            Class::Not1mod8 => low8(p) & 7 != 1,
        }
    }
}
fn pick<'a, T>(v: &'a [T], i: usize, ok: impl Fn(&T) -> bool) -> &'a T {
    let n = v.len();
    (0..n).map(|k| &v[(i + k) % n]).find(|x| ok(x)).unwrap()
}
impl PrimeR {
    pub fn p(&self, c: Class) -> Z {
        match self {
            PrimeR::Small(i) => z(*pick(small_primes(), *i as usize, |q| c.ok(&z(**&q as i64))) as i64),
            PrimeR::Listed(i) => pick(listed_primes(), *i as usize, |q| c.ok(q)).clone(),
            PrimeR::Large(i) => pick(large_primes(), *i as usize, |q| c.ok(q)).clone(),
            PrimeR::Next(v) => {
                let mut n = limbs(v);
                loop {
                    n = next_prime(&n, None);
                    if c.ok(&n) {
                        return n;
                    }
                    n += 2;
                }
            }
        }
    }
}
pub fn prime_r() -> BoxedStrategy<PrimeR> {
    prop_oneof![
        30 => (0u8..=255).prop_map(PrimeR::Small),
        60 => (0u8..=160).prop_map(PrimeR::Listed),
        10 => proptest::collection::vec(any::<u32>(), 1..=8).prop_map(PrimeR::Next),
        2 => (0u8..18).prop_map(PrimeR::Large),
    ]
    .boxed()
}

// ---------------------------------------------------------------- points
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PtR {
    /// neutral element
    O,
    /// small multiple of the generator
    G(i8),
    /// (+-) 2^i G
    G2(u16, bool),
    /// point with the first liftable coordinate at or after the value
    Lift(IntR, bool),
    /// i-th point of order dividing the cofactor
    Low(u8),
    /// low-order point plus a lifted point
    LowPlus(u8, IntR, bool),
    /// a point whose y coordinate is small or has few non-zero words (the i-th such point)
    Sy(u8),
}
pub fn pt_r() -> BoxedStrategy<PtR> {
    prop_oneof![
        2 => Just(PtR::O),
        3 => (-20i8..=20).prop_map(PtR::G),
        1 => (0u16..530, any::<bool>()).prop_map(|(i, n)| PtR::G2(i, n)),
        8 => (int_r(), any::<bool>()).prop_map(|(v, n)| PtR::Lift(v, n)),
        2 => (0u8..16).prop_map(PtR::Low),
        2 => (0u8..16, int_r(), any::<bool>()).prop_map(|(i, v, n)| PtR::LowPlus(i, v, n)),
        1 => (0u8..120).prop_map(PtR::Sy),
    ]
    .boxed()
}
/// second operand: independent, or related to the first one
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RelR {
    Free(PtR),
    Same,
    Neg,
    /// P + small-y point, P + low-order point, 2P: differences that special formulas trip over
    PlusSy(u8, bool),
    PlusLow(u8),
    Dbl,
    /// the sum of both is this point
    SumTo(PtR),
    /// the i-th point with the same y coordinate
    SameY(u8),
    /// a point whose lifted coordinate differs by a small multiple of 2^e (the low e bits agree, or
    /// all but a few low bits agree)
    Near(u16, i8),
}
pub fn rel_r() -> BoxedStrategy<RelR> {
    prop_oneof![
        8 => pt_r().prop_map(RelR::Free),
        2 => Just(RelR::Same),
        2 => Just(RelR::Neg),
        2 => (0u8..64, any::<bool>()).prop_map(|(i, n)| RelR::PlusSy(i, n)),
        2 => (0u8..16).prop_map(RelR::PlusLow),
        1 => Just(RelR::Dbl),
        2 => pt_r().prop_map(RelR::SumTo),
        1 => (0u8..4).prop_map(RelR::SameY),
        2 => (prop_oneof![2 => Just(0u16), 2 => proptest::sample::select(vec![32u16, 64, 96, 128, 192, 256]), 1 => 0u16..530], any::<i8>()).prop_map(|(e, d)| RelR::Near(e, d)),
    ]
    .boxed()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn nz(v: &Z) -> bool {
    !v.is_zero()
}
