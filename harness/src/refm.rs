//! Reference mathematics. Nothing in this file calls redox_ecc: plain integers (num-bigint),
//! affine textbook group laws, extended-Euclid inverses, Jacobi symbols.
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

pub type Z = BigInt;
pub fn z(n: i64) -> Z {
    Z::from(n)
}
pub fn zhex(s: &str) -> Z {
    Z::parse_bytes(s.as_bytes(), 16).expect("hex")
}
pub fn md(x: &Z, p: &Z) -> Z {
    x.mod_floor(p)
}
pub fn mulm(a: &Z, b: &Z, p: &Z) -> Z {
    (a * b).mod_floor(p)
}
/// inverse with inv(0) = 0; p prime
pub fn inv0(a: &Z, p: &Z) -> Z {
    let a = a.mod_floor(p);
    if a.is_zero() {
        return a;
    }
    let e = a.extended_gcd(p);
    assert!(e.gcd.is_one(), "reference modulus not prime");
    e.x.mod_floor(p)
}
/// Right-to-left binary exponentiation, e >= 0, 0^0 = 1.
pub fn powm(a: &Z, e: &Z, p: &Z) -> Z {
    assert!(!e.is_negative());
    let mut r = md(&Z::one(), p);
    let mut b = md(a, p);
    for byte in e.to_bytes_le().1 {
        for j in 0..8 {
            if (byte >> j) & 1 == 1 {
                r = mulm(&r, &b, p);
            }
            b = mulm(&b, &b, p);
        }
    }
    r
}
/// a^e for any sign; 0^0 = 1, 0^e = 0 otherwise (inverse of zero is zero).
pub fn pow_any(a: &Z, e: &Z, p: &Z) -> Z {
    if e.is_negative() {
        powm(&inv0(a, p), &-e, p)
    } else {
        powm(a, e, p)
    }
}
/// Jacobi symbol; n odd positive.
pub fn jacobi(a: &Z, n: &Z) -> i32 {
    let mut a = a.mod_floor(n);
    let mut n = n.clone();
    let mut t = 1;
    while !a.is_zero() {
        let tz = a.trailing_zeros().unwrap();
        a >>= tz;
        if tz % 2 == 1 {
            let r: u8 = low8(&n) & 7;
            if r == 3 || r == 5 {
                t = -t;
            }
        }
        std::mem::swap(&mut a, &mut n);
        if low8(&a) & 3 == 3 && low8(&n) & 3 == 3 {
            t = -t;
        }
        a = a.mod_floor(&n);
    }
    if n.is_one() {
        t
    } else {
        0
    }
}
pub fn low8(a: &Z) -> u8 {
    a.to_bytes_le().1[0]
}
pub fn is_sq(a: &Z, p: &Z) -> bool {
    jacobi(a, p) >= 0
}
/// Some square root of a modulo p, or None.
pub fn sqrtm(a: &Z, p: &Z) -> Option<Z> {
    let a = md(a, p);
    if a.is_zero() {
        return Some(a);
    }
    if jacobi(&a, p) != 1 {
        return None;
    }
    let r = if low8(p) & 3 == 3 {
        a.modpow(&((p + 1) >> 2), p)
    } else if low8(p) & 7 == 5 {
        // Atkin
        let two = z(2);
        let b = (&two * &a).modpow(&((p - 5) >> 3), p);
        let i = md(&(&two * &a * &b * &b), p);
        md(&(&a * &b * (i - 1)), p)
    } else {
        // Tonelli-Shanks
        let s = Z::from(p - 1).trailing_zeros().unwrap();
        let q = (p - 1) >> s;
        let mut n = z(2);
        while jacobi(&n, p) != -1 {
            n += 1;
        }
        let mut m = s;
        let mut c = n.modpow(&q, p);
        let mut t = a.modpow(&q, p);
        let mut r = a.modpow(&((&q + 1) >> 1), p);
        while !t.is_one() {
            let mut i = 0;
            let mut tt = t.clone();
            while !tt.is_one() {
                tt = mulm(&tt, &tt, p);
                i += 1;
            }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) {
                b = mulm(&b, &b, p);
            }
            m = i;
            c = mulm(&b, &b, p);
            t = mulm(&t, &c, p);
            r = mulm(&r, &b, p);
        }
        r
    };
    assert!(mulm(&r, &r, p) == a, "reference sqrt");
    Some(r)
}
pub fn odd(a: &Z) -> bool {
    a.bit(0)
}
/// +1 for an even representative, -1 for an odd one
pub fn sgn(a: &Z) -> i32 {
    if odd(a) {
        -1
    } else {
        1
    }
}
/// Miller-Rabin with fixed bases (deterministic).
pub fn is_prime(n: &Z) -> bool {
    if n < &z(2) {
        return false;
    }
    const SP: [i64; 24] = [
        2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89,
    ];
    for q in SP {
        if n == &z(q) {
            return true;
        }
        if (n % q).is_zero() {
            return false;
        }
    }
    let s = Z::from(n - 1).trailing_zeros().unwrap();
    let d = (n - 1) >> s;
    'o: for q in &SP[..14] {
        let mut x = z(*q).modpow(&d, n);
        if x.is_one() || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulm(&x, &x, n);
            if x == n - 1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}
pub fn next_prime(n: &Z, res: Option<(u8, u8)>) -> Z {
    let mut n = n.clone();
    if n < z(3) {
        n = z(3);
    }
    if !odd(&n) {
        n += 1;
    }
    loop {
        let ok = match res {
            Some((m, r)) => low8(&n) % m == r,
            None => true,
        };
        if ok && is_prime(&n) {
            return n;
        }
        n += 2;
    }
}

// ---------------------------------------------------------------- GF(p)[i]/(i^2+1)
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct C2(pub Z, pub Z);
impl C2 {
    pub fn red(&self, p: &Z) -> C2 {
        C2(md(&self.0, p), md(&self.1, p))
    }
    pub fn add(&self, o: &C2, p: &Z) -> C2 {
        C2(&self.0 + &o.0, &self.1 + &o.1).red(p)
    }
    pub fn sub(&self, o: &C2, p: &Z) -> C2 {
        C2(&self.0 - &o.0, &self.1 - &o.1).red(p)
    }
    pub fn neg(&self, p: &Z) -> C2 {
        C2(-&self.0, -&self.1).red(p)
    }
    pub fn mul(&self, o: &C2, p: &Z) -> C2 {
        C2(
            &self.0 * &o.0 - &self.1 * &o.1,
            &self.0 * &o.1 + &self.1 * &o.0,
        )
        .red(p)
    }
    pub fn inv0(&self, p: &Z) -> C2 {
        let n = inv0(&(&self.0 * &self.0 + &self.1 * &self.1), p);
        C2(&self.0 * &n, -&self.1 * &n).red(p)
    }
    pub fn pow(&self, e: &Z, p: &Z) -> C2 {
        let mut r = C2(Z::one(), Z::zero());
        let mut b = self.red(p);
        for byte in e.to_bytes_le().1 {
            for j in 0..8 {
                if (byte >> j) & 1 == 1 {
                    r = r.mul(&b, p);
                }
                b = b.mul(&b, p);
            }
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_zero() && self.1.is_zero()
    }
    /// p = 3 mod 4: square iff the norm is a square in GF(p)
    pub fn is_sq(&self, p: &Z) -> bool {
        is_sq(&(&self.0 * &self.0 + &self.1 * &self.1), p)
    }
    pub fn sgn(&self) -> i32 {
        if self.0.is_zero() {
            sgn(&self.1)
        } else {
            sgn(&self.0)
        }
    }
}

// ---------------------------------------------------------------- curves
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    W,
    M,
    E,
}
/// Curve data. For E, `b` is the coefficient d.
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub name: String,
    pub builtin: bool,
    /// r and h are the real subgroup order and cofactor
    pub ordered: bool,
    pub p: Z,
    pub a: Z,
    pub b: Z,
    pub s: Z,
    pub r: Z,
    pub h: Z,
    pub gx: Z,
    pub gy: Z,
}
/// Affine point; None is the point at infinity (never used for Edwards).
pub type RP = Option<(Z, Z)>;

impl Spec {
    pub fn zero(&self) -> RP {
        match self.kind {
            Kind::E => Some((Z::zero(), Z::one())),
            _ => None,
        }
    }
    pub fn gen(&self) -> RP {
        Some((self.gx.clone(), self.gy.clone()))
    }
    pub fn on(&self, x: &Z, y: &Z) -> bool {
        let p = &self.p;
        let e = match self.kind {
            Kind::W => y * y - (x * x * x + &self.a * x + &self.b),
            Kind::M => &self.b * y * y - (x * x * x + &self.a * x * x + x),
            Kind::E => &self.a * x * x + y * y - 1 - &self.b * x * x * y * y,
        };
        e.mod_floor(p).is_zero()
    }
    pub fn on_rp(&self, q: &RP) -> bool {
        match q {
            None => self.kind != Kind::E,
            Some((x, y)) => self.on(x, y),
        }
    }
    pub fn neg(&self, q: &RP) -> RP {
        q.as_ref().map(|(x, y)| match self.kind {
            Kind::E => (md(&-x, &self.p), y.clone()),
            _ => (x.clone(), md(&-y, &self.p)),
        })
    }
    pub fn add(&self, u: &RP, v: &RP) -> RP {
        let p = &self.p;
        if self.kind == Kind::E {
            let (x1, y1) = u.as_ref().unwrap();
            let (x2, y2) = v.as_ref().unwrap();
            let t = md(&(x1 * x2 * md(&(y1 * y2), p) * &self.b), p);
            let dx = md(&(Z::one() + &t), p);
            let dy = md(&(Z::one() - &t), p);
            assert!(!dx.is_zero() && !dy.is_zero(), "reference: incomplete edwards curve");
            let x = mulm(&(x1 * y2 + x2 * y1), &inv0(&dx, p), p);
            let y = mulm(&(y1 * y2 - &self.a * x1 * x2), &inv0(&dy, p), p);
            return Some((x, y));
        }
        let (x1, y1) = match u {
            None => return v.clone(),
            Some(t) => t,
        };
        let (x2, y2) = match v {
            None => return u.clone(),
            Some(t) => t,
        };
        let l = if x1 == x2 {
            if md(&(y1 + y2), p).is_zero() {
                return None;
            }
            match self.kind {
                Kind::W => mulm(&(3 * x1 * x1 + &self.a), &inv0(&(2 * y1), p), p),
                _ => mulm(
                    &(3 * x1 * x1 + 2 * &self.a * x1 + 1),
                    &inv0(&(2 * &self.b * y1), p),
                    p,
                ),
            }
        } else {
            mulm(&(y2 - y1), &inv0(&(x2 - x1), p), p)
        };
        let x3 = match self.kind {
            Kind::W => &l * &l - x1 - x2,
            _ => &self.b * &l * &l - &self.a - x1 - x2,
        };
        let x3 = md(&x3, p);
        let y3 = md(&(&l * (x1 - &x3) - y1), p);
        Some((x3, y3))
    }
    pub fn sub(&self, u: &RP, v: &RP) -> RP {
        self.add(u, &self.neg(v))
    }
    /// right-to-left double and add, k >= 0
    pub fn mul(&self, q: &RP, k: &Z) -> RP {
        assert!(!k.is_negative());
        let mut r = self.zero();
        let mut d = q.clone();
        let n = k.bits();
        for i in 0..n {
            if k.bit(i) {
                r = self.add(&r, &d);
            }
            if i + 1 < n {
                d = self.add(&d, &d);
            }
        }
        r
    }
    /// A point with first coordinate x (W, M) or second coordinate y (E); parity of the other
    /// coordinate chosen by `neg`.
    pub fn lift(&self, v: &Z, neg: bool) -> Option<RP> {
        let p = &self.p;
        let v = md(v, p);
        let other = match self.kind {
            Kind::W => sqrtm(&(&v * &v * &v + &self.a * &v + &self.b), p)?,
            Kind::M => sqrtm(
                &((&v * &v * &v + &self.a * &v * &v + &v) * inv0(&self.b, p)),
                p,
            )?,
            Kind::E => {
                let den = md(&(&self.a - &self.b * &v * &v), p);
                if den.is_zero() {
                    return None;
                }
                sqrtm(&((Z::one() - &v * &v) * inv0(&den, p)), p)?
            }
        };
        let other = if odd(&other) == neg { other } else { md(&-other, p) };
        Some(match self.kind {
            Kind::E => Some((other, v)),
            _ => Some((v, other)),
        })
    }
    /// lift of the first value >= v that has a point
    pub fn lift_next(&self, v: &Z, neg: bool) -> RP {
        let mut v = md(v, &self.p);
        loop {
            if let Some(q) = self.lift(&v, neg) {
                return q;
            }
            v = md(&(v + 1), &self.p);
        }
    }
    pub fn flen(&self) -> usize {
        (self.p.bits() as usize + 7) / 8
    }
    /// documented encoding
    pub fn encode(&self, q: &RP, compress: bool) -> Vec<u8> {
        let n = self.flen();
        match self.kind {
            Kind::E => {
                let (x, y) = q.as_ref().unwrap();
                let len = (self.p.bits() as usize + 8) / 8;
                let mut b = be(y, len);
                b.reverse();
                if odd(x) {
                    *b.last_mut().unwrap() |= 0x80;
                }
                b
            }
            _ => match q {
                None => vec![0],
                Some((x, y)) => {
                    let mut o = vec![if compress { 2 + odd(y) as u8 } else { 4 }];
                    o.extend(be(x, n));
                    if !compress {
                        o.extend(be(y, n));
                    }
                    o
                }
            },
        }
    }
    /// strict canonical decoder: Some(point) iff bytes is a canonical encoding
    pub fn decode(&self, bytes: &[u8]) -> Option<RP> {
        let n = self.flen();
        let q = match self.kind {
            Kind::E => {
                let len = (self.p.bits() as usize + 8) / 8;
                if bytes.len() != len {
                    return None;
                }
                let mut b = bytes.to_vec();
                let sign = b[len - 1] & 0x80 != 0;
                b[len - 1] &= 0x7f;
                let y = Z::from_bytes_le(Sign::Plus, &b);
                if y >= self.p {
                    return None;
                }
                self.lift(&y, sign)?
            }
            _ => match (bytes.first()?, bytes.len()) {
                (0, 1) => RP::None,
                (4, l) if l == 2 * n + 1 => {
                    let x = Z::from_bytes_be(Sign::Plus, &bytes[1..n + 1]);
                    let y = Z::from_bytes_be(Sign::Plus, &bytes[n + 1..]);
                    if x >= self.p || y >= self.p || !self.on(&x, &y) {
                        return Option::None;
                    }
                    Some((x, y))
                }
                (2 | 3, l) if l == n + 1 => {
                    let x = Z::from_bytes_be(Sign::Plus, &bytes[1..]);
                    if x >= self.p {
                        return Option::None;
                    }
                    self.lift(&x, bytes[0] == 3)?
                }
                _ => return Option::None,
            },
        };
        if [false, true].iter().any(|&c| self.encode(&q, c) == bytes) {
            Some(q)
        } else {
            Option::None
        }
    }
    /// value of the curve's right-hand side x^3+ax+b (W)
    pub fn g(&self, x: &Z) -> Z {
        md(&(x * x * x + &self.a * x + &self.b), &self.p)
    }
}

pub fn be(v: &Z, n: usize) -> Vec<u8> {
    let b: Vec<u8> = v.to_biguint().unwrap().to_bytes_be();
    let b = if v.is_zero() { vec![] } else { b };
    let mut o = vec![0u8; n.checked_sub(b.len()).expect("value too long")];
    o.extend(b);
    o
}
pub fn ub(v: &Z) -> BigUint {
    v.to_biguint().unwrap()
}

// ---------------------------------------------------------------- maps to curves (from the published definitions)
pub fn sswu_exists(c: &Spec, zz: &Z) -> bool {
    let p = &c.p;
    let zz = md(zz, p);
    if c.a.is_zero() || c.b.is_zero() || jacobi(&zz, p) != -1 || zz == p - 1 {
        return false;
    }
    is_sq(&c.g(&mulm(&c.b, &inv0(&(&zz * &c.a), p), p)), p)
}
fn fix_sign(y: Z, neg: bool, p: &Z) -> Z {
    if y.is_zero() || odd(&y) == neg {
        y
    } else {
        p - y
    }
}
/// returns the point and which candidate was used (0: exceptional x, 1, 2)
pub fn sswu(c: &Spec, zz: &Z, u: &Z) -> ((Z, Z), u8) {
    let p = &c.p;
    let zu2 = md(&(zz * u * u), p);
    let t = md(&(&zu2 * &zu2 + &zu2), p);
    let exc = t.is_zero();
    let x1 = if exc {
        mulm(&c.b, &inv0(&(zz * &c.a), p), p)
    } else {
        md(&(-&c.b * inv0(&c.a, p) * (Z::one() + inv0(&t, p))), p)
    };
    let g1 = c.g(&x1);
    let (x, y, k) = match sqrtm(&g1, p) {
        Some(y) => (x1, y, if exc { 0 } else { 1 }),
        None => {
            let x2 = mulm(&zu2, &x1, p);
            let y = sqrtm(&c.g(&x2), p).expect("sswu reference: second candidate");
            (x2, y, 2)
        }
    };
    ((x, fix_sign(y, odd(u), p)), k)
}
pub fn svdw_exists(c: &Spec, zz: &Z) -> bool {
    let p = &c.p;
    let gz = c.g(zz);
    if gz.is_zero() {
        return false;
    }
    let t = md(&(-Z::from(3 * zz * zz + 4 * &c.a) * inv0(&(4 * &gz), p)), p);
    if t.is_zero() || !is_sq(&t, p) {
        return false;
    }
    let half = md(&(-zz * inv0(&z(2), p)), p);
    is_sq(&gz, p) || is_sq(&c.g(&half), p)
}
pub fn svdw(c: &Spec, zz: &Z, u: &Z) -> ((Z, Z), u8, bool) {
    let p = &c.p;
    let gz = c.g(zz);
    let w = md(&(3 * zz * zz + 4 * &c.a), p);
    let c2 = md(&(-zz * inv0(&z(2), p)), p);
    let c3 = fix_sign(sqrtm(&md(&(-&gz * &w), p), p).expect("svdw c3"), false, p);
    let c4 = md(&(-Z::from(4 * &gz) * inv0(&w, p)), p);
    let t1 = md(&(u * u * &gz), p);
    let t2 = md(&(Z::one() + &t1), p);
    let t1 = md(&(Z::one() - &t1), p);
    let prod = mulm(&t1, &t2, p);
    let t3 = inv0(&prod, p);
    let t4 = md(&(u * &t1 * &t3 * &c3), p);
    let x1 = md(&(&c2 - &t4), p);
    let x2 = md(&(&c2 + &t4), p);
    let x3 = {
        let s = md(&(&t2 * &t2 * &t3), p);
        md(&(zz + &c4 * &s * &s), p)
    };
    for (i, x) in [x1, x2, x3].into_iter().enumerate() {
        if let Some(y) = sqrtm(&c.g(&x), p) {
            return ((x, fix_sign(y, odd(u), p)), i as u8 + 1, prod.is_zero());
        }
    }
    panic!("svdw reference: no candidate is square")
}
/// Elligator 2 on b y^2 = x^3 + a x^2 + x through (s,t) = (x/b, y/b): t^2 = s^3 + (a/b) s^2 + s/b^2
pub fn ell2(c: &Spec, zz: &Z, u: &Z) -> ((Z, Z), u8) {
    let p = &c.p;
    let ib = inv0(&c.b, p);
    let j = mulm(&c.a, &ib, p);
    let k2 = mulm(&ib, &ib, p);
    let g = |x: &Z| md(&(x * x * x + &j * x * x + &k2 * x), p);
    let d = md(&(Z::one() + zz * u * u), p);
    let exc = d.is_zero();
    let x1 = if exc { md(&-&j, p) } else { md(&(-&j * inv0(&d, p)), p) };
    let g1 = g(&x1);
    let (x, y, w) = match sqrtm(&g1, p) {
        Some(y) => (x1, fix_sign(y, true, p), 1),
        None => {
            let x2 = md(&(-&x1 - &j), p);
            let y = sqrtm(&g(&x2), p).expect("ell2 reference: second candidate");
            (x2, fix_sign(y, false, p), 2)
        }
    };
    ((mulm(&x, &c.b, p), mulm(&y, &c.b, p)), if exc { 0 } else { w })
}

// ---------------------------------------------------------------- polynomials (for points with a given y)
fn ptrim(mut a: Vec<Z>) -> Vec<Z> {
    while a.last().map_or(false, |c| c.is_zero()) {
        a.pop();
    }
    a
}
fn pmod(mut a: Vec<Z>, f: &[Z], p: &Z) -> Vec<Z> {
    let iv = inv0(f.last().unwrap(), p);
    while a.len() >= f.len() {
        let c = mulm(a.last().unwrap(), &iv, p);
        let o = a.len() - f.len();
        for i in 0..f.len() {
            a[o + i] = md(&(&a[o + i] - &c * &f[i]), p);
        }
        a.pop();
    }
    ptrim(a)
}
fn pmul(a: &[Z], b: &[Z], f: &[Z], p: &Z) -> Vec<Z> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Z::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = md(&(&r[i + j] + x * y), p);
        }
    }
    pmod(r, f, p)
}
fn ppow(base: Vec<Z>, e: &Z, f: &[Z], p: &Z) -> Vec<Z> {
    let mut r = pmod(vec![Z::one()], f, p);
    let mut b = pmod(base, f, p);
    for i in 0..e.bits() {
        if e.bit(i) {
            r = pmul(&r, &b, f, p);
        }
        b = pmul(&b, &b, f, p);
    }
    r
}
fn psub(mut a: Vec<Z>, b: &[Z], p: &Z) -> Vec<Z> {
    while a.len() < b.len() {
        a.push(Z::zero());
    }
    for i in 0..b.len() {
        a[i] = md(&(&a[i] - &b[i]), p);
    }
    ptrim(a)
}
fn pgcd(mut a: Vec<Z>, mut b: Vec<Z>, p: &Z) -> Vec<Z> {
    while !b.is_empty() {
        let r = pmod(a, &b, p);
        a = b;
        b = r;
    }
    let iv = inv0(a.last().unwrap(), p);
    a.iter().map(|c| mulm(c, &iv, p)).collect()
}
/// roots of a polynomial of low degree over GF(p), coefficients from the constant term up
pub fn roots(f: &[Z], p: &Z) -> Vec<Z> {
    let f = ptrim(f.iter().map(|c| md(c, p)).collect());
    if f.len() < 2 {
        return vec![];
    }
    if p < &z(2000) {
        let mut out = vec![];
        let mut x = Z::zero();
        while &x < p {
            let mut v = Z::zero();
            for c in f.iter().rev() {
                v = md(&(v * &x + c), p);
            }
            if v.is_zero() {
                out.push(x.clone());
            }
            x += 1;
        }
        return out;
    }
    if f.len() == 3 {
        let d = md(&(&f[1] * &f[1] - 4 * &f[0] * &f[2]), p);
        let i = inv0(&md(&(2 * &f[2]), p), p);
        let mut out: Vec<Z> = match sqrtm(&d, p) {
            Some(r) => vec![md(&((&r - &f[1]) * &i), p), md(&((-r - &f[1]) * &i), p)],
            None => vec![],
        };
        out.sort();
        out.dedup();
        return out;
    }
    let xp = ppow(vec![Z::zero(), Z::one()], p, &f, p);
    let g = pgcd(f.clone(), psub(xp, &[Z::zero(), Z::one()], p), p);
    let mut out = vec![];
    let mut stack = vec![g];
    let mut s = 1i64;
    while let Some(g) = stack.pop() {
        if g.len() < 2 {
            continue;
        }
        if g.len() == 2 {
            out.push(md(&-&g[0], p));
            continue;
        }
        loop {
            s += 1;
            let h = ppow(vec![z(s), Z::one()], &((p - 1) >> 1), &g, p);
            let h = psub(h, &[Z::one()], p);
            if h.is_empty() {
                continue;
            }
            let d = pgcd(g.clone(), h, p);
            if d.len() > 1 && d.len() < g.len() {
                // quotient
                let mut a = g.clone();
                let mut q = vec![Z::zero(); g.len() - d.len() + 1];
                while a.len() >= d.len() {
                    let c = a.last().unwrap().clone();
                    let o = a.len() - d.len();
                    for i in 0..d.len() {
                        a[o + i] = md(&(&a[o + i] - &c * &d[i]), p);
                    }
                    q[o] = c;
                    a.pop();
                }
                stack.push(d);
                stack.push(q);
                break;
            }
        }
    }
    out.sort();
    out
}
/// points of c (W or M) whose y coordinate is y
pub fn points_with_y(c: &Spec, y: &Z) -> Vec<RP> {
    let y = md(y, &c.p);
    let f = match c.kind {
        Kind::W => vec![&c.b - &y * &y, c.a.clone(), Z::zero(), Z::one()],
        Kind::M => vec![-&c.b * &y * &y, Z::one(), c.a.clone(), Z::one()],
        Kind::E => {
            // a x^2 + y^2 = 1 + d x^2 y^2
            return [false, true].iter().filter_map(|&n| c.lift(&y, n)).collect();
        }
    };
    roots(&f, &c.p)
        .into_iter()
        .map(|x| Some((x, y.clone())))
        .collect()
}

// ---------------------------------------------------------------- rational maps and isogenies
/// RFC 7748 4.1: edwards25519 -> curve25519, both given as specs, c = sqrt(-486664)
pub fn ed25519_push(q: &RP, p: &Z, c: &Z) -> RP {
    let (x, y) = q.as_ref().unwrap();
    if x.is_zero() {
        return if y.is_one() { None } else { Some((Z::zero(), Z::zero())) };
    }
    let u = mulm(&(1 + y), &inv0(&(1 - y), p), p);
    let v = md(&(c * &u * inv0(x, p)), p);
    Some((u, v))
}
pub fn ed25519_pull(q: &RP, p: &Z, c: &Z) -> RP {
    match q {
        None => Some((Z::zero(), Z::one())),
        Some((u, v)) => {
            if u.is_zero() && v.is_zero() {
                return Some((Z::zero(), p - 1));
            }
            // u = -1 would need a point of the other class of order 4: not on curve25519
            assert!(!v.is_zero() && u != &(p - 1));
            let x = md(&(c * u * inv0(v, p)), p);
            let y = mulm(&(u - 1), &inv0(&(u + 1), p), p);
            Some((x, y))
        }
    }
}
/// RFC 7748 4.2: edwards448 -> curve448
pub fn ed448_push(q: &RP, p: &Z) -> RP {
    let (x, y) = q.as_ref().unwrap();
    if x.is_zero() {
        return None; // (0, 1) and (0, -1) are the kernel
    }
    let ix = inv0(x, p);
    let u = md(&(y * y * &ix * &ix), p);
    let v = md(&((2 - x * x - y * y) * y * mulm(&ix, &(&ix * &ix), p)), p);
    Some((u, v))
}
pub fn ed448_pull(q: &RP, p: &Z) -> RP {
    match q {
        None => Some((Z::zero(), Z::one())),
        Some((u, v)) => {
            if u.is_zero() {
                return Some((Z::zero(), Z::one()));
            }
            let u2 = md(&(u * u), p);
            let v2 = md(&(v * v), p);
            let d1 = md(&(&u2 * &u2 - 2 * &u2 + 4 * &v2 + 1), p);
            let u5 = md(&(&u2 * &u2 * u), p);
            let u3 = md(&(&u2 * u), p);
            let d2 = md(&(&u5 - 2 * &u2 * &v2 - 2 * &u3 - 2 * &v2 + u), p);
            assert!(!d1.is_zero() && !d2.is_zero(), "ed448 pull reference: denominator");
            let x = md(&(4 * v * (&u2 - 1) * inv0(&d1, p)), p);
            let y = md(&(-Z::from(&u5 - 2 * &u3 - 4 * u * &v2 + u) * inv0(&d2, p)), p);
            Some((x, y))
        }
    }
}
/// Velu's formulas for an odd kernel given by the x coordinates of half of it, then scaled by k.
pub struct Velu {
    pub dom: Spec,
    pub half: Vec<Z>,
    pub k: Z,
}
impl Velu {
    pub fn new(dom: Spec, cod: &Spec, half: Vec<Z>) -> Velu {
        let mut v = Velu { dom, half, k: Z::one() };
        let p = v.dom.p.clone();
        let (x, y) = v.push(&v.dom.gen()).unwrap();
        let k2 = mulm(&cod.gx, &inv0(&x, &p), &p);
        let k3 = mulm(&cod.gy, &inv0(&y, &p), &p);
        v.k = mulm(&k3, &inv0(&k2, &p), &p);
        assert!(mulm(&v.k, &v.k, &p) == k2, "velu: generators do not correspond");
        let (a, b) = v.codomain();
        assert!(a == cod.a && b == cod.b, "velu: wrong codomain");
        v
    }
    /// coefficients of the codomain
    pub fn codomain(&self) -> (Z, Z) {
        let p = &self.dom.p;
        let (mut st, mut su) = (Z::zero(), Z::zero());
        for xq in &self.half {
            let (t, u) = self.tu(xq);
            st += &t;
            su += u + t * xq;
        }
        let k2 = mulm(&self.k, &self.k, p);
        let k4 = mulm(&k2, &k2, p);
        let a = md(&((&self.dom.a - 5 * st) * &k4), p);
        let b = md(&((&self.dom.b - 7 * su) * mulm(&k4, &k2, p)), p);
        (a, b)
    }
    fn tu(&self, xq: &Z) -> (Z, Z) {
        let p = &self.dom.p;
        (
            md(&(6 * xq * xq + 2 * &self.dom.a), p),
            md(&(4 * self.dom.g(xq)), p),
        )
    }
    pub fn push(&self, q: &RP) -> RP {
        let p = &self.dom.p;
        let (x, y) = q.as_ref()?;
        let (mut xx, mut yy) = (x.clone(), Z::one());
        for xq in &self.half {
            let d = md(&(x - xq), p);
            if d.is_zero() {
                return None;
            }
            let i = inv0(&d, p);
            let (t, u) = self.tu(xq);
            let i2 = mulm(&i, &i, p);
            xx += &t * &i + &u * &i2;
            yy -= &t * &i2 + 2 * &u * &i2 * &i;
        }
        let k2 = mulm(&self.k, &self.k, p);
        Some((
            mulm(&xx, &k2, p),
            md(&(mulm(&yy, y, p) * mulm(&k2, &self.k, p)), p),
        ))
    }
}
