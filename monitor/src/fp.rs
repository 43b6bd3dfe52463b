//! Reference arithmetic over prime fields and on elliptic curves, written
//! without the crate under test.
use crate::rng::Rng;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

/// inverse by the extended Euclidean algorithm; a not divisible by p
pub fn inv(a: &BigInt, p: &BigInt) -> BigInt {
    let (mut r0, mut r1) = (p.clone(), a.mod_floor(p));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let (q, r) = r0.div_rem(&r1);
        let t = &t0 - &q * &t1;
        r0 = r1;
        r1 = r;
        t0 = t1;
        t1 = t;
    }
    t0.mod_floor(p)
}

pub fn powm(b: &BigInt, e: &BigInt, p: &BigInt) -> BigInt {
    let mut r = BigInt::one().mod_floor(p);
    let b = b.mod_floor(p);
    let bits = e.to_str_radix(2);
    for c in bits.bytes() {
        r = (&r * &r).mod_floor(p);
        if c == b'1' {
            r = (&r * &b).mod_floor(p);
        }
    }
    r
}

pub fn hex(s: &str) -> BigInt {
    BigInt::parse_bytes(s.as_bytes(), 16).unwrap()
}

/// Miller-Rabin with fixed bases (deterministic below 3.3e24)
pub fn is_prime(n: &BigInt) -> bool {
    let small = [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
    for s in small.iter() {
        let s = BigInt::from(*s);
        if n == &s {
            return true;
        }
        if n < &s || n.is_multiple_of(&s) {
            return false;
        }
    }
    let n1: BigInt = n - 1;
    let mut d = n1.clone();
    let mut k = 0;
    while d.is_even() {
        d /= 2;
        k += 1;
    }
    'base: for s in small.iter() {
        let mut x = powm(&BigInt::from(*s), &d, n);
        if x.is_one() || x == n1 {
            continue;
        }
        for _ in 1..k {
            x = (&x * &x).mod_floor(n);
            if x == n1 {
                continue 'base;
            }
        }
        return false;
    }
    true
}

pub fn is_prime_u(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}

pub fn primes_upto(n: u64) -> Vec<u64> {
    (2..=n).filter(|k| is_prime_u(*k)).collect()
}

pub fn known_primes() -> Vec<BigInt> {
    let m = |e: usize, k: i64| (BigInt::one() << e) - k;
    vec![
        m(31, 1), m(61, 1), m(89, 1), m(107, 1), m(127, 1), m(521, 1), m(255, 19), m(256, (1 << 32) + 977),
        hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
        m(64, 59), m(63, 25), m(32, 5), BigInt::from(1_000_000_007u64), BigInt::from(65537), m(192, (1i64 << 32) + 4553),
    ]
}

/// a random prime with the given number of bits
pub fn rand_prime(r: &mut Rng, bits: usize) -> BigInt {
    loop {
        let mut n = crate::gen::bits(r, bits - 1) + (BigInt::one() << (bits - 1));
        if n.is_even() {
            n += 1;
        }
        for _ in 0..400 {
            if is_prime(&n) {
                return n;
            }
            n += 2;
        }
    }
}
/// a prime of any flavour: tiny, machine sized, huge; at least lo
pub fn any_prime(r: &mut Rng, lo: u64) -> BigInt {
    loop {
        let p = match r.below(6) {
            0 | 1 => BigInt::from(*r.pick(&[2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37])),
            2 => {
                let v = primes_upto(600);
                BigInt::from(*r.pick(&v))
            }
            3 => r.pick(&known_primes()).clone(),
            4 => {
                let b = r.usize(3, 66);
                rand_prime(r, b)
            }
            _ => {
                let b = r.usize(60, 140);
                rand_prime(r, b)
            }
        };
        if p >= BigInt::from(lo) {
            return p;
        }
    }
}

/// Affine points over F_p with coordinates in 0..p-1, None is O.
pub type Pt = Option<(BigInt, BigInt)>;

#[derive(Clone, Debug, Hash)]
pub struct Curve {
    pub a: BigInt,
    pub b: BigInt,
    pub p: BigInt,
}

impl Curve {
    pub fn new(a: &BigInt, b: &BigInt, p: &BigInt) -> Curve {
        Curve { a: a.mod_floor(p), b: b.mod_floor(p), p: p.clone() }
    }
    pub fn disc(&self) -> BigInt {
        (BigInt::from(4) * &self.a * &self.a * &self.a + BigInt::from(27) * &self.b * &self.b).mod_floor(&self.p)
    }
    pub fn nonsingular(&self) -> bool {
        !self.disc().is_zero() && self.p != BigInt::from(2)
    }
    pub fn rhs(&self, x: &BigInt) -> BigInt {
        ((x * x + &self.a) * x + &self.b).mod_floor(&self.p)
    }
    pub fn on(&self, x: &BigInt, y: &BigInt) -> bool {
        (y * y - self.rhs(x)).mod_floor(&self.p).is_zero()
    }
    pub fn neg(&self, a: &Pt) -> Pt {
        a.as_ref().map(|(x, y)| (x.clone(), (-y).mod_floor(&self.p)))
    }
    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let ((x1, y1), (x2, y2)) = match (a, b) {
            (None, _) => return b.clone(),
            (_, None) => return a.clone(),
            (Some(u), Some(v)) => (u, v),
        };
        let p = &self.p;
        let lam = if x1 == x2 {
            if (y1 + y2).mod_floor(p).is_zero() {
                return None;
            }
            (BigInt::from(3) * x1 * x1 + &self.a) * inv(&(BigInt::from(2) * y1), p)
        } else {
            (y2 - y1) * inv(&(x2 - x1), p)
        };
        let x3 = (&lam * &lam - x1 - x2).mod_floor(p);
        let y3 = (lam * (x1 - &x3) - y1).mod_floor(p);
        Some((x3, y3))
    }
    /// left-to-right double and add
    pub fn mul(&self, a: &Pt, n: &BigInt) -> Pt {
        let a = if n.is_negative() { self.neg(a) } else { a.clone() };
        let mut r: Pt = None;
        for c in n.abs().to_str_radix(2).bytes() {
            r = self.add(&r, &r);
            if c == b'1' {
                r = self.add(&r, &a);
            }
        }
        r
    }
    pub fn j(&self) -> BigInt {
        let a3 = BigInt::from(4) * &self.a * &self.a * &self.a;
        (BigInt::from(1728) * a3 * inv(&self.disc(), &self.p)).mod_floor(&self.p)
    }
    /// a square root modulo p by Tonelli-Shanks
    pub fn sqrt(&self, n: &BigInt) -> Option<BigInt> {
        let p = &self.p;
        let n = n.mod_floor(p);
        if n.is_zero() {
            return Some(n);
        }
        let p1: BigInt = p - 1;
        let half = &p1 / 2;
        if !powm(&n, &half, p).is_one() {
            return None;
        }
        let mut q = p1.clone();
        let mut s = 0;
        while q.is_even() {
            q /= 2;
            s += 1;
        }
        let mut z = BigInt::from(2);
        while powm(&z, &half, p) != p1 {
            z += 1;
        }
        let mut m = s;
        let mut c = powm(&z, &q, p);
        let mut t = powm(&n, &q, p);
        let mut r = powm(&n, &((&q + 1) / 2), p);
        while !t.is_one() {
            let mut i = 0;
            let mut u = t.clone();
            while !u.is_one() {
                u = (&u * &u).mod_floor(p);
                i += 1;
            }
            let mut b = c.clone();
            for _ in 0..(m - i - 1) {
                b = (&b * &b).mod_floor(p);
            }
            m = i;
            c = (&b * &b).mod_floor(p);
            t = (&t * &c).mod_floor(p);
            r = (&r * &b).mod_floor(p);
        }
        Some(r)
    }
}

/// Small curves, everything by brute force in u64.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Small {
    pub a: u64,
    pub b: u64,
    pub p: u64,
}
pub type SPt = Option<(u64, u64)>;

impl Small {
    pub fn new(a: i64, b: i64, p: u64) -> Small {
        Small { a: a.rem_euclid(p as i64) as u64, b: b.rem_euclid(p as i64) as u64, p }
    }
    pub fn nonsingular(&self) -> bool {
        let p = self.p;
        let d = (4 * self.a % p * self.a % p * self.a + 27 * self.b % p * self.b) % p;
        d != 0 && p != 2
    }
    pub fn rhs(&self, x: u64) -> u64 {
        ((x * x % self.p + self.a) * x + self.b) % self.p
    }
    /// all points, ascending, O last
    pub fn points(&self) -> Vec<SPt> {
        let p = self.p;
        let mut roots: Vec<Vec<u64>> = vec![vec![]; p as usize];
        for y in 0..p {
            roots[(y * y % p) as usize].push(y);
        }
        let mut v = vec![];
        for x in 0..p {
            for y in &roots[self.rhs(x) as usize] {
                v.push(Some((x, *y)));
            }
        }
        v.push(None);
        v
    }
    pub fn inv(&self, a: u64) -> u64 {
        let (mut r, mut b, mut e) = (1u64, a % self.p, self.p - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % self.p;
            }
            b = b * b % self.p;
            e >>= 1;
        }
        r
    }
    pub fn neg(&self, a: SPt) -> SPt {
        a.map(|(x, y)| (x, (self.p - y) % self.p))
    }
    pub fn add(&self, a: SPt, b: SPt) -> SPt {
        let p = self.p;
        let ((x1, y1), (x2, y2)) = match (a, b) {
            (None, _) => return b,
            (_, None) => return a,
            (Some(u), Some(v)) => (u, v),
        };
        let lam = if x1 == x2 {
            if (y1 + y2) % p == 0 {
                return None;
            }
            (3 * x1 % p * x1 + self.a) % p * self.inv(2 * y1) % p
        } else {
            (y2 + p - y1) % p * self.inv(x2 + p - x1) % p
        };
        let x3 = (lam * lam + 2 * p - x1 - x2) % p;
        let y3 = (lam * (x1 + p - x3) + p - y1) % p;
        Some((x3, y3))
    }
    /// plain repeated addition for small |n|, via the order otherwise
    pub fn mul(&self, a: SPt, n: i64) -> SPt {
        let base = if n < 0 { self.neg(a) } else { a };
        let mut r: SPt = None;
        for _ in 0..n.unsigned_abs() {
            r = self.add(r, base);
        }
        r
    }
    pub fn order(&self, a: SPt) -> u64 {
        let mut r = a;
        let mut n = 1;
        while r.is_some() {
            r = self.add(r, a);
            n += 1;
        }
        n
    }
    pub fn j(&self) -> u64 {
        let p = self.p;
        let a3 = 4 * self.a % p * self.a % p * self.a % p;
        let d = (a3 + 27 * self.b % p * self.b) % p;
        1728 % p * a3 % p * self.inv(d) % p
    }
    pub fn big(&self) -> Curve {
        Curve { a: self.a.into(), b: self.b.into(), p: self.p.into() }
    }
}
pub fn spt_big(p: SPt) -> Pt {
    p.map(|(x, y)| (x.into(), y.into()))
}
