//! Reference model of polynomials: a canonical map from exponent tuples to
//! non-zero coefficients, with textbook arithmetic, written without using any
//! code of the crate under test.
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use ellipticcurve::term::{Monomial, Term};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::collections::BTreeMap;

pub type Var = Option<(i32, i32)>;
/// x power, y power, q power, variable; the derived order is the library's
pub type Mono = (i64, i64, i64, Var);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct RPoly(pub BTreeMap<Mono, BigInt>);

pub fn bi(n: i64) -> BigInt {
    BigInt::from(n)
}

pub fn var_lib(v: Var) -> SubscriptedVariable {
    match v {
        None => SubscriptedVariable { i: 0, j: 0, empty: true },
        Some((i, j)) => SubscriptedVariable { i, j, empty: false },
    }
}
pub fn var_ref(v: &SubscriptedVariable) -> Var {
    if v.empty { None } else { Some((v.i, v.j)) }
}
pub fn mono_lib(m: &Mono) -> Monomial {
    Monomial { xpow: m.0 as i32, ypow: m.1 as i32, qpow: m.2 as i32, variable: var_lib(m.3) }
}
pub fn mono_ref(m: &Monomial) -> Mono {
    (m.xpow as i64, m.ypow as i64, m.qpow as i64, var_ref(&m.variable))
}
pub fn term_lib(m: &Mono, c: &BigInt) -> Term {
    Term { coef: c.clone(), monomial: mono_lib(m) }
}

impl RPoly {
    pub fn zero() -> RPoly {
        RPoly(BTreeMap::new())
    }
    pub fn term(m: Mono, c: BigInt) -> RPoly {
        let mut r = RPoly::zero();
        r.put(m, c);
        r
    }
    pub fn constant(c: BigInt) -> RPoly {
        RPoly::term((0, 0, 0, None), c)
    }
    pub fn one() -> RPoly {
        RPoly::constant(One::one())
    }
    /// adds c * m
    pub fn put(&mut self, m: Mono, c: BigInt) {
        let e = self.0.entry(m).or_insert_with(Zero::zero);
        *e += c;
        if e.is_zero() {
            self.0.remove(&m);
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn add(&self, o: &RPoly) -> RPoly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.put(*m, c.clone());
        }
        r
    }
    pub fn neg(&self) -> RPoly {
        RPoly(self.0.iter().map(|(m, c)| (*m, -c)).collect())
    }
    pub fn sub(&self, o: &RPoly) -> RPoly {
        self.add(&o.neg())
    }
    /// at most one operand may hold variables
    pub fn mul(&self, o: &RPoly) -> RPoly {
        let mut acc: BTreeMap<Mono, BigInt> = BTreeMap::new();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let k = (m.0 + n.0, m.1 + n.1, m.2 + n.2, m.3.or(n.3));
                *acc.entry(k).or_insert_with(Zero::zero) += c * d;
            }
        }
        acc.retain(|_, c| !c.is_zero());
        RPoly(acc)
    }
    pub fn scale(&self, c: &BigInt) -> RPoly {
        let mut r = RPoly(self.0.iter().map(|(m, d)| (*m, d * c)).collect());
        r.0.retain(|_, c| !c.is_zero());
        r
    }
    /// n-fold product, left to right
    pub fn pow(&self, n: u64) -> RPoly {
        let mut r = RPoly::one();
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn powmod(&self, n: u64, m: &BigInt) -> RPoly {
        // right-to-left bits, reduced after each product
        let mut r = RPoly::one().modulo(m);
        let mut b = self.modulo(m);
        let mut e = n;
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b).modulo(m);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b).modulo(m);
            }
        }
        r
    }
    pub fn modulo(&self, m: &BigInt) -> RPoly {
        let mut r = RPoly(self.0.iter().map(|(k, c)| (*k, c.mod_floor(m))).collect());
        r.0.retain(|_, c| !c.is_zero());
        r
    }
    /// exponents subtracted, coefficients floor-divided
    pub fn div_term(&self, m: &Mono, c: &BigInt) -> RPoly {
        let mut r = RPoly::zero();
        for (k, d) in &self.0 {
            r.put((k.0 - m.0, k.1 - m.1, k.2 - m.2, k.3), d.div_floor(c));
        }
        r
    }
    pub fn map_mono<F: Fn(&Mono) -> Mono>(&self, f: F) -> RPoly {
        let mut r = RPoly::zero();
        for (m, c) in &self.0 {
            r.put(f(m), c.clone());
        }
        r
    }
    pub fn filter<F: Fn(&Mono) -> bool>(&self, f: F) -> RPoly {
        RPoly(self.0.iter().filter(|(m, _)| f(m)).map(|(m, c)| (*m, c.clone())).collect())
    }
    pub fn has_var(&self) -> bool {
        self.0.keys().any(|m| m.3.is_some())
    }
    pub fn has_x(&self) -> bool {
        self.0.keys().any(|m| m.0 != 0)
    }
    pub fn has_y(&self) -> bool {
        self.0.keys().any(|m| m.1 != 0)
    }
    pub fn has_q(&self) -> bool {
        self.0.keys().any(|m| m.2 != 0)
    }
    pub fn to_lib(&self) -> Polynomial {
        let mut p = Polynomial { terms: BTreeMap::new() };
        for (m, c) in &self.0 {
            p.terms.insert(mono_lib(m), c.clone());
        }
        p
    }
    /// Err if the library polynomial is not in canonical form
    pub fn from_lib(p: &Polynomial) -> Result<RPoly, String> {
        let mut r = RPoly::zero();
        for (m, c) in &p.terms {
            let k = mono_ref(m);
            if c.is_zero() {
                return Err(format!("holds the term {:?} with coefficient zero", k));
            }
            if r.0.insert(k, c.clone()).is_some() {
                return Err(format!("holds the monomial {:?} twice", k));
            }
        }
        Ok(r)
    }
    /// substitution of a polynomial for x (pick = 0) or y (pick = 1)
    pub fn subst(&self, pick: usize, by: &RPoly) -> RPoly {
        let mut r = RPoly::zero();
        if by.0.len() == 1 {
            // c x^i y^j q^k to the power e
            let (u, k) = by.0.iter().next().unwrap();
            for (m, c) in &self.0 {
                let e = if pick == 0 { m.0 } else { m.1 };
                let rest: Mono = if pick == 0 { (0, m.1, m.2, m.3) } else { (m.0, 0, m.2, m.3) };
                assert!(u.3.is_none() || e == 0 || (e == 1 && m.3.is_none()), "two variables in one term");
                let v = if e == 0 { m.3 } else { m.3.or(u.3) };
                r.put((rest.0 + u.0 * e, rest.1 + u.1 * e, rest.2 + u.2 * e, v), c * npow(k, e as u64));
            }
            return r;
        }
        if by.0.is_empty() {
            return self.filter(|m| (if pick == 0 { m.0 } else { m.1 }) == 0);
        }
        let mut pw: Vec<RPoly> = vec![RPoly::one()];
        for (m, c) in &self.0 {
            let e = if pick == 0 { m.0 } else { m.1 } as usize;
            while pw.len() <= e {
                let n = pw[pw.len() - 1].mul(by);
                pw.push(n);
            }
            let rest = if pick == 0 { (0, m.1, m.2, m.3) } else { (m.0, 0, m.2, m.3) };
            r = r.add(&pw[e].mul(&RPoly::term(rest, c.clone())));
        }
        r
    }
    /// y^2 -> x^3 + a x + b until the y-degree is at most 1
    pub fn curve_reduce(&self, a: &BigInt, b: &BigInt, m: Option<&BigInt>) -> RPoly {
        let f = RPoly(
            vec![((3, 0, 0, None), BigInt::one()), ((1, 0, 0, None), a.clone()), ((0, 0, 0, None), b.clone())]
                .into_iter()
                .filter(|x| !x.1.is_zero())
                .collect(),
        );
        // Horner in y^2: collect by y power, from the top
        let mut by: BTreeMap<i64, RPoly> = BTreeMap::new();
        for (k, c) in &self.0 {
            by.entry(k.1).or_insert_with(RPoly::zero).put((k.0, 0, k.2, k.3), c.clone());
        }
        let top = by.keys().next_back().cloned().unwrap_or(0);
        let mut acc = [RPoly::zero(), RPoly::zero()];
        let mut h = top / 2;
        loop {
            for par in 0..2usize {
                let mut v = acc[par].mul(&f);
                if let Some(t) = by.get(&(2 * h + par as i64)) {
                    v = v.add(t);
                }
                if let Some(m) = m {
                    v = v.modulo(m);
                }
                acc[par] = v;
            }
            if h == 0 {
                break;
            }
            h -= 1;
        }
        let mut r = acc[0].clone();
        for (k, c) in &acc[1].0 {
            r.put((k.0, 1, k.2, k.3), c.clone());
        }
        if let Some(m) = m {
            r = r.modulo(m);
        }
        r
    }
    pub fn eval(&self, x: &BigInt, y: &BigInt) -> BigInt {
        let mut s = BigInt::zero();
        for (m, c) in &self.0 {
            s += c * npow(x, m.0 as u64) * npow(y, m.1 as u64);
        }
        s
    }
    pub fn deriv(&self, pick: usize) -> RPoly {
        let mut r = RPoly::zero();
        for (m, c) in &self.0 {
            if pick == 0 && m.0 != 0 {
                r.put((m.0 - 1, m.1, m.2, m.3), c * bi(m.0));
            }
            if pick == 1 && m.1 != 0 {
                r.put((m.0, m.1 - 1, m.2, m.3), c * bi(m.1));
            }
        }
        r
    }
    /// the documented text form, rendered independently
    pub fn text(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (i, (m, c)) in self.0.iter().rev().enumerate() {
            if c.is_negative() {
                s.push_str(if i == 0 { "- " } else { " - " });
            } else if i > 0 {
                s.push_str(" + ");
            }
            s.push_str(&abs_text(m, c));
        }
        s
    }
}

fn abs_text(m: &Mono, c: &BigInt) -> String {
    let mut parts: Vec<String> = vec![];
    for (n, e) in [("x", m.0), ("y", m.1), ("q", m.2)].iter() {
        if *e == 1 {
            parts.push(n.to_string());
        } else if *e != 0 {
            parts.push(format!("{}^{}", n, e));
        }
    }
    if let Some((i, j)) = m.3 {
        parts.push(format!("c_{}_{}", i, j));
    }
    let a = c.abs();
    if !a.is_one() || parts.is_empty() {
        parts.insert(0, a.to_string());
    }
    parts.join(" ")
}

pub fn term_text(m: &Mono, c: &BigInt) -> String {
    if c.is_negative() { format!("- {}", abs_text(m, c)) } else { abs_text(m, c) }
}

/// reads the text form back
pub fn parse(s: &str) -> Result<RPoly, String> {
    let mut r = RPoly::zero();
    if s == "0" {
        return Ok(r);
    }
    let mut sign = 1i64;
    let mut cur: Option<(Mono, BigInt)> = None;
    for (i, w) in s.split(' ').enumerate() {
        if w == "+" || w == "-" {
            if i == 0 && w == "+" {
                return Err("leading +".into());
            }
            if i > 0 {
                match cur.take() {
                    Some((m, c)) => {
                        if r.0.insert(m, c * bi(sign)).is_some() {
                            return Err(format!("monomial {:?} printed twice", m));
                        }
                    }
                    None => return Err("sign after sign".into()),
                }
            }
            sign = if w == "-" { -1 } else { 1 };
            continue;
        }
        if w.is_empty() {
            return Err("double space".into());
        }
        let c = w.as_bytes()[0];
        let fresh = cur.is_none();
        let (m, k) = cur.get_or_insert(((0, 0, 0, None), BigInt::one()));
        if c.is_ascii_digit() {
            if !fresh {
                return Err(format!("number {} inside a term", w));
            }
            *k = BigInt::parse_bytes(w.as_bytes(), 10).ok_or(format!("bad number {}", w))?;
        } else if c == b'c' {
            let v: Vec<&str> = w.split('_').collect();
            if v.len() != 3 || m.3.is_some() {
                return Err(format!("bad variable {}", w));
            }
            m.3 = Some((v[1].parse().map_err(|_| format!("bad {}", w))?, v[2].parse().map_err(|_| format!("bad {}", w))?));
        } else {
            let e: i64 = match w.len() {
                1 => 1,
                _ if w.as_bytes()[1] == b'^' => w[2..].parse().map_err(|_| format!("bad {}", w))?,
                _ => return Err(format!("bad {}", w)),
            };
            let slot = match c {
                b'x' => &mut m.0,
                b'y' => &mut m.1,
                b'q' => &mut m.2,
                _ => return Err(format!("bad {}", w)),
            };
            if *slot != 0 {
                return Err(format!("{} repeated", w));
            }
            *slot = e;
        }
    }
    match cur {
        Some((m, c)) => {
            if r.0.insert(m, c * bi(sign)).is_some() {
                return Err(format!("monomial {:?} printed twice", m));
            }
        }
        None => return Err("ends with a sign".into()),
    }
    Ok(r)
}

pub fn npow(b: &BigInt, n: u64) -> BigInt {
    let mut r = BigInt::one();
    // left-to-right binary
    for i in (0..64).rev() {
        r = &r * &r;
        if (n >> i) & 1 == 1 {
            r *= b;
        }
    }
    r
}

/// the library's value is exactly the expected polynomial, in canonical form
pub fn same(what: &str, got: &Polynomial, want: &RPoly) -> Result<(), String> {
    let g = RPoly::from_lib(got).map_err(|e| format!("{}: the result {}; expected {}", what, e, crate::rt::short(&want.text())))?;
    if &g != want {
        return Err(format!("{}: got {}, expected {}", what, crate::rt::short(&g.text()), crate::rt::short(&want.text())));
    }
    if got.terms.is_empty() != want.is_zero() || *got != want.to_lib() {
        return Err(format!("{}: the library does not find the result equal to {}", what, crate::rt::short(&want.text())));
    }
    Ok(())
}

pub fn same_term(what: &str, got: &Term, m: &Mono, c: &BigInt) -> Result<(), String> {
    if &got.coef != c || mono_ref(&got.monomial) != *m {
        return Err(format!("{}: got {} {:?}, expected {} {:?}", what, got.coef, mono_ref(&got.monomial), c, m));
    }
    Ok(())
}

/// dense univariate integer polynomials, lowest power first, no leading zero
pub mod dense {
    use super::*;
    pub type D = Vec<BigInt>;
    pub fn trim(mut v: D) -> D {
        while v.last().map_or(false, |c| c.is_zero()) {
            v.pop();
        }
        v
    }
    pub fn add(a: &D, b: &D) -> D {
        let n = a.len().max(b.len());
        trim((0..n).map(|i| a.get(i).cloned().unwrap_or_default() + b.get(i).cloned().unwrap_or_default()).collect())
    }
    pub fn neg(a: &D) -> D {
        a.iter().map(|c| -c).collect()
    }
    pub fn sub(a: &D, b: &D) -> D {
        add(a, &neg(b))
    }
    pub fn mul(a: &D, b: &D) -> D {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![BigInt::zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            if x.is_zero() {
                continue;
            }
            for (j, y) in b.iter().enumerate() {
                r[i + j] += x * y;
            }
        }
        trim(r)
    }
    pub fn scale(a: &D, k: &BigInt) -> D {
        trim(a.iter().map(|c| c * k).collect())
    }
    /// exact division over Z
    pub fn div_exact(a: &D, b: &D) -> Option<D> {
        let mut r = a.clone();
        if r.is_empty() {
            return Some(vec![]);
        }
        if r.len() < b.len() {
            return None;
        }
        let mut q = vec![BigInt::zero(); r.len() - b.len() + 1];
        let lb = b.last()?;
        for i in (0..q.len()).rev() {
            let (c, rem) = r[i + b.len() - 1].div_rem(lb);
            if !rem.is_zero() {
                return None;
            }
            for j in 0..b.len() {
                let t = &c * &b[j];
                r[i + j] -= t;
            }
            q[i] = c;
        }
        if r.iter().any(|c| !c.is_zero()) {
            return None;
        }
        Some(trim(q))
    }
    pub fn modp(a: &D, p: &BigInt) -> D {
        trim(a.iter().map(|c| c.mod_floor(p)).collect())
    }
    /// remainder over F_p, b non-zero mod p
    pub fn rem_p(a: &D, b: &D, p: &BigInt) -> D {
        let b = modp(b, p);
        let mut r = modp(a, p);
        let inv = crate::fp::inv(b.last().unwrap(), p);
        while r.len() >= b.len() {
            let k = r.len() - b.len();
            let c = (r.last().unwrap() * &inv).mod_floor(p);
            for j in 0..b.len() {
                let t = (&r[k + j] - &c * &b[j]).mod_floor(p);
                r[k + j] = t;
            }
            r = trim(r);
        }
        r
    }
    pub fn monic_p(a: &D, p: &BigInt) -> D {
        let a = modp(a, p);
        match a.last() {
            None => a,
            Some(l) => {
                let i = crate::fp::inv(l, p);
                modp(&scale(&a, &i), p)
            }
        }
    }
    pub fn gcd_p(a: &D, b: &D, p: &BigInt) -> D {
        let (mut a, mut b) = (modp(a, p), modp(b, p));
        while !b.is_empty() {
            let r = rem_p(&a, &b, p);
            a = b;
            b = r;
        }
        monic_p(&a, p)
    }
    pub fn to_r(a: &D) -> RPoly {
        let mut r = RPoly::zero();
        for (i, c) in a.iter().enumerate() {
            r.put((i as i64, 0, 0, None), c.clone());
        }
        r
    }
    pub fn from_r(a: &RPoly) -> Option<D> {
        let mut v: D = vec![];
        for (m, c) in &a.0 {
            if m.0 < 0 || m.1 != 0 || m.2 != 0 || m.3.is_some() {
                return None;
            }
            while v.len() <= m.0 as usize {
                v.push(BigInt::zero());
            }
            v[m.0 as usize] = c.clone();
        }
        Some(v)
    }
}
