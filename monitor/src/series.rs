//! Reference q-series with integer coefficients, dense.
use num_bigint::BigInt;
use num_traits::{One, Zero};

pub fn mul(a: &[BigInt], b: &[BigInt], n: usize) -> Vec<BigInt> {
    let mut r = vec![BigInt::zero(); n + 1];
    for (i, x) in a.iter().enumerate().take(n + 1) {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate().take(n + 1 - i) {
            r[i + j] += x * y;
        }
    }
    r
}
/// product of (1-q^n)^24 by Euler's pentagonal number theorem, 24 times
pub fn delta1(n: usize) -> Vec<BigInt> {
    let mut e = vec![BigInt::zero(); n + 1];
    e[0] = BigInt::one();
    let mut k = 1i64;
    loop {
        let (u, v) = (k * (3 * k - 1) / 2, k * (3 * k + 1) / 2);
        if u as usize > n {
            break;
        }
        let s = if k % 2 == 0 { 1 } else { -1 };
        e[u as usize] += s;
        if v as usize <= n {
            e[v as usize] += s;
        }
        k += 1;
    }
    let e2 = mul(&e, &e, n);
    let e3 = mul(&e2, &e, n);
    let e6 = mul(&e3, &e3, n);
    let e12 = mul(&e6, &e6, n);
    mul(&e12, &e12, n)
}
/// inverse of a series with constant term 1
pub fn inverse(a: &[BigInt], n: usize) -> Vec<BigInt> {
    let mut r = vec![BigInt::one()];
    for k in 1..=n {
        let mut s = BigInt::zero();
        for i in 1..=k {
            if i < a.len() {
                s -= &a[i] * &r[k - i];
            }
        }
        r.push(s);
    }
    r
}
pub fn e4(n: usize) -> Vec<BigInt> {
    let mut s = vec![BigInt::zero(); n + 1];
    for d in 1..=n {
        let c = BigInt::from(d as u64) * BigInt::from(d as u64) * BigInt::from(d as u64);
        let mut m = d;
        while m <= n {
            s[m] += &c;
            m += d;
        }
    }
    for c in s.iter_mut() {
        *c *= 240;
    }
    s[0] = BigInt::one();
    s
}
/// q * j up to q^n
pub fn qj(n: usize) -> Vec<BigInt> {
    let e = e4(n);
    let e3 = mul(&mul(&e, &e, n), &e, n);
    mul(&e3, &inverse(&delta1(n), n), n)
}
