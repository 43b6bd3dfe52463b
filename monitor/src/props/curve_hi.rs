use std::collections::BTreeMap;
use super::curve::{code, pt_ref, space};
use crate::ensure;
use crate::fp::{self, Small, SPt};
use crate::gen::*;
use crate::model::dense::{self, D};
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use ellipticcurve::bigint::chinese_remainder;
use ellipticcurve::division_polynomial as dp;
use ellipticcurve::elliptic_curve::EllipticCurve;
use ellipticcurve::schoof::schoof;
use ellipticcurve::schoof_elkies_atkins::sea;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

fn nonsing(r: &mut Rng, p: u64) -> Small {
    loop {
        let k = match r.below(10) {
            0 => Small { a: 0, b: r.below(p), p },
            1 => Small { a: r.below(p), b: 0, p },
            _ => Small { a: r.below(p), b: r.below(p), p },
        };
        if k.nonsingular() {
            return k;
        }
    }
}

// ---------------------------------------------------------------- C10

/// Division polynomials by the recurrence with exact division
///   psi_{n+2} psi_{n-2} = psi_{n+1} psi_{n-1} psi_2^2 - psi_3 psi_n^2,
/// stored as psi_n (n odd) or psi_n / 2y (n even); the library uses the
/// doubling recurrences instead.
pub struct Div {
    f: Vec<D>,
    /// 4 (x^3 + a x + b)
    w: D,
}
fn x_poly(c: &[(usize, BigInt)]) -> D {
    let n = c.iter().map(|t| t.0).max().unwrap_or(0);
    let mut v = vec![BigInt::zero(); n + 1];
    for (e, k) in c {
        v[*e] += k;
    }
    dense::trim(v)
}
impl Div {
    pub fn new(a: &BigInt, b: &BigInt, top: usize) -> Div {
        let w = x_poly(&[(3, bi(4)), (1, bi(4) * a), (0, bi(4) * b)]);
        let f3 = x_poly(&[(4, bi(3)), (2, bi(6) * a), (1, bi(12) * b), (0, -(a * a))]);
        let f4 = x_poly(&[(6, bi(2)), (4, bi(10) * a), (3, bi(40) * b), (2, bi(-10) * a * a), (1, bi(-8) * a * b), (0, bi(-16) * b * b - bi(2) * a * a * a)]);
        let mut f = vec![vec![], vec![BigInt::one()], vec![BigInt::one()], f3.clone(), f4];
        let w2 = dense::mul(&w, &w);
        for k in 5..=top.max(5) {
            let n = k - 2;
            let mut t = dense::mul(&f[n + 1], &f[n - 1]);
            if n % 2 == 1 {
                t = dense::mul(&w2, &t);
            }
            let s = dense::mul(&f3, &dense::mul(&f[n], &f[n]));
            let d = dense::sub(&t, &s);
            let q = dense::div_exact(&d, &f[n - 2]).expect("reference recurrence divides exactly");
            f.push(q);
        }
        Div { f, w }
    }
    fn with_y(d: &D, ypow: i64) -> RPoly {
        let mut r = RPoly::zero();
        for (i, c) in d.iter().enumerate() {
            if !c.is_zero() {
                r.put((i as i64, ypow, 0, None), c.clone());
            }
        }
        r
    }
    pub fn psi(&self, n: usize) -> RPoly {
        if n % 2 == 1 { Div::with_y(&self.f[n], 0) } else { Div::with_y(&dense::scale(&self.f[n], &bi(2)), 1) }
    }
    pub fn phi(&self, n: usize) -> RPoly {
        Div::with_y(&self.phi_dense(n), 0)
    }
    fn phi_dense(&self, n: usize) -> D {
        let x = x_poly(&[(1, bi(1))]);
        let mut s = dense::mul(&x, &dense::mul(&self.f[n], &self.f[n]));
        let mut t = dense::mul(&self.f[n + 1], &self.f[n - 1]);
        if n % 2 == 0 {
            s = dense::mul(&s, &self.w);
        } else {
            t = dense::mul(&t, &self.w);
        }
        dense::sub(&s, &t)
    }
    /// whether omega is the one polynomial with positive leading coefficient
    /// for which (phi / psi^2, omega / psi^3) satisfies the curve equation
    pub fn omega_fits(&self, n: usize, omega: &RPoly, a: &BigInt, b: &BigInt) -> Res {
        let y = (n % 2) as i64;
        let mut w: D = vec![];
        for (m, k) in &omega.0 {
            ensure!(m.0 >= 0 && m.1 == y && m.2 == 0 && m.3.is_none(), "omega_{} is not y^{} times a polynomial in x: {}", n, y, omega.text());
            if w.len() <= m.0 as usize {
                w.resize(m.0 as usize + 1, BigInt::zero());
            }
            w[m.0 as usize] = k.clone();
        }
        let w = dense::trim(w);
        ensure!(w.last().map_or(false, |k| k.is_positive()), "omega_{} has no positive leading coefficient: {}", n, omega.text());
        // over y^2 = g
        let g = x_poly(&[(3, bi(1)), (1, a.clone()), (0, b.clone())]);
        let phi = self.phi_dense(n);
        let psi2 = if n % 2 == 1 { dense::mul(&self.f[n], &self.f[n]) } else { dense::mul(&dense::mul(&self.f[n], &self.f[n]), &self.w) };
        let psi4 = dense::mul(&psi2, &psi2);
        let mut lhs = dense::mul(&w, &w);
        if n % 2 == 1 {
            lhs = dense::mul(&lhs, &g);
        }
        let phi2 = dense::mul(&phi, &phi);
        // phi^3 + a phi psi^4 + b psi^6
        let t = dense::sub(&phi2, &dense::scale(&psi4, &-a));
        let u = dense::scale(&dense::mul(&psi4, &psi2), &-b);
        let rhs = dense::sub(&dense::mul(&t, &phi), &u);
        ensure!(lhs == rhs, "omega_{} does not satisfy omega^2 = phi^3 + a phi psi^4 + b psi^6: {}", n, short(&omega.text()));
        Ok(())
    }
}

fn c10_compare(c: &mut Ctx, a: &BigInt, b: &BigInt, n: usize) -> Res {
    c.input(&(a, b, n));
    c.nontrivial = n >= 2;
    c.note(|| format!("a = {}, b = {}, n = {}", a, b, n));
    let d = Div::new(a, b, n + 1);
    let i = n as i32;
    let v = c.lib("psi", || dp::psi(a, b, i))?;
    same(&format!("psi({}, {}, {})", a, b, n), &v, &d.psi(n))?;
    if n >= 1 {
        let v = c.lib("phi", || dp::phi(a, b, i))?;
        same(&format!("phi({}, {}, {})", a, b, n), &v, &d.phi(n))?;
        let v = c.lib("omega", || dp::omega(a, b, i))?;
        d.omega_fits(n, &RPoly::from_lib(&v)?, a, b).map_err(|e| format!("a = {}, b = {}: {}", a, b, e))?;
    }
    c.feat(&format!("n = {:02}", n));
    Ok(())
}
fn c10_small(c: &mut Ctx) -> Res {
    let (a, b) = (bi((c.idx % 25 / 5) as i64 - 2), bi((c.idx % 5) as i64 - 2));
    c10_compare(c, &a, &b, (c.idx / 25) as usize)
}
fn c10_random(c: &mut Ctx) -> Res {
    let n = if c.rng.one_in(20) { c.rng.usize(13, 17) } else { c.rng.usize(2, 11) };
    let (mut a, mut b) = (int(&mut c.rng), int(&mut c.rng));
    if n > 9 && c.rng.one_in(2) {
        a = bi(c.rng.range(-999, 999));
    }
    if n > 6 {
        let m = BigInt::one() << (if n > 9 { 33 } else { 70 });
        a %= &m;
        b %= &m;
    }
    c10_compare(c, &a, &b, n)
}
/// the recursion at greater depth, small coefficients
const MERSENNE: u64 = (1 << 61) - 1;
fn mm(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % MERSENNE as u128) as u64
}
fn pm(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mm(r, b);
        }
        b = mm(b, b);
        e >>= 1;
    }
    r
}
fn res(v: &BigInt) -> u64 {
    v.mod_floor(&BigInt::from(MERSENNE)).to_str_radix(10).parse().unwrap()
}
/// the values of psi_0 .. psi_(n+2) at a random point of the curve over
/// F_(2^61-1), by the recurrence on values
fn values(r: &mut Rng, a: &BigInt, b: &BigInt, n: usize) -> (u64, u64, Vec<u64>) {
    let (ra, rb) = (res(a), res(b));
    let sub = |a: u64, b: u64| (a + MERSENNE - b) % MERSENNE;
    loop {
        let x = r.below(MERSENNE);
        let f = (mm(x, mm(x, x)) + mm(ra, x) + rb) % MERSENNE;
        let y = pm(f, (MERSENNE + 1) / 4);
        if y == 0 || mm(y, y) != f {
            continue;
        }
        let y = if r.one_in(2) { y } else { MERSENNE - y };
        let (x2, x3, a2) = (mm(x, x), mm(x, mm(x, x)), mm(ra, ra));
        let mut v = vec![0, 1, mm(2, y)];
        v.push(sub((mm(3, mm(x2, x2)) + mm(6, mm(ra, x2)) + mm(12, mm(rb, x))) % MERSENNE, a2));
        let s = (mm(x3, x3) + mm(5, mm(ra, mm(x2, x2))) + mm(20, mm(rb, x3))) % MERSENNE;
        let t = (mm(5, mm(a2, x2)) + mm(4, mm(mm(ra, rb), x)) + mm(8, mm(rb, rb)) + mm(a2, ra)) % MERSENNE;
        v.push(mm(mm(4, y), sub(s, t)));
        let half = pm(mm(2, y), MERSENNE - 2);
        for i in 5..=n + 2 {
            let m = i / 2;
            let w = if i % 2 == 1 {
                sub(mm(v[m + 2], pm(v[m], 3)), mm(v[m - 1], pm(v[m + 1], 3)))
            } else {
                mm(mm(v[m], half), sub(mm(v[m + 2], mm(v[m - 1], v[m - 1])), mm(v[m - 2], mm(v[m + 1], v[m + 1]))))
            };
            v.push(w);
        }
        return (x, y, v);
    }
}
fn value(f: &RPoly, x: u64, y: u64) -> u64 {
    let mut s = 0u64;
    for (m, k) in &f.0 {
        s = (s + mm(res(k), mm(pm(x, m.0 as u64), pm(y, m.1 as u64)))) % MERSENNE;
    }
    s
}
/// high n: psi coefficient by coefficient, all three at points over F_(2^61-1)
fn c10_high(c: &mut Ctx) -> Res {
    let n = 18 + (c.idx % 24) as usize;
    let (a, b) = (bi(c.rng.range(-5, 5)), bi(c.rng.range(-5, 5)));
    c.input(&(&a, &b, n));
    c.nontrivial = true;
    c.note(|| format!("a = {}, b = {}, n = {}", a, b, n));
    let v = c.lib("psi", || dp::psi(&a, &b, n as i32))?;
    if n < 38 {
        let d = Div::new(&a, &b, n + 1);
        same(&format!("psi({}, {}, {})", a, b, n), &v, &d.psi(n))?;
        if n <= 21 {
            let v = c.lib("omega", || dp::omega(&a, &b, n as i32))?;
            d.omega_fits(n, &RPoly::from_lib(&v)?, &a, &b).map_err(|e| format!("a = {}, b = {}: {}", a, b, e))?;
        }
    }
    let f = c.lib("phi", || dp::phi(&a, &b, n as i32))?;
    let g = c.lib("omega", || dp::omega(&a, &b, n as i32))?;
    for (what, l) in [("psi", &v), ("phi", &f), ("omega", &g)] {
        let l = RPoly::from_lib(l).map_err(|e| format!("{}({}, {}, {}) {}", what, a, b, n, e))?;
        for m in l.0.keys() {
            ensure!(m.0 >= 0 && (m.1 == 0 || m.1 == 1) && m.2 == 0 && m.3.is_none(), "{}({}, {}, {}): term {:?}", what, a, b, n, m);
        }
        for _ in 0..3 {
            let (x, y, w) = values(&mut c.rng, &a, &b, n);
            let neg = |u: u64| (MERSENNE - u) % MERSENNE;
            let want = match what {
                "psi" => w[n],
                "phi" => (mm(x, mm(w[n], w[n])) + neg(mm(w[n + 1], w[n - 1]))) % MERSENNE,
                _ => mm(pm(mm(4, y), MERSENNE - 2), (mm(w[n + 2], mm(w[n - 1], w[n - 1])) + neg(mm(w[n - 2], mm(w[n + 1], w[n + 1])))) % MERSENNE),
            };
            let got = value(&l, x, y);
            ensure!(got == want, "{}({}, {}, {}) is {} at ({}, {}) modulo 2^61-1, should be {}", what, a, b, n, got, x, y, want);
        }
    }
    c.feat(&format!("n = {:02}", n));
    Ok(())
}
fn ev(f: &RPoly, x: u64, y: u64, p: u64) -> u64 {
    let pw = |b: u64, e: i64| {
        let mut r = 1u64 % p;
        for _ in 0..e {
            r = r * b % p;
        }
        r
    };
    let mut s = 0u64;
    for (m, k) in &f.0 {
        let k: u64 = k.mod_floor(&BigInt::from(p)).to_str_radix(10).parse().unwrap();
        s = (s + k * pw(x, m.0) % p * pw(y, m.1)) % p;
    }
    s
}
/// the geometric meaning, on every point of a curve
fn c10_geometry(c: &mut Ctx) -> Res {
    let ps = [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43];
    let p = *c.rng.pick(&ps);
    let k = nonsing(&mut c.rng, p);
    let n = if c.rng.one_in(6) { c.rng.usize(9, 13) } else { c.rng.usize(1, 8) };
    // integers a, b of the same class
    let a = BigInt::from(k.a) + bi(c.rng.range(-2, 2)) * BigInt::from(p);
    let b = BigInt::from(k.b) + bi(c.rng.range(-2, 2)) * BigInt::from(p);
    c.input(&(&a, &b, p, n));
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}, n = {}", a, b, p, n));
    let i = n as i32;
    let shape = |f: &RPoly, what: &str| -> Res {
        ensure!(f.0.keys().all(|m| m.0 >= 0 && (m.1 == 0 || m.1 == 1) && m.2 == 0 && m.3.is_none()), "{} is not of y-degree at most 1: {}", what, f.text());
        Ok(())
    };
    let psi = RPoly::from_lib(&c.lib("psi", || dp::psi(&a, &b, i))?)?;
    let phi = RPoly::from_lib(&c.lib("phi", || dp::phi(&a, &b, i))?)?;
    let omg = RPoly::from_lib(&c.lib("omega", || dp::omega(&a, &b, i))?)?;
    shape(&psi, "psi")?;
    shape(&phi, "phi")?;
    shape(&omg, "omega")?;
    for pt in k.points() {
        let (x, y) = match pt {
            None => continue,
            Some(v) => v,
        };
        let want: SPt = k.mul(pt, n as i64);
        let z = ev(&psi, x, y, p);
        ensure!((z == 0) == want.is_none(), "psi_{} at ({}, {}) is {} on y^2 = x^3 + {} x + {} over F_{}, but {} times the point is {:?}", n, x, y, z, a, b, p, n, want);
        c.nontrivial = true;
        match want {
            None => c.feat("n-torsion points"),
            Some((wx, wy)) => {
                c.feat("other points");
                let zi = k.inv(z);
                let gx = ev(&phi, x, y, p) * zi % p * zi % p;
                let gy = ev(&omg, x, y, p) * zi % p * zi % p * zi % p;
                ensure!((gx, gy) == (wx, wy), "{} * ({}, {}) on y^2 = x^3 + {} x + {} over F_{} is ({}, {}), the division polynomials give ({}, {})", n, x, y, a, b, p, wx, wy, gx, gy);
            }
        }
    }
    Ok(())
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "psi_n, phi_n, omega_n with n >= 2 compared coefficient by coefficient with an independent recurrence, or evaluated at every finite point of a curve that has one and compared with the point added n times",
        scenarios: vec![
            sc("all-small", 25 * 13, 25 * 15, c10_small).exhaustive(25 * 15).steps(2_000_000_000),
            sc("high", 72, 1_600, c10_high).steps(10_000_000_000),
            sc("random", 2_500, 60_000, c10_random).steps(2_000_000_000),
            sc("geometry", 4_000, 120_000, c10_geometry).steps(2_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- modular polynomials, published

fn phi_text(l: u64) -> &'static str {
    match l {
        2 => include_str!("../../data/phi2.txt"),
        3 => include_str!("../../data/phi3.txt"),
        5 => include_str!("../../data/phi5.txt"),
        7 => include_str!("../../data/phi7.txt"),
        _ => panic!("no table"),
    }
}
/// Phi_l(x, j) modulo p, dense in x
pub fn phi_at(l: u64, j: u64, p: u64) -> D {
    let f = parse(phi_text(l).trim()).expect("table");
    let pb = BigInt::from(p);
    let jb = BigInt::from(j);
    let mut v = vec![BigInt::zero(); l as usize + 2];
    for (m, k) in &f.0 {
        v[m.0 as usize] += k.mod_floor(&pb) * npow(&jb, m.1 as u64).mod_floor(&pb);
    }
    dense::modp(&v, &pb)
}
fn horner(f: &D, x: u64, p: u64) -> u64 {
    let (x, p) = (BigInt::from(x), BigInt::from(p));
    let mut r = BigInt::zero();
    for c in f.iter().rev() {
        r = (r * &x + c).mod_floor(&p);
    }
    r.to_str_radix(10).parse().unwrap()
}

// ---------------------------------------------------------------- C23

fn c23_check(c: &mut Ctx, k: &Small, n: &BigInt, reps: bool) -> Res {
    let kb = k.big();
    let p = &kb.p;
    let pts = k.points();
    let (a, b) = if reps { (rep(&mut c.rng, &kb.a, p), rep(&mut c.rng, &kb.b, p)) } else { (kb.a.clone(), kb.b.clone()) };
    let what = format!("isogeny({}) from y^2 = x^3 + {} x + {} over F_{}", n, a, b, p);
    let ker: Vec<(u64, u64)> = pts.iter().filter(|u| n.is_multiple_of(&BigInt::from(k.order(**u)))).filter_map(|u| *u).collect();
    // Velu: one representative of every pair +-Q, and the 2-torsion
    let (mut v, mut w) = (BigInt::zero(), BigInt::zero());
    for (x, y) in &ker {
        let (x, yb) = (BigInt::from(*x), BigInt::from(*y));
        let gx = bi(3) * &x * &x + &kb.a;
        if *y == 0 {
            v += &gx;
            w += &x * &gx;
        } else if 2 * *y < k.p {
            v += bi(2) * &gx;
            w += bi(4) * &yb * &yb + bi(2) * &x * &gx;
        }
    }
    let wa = (&kb.a - bi(5) * v).mod_floor(p);
    let wb = (&kb.b - bi(7) * w).mod_floor(p);
    let e = c.lib("EllipticCurve::new", || EllipticCurve::new(&a, &b, p))?;
    let im = c.lib("isogeny", || e.isogeny(n))?;
    ensure!(im.p == *p, "{}: leads to F_{}", what, im.p);
    ensure!(im.a == wa && im.b == wb, "{}: leads to y^2 = x^3 + {} x + {}, Velu's formulas give a = {}, b = {}", what, im.a, im.b, wa, wb);
    ensure!(im.points.len() == pts.len() && c.lib("cardinality", || im.cardinality())? == pts.len(), "{}: {} points, the original has {}", what, im.points.len(), pts.len());
    let to = |t: &BigInt| t.to_str_radix(10).parse::<u64>().unwrap();
    let ks = Small { a: to(&wa), b: to(&wb), p: k.p };
    ensure!(ks.nonsingular(), "{}: the codomain is singular", what);
    let brute = ks.points();
    ensure!(brute.len() == pts.len(), "{}: the codomain has {} points, the original {}", what, brute.len(), pts.len());
    for (g, w) in im.points.iter().zip(&brute) {
        ensure!(pt_ref(&what, g, p)? == fp::spt_big(*w), "{}: the codomain lists {} for {:?}", what, g, w);
    }
    let l = ker.len() as u64 + 1;
    if l == 1 {
        ensure!(wa == kb.a && wb == kb.b, "{}: trivial kernel, but the curve changes", what);
        c.feat("trivial kernels");
    } else if [2, 3, 5, 7].contains(&l) {
        let f = phi_at(l, k.j(), k.p);
        ensure!(horner(&f, ks.j(), k.p) == 0, "{}: kernel of order {}, but the modular polynomial does not vanish at the j-invariants {} and {}", what, l, k.j(), ks.j());
        let j = c.lib("j_invariant", || im.j_invariant())?;
        ensure!(horner(&f, to(&j.mod_floor(p)), k.p) == 0, "{}: the modular polynomial does not vanish at the reported j-invariant {}", what, j);
        c.feat(&format!("kernels of order {}", l));
    } else {
        c.feat(if l as usize == pts.len() { "kernels that are the whole group" } else { "kernels of other orders" });
    }
    c.nontrivial |= l > 1;
    Ok(())
}
const C23P: [u64; 4] = [5, 7, 11, 13];
fn c23_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C23P);
    if !k.nonsingular() {
        return Ok(());
    }
    c.input(&k);
    c.note(|| format!("{:?}, all orders", k));
    let n = k.points().len() as u64;
    for d in 1..=n + 1 {
        if d <= 4 || n % d == 0 || c.rng.one_in(4) {
            c23_check(c, &k, &d.into(), false)?;
        }
    }
    Ok(())
}
fn c23_random(c: &mut Ctx) -> Res {
    let ps: Vec<u64> = fp::primes_upto(if c.rng.one_in(400) { 1_500 } else if c.rng.one_in(40) { 520 } else if c.rng.one_in(10) { 280 } else { 70 }).into_iter().filter(|p| *p >= 5).collect();
    let p = *c.rng.pick(&ps);
    let k = nonsing(&mut c.rng, p);
    let card = k.points().len() as u64;
    let n = match c.rng.below(4) {
        0 => BigInt::from(*c.rng.pick(&[1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10])),
        1 => {
            let ds: Vec<u64> = (1..=card).filter(|d| card % d == 0).collect();
            (*c.rng.pick(&ds)).into()
        }
        2 => {
            let mut ds: Vec<u64> = [2u64, 3, 5, 7].iter().cloned().filter(|d| card % d == 0).collect();
            if ds.is_empty() {
                ds.push(card);
            }
            BigInt::from(*c.rng.pick(&ds)) * BigInt::from(c.rng.range(1, 9))
        }
        _ => int(&mut c.rng).abs() + 1,
    };
    c.input(&(&k, &n));
    c.note(|| format!("{:?}, order {}", k, n));
    c23_check(c, &k, &n, true)
}
/// walks along isogenies
fn c23_walk(c: &mut Ctx) -> Res {
    let ps: Vec<u64> = fp::primes_upto(60).into_iter().filter(|p| *p >= 5).collect();
    let p = *c.rng.pick(&ps);
    let mut k = nonsing(&mut c.rng, p);
    let kb = k.big();
    c.input(&k);
    c.note(|| format!("{:?}, walk", k));
    let mut e = c.lib("EllipticCurve::new", || EllipticCurve::new(&kb.a, &kb.b, &kb.p))?;
    for _ in 0..5 {
        let n = *c.rng.pick(&[2u64, 3, 4, 5, 6]);
        c23_check(c, &k, &n.into(), false)?;
        e = c.lib("isogeny", || e.isogeny(&n.into()))?;
        let to = |t: &BigInt| t.mod_floor(&kb.p).to_str_radix(10).parse::<u64>().unwrap();
        k = Small { a: to(&e.a), b: to(&e.b), p };
    }
    Ok(())
}
pub fn c23() -> Prop {
    let n = space(&C23P);
    Prop {
        id: "C23",
        rule: "an isogeny with a non-trivial kernel compared with Velu's formulas summed over pairs of points, brute-force point counts, and the published modular polynomial when the kernel has order 2, 3, 5 or 7",
        scenarios: vec![
            sc("all-small", n, n, c23_all).exhaustive(n).steps(400_000_000),
            sc("random", 4_000, 80_000, c23_random).steps(20_000_000_000),
            sc("walk", 400, 10_000, c23_walk).steps(1_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C24

fn c24_check(c: &mut Ctx, k: &Small, l: u64) -> Res {
    let kb = k.big();
    let p = &kb.p;
    let (a, b) = (rep(&mut c.rng, &kb.a, p), rep(&mut c.rng, &kb.b, p));
    c.input(&(k, l));
    c.nontrivial = true;
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}, l = {}", a, b, k.p, l));
    let what = format!("sea, l = {}, y^2 = x^3 + {} x + {} over F_{}", l, a, b, k.p);
    let e = EllipticCurve::new_raw(&a, &b, p);
    let r = c.lib("sea", || sea(&e, l as i32))?;
    let f = phi_at(l, k.j(), k.p);
    let roots: Vec<u64> = (0..k.p).filter(|x| horner(&f, *x, k.p) == 0).collect();
    let mut g: D = vec![BigInt::one()];
    for x in &roots {
        g = dense::modp(&dense::mul(&g, &vec![-BigInt::from(*x), BigInt::one()]), p);
    }
    same(&format!("{}: gcd", what), &r.gcd, &dense::to_r(&g))?;
    ensure!(r.degree_of_gcd as i64 == roots.len() as i64, "{}: degree {} reported, {} roots exist", what, r.degree_of_gcd, roots.len());
    ensure!(r.is_elkies_prime == !roots.is_empty(), "{}: Elkies {} with {} roots", what, r.is_elkies_prime, roots.len());
    let want: Vec<BigInt> = roots.iter().take(2).map(|x| BigInt::from(*x)).collect();
    ensure!(r.isogeny_j_invariants == want, "{}: j-invariants {:?}, the roots are {:?}", what, r.isogeny_j_invariants.iter().map(|x| x.to_string()).collect::<Vec<_>>(), roots);
    c.feat(&format!("l = {}, {} roots", l, match roots.len() { 0 => "no", 1 => "1", 2 => "2", _ => "more" }));
    Ok(())
}
fn c24_prime(r: &mut Rng, top: u64) -> u64 {
    let ps: Vec<u64> = fp::primes_upto(top).into_iter().filter(|p| *p >= 5).collect();
    *r.pick(&ps)
}
fn c24_l2(c: &mut Ctx) -> Res {
    let p = if c.rng.one_in(250) { c24_prime(&mut c.rng, 12_000) } else if c.rng.one_in(8) { c24_prime(&mut c.rng, 2500) } else { c24_prime(&mut c.rng, 150) };
    let k = nonsing(&mut c.rng, p);
    c24_check(c, &k, 2)
}
fn c24_l3(c: &mut Ctx) -> Res {
    let p = if c.rng.one_in(8) { c24_prime(&mut c.rng, 2500) } else { c24_prime(&mut c.rng, 150) };
    let k = nonsing(&mut c.rng, p);
    c24_check(c, &k, 3)
}
fn c24_l5(c: &mut Ctx) -> Res {
    // the characteristic itself, its neighbours, anything
    let p = match c.idx % 8 {
        0 => 5,
        1 => *c.rng.pick(&[7u64, 11, 19, 29, 31]),
        _ => c24_prime(&mut c.rng, 400),
    };
    let k = nonsing(&mut c.rng, p);
    c24_check(c, &k, 5)
}
fn c24_l7(c: &mut Ctx) -> Res {
    // a call is dear: choose a curve with no, one, two or more roots in turn
    let mut k = nonsing(&mut c.rng, 11);
    for _ in 0..400 {
        // modulo 7 there is one root, j itself
        let p = if c.idx % 8 == 2 { 7 } else { c24_prime(&mut c.rng, 150) };
        k = nonsing(&mut c.rng, p);
        let f = phi_at(7, k.j(), k.p);
        let n = (0..k.p).filter(|x| horner(&f, *x, k.p) == 0).count();
        if match c.idx % 4 { 0 => n == 2, 1 => n > 2, 2 => n == 1, _ => n == 0 } {
            break;
        }
    }
    c24_check(c, &k, 7)
}
const C24P: [u64; 4] = [5, 7, 11, 13];
fn c24_all(c: &mut Ctx) -> Res {
    let l = if c.idx % 2 == 0 { 2 } else { 3 };
    let k = code(c.idx / 2, &C24P);
    if !k.nonsingular() {
        return Ok(());
    }
    c24_check(c, &k, l)
}
pub fn c24() -> Prop {
    let n = 2 * space(&C24P);
    let mut s = vec![
        sc("all-small", n, n, c24_all).exhaustive(n).steps(500_000_000),
        sc("l2", 4_000, 100_000, c24_l2).steps(10_000_000_000),
        sc("l3", 1_000, 20_000, c24_l3).steps(500_000_000),
        sc("l5", 56, 800, c24_l5).steps(5_000_000_000).cpu(400),
        sc("l7", 4, 48, c24_l7).steps(50_000_000_000).cpu(1500),
    ];
    s.retain(|x| x.thorough > 0);
    Prop {
        id: "C24",
        rule: "the step for a non-singular curve and l = 2, 3, 5, 7 compared with the roots in F_p of the published modular polynomial found by trying every element; every case is non-trivial",
        scenarios: s,
    }
}

// ---------------------------------------------------------------- C25

fn c25_check(c: &mut Ctx, k: &Small, far: bool) -> Res {
    let pts = k.points();
    let t = k.p as i64 + 1 - pts.len() as i64;
    let q = k.p as i64;
    let (mut a, mut b) = (bi(k.a as i64), bi(k.b as i64));
    if far {
        a += bi(c.rng.range(-2, 2) * q);
        b += bi(c.rng.range(-2, 2) * q);
    }
    c.input(k);
    c.nontrivial = true;
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}, trace {}", a, b, q, t));
    let what = format!("schoof({}, {}, {}), trace {}", a, b, q, t);
    let v = c.lib("schoof", || schoof(&a, &b, q as i32))?;
    let ls: Vec<i64> = [2i64, 3, 5].iter().cloned().filter(|l| *l < q).collect();
    ensure!(v.len() == ls.len(), "{}: {} residues, should be {}", what, v.len(), ls.len());
    let mut prod = 1i64;
    for (m, l) in v.iter().zip(&ls) {
        ensure!(m.l == bi(*l) && m.r == bi(t.mod_floor(l)), "{}: {} mod {} reported, should be {} mod {}", what, m.r, m.l, t.mod_floor(l), l);
        prod *= l;
    }
    let r = c.lib("chinese_remainder", || chinese_remainder(&v))?;
    ensure!(r.l == bi(prod) && (r.r.clone() - t).mod_floor(&bi(prod)).is_zero(), "{}: combined to {} mod {}", what, r.r, r.l);
    for l in &ls {
        // which branch of the algorithm the case is about
        if *l > 2 {
            let disc = (t * t - 4 * q).mod_floor(l);
            let scalar = disc == 0;
            c.feat(&format!("l = {}: {}{}", l, match t.mod_floor(l) { 0 => "trace 0", r if 2 * r < *l => "trace in the lower half", _ => "trace in the upper half" }, if scalar { ", repeated eigenvalue" } else { "" }));
        } else {
            c.feat(if t % 2 == 0 { "l = 2: even trace" } else { "l = 2: odd trace" });
        }
    }
    Ok(())
}
const C25P: [u64; 2] = [5, 7];
fn c25_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C25P);
    if !k.nonsingular() {
        return Ok(());
    }
    c25_check(c, &k, false)
}
fn c25_mid(c: &mut Ctx) -> Res {
    let q = *c.rng.pick(&[5u64, 7, 11, 11, 13, 13, 17]);
    let k = nonsing(&mut c.rng, q);
    c25_check(c, &k, true)
}
fn c25_high(c: &mut Ctx) -> Res {
    let q = *c.rng.pick(&[17u64, 19, 19, 23, 23, 29, 31]);
    let k = nonsing(&mut c.rng, q);
    c25_check(c, &k, false)
}
fn c25_top(c: &mut Ctx) -> Res {
    let q = *c.rng.pick(&[37u64, 41, 43]);
    let k = nonsing(&mut c.rng, q);
    c25_check(c, &k, false)
}
fn c25_tall(c: &mut Ctx) -> Res {
    let q = *c.rng.pick(&[47u64, 53, 59, 61]);
    let k = nonsing(&mut c.rng, q);
    c25_check(c, &k, false)
}
/// the w in 1..=l/2 such that the Frobenius map is w or -w on all of E[l], for
/// l = 3 or 5; 0 if it is no scalar there
fn frobenius_scalar(k: &Small, t: i64, l: i64) -> i64 {
    if (t * t - 4 * k.p as i64) % (l * l) != 0 || k.p as i64 % l == 0 {
        return 0;
    }
    let p = bi(k.p as i64);
    let (a, b) = (bi(k.a as i64), bi(k.b as i64));
    let d = |v: &[BigInt]| dense::modp(&dense::trim(v.to_vec()), &p);
    let psi = dense::modp(&dense::from_r(&Div::new(&a, &b, l as usize + 2).psi(l as usize)).unwrap(), &p);
    let mut x = d(&[bi(1)]);
    for _ in 0..k.p {
        x = dense::rem_p(&dense::mul(&x, &d(&[bi(0), bi(1)])), &psi, &p);
    }
    for w in 1..=l / 2 {
        let (phi, psi2) = match w {
            1 => (d(&[bi(0), bi(1)]), d(&[bi(1)])),
            _ => (d(&[&a * &a, bi(-8) * &b, bi(-2) * &a, bi(0), bi(1)]), d(&[bi(4) * &b, bi(4) * &a, bi(0), bi(4)])),
        };
        if dense::rem_p(&dense::sub(&dense::mul(&x, &psi2), &phi), &psi, &p).is_empty() {
            return w;
        }
    }
    0
}
/// the curves over F_q by what the algorithm can tell apart: the trace modulo
/// 2, 3, 5 and the scalar by which the Frobenius map acts on E[3] and E[5]
type Classes = BTreeMap<(i64, i64, i64, i64, i64), Vec<(u64, u64)>>;
fn classes(q: u64) -> &'static Classes {
    use std::sync::{Mutex, OnceLock};
    static KNOWN: OnceLock<Mutex<BTreeMap<u64, &'static Classes>>> = OnceLock::new();
    let mut known = KNOWN.get_or_init(Default::default).lock().unwrap();
    known.entry(q).or_insert_with(|| {
        let mut m = Classes::new();
        for a in 0..q {
            for b in 0..q {
                let k = Small { p: q, a, b };
                if k.nonsingular() {
                    let t = q as i64 + 1 - k.points().len() as i64;
                    m.entry((t.mod_floor(&2), t.mod_floor(&3), t.mod_floor(&5), frobenius_scalar(&k, t, 3), frobenius_scalar(&k, t, 5))).or_default().push((a, b));
                }
            }
        }
        Box::leak(Box::new(m))
    })
}
fn c25_class(c: &mut Ctx) -> Res {
    let q = *c.rng.pick(&[11u64, 13, 13, 17, 19, 19, 19, 23, 29, 31]);
    let m = classes(q);
    let mut keys: Vec<_> = m.keys().cloned().collect();
    if c.rng.one_in(2) {
        let rare: Vec<_> = keys.iter().cloned().filter(|k| k.3 != 0 || k.4 != 0).collect();
        if !rare.is_empty() {
            keys = rare;
        }
    }
    let key = *c.rng.pick(&keys);
    let (a, b) = *c.rng.pick(&m[&key]);
    for (l, w) in [(3, key.3), (5, key.4)] {
        if w != 0 {
            c.feat(&format!("the Frobenius map is {} or -{} on E[{}]", w, w, l));
        }
    }
    c25_check(c, &Small { p: q, a, b }, c.idx % 3 == 0)
}
/// all of F_11 .. F_19 in thorough runs
const C25Q: [u64; 4] = [11, 13, 17, 19];
fn c25_more(c: &mut Ctx) -> Res {
    // a permutation, so that a prefix is spread over the fields
    let n = space(&C25Q);
    let k = code(c.idx * 641 % n, &C25Q);
    if !k.nonsingular() {
        return Ok(());
    }
    c25_check(c, &k, false)
}
pub fn c25() -> Prop {
    let n = space(&C25P);
    let m = space(&C25Q);
    Prop {
        id: "C25",
        rule: "Schoof's residues for a non-singular curve compared with the trace from brute-force point counting; every case is non-trivial",
        scenarios: vec![
            sc("all-5-7", n, n, c25_all).exhaustive(n).steps(5_000_000_000).cpu(200),
            sc("to-17", 300, 6_000, c25_mid).steps(5_000_000_000).cpu(200),
            sc("classes", 96, 1_600, c25_class).steps(10_000_000_000).cpu(400),
            sc("to-31", 32, 1_500, c25_high).steps(10_000_000_000).cpu(400),
            sc("all-11-19", 120, m, c25_more).exhaustive(m).steps(5_000_000_000).cpu(200),
            sc("to-43", 8, 160, c25_top).steps(20_000_000_000).cpu(800),
            sc("to-61", 2, 40, c25_tall).steps(60_000_000_000).cpu(1500),
        ],
    }
}
