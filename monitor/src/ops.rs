//! The workload of C30: operations over shared operands, each a function from
//! the shared operands to the text of its result.  Used by the monitor (child
//! processes running different histories) and by the sanitizer crate.
//!
//! Arguments are chosen so that operations share parts of them (the same index
//! with different curves, the same order of different series, the same point
//! coordinates over different fields, ...): a result remembered under too
//! narrow a key shows as a difference between histories.
use crate::rng::Rng;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::{delta, division_polynomial, divisor, eisenstein, j_invariant, modular_polynomial, schoof, schoof_elkies_atkins, simultaneous_equation};
use num_bigint::BigInt;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Shared {
    pub ints: Vec<BigInt>,
    pub x: Vec<Polynomial>,
    pub xy: Vec<Polynomial>,
    pub q: Vec<Polynomial>,
    pub vars: Vec<Polynomial>,
    pub terms: Vec<Term>,
    pub curves: Vec<EllipticCurve>,
    pub points: Vec<(usize, ECPoint)>,
    pub system: Vec<Vec<Vec<BigInt>>>,
    pub residues: Vec<Vec<ModResult>>,
    pub builder: TermBuilder,
}

fn var(i: i32, j: i32) -> SubscriptedVariable {
    SubscriptedVariable { i, j, empty: false }
}
fn none() -> SubscriptedVariable {
    SubscriptedVariable { i: 0, j: 0, empty: true }
}
fn poly(r: &mut Rng, n: usize, kind: u64) -> Polynomial {
    let mut terms = BTreeMap::new();
    for _ in 0..n {
        let m = match kind {
            0 => Monomial { xpow: r.range(0, 5) as i32, ypow: 0, qpow: 0, variable: none() },
            1 => Monomial { xpow: r.range(0, 4) as i32, ypow: r.range(0, 5) as i32, qpow: 0, variable: none() },
            2 => Monomial { xpow: 0, ypow: 0, qpow: r.range(0, 5) as i32, variable: none() },
            _ => Monomial { xpow: 0, ypow: 0, qpow: r.range(-2, 3) as i32, variable: if r.one_in(3) { none() } else { var(r.range(0, 2) as i32, r.range(0, 2) as i32) } },
        };
        let mut c = r.range(-9, 9);
        if c == 0 {
            c = 11;
        }
        let c = if r.one_in(4) { (BigInt::from(c) << 70) + 1 } else { BigInt::from(c) };
        terms.insert(m, c);
    }
    Polynomial { terms }
}

impl Shared {
    pub fn new(seed: u64, mini: bool) -> Shared {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let n = if mini { 2 } else { 4 };
        let t = if mini { 3 } else { 5 };
        let ints = (0..n + 2).map(|_| {
            let v = r.range(-40, 40);
            if r.one_in(3) { BigInt::from(v) << 80 } else { BigInt::from(v) }
        }).collect();
        let x = (0..n).map(|_| poly(r, t, 0)).collect();
        let xy = (0..n).map(|_| poly(r, t, 1)).collect();
        let q = (0..n).map(|_| poly(r, t, 2)).collect();
        let vars: Vec<Polynomial> = (0..n).map(|_| poly(r, t + 1, 3)).collect();
        let mut terms = vec![];
        for _ in 0..n {
            terms.push(TermBuilder::new().coef(r.range(1, 9) as i32).xpow(r.range(0, 3) as i32).ypow(r.range(0, 3) as i32).qpow(r.range(-2, 3) as i32).build());
        }
        let mut curves = vec![];
        let mut points = vec![];
        let ps: &[i64] = if mini { &[5, 7] } else { &[5, 7, 11, 13, 23, 29] };
        while curves.len() < n {
            let p = *r.pick(ps);
            let (a, b) = (r.range(0, p - 1), r.range(0, p - 1));
            if (4 * a * a * a + 27 * b * b) % p == 0 {
                continue;
            }
            curves.push(EllipticCurve::new(&a.into(), &b.into(), &p.into()));
        }
        for (i, e) in curves.iter().enumerate() {
            for _ in 0..3 {
                points.push((i, r.pick(&e.points).clone()));
            }
        }
        let mut system = vec![];
        while system.len() < n {
            let k: i64 = r.range(1, 9);
            let (x, y) = (r.range(-9, 9), r.range(-9, 9));
            // unimodular up to k
            let row = |a: i64, b: i64| vec![BigInt::from(a), BigInt::from(b), BigInt::from(a * x + b * y)];
            system.push(vec![row(0, k), row(1, r.range(-5, 5)), row(2, 3)]);
        }
        let residues = (0..n).map(|_| vec![3i64, 5, 7, 11].into_iter().map(|l| ModResult { l: l.into(), r: r.range(0, l - 1).into() }).collect()).collect();
        let mut builder = TermBuilder::new();
        builder.coef(r.range(2, 9) as i32).xpow(r.range(0, 4) as i32).qpow(3);
        Shared { ints, x, xy, q, vars, terms, curves, points, system, residues, builder }
    }
    pub fn digest(&self) -> String {
        format!("{:?}", self)
    }
}

pub struct Op {
    pub name: String,
    pub f: Box<dyn Fn(&Shared) -> String + Send + Sync>,
}

/// arguments that many a summary of the argument (a discriminant, an absolute
/// value, a machine word, a residue, a degree, a sum) does not tell apart
const KIN: usize = 8;
fn kin_int(v: &BigInt, k: usize) -> BigInt {
    match k {
        0 => v.clone(),
        1 => -v,
        2 => v + 1,
        3 => v + (BigInt::from(1) << 32),
        4 => v + (BigInt::from(1) << 64),
        5 => v + 35,
        6 => -v - 1,
        _ => v * 16,
    }
}
fn kin_poly(p: &Polynomial, k: usize) -> Polynomial {
    let mut r = p.clone();
    let last = r.terms.len().saturating_sub(1);
    let own = |c: &mut BigInt, d: BigInt| {
        *c += d;
        if *c == BigInt::from(0) {
            *c += 1;
        }
    };
    match k {
        1 => r.terms.values_mut().for_each(|c| *c = -&*c),
        2 => r.terms.values_mut().take(1).for_each(|c| own(c, 35.into())),
        3 => r.terms.values_mut().skip(last).for_each(|c| own(c, 35.into())),
        4 => {
            let cs: Vec<BigInt> = p.terms.values().rev().cloned().collect();
            r.terms.values_mut().zip(cs).for_each(|(c, d)| *c = d);
        }
        5 => r.terms = p.terms.iter().map(|(m, c)| (Monomial { xpow: m.ypow, ypow: m.xpow, qpow: m.qpow, variable: m.variable }, c.clone())).collect(),
        6 => r.terms = p.terms.iter().enumerate().filter(|(i, _)| *i != 1 || p.terms.len() < 3).map(|(_, (m, c))| (m.clone(), c.clone())).collect(),
        7 => r.terms.values_mut().for_each(|c| own(c, BigInt::from(1) << 64)),
        _ => {}
    }
    r
}
/// the curve (a, b, p) and its twists, its isomorphic copies, the same
/// coefficients over another field, unreduced or negated ones
fn kin_curve(e: &EllipticCurve, k: usize) -> Option<EllipticCurve> {
    let (a, b, p) = (&e.a, &e.b, &e.p);
    let q: BigInt = if *p == BigInt::from(13) { 17.into() } else { 13.into() };
    let (a, b, p) = match k {
        0 => (a.clone(), b.clone(), p.clone()),
        1 => (a.clone(), (p - b) % p, p.clone()),
        2 => (a * 16 % p, b * 64 % p, p.clone()),
        3 => (a * 4 % p, b * 8 % p, p.clone()),
        4 => (b.clone(), a.clone(), p.clone()),
        5 => (a.clone(), b.clone(), q),
        6 => ((p - a) % p, b.clone(), p.clone()),
        _ => (a + 1, b.clone(), p.clone()),
    };
    let d: BigInt = (&a * &a * &a * 4 + &b * &b * 27) % &p;
    if d == BigInt::from(0) || a == p {
        return None;
    }
    Some(EllipticCurve::new(&a, &b, &p))
}

/// the same call on arguments that differ in one place
fn kin_ops(s: &Shared, put: &mut dyn FnMut(String, Box<dyn Fn(&Shared) -> String + Send + Sync>)) {
    for i in 0..2 {
        for k in 0..KIN {
            // one coefficient of the curve at a time, and both
            for w in 0..3 {
                let ab = move |s: &Shared| {
                    let e = &s.curves[i];
                    (if w != 1 { kin_int(&e.a, k) } else { e.a.clone() }, if w != 0 { kin_int(&e.b, k) } else { e.b.clone() })
                };
                for n in [3i32, 4, 5, 6, 7] {
                    put(format!("psi {} kin {}.{} of curve {}", n, k, w, i), Box::new(move |s| { let (a, b) = ab(s); division_polynomial::psi(&a, &b, n).to_string() }));
                }
                for n in [2i32, 3] {
                    put(format!("phi, omega {} kin {}.{} of curve {}", n, k, w, i), Box::new(move |s| { let (a, b) = ab(s); format!("{} {}", division_polynomial::phi(&a, &b, n), division_polynomial::omega(&a, &b, n)) }));
                }
                put(format!("reduction kin {}.{} of curve {}", k, w, i), Box::new(move |s| { let (a, b) = ab(s); s.xy[i].reduction(&a, &b).to_string() }));
                put(format!("reduction mod 7 kin {}.{} of curve {}", k, w, i), Box::new(move |s| { let (a, b) = ab(s); s.xy[i].reduction_modular(&a, &b, 7).to_string() }));
            }
            // one operand at a time
            for w in 0..2 {
                let pq = move |u: &Polynomial, v: &Polynomial| if w == 0 { (kin_poly(u, k), v.clone()) } else { (u.clone(), kin_poly(v, k)) };
                put(format!("product kin {}.{} of {}", k, w, i), Box::new(move |s| { let (u, v) = pq(&s.xy[i], &s.vars[i]); (&u * &v).to_string() }));
                put(format!("sum kin {}.{} of {}", k, w, i), Box::new(move |s| { let (u, v) = pq(&s.xy[i], &s.x[i]); format!("{} {}", &u + &v, &u - &v) }));
                put(format!("substitution kin {}.{} of {}", k, w, i), Box::new(move |s| { let (u, v) = pq(&s.xy[i], &s.x[i]); format!("{} {}", u.eval_x_polynomial(&v), u.eval_y_polynomial(&v)) }));
                put(format!("value kin {}.{} of {}", k, w, i), Box::new(move |s| {
                    let (x, y) = if w == 0 { (kin_int(&s.ints[i], k), s.ints[i + 1].clone()) } else { (s.ints[i].clone(), kin_int(&s.ints[i + 1], k)) };
                    s.xy[i].eval_xy(&x, &y).to_string()
                }));
                put(format!("Bezout kin {}.{} of {}", k, w, i), Box::new(move |s| {
                    let (x, y) = if w == 0 { (kin_int(&s.ints[i], k), s.ints[i + 1].clone()) } else { (s.ints[i].clone(), kin_int(&s.ints[i + 1], k)) };
                    format!("{:?}", extended_gcd(x, y))
                }));
                if k != 5 {
                    for p in [5i32, 13] {
                        put(format!("gcd kin {}.{} of {} mod {}", k, w, i, p), Box::new(move |s| { let (u, v) = pq(&s.x[i], &s.x[i + 1]); format!("{} {}", u.gcd(&v, &p.into()), u.is_gcd_one(&v, &p.into())) }));
                    }
                }
            }
            for e in [2i32, 3, 4] {
                put(format!("power {} kin {} of {}", e, k, i), Box::new(move |s| kin_poly(&s.xy[i], k).power(e).to_string()));
                put(format!("truncated power {} kin {} of {}", e, k, i), Box::new(move |s| kin_poly(&s.q[i], k).power_omit_high_order_q(e, 4).to_string()));
                put(format!("int power {} kin {} of {}", e, k, i), Box::new(move |s| kin_int(&s.ints[i], k).power(e).to_string()));
            }
            for p in [5i32, 7, 13] {
                put(format!("power mod {} kin {} of {}", p, k, i), Box::new(move |s| {
                    let u = kin_poly(&s.x[i], k);
                    format!("{} {}", u.power_modulo(&BigInt::from(5), &BigInt::from(p)), u.power_modulo(&BigInt::from(6), &BigInt::from(p)))
                }));
                put(format!("residue power mod {} kin {} of {}", p, k, i), Box::new(move |s| {
                    let u = kin_int(&s.ints[i], k);
                    format!("{} {}", u.power_modulo(&BigInt::from(77), &BigInt::from(p)), u.power_modulo(&BigInt::from(78), &BigInt::from(p)))
                }));
                put(format!("inverse mod {} kin {} of {}", p, k, i), Box::new(move |s| kin_int(&s.ints[i], k).inverse(&BigInt::from(p)).to_string()));
                put(format!("residues mod {} kin {} of {}", p, k, i), Box::new(move |s| (&kin_poly(&s.xy[i], k) % &BigInt::from(p)).to_string()));
            }
            put(format!("derivatives kin {} of {}", k, i), Box::new(move |s| { let u = kin_poly(&s.xy[i], k); format!("{} {}", u.derivative_x(), u.derivative_y()) }));
            put(format!("Frobenius kin {} of {}", k, i), Box::new(move |s| { let u = kin_poly(&s.xy[i], k); format!("{} {} {}", u.to_frob(3), u.to_y_power(2), u.to_q_power(2)) }));
            put(format!("residue system kin {} of {}", k, i), Box::new(move |s| {
                let mut r = s.residues[i].clone();
                let m = &r[k % 4].l * 1;
                r[k % 4].r = (&r[k % 4].r + 1 + (k / 4)) % m;
                let r = chinese_remainder(&r);
                format!("{} {}", r.r.clone() % &r.l, r.l)
            }));
            put(format!("linear system kin {} of {}", k, i), Box::new(move |s| {
                let mut m = s.system[i].clone();
                // the right-hand side scaled: the solution scales
                for row in m.iter_mut() {
                    row[2] = &row[2] * BigInt::from(k as i32 - 3);
                }
                format!("{:?}", simultaneous_equation::solve(&m))
            }));
            // curves
            if kin_curve(&s.curves[i], k).is_none() {
                continue;
            }
            let cv = move |s: &Shared| kin_curve(&s.curves[i], k).expect("a curve");
            put(format!("curve kin {} of {}", k, i), Box::new(move |s| { let e = cv(s); format!("{} {} {:?} {:?}", e, e.j_invariant(), e.points(), e.points) }));
            put(format!("orders kin {} of {}", k, i), Box::new(move |s| { let e = cv(s); e.points.iter().take(8).map(|p| format!("{} ", e.point_order(p))).collect() }));
            put(format!("multiples kin {} of {}", k, i), Box::new(move |s| {
                let e = cv(s);
                let p = &e.points[e.points.len() - 1];
                [2i32, 3, 5, 12, -3].iter().map(|n| format!("{} ", e.multiply_scalar(p, &BigInt::from(*n)))).collect()
            }));
            put(format!("sums kin {} of {}", k, i), Box::new(move |s| {
                let e = cv(s);
                e.points.iter().take(5).flat_map(|p| e.points.iter().rev().take(4).map(|q| format!("{} ", e.plus(p, q))).collect::<Vec<_>>()).collect()
            }));
            for n in [2i32, 3, 4] {
                put(format!("division points kin {} of {} for {}", k, i, n), Box::new(move |s| cv(s).division_points(&BigInt::from(n)).to_string()));
                put(format!("isogeny kin {} of {} for {}", k, i, n), Box::new(move |s| cv(s).isogeny(&BigInt::from(n)).to_string()));
            }
            put(format!("sea 2 kin {} of {}", k, i), Box::new(move |s| {
                let r = schoof_elkies_atkins::sea(&cv(s), 2);
                format!("{} {} {} {:?}", r.gcd, r.degree_of_gcd, r.is_elkies_prime, r.isogeny_j_invariants)
            }));
        }
    }
}

/// arguments that agree when their digits are written one after the other, or
/// when they are added up
fn digit_ops(put: &mut dyn FnMut(String, Box<dyn Fn(&Shared) -> String + Send + Sync>)) {
    for (a, b, p) in [(1i32, 12i32, 13i32), (11, 2, 13), (2, 11, 13), (12, 1, 13), (1, 11, 17), (11, 1, 17), (1, 13, 29), (11, 3, 29), (3, 4, 23), (3, 42, 3)] {
        let e = move || EllipticCurve::new(&a.into(), &b.into(), &p.into());
        if p > 3 {
            put(format!("curve {} {} {}", a, b, p), Box::new(move |_| format!("{} {:?}", e(), e().points)));
            put(format!("point of curve {} {} {}", a, b, p), Box::new(move |_| {
                let e = e();
                let q = &e.points[0];
                format!("{} {} {}", e.point_order(q), e.multiply_scalar(q, &BigInt::from(7)), e.plus(q, q))
            }));
            put(format!("division points of curve {} {} {}", a, b, p), Box::new(move |_| format!("{} {}", e().division_points(&BigInt::from(2)), e().isogeny(&BigInt::from(3)))));
        }
        put(format!("psi 5, 6 of {} {}", a, b), Box::new(move |_| format!("{} {}", division_polynomial::psi(&a.into(), &b.into(), 5), division_polynomial::psi(&a.into(), &b.into(), 6))));
        put(format!("{} ^ {} mod {}", a, b, p), Box::new(move |_| BigInt::from(a).power_modulo(&b.into(), &p.into()).to_string()));
        put(format!("{} {} inverse mod {}", a, b, p), Box::new(move |_| format!("{} {}", BigInt::from(a).inverse(&p.into()), BigInt::from(b).inverse(&p.into()))));
        put(format!("Bezout of {} and {}", a, b), Box::new(move |_| format!("{:?}", extended_gcd(a.into(), b.into()))));
        put(format!("sigma {} {}", a, b), Box::new(move |_| format!("{} {}", divisor::sigma_divisor(a, b), divisor::sigma_divisor(b, a))));
        put(format!("y^8 by {} {} mod {}", a, b, p), Box::new(move |_| TermBuilder::new().ypow(8).build().to_pol().reduction_modular(&a.into(), &b.into(), p).to_string()));
        let t = move || TermBuilder::new().coef(a).xpow(b).build() + TermBuilder::new().coef(p).ypow(1).build();
        let u = move || TermBuilder::new().coef(a * 10).xpow(1).build() + TermBuilder::new().coef(1).variable_ij(a, b).build();
        put(format!("print {} {} {}", a, b, p), Box::new(move |_| format!("{} {}", t(), u())));
        put(format!("product {} {} {}", a, b, p), Box::new(move |_| format!("{} {}", &t() * &u(), t().eval_xy(&a.into(), &b.into()))));
    }
}

/// arguments that agree when one is packed above the other in one word, or
/// when they are cut to fewer bits
fn packed_ops(put: &mut dyn FnMut(String, Box<dyn Fn(&Shared) -> String + Send + Sync>)) {
    let sh = |v: BigInt| {
        let t = v.to_string();
        if t.len() > 90 { format!("{}..{} {}", &t[..40], &t[t.len() - 40..], t.len()) } else { t }
    };
    let big = |w: u32| -> BigInt { if w == 0 { BigInt::from(0) } else { BigInt::from(1) << w as usize } };
    for (n, k) in [(3, 2), (2, 1), (12, 0)] {
        put(format!("sigma_{}({})", k, n), Box::new(move |_| divisor::sigma_divisor(n, k).to_string()));
    }
    for b in [8i32, 10, 16, 20, 31, 32, 64, 100, 101, 128, 256, 512, 1000, 1024, 4096, 10000, 65536, 1 << 20] {
        // n b + k and k b + n
        for (n, k) in [(1, 1 + b), (2, 2 + b), (1, 2 + 2 * b), (11, b), (1, 11 * b), (3 + b, 2), (2 + b, 1)] {
            if k < 5000 || n == 1 && k < 1 << 28 {
                put(format!("sigma_{}({})", k, n), Box::new(move |_| sh(divisor::sigma_divisor(n, k))));
            }
        }
        if b <= 1024 {
            put(format!("powers of numbers, {}", b), Box::new(move |_| format!("{} {} {}", sh(BigInt::from(2).power(1 + b)), sh(BigInt::from(3).power(1)), sh(BigInt::from(2 + b).power(1)))));
            put(format!("modular powers of numbers, {}", b), Box::new(move |_| {
                let f = |x: i32, n: i32, p: i32| BigInt::from(x).power_modulo(&n.into(), &p.into());
                format!("{} {} {} {}", f(2, 3, 5 + b), f(2, 3 + b, 5), f(2 + b, 3, 5), f(3, 3, 5))
            }));
            put(format!("Bezout of numbers, {}", b), Box::new(move |_| format!("{:?} {:?} {:?}", extended_gcd(8.into(), (11 + b).into()), extended_gcd((8 + b).into(), 11.into()), extended_gcd(7.into(), 11.into()))));
            put(format!("terms, {}", b), Box::new(move |_| {
                let f = |x: i32, y: i32, q: i32| TermBuilder::new().xpow(x).ypow(y).qpow(q).build().to_pol();
                let g = f(1, 1, 1) + f(1, 1 + b, 0) + f(0, 1 + b, 1) + f(1 - b, 0, 1);
                format!("{} {} {}", g, &g * &g, g.to_frob(2))
            }));
            put(format!("reductions, {}", b), Box::new(move |_| {
                let f = |y: i32| TermBuilder::new().ypow(y).build().to_pol();
                let r = |a: i32, c: i32, p: i32| f(5).reduction_modular(&a.into(), &c.into(), p);
                format!("{} {} {} {}", r(1, 2 + b, 11), r(2, 2, 11), r(1 + b, 2, 11), r(1, 2, 13))
            }));
        }
    }
    for w in [0u32, 8, 16, 31, 32, 53, 63, 64, 65, 128, 256] {
        let x = move |v: i32| BigInt::from(v) + big(w);
        put(format!("powers beyond {} bits", w), Box::new(move |_| format!("{} {}", x(3).power(3), x(-3).power(2))));
        put(format!("modular powers beyond {} bits", w), Box::new(move |_| format!("{} {} {}", x(3).power_modulo(&5.into(), &101.into()), BigInt::from(3).power_modulo(&x(5), &101.into()), BigInt::from(3).power_modulo(&5.into(), &x(101)))));
        put(format!("inverses beyond {} bits", w), Box::new(move |_| format!("{} {}", x(3).inverse(&101.into()), (x(3) * BigInt::from(101) + BigInt::from(5)).inverse(&101.into()))));
        put(format!("Bezout beyond {} bits", w), Box::new(move |_| format!("{:?} {:?}", extended_gcd(x(8), 11.into()), extended_gcd(8.into(), x(11)))));
        put(format!("psi 5 beyond {} bits", w), Box::new(move |_| format!("{} {}", division_polynomial::psi(&x(2), &3.into(), 5), division_polynomial::psi(&2.into(), &x(3), 5))));
        put(format!("membership beyond {} bits", w), Box::new(move |_| {
            let e = EllipticCurve::new_raw(&x(2), &3.into(), &23.into());
            (0..23).map(|y| e.is_on_curve(&ECPoint::new(&x(4), &y.into(), &1.into())).to_string() + " ").collect()
        }));
        put(format!("values beyond {} bits", w), Box::new(move |_| {
            let f = TermBuilder::new().coef(&x(3)).xpow(3).build() + TermBuilder::new().ypow(2).build();
            format!("{} {} {} {}", f.eval_xy(&x(1), &2.into()), f.eval_x(&x(1)), f.eval_y(&x(1)), &f % &BigInt::from(97))
        }));
        put(format!("solution beyond {} bits", w), Box::new(move |_| format!("{:?}", simultaneous_equation::solve(&vec![vec![1.into(), 2.into(), x(5)], vec![0.into(), 1.into(), x(2)]]))));
        put(format!("remainder beyond {} bits", w), Box::new(move |_| format!("{:?}", chinese_remainder(&vec![ModResult { l: 3.into(), r: x(1) }, ModResult { l: 5.into(), r: x(2) }]))));
    }
}

/// one curve after the other over larger fields: the same curve with other
/// representatives of its coefficients, its neighbours
fn near_ops(put: &mut dyn FnMut(String, Box<dyn Fn(&Shared) -> String + Send + Sync>)) {
    for (a, b, p) in [(1i64, 2i64, 31i64), (3, 5, 37), (2, 7, 53)] {
        for (k, (u, v)) in [(a, b), (a + p, b), (a, b - p), (a - 3 * p, b + 2 * p), (p - a, b), (a, b)].iter().enumerate() {
            let (u, v) = (*u, *v);
            let e = move || EllipticCurve::new(&u.into(), &v.into(), &p.into());
            put(format!("curve {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| { let e = e(); format!("{} {} {} {} {}", e, e.a, e.b, e.j_invariant(), e.points.len()) }));
            put(format!("points of {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| {
                let e = e();
                format!("{:?} {:?} {}", e.points, e.points(), e.is_on_curve(&ECPoint::new(&1.into(), &2.into(), &1.into())))
            }));
            put(format!("order and multiple on {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| {
                let e = e();
                format!("{} {}", e.point_order(&e.points[1]), e.multiply_scalar(&e.points[0], &BigInt::from(29)))
            }));
            put(format!("division points on {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| format!("{} {}", e().division_points(&2.into()), e().isogeny(&3.into()))));
            put(format!("sea 2 on {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| {
                let r = schoof_elkies_atkins::sea(&e(), 2);
                format!("{} {} {} {:?}", r.gcd, r.degree_of_gcd, r.is_elkies_prime, r.isogeny_j_invariants)
            }));
            put(format!("psi 7, omega 4 of {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| format!("{} {}", division_polynomial::psi(&u.into(), &v.into(), 7), division_polynomial::omega(&u.into(), &v.into(), 4))));
            put(format!("y^9 by {} {} modulo {} ({})", u, v, p, k), Box::new(move |_| {
                let f = TermBuilder::new().ypow(9).build() + TermBuilder::new().ypow(4).xpow(1).build();
                format!("{} {}", f.reduction(&u.into(), &v.into()), f.reduction_modular(&u.into(), &v.into(), p as i32))
            }));
        }
    }
}

/// calls that are refused, next to calls of the same kind that are not
fn refused_ops(out: &mut dyn FnMut(String, Box<dyn Fn(&Shared) -> String + Send + Sync>)) {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    // a refusal is an outcome like any other
    let mut put = |name: String, f: Box<dyn Fn(&Shared) -> String + Send + Sync>| {
        out(format!("guard: {}", name), Box::new(move |s| catch_unwind(AssertUnwindSafe(|| f(s))).unwrap_or_else(|_| "refused".to_string())))
    };
    for k in [2i32, 3, 4, 5, 6, 7, 9, 1, 0, 25] {
        put(format!("curve over the integers modulo {}", k), Box::new(move |_| EllipticCurve::new(&1.into(), &1.into(), &k.into()).points.len().to_string()));
        put(format!("count of the numbering of level {}", k), Box::new(move |_| SubscriptedVariableConverter::new(k).count().to_string()));
        put(format!("ansatz of level {}", k), Box::new(move |_| modular_polynomial::subscripted_variable_modular_polynomial(k).terms.len().to_string()));
    }
    for k in 0..6i32 {
        let t = move |x: i32, y: i32, q: i32| TermBuilder::new().coef(k + 1).xpow(x).ypow(y).qpow(q).build().to_pol();
        // y or q only now and then
        let f = move || t(3, if k == 1 { 1 } else { 0 }, if k == 2 { 1 } else { 0 }) + t(1, 0, 0);
        put(format!("remainder by {}", k), Box::new(move |_| (&t(5, 0, 0) + &t(2, 1, 0)).polynomial_modular(&f(), &if k == 4 { 5 } else { 7 }.into()).to_string()));
        put(format!("degree of {}", k), Box::new(move |_| f().degree_x().to_string()));
        put(format!("scalar of {}", k), Box::new(move |_| t(k % 2, 0, 0).to_scalar().to_string()));
        put(format!("quotient by {}", k), Box::new(move |_| (&t(4, 1, 0) / &(t(1, 0, 0) - if k % 2 == 0 { t(1, 0, 0) } else { t(2, 0, 0) - t(2, 0, 0) })).to_string()));
        put(format!("q-coefficient of {}", k), Box::new(move |_| (t(if k == 3 { 1 } else { 0 }, 0, 2) + t(0, 0, 1)).to_q_power_coef(2).to_string()));
        put(format!("negative power {}", k), Box::new(move |_| t(1, 0, 0).power(k - 2).to_string()));
    }
    let e = || EllipticCurve::new_raw(&1.into(), &1.into(), &5.into());
    for y in 0..6i32 {
        put(format!("point next to others {}", y), Box::new(move |_| {
            let p = ECPoint::new(&0.into(), &y.into(), &1.into());
            format!("{} {}", e().plus(&p, &ECPoint::infinity()), e().multiply_scalar(&p, &3.into()))
        }));
    }
}

/// a and b of the curves as division polynomial arguments
pub fn ops(s: &Shared, mini: bool) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut put = |name: String, f: Box<dyn Fn(&Shared) -> String + Send + Sync>| v.push(Op { name, f });
    let n = s.x.len();
    let primes: &[i64] = if mini { &[5, 7] } else { &[2, 3, 5, 7, 13] };
    for i in 0..n {
        let j = (i + 1) % n;
        put(format!("x{} + x{}", i, j), Box::new(move |s| (&s.x[i] + &s.x[j]).to_string()));
        put(format!("xy{} - xy{}", i, j), Box::new(move |s| (&s.xy[i] - &s.xy[j]).to_string()));
        put(format!("xy{} * x{}", i, j), Box::new(move |s| (&s.xy[i] * &s.x[j]).to_string()));
        put(format!("x{} * term{}", i, j), Box::new(move |s| (&s.x[i] * &s.terms[j]).to_string()));
        put(format!("-vars{}", i), Box::new(move |s| (-&s.vars[i]).to_string()));
        put(format!("vars{} += x{}", i, j), Box::new(move |s| { let mut a = s.vars[i].clone(); a += &s.x[j]; a -= &s.q[i]; a.to_string() }));
        put(format!("xy{} / term{}", i, j), Box::new(move |s| (&s.xy[i] / &s.terms[j]).to_string()));
        put(format!("term{} / term{}", i, j), Box::new(move |s| (&s.terms[i] / &s.terms[j]).to_string()));
        put(format!("term{} * term{}", i, j), Box::new(move |s| (&s.terms[i] * &s.terms[j]).to_string()));
        put(format!("print vars{}", i), Box::new(move |s| s.vars[i].to_string()));
        for e in [2i32, 3] {
            put(format!("xy{} ^ {}", i, e), Box::new(move |s| s.xy[i].power(e).to_string()));
            put(format!("term{} ^ {}", i, e), Box::new(move |s| s.terms[i].power(e).to_string()));
            put(format!("q{} ^ {} to q^4", i, e), Box::new(move |s| s.q[i].power_omit_high_order_q(e, 4).to_string()));
            put(format!("int{} ^ {}", i, e), Box::new(move |s| s.ints[i].power(e).to_string()));
            put(format!("xy{} Frobenius {}", i, e), Box::new(move |s| s.xy[i].to_frob(e).to_string()));
            put(format!("xy{} y-power {}", i, e), Box::new(move |s| s.xy[i].to_y_power(e).to_string()));
            put(format!("q{} q-power {}", i, e), Box::new(move |s| s.q[i].to_q_power(e).to_string()));
            put(format!("vars{} coefficient of q^{}", i, e), Box::new(move |s| s.vars[i].to_q_power_coef(e - 2).to_string()));
            put(format!("vars{} truncated at {}", i, e), Box::new(move |s| { let mut a = s.vars[i].clone(); a.omit_high_order_q(e - 2); a.to_string() }));
        }
        for p in primes.iter().cloned() {
            put(format!("xy{} mod {}", i, p), Box::new(move |s| (&s.xy[i] % &BigInt::from(p)).to_string()));
            put(format!("xy{} mod {} in place", i, p), Box::new(move |s| { let mut a = s.xy[i].clone(); a.modular_assign(&BigInt::from(p)); a.to_string() }));
            put(format!("x{} ^ 5 mod {}", i, p), Box::new(move |s| s.x[i].power_modulo(&BigInt::from(5), &BigInt::from(p)).to_string()));
            put(format!("int{} ^ 77 mod {}", i, p), Box::new(move |s| s.ints[i].power_modulo(&BigInt::from(77), &BigInt::from(p)).to_string()));
            put(format!("1 / int{} mod {}", i, p), Box::new(move |s| s.ints[i].inverse(&BigInt::from(p)).to_string()));
            put(format!("gcd(x{}, x{}) mod {}", i, j, p), Box::new(move |s| format!("{} {}", s.x[i].gcd(&s.x[j], &BigInt::from(p)), s.x[i].is_gcd_one(&s.x[j], &BigInt::from(p)))));
            put(format!("monic x{} mod {}", i, p), Box::new(move |s| s.x[i].to_monic(&BigInt::from(p)).to_string()));
            put(format!("xy{} rem (x^2 + {} x + 1) mod {}", i, i, p), Box::new(move |s| {
                let d = TermBuilder::new().xpow(2).build() + TermBuilder::new().coef(i as i32).xpow(1).build() + TermBuilder::new().build();
                s.xy[i].polynomial_modular(&d, &BigInt::from(p)).to_string()
            }));
        }
        put(format!("xy{} reduced by curve {}", i, j), Box::new(move |s| s.xy[i].reduction(&s.curves[j].a, &s.curves[j].b).to_string()));
        put(format!("xy{} reduced by curve {}", i, i), Box::new(move |s| s.xy[i].reduction(&s.curves[i].a, &s.curves[i].b).to_string()));
        for p in [5i32, 7] {
            put(format!("xy{} reduced by curve {} mod {}", i, j, p), Box::new(move |s| s.xy[i].reduction_modular(&s.curves[j].a, &s.curves[j].b, p).to_string()));
        }
        put(format!("xy{} at int{}, int{}", i, i, j), Box::new(move |s| s.xy[i].eval_xy(&s.ints[i], &s.ints[j]).to_string()));
        put(format!("xy{} at x = int{}", i, j), Box::new(move |s| s.xy[i].eval_x(&s.ints[j]).to_string()));
        put(format!("xy{} at y = int{}", i, j), Box::new(move |s| s.xy[i].eval_y(&s.ints[j]).to_string()));
        put(format!("xy{} at x = x{}", i, j), Box::new(move |s| s.xy[i].eval_x_polynomial(&s.x[j]).to_string()));
        put(format!("xy{} at y = x{}", i, j), Box::new(move |s| s.xy[i].eval_y_polynomial(&s.x[j]).to_string()));
        put(format!("xy{} derivatives", i), Box::new(move |s| format!("{} {}", s.xy[i].derivative_x(), s.xy[i].derivative_y())));
        put(format!("x{} shape", i), Box::new(move |s| format!("{} {} {} {} {}", s.x[i].degree_x(), s.x[i].highest_term_x(), s.x[i].has_x(), s.x[i].has_y(), s.x[i].has_q())));
        put(format!("build {}", i), Box::new(move |s| {
            let mut b = s.builder.clone();
            b.ypow(i as i32);
            format!("{} {}", b.build(), s.builder.build())
        }));
        put(format!("system {}", i), Box::new(move |s| format!("{:?}", simultaneous_equation::solve(&s.system[i]))));
        put(format!("residues {}", i), Box::new(move |s| { let r = chinese_remainder(&s.residues[i]); format!("{} {}", r.r.clone() % &r.l, r.l) }));
        put(format!("Bezout {} {}", i, j), Box::new(move |s| format!("{:?}", extended_gcd(s.ints[i].clone(), s.ints[j].clone()))));
        // curves
        put(format!("curve {}", i), Box::new(move |s| format!("{} {} {:?}", s.curves[i], s.curves[i].j_invariant(), s.curves[i].points())));
        put(format!("curve {} again", i), Box::new(move |s| { let e = &s.curves[i]; format!("{:?}", EllipticCurve::new(&e.a, &e.b, &e.p).points) }));
        for k in if mini { vec![2i32, 3] } else { vec![2i32, 3, 4, 5, 6] } {
            put(format!("division points of curve {} for {}", i, k), Box::new(move |s| s.curves[i].division_points(&BigInt::from(k)).to_string()));
            put(format!("isogeny of curve {} for {}", i, k), Box::new(move |s| { let e = s.curves[i].isogeny(&BigInt::from(k)); format!("{} {:?}", e, e.points) }));
            put(format!("psi {} of curve {}", k, i), Box::new(move |s| division_polynomial::psi(&s.curves[i].a, &s.curves[i].b, k).to_string()));
            if k <= 4 {
                put(format!("phi {} of curve {}", k, i), Box::new(move |s| division_polynomial::phi(&s.curves[i].a, &s.curves[i].b, k).to_string()));
                put(format!("omega {} of curve {}", k, i), Box::new(move |s| division_polynomial::omega(&s.curves[i].a, &s.curves[i].b, k).to_string()));
            }
        }
    }
    let m = s.points.len();
    for i in 0..m {
        let (ci, _) = s.points[i];
        put(format!("order of point {}", i), Box::new(move |s| s.curves[ci].point_order(&s.points[i].1).to_string()));
        put(format!("negative of point {}", i), Box::new(move |s| format!("{} {} {}", s.curves[ci].negate(&s.points[i].1), s.curves[ci].canonicalize(&s.points[i].1), s.curves[ci].is_on_curve(&s.points[i].1))));
        for e in if mini { vec![-3i32, 2, 5] } else { vec![-3i32, 2, 3, 5, 7, 12, 101] } {
            put(format!("{} * point {}", e, i), Box::new(move |s| s.curves[ci].multiply_scalar(&s.points[i].1, &BigInt::from(e)).to_string()));
        }
        for j in 0..m {
            if s.points[j].0 == ci {
                put(format!("point {} + point {}", i, j), Box::new(move |s| s.curves[ci].plus(&s.points[i].1, &s.points[j].1).to_string()));
            }
        }
        // the same coordinates seen from every curve
        for cj in 0..s.curves.len() {
            put(format!("point {} on curve {}", i, cj), Box::new(move |s| s.curves[cj].is_on_curve(&s.points[i].1).to_string()));
        }
    }
    for o in if mini { vec![1i32, 2] } else { vec![1i32, 2, 3, 4, 5, 6, 8] } {
        put(format!("delta1 {}", o), Box::new(move |_| delta::delta1(o).to_string()));
        put(format!("1/delta1 {}", o), Box::new(move |_| delta::delta1_inverse(o).to_string()));
        put(format!("E4 {}", o), Box::new(move |_| eisenstein::eisenstein4(o).to_string()));
        put(format!("j1 {}", o), Box::new(move |_| j_invariant::j_invariant1(o).to_string()));
        put(format!("j {}", o), Box::new(move |_| j_invariant::j_invariant(o).to_string()));
    }
    for k in 1..if mini { 6 } else { 25 } {
        for e in [0i32, 1, 3] {
            put(format!("sigma_{}({})", e, k), Box::new(move |_| divisor::sigma_divisor(k, e).to_string()));
        }
    }
    for p in if mini { vec![2i32] } else { vec![2i32, 3, 5, 7] } {
        put(format!("numbering {}", p), Box::new(move |_| {
            let c = SubscriptedVariableConverter::new(p);
            (0..c.count()).map(|i| { let v = c.variable_from_index(i); format!("{} {:?} ", v, c.index_from_variable(v)) }).collect()
        }));
        put(format!("ansatz {}", p), Box::new(move |_| modular_polynomial::subscripted_variable_modular_polynomial(p).to_string()));
    }
    if !mini {
        for p in [2i32, 3] {
            put(format!("equations {}", p), Box::new(move |_| modular_polynomial::subscripted_variable_modular_polynomial_list(p).iter().map(|p| p.to_string() + ";").collect()));
            put(format!("modular polynomial {}", p), Box::new(move |_| modular_polynomial::modular_polynomial(p).to_string()));
            for i in 0..n {
                put(format!("sea {} curve {}", p, i), Box::new(move |s| {
                    let r = schoof_elkies_atkins::sea(&s.curves[i], p);
                    format!("{} {} {} {:?}", r.gcd, r.degree_of_gcd, r.is_elkies_prime, r.isogeny_j_invariants)
                }));
            }
        }
        for (a, b, q) in [(1i32, 1, 5), (2, 1, 5), (1, 1, 7), (2, 1, 7)] {
            put(format!("schoof {} {} {}", a, b, q), Box::new(move |_| format!("{:?}", schoof::schoof(&BigInt::from(a), &BigInt::from(b), q))));
        }
        kin_ops(s, &mut put);
        digit_ops(&mut put);
        near_ops(&mut put);
        packed_ops(&mut put);
        refused_ops(&mut put);
    }
    v
}

/// the operations of the list, in order or on several threads (each its own
/// rotation and direction)
fn run_list(s: &Shared, o: &[Op], idx: Vec<usize>, threads: usize) -> Result<BTreeMap<usize, String>, String> {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let call = |i: usize| catch_unwind(AssertUnwindSafe(|| (o[i].f)(s))).unwrap_or_else(|_| "PANIC".to_string());
    let mut got: BTreeMap<usize, String> = BTreeMap::new();
    let take = |i: usize, r: String, got: &mut BTreeMap<usize, String>| -> Result<(), String> {
        if let Some(old) = got.get(&i) {
            if *old != r {
                return Err(format!("'{}' gave {} and then {}", o[i].name, old, r));
            }
        }
        got.insert(i, r);
        Ok(())
    };
    if threads <= 1 {
        for i in idx {
            let r = call(i);
            take(i, r, &mut got)?;
        }
    } else {
        let barrier = std::sync::Barrier::new(threads);
        let all: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|t| {
                let mut my = idx.clone();
                let k = my.len();
                // the first two start on the same operation
                my.rotate_left(t / 2 * k / threads);
                if t % 4 == 3 {
                    my.reverse();
                }
                let (b, call) = (&barrier, &call);
                sc.spawn(move || {
                    b.wait();
                    my.into_iter().map(|i| (i, call(i))).collect::<Vec<_>>()
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for rs in all {
            for (i, r) in rs {
                take(i, r, &mut got).map_err(|e| format!("on different threads, {}", e))?;
            }
        }
    }
    Ok(got)
}

/// groups of calls of one operation that differ in their arguments only, many
/// times over by several threads at once: number of calls
#[allow(dead_code)]
pub fn hammer(seed: u64, threads: usize, rounds: usize) -> Result<(usize, usize), String> {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let s = Shared::new(seed, false);
    let before = s.digest();
    let o = ops(&s, false);
    let mut r = Rng::new(seed ^ 0x4a);
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, op) in o.iter().enumerate() {
        groups.entry(op.name.chars().filter(|c| !c.is_ascii_digit() && *c != '-').collect()).or_default().push(i);
    }
    let groups: Vec<Vec<usize>> = groups.into_values().filter(|g| g.len() > 1).collect();
    let (mut calls, mut pairs) = (0, 0);
    let guards: Vec<usize> = (0..groups.len()).filter(|i| groups[*i].iter().any(|k| o[*k].name.starts_with("guard: "))).collect();
    for round in 0..rounds {
        let mut g = if round % 6 == 0 && !guards.is_empty() { groups[*r.pick(&guards)].clone() } else { r.pick(&groups).clone() };
        r.shuffle(&mut g);
        g.truncate(r.range(2, 5) as usize);
        let t0 = std::time::Instant::now();
        let call = |i: usize| catch_unwind(AssertUnwindSafe(|| (o[i].f)(&s))).unwrap_or_else(|_| "PANIC".to_string());
        let want: Vec<String> = g.iter().map(|i| call(*i)).collect();
        let once = t0.elapsed().as_micros().max(1) as usize;
        if once > 20_000 {
            continue;
        }
        // a call answered for one argument and refused for another: a guard that
        // remembers shows here
        let mixed = want.iter().any(|w| w == "refused") && want.iter().any(|w| w != "refused");
        let times = (if mixed { 60_000 } else { 6_000 } / once).max(1).min(if mixed { 8_000 } else { 2_000 });
        let barrier = std::sync::Barrier::new(threads);
        let bad: Option<String> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|t| {
                let (g, want, barrier, call) = (&g, &want, &barrier, &call);
                let (o, mut r) = (&o, Rng::new(seed ^ (t as u64) << 32 ^ once as u64));
                sc.spawn(move || {
                    barrier.wait();
                    for _ in 0..times * g.len() {
                        let k = r.usize(0, g.len() - 1);
                        let v = call(g[k]);
                        if v != want[k] {
                            return Some(format!("'{}' gave {} and, concurrently with calls of its kind, {}", o[g[k]].name, want[k], v));
                        }
                    }
                    None
                })
            }).collect();
            hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("a thread panicked".into()))).next()
        });
        if let Some(b) = bad {
            return Err(b);
        }
        calls += times * g.len() * threads;
        pairs += 1;
    }
    if s.digest() != before {
        return Err("the shared operands have changed".into());
    }
    Ok((pairs, calls))
}

/// some of the operations, concurrently and then in order: number of calls
#[allow(dead_code)]
pub fn run_some(s: &Shared, o: &[Op], seed: u64, count: usize, threads: usize) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let mut idx: Vec<usize> = (0..o.len()).collect();
    r.shuffle(&mut idx);
    // the slow ones are for the other legs
    idx.retain(|i| !["gcd", "omega", "j1 2", "j 2", "isogeny", "division points", "phi 3"].iter().any(|n| o[*i].name.starts_with(n)));
    idx.truncate(count);
    let n = idx.len();
    let a = run_list(s, o, idx.clone(), threads)?;
    let b = run_list(s, o, idx, 1)?;
    for (i, x) in &a {
        if b.get(i) != Some(x) {
            return Err(format!("'{}' gave {} on {} threads and {:?} afterwards", o[*i].name, x, threads, b.get(i)));
        }
    }
    Ok(n * (threads + 1))
}

/// runs the operations in the given order on the given number of threads
/// (each thread its own rotation and direction); Err on any disagreement
pub fn run(seed: u64, mini: bool, order: u64, threads: usize, only: Option<usize>) -> Result<Vec<(usize, String, String)>, String> {
    let s = Shared::new(seed, mini);
    let before = s.digest();
    let o = ops(&s, mini);
    let n = o.len();
    let idx: Vec<usize> = match (only, order) {
        (Some(i), _) => vec![i % n],
        (None, 0) => (0..n).collect(),
        (None, 1) => (0..n).rev().collect(),
        (None, k) => {
            let mut v: Vec<usize> = (0..n).collect();
            let mut r = Rng::new(k);
            r.shuffle(&mut v);
            // and again, in another order
            let mut w = v.clone();
            r.shuffle(&mut w);
            v.extend(w);
            v
        }
    };
    let got = run_list(&s, &o, idx, threads)?;
    if s.digest() != before {
        return Err("the shared operands have changed".into());
    }
    Ok(got.into_iter().map(|(i, r)| (i, o[i].name.clone(), r)).collect())
}
