use crate::ensure;
use crate::fp;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use ellipticcurve::bigint::{Inverse, Power, PowerModulo};
use ellipticcurve::division_polynomial as dp;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::modular_polynomial as mp;
use ellipticcurve::schoof_elkies_atkins::sea;
use ellipticcurve::simultaneous_equation::solve;
use ellipticcurve::subscripted_variable::SubscriptedVariableConverter;
use ellipticcurve::term_builder::TermBuilder;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};

const Y: Shape = Shape { x: (0, 3), y: (1, 4), q: (0, 0), var: false, terms: 5 };
const QQ: Shape = Shape { x: (0, 3), y: (0, 0), q: (1, 4), var: false, terms: 5 };

/// a polynomial (non-zero) over the shape with at least one term satisfying f
fn with<F: Fn(&Mono) -> bool>(r: &mut Rng, s: &Shape, f: F) -> RPoly {
    loop {
        let p = poly(r, s);
        if p.0.keys().any(|m| f(m)) {
            return p;
        }
    }
}
/// composite numbers that pass Fermat's test to every base, without small
/// factors, and strong pseudoprimes to bases 2, 3, 5
const PSEUDO: [i64; 36] = [
    4681, 6601, 8911, 10585, 15841, 29341, 46657, 52633, 62745, 63973, 75361, 252601, 294409, 399001, 410041, 488881, 512461,
    1152271, 1193221, 1461241, 1857241, 1909001, 2508013, 3057601, 3828001, 4335241, 5049001, 15247621, 56052361, 92625121,
    25326001, 161304001, 960946321, 1157839381, 3697278427, 3215031751,
];
fn composite(r: &mut Rng) -> i64 {
    loop {
        let n = match r.below(6) {
            0 => *r.pick(&[0i64, 1, -1, -2, -3, -5, -7, -11, -13]),
            1 => *r.pick(&[4i64, 6, 8, 9, 10, 12, 14, 15, 16, 25]),
            // pseudoprimes, products of two primes and squares of primes
            2 => if r.one_in(2) { *r.pick(&PSEUDO) } else { *r.pick(&[341i64, 561, 645, 1105, 1387, 1729, 2047, 2465, 2701, 2821, 3277]) },
            3 if r.one_in(4) => { let p = fp::primes_upto(400); *r.pick(&p) as i64 * *r.pick(&p) as i64 }
            3 => { let p = *r.pick(&[3i64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]); p * p }
            4 => -r.range(1, 2000),
            _ => r.range(4, 2500),
        };
        if n < 2 || !fp::is_prime_u(n as u64) {
            return n;
        }
    }
}

type Case = (&'static str, fn(&mut Ctx) -> Res);

fn field(c: &mut Ctx) -> Res {
    let p = composite(&mut c.rng);
    let (a, b) = (int(&mut c.rng), int(&mut c.rng));
    c.input(&(p, &a, &b));
    c.note(|| format!("a = {}, b = {}, p = {}", a, b, p));
    c.refuse("EllipticCurve::new with a composite or too small characteristic", || EllipticCurve::new(&a, &b, &bi(p)).points.len()).map_err(|e| format!("p = {}: {}", p, e))
}
fn level(c: &mut Ctx) -> Res {
    let mut p = composite(&mut c.rng);
    // the numbering itself costs nothing
    let h = match c.rng.below(4) {
        0 => p,
        3 => *c.rng.pick(&PSEUDO),
        1 => 46337 * 46337,
        _ => { let v = fp::primes_upto(46_340); *c.rng.pick(&v) as i64 * *c.rng.pick(&v) as i64 }
    };
    if h <= i32::MAX as i64 {
        c.refuse("SubscriptedVariableConverter::new with a composite or too small level", || SubscriptedVariableConverter::new(h as i32)).map_err(|e| format!("level {}: {}", h, e))?;
    }
    // an accepted level would be costly
    if p > 60 {
        p = 4 + 2 * (p % 20);
    }
    c.input(&p);
    c.note(|| format!("level {}", p));
    let k = p as i32;
    let f = |e: String| format!("level {}: {}", p, e);
    c.refuse("SubscriptedVariableConverter::new with a composite or too small level", || SubscriptedVariableConverter::new(k)).map_err(f)?;
    c.refuse("subscripted_variable_modular_polynomial with a composite or too small level", || mp::subscripted_variable_modular_polynomial(k)).map_err(f)?;
    if p < 8 {
        c.refuse("subscripted_variable_modular_polynomial_q with a composite or too small level", || mp::subscripted_variable_modular_polynomial_q(k)).map_err(f)?;
        c.refuse("subscripted_variable_modular_polynomial_list with a composite or too small level", || mp::subscripted_variable_modular_polynomial_list(k)).map_err(f)?;
        c.refuse("modular_polynomial with a composite or too small level", || mp::modular_polynomial(k)).map_err(f)?;
        let e = EllipticCurve::new_raw(&bi(1), &bi(7), &bi(23));
        c.refuse("sea with a composite or too small level", || sea(&e, k).degree_of_gcd).map_err(f)?;
    }
    Ok(())
}
fn off_curve(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = fp::any_prime(r, 3);
    let k = loop {
        let k = fp::Curve::new(&int(r), &int(r), &p);
        if k.nonsingular() {
            break k;
        }
    };
    let off = loop {
        let (x, y) = (int(r), int(r));
        if !k.on(&x, &y) {
            break ECPoint { x, y, z: BigInt::one() };
        }
    };
    let on = match r.below(2) {
        0 => ECPoint::infinity(),
        _ => {
            let mut q = ECPoint::infinity();
            for _ in 0..30 {
                let x = bits(r, 200).mod_floor(&p);
                if let Some(y) = k.sqrt(&k.rhs(&x)) {
                    q = ECPoint { x, y, z: BigInt::one() };
                    break;
                }
            }
            q
        }
    };
    let e = EllipticCurve::new_raw(&rep(r, &k.a, &p), &rep(r, &k.b, &p), &p);
    let n = loop {
        let n = int(r);
        if n.bits() >= 2 {
            break n;
        }
    };
    c.input(&(&k, &off.x, &off.y, &n));
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}, point ({}, {}), n = {}", e.a, e.b, p, off.x, off.y, n));
    c.refuse("plus with a first point off the curve", || e.plus(&off, &on))?;
    c.refuse("plus with a second point off the curve", || e.plus(&on, &off))?;
    c.refuse("plus with both points off the curve", || e.plus(&off, &off))?;
    c.refuse("multiply_scalar of a point off the curve", || e.multiply_scalar(&off, &n)).map_err(|m| format!("n = {}: {}", n, m))
}
fn divide(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let f = nonzero_poly(r, &ALLV);
    let g = loop {
        let s = any_shape(r);
        let g = poly(r, &s);
        if g.0.len() >= 2 {
            break g;
        }
    };
    let m = mono(r, &ALLV);
    let k = nonzero(r);
    let zm = mono(r, &ALL);
    c.input(&(&f, &g, &m, &zm));
    c.note(|| format!("f = {}, g = {}, t = {}", f.text(), g.text(), term_text(&m, &k)));
    let (lf, lg, t, z, zt) = (f.to_lib(), g.to_lib(), term_lib(&m, &k), RPoly::zero().to_lib(), term_lib(&zm, &BigInt::zero()));
    c.refuse("Polynomial / zero polynomial", || &lf / &z)?;
    c.refuse("Polynomial / polynomial of more than one term", || &lf / &lg)?;
    c.refuse("Polynomial / zero term", || &lf / &zt)?;
    c.refuse("Term / zero term", || &t / &zt)?;
    c.refuse("Term / zero polynomial", || &t / &z)?;
    c.refuse("Term / polynomial of more than one term", || &t / &lg)?;
    c.refuse("Polynomial /= zero polynomial", || { let mut a = lf.clone(); a /= &z; a })?;
    c.refuse("Polynomial /= polynomial of more than one term", || { let mut a = lf.clone(); a /= &lg; a })?;
    c.refuse("Polynomial /= zero term", || { let mut a = lf.clone(); a /= &zt; a })?;
    // consuming spellings
    c.refuse("Polynomial / polynomial of more than one term (by value)", || lf.clone() / lg.clone())?;
    c.refuse("Polynomial / zero term (by value)", || lf.clone() / zt.clone())
}
fn variables(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (mut m, mut n) = (mono(r, &ALL), mono(r, &ALL));
    m.3 = Some((r.range(0, 4) as i32, r.range(0, 4) as i32));
    n.3 = if r.one_in(2) { m.3 } else { Some((r.range(0, 4) as i32, r.range(0, 4) as i32)) };
    let (a, b) = (nonzero(r), nonzero(r));
    let mut f = poly(r, &ALLV);
    f.put(m, a.clone());
    if !f.has_var() {
        f = RPoly::term(m, a.clone());
    }
    let mut g = RPoly::term(n, b.clone());
    for (k, d) in poly(r, &ALL).0 {
        g.put(k, d);
    }
    let e = r.range(2, 9);
    let mo = bi(r.range(2, 50));
    c.input(&(&m, &n, &f, &g, e));
    c.note(|| format!("s = {}, t = {}, f = {}, g = {}, exponent {}", term_text(&m, &a), term_text(&n, &b), f.text(), g.text(), e));
    let (s, t, lf, lg) = (term_lib(&m, &a), term_lib(&n, &b), f.to_lib(), g.to_lib());
    let plain = nonzero_poly(&mut c.rng, &ALL).to_lib();
    c.refuse("Term * Term, both with variables", || &s * &t)?;
    c.refuse("Polynomial * Polynomial, both with variables", || &lf * &lg)?;
    c.refuse("Polynomial * Term, both with variables", || &lf * &t)?;
    c.refuse("Term * Polynomial, both with variables", || &s * &lg)?;
    c.refuse("Polynomial *= Polynomial, both with variables", || { let mut u = lf.clone(); u *= &lg; u })?;
    c.refuse("power of a term with a variable", || s.power(e as i32))?;
    c.refuse("power of a term with a variable (big exponent)", || s.power(&bi(e)))?;
    c.refuse("power of a term with a variable (big exponent by value)", || s.power(bi(e)))?;
    c.refuse("power_modulo of a term with a variable", || s.power_modulo(&bi(e), &mo))?;
    c.refuse("power of a polynomial with a variable", || lf.power(e as i32))?;
    c.refuse("power of a polynomial with a variable (big exponent)", || lf.power(&bi(e)))?;
    c.refuse("square of a polynomial with a variable", || lf.square())?;
    c.refuse("cube of a polynomial with a variable", || lf.cube())?;
    let unit = term_lib(&m, &BigInt::one()).to_pol();
    c.refuse("power_modulo of a polynomial with a variable", || unit.power_modulo(&bi(e), &mo))?;
    c.refuse("Term / term with a variable", || &s / &t)?;
    c.refuse("Polynomial / term with a variable", || &plain / &t)?;
    c.refuse("Polynomial / polynomial that is a term with a variable", || &plain / &t.to_pol())?;
    c.refuse("Polynomial /= term with a variable", || { let mut u = plain.clone(); u /= &t; u })
}
fn mod_zero(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let f = nonzero_poly(r, &ALLV);
    let u = loop {
        let f = nonzero_poly(r, &X);
        if f.has_x() {
            break f;
        }
    };
    let m = mono(r, &ALLV);
    let k = int(r);
    let b = int(r);
    let e = r.range(1, 20);
    c.input(&(&f, &u, &m, &k, e));
    c.note(|| format!("f = {}, u = {}, t = {}, b = {}, exponent {}", f.text(), u.text(), term_text(&m, &k), b, e));
    let (lf, lu, t, z) = (f.to_lib(), u.to_lib(), term_lib(&m, &k), BigInt::zero());
    c.refuse("Polynomial % 0", || &lf % &z)?;
    c.refuse("Polynomial % 0i32", || &lf % 0)?;
    c.refuse("Polynomial.modular_assign(0)", || { let mut a = lf.clone(); a.modular_assign(&z); a })?;
    c.refuse("Term.modulo(0)", || t.modulo(&z))?;
    c.refuse("Term.modular_assign(0)", || { let mut a = t.clone(); a.modular_assign(&z); a })?;
    c.refuse("Polynomial.power_modulo modulo 0", || lu.power_modulo(&bi(e), &z))?;
    c.refuse("BigInt.power_modulo modulo 0", || b.power_modulo(&bi(e), &z))?;
    c.refuse("reduction_modular modulo 0", || lu.reduction_modular(&bi(1), &bi(2), 0))?;
    c.refuse("polynomial_modular modulo 0", || lu.polynomial_modular(&lu, &z))?;
    c.refuse("gcd modulo 0", || lu.gcd(&lu, &z))?;
    c.refuse("to_monic modulo 0", || lu.to_monic(&z))
}
fn neg_power(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = any_shape(r);
    let f = poly(r, &s);
    let g = poly(r, &Q);
    let e = match r.below(3) { 0 => -1, 1 => -r.range(1, 10), _ => *r.pick(&[-2147483648i64, -2147483647, -65536]) };
    let big = match r.below(3) { 0 => bi(e), 1 => -(BigInt::one() << r.usize(31, 80)), _ => -(BigInt::one() << 32) + r.range(-2, 2) };
    let m = bi(r.range(2, 100));
    c.input(&(&f, &g, e, &big));
    c.note(|| format!("f = {}, g = {}, exponents {} and {}", f.text(), g.text(), e, big));
    let (lf, lg) = (f.to_lib(), g.to_lib());
    c.refuse("Polynomial.power with a negative exponent", || lf.power(e as i32))?;
    c.refuse("Polynomial.power with a negative big exponent", || lf.power(&big))?;
    c.refuse("Polynomial.power with a negative big exponent by value", || lf.power(big.clone()))?;
    c.refuse("Polynomial.power_modulo with a negative exponent", || lf.power_modulo(&big, &m))?;
    c.refuse("Polynomial.power_omit_high_order_q with a negative exponent", || lg.power_omit_high_order_q(e as i32, 5))
}
fn remainder(c: &mut Ctx) -> Res {
    let p = fp::any_prime(&mut c.rng, 2);
    let r = &mut c.rng;
    let f = poly(r, &X.with_terms(5));
    let zero = match r.below(3) {
        0 => RPoly::zero(),
        _ => poly(r, &X).scale(&p),
    };
    // survives modulo p
    let unit = |g: RPoly| RPoly(g.0.into_iter().map(|(m, _)| (m, BigInt::one())).collect());
    let gy = unit(with(r, &Y, |m| m.1 != 0));
    let gq = unit(with(r, &QQ, |m| m.2 != 0));
    c.input(&(&f, &zero, &gy, &gq, &p));
    c.note(|| format!("f = {}, divisors {}, {}, {}, p = {}", f.text(), zero.text(), gy.text(), gq.text(), p));
    let (lf, l0, ly, lq) = (f.to_lib(), zero.to_lib(), gy.to_lib(), gq.to_lib());
    c.refuse("remainder by a polynomial that is zero modulo p", || lf.polynomial_modular(&l0, &p))?;
    c.refuse("remainder by a polynomial in y", || lf.polynomial_modular(&ly, &p))?;
    c.refuse("remainder by a polynomial in q", || lf.polynomial_modular(&lq, &p))
}
fn truncate(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = ALLV;
    let fx = with(r, &s.with_y(0, 0), |m| m.0 != 0);
    let fy = with(r, &s.with_x(0, 0), |m| m.1 != 0);
    let fq = with(r, &s.with_x(0, 0).with_y(0, 0), |m| m.2 != 0);
    let o = r.range(-4, 8) as i32;
    let n = r.range(0, 5) as i32;
    let v = var(r);
    c.input(&(&fx, &fy, &fq, o, n, &v));
    c.note(|| format!("fx = {}, fy = {}, fq = {}, order {}, exponent {}", fx.text(), fy.text(), fq.text(), o, n));
    for (k, l) in [("x", fx.to_lib()), ("y", fy.to_lib())].iter() {
        let f = |e: String| format!("with {}: {}", k, e);
        c.refuse("omit_high_order_q in the presence of x or y", || { let mut a = l.clone(); a.omit_high_order_q(o); a }).map_err(f)?;
        c.refuse("to_q_power_coef in the presence of x or y", || l.to_q_power_coef(o)).map_err(f)?;
        c.refuse("to_variable_coef in the presence of x or y", || l.to_variable_coef(var_lib(v))).map_err(f)?;
    }
    let px = with(&mut c.rng, &ALL.with_y(0, 0), |m| m.0 != 0).to_lib();
    let py = with(&mut c.rng, &ALL.with_x(0, 0), |m| m.1 != 0).to_lib();
    c.refuse("power_omit_high_order_q in the presence of x", || px.power_omit_high_order_q(n, o))?;
    c.refuse("power_omit_high_order_q in the presence of y", || py.power_omit_high_order_q(n, o))?;
    let lq = fq.to_lib();
    c.refuse("to_variable_coef in the presence of q", || lq.to_variable_coef(var_lib(v)))
}
fn shapes(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let fy = with(r, &XYQ.with_q(0, 0), |m| m.1 != 0);
    let fq = with(r, &XYQ.with_y(0, 0), |m| m.2 != 0);
    let one = loop {
        let m = mono(r, &ALLV);
        if m != (0, 0, 0, None) {
            break RPoly::term(m, nonzero(r));
        }
    };
    let two = loop {
        let f = poly(r, &ALLV);
        if f.0.len() >= 2 {
            break f;
        }
    };
    let (nx, ny) = (-r.range(1, 5), -r.range(1, 5));
    let tx = { let mut m = mono(r, &ALLV); m.0 = nx; m };
    let ty = { let mut m = mono(r, &ALLV); m.1 = ny; m };
    let k = nonzero(r);
    c.input(&(&fy, &fq, &one, &two, &tx, &ty));
    c.note(|| format!("fy = {}, fq = {}, {} and {}, {} and {}", fy.text(), fq.text(), one.text(), two.text(), term_text(&tx, &k), term_text(&ty, &k)));
    let (ly, lq, l1, l2) = (fy.to_lib(), fq.to_lib(), one.to_lib(), two.to_lib());
    c.refuse("degree_x in the presence of y", || ly.degree_x())?;
    c.refuse("degree_x in the presence of q", || lq.degree_x())?;
    c.refuse("to_scalar of one non-constant term", || l1.to_scalar()).map_err(|e| format!("{}: {}", one.text(), e))?;
    c.refuse("to_scalar of several terms", || l2.to_scalar()).map_err(|e| format!("{}: {}", two.text(), e))?;
    let (x, y) = (term_lib(&tx, &k), term_lib(&ty, &k));
    c.refuse("derivative_x of a term with a negative x power", || x.derivative_x())?;
    c.refuse("derivative_y of a term with a negative y power", || y.derivative_y())?;
    let mut g = poly(&mut c.rng, &ALLV);
    g.0.insert(tx, k.clone());
    let mut h = poly(&mut c.rng, &ALLV);
    h.0.insert(ty, k.clone());
    let (g, h) = (g.to_lib(), h.to_lib());
    c.refuse("derivative_x of a polynomial with a negative x power", || g.derivative_x())?;
    c.refuse("derivative_y of a polynomial with a negative y power", || h.derivative_y())
}
fn division_index(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (a, b) = (int(r), int(r));
    let n = match r.below(3) { 0 => -r.range(1, 3), 1 => -r.range(1, 100), _ => *r.pick(&[-2147483648i64, -2147483647, -1]) } as i32;
    c.input(&(&a, &b, n));
    c.note(|| format!("a = {}, b = {}, n = {}", a, b, n));
    c.refuse("psi with a negative index", || dp::psi(&a, &b, n))?;
    c.refuse("phi with a negative index", || dp::phi(&a, &b, n))?;
    c.refuse("omega with a negative index", || dp::omega(&a, &b, n))?;
    c.refuse("phi_0", || dp::phi(&a, &b, 0))?;
    c.refuse("omega_0", || dp::omega(&a, &b, 0))
}
fn numbering(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = *r.pick(&[2i64, 3, 5, 7, 11, 13, 17]);
    let (i, j) = match r.below(4) {
        // above the diagonal only pairs i <= j exist
        0 => { let j = r.range(0, p - 1); (r.range(j + 1, p), j) }
        1 => (r.range(0, p), p + r.range(1, 3)),
        2 => (p + r.range(1, 3), p + r.range(1, 3)),
        _ => if r.one_in(2) { (-r.range(1, 3), r.range(-2, p)) } else { (r.range(0, p), -r.range(1, 3)) },
    };
    let count = ((p + 1) * (p + 2) / 2) as u64;
    let k = match r.below(4) {
        0 => count,
        1 => count + r.below(5),
        2 => (1u64 << 32) + r.below(count),
        _ => r.u64() | (1 << 40),
    };
    c.input(&(p, i, j, k));
    c.note(|| format!("p = {}, variable ({}, {}), index {}", p, i, j, k));
    let v = SubscriptedVariableConverter::new(p as i32);
    c.refuse("index_from_variable outside the numbering", || v.index_from_variable(var_lib(Some((i as i32, j as i32))))).map_err(|e| format!("p = {}, c_{}_{}: {}", p, i, j, e))?;
    c.refuse("variable_from_index outside the numbering", || v.variable_from_index(k)).map_err(|e| format!("p = {}, index {}: {}", p, k, e))?;
    let (i, j) = if c.rng.one_in(2) { (-c.rng.range(1, 9), c.rng.range(-3, 9)) } else { (c.rng.range(0, 9), -c.rng.range(1, 9)) };
    c.refuse("variable_ij with a negative index", || TermBuilder::new().variable_ij(i as i32, j as i32).build())
}
fn inverse(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let b = int(r);
    let p = match r.below(3) { 0 => bi(r.range(-3, 1)), 1 => -fp::any_prime(r, 2), _ => bi(*r.pick(&[0, 1])) };
    c.input(&(&b, &p));
    c.note(|| format!("1/{} mod {}", b, p));
    c.refuse("inverse modulo less than 2", || b.inverse(&p)).map_err(|e| format!("1/{} mod {}: {}", b, p, e))
}
/// rank-deficient matrices
fn singular(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = r.usize(1, 5);
    let rows = n + r.usize(0, 2);
    let mut a: Vec<Vec<BigInt>> = (0..rows).map(|_| (0..=n).map(|_| if r.one_in(3) { BigInt::zero() } else { bi(r.range(-5, 5)) }).collect()).collect();
    // one column of the unknowns is a combination of the others (or zero)
    let col = r.usize(0, n - 1);
    let w: Vec<i64> = (0..n).map(|_| if r.one_in(2) { 0 } else { r.range(-2, 2) }).collect();
    for row in a.iter_mut() {
        let mut s = BigInt::zero();
        for j in 0..n {
            if j != col {
                s += &row[j] * w[j];
            }
        }
        row[col] = s;
    }
    // consistent systems too: the right hand side in the column space
    if r.one_in(2) {
        let w: Vec<i64> = (0..n).map(|_| r.range(-3, 3)).collect();
        for row in a.iter_mut() {
            let s: BigInt = (0..n).map(|j| &row[j] * w[j]).fold(BigInt::zero(), |x, y| x + y);
            row[n] = s;
        }
    }
    c.input(&a);
    c.note(|| format!("{:?}", a.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    c.refuse("solve of a singular system", || solve(&a)).map_err(|e| format!("{:?}: {}", a.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(), e))
}

const CASES: [Case; 15] = [
    ("field characteristic", field), ("level", level), ("points off the curve", off_curve), ("division", divide), ("variables", variables),
    ("modulus zero", mod_zero), ("negative exponents", neg_power), ("remainder", remainder), ("q operations", truncate), ("shapes", shapes),
    ("division polynomial index", division_index), ("numbering", numbering), ("inverse", inverse), ("singular systems", singular),
    ("division of terms", divide),
];

fn c31_case(c: &mut Ctx) -> Res {
    // the shard count is even: spread the kinds over all shards
    let k = (c.idx / 8 + c.idx % 8) as usize % CASES.len();
    c.nontrivial = true;
    c.feat(CASES[k].0);
    c.input(CASES[k].0);
    (CASES[k].1)(c)
}

/// neighbours of the refused arguments that are valid: refusing everything
/// would be no better
fn c31_accepts(c: &mut Ctx) -> Res {
    let p = *c.rng.pick(&[2i64, 3, 5, 7, 11, 13, 17, 19, 23]);
    c.input(&(p, c.idx));
    c.nontrivial = true;
    let n = c.lib("EllipticCurve::new", || EllipticCurve::new(&bi(1), &bi(1), &bi(p)).points.len())?;
    ensure!(n >= 1, "no points");
    let v = c.lib("SubscriptedVariableConverter::new", || SubscriptedVariableConverter::new(p as i32))?;
    let count = ((p + 1) * (p + 2) / 2) as u64;
    c.lib("variable_from_index of the last index", || v.variable_from_index(count - 1))?;
    c.lib("psi_0", || dp::psi(&bi(1), &bi(1), 0))?;
    c.lib("inverse modulo 2", || BigInt::one().inverse(&bi(2)))?;
    let f = nonzero_poly(&mut c.rng, &X).to_lib();
    c.lib("power 0", || f.power(0))?;
    c.lib("remainder by one", || f.polynomial_modular(&RPoly::one().to_lib(), &bi(p)))?;
    Ok(())
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "a call with arguments outside the operation's domain, observed to panic rather than return; half of the workers run the library built without overflow checks and debug assertions; every case is non-trivial",
        scenarios: vec![
            sc("refuses", 450_000, 1_200_000, c31_case).steps(150_000_000),
            sc("accepts", 4_000, 32_000, c31_accepts).steps(150_000_000),
        ],
    }
}
