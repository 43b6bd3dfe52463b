use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use ellipticcurve::bigint::Power;
use ellipticcurve::division_polynomial as dp;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use ellipticcurve::{delta, eisenstein, j_invariant, modular_polynomial};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};

/// every spelling of a binary operator on values of types &A, &B
macro_rules! spell {
    ($c:expr, $what:expr, $a:expr, $b:expr, $op:tt, $check:expr) => {{
        let (a, b) = (&$a, &$b);
        let r = $c.lib(concat!($what, " (&, &)"), || a $op b)?;
        $check(concat!($what, " (&, &)"), &r)?;
        let r = $c.lib(concat!($what, " (value, &)"), || a.clone() $op b)?;
        $check(concat!($what, " (value, &)"), &r)?;
        let r = $c.lib(concat!($what, " (&, value)"), || a $op b.clone())?;
        $check(concat!($what, " (&, value)"), &r)?;
        let r = $c.lib(concat!($what, " (value, value)"), || a.clone() $op b.clone())?;
        $check(concat!($what, " (value, value)"), &r)?;
    }};
}
macro_rules! assign {
    ($c:expr, $what:expr, $a:expr, $b:expr, $op:tt, $check:expr) => {{
        let (a, b) = (&$a, &$b);
        let r = $c.lib(concat!($what, " (&)"), || { let mut t = a.clone(); t $op b; t })?;
        $check(concat!($what, " (&)"), &r)?;
        let r = $c.lib(concat!($what, " (value)"), || { let mut t = a.clone(); t $op b.clone(); t })?;
        $check(concat!($what, " (value)"), &r)?;
    }};
}

fn check_pair(c: &mut Ctx, ra: &RPoly, rb: &RPoly, mul: bool) -> Res {
    let (a, b) = (ra.to_lib(), rb.to_lib());
    let sum = ra.add(rb);
    let dif = ra.sub(rb);
    spell!(c, "Polynomial + Polynomial", a, b, +, |w: &str, r: &Polynomial| same(w, r, &sum));
    spell!(c, "Polynomial - Polynomial", a, b, -, |w: &str, r: &Polynomial| same(w, r, &dif));
    assign!(c, "Polynomial += Polynomial", a, b, +=, |w: &str, r: &Polynomial| same(w, r, &sum));
    assign!(c, "Polynomial -= Polynomial", a, b, -=, |w: &str, r: &Polynomial| same(w, r, &dif));
    if mul {
        let pro = ra.mul(rb);
        spell!(c, "Polynomial * Polynomial", a, b, *, |w: &str, r: &Polynomial| same(w, r, &pro));
        assign!(c, "Polynomial *= Polynomial", a, b, *=, |w: &str, r: &Polynomial| same(w, r, &pro));
    }
    let n = c.lib("-Polynomial (&)", || -&a)?;
    same("-Polynomial (&)", &n, &ra.neg())?;
    let n = c.lib("-Polynomial (value)", || -a.clone())?;
    same("-Polynomial (value)", &n, &ra.neg())?;
    same("left operand afterwards", &a, ra)?;
    same("right operand afterwards", &b, rb)
}

fn c01_binary(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mut s = any_shape(r);
    let va = r.one_in(3);
    let both = r.one_in(8);
    s.var = va;
    let a = poly(r, &s);
    let s2 = if r.one_in(3) { any_shape(r) } else { s };
    let s2 = s2.with_var(both);
    let b = if r.one_in(2) { related(r, &a, &s2) } else { poly(r, &s2) };
    let mut mul = !(a.has_var() && b.has_var());
    // powers at the limits of the machine sizes, products only where they fit
    let (a, b) = match r.below(24) {
        0 => (far(r, &a, (24, 24, 24)), b),
        1 => (far(r, &a, (30, 24, 24)), far(r, &b, (24, 24, 30))),
        2 => {
            mul = false;
            let f = far(r, &a, (31, 31, 31));
            let g = if r.one_in(2) { related(r, &f, &s2) } else { far(r, &b, (31, 31, 31)) };
            (f, g)
        }
        _ => (a, b),
    };
    if mul && r.one_in(20) && !a.has_var() && a.0.keys().all(|m| [m.0, m.1, m.2].iter().all(|e| e.abs() < 1 << 28)) {
        let la = a.to_lib();
        // the same object on both sides
        let v = c.lib("a * a", || &la * &la)?;
        same("a * a", &v, &a.mul(&a))?;
        let v = c.lib("a - a", || &la - &la)?;
        same("a - a", &v, &RPoly::zero())?;
        let v = c.lib("a + a", || &la + &la)?;
        same("a + a", &v, &a.scale(&bi(2)))?;
    }
    let r = &mut c.rng;
    let (a, b) = if r.one_in(2) { (a, b) } else { (b, a) };
    c.input(&a);
    c.input(&b);
    c.note(|| format!("a = {}", a.text()));
    c.note(|| format!("b = {}", b.text()));
    c.nontrivial = !a.is_zero() && !b.is_zero();
    if a.add(&b).0.len() < a.0.len() + b.0.len() {
        c.feat("sums in which terms met");
    }
    if a.add(&b).is_zero() {
        c.feat("sums that cancelled completely");
    }
    if a.has_var() || b.has_var() {
        c.feat("pairs with variables");
    }
    check_pair(c, &a, &b, mul)
}

fn c01_terms(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = if r.one_in(2) { ALL } else { any_shape(r) };
    let (m, n) = (mono(r, &s.with_var(r_bool(c.idx, 1))), {
        let r = &mut c.rng;
        mono(r, &s.with_var(r_bool(c.idx, 2)))
    });
    let r = &mut c.rng;
    let n = if r.one_in(3) { m } else { n };
    let cm = if r.one_in(12) { BigInt::zero() } else { nonzero(r) };
    let cn = match r.below(4) {
        0 => -cm.clone(),
        1 if r.one_in(3) => BigInt::zero(),
        _ => nonzero(r),
    };
    let sp = s.with_var(r_bool(c.idx, 4));
    let p = {
        let mut p = poly(r, &sp);
        match r.below(4) {
            0 => p.put(m, -cm.clone()),
            1 => p.put(n, -cn.clone()),
            2 => p = RPoly::term(m, -cm.clone()),
            _ => {}
        }
        p
    };
    c.input(&(&p, m, n, &cm, &cn));
    c.nontrivial = !cm.is_zero() && !cn.is_zero();
    let (t, u) = (term_lib(&m, &cm), term_lib(&n, &cn));
    let (rt, ru) = (RPoly::term(m, cm.clone()), RPoly::term(n, cn.clone()));
    c.note(|| format!("t = {} {:?}, u = {} {:?}, p = {}", cm, m, cn, n, p.text()));
    let lp = p.to_lib();
    spell!(c, "Term + Term", t, u, +, |w: &str, r: &Polynomial| same(w, r, &rt.add(&ru)));
    spell!(c, "Term - Term", t, u, -, |w: &str, r: &Polynomial| same(w, r, &rt.sub(&ru)));
    spell!(c, "Polynomial + Term", lp, t, +, |w: &str, r: &Polynomial| same(w, r, &p.add(&rt)));
    spell!(c, "Term + Polynomial", t, lp, +, |w: &str, r: &Polynomial| same(w, r, &p.add(&rt)));
    spell!(c, "Polynomial - Term", lp, t, -, |w: &str, r: &Polynomial| same(w, r, &p.sub(&rt)));
    spell!(c, "Term - Polynomial", t, lp, -, |w: &str, r: &Polynomial| same(w, r, &rt.sub(&p)));
    assign!(c, "Polynomial += Term", lp, t, +=, |w: &str, r: &Polynomial| same(w, r, &p.add(&rt)));
    let neg = c.lib("-Term (&)", || -&t)?;
    same_term("-Term (&)", &neg, &m, &-cm.clone())?;
    let neg = c.lib("-Term (value)", || -t.clone())?;
    same_term("-Term (value)", &neg, &m, &-cm.clone())?;
    if m.3.is_none() || n.3.is_none() {
        let k = (m.0 + n.0, m.1 + n.1, m.2 + n.2, m.3.or(n.3));
        let d = &cm * &cn;
        spell!(c, "Term * Term", t, u, *, |w: &str, r: &Term| same_term(w, r, &k, &d));
        c.feat("term products");
    }
    if m.3.is_none() || !p.has_var() {
        spell!(c, "Polynomial * Term", lp, t, *, |w: &str, r: &Polynomial| same(w, r, &p.mul(&rt)));
        spell!(c, "Term * Polynomial", t, lp, *, |w: &str, r: &Polynomial| same(w, r, &p.mul(&rt)));
        c.feat("products of a polynomial and a term");
    }
    same("operand afterwards", &lp, &p)?;
    same_term("term afterwards", &t, &m, &cm)
}
fn r_bool(i: u64, b: u64) -> bool {
    (crate::rng::mix(i) / b) % 3 == 0
}

fn c01_divide(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = any_shape(r).with_var(r.one_in(3));
    let n = mono(r, &s.with_var(false));
    let cn = nonzero(r);
    let base = poly(r, &s);
    // exact quotients, floored ones, quotients with terms that vanish
    let p = match r.below(4) {
        0 => base.mul(&RPoly::term(n, cn.clone())),
        1 => base.scale(&cn).add(&poly(r, &s)),
        _ => base,
    };
    let m = mono(r, &s);
    let cm = if r.one_in(8) { BigInt::zero() } else { nonzero(r) };
    c.input(&(&p, m, n, &cm, &cn));
    c.nontrivial = !p.is_zero();
    c.note(|| format!("p = {}, divisor = {} {:?}, term = {} {:?}", p.text(), cn, n, cm, m));
    let (lp, u, t) = (p.to_lib(), term_lib(&n, &cn), term_lib(&m, &cm));
    let up = RPoly::term(n, cn.clone()).to_lib();
    let q = p.div_term(&n, &cn);
    if q.mul(&RPoly::term(n, cn.clone())) != p {
        c.feat("divisions that floored");
    }
    if q.0.len() < p.0.len() {
        c.feat("divisions in which a term vanished");
    }
    let tq = RPoly::term(m, cm.clone()).div_term(&n, &cn);
    let (k, d) = ((m.0 - n.0, m.1 - n.1, m.2 - n.2, m.3), num_integer::Integer::div_floor(&cm, &cn));
    spell!(c, "Polynomial / Polynomial", lp, up, /, |w: &str, r: &Polynomial| same(w, r, &q));
    spell!(c, "Polynomial / Term", lp, u, /, |w: &str, r: &Polynomial| same(w, r, &q));
    spell!(c, "Term / Polynomial", t, up, /, |w: &str, r: &Polynomial| same(w, r, &tq));
    spell!(c, "Term / Term", t, u, /, |w: &str, r: &Term| same_term(w, r, &k, &d));
    assign!(c, "Polynomial /= Polynomial", lp, up, /=, |w: &str, r: &Polynomial| same(w, r, &q));
    assign!(c, "Polynomial /= Term", lp, u, /=, |w: &str, r: &Polynomial| same(w, r, &q));
    same("dividend afterwards", &lp, &p)?;
    same("divisor afterwards", &up, &RPoly::term(n, cn))
}

fn c01_power(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = any_shape(r).with_terms(4);
    let p = poly(r, &s);
    // powers near the limits of the machine sizes; their products have to fit
    let far_by = if r.one_in(12) { Some(*r.pick(&[(15, 15, 15), (20, 20, 20)])) } else { None };
    let p = match far_by { Some(l) => far(r, &p, l), None => p };
    let n = match p.0.len() {
        0 | 1 => r.range(0, 40),
        2 => if r.one_in(6) { r.range(17, 70) } else { r.range(0, 16) },
        3 => if r.one_in(12) { r.range(10, 20) } else { r.range(0, 9) },
        _ => r.range(0, 6),
    };
    c.input(&(&p, n));
    c.nontrivial = n >= 2 && !p.is_zero();
    c.note(|| format!("p = {}, n = {}", p.text(), n));
    c.feat(if n % 2 == 0 { "even exponents" } else { "odd exponents" });
    let lp = p.to_lib();
    let want = p.pow(n as u64);
    let v = c.lib("Polynomial.power(i32)", || lp.power(n as i32))?;
    same("Polynomial.power(i32)", &v, &want)?;
    let v = c.lib("Polynomial.power(&BigInt)", || lp.power(&bi(n)))?;
    same("Polynomial.power(&BigInt)", &v, &want)?;
    let v = c.lib("Polynomial.power(BigInt)", || lp.power(bi(n)))?;
    same("Polynomial.power(BigInt)", &v, &want)?;
    if n == 2 || n == 3 || c.idx % 5 == 0 {
        let v = c.lib("Polynomial.square", || lp.square())?;
        same("Polynomial.square", &v, &p.mul(&p))?;
        let v = c.lib("Polynomial.cube", || lp.cube())?;
        same("Polynomial.cube", &v, &p.mul(&p).mul(&p))?;
    }
    same("base afterwards", &lp, &p)
}

fn c01_power_term(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = mono(r, &ALL);
    let cm = match r.below(6) {
        0 => bi(1),
        1 => bi(-1),
        2 => bi(0),
        3 => bi(r.range(-9, 9)),
        _ => nonzero(r),
    };
    let unit = cm == bi(1) || cm == bi(-1) || cm == bi(0);
    let n = if unit && r.one_in(2) { r.range(0, 100_000_000) } else { r.range(0, 60) };
    let one = mono_is_one(&m);
    // exponents beyond 32 bits only fit where the exponents stay zero
    let t = term_lib(&m, &cm);
    let k = (m.0 * n, m.1 * n, m.2 * n, None);
    let want = if cm == bi(0) && n > 0 { bi(0) } else if unit { if cm == bi(-1) && n % 2 == 1 { bi(-1) } else { bi(1) } } else { npow(&cm, n as u64) };
    c.input(&(m, &cm, n));
    c.nontrivial = n >= 2 && !one;
    c.note(|| format!("t = {} {:?}, n = {}", cm, m, n));
    let v = c.lib("Term.power(i32)", || t.power(n as i32))?;
    same_term("Term.power(i32)", &v, &k, &want)?;
    let v = c.lib("Term.power(&BigInt)", || t.power(&bi(n)))?;
    same_term("Term.power(&BigInt)", &v, &k, &want)?;
    let v = c.lib("Term.power(BigInt)", || t.power(bi(n)))?;
    same_term("Term.power(BigInt)", &v, &k, &want)?;
    let lp = RPoly::term(m, cm.clone()).to_lib();
    let wp = RPoly::term(k, want);
    let wp = if n == 0 { RPoly::one() } else { wp };
    let v = c.lib("one-term Polynomial.power(i32)", || lp.power(n as i32))?;
    same("one-term Polynomial.power(i32)", &v, &wp)?;
    let v = c.lib("one-term Polynomial.power(BigInt)", || lp.power(bi(n)))?;
    same("one-term Polynomial.power(BigInt)", &v, &wp)?;
    if unit {
        // the powers of the constants 0, 1 and -1 fit whatever the exponent
        let e = super::seriesp::huge_exponent(&mut c.rng);
        let want = if e.is_zero() { bi(1) } else if e.is_even() { &cm * &cm } else { cm.clone() };
        let lp = RPoly::term((0, 0, 0, None), cm.clone()).to_lib();
        let want = RPoly::term((0, 0, 0, None), want);
        let v = c.lib("constant Polynomial.power(&BigInt)", || lp.power(&e))?;
        same("constant Polynomial.power(&BigInt)", &v, &want)?;
        let v = c.lib("constant Polynomial.power(BigInt)", || lp.power(e.clone()))?;
        same("constant Polynomial.power(BigInt)", &v, &want)?;
        c.feat("huge exponent of a constant");
    }
    Ok(())
}
fn mono_is_one(m: &Mono) -> bool {
    *m == (0, 0, 0, None)
}

fn c01_big(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = Shape { x: (0, 60), y: (-20, 40), q: (-30, 30), var: false, terms: 40 };
    let a = poly(r, &s);
    let b = if r.one_in(3) { related(r, &a, &s) } else { poly(r, &s) };
    c.input(&(&a, &b));
    c.nontrivial = a.0.len() > 3 && b.0.len() > 3;
    c.note(|| format!("a = {} b = {}", a.text(), b.text()));
    check_pair(c, &a, &b, true)?;
    // products built to cancel: (f - g)(f + g), (f - g)(f^2 + f g + g^2)
    let s = any_shape(&mut c.rng).with_terms(4);
    let (f, g) = (poly(&mut c.rng, &s), poly(&mut c.rng, &s));
    let (lf, lg) = (f.to_lib(), g.to_lib());
    let v = c.lib("(f - g)(f + g)", || (&lf - &lg) * (&lf + &lg))?;
    same("(f - g)(f + g)", &v, &f.mul(&f).sub(&g.mul(&g)))?;
    let v = c.lib("(f - g)(f^2 + f g + g^2)", || (&lf - &lg) * (lf.square() + &lf * &lg + lg.square()))?;
    same("(f - g)(f^2 + f g + g^2)", &v, &f.pow(3).sub(&g.pow(3)))
}

/// operands of many terms against large and small ones
fn c01_large(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let a = if r.one_in(20) { large(r, 1200) } else { large(r, 150) };
    let b = match r.below(4) {
        0 => related(r, &a, &XYQ),
        1 => poly(r, &ALLV),
        _ => large(r, 150),
    };
    let (a, b) = if r.one_in(2) { (a, b) } else { (b, a) };
    c.input(&(&a, &b));
    c.nontrivial = a.0.len() > 10 || b.0.len() > 10;
    c.note(|| format!("a = {} b = {}", a.text(), b.text()));
    if a.0.len() > 64 && b.0.len() > 64 {
        c.feat("both operands of more than 64 terms");
    }
    check_pair(c, &a, &b, true)?;
    let n = c.rng.range(2, 3);
    if a.0.len() <= 60 && !a.has_var() {
        let l = a.to_lib();
        let v = c.lib("Polynomial.power(i32)", || l.power(n as i32))?;
        same("Polynomial.power(i32)", &v, &a.pow(n as u64))?;
    }
    Ok(())
}

/// all pairs of polynomials over {1, x, y, x y} with coefficients -1, 0, 1
fn c01_all(c: &mut Ctx) -> Res {
    let p = |mut k: u64| {
        let mut p = RPoly::zero();
        for m in [(0, 0, 0, None), (1, 0, 0, None), (0, 1, 0, None), (1, 1, 0, None)].iter() {
            p.put(*m, bi((k % 3) as i64 - 1));
            k /= 3;
        }
        p
    };
    let (a, b) = (p(c.idx % 81), p(c.idx / 81));
    c.input(&(&a, &b));
    c.nontrivial = !a.is_zero() && !b.is_zero();
    check_pair(c, &a, &b, true)?;
    let la = a.to_lib();
    // the same object on both sides
    let v = c.lib("a - a", || &la - &la)?;
    same("a - a", &v, &RPoly::zero())?;
    let v = c.lib("a + a", || &la + &la)?;
    same("a + a", &v, &a.scale(&bi(2)))?;
    let v = c.lib("a * a", || &la * &la)?;
    same("a * a", &v, &a.mul(&a))
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "random operands (shapes in x/y/q/variables, coefficients biased to boundaries up to 1100 bits or all of one machine-word size, up to thousands of terms, operands built to cancel, exponents to the ends of 32 bits) and all pairs of tiny ones; every operator spelling compared with a reference polynomial ring; non-trivial: both operands non-zero (powers: exponent >= 2)",
        scenarios: vec![
            sc("all-tiny-pairs", 6561, 6561, c01_all).exhaustive(6561),
            sc("pairs", 180_000, 1_500_000, c01_binary),
            sc("terms", 180_000, 1_500_000, c01_terms),
            sc("divide", 180_000, 1_500_000, c01_divide),
            sc("power", 36_000, 300_000, c01_power),
            sc("power-term", 90_000, 600_000, c01_power_term),
            sc("big", 5_000, 60_000, c01_big),
            sc("large", 400, 6_000, c01_large),
        ],
    }
}

// ---------------------------------------------------------------- C02

fn canon(what: &str, p: &Polynomial) -> Result<RPoly, String> {
    let r = RPoly::from_lib(p).map_err(|e| format!("{}: the result {}", what, e))?;
    ensure!(Zero::is_zero(p) == r.is_zero(), "{}: is_zero() says {} of {}", what, Zero::is_zero(p), short(&r.text()));
    ensure!(p.has_x() == r.has_x() && p.has_y() == r.has_y() && p.has_q() == r.has_q(), "{}: has_x/has_y/has_q wrong on {}", what, short(&r.text()));
    Ok(r)
}

/// chains of operations on a growing pool, canonical form checked after each
fn c02_chain(c: &mut Ctx) -> Res {
    let s = *c.rng.pick(&[X, XY, XYQ.with_q(0, 3), Q, XYQ, QNEG, QVAR, ALL, ALLV]);
    let s = s.with_terms(5);
    let mut pool: Vec<RPoly> = vec![];
    for _ in 0..3 {
        let p = poly(&mut c.rng, &s);
        pool.push(p);
    }
    let q = related(&mut c.rng, &pool[0], &s);
    pool.push(q);
    c.input(&pool);
    let n = c.rng.usize(4, 14);
    let mut shrunk = 0;
    for step in 0..n {
        let (ra, rb) = (c.rng.pick(&pool).clone(), c.rng.pick(&pool).clone());
        let (a, b) = (ra.to_lib(), rb.to_lib());
        let mut op = c.rng.below(27);
        // operations stay in their domains
        let all = |p: &RPoly, f: &dyn Fn(&Mono) -> bool| p.0.keys().all(|m| f(m));
        let ok = match op {
            2 => all(&ra, &|m| m.3.is_none()) || all(&rb, &|m| m.3.is_none()),
            9 | 21 => all(&ra, &|m| m.3.is_none()),
            10 | 15 | 17 => all(&ra, &|m| m.0 >= 0),
            11 | 16 | 18..=20 => all(&ra, &|m| m.1 >= 0),
            23 | 24 | 25 => all(&ra, &|m| m.0 == 0 && m.1 == 0),
            _ => true,
        };
        if !ok {
            op = c.rng.below(2);
        }
        c.input(&op);
        let k = nonzero(&mut c.rng);
        let m = mono(&mut c.rng, &s);
        let t = term_lib(&m, &k);
        let e = c.rng.range(0, 3) as i32;
        let p = *c.rng.pick(&[2i64, 3, 5, 7, 11, 101]);
        let pb = bi(p);
        let (v, want): (Polynomial, Option<RPoly>) = match op {
            0 => (c.lib("+", || &a + &b)?, Some(ra.add(&rb))),
            1 => (c.lib("-", || &a - &b)?, Some(ra.sub(&rb))),
            2 => (c.lib("*", || &a * &b)?, Some(ra.mul(&rb))),
            3 => (c.lib("+=", || { let mut x = a.clone(); x += &b; x })?, Some(ra.add(&rb))),
            4 => (c.lib("-=", || { let mut x = a.clone(); x -= &b; x })?, Some(ra.sub(&rb))),
            5 => (c.lib("+= Term", || { let mut x = a.clone(); x += &t; x })?, Some(ra.add(&RPoly::term(m, k.clone())))),
            6 => {
                let big = &k * &k * bi(2) + 3;
                let u = term_lib(&(0, 0, 0, None), &big);
                (c.lib("/ Term", || &a / &u)?, Some(ra.div_term(&(0, 0, 0, None), &big)))
            }
            7 => (c.lib("%", || &a % &pb)?, Some(ra.modulo(&pb))),
            8 => (c.lib("modular_assign", || { let mut x = a.clone(); x.modular_assign(&pb); x })?, Some(ra.modulo(&pb))),
            9 => (c.lib("power_modulo", || a.power_modulo(&bi(e as i64), &pb))?, Some(ra.powmod(e as u64, &pb))),
            10 => (c.lib("derivative_x", || a.derivative_x())?, Some(ra.deriv(0))),
            11 => (c.lib("derivative_y", || a.derivative_y())?, Some(ra.deriv(1))),
            12 => (c.lib("to_frob", || a.to_frob(e))?, Some(ra.map_mono(|m| (m.0 * e as i64, m.1 * e as i64, m.2, m.3)))),
            13 => (c.lib("to_y_power", || a.to_y_power(e))?, Some(ra.map_mono(|m| (m.0, m.1 * e as i64, m.2, m.3)))),
            14 => (c.lib("to_q_power", || a.to_q_power(e))?, Some(ra.map_mono(|m| (m.0, m.1, m.2 * e as i64, m.3)))),
            15 => {
                let x = bi(c.rng.range(-2, 2));
                (c.lib("eval_x", || a.eval_x(&x))?, Some(ra.subst(0, &RPoly::constant(x.clone()))))
            }
            16 => {
                let x = bi(c.rng.range(-2, 2));
                (c.lib("eval_y", || a.eval_y(&x))?, Some(ra.subst(1, &RPoly::constant(x.clone()))))
            }
            17 => {
                let sm = poly(&mut c.rng, &s.with_terms(2).with_var(false));
                let l = sm.to_lib();
                (c.lib("eval_x_polynomial", || a.eval_x_polynomial(&l))?, Some(ra.subst(0, &sm)))
            }
            18 => {
                let sm = poly(&mut c.rng, &s.with_terms(2).with_var(false));
                let l = sm.to_lib();
                (c.lib("eval_y_polynomial", || a.eval_y_polynomial(&l))?, Some(ra.subst(1, &sm)))
            }
            19 => {
                let (x, y) = (bi(c.rng.range(-2, 2)), bi(c.rng.range(-2, 2)));
                (c.lib("reduction", || a.reduction(&x, &y))?, Some(ra.curve_reduce(&x, &y, None)))
            }
            20 => {
                let (x, y) = (bi(c.rng.range(-2, 2)), bi(c.rng.range(-2, 2)));
                (c.lib("reduction_modular", || a.reduction_modular(&x, &y, p as i32))?, Some(ra.curve_reduce(&x, &y, Some(&pb))))
            }
            22 => (c.lib("-= Term", || { let x = a.clone(); x - &t })?, Some(ra.sub(&RPoly::term(m, k.clone())))),
            23 => {
                let o = c.rng.range(-6, 8);
                (c.lib("omit_high_order_q", || { let mut x = a.clone(); x.omit_high_order_q(o as i32); x })?, Some(RPoly(ra.0.iter().filter(|(m, _)| m.2 <= o).map(|(m, v)| (*m, v.clone())).collect())))
            }
            24 => {
                let o = c.rng.range(-4, 5);
                (c.lib("to_q_power_coef", || a.to_q_power_coef(o as i32))?, Some(RPoly(ra.0.iter().filter(|(m, _)| m.2 == o).map(|(m, v)| ((0, 0, 0, m.3), v.clone())).collect())))
            }
            25 => {
                // truncated powers are defined for series without negative powers and variables
                let f = RPoly(ra.0.iter().filter(|(m, _)| m.2 >= 0 && m.3.is_none()).map(|(m, v)| (*m, v.clone())).collect());
                let l = f.to_lib();
                let o = c.rng.range(0, 9);
                let w = f.pow(e as u64);
                (c.lib("power_omit_high_order_q", || { let mut x = l.power_omit_high_order_q(e, o as i32); x.omit_high_order_q(o as i32); x })?, Some(RPoly(w.0.iter().filter(|(m, _)| m.2 <= o).map(|(m, v)| (*m, v.clone())).collect())))
            }
            26 => (c.lib("negation", || -&a)?, Some(ra.scale(&bi(-1)))),
            _ => (c.lib("power", || a.power(e))?, Some(ra.pow(e as u64))),
        };
        let r = canon(&format!("step {} op {}", step, op), &v)?;
        if let Some(w) = want {
            // two ways to the same value compare equal
            ensure!((v == w.to_lib()) == (r == w), "step {} op {}: == disagrees with algebra", step, op);
            ensure!(r == w, "step {} op {}: got {}, expected {}", step, op, short(&r.text()), short(&w.text()));
        }
        let back = c.lib("r - r", || &v - &v)?;
        ensure!(canon("r - r", &back)?.is_zero(), "r - r is not zero");
        if r.0.len() < ra.0.len() {
            shrunk += 1;
        }
        if r.0.len() < 40 && r.0.values().all(|v| v.to_str_radix(16).len() < 200) {
            pool.push(r);
        }
    }
    c.nontrivial = shrunk > 0;
    c.feat(if shrunk > 0 { "chains in which terms vanished" } else { "chains in which no term vanished" });
    c.note(|| format!("pool after {} operations: {}", n, pool.iter().map(|p| p.text()).collect::<Vec<_>>().join(" | ")));
    Ok(())
}

/// algebraic identities whose two sides must compare equal, and differences
/// that must test as zero
fn c02_identities(c: &mut Ctx) -> Res {
    let s = any_shape(&mut c.rng).with_terms(4);
    let (f, g, h) = (poly(&mut c.rng, &s), poly(&mut c.rng, &s), poly(&mut c.rng, &s));
    c.input(&(&f, &g, &h));
    c.nontrivial = !f.is_zero() && !g.is_zero();
    c.note(|| format!("f = {}, g = {}, h = {}", f.text(), g.text(), h.text()));
    let (f, g, h) = (f.to_lib(), g.to_lib(), h.to_lib());
    let z = Polynomial::new();
    let pairs = c.lib("identities", || {
        vec![
            ("(f + g) - g = f", (&f + &g) - &g, f.clone()),
            ("f (g + h) = f g + f h", &f * (&g + &h), &f * &g + &f * &h),
            ("(f + g)^2 = f^2 + 2 f g + g^2", (&f + &g).square(), f.square() + (&f * &g + &g * &f) + g.square()),
            ("f g = g f", &f * &g, &g * &f),
            ("f - f = 0", &f - &f, z.clone()),
            ("f g - g f = 0", &f * &g - &g * &f, z.clone()),
            ("f * 0 = 0", &f * &z, z.clone()),
            ("0 * f = 0", &z * &f, z.clone()),
            ("(f - f) g = 0", (&f - &f) * &g, z.clone()),
            ("f + (-f) = 0", &f + (-&f), z.clone()),
            ("f^0 = 1", f.power(0), Polynomial::one()),
            ("7 f mod 7 = 0", (&f + &f + &f + &f + &f + &f + &f).power_modulo(&bi(1), &bi(7)), z.clone()),
        ]
    })?;
    for (w, l, r) in &pairs {
        canon(w, l)?;
        canon(w, r)?;
        ensure!(l == r, "{}: the two sides compare different: {} and {}", w, short(&l.to_string()), short(&r.to_string()));
    }
    Ok(())
}

/// sums and products of many terms, most of which meet
fn c02_large(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let f = large(r, 140);
    let g = match r.below(3) {
        0 => large(r, 140),
        1 => related(r, &f, &XYQ),
        _ => f.neg().add(&poly(r, &XYQ)),
    };
    c.input(&(&f, &g));
    c.nontrivial = f.add(&g).0.len() < f.0.len() + g.0.len();
    c.note(|| format!("f = {}, g = {}", f.text(), g.text()));
    let (l, k) = (f.to_lib(), g.to_lib());
    let v = c.lib("f + g", || &l + &k)?;
    ensure!(canon("f + g", &v)? == f.add(&g), "f + g is {}", short(&v.to_string()));
    let v = c.lib("f - g", || &l - &k)?;
    ensure!(canon("f - g", &v)? == f.sub(&g), "f - g is {}", short(&v.to_string()));
    let v = c.lib("(f - g)(f + g) - f f + g g", || (&l - &k) * (&l + &k) - &l * &l + &k * &k)?;
    ensure!(canon("(f - g)(f + g) - f f + g g", &v)?.is_zero(), "(f - g)(f + g) is not f f - g g");
    let m = bi(*c.rng.pick(&[2i64, 3, 6, 101]));
    let v = c.lib("f % m", || &l % &m)?;
    ensure!(canon("f % m", &v)? == f.modulo(&m), "f mod {} is {}", m, short(&v.to_string()));
    for x in [-1i64, 0, 1].iter() {
        if f.0.keys().all(|m| m.0 >= 0) {
            let v = c.lib("eval_x", || l.eval_x(&bi(*x)))?;
            ensure!(canon("eval_x", &v)? == f.subst(0, &RPoly::constant(bi(*x))), "f at x = {} is {}", x, short(&v.to_string()));
        }
    }
    Ok(())
}

/// structured producers with coefficients that vanish
fn c02_producers(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (a, b) = (bi(*r.pick(&[0i64, 0, 1, -1, 2, -3, 5])), bi(*r.pick(&[0i64, 0, 1, -1, 2, 7])));
    let n = r.range(0, 7) as i32;
    let o = r.range(0, 12) as i32;
    c.input(&(&a, &b, n, o));
    c.nontrivial = true;
    c.note(|| format!("a = {}, b = {}, n = {}, order = {}", a, b, n, o));
    let v = c.lib("psi", || dp::psi(&a, &b, n))?;
    canon("psi", &v)?;
    let v = c.lib("phi", || dp::phi(&a, &b, n.max(1)))?;
    canon("phi", &v)?;
    let v = c.lib("omega", || dp::omega(&a, &b, n.max(1)))?;
    canon("omega", &v)?;
    let v = c.lib("delta1", || delta::delta1(o))?;
    canon("delta1", &v)?;
    let v = c.lib("delta1_inverse", || delta::delta1_inverse(o))?;
    canon("delta1_inverse", &v)?;
    let v = c.lib("eisenstein4", || eisenstein::eisenstein4(o))?;
    canon("eisenstein4", &v)?;
    let v = c.lib("j_invariant1", || j_invariant::j_invariant1(o))?;
    canon("j_invariant1", &v)?;
    let v = c.lib("j_invariant", || j_invariant::j_invariant(o))?;
    canon("j_invariant", &v)?;
    for p in [2i32, 3].iter() {
        let l = c.lib("modular list", || modular_polynomial::subscripted_variable_modular_polynomial_list(*p))?;
        for e in &l {
            canon("modular list", e)?;
        }
        let v = c.lib("modular_polynomial", || modular_polynomial::modular_polynomial(*p))?;
        // the constant term of the third one is zero and must not be kept
        canon("modular_polynomial", &v)?;
    }
    Ok(())
}

/// gcd and remainder over F_p with operands that vanish or lose terms mod p
fn c02_modular(c: &mut Ctx) -> Res {
    let p = *c.rng.pick(&[2i64, 3, 5, 7, 11, 13, 101]);
    let pb = bi(p);
    let s = X.with_terms(5);
    let mk = |c: &mut Ctx| {
        let mut f = poly(&mut c.rng, &s);
        let g = poly(&mut c.rng, &s);
        f = f.add(&g.scale(&bi(p)));
        f
    };
    let (f, g, h) = (mk(c), mk(c), mk(c));
    let (f, g) = (f.mul(&h), g.mul(&h));
    c.input(&(&f, &g, p));
    c.nontrivial = !f.modulo(&pb).is_zero() && !g.modulo(&pb).is_zero();
    c.note(|| format!("f = {}, g = {}, p = {}", f.text(), g.text(), p));
    let (lf, lg) = (f.to_lib(), g.to_lib());
    let v = c.lib("gcd", || lf.gcd(&lg, &pb))?;
    canon("gcd", &v)?;
    let v = c.lib("to_monic", || lf.to_monic(&pb))?;
    canon("to_monic", &v)?;
    if !g.modulo(&pb).is_zero() {
        let v = c.lib("polynomial_modular", || lf.polynomial_modular(&lg, &pb))?;
        canon("polynomial_modular", &v)?;
        let v = c.lib("f g mod g", || (&lf * &lg).polynomial_modular(&lg, &pb))?;
        ensure!(canon("f g mod g", &v)?.is_zero(), "f g mod g is not zero");
    }
    let v = c.lib("power_omit", || {
        let u = lf.eval_x_polynomial(&RPoly::term((0, 0, 1, None), bi(1)).to_lib());
        u.power_omit_high_order_q(3, 6)
    })?;
    canon("power_omit_high_order_q", &v)?;
    let d = v.to_q_power_coef(2);
    canon("to_q_power_coef", &d)?;
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "random chains of 4-14 library operations (27 kinds, negative powers and variables included) over a pool of polynomials, identities, and structured producers; every result is walked for terms with coefficient zero and compared with its algebraic value by the library's own == and is_zero; non-trivial: a term vanished on the way",
        scenarios: vec![
            sc("chain", 240_000, 1_200_000, c02_chain),
            sc("identities", 96_000, 200_000, c02_identities),
            sc("large", 200, 6_000, c02_large),
            sc("producers", 900, 4_000, c02_producers),
            sc("modular", 40_000, 400_000, c02_modular),
        ],
    }
}
