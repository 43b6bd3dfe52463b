use crate::ensure;
use crate::fp;
use crate::gen::*;
use crate::model::*;
use crate::rt::*;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use ellipticcurve::polynomial::Polynomial;
use num_bigint::BigInt;
use num_traits::{One, Zero};
use std::cmp::Ordering;
use std::collections::HashSet;

// ---------------------------------------------------------------- C03

fn text_shape(c: &mut Ctx) -> Shape {
    match c.rng.below(3) {
        0 => ALLV,
        1 => Shape { x: (-30, 120), y: (-12, 12), q: (-100, 30), var: true, terms: 9 },
        _ => any_shape(&mut c.rng),
    }
}

fn c03_poly(c: &mut Ctx) -> Res {
    let s = text_shape(c);
    let p = if c.rng.one_in(800) {
        let n = c.rng.usize(60, 1500);
        many(&mut c.rng, &Shape { x: (-9, 60), y: (-9, 20), q: (-20, 20), var: true, terms: 1 }, n)
    } else {
        poly(&mut c.rng, &s)
    };
    c.input(&p);
    c.nontrivial = p.0.len() >= 2;
    c.note(|| p.text());
    let l = p.to_lib();
    let t = c.lib("Polynomial.to_string", || l.to_string())?;
    let back = parse(&t).map_err(|e| format!("text {:?} of {} cannot be read: {}", short(&t), short(&p.text()), e))?;
    ensure!(back == p, "text {:?} reads as {} but the polynomial is {}", short(&t), short(&back.text()), short(&p.text()));
    ensure!(t == p.text(), "text {:?} should be {:?}", short(&t), short(&p.text()));
    let t2 = c.lib("format!", || format!("{}", l))?;
    ensure!(t2 == t, "format! and to_string differ");
    Ok(())
}

/// every combination of coefficient class, powers and variable
fn c03_terms(c: &mut Ctx) -> Res {
    let mut k = c.idx;
    let mut take = |n: u64| {
        let v = k % n;
        k /= n;
        v as usize
    };
    let co = [1i64, -1, 2, -2, 10, -11, 1000000, i64::MIN][take(8)];
    let e = [0i64, 1, -1, 2, -2, 13];
    let m = (e[take(6)], e[take(6)], e[take(6)], [None, Some((0, 0)), Some((1, 2)), Some((19, 21))][take(4)]);
    let cm = BigInt::from(co);
    c.input(&(m, &cm));
    c.nontrivial = true;
    c.note(|| term_text(&m, &cm));
    let t = term_lib(&m, &cm);
    let s = c.lib("Term.to_string", || t.to_string())?;
    ensure!(s == term_text(&m, &cm), "term prints {:?}, should be {:?}", s, term_text(&m, &cm));
    let p = RPoly::term(m, cm.clone());
    let l = p.to_lib();
    let s = c.lib("one-term Polynomial.to_string", || l.to_string())?;
    ensure!(s == p.text(), "polynomial prints {:?}, should be {:?}", s, p.text());
    // in the middle and at the end of a polynomial
    let mut p = p;
    p.put((50, 0, 0, None), bi(3));
    p.put((-50, 0, 0, None), bi(-1));
    let l = p.to_lib();
    let s = c.lib("Polynomial.to_string", || l.to_string())?;
    ensure!(s == p.text(), "polynomial prints {:?}, should be {:?}", s, p.text());
    if m == (0, 0, 0, None) {
        let z = term_lib(&m, &bi(0));
        let s = c.lib("Term.to_string of zero", || z.to_string())?;
        ensure!(s == "0", "zero prints {:?}", s);
    }
    let v = var_lib(m.3);
    let s = c.lib("SubscriptedVariable.to_string", || v.to_string())?;
    let want = m.3.map_or(String::new(), |(i, j)| format!("c_{}_{}", i, j));
    ensure!(s == want, "variable prints {:?}, should be {:?}", s, want);
    Ok(())
}

fn c03_values(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (x, y) = (int(r), int(r));
    let p = if r.one_in(150) { *r.pick(&[101u64, 211, 307, 401]) } else { *r.pick(&[5u64, 7, 11, 13, 17, 19, 23, 29, 31]) };
    let (a, b) = (r.range(0, p as i64 - 1), r.range(0, p as i64 - 1));
    let s = fp::Small::new(a, b, p);
    // the equation is printed with the coefficients it was given
    let (a, b) = if r.one_in(6) { (a - p as i64 * r.range(-2, 2), b - p as i64 * r.range(-2, 2)) } else { (a, b) };
    c.input(&(&x, &y, &s));
    c.note(|| format!("point ({}, {}), curve {:?}", x, y, s));
    let pt = ECPoint::new(&x, &y, &bi(1));
    let t = c.lib("ECPoint.to_string", || pt.to_string())?;
    ensure!(t == format!("({}, {})", x, y), "point prints {:?}", t);
    let o = ECPoint::new(&x, &y, &bi(0));
    let t = c.lib("ECPoint.to_string", || (o.to_string(), ECPoint::infinity().to_string()))?;
    ensure!(t.0 == "O" && t.1 == "O", "O prints {:?}", t);
    if s.nonsingular() {
        c.nontrivial = true;
        let ec = c.lib("EllipticCurve::new", || EllipticCurve::new(&bi(a), &bi(b), &BigInt::from(p)))?;
        let t = c.lib("EllipticCurve.to_string", || ec.to_string())?;
        let mut f = RPoly::term((3, 0, 0, None), bi(1));
        f.put((1, 0, 0, None), bi(a));
        f.put((0, 0, 0, None), bi(b));
        let want = format!("F_{}: y^2 = {}, cardinality:{}, j:{}", p, f.text(), s.points().len(), s.j());
        ensure!(t == want, "curve prints {:?}, should be {:?}", t, want);
        let n = if c.rng.one_in(3) || p > 100 { s.points().len() as i64 * c.rng.range(1, 3) } else { c.rng.range(0, 12) };
        let t = c.lib("ECPointVec.to_string", || ec.division_points(&bi(n)).to_string())?;
        let want: Vec<String> = s.points().into_iter().filter(|q| s.mul(*q, n).is_none())
            .map(|q| q.map_or("O".into(), |(x, y)| format!("({}, {})", x, y))).collect();
        ensure!(t == want.join(", "), "point list for {} prints {:?}, should be {:?}", n, t, want.join(", "));
        c.feat("curves and point lists printed");
        if want.len() > 100 {
            c.feat("lists of more than a hundred points");
        }
    }
    Ok(())
}

fn c03_distinct(c: &mut Ctx) -> Res {
    // near misses: two polynomials that differ in one place
    let s = text_shape(c);
    let p = nonzero_poly(&mut c.rng, &s);
    let mut q = p.clone();
    let (m, k) = p.0.iter().nth(c.rng.usize(0, p.0.len() - 1)).map(|(m, k)| (*m, k.clone())).unwrap();
    match c.rng.below(6) {
        0 => q.put(m, -k.clone() * 2),
        1 => q.put(m, bi(1)),
        2 => {
            q.0.remove(&m);
            q.put((m.1, m.0, m.2, m.3), k.clone());
        }
        3 => {
            q.0.remove(&m);
            q.put((m.0, m.2, m.1, m.3), k.clone());
        }
        4 => {
            q.0.remove(&m);
            q.put((-m.0, m.1, m.2, m.3), k.clone());
        }
        _ => {
            q.0.remove(&m);
            q.put((m.0, m.1, m.2, Some((1, 2))), k.clone());
        }
    }
    c.input(&(&p, &q));
    if p == q {
        return Ok(());
    }
    c.nontrivial = true;
    c.note(|| format!("{} | {}", p.text(), q.text()));
    let (a, b) = (p.to_lib(), q.to_lib());
    let (s, t) = c.lib("to_string", || (a.to_string(), b.to_string()))?;
    ensure!(s != t, "different polynomials {} and {} both print {:?}", short(&p.text()), short(&q.text()), short(&s));
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "random polynomials, all combinations of 8 coefficients x 6^3 powers x 4 variables as terms, points, curves; the text is compared with an independent renderer and read back by an independent parser; non-trivial: two terms or more, or a printed curve",
        scenarios: vec![
            sc("all-terms", 6912, 6912, c03_terms).exhaustive(6912),
            sc("polynomials", 500_000, 4_000_000, c03_poly),
            sc("values", 12_000, 96_000, c03_values),
            sc("near-misses", 300_000, 2_400_000, c03_distinct),
        ],
    }
}

// ---------------------------------------------------------------- C15

fn c15_primes() -> Vec<u64> {
    fp::primes_upto(47)
}

fn c15_numbering(c: &mut Ctx) -> Res {
    let p = c15_primes()[c.idx as usize];
    c.input(&p);
    c.nontrivial = true;
    c.note(|| format!("p = {}", p));
    let conv = c.lib("SubscriptedVariableConverter::new", || SubscriptedVariableConverter::new(p as i32))?;
    let n = c.lib("count", || conv.count())?;
    ensure!(n == (p + 1) * (p + 2) / 2, "p = {}: count {} should be {}", p, n, (p + 1) * (p + 2) / 2);
    let mut want = vec![];
    for i in 0..=p as i32 {
        for j in i + 1..=p as i32 {
            want.push((i, j));
        }
    }
    for i in 0..=p as i32 {
        want.push((i, i));
    }
    let mut seen = HashSet::new();
    for (k, w) in want.iter().enumerate() {
        let v = c.lib("variable_from_index", || conv.variable_from_index(k as u64))?;
        ensure!(var_ref(&v) == Some(*w), "p = {}: variable {} is {:?}, should be {:?}", p, k, var_ref(&v), w);
        ensure!(seen.insert(var_ref(&v)), "p = {}: variable {:?} numbered twice", p, w);
        let b = c.lib("index_from_variable", || conv.index_from_variable(v))?;
        ensure!(b == Some(k as u64), "p = {}: index of {:?} is {:?}, should be {}", p, w, b, k);
    }
    let none = c.lib("index_from_variable", || (conv.index_from_variable(SubscriptedVariable::new()), conv.index_from_variable(SubscriptedVariable { i: 1, j: 1, empty: true })))?;
    ensure!(none == (None, None), "the absent variable has a number: {:?}", none);
    Ok(())
}

/// numberings too large to walk: the count, the corners, random places
fn c15_large(c: &mut Ctx) -> Res {
    let ps = [53u64, 127, 131, 251, 257, 509, 521, 1021, 1031, 2039, 2053, 4093, 4099, 16381, 16411, 32749, 32771, 46337, 46349, 65521, 65537];
    let p = ps[c.idx as usize % ps.len()];
    c.input(&(p, c.idx));
    c.nontrivial = true;
    c.note(|| format!("p = {}", p));
    let conv = c.lib("SubscriptedVariableConverter::new", || SubscriptedVariableConverter::new(p as i32))?;
    let n = c.lib("count", || conv.count())?;
    ensure!(n == (p + 1) * (p + 2) / 2, "p = {}: count {} should be {}", p, n, (p + 1) * (p + 2) / 2);
    let number = |i: u64, j: u64| if i == j { p * (p + 1) / 2 + i } else { i * p - i * (i + 1) / 2 + j - 1 };
    if p > 1100 && p < 5000 || c.idx < ps.len() as u64 && p > 60_000 {
        // ends of rows, where a closed formula is most delicate
        for _ in 0..if p < 5000 { 160 } else { 6 } {
            let r = &mut c.rng;
            let i = if p < 5000 { r.below(p) } else { r.below(600) };
            let j = if r.one_in(2) { i + 1 + r.below(3) } else { p - r.below(3) }.min(p).max(i + 1);
            let k = number(i, j);
            let v = c.lib("variable_from_index", || conv.variable_from_index(k))?;
            ensure!(var_ref(&v) == Some((i as i32, j as i32)), "p = {}: variable {} is {:?}, should be c_{}_{}", p, k, var_ref(&v), i, j);
            let b = c.lib("index_from_variable", || conv.index_from_variable(v))?;
            ensure!(b == Some(k), "p = {}: index of c_{}_{} is {:?}, should be {}", p, i, j, b, k);
            c.feat("ends of rows in large numberings");
        }
    }
    // a walk to far places costs time in proportion to the number
    if p > 1100 && !(p < 5000 && c.idx as usize >= ps.len()) {
        return Ok(());
    }
    for t in 0..8 {
        let r = &mut c.rng;
        let (i, j) = match t {
            0 => (0, p),
            1 => (p - 1, p),
            2 => (p, p),
            3 => (0, 0),
            _ => {
                let (i, j) = (r.below(p + 1), r.below(p + 1));
                (i.min(j), i.max(j))
            }
        };
        let k = number(i, j);
        let v = c.lib("variable_from_index", || conv.variable_from_index(k))?;
        ensure!(var_ref(&v) == Some((i as i32, j as i32)), "p = {}: variable {} is {:?}, should be c_{}_{}", p, k, var_ref(&v), i, j);
        let b = c.lib("index_from_variable", || conv.index_from_variable(v))?;
        ensure!(b == Some(k), "p = {}: index of c_{}_{} is {:?}, should be {}", p, i, j, b, k);
        c.feat("places in large numberings");
    }
    Ok(())
}

fn c15_order(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mk = |r: &mut crate::rng::Rng| -> SubscriptedVariable {
        let (i, j) = match r.below(3) {
            0 => (r.range(0, 2) as i32, r.range(0, 2) as i32),
            1 => (r.range(-2, 2) as i32, r.range(-2, 2) as i32),
            _ => (*r.pick(&[0, 1, 255, 256, 65535, 65536, i32::MAX, i32::MAX - 1]), *r.pick(&[0, 1, 255, 256, 65535, 65536, i32::MAX, i32::MIN])),
        };
        SubscriptedVariable { i, j, empty: r.one_in(4) }
    };
    let (u, v, w) = (mk(r), mk(r), mk(r));
    let k = |a: &SubscriptedVariable| if a.empty { None } else { Some((a.i, a.j)) };
    c.input(&(k(&u), k(&v), k(&w)));
    c.nontrivial = k(&u) != k(&v);
    c.note(|| format!("{:?} {:?} {:?}", u, v, w));
    for (a, b) in [(u, v), (v, w), (u, w), (u, u)].iter() {
        let want = k(a).cmp(&k(b));
        let got = c.lib("compare", || (a.cmp(b), a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b))?;
        let exp = (want, Some(want), want == Ordering::Equal, want != Ordering::Equal, want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less);
        ensure!(got == exp, "{:?} against {:?}: {:?}, should be {:?}", a, b, got, exp);
    }
    let e = c.lib("defaults", || (SubscriptedVariable::new(), SubscriptedVariable::default()))?;
    ensure!(e.0.empty && e.1.empty, "a fresh variable is not absent");
    Ok(())
}

pub fn c15() -> Prop {
    let n = c15_primes().len() as u64;
    Prop {
        id: "C15",
        rule: "for every prime up to 47 all variables and numbers in both directions; random variables compared pairwise; non-trivial: a whole numbering, or two different variables",
        scenarios: vec![
            sc("numbering", n, n, c15_numbering).exhaustive(n),
            sc("large", 21, 120, c15_large).cpu(400),
            sc("order", 400_000, 3_200_000, c15_order),
        ],
    }
}

// ---------------------------------------------------------------- C29

fn edge_mono(r: &mut crate::rng::Rng) -> Mono {
    let e = |r: &mut crate::rng::Rng| match r.below(3) {
        0 => r.range(-1, 1),
        1 => r.range(-40, 40),
        _ => *r.pick(&[0i64, 1, -1, 127, 128, 255, 256, 32767, 65536, i32::MAX as i64, i32::MIN as i64, -32769]),
    };
    let v = var(r);
    (e(r), e(r), e(r), v)
}

fn c29_order(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = edge_mono(r);
    let mut n = edge_mono(r);
    // agree on a prefix
    match r.below(5) {
        0 => n.0 = m.0,
        1 => { n.0 = m.0; n.1 = m.1 }
        2 => { n.0 = m.0; n.1 = m.1; n.2 = m.2 }
        3 => n = m,
        _ => {}
    }
    let (cm, cn) = (int(r), if r.one_in(3) { bi(1) } else { int(r) });
    c.input(&(m, n, &cm, &cn));
    c.nontrivial = m != n;
    c.note(|| format!("{:?} {:?}", m, n));
    let want = m.cmp(&n);
    let (a, b) = (mono_lib(&m), mono_lib(&n));
    let got = c.lib("Monomial compare", || (a.cmp(&b), a.partial_cmp(&b), a == b, a < b, a <= b, a > b, a >= b))?;
    let exp = (want, Some(want), want == Ordering::Equal, want == Ordering::Less, want != Ordering::Greater, want == Ordering::Greater, want != Ordering::Less);
    ensure!(got == exp, "monomials {:?} and {:?}: {:?}, should be {:?}", m, n, got, exp);
    let (t, u) = (term_lib(&m, &cm), term_lib(&n, &cn));
    let got = c.lib("Term compare", || (t.cmp(&u), t.partial_cmp(&u), t < u, t > u))?;
    let exp = (want, Some(want), want == Ordering::Less, want == Ordering::Greater);
    ensure!(got == exp, "terms {:?} and {:?}: {:?}, should be {:?}", m, n, got, exp);
    let eq = c.lib("Term ==", || t == u)?;
    ensure!(eq == (m == n && cm == cn), "terms {} {:?} and {} {:?}: == says {}", cm, m, cn, n, eq);
    let eq = c.lib("is_equal_order", || t.is_equal_order(&u))?;
    ensure!(eq == ((m.0, m.1, m.2) == (n.0, n.1, n.2)), "is_equal_order of {:?} and {:?} says {}", m, n, eq);
    let h = c.lib("Term queries", || (t.has_x(), t.has_y(), t.has_q(), t.xpow() as i64, t.ypow() as i64, t.qpow() as i64, var_ref(&t.variable())))?;
    ensure!(h == (m.0 != 0, m.1 != 0, m.2 != 0, m.0, m.1, m.2, m.3), "queries of {:?}: {:?}", m, h);
    Ok(())
}

fn c29_leading(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = if r.one_in(2) { ALLV } else { any_shape(r).with_var(r.one_in(4)) };
    let p = if r.one_in(500) {
        let n = r.usize(60, 3000);
        let t = match r.below(3) { 0 => s, 1 => X.with_x(-500, 5000), _ => Shape { x: (-9, 60), y: (-9, 20), q: (-20, 20), var: true, terms: 1 } };
        many(r, &t, n)
    } else {
        poly(r, &s)
    };
    let p = if r.one_in(5) {
        let p = if r.one_in(2) { poly(r, &X.with_x(-9, 9).with_var(true)) } else { p };
        far(r, &p, (31, 31, 31))
    } else {
        p
    };
    c.input(&p);
    c.nontrivial = p.0.len() >= 2;
    c.note(|| p.text());
    let l = p.to_lib();
    let h = c.lib("highest_term_x", || l.highest_term_x())?;
    match p.0.iter().next_back() {
        None => same_term("leading term of zero", &h, &(0, 0, 0, None), &bi(0))?,
        Some((m, k)) => same_term("leading term", &h, m, k)?,
    }
    let q = c.lib("has", || (l.has_x(), l.has_y(), l.has_q(), Zero::is_zero(&l)))?;
    ensure!(q == (p.has_x(), p.has_y(), p.has_q(), p.is_zero()), "has_x, has_y, has_q, is_zero of {}: {:?}", p.text(), q);
    if !p.has_y() && !p.has_q() {
        let d = c.lib("degree_x", || l.degree_x())?;
        let want = p.0.keys().map(|m| m.0).max().unwrap_or(0);
        ensure!(d as i64 == want, "degree_x of {}: {}, should be {}", p.text(), d, want);
        c.feat("x-degrees");
    }
    // the library's own order of the stored terms
    let got: Vec<Mono> = l.terms.keys().map(mono_ref).collect();
    let want: Vec<Mono> = p.0.keys().cloned().collect();
    ensure!(got == want, "the stored terms come in the order {:?}, should be {:?}", got, want);
    let mut ms: Vec<Monomial> = want.iter().map(mono_lib).collect();
    c.rng.shuffle(&mut ms);
    let mut ts: Vec<Term> = ms.iter().map(|m| Term { coef: bi(1), monomial: *m }).collect();
    c.lib("sort", || {
        ms.sort();
        ts.sort();
    })?;
    ensure!(ms.iter().map(mono_ref).collect::<Vec<_>>() == want, "sorted monomials {:?}", ms);
    ensure!(ts.iter().map(|t| mono_ref(&t.monomial)).collect::<Vec<_>>() == want, "sorted terms {:?}", ts);
    let one = c.lib("is_one", || One::is_one(&l))?;
    ensure!(one == (p == RPoly::one()), "is_one of {} says {}", p.text(), one);
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "random pairs of monomials/terms agreeing on prefixes with powers at the 8, 16 and 32 bit boundaries, random polynomials; non-trivial: different monomials, or two terms or more",
        scenarios: vec![
            sc("order", 1_500_000, 12_000_000, c29_order),
            sc("leading", 600_000, 4_800_000, c29_leading),
        ],
    }
}

// ---------------------------------------------------------------- C32

fn c32_build(c: &mut Ctx) -> Res {
    let mut b = c.lib("TermBuilder::new", TermBuilder::new)?;
    let mut want: (Mono, BigInt) = ((0, 0, 0, None), bi(1));
    let n = c.rng.usize(0, 14);
    let mut log = vec![];
    let mut built: Vec<(Term, (Mono, BigInt))> = vec![];
    for _ in 0..n {
        let op = c.rng.below(10);
        c.input(&op);
        let e = match c.rng.below(3) {
            0 => c.rng.range(-3, 3) as i32,
            1 => *c.rng.pick(&[i32::MAX, i32::MIN, 0, 1, -1, 255, 65536]),
            _ => c.rng.range(-1000, 1000) as i32,
        };
        c.input(&e);
        let k = int(&mut c.rng);
        match op {
            0 => {
                c.lib("coef(i32)", || { b.coef(e); })?;
                want.1 = BigInt::from(e);
                log.push(format!("coef({}i32)", e));
            }
            1 => {
                c.lib("coef(&BigInt)", || { b.coef(&k); })?;
                want.1 = k.clone();
                log.push(format!("coef(&{})", k));
            }
            2 => {
                c.lib("coef(BigInt)", || { b.coef(k.clone()); })?;
                want.1 = k.clone();
                log.push(format!("coef({})", k));
            }
            3 => {
                c.lib("xpow", || { b.xpow(e); })?;
                want.0 .0 = e as i64;
                log.push(format!("xpow({})", e));
            }
            4 => {
                c.lib("ypow", || { b.ypow(e); })?;
                want.0 .1 = e as i64;
                log.push(format!("ypow({})", e));
            }
            5 => {
                c.lib("qpow", || { b.qpow(e); })?;
                want.0 .2 = e as i64;
                log.push(format!("qpow({})", e));
            }
            6 => {
                let v = var(&mut c.rng);
                let l = var_lib(v);
                c.lib("variable", || { b.variable(l); })?;
                want.0 .3 = v;
                log.push(format!("variable({:?})", v));
            }
            7 => {
                let (i, j) = if c.rng.one_in(4) { (c.rng.range(0, i32::MAX as i64) as i32, c.rng.range(0, i32::MAX as i64) as i32) } else { (c.rng.range(0, 9) as i32, c.rng.range(0, 9) as i32) };
                c.lib("variable_ij", || { b.variable_ij(i, j); })?;
                want.0 .3 = Some((i, j));
                log.push(format!("variable_ij({}, {})", i, j));
            }
            8 => {
                let t = c.lib("build", || b.build())?;
                built.push((t, want.clone()));
                log.push("build".into());
            }
            _ => {
                // a chain ending in build, and a copy of the builder
                let t = c.lib("chained build", || b.xpow(e).qpow(2).build())?;
                want.0 .0 = e as i64;
                want.0 .2 = 2;
                built.push((t, want.clone()));
                let d = c.lib("clone", || b.clone())?;
                let t = c.lib("build of the copy", || d.build())?;
                built.push((t, want.clone()));
                log.push(format!("xpow({}).qpow(2).build", e));
            }
        }
    }
    let t = c.lib("build", || b.build())?;
    built.push((t, want));
    c.nontrivial = n >= 3;
    c.note(|| log.join(", "));
    for (t, (m, k)) in &built {
        same_term("built term", t, m, k).map_err(|e| format!("{} after {}", e, log.join(", ")))?;
        let acc = c.lib("accessors", || (t.xpow() as i64, t.ypow() as i64, t.qpow() as i64, var_ref(&t.variable())))?;
        ensure!(acc == *m, "accessors of {:?}: {:?}", m, acc);
        let p = c.lib("to_pol", || t.to_pol())?;
        same("to_pol", &p, &RPoly::term(*m, k.clone()))?;
        let u = c.lib("Term::from", || Term::from(&t.monomial, &t.coef))?;
        same_term("Term::from", &u, m, k)?;
        let (y, z) = (term_lib(m, k), t.clone());
        ensure!(c.lib("Term ==", || y == z)?, "the built term does not compare equal to {} {:?}", k, m);
    }
    Ok(())
}

fn c32_consts(c: &mut Ctx) -> Res {
    c.nontrivial = true;
    c.input(&0);
    let t = c.lib("Term::new", Term::new)?;
    same_term("Term::new", &t, &(0, 0, 0, None), &bi(0))?;
    let t: Term = c.lib("Term::default", Default::default)?;
    same_term("Term::default", &t, &(0, 0, 0, None), &bi(0))?;
    let t: Term = c.lib("Term::one", One::one)?;
    same_term("Term::one", &t, &(0, 0, 0, None), &bi(1))?;
    let p: Polynomial = c.lib("Polynomial::one", One::one)?;
    same("Polynomial::one", &p, &RPoly::one())?;
    let p: Polynomial = c.lib("Polynomial::zero", Zero::zero)?;
    same("Polynomial::zero", &p, &RPoly::zero())?;
    let p = c.lib("Polynomial::new", Polynomial::new)?;
    same("Polynomial::new", &p, &RPoly::zero())?;
    let m: Monomial = c.lib("Monomial::default", Default::default)?;
    ensure!(mono_ref(&m) == (0, 0, 0, None), "default monomial {:?}", m);
    let b: TermBuilder = c.lib("TermBuilder::new", TermBuilder::new)?;
    let t = c.lib("build", || b.build())?;
    same_term("fresh builder", &t, &(0, 0, 0, None), &bi(1))?;
    Ok(())
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "random sequences of up to 14 builder calls with builds in between; every built term is compared with a record of the last values set; non-trivial: three calls or more",
        scenarios: vec![
            sc("constants", 1, 1, c32_consts).exhaustive(1),
            sc("sequences", 800_000, 6_400_000, c32_build),
        ],
    }
}
