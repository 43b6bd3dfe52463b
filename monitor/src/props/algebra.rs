use crate::ensure;
use crate::fp;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use ellipticcurve::bigint::Power;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};

fn modulus(r: &mut Rng) -> BigInt {
    match r.below(6) {
        0 | 1 => bi(r.range(2, 13)),
        2 => bi(r.range(2, 5000)),
        3 => bi(*r.pick(&[2147483647, 2147483646, 65536, 4294967296, 4294967295, 1i64 << 62])),
        4 => fp::any_prime(r, 2),
        _ => {
            let k = r.usize(2, 200);
            bits(r, k) + 2
        }
    }
}
/// coefficients around multiples of m
fn bend(r: &mut Rng, p: &RPoly, m: &BigInt) -> RPoly {
    let mut o = RPoly::zero();
    for (k, c) in &p.0 {
        let d = match r.below(5) {
            0 => m * bi(r.range(-3, 3)),
            1 => m * bi(r.range(-3, 3)) + r.range(-1, 1),
            2 => c + m * bi(r.range(-5, 5)),
            _ => c.clone(),
        };
        o.put(*k, d);
    }
    o
}

// ---------------------------------------------------------------- C04

fn c04_reduce(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = modulus(r);
    let s = any_shape(r).with_var(r.one_in(3));
    let p = poly(r, &s);
    let p = if r.one_in(12) { far(r, &p, (31, 31, 31)) } else { p };
    let p = bend(r, &p, &m);
    let want = p.modulo(&m);
    c.input(&(&p, &m));
    c.nontrivial = want != p;
    c.note(|| format!("{} mod {}", p.text(), m));
    if want.0.len() < p.0.len() {
        c.feat("reductions in which a term vanished");
    }
    let l = p.to_lib();
    let v = c.lib("&Polynomial % &BigInt", || &l % &m)?;
    same("&Polynomial % &BigInt", &v, &want)?;
    let v = c.lib("Polynomial.modular_assign", || { let mut x = l.clone(); x.modular_assign(&m); x })?;
    same("Polynomial.modular_assign", &v, &want)?;
    if m < bi(1 << 31) {
        let n: i32 = m.to_str_radix(10).parse().unwrap();
        let v = c.lib("&Polynomial % i32", || &l % n)?;
        same("&Polynomial % i32", &v, &want)?;
    }
    same("operand afterwards", &l, &p)?;
    for (k, d) in p.0.iter().take(3) {
        let t = term_lib(k, d);
        let w = d.mod_floor(&m);
        let v = c.lib("Term.modulo", || t.modulo(&m))?;
        same_term("Term.modulo", &v, k, &w)?;
        let v = c.lib("Term.modular_assign", || { let mut x = t.clone(); x.modular_assign(&m); x })?;
        same_term("Term.modular_assign", &v, k, &w)?;
    }
    Ok(())
}

fn c04_power(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = modulus(r);
    let s = any_shape(r).with_terms(4);
    let p = poly(r, &s);
    let p = if r.one_in(12) { far(r, &p, (16, 16, 16)) } else { p };
    let p = bend(r, &p, &m);
    let n = match p.0.len() {
        0 | 1 => r.range(0, 5000),
        2 => if r.one_in(8) { r.range(60, 140) } else { r.range(0, 60) },
        _ => if r.one_in(12) { r.range(12, 20) } else { r.range(0, 12) },
    } as u64;
    let want = p.powmod(n, &m);
    c.input(&(&p, &m, n));
    c.nontrivial = n >= 2 && !p.is_zero();
    c.note(|| format!("({})^{} mod {}", p.text(), n, m));
    let l = p.to_lib();
    let v = c.lib("Polynomial.power_modulo", || l.power_modulo(&bi(n as i64), &m))?;
    same("Polynomial.power_modulo", &v, &want)?;
    c.feat(match n { 0 => "exponent 0", 1 => "exponent 1", _ => "exponent 2 or more" });
    if n <= 8 {
        // the n-th power, reduced afterwards
        let w = p.pow(n).modulo(&m);
        ensure!(w == want, "reference disagrees with itself");
        let v = c.lib("power, then %", || &l.power(n as i32) % &m)?;
        same("power, then %", &v, &want)?;
    }
    // exponents of any size where no power of a variable grows
    let (k0, e0) = (int(&mut c.rng), if c.rng.one_in(2) { let k = c.rng.usize(1, 300); bits(&mut c.rng, k) } else { bi(c.rng.range(0, 1 << 33)) });
    let l = RPoly::constant(k0.clone()).to_lib();
    let v = c.lib("Polynomial.power_modulo of a constant", || l.power_modulo(&e0, &m))?;
    same(&format!("{}^{} mod {} as a polynomial", k0, e0, m), &v, &RPoly::constant(fp::powm(&k0, &e0, &m)))?;
    let k = if c.rng.one_in(8) { (0, 0, 0, None) } else { mono(&mut c.rng, &ALL) };
    let d = int(&mut c.rng);
    let n = if k == (0, 0, 0, None) { c.rng.range(0, i32::MAX as i64) } else { c.rng.range(0, 100000) };
    let t = term_lib(&k, &d);
    let v = c.lib("Term.power_modulo", || t.power_modulo(&bi(n), &m))?;
    same_term("Term.power_modulo", &v, &(k.0 * n, k.1 * n, k.2 * n, None), &fp::powm(&d, &bi(n), &m))
}

fn c04_large(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = modulus(r);
    let p = if r.one_in(12) { large(r, 1500) } else { large(r, 200) };
    let p = bend(r, &p, &m);
    c.input(&(&p, &m));
    c.nontrivial = true;
    c.note(|| format!("{} mod {}", p.text(), m));
    let l = p.to_lib();
    let want = p.modulo(&m);
    let v = c.lib("&Polynomial % &BigInt", || &l % &m)?;
    same("&Polynomial % &BigInt", &v, &want)?;
    let v = c.lib("Polynomial.modular_assign", || { let mut x = l.clone(); x.modular_assign(&m); x })?;
    same("Polynomial.modular_assign", &v, &want)?;
    let n = if p.0.len() > 250 { c.rng.range(0, 1) } else { c.rng.range(0, 3) } as u64;
    let v = c.lib("Polynomial.power_modulo", || l.power_modulo(&BigInt::from(n), &m))?;
    same("Polynomial.power_modulo", &v, &p.powmod(n, &m))
}

/// exponents where the freshman's dream gives the answer
fn c04_frobenius(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = *r.pick(&[2u64, 3, 5, 7, 11, 13]);
    let pb = BigInt::from(p);
    let s = *r.pick(&[X, XY, XYQ]);
    let f = poly(r, &s.with_terms(4));
    let mut e = p;
    let top = if f.0.len() <= 2 { 170 } else { 26 };
    while e * p <= top && r.one_in(2) {
        e *= p;
    }
    let k = r.range(0, 2) as u64;
    c.input(&(&f, p, e, k));
    c.nontrivial = f.0.len() >= 2;
    c.note(|| format!("({})^{} mod {}", f.text(), e + k, p));
    let want = f.map_mono(|m| (m.0 * e as i64, m.1 * e as i64, m.2 * e as i64, None)).mul(&f.pow(k)).modulo(&pb);
    let l = f.to_lib();
    let v = c.lib("Polynomial.power_modulo", || l.power_modulo(&BigInt::from(e + k), &pb))?;
    same("Polynomial.power_modulo", &v, &want)
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "random polynomials with coefficients at multiples of the modulus, moduli from 2 to 200 bits, next to machine words, exponents from 0, up to thousands of terms; compared with the reference; non-trivial: the reduction changes something, or exponent >= 2",
        scenarios: vec![
            sc("reduce", 480_000, 2_000_000, c04_reduce),
            sc("power", 120_000, 500_000, c04_power),
            sc("frobenius", 12_000, 100_000, c04_frobenius),
            sc("large", 600, 5_000, c04_large),
        ],
    }
}

// ---------------------------------------------------------------- C05

fn unreduce(r: &mut Rng, d: &dense::D, p: &BigInt) -> dense::D {
    let mut v: dense::D = d.iter().map(|x| rep(r, x, p)).collect();
    // top coefficients that vanish modulo p
    if r.one_in(3) {
        for _ in 0..r.usize(1, 4) {
            let k = bi(r.range(-2, 2));
            v.push(p * k);
        }
    }
    dense::trim(v)
}

fn c05_case(c: &mut Ctx, p: &BigInt, f: &RPoly, g: &dense::D) -> Res {
    let (gr, gm) = (dense::to_r(g), dense::modp(g, p));
    c.input(&(f, g, p));
    c.note(|| format!("{} rem {} mod {}", f.text(), gr.text(), p));
    // the remainder of each y, q slice is independent of the others
    let mut slices: std::collections::BTreeMap<(i64, i64), RPoly> = Default::default();
    for (m, k) in &f.0 {
        slices.entry((m.1, m.2)).or_insert_with(RPoly::zero).put((m.0, 0, 0, None), k.clone());
    }
    let mut want = RPoly::zero();
    for ((y, q), s) in &slices {
        let d = dense::from_r(s).unwrap();
        let rem = dense::rem_p(&d, &gm, p);
        want = want.add(&dense::to_r(&rem).mul(&RPoly::term((0, *y, *q, None), bi(1))));
    }
    if gm.len() == 1 {
        c.feat("constant divisors");
    }
    if gm.len() < g.len() {
        c.feat("divisors whose leading coefficient vanishes mod p");
    }
    if want.is_zero() && !f.is_zero() {
        c.feat("exact divisions");
    }
    if slices.len() > 1 {
        c.feat("dividends with several y, q powers");
    }
    c.nontrivial = want != f.modulo(p);
    let (l, d) = (f.to_lib(), gr.to_lib());
    let v = c.lib("polynomial_modular", || l.polynomial_modular(&d, p))?;
    same("polynomial_modular", &v, &want)?;
    same("dividend afterwards", &l, f)?;
    same("divisor afterwards", &d, &gr)
}

fn c05_random(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = fp::any_prime(r, 2);
    let g = loop {
        let g0 = uni(r, 6);
        let g = unreduce(r, &g0, &p);
        if !dense::modp(&g, &p).is_empty() {
            break g;
        }
    };
    let s = *r.pick(&[X.with_x(0, 30), X, XY, XYQ, X.with_q(-3, 3), Shape { x: (0, 120), y: (0, 2), q: (0, 0), var: false, terms: 12 }]);
    let f = poly(r, &s);
    let f = match r.below(4) {
        0 => f.mul(&dense::to_r(&g)),
        1 => f.mul(&dense::to_r(&g)).add(&poly(r, &s)),
        2 => bend(r, &f, &p),
        _ => f,
    };
    c05_case(c, &p, &f, &g)
}

/// long divisions
fn c05_long(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = if r.one_in(2) { fp::any_prime(r, 2) } else { bi(*r.pick(&[2i64, 3, 5, 7, 11])) };
    let deg = r.usize(5, 30);
    let g = loop {
        let mut g = uni(r, deg);
        g.resize(deg, BigInt::zero());
        g.push(nonzero(r));
        let g = unreduce(r, &g, &p);
        if !dense::modp(&g, &p).is_empty() {
            break g;
        }
    };
    let s = Shape { x: (0, if r.one_in(2) { 70 } else { 600 }), y: (0, 1), q: (0, 0), var: false, terms: 25 };
    let f = poly(r, &s);
    let f = match r.below(4) {
        0 => f.mul(&dense::to_r(&g)),
        1 => dense::to_r(&unreduce(r, &g, &p)).add(&poly(r, &X)),
        _ => f,
    };
    c05_case(c, &p, &f, &g)
}

/// sparse dividends of a degree far above the divisor's
fn c05_far(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = if r.one_in(2) { fp::any_prime(r, 2) } else { bi(*r.pick(&[2i64, 3, 5, 7, 11, 101])) };
    let g = loop {
        let g = if r.one_in(2) {
            let n = r.usize(1, 5);
            let mut g = vec![BigInt::zero(); n];
            g[0] = int(r);
            g.push(if r.one_in(2) { bi(1) } else { nonzero(r) });
            g
        } else {
            uni(r, 4)
        };
        let g = unreduce(r, &g, &p);
        if !dense::modp(&g, &p).is_empty() {
            break g;
        }
    };
    let f = poly(r, &Shape { x: (0, 9), y: (0, 1), q: (0, 1), var: false, terms: 4 });
    let w = if c.idx % 40 == 0 { 16 } else { 8 };
    let mut f = far(r, &f, (w, 31, 31));
    if c.idx % 16 == 1 {
        f.put((r.range(200, 12_000), 0, 0, None), nonzero(r));
    }
    c05_case(c, &p, &f, &g)
}

/// all pairs over F_2 and F_3 of small degree, each with one representative
fn c05_all(c: &mut Ctx) -> Res {
    let (p, n) = if c.idx < 64 * 16 { (2u64, c.idx) } else { (3, c.idx - 64 * 16) };
    let (nf, ng) = if p == 2 { (64u64, 16u64) } else { (243, 27) };
    let dig = |mut k: u64, len: usize| -> dense::D {
        let mut v = vec![];
        for _ in 0..len {
            v.push(BigInt::from(k % p));
            k /= p;
        }
        v
    };
    let (f, g) = (dig(n % nf, if p == 2 { 6 } else { 5 }), dig(n / nf % ng, if p == 2 { 4 } else { 3 }));
    if dense::trim(g.clone()).is_empty() {
        return Ok(());
    }
    let pb = BigInt::from(p);
    let f = if c.rng.one_in(2) { unreduce(&mut c.rng, &f, &pb) } else { f };
    let g = if c.rng.one_in(2) { unreduce(&mut c.rng, &g, &pb) } else { g };
    let fr = dense::to_r(&f);
    c05_case(c, &pb, &fr, &dense::trim(g))
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "random dividends in x, y, q and divisors in x (constant, unreduced, with leading coefficient divisible by p, factors of the dividend), primes 2 to 521 bits, degrees to some hundreds, and all small pairs over F_2 and F_3; compared with slice-wise long division; every call has a step budget; non-trivial: the remainder differs from the reduced dividend",
        scenarios: vec![
            sc("all-small", 64 * 16 + 243 * 27, 64 * 16 + 243 * 27, c05_all).exhaustive(64 * 16 + 243 * 27).steps(150_000_000),
            sc("random", 80_000, 1_200_000, c05_random).steps(600_000_000),
            sc("long", 800, 20_000, c05_long).steps(2_000_000_000),
            sc("far", 1_600, 40_000, c05_far).steps(6_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C06

fn c06_case(c: &mut Ctx, p: &BigInt, f: &dense::D, g: &dense::D) -> Res {
    let want = dense::gcd_p(f, g, p);
    c.input(&(f, g, p));
    let (rf, rg) = (dense::to_r(f), dense::to_r(g));
    c.note(|| format!("gcd({}, {}) mod {}", rf.text(), rg.text(), p));
    c.feat(match want.len() {
        0 => "gcd of two zeros",
        1 => "coprime pairs",
        2 => "gcd of degree 1",
        _ => "gcd of degree 2 or more",
    });
    c.nontrivial = !dense::modp(f, p).is_empty() && !dense::modp(g, p).is_empty();
    let (l, m) = (rf.to_lib(), rg.to_lib());
    let w = dense::to_r(&want);
    let v = c.lib("gcd", || l.gcd(&m, p))?;
    same("f.gcd(g)", &v, &w)?;
    let v = c.lib("gcd", || m.gcd(&l, p))?;
    same("g.gcd(f)", &v, &w)?;
    let one = want.len() == 1;
    let v = c.lib("is_gcd_one", || (l.is_gcd_one(&m, p), m.is_gcd_one(&l, p)))?;
    ensure!(v == (one, one), "is_gcd_one says {:?}, the gcd is {}", v, w.text());
    let v = c.lib("to_monic", || l.to_monic(p))?;
    same("to_monic", &v, &dense::to_r(&dense::monic_p(f, p)))?;
    same("left operand afterwards", &l, &rf)?;
    same("right operand afterwards", &m, &rg)
}

fn c06_random(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = fp::any_prime(r, 2);
    let deg = if r.one_in(120) { 36 } else if r.one_in(6) { 14 } else { 4 };
    let (u, v, h) = (uni(r, deg), uni(r, deg), uni(r, 4));
    let (f, g) = match r.below(8) {
        0 => (u.clone(), u),
        1 => (u.clone(), dense::scale(&u, &nonzero(r))),
        2 => (u, vec![]),
        3 => (u, vec![nonzero(r)]),
        4 => {
            // roots in common and apart
            let mut f = vec![BigInt::one()];
            let mut g = vec![BigInt::one()];
            for _ in 0..r.usize(1, 5) {
                let l = vec![bi(-r.range(-4, 4)), BigInt::one()];
                match r.below(3) {
                    0 => f = dense::mul(&f, &l),
                    1 => g = dense::mul(&g, &l),
                    _ => {
                        f = dense::mul(&f, &l);
                        g = dense::mul(&g, &l);
                    }
                }
            }
            (f, g)
        }
        _ => (dense::mul(&u, &h), dense::mul(&v, &h)),
    };
    let (f, g) = (unreduce(r, &f, &p), unreduce(r, &g, &p));
    c06_case(c, &p, &f, &g)
}

fn c06_all(c: &mut Ctx) -> Res {
    // all pairs of degree <= 4 over F_2 (32^2) and degree <= 2 over F_3 (27^2), F_5 (125^2)
    let (p, n, len, cnt) = if c.idx < 1024 { (2u64, c.idx, 5, 32u64) } else if c.idx < 1024 + 729 { (3, c.idx - 1024, 3, 27) } else { (5, c.idx - 1024 - 729, 3, 125) };
    let dig = |mut k: u64| -> dense::D {
        let mut v = vec![];
        for _ in 0..len {
            v.push(BigInt::from(k % p));
            k /= p;
        }
        dense::trim(v)
    };
    let (f, g) = (dig(n % cnt), dig(n / cnt));
    c06_case(c, &BigInt::from(p), &f, &g)
}

/// the gcds of point counting: x^p - x with a polynomial of known roots
fn c06_split(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let v = fp::primes_upto(101);
    let p = *r.pick(&v);
    let pb = BigInt::from(p);
    let mut xp = vec![BigInt::zero(); p as usize + 1];
    xp[p as usize] = bi(1);
    xp[1] -= 1;
    let f = uni(r, 6);
    let f = unreduce(r, &f, &pb);
    // distinct roots by trial
    let fm = dense::modp(&f, &pb);
    let mut want = vec![BigInt::one()];
    for a in 0..p {
        let x = BigInt::from(a);
        let e = fm.iter().rev().fold(BigInt::zero(), |s, k| (s * &x + k).mod_floor(&pb));
        if e.is_zero() {
            want = dense::modp(&dense::mul(&want, &vec![-x, bi(1)]), &pb);
        }
    }
    let w = dense::gcd_p(&xp, &f, &pb);
    ensure!(fm.is_empty() || w == want, "reference disagrees with root search");
    c06_case(c, &pb, &xp, &f)
}

/// a polynomial of a degree far above the other's
fn c06_far(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = if r.one_in(2) { fp::any_prime(r, 2) } else { bi(*r.pick(&[2i64, 3, 5, 7, 11, 101])) };
    let deg = if c.idx % 25 == 0 { *r.pick(&[32767usize, 32768, 65535, 65536, 65537]) } else { *r.pick(&[127usize, 128, 255, 256, 257, 300, 1000]) };
    let mut f = vec![BigInt::zero(); deg + 1];
    f[deg] = nonzero(r);
    for _ in 0..r.usize(0, 3) {
        let k = r.usize(0, 3);
        f[k] = int(r);
    }
    let g = match r.below(3) {
        0 => vec![bi(-1), bi(1)],
        1 => vec![int(r), bi(1)],
        _ => uni(r, 4),
    };
    if r.one_in(2) {
        // a root in common: the constant of f such that f vanishes where x - c does
        let k = bi(r.range(-3, 3));
        let v = f.iter().rev().fold(BigInt::zero(), |s, a| (s * &k + a).mod_floor(&p));
        f[0] -= v;
        let g = dense::mul(&vec![-k, bi(1)], &uni(r, 2));
        let g = unreduce(r, &g, &p);
        return c06_case(c, &p, &f, &g);
    }
    let g = unreduce(r, &g, &p);
    c06_case(c, &p, &f, &g)
}

fn c06_monic(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = fp::any_prime(r, 2);
    let s = any_shape(r);
    let f = poly(r, &s);
    let f = if r.one_in(6) { far(r, &f, (31, 31, 31)) } else { f };
    let f = bend(r, &f, &p);
    let m = f.modulo(&p);
    let want = match m.0.iter().next_back() {
        None => RPoly::zero(),
        Some((_, l)) => m.scale(&fp::inv(l, &p)).modulo(&p),
    };
    c.input(&(&f, &p));
    c.nontrivial = !m.is_zero();
    c.note(|| format!("monic form of {} mod {}", f.text(), p));
    let l = f.to_lib();
    let v = c.lib("to_monic", || l.to_monic(&p))?;
    same("to_monic", &v, &want)
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "random pairs (common factors, coprime, equal, zero, constant, unreduced, leading coefficients divisible by p) over primes of 2 to 521 bits, all small pairs over F_2, F_3, F_5, x^p - x against root search; both operand orders; every call has a step budget; non-trivial: both non-zero mod p",
        scenarios: vec![
            sc("all-small", 1024 + 729 + 15625, 1024 + 729 + 15625, c06_all).exhaustive(1024 + 729 + 15625).steps(150_000_000),
            sc("random", 75_000, 800_000, c06_random).steps(1_500_000_000),
            sc("split", 12_000, 100_000, c06_split).steps(1_500_000_000),
            sc("monic", 45_000, 500_000, c06_monic).steps(150_000_000),
            sc("far", 400, 16_000, c06_far).steps(12_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C07

const NN: Shape = Shape { x: (0, 7), y: (0, 7), q: (0, 0), var: false, terms: 8 };

fn c07_numbers(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = if r.one_in(400) {
        let n = r.usize(60, 1500);
        many(r, &Shape { x: (0, 60), y: (0, 12), q: (-2, 2), var: true, terms: 1 }, n)
    } else {
        poly(r, &NN)
    };
    let (x, y) = (int(r), int(r));
    c.input(&(&p, &x, &y));
    c.nontrivial = p.has_x() || p.has_y();
    c.note(|| format!("{} at ({}, {})", p.text(), x, y));
    let l = p.to_lib();
    let v = c.lib("eval_xy", || l.eval_xy(&x, &y))?;
    ensure!(v == p.eval(&x, &y), "eval_xy: {}, should be {}", v, p.eval(&x, &y));
    for (m, _) in p.0.iter().take(2) {
        let k = mono_lib(m);
        let v = c.lib("Monomial.eval_xy", || k.eval_xy(&x, &y))?;
        ensure!(v == npow(&x, m.0 as u64) * npow(&y, m.1 as u64), "Monomial.eval_xy: {}", v);
    }
    // with other variables around
    let s = *c.rng.pick(&[NN.with_q(-4, 4).with_var(true), NN.with_y(-3, 3), NN, XYQ]);
    let f = poly(&mut c.rng, &s);
    let l = f.to_lib();
    let v = c.lib("eval_x", || l.eval_x(&x))?;
    same("eval_x", &v, &f.subst(0, &RPoly::constant(x.clone())))?;
    let s = *c.rng.pick(&[NN.with_q(-4, 4).with_var(true), NN.with_x(-3, 3), NN, XYQ]);
    let f = poly(&mut c.rng, &s);
    let l = f.to_lib();
    let v = c.lib("eval_y", || l.eval_y(&y))?;
    same("eval_y", &v, &f.subst(1, &RPoly::constant(y.clone())))?;
    same("operand afterwards", &l, &f)
}

/// powers far beyond the usual ones, many terms
fn c07_far(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[
        Shape { x: (0, 3000), y: (0, 3000), q: (0, 0), var: false, terms: 5 },
        Shape { x: (0, 300), y: (0, 3), q: (0, 0), var: false, terms: 60 },
        Shape { x: (0, 40), y: (0, 40), q: (0, 0), var: false, terms: 60 },
    ]);
    let p = poly(r, &s);
    let v = |r: &mut Rng| match r.below(4) {
        0 => bi(r.range(-1, 1)),
        1 => bi(r.range(-40, 40)),
        _ => { let k = r.usize(1, 40); let n = bits(r, k); sign(r, n) }
    };
    let (x, y) = (v(r), v(r));
    c.input(&(&p, &x, &y));
    c.nontrivial = p.has_x() || p.has_y();
    c.note(|| format!("{} at ({}, {})", p.text(), x, y));
    let l = p.to_lib();
    let v = c.lib("eval_xy", || l.eval_xy(&x, &y))?;
    ensure!(v == p.eval(&x, &y), "eval_xy is wrong on {} at ({}, {})", short(&p.text()), x, y);
    let v = c.lib("eval_x", || l.eval_x(&x))?;
    same("eval_x", &v, &p.subst(0, &RPoly::constant(x.clone())))?;
    let v = c.lib("eval_y", || l.eval_y(&y))?;
    same("eval_y", &v, &p.subst(1, &RPoly::constant(y.clone())))?;
    // one-term substitutions
    let m = mono(&mut c.rng, &ALL);
    let k = bi(*c.rng.pick(&[-1i64, 1, 1, 2, 0]));
    let by = RPoly::term(m, k);
    let b = by.to_lib();
    let v = c.lib("eval_x_polynomial", || l.eval_x_polynomial(&b))?;
    same("eval_x_polynomial", &v, &p.subst(0, &by))?;
    let v = c.lib("eval_y_polynomial", || l.eval_y_polynomial(&b))?;
    same("eval_y_polynomial", &v, &p.subst(1, &by))
}
/// powers at the limits of the machine sizes
fn c07_edge(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let f0 = poly(r, &NN.with_q(-3, 3).with_var(true));
    // an evaluation may well take a step per power
    let f = far(r, &f0, (16, 16, 30));
    let (x, y) = (bi(r.range(-1, 1)), bi(r.range(-1, 1)));
    c.input(&(&f, &x, &y));
    c.nontrivial = f != f0;
    c.note(|| format!("{} at ({}, {})", f.text(), x, y));
    let l = f.to_lib();
    let v = c.lib("eval_x", || l.eval_x(&x))?;
    same("eval_x", &v, &f.subst(0, &RPoly::constant(x.clone())))?;
    let v = c.lib("eval_y", || l.eval_y(&y))?;
    same("eval_y", &v, &f.subst(1, &RPoly::constant(y.clone())))?;
    // moving powers around takes no steps
    let f = far(&mut c.rng, &f0, (30, 30, 30));
    let l = f.to_lib();
    let n = c.rng.range(0, 1) as i32;
    let v = c.lib("to_frob", || (l.to_frob(n), l.to_y_power(n), l.to_q_power(n)))?;
    let n = n as i64;
    same("to_frob", &v.0, &f.map_mono(|m| (m.0 * n, m.1 * n, m.2, m.3)))?;
    same("to_y_power", &v.1, &f.map_mono(|m| (m.0, m.1 * n, m.2, m.3)))?;
    same("to_q_power", &v.2, &f.map_mono(|m| (m.0, m.1, m.2 * n, m.3)))?;
    // one axis far, a single variable substituted
    let (far_x, k) = (c.rng.one_in(2), bi(*c.rng.pick(&[-1i64, 1])));
    let f = far(&mut c.rng, &f0, if far_x { (16, 0, 0) } else { (0, 16, 0) });
    let by = RPoly::term(*c.rng.pick(&[(1, 0, 0, None), (0, 1, 0, None), (0, 0, 1, None), (0, 0, -1, None), (0, 0, 0, None)]), k);
    let (l, b) = (f.to_lib(), by.to_lib());
    let v = c.lib("eval_x_polynomial", || l.eval_x_polynomial(&b))?;
    same("eval_x_polynomial", &v, &f.subst(0, &by))?;
    let v = c.lib("eval_y_polynomial", || l.eval_y_polynomial(&b))?;
    same("eval_y_polynomial", &v, &f.subst(1, &by))
}

/// polynomials with variables substituted where the power is at most one
fn c07_variables(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let axis = r.usize(0, 1);
    let s = NN.with_q(-3, 3);
    let f = if axis == 0 { poly(r, &s.with_x(0, 1)) } else { poly(r, &s.with_y(0, 1)) };
    let by = poly(r, &ALLV.with_terms(3));
    c.input(&(axis, &f, &by));
    c.nontrivial = f.0.keys().any(|m| if axis == 0 { m.0 == 1 } else { m.1 == 1 }) && by.0.keys().any(|m| m.3.is_some());
    c.note(|| format!("f = {}, substituted {}", f.text(), by.text()));
    let (l, b) = (f.to_lib(), by.to_lib());
    let w = f.subst(axis, &by);
    let v = if axis == 0 { c.lib("eval_x_polynomial", || l.eval_x_polynomial(&b))? } else { c.lib("eval_y_polynomial", || l.eval_y_polynomial(&b))? };
    same("substitution with variables", &v, &w)?;
    if let Some((m, k)) = f.0.iter().next() {
        let t = term_lib(m, k);
        let w = RPoly::term(*m, k.clone()).subst(axis, &by);
        let v = if axis == 0 { c.lib("Term.eval_x_polynomial", || t.eval_x_polynomial(&b))? } else { c.lib("Term.eval_y_polynomial", || t.eval_y_polynomial(&b))? };
        same("substitution with variables in a term", &v, &w)?;
    }
    same("substituted polynomial afterwards", &b, &by)
}

/// two- and three-term substitutions into higher powers
fn c07_compose(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let f = poly(r, &Shape { x: (0, 24), y: (0, 24), q: (0, 0), var: false, terms: 4 });
    let by_s = *r.pick(&[Q, QNEG, XY, X]);
    let mut by = poly(r, &by_s.with_terms(2));
    if r.one_in(2) {
        by = RPoly(by.0.into_iter().map(|(m, _)| (m, bi(*r.pick(&[-1i64, 1, 2])))).collect());
    }
    c.input(&(&f, &by));
    c.nontrivial = !by.is_zero() && !f.is_zero();
    c.note(|| format!("f = {}, substituted {}", f.text(), by.text()));
    let (l, b) = (f.to_lib(), by.to_lib());
    let v = c.lib("eval_x_polynomial", || l.eval_x_polynomial(&b))?;
    same("eval_x_polynomial", &v, &f.subst(0, &by))?;
    let v = c.lib("eval_y_polynomial", || l.eval_y_polynomial(&b))?;
    same("eval_y_polynomial", &v, &f.subst(1, &by))
}

fn c07_substitute(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[NN, NN.with_q(-3, 3).with_var(true), XYQ, NN.with_x(0, 3).with_y(0, 3).with_var(true)]);
    let f = poly(r, &s);
    let by_s = *r.pick(&[Q, QNEG, ALL, XY, X]);
    let by = poly(r, &by_s.with_terms(3));
    let by = if r.one_in(3) { related(r, &by, &by_s) } else { by };
    c.input(&(&f, &by));
    c.nontrivial = (f.has_x() || f.has_y()) && !by.is_zero();
    c.note(|| format!("f = {}, substituted {}", f.text(), by.text()));
    if by.0.keys().any(|m| m.2 < 0) {
        c.feat("Laurent polynomials substituted");
    }
    let (l, b) = (f.to_lib(), by.to_lib());
    let v = c.lib("eval_x_polynomial", || l.eval_x_polynomial(&b))?;
    let w = f.subst(0, &by);
    if w.0.len() < f.0.len() {
        c.feat("substitutions in which terms met");
    }
    same("eval_x_polynomial", &v, &w)?;
    let v = c.lib("eval_y_polynomial", || l.eval_y_polynomial(&b))?;
    same("eval_y_polynomial", &v, &f.subst(1, &by))?;
    if let Some((m, k)) = f.0.iter().next() {
        let one = RPoly::term(*m, bi(1));
        let t = RPoly::term(*m, k.clone());
        let (ml, tl) = (mono_lib(m), term_lib(m, k));
        let v = c.lib("Monomial.eval_x_polynomial", || ml.eval_x_polynomial(&b))?;
        same("Monomial.eval_x_polynomial", &v, &one.subst(0, &by))?;
        let v = c.lib("Monomial.eval_y_polynomial", || ml.eval_y_polynomial(&b))?;
        same("Monomial.eval_y_polynomial", &v, &one.subst(1, &by))?;
        let v = c.lib("Term.eval_x_polynomial", || tl.eval_x_polynomial(&b))?;
        same("Term.eval_x_polynomial", &v, &t.subst(0, &by))?;
        let v = c.lib("Term.eval_y_polynomial", || tl.eval_y_polynomial(&b))?;
        same("Term.eval_y_polynomial", &v, &t.subst(1, &by))?;
    }
    same("operand afterwards", &l, &f)?;
    same("substituted polynomial afterwards", &b, &by)
}

fn c07_powers(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[ALLV, XYQ, NN, Shape { x: (0, 200), y: (0, 30), q: (-40, 40), var: true, terms: 8 }]);
    let f = poly(r, &s);
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => r.range(0, 12),
        _ => r.range(0, 100000),
    };
    c.input(&(&f, n));
    c.nontrivial = f.0.len() >= 2 && n != 1;
    c.note(|| format!("{} with powers times {}", f.text(), n));
    c.feat(match n { 0 => "powers times 0", 1 => "powers times 1", _ => "powers times 2 or more" });
    let l = f.to_lib();
    let k = n as i32;
    let v = c.lib("to_frob", || l.to_frob(k))?;
    same("to_frob", &v, &f.map_mono(|m| (m.0 * n, m.1 * n, m.2, m.3)))?;
    let v = c.lib("to_y_power", || l.to_y_power(k))?;
    same("to_y_power", &v, &f.map_mono(|m| (m.0, m.1 * n, m.2, m.3)))?;
    let v = c.lib("to_q_power", || l.to_q_power(k))?;
    same("to_q_power", &v, &f.map_mono(|m| (m.0, m.1, m.2 * n, m.3)))?;
    if let Some((m, d)) = f.0.iter().next() {
        let t = term_lib(m, d);
        let v = c.lib("Term.to_frob", || t.to_frob(k))?;
        same_term("Term.to_frob", &v, &(m.0 * n, m.1 * n, m.2, m.3), d)?;
        let v = c.lib("Term.to_y_power", || t.to_y_power(k))?;
        same_term("Term.to_y_power", &v, &(m.0, m.1 * n, m.2, m.3), d)?;
        let v = c.lib("Term.to_q_power", || t.to_q_power(k))?;
        same_term("Term.to_q_power", &v, &(m.0, m.1, m.2 * n, m.3), d)?;
    }
    let (e, q) = (c.rng.range(0, 6), c.rng.range(-9, 9));
    let m = mono_lib(&(3, -2, e, None));
    let v = c.lib("Monomial.eval_q", || m.eval_q(q as i32))?;
    ensure!(BigInt::from(v) == npow(&bi(q), e as u64), "eval_q of q^{} at {}: {}", e, q, v);
    same("operand afterwards", &l, &f)
}

/// the homomorphism laws with the library on both sides
fn c07_laws(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = NN.with_terms(4);
    let (f, g) = (poly(r, &s), poly(r, &s));
    let (x, y) = (int(r), int(r));
    let h = poly(r, &ALL.with_terms(2));
    let n = r.range(0, 5) as i32;
    c.input(&(&f, &g, &x, &y, &h));
    c.nontrivial = f.0.len() >= 2 && g.0.len() >= 2;
    c.note(|| format!("f = {}, g = {}, h = {}, x = {}, y = {}, n = {}", f.text(), g.text(), h.text(), x, y, n));
    let (f, g, h) = (f.to_lib(), g.to_lib(), h.to_lib());
    let bad = c.lib("laws", || {
        let (s, p) = (&f + &g, &f * &g);
        let mut bad = vec![];
        if s.eval_xy(&x, &y) != f.eval_xy(&x, &y) + g.eval_xy(&x, &y) { bad.push("eval_xy of a sum") }
        if p.eval_xy(&x, &y) != f.eval_xy(&x, &y) * g.eval_xy(&x, &y) { bad.push("eval_xy of a product") }
        if s.eval_x(&x) != f.eval_x(&x) + g.eval_x(&x) { bad.push("eval_x of a sum") }
        if p.eval_x(&x) != f.eval_x(&x) * g.eval_x(&x) { bad.push("eval_x of a product") }
        if p.eval_y(&y) != f.eval_y(&y) * g.eval_y(&y) { bad.push("eval_y of a product") }
        if p.eval_x(&x).eval_y(&y).to_scalar() != p.eval_xy(&x, &y) { bad.push("eval_x then eval_y") }
        if p.eval_y(&y).eval_x(&x).to_scalar() != p.eval_xy(&x, &y) { bad.push("eval_y then eval_x") }
        if p.eval_x_polynomial(&h) != f.eval_x_polynomial(&h) * g.eval_x_polynomial(&h) { bad.push("eval_x_polynomial of a product") }
        if s.eval_y_polynomial(&h) != f.eval_y_polynomial(&h) + g.eval_y_polynomial(&h) { bad.push("eval_y_polynomial of a sum") }
        if p.to_frob(n) != f.to_frob(n) * g.to_frob(n) { bad.push("to_frob of a product") }
        if p.to_y_power(n) != f.to_y_power(n) * g.to_y_power(n) { bad.push("to_y_power of a product") }
        if s.to_frob(n).eval_xy(&x, &y) != s.eval_xy(&x.power(n), &y.power(n)) { bad.push("to_frob then eval_xy") }
        bad
    })?;
    ensure!(bad.is_empty(), "laws broken: {}", bad.join(", "));
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "random polynomials, values and substituted polynomials (zero, cancelling, Laurent in q, long, nested), far exponents at 0, 1 and -1, compared with reference substitution, and the homomorphism laws on the library alone; non-trivial: the substituted variable occurs",
        scenarios: vec![
            sc("numbers", 80_000, 1_000_000, c07_numbers),
            sc("substitute", 24_000, 400_000, c07_substitute).steps(4_000_000_000),
            sc("powers", 200_000, 1_600_000, c07_powers),
            sc("laws", 16_000, 128_000, c07_laws),
            sc("far", 4_500, 40_000, c07_far),
            sc("compose", 12_000, 96_000, c07_compose),
            sc("edge", 40_000, 320_000, c07_edge).steps(3_000_000_000),
            sc("variables", 60_000, 480_000, c07_variables),
        ],
    }
}

// ---------------------------------------------------------------- C08

fn c08_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[NN, NN.with_q(-3, 3).with_var(true), XYQ, Shape { x: (0, 100000), y: (0, 100000), q: (0, 3), var: false, terms: 5 }, Shape { x: (0, 1 << 29), y: (0, 1 << 29), q: (0, 3), var: true, terms: 4 }, X, X.with_x(0, 2)]);
    let (mut f, g) = (poly(r, &s), poly(r, &s));
    if r.one_in(100) {
        f = poly(r, &Shape { x: (0, 90), y: (0, 9), q: (-2, 2), var: false, terms: 120 });
    } else if r.one_in(400) {
        let n = r.usize(200, 2500);
        f = many(r, &Shape { x: (0, 300), y: (0, 20), q: (-2, 2), var: true, terms: 1 }, n);
    }
    c.input(&(&f, &g));
    c.nontrivial = f.has_x() || f.has_y();
    c.note(|| format!("f = {}, g = {}", f.text(), g.text()));
    let (l, k) = (f.to_lib(), g.to_lib());
    let dx = c.lib("derivative_x", || l.derivative_x())?;
    same("derivative_x", &dx, &f.deriv(0))?;
    let dy = c.lib("derivative_y", || l.derivative_y())?;
    same("derivative_y", &dy, &f.deriv(1))?;
    for (m, d) in f.0.iter().take(3) {
        let t = term_lib(m, d);
        for pick in 0..2 {
            let e = if pick == 0 { m.0 } else { m.1 };
            let v = if pick == 0 { c.lib("Term.derivative_x", || t.derivative_x())? } else { c.lib("Term.derivative_y", || t.derivative_y())? };
            let p = RPoly::term(mono_ref(&v.monomial), v.coef.clone());
            ensure!(p == RPoly::term(*m, d.clone()).deriv(pick), "derivative {} of {} is {}", pick, term_text(m, d), p.text());
            if e == 0 {
                ensure!(v.coef.is_zero(), "derivative of a constant term has coefficient {}", v.coef);
            }
        }
    }
    if !(f.has_var() && g.has_var()) {
        let v = c.lib("product rule", || ((&l * &k).derivative_x(), l.derivative_x() * &k + &l * k.derivative_x()))?;
        ensure!(v.0 == v.1, "product rule in x broken");
        let v = c.lib("product rule", || ((&l * &k).derivative_y(), l.derivative_y() * &k + &l * k.derivative_y()))?;
        ensure!(v.0 == v.1, "product rule in y broken");
        c.feat("product rules");
    }
    let v = c.lib("linearity", || ((&l + &k).derivative_x(), l.derivative_x() + k.derivative_x(), (&l - &k).derivative_y(), l.derivative_y() - k.derivative_y()))?;
    ensure!(v.0 == v.1 && v.2 == v.3, "linearity broken");
    let v = c.lib("mixed", || (l.derivative_x().derivative_y(), l.derivative_y().derivative_x()))?;
    ensure!(v.0 == v.1, "mixed derivatives differ");
    same("operand afterwards", &l, &f)
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "random polynomials with powers from 0 to 100000 and extra variables; compared with reference derivatives, and the product rule and linearity; non-trivial: x or y occurs",
        scenarios: vec![sc("derivatives", 900_000, 2_400_000, c08_case)],
    }
}

// ---------------------------------------------------------------- C09

fn c09_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[NN, NN.with_y(0, 13), NN.with_q(-3, 3).with_var(true), NN.with_y(0, 1), NN.with_y(2, 7), Shape { x: (0, 40), y: (0, 24), q: (0, 0), var: false, terms: 4 }]);
    let s = if r.one_in(150) { Shape { x: (0, 9), y: (0, 64), q: (0, 1), var: false, terms: 3 } } else { s };
    let f = if r.one_in(300) {
        let n = r.usize(60, 600);
        many(r, &Shape { x: (0, 80), y: (0, 6), q: (-1, 1), var: false, terms: 1 }, n)
    } else {
        poly(r, &s)
    };
    let f = if r.one_in(12) { far(r, &f, (30, 0, 31)) } else { f };
    let cf = |r: &mut Rng| match r.below(4) {
        0 => bi(0),
        1 => bi(r.range(-2, 2)),
        _ => int(r),
    };
    let (a, b) = (cf(r), cf(r));
    c.input(&(&f, &a, &b));
    let ymax = f.0.keys().map(|m| m.1).max().unwrap_or(0);
    c.nontrivial = ymax >= 2;
    c.note(|| format!("{} by a = {}, b = {}", f.text(), a, b));
    c.feat(match ymax { 0 | 1 => "y-degree at most 1", 2 | 3 => "y-degree 2 or 3", _ => "y-degree 4 or more" });
    let l = f.to_lib();
    let w = f.curve_reduce(&a, &b, None);
    let v = c.lib("reduction", || l.reduction(&a, &b))?;
    same("reduction", &v, &w)?;
    let p: i32 = *c.rng.pick(&[2, 3, 5, 7, 11, 13, 101, 2003, 65537, 2147483647]);
    let pb = BigInt::from(p);
    c.input(&p);
    let f2 = if c.rng.one_in(2) { bend(&mut c.rng, &f, &pb) } else { f.clone() };
    let l2 = f2.to_lib();
    let v = c.lib("reduction_modular", || l2.reduction_modular(&a, &b, p))?;
    same("reduction_modular", &v, &f2.curve_reduce(&a, &b, Some(&pb)))?;
    same("operand afterwards", &l, &f)?;
    // the reduced form is unique: adding multiples of the equation changes nothing
    let k = poly(&mut c.rng, &s.with_terms(3).with_var(false));
    let mut e = RPoly::term((0, 2, 0, None), bi(1));
    e.put((3, 0, 0, None), bi(-1));
    e.put((1, 0, 0, None), -a.clone());
    e.put((0, 0, 0, None), -b.clone());
    let g = f.add(&k.mul(&e));
    let l3 = g.to_lib();
    let v = c.lib("reduction", || l3.reduction(&a, &b))?;
    same("reduction after adding a multiple of the equation", &v, &w)?;
    let v = c.lib("reduction_modular", || l3.reduction_modular(&a, &b, p))?;
    same("reduction_modular after adding a multiple of the equation", &v, &w.modulo(&pb))?;
    let twice = c.lib("reduction", || v.reduction_modular(&a, &b, p))?;
    ensure!(twice == v, "reducing twice changes the result");
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "random polynomials up to y^24 with q and variables, random a and b (zero, negative, up to 300 bits), primes 2 to 2^31-1, plus multiples of the curve equation added; compared with Horner evaluation in y^2; non-trivial: y-degree >= 2",
        scenarios: vec![sc("reduce", 300_000, 1_200_000, c09_case)],
    }
}
