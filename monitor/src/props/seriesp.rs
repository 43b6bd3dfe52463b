use crate::ensure;
use crate::fp;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use crate::series;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use ellipticcurve::divisor::sigma_divisor;
use ellipticcurve::simultaneous_equation::solve;
use ellipticcurve::{delta, eisenstein, j_invariant, modular_polynomial as mp};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

fn ser(v: &[BigInt], shift: i64) -> RPoly {
    let mut r = RPoly::zero();
    for (i, c) in v.iter().enumerate() {
        r.put((0, 0, i as i64 + shift, None), c.clone());
    }
    r
}

// ---------------------------------------------------------------- C11

fn c11_order(c: &mut Ctx) -> Res {
    let n = c.idx as usize;
    c11_at(c, n)
}
fn c11_at(c: &mut Ctx, n: usize) -> Res {
    let o = n as i32;
    c.input(&n);
    c.nontrivial = true;
    c.note(|| format!("order {}", n));
    let d = series::delta1(n);
    let v = c.lib("delta1", || delta::delta1(o))?;
    same("delta1", &v, &ser(&d, 0))?;
    let v = c.lib("eisenstein4", || eisenstein::eisenstein4(o))?;
    same("eisenstein4", &v, &ser(&series::e4(n), 0))?;
    let v = c.lib("delta1_inverse", || delta::delta1_inverse(o))?;
    same("delta1_inverse", &v, &ser(&series::inverse(&d, n), 0))?;
    let v = c.lib("j_invariant1", || j_invariant::j_invariant1(o))?;
    same("j_invariant1", &v, &ser(&series::qj(n), 0))?;
    let v = c.lib("j_invariant", || j_invariant::j_invariant(o))?;
    same("j_invariant", &v, &ser(&series::qj(n + 1), -1))
}

fn c11_far(c: &mut Ctx) -> Res {
    // single high orders of the cheap series
    let n = match c.rng.below(12) { 0 => c.rng.usize(320, 2500), 1 => c.rng.usize(320, 1000), _ => c.rng.usize(25, 320) };
    c.input(&n);
    c.nontrivial = true;
    c.note(|| format!("order {}", n));
    let v = c.lib("eisenstein4", || eisenstein::eisenstein4(n as i32))?;
    same("eisenstein4", &v, &ser(&series::e4(n), 0))?;
    let n = (n / 6 + 2).min(170);
    let v = c.lib("delta1", || delta::delta1(n as i32))?;
    same("delta1", &v, &ser(&series::delta1(n), 0))
}

/// all five series at one order far beyond the others
fn c11_top(c: &mut Ctx) -> Res {
    let n = match c.idx % 3 { 0 => c.rng.range(76, 100), 1 => c.rng.range(60, 75), _ => c.rng.range(100, 140) } as usize;
    c11_at(c, n)
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "every order from 0 up (each order one case: five series), single higher orders (to 140 for the inverse, 2500 for E4, 170 for Delta); compared with Euler's pentagonal product, a divisor sieve and series inversion; every case is non-trivial",
        scenarios: vec![
            sc("orders", 41, 76, c11_order).steps(2_000_000_000).cpu(240),
            sc("far", 200, 1_600, c11_far).steps(20_000_000_000).cpu(400),
            sc("top", 3, 16, c11_top).steps(100_000_000_000).cpu(800),
        ],
    }
}

// ---------------------------------------------------------------- C12

fn c12_truncate(c: &mut Ctx) -> Res {
    let s = *c.rng.pick(&[QVAR, QNEG, Q, QVAR.with_q(-40, 40), QVAR.with_q(0, 0)]);
    let f = if c.rng.one_in(500) {
        let n = c.rng.usize(60, 3000);
        let s = *c.rng.pick(&[QVAR.with_q(-300, 3000), QVAR.with_q(-1, 1), QVAR.with_q(3, 3)]);
        many(&mut c.rng, &s, n)
    } else {
        poly(&mut c.rng, &s)
    };
    // powers at the ends of the machine word
    let f = if c.rng.one_in(40) {
        c.feat("powers near the ends of 32 bits");
        let w = *c.rng.pick(&[16i64, 31, 31]);
        f.map_mono(|m| (m.0, m.1, if m.2 % 3 == 0 { m.2 } else if m.2 % 2 == 0 { (1i64 << w) - 1 - m.2.abs() } else { m.2.abs() - (1i64 << w) }, m.3))
    } else {
        f
    };
    let n = match c.rng.below(4) {
        0 => c.rng.range(-8, 10),
        1 => *c.rng.pick(&[0, 1, -1, 100000, -100000]),
        // at a power that occurs
        _ => f.0.keys().nth(c.idx as usize % f.0.len().max(1)).map_or(0, |m| (m.2 + c.rng.range(-1, 1)).max(-(1i64 << 31)).min((1i64 << 31) - 2)),
    };
    c.input(&(&f, n));
    c.note(|| format!("{} up to q^{}", f.text(), n));
    let w = f.filter(|m| m.2 <= n);
    c.nontrivial = !w.is_zero() && w != f;
    if f.0.keys().any(|m| m.2 == n && m.3.is_some()) {
        c.feat("terms with a variable at the bound");
    }
    if f.0.keys().any(|m| m.2 == n + 1 && m.3.is_some()) {
        c.feat("terms with a variable just beyond the bound");
    }
    let l = f.to_lib();
    let v = c.lib("omit_high_order_q", || { let mut x = l.clone(); x.omit_high_order_q(n as i32); x })?;
    same("omit_high_order_q", &v, &w)?;
    // the coefficient of a q power
    let k = if c.rng.one_in(2) { n } else { c.rng.range(-6, 9) };
    let w = f.filter(|m| m.2 == k).map_mono(|m| (0, 0, 0, m.3));
    let v = c.lib("to_q_power_coef", || l.to_q_power_coef(k as i32))?;
    same("to_q_power_coef", &v, &w)?;
    same("operand afterwards", &l, &f)?;
    // the coefficient of a variable
    let g = w;
    let l = g.to_lib();
    let mut vars: Vec<Var> = g.0.keys().map(|m| m.3).collect();
    vars.push(None);
    vars.push(Some((0, 0)));
    vars.push(var(&mut c.rng));
    if let Some(Some((i, j))) = vars.first().cloned() {
        vars.push(Some((j, i)));
        vars.push(Some((i, j + 1)));
    }
    for u in vars {
        let want = g.0.get(&(0, 0, 0, u)).cloned().unwrap_or_default();
        let lv = var_lib(u);
        let got = c.lib("to_variable_coef", || l.to_variable_coef(lv))?;
        ensure!(got == want, "coefficient of {:?} in {} is {}, should be {}", u, g.text(), got, want);
    }
    let k = int(&mut c.rng);
    let l = RPoly::constant(k.clone()).to_lib();
    let got = c.lib("to_scalar", || l.to_scalar())?;
    ensure!(got == k, "to_scalar of {} is {}", k, got);
    Ok(())
}

fn c12_power(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let s = *r.pick(&[Q, Q.with_q(0, 3), Q.with_q(1, 6), Q.with_q(0, 30)]);
    let f = poly(r, &s.with_terms(6));
    let n = match f.0.len() {
        0 | 1 => r.range(0, 30),
        2 => r.range(0, 24),
        _ => if r.one_in(10) { r.range(8, 20) } else { r.range(0, 7) },
    };
    let o = match r.below(6) {
        0 | 1 => r.range(0, 4),
        2 if r.one_in(3) => *r.pick(&[25, 31, 32, 50, 64, 100, 1000]),
        _ => r.range(0, 24),
    };
    c.input(&(&f, n, o));
    let full = f.pow(n as u64);
    let w = full.filter(|m| m.2 <= o);
    c.nontrivial = n >= 2 && w != full;
    c.note(|| format!("({})^{} up to q^{}", f.text(), n, o));
    let l = f.to_lib();
    let v = c.lib("power_omit_high_order_q", || l.power_omit_high_order_q(n as i32, o as i32))?;
    same("power_omit_high_order_q", &v, &w)?;
    same("operand afterwards", &l, &f)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "random polynomials in q and variables with truncation orders at and next to powers that occur, all variables present plus near misses, random truncated powers, powers at the ends of 32 bits; compared with filters on the reference; non-trivial: the truncation keeps some terms and drops some",
        scenarios: vec![
            sc("truncate", 1_800_000, 4_800_000, c12_truncate),
            sc("power", 300_000, 2_400_000, c12_power),
        ],
    }
}

// ---------------------------------------------------------------- C13

fn sigma(n: i64, k: u64) -> BigInt {
    // multiplicative, from the factorisation
    let mut n = n;
    let mut r = BigInt::one();
    let mut d = 2;
    while n > 1 {
        if d * d > n {
            d = n;
        }
        let mut s = BigInt::one();
        let mut pw = BigInt::one();
        let step = npow(&bi(d), k);
        while n % d == 0 {
            n /= d;
            pw *= &step;
            s += &pw;
        }
        r *= s;
        d += 1;
    }
    r
}

fn c13_range(c: &mut Ctx) -> Res {
    let n = c.idx as i64 + 1;
    c.input(&n);
    c.nontrivial = true;
    for k in 0..14i32 {
        let v = c.lib("sigma_divisor", || sigma_divisor(n as i32, k))?;
        ensure!(v == sigma(n, k as u64), "sigma_{}({}) = {}, should be {}", k, n, v, sigma(n, k as u64));
    }
    Ok(())
}

fn c13_random(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = match r.below(8) {
        0 => -r.range(0, 5),
        1 => *r.pick(&[i32::MIN as i64, -1, 0, -1000]),
        2 => {
            let k = r.range(2, 300);
            k * k
        }
        3 => *r.pick(&[720720i64, 65536, 1 << 20, 46656, 531441, 999983, 27720]),
        _ => r.range(1, 200_000),
    };
    let k = match r.below(6) {
        0 => -r.range(1, 5),
        1 => *r.pick(&[i32::MIN as i64, -1]),
        2 => r.range(0, 200),
        _ => r.range(0, 12),
    };
    c.input(&(n, k));
    c.nontrivial = n > 1 && k >= 0;
    c.note(|| format!("sigma_{}({})", k, n));
    let want = if n <= 0 || k < 0 { BigInt::zero() } else { sigma(n, k as u64) };
    let v = c.lib("sigma_divisor", || sigma_divisor(n as i32, k as i32))?;
    ensure!(v == want, "sigma_{}({}) = {}, should be {}", k, n, v, want);
    Ok(())
}

/// composite numbers that pass for primes in the usual quick tests, alone and with small factors
const STRONG: [i64; 66] = [
    2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 104653, 130561, 196093, 220729, 233017, 252601,
    253241, 256999, 271951, 280601, 314821, 357761, 390937, 458989, 476971, 486737, 1373653, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 11541307,
    13694761, 15978007, 16070429, 16879501, 25326001, 561, 1105, 1729, 8911, 10585, 46657, 62745, 63973, 75361, 101101, 115921, 126217, 162401, 172081, 294409,
    334153, 399001, 410041, 488881, 512461, 1909001,
];
fn c13_pseudo(c: &mut Ctx) -> Res {
    let mut n = STRONG[c.idx as usize % STRONG.len()];
    let small = c.rng.range(1, 24);
    if c.idx as usize >= STRONG.len() && n * small < 30_000_000 {
        n *= small;
    }
    let k = c.rng.range(0, 3);
    c.input(&(n, k));
    c.nontrivial = true;
    c.note(|| format!("sigma_{}({})", k, n));
    let v = c.lib("sigma_divisor", || sigma_divisor(n as i32, k as i32))?;
    let w = sigma(n, k as u64);
    ensure!(v == w, "sigma_{}({}) = {}, should be {}", k, n, v, w);
    Ok(())
}

/// powers to the ends of the machine sizes
fn c13_tall(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (n, k) = if r.one_in(5) {
        (1, *r.pick(&[i32::MAX as i64, i32::MAX as i64 - 1, 1 << 30, 1 << 20, 65536, 255]))
    } else {
        let k = (1i64 << r.range(6, 17)) * r.range(1, 2) + r.range(-2, 2);
        (r.range(2, if k > 20_000 { 6 } else { 60 }), k)
    };
    c.input(&(n, k));
    c.nontrivial = true;
    c.note(|| format!("sigma_{}({})", k, n));
    let v = c.lib("sigma_divisor", || sigma_divisor(n as i32, k as i32))?;
    let w = if n == 1 { bi(1) } else { (1..=n).filter(|d| n % d == 0).map(|d| npow(&bi(d), k as u64)).sum() };
    ensure!(v == w, "sigma_{}({}) = {}, should be {}", k, n, short(&v.to_string()), short(&w.to_string()));
    c.feat("powers to the ends of the machine sizes");
    Ok(())
}

/// the largest argument there is, a prime
fn c13_largest(c: &mut Ctx) -> Res {
    let i = c.idx;
    c.input(&i);
    c.nontrivial = true;
    let n = i32::MAX;
    let k = [1, 0, 3, 5][c.idx as usize];
    let v = c.lib("sigma_divisor", || sigma_divisor(n, k))?;
    ensure!(v == sigma(n as i64, k as u64), "sigma_{}({}) = {}", k, n, v);
    Ok(())
}
/// every machine size of n
fn c13_sizes(c: &mut Ctx) -> Res {
    let i = c.idx;
    let r = &mut c.rng;
    let (b, k) = if i < 48 { (12 + i as i64 % 16, i as i64 / 16) } else { (28 + i as i64 % 3, (i as i64 / 3) % 3) };
    let (lo, hi) = (1i64 << b, (1i64 << (b + 1)) - 1);
    let n = match k {
        // prime
        0 => {
            let mut n = r.range(lo, hi) | 1;
            while !fp::is_prime_u(n as u64) {
                n += 2;
            }
            n
        }
        // smooth
        1 => {
            let mut n = 1;
            while n < lo {
                n *= *r.pick(&[2i64, 3, 5, 7]);
            }
            n
        }
        _ => r.range(lo, hi),
    }.min(i32::MAX as i64);
    let k = if n < 1 << 24 { r.range(0, 20) } else { r.range(0, 5) };
    c.input(&(n, k));
    c.nontrivial = true;
    c.note(|| format!("sigma_{}({})", k, n));
    let v = c.lib("sigma_divisor", || sigma_divisor(n as i32, k as i32))?;
    let w = sigma(n, k as u64);
    ensure!(v == w, "sigma_{}({}) = {}, should be {}", k, n, v, w);
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "every n up to a bound with k = 0..13, random and extreme n and k; compared with the product formula over the factorisation; non-trivial: n > 1 and k >= 0",
        scenarios: vec![
            sc("largest", 4, 4, c13_largest).exhaustive(4).cpu(600),
            sc("pseudoprimes", 198, 1056, c13_pseudo),
            sc("sizes", 54, 800, c13_sizes).cpu(600),
            sc("range", 2_500, 20_000, c13_range),
            sc("tall", 160, 3_000, c13_tall),
            sc("random", 3_000, 60_000, c13_random),
        ],
    }
}

// ---------------------------------------------------------------- C14

const M61: u64 = (1 << 61) - 1;
fn rank_mod(a: &[Vec<BigInt>], cols: usize) -> usize {
    let p = M61 as u128;
    let mut m: Vec<Vec<u128>> = a.iter().map(|r| r.iter().take(cols).map(|x| x.mod_floor(&BigInt::from(M61)).to_str_radix(10).parse::<u128>().unwrap()).collect()).collect();
    let pw = |mut b: u128, mut e: u128| {
        let mut r = 1u128;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % p;
            }
            b = b * b % p;
            e >>= 1;
        }
        r
    };
    let mut rank = 0;
    for c in 0..cols {
        let piv = match (rank..m.len()).find(|r| m[*r][c] != 0) {
            Some(r) => r,
            None => continue,
        };
        m.swap(rank, piv);
        let i = pw(m[rank][c], p - 2);
        for r in rank + 1..m.len() {
            let f = m[r][c] * i % p;
            if f != 0 {
                for k in c..cols {
                    m[r][k] = (m[r][k] + (p - f) * m[rank][k]) % p;
                }
            }
        }
        rank += 1;
    }
    rank
}

/// many unknowns, made so that the elimination meets small pivots and its numbers stay small
fn c14_wide(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = if r.one_in(6) { r.usize(250, 300) } else { r.usize(23, 140) };
    let extra = r.usize(0, 5);
    let width = r.usize(0, 3);
    // lower times upper band matrix with diagonals +-1
    let mut lo = vec![vec![0i64; n]; n];
    let mut up = vec![vec![0i64; n]; n];
    for i in 0..n {
        lo[i][i] = if r.one_in(4) { -1 } else { 1 };
        up[i][i] = if r.one_in(4) { -1 } else { 1 };
        for k in 1..=width {
            if i >= k {
                lo[i][i - k] = r.range(-1, 1);
                up[i - k][i] = r.range(-2, 2);
            }
        }
    }
    let mut rows: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| {
        let (a, b) = (i.saturating_sub(width), (i + 1).min(n));
        (a..b).map(|k| lo[i][k] * up[k][j]).sum()
    }).collect()).collect();
    for _ in 0..extra {
        let k = r.usize(0, n - 1);
        let f = r.range(-2, 2);
        let row = rows[k].iter().map(|v| v * f).collect();
        rows.push(row);
    }
    match r.below(3) {
        0 => {}
        // swap some rows
        1 => for _ in 0..3 {
            let (i, j) = (r.usize(0, n - 1), r.usize(0, n - 1));
            rows.swap(i, j);
        },
        // a diagonal system in any order
        _ => {
            rows = (0..n).map(|i| (0..n).map(|j| if i == j { *[-3i64, -1, 1, 2, 5].get(i % 5).unwrap() } else { 0 }).collect()).collect();
            r.shuffle(&mut rows);
            rows.extend((0..extra).map(|_| vec![0i64; n]));
        }
    }
    let xs: Vec<BigInt> = (0..n).map(|_| int(r)).collect();
    let rows: Vec<Vec<BigInt>> = rows.into_iter().map(|row| {
        let s: BigInt = row.iter().zip(&xs).filter(|(a, _)| **a != 0).map(|(a, x)| x * a).sum();
        row.into_iter().map(bi).chain(std::iter::once(s)).collect()
    }).collect();
    c.input(&rows);
    c.nontrivial = true;
    c.note(|| format!("{} unknowns, {} equations, bands of width {}", n, n + extra, width));
    c14_check(c, rows, &xs, n, extra)
}

fn c14_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = if r.one_in(200) { r.usize(13, 22) } else if r.one_in(5) { r.usize(1, 12) } else { r.usize(1, 5) };
    let extra = if r.one_in(2) { 0 } else { r.usize(1, 6) };
    let style = r.below(8);
    if style == 7 && r.scale == 0 {
        // entries and solution have the size of one machine word
        r.scale = *r.pick(&[15usize, 16, 20, 24, 31, 32, 33, 36, 40, 48, 53, 62, 63, 64, 65, 127, 128]);
    }
    let n = if style == 7 { r.usize(1, 4) } else { n };
    let mut rows: Vec<Vec<BigInt>> = vec![];
    let xs: Vec<BigInt> = (0..n).map(|_| if style == 0 || style == 7 && r.one_in(2) { bi(r.range(-3, 3)) } else { int(r) }).collect();
    for _ in 0..40 {
        rows = (0..n + extra).map(|i| {
            (0..n).map(|j| match style {
                0 | 1 => bi(r.range(-3, 3)),
                2 | 7 => int(r),
                // sparse
                3 => if r.one_in(3) { bi(r.range(-9, 9)) } else { bi(0) },
                // a permutation with signs and factors
                4 => if (i + 1) % n == j { bi(*r.pick(&[-7i64, -2, -1, 1, 2, 6])) } else { bi(0) },
                // triangular from below: zero pivots almost everywhere
                5 => if i + j + 1 >= n && i < n || r.one_in(4) { bi(r.range(-5, 5)) } else { bi(0) },
                _ => bi(r.range(-100, 100)) * bi(*r.pick(&[1, 2, 3, 12])),
            }).collect()
        }).collect();
        // dependent rows: copies, multiples, zero rows
        for i in n..n + extra {
            match r.below(4) {
                0 => {
                    let k = r.usize(0, n - 1);
                    rows[i] = rows[k].clone();
                }
                1 => {
                    let k = r.usize(0, n - 1);
                    let f = bi(r.range(-4, 4));
                    rows[i] = rows[k].iter().map(|v| v * &f).collect();
                }
                2 => rows[i] = vec![bi(0); n],
                _ => {}
            }
        }
        if r.one_in(2) {
            r.shuffle(&mut rows);
        }
        if rank_mod(&rows, n) == n {
            break;
        }
        rows.clear();
    }
    if rows.is_empty() {
        return Ok(());
    }
    for row in rows.iter_mut() {
        let s: BigInt = row.iter().zip(&xs).map(|(a, x)| a * x).sum();
        row.push(s);
    }
    c.input(&rows);
    c.nontrivial = n >= 2;
    c.note(|| format!("system {:?}", rows.iter().map(|r| r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>()));
    if rows[0][0].is_zero() {
        c.feat("first pivot zero");
    }
    if rows[0][0].is_negative() {
        c.feat("first pivot negative");
    }
    if extra > 0 {
        c.feat("overdetermined systems");
    }
    c14_check(c, rows, &xs, n, extra)
}
fn c14_check(c: &mut Ctx, rows: Vec<Vec<BigInt>>, xs: &[BigInt], n: usize, extra: usize) -> Res {
    let before = rows.clone();
    let b = c.lib("solve", || solve(&rows))?;
    ensure!(rows == before, "solve changed its argument");
    ensure!(b.len() == n + extra && b.iter().all(|r| r.len() == n + 1), "the result has the wrong shape");
    for i in 0..n + extra {
        for j in 0..=n {
            let want = if i < n && j == n { xs[i].clone() } else if i == j && i < n { bi(1) } else { bi(0) };
            ensure!(b[i][j] == want, "entry ({}, {}) is {}, should be {} (solution {:?})", i, j, b[i][j], want, xs.iter().map(|v| v.to_string()).collect::<Vec<_>>());
        }
    }
    Ok(())
}

/// all 2x2 systems with entries -2..2 and solutions -1..2
fn c14_all(c: &mut Ctx) -> Res {
    let mut k = c.idx;
    let mut t = |n: u64| {
        let v = k % n;
        k /= n;
        v as i64
    };
    let m: Vec<i64> = (0..4).map(|_| t(5) - 2).collect();
    let x: Vec<i64> = (0..2).map(|_| t(4) - 1).collect();
    if m[0] * m[3] == m[1] * m[2] {
        return Ok(());
    }
    let rows: Vec<Vec<BigInt>> = (0..2).map(|i| vec![bi(m[2 * i]), bi(m[2 * i + 1]), bi(m[2 * i] * x[0] + m[2 * i + 1] * x[1])]).collect();
    c.input(&rows);
    c.nontrivial = true;
    c.note(|| format!("{:?} x = {:?}", m, x));
    let b = c.lib("solve", || solve(&rows))?;
    let want = vec![vec![bi(1), bi(0), bi(x[0])], vec![bi(0), bi(1), bi(x[1])]];
    ensure!(b == want, "system {:?}: got {:?}, should be {:?}", rows, b, want);
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "systems made from a chosen integral solution: square and overdetermined, permuted, sparse, triangular, with dependent and zero rows, up to 22 unknowns (band matrices to 300) and 300 bits, all of one machine-word size, all 2x2 systems with entries -2..2; full rank is ensured modulo 2^61-1; non-trivial: two unknowns or more",
        scenarios: vec![
            sc("all-2x2", 10_000, 10_000, c14_all).exhaustive(10_000),
            sc("random", 480_000, 2_400_000, c14_case),
            sc("wide", 240, 1_920, c14_wide).steps(20_000_000_000).cpu(400),
        ],
    }
}

// ---------------------------------------------------------------- C16

fn ansatz(p: i64) -> RPoly {
    let mut w = RPoly::zero();
    w.put((p + 1, 0, 0, None), bi(1));
    w.put((0, p + 1, 0, None), bi(1));
    for i in 0..=p {
        for j in 0..=p {
            let (a, b) = (i.min(j), i.max(j));
            w.put((i, j, 0, Some((a as i32, b as i32))), bi(1));
        }
    }
    w
}

/// j(q)^k for k = 0..=n as dense series starting at q^-k, up to q^top
fn jpowers(n: usize, top: i64) -> Vec<Vec<BigInt>> {
    let len = (top + n as i64) as usize;
    let base = series::qj(len);
    let mut v = vec![vec![BigInt::one()]];
    v[0].resize(len + 1, BigInt::zero());
    for k in 1..=n {
        let t = series::mul(&v[k - 1], &base, len);
        v.push(t);
    }
    v
}

/// coefficients of j(q)^i j(q^p)^jj at q^-(p^2+p) .. q^top
struct Exps {
    p: i64,
    pw: Vec<Vec<BigInt>>,
}
impl Exps {
    fn new(p: i64, top: i64) -> Exps {
        Exps { p, pw: jpowers(p as usize + 1, top + p * (p + 1)) }
    }
    fn coef(&self, i: i64, jj: i64, e: i64) -> BigInt {
        // sum over s of [q^(e - p s)] j^i * [q^s] j^jj
        let mut r = BigInt::zero();
        let mut s = -jj;
        while e - self.p * s >= -i {
            let a = (e - self.p * s + i) as usize;
            let b = (s + jj) as usize;
            let (ca, cb) = (&self.pw[i as usize], &self.pw[jj as usize]);
            if !ca[a].is_zero() && !cb[b].is_zero() {
                r += &ca[a] * &cb[b];
            }
            s += 1;
        }
        r
    }
}

/// vanishing of f(j(q), j(q^p)) at all q powers up to top; beyond the pole
/// order a handful of extra powers decides (a holomorphic modular function
/// without pole that vanishes at the cusp is zero)
fn vanishes(f: &RPoly, p: i64, top: i64) -> Res {
    let ex = Exps::new(p, top);
    for e in -(p * p + p + p)..=top {
        let mut s = BigInt::zero();
        for (m, c) in &f.0 {
            if -(m.0 + p * m.1) <= e {
                s += c * ex.coef(m.0, m.1, e);
            }
        }
        ensure!(s.is_zero(), "the coefficient of q^{} of the modular polynomial at (j(q), j(q^{})) is {}", e, p, s);
    }
    Ok(())
}

fn c16_poly(c: &mut Ctx) -> Res {
    let p = [7i64, 2, 3, 5][c.idx as usize % 4];
    c.input(&p);
    c.nontrivial = true;
    c.note(|| format!("p = {}", p));
    let v = c.lib("modular_polynomial", || mp::modular_polynomial(p as i32))?;
    let f = RPoly::from_lib(&v).map_err(|e| format!("modular_polynomial({}) {}", p, e))?;
    for (m, k) in &f.0 {
        ensure!(m.0 >= 0 && m.1 >= 0 && m.2 == 0 && m.3.is_none(), "p = {}: term {:?}", p, m);
        ensure!(f.0.get(&(m.1, m.0, 0, None)) == Some(k), "p = {}: not symmetric at {:?}", p, m);
        ensure!(m.0 <= p + 1 && m.1 <= p + 1, "p = {}: degree too high at {:?}", p, m);
        ensure!(m.0 != p + 1 || (m.1 == 0 && k.is_one()), "p = {}: not monic", p);
    }
    ensure!(f.0.get(&(p + 1, 0, 0, None)).map_or(false, |k| k.is_one()), "p = {}: not monic", p);
    // Kronecker's congruence
    let mut k = RPoly::term((p + 1, 0, 0, None), bi(1));
    k.put((p, p, 0, None), bi(-1));
    k.put((1, 1, 0, None), bi(-1));
    k.put((0, p + 1, 0, None), bi(1));
    ensure!(f.sub(&k).modulo(&bi(p)).is_zero(), "p = {}: not congruent to (x^p - y)(x - y^p)", p);
    vanishes(&f, p, 6)?;
    c.feat(&format!("modular polynomials of level {}", p));
    Ok(())
}

fn c16_expansion(c: &mut Ctx) -> Res {
    // the dear one runs in the build without checks
    let p = if c.idx == 1 { 7 } else { [2i64, 3, 5, 2, 3][c.idx as usize % 5] };
    c.input(&(p, c.idx));
    c.nontrivial = true;
    c.note(|| format!("p = {}", p));
    let ex = Exps::new(p, 0);
    let w = ansatz(p);
    let mut full = RPoly::zero();
    let mut list = vec![];
    for e in -(p * p + p)..=0 {
        let mut row = RPoly::zero();
        for (m, k) in &w.0 {
            let t = ex.coef(m.0, m.1, e);
            if !t.is_zero() {
                row.put((0, 0, 0, m.3), k * &t);
                full.put((0, 0, e, m.3), k * &t);
            }
        }
        list.push(row);
    }
    let v = c.lib("subscripted_variable_modular_polynomial_q", || mp::subscripted_variable_modular_polynomial_q(p as i32))?;
    same("subscripted_variable_modular_polynomial_q", &v, &full)?;
    let v = c.lib("subscripted_variable_modular_polynomial_list", || mp::subscripted_variable_modular_polynomial_list(p as i32))?;
    ensure!(v.len() == list.len(), "p = {}: {} equations, should be {}", p, v.len(), list.len());
    for (i, (a, b)) in v.iter().zip(&list).enumerate() {
        same(&format!("p = {}: equation {}", p, i), a, b)?;
    }
    Ok(())
}

fn c16_ansatz(c: &mut Ctx) -> Res {
    let ps = fp::primes_upto(43);
    let p = ps[c.idx as usize];
    c.input(&p);
    c.nontrivial = true;
    c.note(|| format!("p = {}", p));
    let v = c.lib("subscripted_variable_modular_polynomial", || mp::subscripted_variable_modular_polynomial(p as i32))?;
    same("subscripted_variable_modular_polynomial", &v, &ansatz(p as i64))
}

pub fn c16() -> Prop {
    let n = fp::primes_upto(43).len() as u64;
    Prop {
        id: "C16",
        rule: "modular polynomials of level 2, 3, 5 and 7 (one case each; repeated in the same process): symmetry, degree, Kronecker's congruence, vanishing of every coefficient of its q-expansion up to q^6 computed from independent series; ansatz, q-expansion and equations compared exactly; every case is non-trivial",
        scenarios: vec![
            sc("polynomial", 4, 12, c16_poly).steps(100_000_000_000).cpu(800),
            sc("expansion", 7, 40, c16_expansion).steps(20_000_000_000).cpu(600),
            sc("ansatz", n, n, c16_ansatz).exhaustive(n),
        ],
    }
}

// ---------------------------------------------------------------- C26

fn exponent(r: &mut Rng, big: bool) -> u64 {
    match r.below(5) {
        0 => r.range(0, 3) as u64,
        1 => r.range(0, 40) as u64,
        2 => (1u64 << r.usize(0, 6)) + r.range(-1, 1) as u64 % 2,
        _ => if big { r.u64() >> r.usize(0, 63) } else { r.range(0, 200) as u64 },
    }
}

fn c26_power(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let b = int(r);
    let n = match r.below(8) {
        0 if b.abs() <= bi(1) => r.range(0, i32::MAX as i64) as u64,
        1 if b.abs() <= bi(1 << 40) && r.one_in(4) => r.range(200, 4000) as u64,
        _ => exponent(r, false),
    };
    c.input(&(&b, n));
    c.nontrivial = n >= 2 && b.abs() > bi(1);
    c.note(|| format!("{}^{}", b, n));
    let want = if b.abs() <= bi(1) { if n == 0 { bi(1) } else if n % 2 == 0 { b.abs() } else { b.clone() } } else { npow(&b, n) };
    let v = c.lib("BigInt.power(i32)", || b.power(n as i32))?;
    ensure!(v == want, "{}^{} (i32) is {}", b, n, short(&v.to_string()));
    let e = BigInt::from(n);
    let v = c.lib("BigInt.power(&BigInt)", || b.power(&e))?;
    ensure!(v == want, "{}^{} (&BigInt) is {}", b, n, short(&v.to_string()));
    let v = c.lib("BigInt.power(BigInt)", || b.power(e.clone()))?;
    ensure!(v == want, "{}^{} (BigInt) is {}", b, n, short(&v.to_string()));
    if b.abs() <= bi(1) {
        // exponents of any size have a power of 0, 1 and -1
        let e = huge_exponent(&mut c.rng);
        let want = if e.is_zero() { bi(1) } else if e.is_even() { b.abs() } else { b.clone() };
        let v = c.lib("BigInt.power(&BigInt)", || b.power(&e))?;
        ensure!(v == want, "{}^{} (&BigInt) is {}", b, e, short(&v.to_string()));
        let v = c.lib("BigInt.power(BigInt)", || b.power(e.clone()))?;
        ensure!(v == want, "{}^{} (BigInt) is {}", b, e, short(&v.to_string()));
        c.feat("huge exponent");
    }
    Ok(())
}

/// exponents of up to 300 bits, often next to a power of two
pub fn huge_exponent(r: &mut Rng) -> BigInt {
    let k = r.usize(1, 300);
    match r.below(4) {
        0 => bits(r, k),
        1 => { let b = [31, 32, 53, 62, 63, 64, 65, 96, 127, 128, 129, 256]; (BigInt::one() << b[r.usize(0, b.len() - 1)]) + bi(r.range(-2, 2)) }
        2 => (BigInt::one() << k) + bi(r.range(-1, 1)),
        _ => bits(r, k) * 2 + 1,
    }
}

fn c26_modular(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let m = match r.below(4) {
        0 if r.one_in(60) => {
            let k = r.usize(260, 2100);
            bits(r, k) + 2
        }
        0 => bi(r.range(2, 40)),
        1 => fp::any_prime(r, 2),
        2 => {
            let k = r.usize(2, 260);
            bits(r, k) + 2
        }
        _ => bi(*r.pick(&[2i64, 4, 8, 65536, 1 << 32, (1 << 32) - 1, 1 << 62])),
    };
    let b0 = int(r);
    let b = match r.below(4) {
        0 => &m * bi(r.range(-3, 3)),
        1 => &m * bi(r.range(-3, 3)) + r.range(-1, 1),
        _ => b0,
    };
    let n = if r.one_in(4) {
        let k = r.usize(1, 300);
        bits(r, k)
    } else {
        BigInt::from(exponent(r, true))
    };
    c.input(&(&b, &n, &m));
    c.nontrivial = n > bi(1);
    c.note(|| format!("{}^{} mod {}", b, n, m));
    let want = fp::powm(&b, &n, &m);
    let v = c.lib("BigInt.power_modulo", || b.power_modulo(&n, &m))?;
    ensure!(v == want, "{}^{} mod {} is {}, should be {}", b, n, m, v, want);
    Ok(())
}

fn c26_inverse(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p = fp::any_prime(r, 2);
    let b = int(r);
    let b = rep(r, &b, &p);
    if b.is_multiple_of(&p) {
        return Ok(());
    }
    c.input(&(&b, &p));
    c.nontrivial = !(&b - BigInt::one()).is_multiple_of(&p);
    c.note(|| format!("1/{} mod {}", b, p));
    let v = c.lib("BigInt.inverse", || b.inverse(&p))?;
    ensure!(v.is_positive() && v < p, "1/{} mod {} is {}: out of range", b, p, v);
    ensure!((&v * &b - BigInt::one()).is_multiple_of(&p), "1/{} mod {} is {}: the product is not 1", b, p, v);
    ensure!(v == fp::inv(&b, &p), "reference disagrees");
    Ok(())
}

/// all residues for small moduli
fn c26_all(c: &mut Ctx) -> Res {
    let m = c.idx + 2;
    let mb = BigInt::from(m);
    c.input(&m);
    c.nontrivial = true;
    for b in -(m as i64)..=m as i64 {
        let mut w = bi(1);
        for n in 0..12i64 {
            let v = c.lib("BigInt.power_modulo", || bi(b).power_modulo(&bi(n), &mb))?;
            ensure!(v == w.mod_floor(&mb), "{}^{} mod {} is {}", b, n, m, v);
            w *= b;
        }
        if fp::is_prime_u(m) && b.rem_euclid(m as i64) != 0 {
            let v = c.lib("BigInt.inverse", || bi(b).inverse(&mb))?;
            ensure!(v.is_positive() && v < mb && (&v * b - BigInt::one()).is_multiple_of(&mb), "1/{} mod {} is {}", b, m, v);
        }
    }
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "random bases (negative, multiples of the modulus, up to 300 bits), exponents from 0 (up to 300 bits modular), moduli prime and composite from 2, all residues for moduli up to 121; compared with left-to-right exponentiation and extended Euclid; non-trivial: exponent >= 2, inverse of something else than 1",
        scenarios: vec![
            sc("all-small", 120, 120, c26_all).exhaustive(120),
            sc("power", 320_000, 1_280_000, c26_power),
            sc("modular", 320_000, 1_280_000, c26_modular),
            sc("inverse", 150_000, 400_000, c26_inverse),
        ],
    }
}

// ---------------------------------------------------------------- C27

fn euclid(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}

fn c27_check(c: &mut Ctx, a: &BigInt, b: &BigInt) -> Res {
    c.input(&(a, b));
    c.note(|| format!("extended_gcd({}, {})", a, b));
    let (g, x, y) = c.lib("extended_gcd", || extended_gcd(a.clone(), b.clone()))?;
    let w = euclid(a, b);
    ensure!(g.abs() == w, "extended_gcd({}, {}): gcd {}, should be {}", a, b, g, w);
    ensure!(a * &x + b * &y == g, "extended_gcd({}, {}): {} a + {} b is not {}", a, b, x, y, g);
    if !a.is_negative() && !b.is_negative() {
        ensure!(!g.is_negative(), "extended_gcd({}, {}): gcd {} is negative", a, b, g);
    }
    c.nontrivial = !a.is_zero() && !b.is_zero();
    if a.is_negative() || b.is_negative() {
        c.feat("negative operands");
    }
    if w > bi(1) {
        c.feat("common divisors");
    }
    Ok(())
}
fn c27_random(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (mut a, mut b) = (int(r), int(r));
    match r.below(6) {
        0 => {
            let g = nonzero(r);
            a *= &g;
            b *= g;
        }
        1 => a = &b * int(r),
        2 => {
            // consecutive Fibonacci numbers, the longest Euclidean runs
            let (mut u, mut v) = (bi(1), bi(1));
            let n = if r.one_in(40) { r.usize(300, 4000) } else { r.usize(1, 300) };
            for _ in 0..n {
                let t = &u + &v;
                u = v;
                v = t;
            }
            a = sign(r, u);
            b = sign(r, v);
        }
        3 if r.one_in(10) => {
            let (i, j, k) = (r.usize(300, 2100), r.usize(300, 2100), r.usize(1, 600));
            let g = bits(r, k);
            a = bits(r, i) * &g;
            b = bits(r, j) * g;
            a = sign(r, a);
        }
        _ => {}
    }
    if r.one_in(2) {
        std::mem::swap(&mut a, &mut b);
    }
    c27_check(c, &a, &b)
}
fn c27_all(c: &mut Ctx) -> Res {
    c27_check(c, &bi((c.idx % 81) as i64 - 40), &bi((c.idx / 81) as i64 - 40))
}

/// Operands with Euclidean runs of tens of thousands of steps.
fn c27_tall(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (a, b) = if r.one_in(3) {
        let (i, j) = (r.usize(20_000, 60_000), r.usize(20_000, 60_000));
        (bits(r, i), bits(r, j))
    } else {
        let (mut u, mut v) = (bi(r.range(0, 9)), bi(r.range(1, 9)));
        for _ in 0..r.usize(8_000, 60_000) {
            let t = &u + &v;
            u = v;
            v = t;
        }
        if r.one_in(2) { (u, v) } else { (v, u) }
    };
    let (a, b) = (sign(r, a), sign(r, b));
    c.feat("tens of thousands of steps");
    c27_check(c, &a, &b)
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "all pairs in -40..40, random pairs with common factors, multiples, consecutive Fibonacci numbers, up to 2700 bits and a few up to 60,000 bits, all signs; the Bezout identity and divisibility are checked against Euclid; non-trivial: both non-zero",
        scenarios: vec![
            sc("all-small", 6561, 6561, c27_all).exhaustive(6561),
            sc("random", 1_200_000, 3_200_000, c27_random),
            sc("tall", 24, 200, c27_tall),
        ],
    }
}

// ---------------------------------------------------------------- C28

fn c28_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let k = if r.one_in(4000) { r.usize(40, 140) } else if r.one_in(6) { r.usize(0, 30) } else { r.usize(0, 6) };
    let mut ls: Vec<BigInt> = vec![];
    let style = r.below(4);
    let wide = if r.scale != 0 { r.scale } else { *r.pick(&[8usize, 15, 16, 24, 31, 32, 33, 40, 48, 62, 63, 64, 65]) };
    if k > 30 {
        let mut v = fp::primes_upto(4000);
        r.shuffle(&mut v);
        ls.extend(v.into_iter().take(k).map(BigInt::from));
    }
    for _ in 0..k * 6 {
        if ls.len() >= k {
            break;
        }
        let l = match style {
            0 => bi(r.range(1, 30)),
            1 => {
                let v = fp::primes_upto(200);
                bi(*r.pick(&v) as i64)
            }
            // all about as large as one machine word
            2 => if r.one_in(2) { bits(r, wide) + 1 } else { (BigInt::one() << wide) - r.range(-20, 20).min((1i64 << wide.min(20)) - 1) },
            _ => match r.below(4) {
                0 => bi(r.range(1, 2000)),
                1 => fp::any_prime(r, 2),
                2 => npow(&bi(r.range(2, 13)), r.range(1, 20) as u64),
                _ => {
                    let k = r.usize(1, 150);
                    bits(r, k) + 1
                }
            },
        };
        if ls.iter().all(|m| euclid(m, &l).is_one()) {
            ls.push(l);
        }
    }
    r.shuffle(&mut ls);
    let list: Vec<ModResult> = ls.iter().map(|l| {
        let v = if r.one_in(3) { int(r) } else { int(r).mod_floor(l) };
        ModResult { l: l.clone(), r: v }
    }).collect();
    let key: Vec<(BigInt, BigInt)> = list.iter().map(|m| (m.l.clone(), m.r.clone())).collect();
    c.input(&key);
    c.nontrivial = list.len() >= 2;
    c.note(|| format!("{:?}", key.iter().map(|(l, r)| format!("{} mod {}", r, l)).collect::<Vec<_>>()));
    if ls.iter().any(|l| l.is_one()) {
        c.feat("lists with modulus 1");
    }
    if ls.is_empty() {
        c.feat("empty lists");
    }
    let before = list.clone();
    let v = c.lib("chinese_remainder", || chinese_remainder(&list))?;
    ensure!(list == before, "chinese_remainder changed its argument");
    let prod: BigInt = ls.iter().fold(bi(1), |a, l| a * l);
    ensure!(v.l == prod, "modulus {}, should be {}", v.l, prod);
    for m in &list {
        ensure!((&v.r - &m.r).is_multiple_of(&m.l), "the result {} mod {} is not {} modulo {}", v.r, v.l, m.r, m.l);
    }
    Ok(())
}

fn c28_all(c: &mut Ctx) -> Res {
    // all residues for small pairs of moduli
    let (a, b) = (c.idx % 12 + 1, c.idx / 12 + 1);
    if euclid(&BigInt::from(a), &BigInt::from(b)) != bi(1) {
        return Ok(());
    }
    c.input(&(a, b));
    c.nontrivial = true;
    for r in 0..a {
        for s in 0..b {
            let list = vec![ModResult { l: BigInt::from(a), r: BigInt::from(r) }, ModResult { l: BigInt::from(b), r: BigInt::from(s) }];
            let v = c.lib("chinese_remainder", || chinese_remainder(&list))?;
            ensure!(v.l == BigInt::from(a * b), "modulus {}", v.l);
            ensure!((&v.r - BigInt::from(r)).is_multiple_of(&BigInt::from(a)) && (&v.r - BigInt::from(s)).is_multiple_of(&BigInt::from(b)), "{} mod {}, {} mod {}: got {}", r, a, s, b, v.r);
        }
    }
    Ok(())
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "all residues for coprime moduli up to 12, random lists of up to 140 pairwise coprime moduli (1, primes, prime powers, all of one machine-word size, up to 521 bits) with any representatives in any order; each congruence is checked; non-trivial: two moduli or more",
        scenarios: vec![
            sc("all-small", 144, 144, c28_all).exhaustive(144),
            sc("random", 160_000, 1_000_000, c28_case),
        ],
    }
}
