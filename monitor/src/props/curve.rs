use crate::ensure;
use crate::fp::{self, spt_big, Curve, Pt, SPt, Small};
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::rt::*;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use ellipticcurve::secp256k1::Secp256k1;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

/// any representation of a point
pub fn pt_lib(r: &mut Rng, pt: &Pt, p: &BigInt) -> ECPoint {
    match pt {
        None => match r.below(3) {
            0 | 1 => ECPoint::infinity(),
            _ => ECPoint { x: int(r), y: int(r), z: BigInt::zero() },
        },
        Some((x, y)) => ECPoint { x: rep(r, x, p), y: rep(r, y, p), z: BigInt::one() },
    }
}
pub fn pt_canon(pt: &Pt) -> ECPoint {
    match pt {
        None => ECPoint { x: BigInt::zero(), y: BigInt::one(), z: BigInt::zero() },
        Some((x, y)) => ECPoint { x: x.clone(), y: y.clone(), z: BigInt::one() },
    }
}
pub fn show(pt: &ECPoint) -> String {
    format!("({}, {}; {})", pt.x, pt.y, pt.z)
}
/// the point a library value stands for; z = 0 is O, finite points have z = 1
pub fn pt_ref(what: &str, pt: &ECPoint, p: &BigInt) -> Result<Pt, String> {
    if pt.z.is_zero() {
        return Ok(None);
    }
    ensure!(pt.z.is_one(), "{}: {} is neither O nor an affine point", what, show(pt));
    Ok(Some((pt.x.mod_floor(p), pt.y.mod_floor(p))))
}
pub fn same_pt(what: &str, got: &ECPoint, want: &Pt, p: &BigInt) -> Res {
    let g = pt_ref(what, got, p)?;
    ensure!(&g == want, "{}: got {}, expected {:?}", what, show(got), want.as_ref().map(|v| (v.0.to_string(), v.1.to_string())));
    Ok(())
}
/// ... and in 0..p-1
fn reduced_pt(what: &str, got: &ECPoint, p: &BigInt) -> Res {
    if !got.z.is_zero() {
        ensure!(!got.x.is_negative() && &got.x < p && !got.y.is_negative() && &got.y < p, "{}: {} is not reduced modulo {}", what, show(got), p);
    }
    Ok(())
}

/// decodes an index into (p, a, b), all pairs for each of the primes
pub fn code(mut idx: u64, ps: &[u64]) -> Small {
    for p in ps {
        if idx < p * p {
            return Small { a: idx / p, b: idx % p, p: *p };
        }
        idx -= p * p;
    }
    panic!("index outside the enumerated space")
}
pub fn space(ps: &[u64]) -> u64 {
    ps.iter().map(|p| p * p).sum()
}

fn raw(r: &mut Rng, k: &Curve) -> EllipticCurve {
    let a = rep(r, &k.a, &k.p);
    let b = rep(r, &k.b, &k.p);
    EllipticCurve::new_raw(&a, &b, &k.p)
}

/// a random non-singular curve over a prime field of any size, with points
fn big_curve(r: &mut Rng, lo: u64) -> Curve {
    loop {
        let p = fp::any_prime(r, lo);
        let pick = r.below(8);
        let e = |r: &mut Rng| match r.below(3) {
            0 => bi(r.range(-5, 5)),
            _ => bits(r, 300),
        };
        let (a, b) = match pick {
            0 => (BigInt::zero(), e(r)),
            1 => (e(r), BigInt::zero()),
            _ => (e(r), e(r)),
        };
        let k = Curve::new(&a, &b, &p);
        if k.nonsingular() {
            return k;
        }
    }
}
fn some_point(r: &mut Rng, k: &Curve) -> Pt {
    if r.one_in(15) {
        return None;
    }
    for _ in 0..60 {
        let x = match r.below(3) {
            0 => BigInt::from(r.below(10)).mod_floor(&k.p),
            1 => (-BigInt::from(r.below(10))).mod_floor(&k.p),
            _ => bits(r, 300).mod_floor(&k.p),
        };
        if let Some(y) = k.sqrt(&k.rhs(&x)) {
            return Some(if r.one_in(2) { k.neg(&Some((x.clone(), y.clone()))).unwrap() } else { (x, y) });
        }
    }
    None
}
fn small_nonsing(r: &mut Rng, ps: &[u64]) -> Small {
    loop {
        let p = *r.pick(ps);
        let k = match r.below(8) {
            0 => Small { a: 0, b: r.below(p), p },
            1 => Small { a: r.below(p), b: 0, p },
            _ => Small { a: r.below(p), b: r.below(p), p },
        };
        if k.nonsingular() {
            return k;
        }
    }
}

// ---------------------------------------------------------------- C17

fn check_list(what: &str, e: &EllipticCurve, k: &Small, card: usize, pts: &[ECPoint]) -> Res {
    let want = k.points();
    let p = BigInt::from(k.p);
    ensure!(e.p == p && (&e.a - BigInt::from(k.a)).mod_floor(&p).is_zero() && (&e.b - BigInt::from(k.b)).mod_floor(&p).is_zero(), "{}: the curve is {} {} {}", what, e.a, e.b, e.p);
    ensure!(e.points.len() == want.len(), "{}: {} points listed, {} exist", what, e.points.len(), want.len());
    for (i, (g, w)) in e.points.iter().zip(&want).enumerate() {
        same_pt(&format!("{}: point {}", what, i), g, &spt_big(*w), &p)?;
        reduced_pt(what, g, &p)?;
    }
    ensure!(card == want.len(), "{}: cardinality {} for {} points", what, card, want.len());
    ensure!(pts == &e.points[..], "{}: points() differs from the list", what);
    Ok(())
}

fn c17_curve(c: &mut Ctx, k: Small) -> Res {
    let kb = k.big();
    let (a, b) = (rep(&mut c.rng, &kb.a, &kb.p), rep(&mut c.rng, &kb.b, &kb.p));
    c.input(&(&a, &b, k.p));
    c.nontrivial = true;
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}", a, b, k.p));
    if !k.nonsingular() {
        c.feat("singular curves");
    }
    let e = c.lib("EllipticCurve::new", || EllipticCurve::new(&a, &b, &kb.p))?;
    let n = c.lib("cardinality", || e.cardinality())?;
    let v = c.lib("points", || e.points())?;
    c.feat(&format!("curves with {} finite points", match v.len() { 0 | 1 => "no", 2..=4 => "1 to 3", _ => "4 or more" }));
    check_list("EllipticCurve::new", &e, &k, n, &v)?;
    // the two-step construction
    let mut e2 = c.lib("EllipticCurve::new_raw", || EllipticCurve::new_raw(&a, &b, &kb.p))?;
    ensure!(e2.points.is_empty(), "new_raw enumerated points");
    c.lib("create_points", || e2.create_points())?;
    let n2 = e2.cardinality();
    let v2 = e2.points();
    check_list("new_raw, then create_points", &e2, &k, n2, &v2)?;
    // membership
    let p = &kb.p;
    let probe = |c: &mut Ctx, x: BigInt, y: BigInt| -> Res {
        let on = kb.on(&x, &y);
        let pt = ECPoint { x, y, z: BigInt::one() };
        let got = c.lib("is_on_curve", || e.is_on_curve(&pt))?;
        ensure!(got == on, "is_on_curve says {} for {} on y^2 = x^3 + {} x + {} over F_{}", got, show(&pt), a, b, p);
        c.feat(if on { "points on the curve probed" } else { "points off the curve probed" });
        Ok(())
    };
    if k.p <= 7 {
        let n = 2 * k.p as i64;
        for x in -n..n {
            for y in -n..n {
                probe(c, bi(x), bi(y))?;
            }
        }
    } else {
        for _ in 0..20 {
            let (x, y) = (BigInt::from(c.rng.below(k.p)), BigInt::from(c.rng.below(k.p)));
            let (x, y) = (rep(&mut c.rng, &x, p), rep(&mut c.rng, &y, p));
            probe(c, x, y)?;
        }
        for _ in 0..10 {
            let pts = k.points();
            if let Some((x, y)) = *c.rng.pick(&pts) {
                let (x, y) = (rep(&mut c.rng, &x.into(), p), rep(&mut c.rng, &y.into(), p));
                let d = c.rng.range(-1, 1);
                probe(c, x, y + d)?;
            }
        }
    }
    let o = ECPoint { x: int(&mut c.rng), y: int(&mut c.rng), z: BigInt::zero() };
    ensure!(c.lib("is_on_curve", || e.is_on_curve(&o))?, "is_on_curve refuses O");
    Ok(())
}
fn c17_mid(c: &mut Ctx) -> Res {
    let ps: Vec<u64> = fp::primes_upto(if c.idx % 4 == 0 { 2_100 } else { 1_100 }).into_iter().filter(|p| *p > 256).collect();
    let p = *c.rng.pick(&ps);
    let k = Small { a: c.rng.below(p), b: c.rng.below(p), p };
    c17_curve(c, k)
}
fn c17_wide(c: &mut Ctx) -> Res {
    let (a, b) = if c.idx % 4 == 0 { (9_000, 10_100) } else { (2_100, 5_300) };
    let ps: Vec<u64> = fp::primes_upto(b).into_iter().filter(|p| *p > a).collect();
    let p = *c.rng.pick(&ps);
    let k = Small { a: c.rng.below(p), b: c.rng.below(p), p };
    c17_curve(c, k)
}
const C17P: [u64; 6] = [2, 3, 5, 7, 11, 13];
fn c17_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C17P);
    c17_curve(c, k)
}
fn c17_random(c: &mut Ctx) -> Res {
    let ps = fp::primes_upto(if c.rng.one_in(12) { 400 } else { 110 });
    let p = *c.rng.pick(&ps);
    let k = match c.rng.below(6) {
        0 => Small { a: 0, b: c.rng.below(p), p },
        1 => Small { a: c.rng.below(p), b: 0, p },
        2 => {
            // singular: x^3 - 3 t^2 x + 2 t^3
            let t = c.rng.below(p) as i64;
            Small::new(-3 * t * t, 2 * t * t * t, p)
        }
        _ => Small { a: c.rng.below(p), b: c.rng.below(p), p },
    };
    c17_curve(c, k)
}
fn c17_member(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let k = big_curve(r, 3);
    let e = raw(r, &k);
    c.input(&k);
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}", e.a, e.b, e.p));
    for _ in 0..4 {
        let pt = some_point(&mut c.rng, &k);
        let mut l = pt_lib(&mut c.rng, &pt, &k.p);
        match c.rng.below(4) {
            0 => l.y += 1,
            1 => l.x += c.rng.range(-3, 3),
            _ => {}
        }
        let on = l.z.is_zero() || k.on(&l.x, &l.y);
        c.nontrivial |= !l.z.is_zero();
        c.feat(if on { "large-field points on the curve" } else { "large-field points off the curve" });
        let got = c.lib("is_on_curve", || e.is_on_curve(&l))?;
        ensure!(got == on, "is_on_curve says {} for {} on y^2 = x^3 + {} x + {} over F_{}", got, show(&l), e.a, e.b, e.p);
    }
    Ok(())
}
pub fn c17() -> Prop {
    let n = space(&C17P);
    Prop {
        id: "C17",
        rule: "a curve (p up to about 10100) constructed and compared point by point with brute-force enumeration, or membership probes with at least one finite point",
        scenarios: vec![
            sc("all-small", n, n, c17_all).exhaustive(n).steps(200_000_000),
            sc("random", 500, 15_000, c17_random).steps(2_000_000_000),
            sc("mid", 40, 600, c17_mid).steps(40_000_000_000),
            sc("wide", 4, 40, c17_wide).steps(200_000_000_000).cpu(800),
            sc("member", 32_000, 200_000, c17_member).steps(20_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C18

fn sum_kind(c: &mut Ctx, u: &Pt, v: &Pt, w: &Pt) {
    c.feat(match (u, v) {
        (None, None) => "O + O",
        (None, _) => "O + P",
        (_, None) => "P + O",
        (Some(a), Some(b)) if a.0 == b.0 => {
            if w.is_some() { "doublings" } else if a.1.is_zero() { "doublings of 2-torsion" } else { "P + (-P)" }
        }
        _ => "chords",
    });
}

fn check_plus(c: &mut Ctx, e: &EllipticCurve, k: &Curve, u: &Pt, v: &Pt) -> Result<ECPoint, String> {
    let want = k.add(u, v);
    let (lu, lv) = (pt_lib(&mut c.rng, u, &k.p), pt_lib(&mut c.rng, v, &k.p));
    let g = c.lib("plus", || e.plus(&lu, &lv))?;
    let what = || format!("{} + {} on y^2 = x^3 + {} x + {} over F_{}", show(&lu), show(&lv), e.a, e.b, e.p);
    same_pt(&what(), &g, &want, &k.p)?;
    if u.is_some() && v.is_some() {
        reduced_pt(&what(), &g, &k.p)?;
    }
    ensure!(c.lib("is_on_curve", || e.is_on_curve(&g))?, "{}: the sum is not on the curve", what());
    sum_kind(c, u, v, &want);
    Ok(g)
}
fn check_neg(c: &mut Ctx, e: &EllipticCurve, k: &Curve, u: &Pt) -> Res {
    let lu = pt_lib(&mut c.rng, u, &k.p);
    let g = c.lib("negate", || e.negate(&lu))?;
    same_pt(&format!("-{} on y^2 = x^3 + {} x + {} over F_{}", show(&lu), e.a, e.b, e.p), &g, &k.neg(u), &k.p)?;
    let s = c.lib("plus", || e.plus(&lu, &g))?;
    same_pt("P + (-P)", &s, &None, &k.p)?;
    let can = c.lib("canonicalize", || e.canonicalize(&lu))?;
    same_pt("canonicalize", &can, u, &k.p)?;
    reduced_pt("canonicalize", &can, &k.p)
}
const C18P: [u64; 5] = [3, 5, 7, 11, 13];
fn c18_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C18P);
    if !k.nonsingular() {
        return Ok(());
    }
    let kb = k.big();
    let e = raw(&mut c.rng, &kb);
    c.input(&k);
    c.nontrivial = true;
    c.note(|| format!("all pairs on y^2 = x^3 + {} x + {} over F_{}", e.a, e.b, e.p));
    let pts: Vec<Pt> = k.points().into_iter().map(spt_big).collect();
    for u in &pts {
        check_neg(c, &e, &kb, u)?;
        for v in &pts {
            check_plus(c, &e, &kb, u, v)?;
        }
    }
    // on the small ones also associativity, all triples
    if k.p <= 5 {
        let l: Vec<ECPoint> = pts.iter().map(pt_canon).collect();
        for a in &l {
            for b in &l {
                for d in &l {
                    let x = c.lib("plus", || e.plus(&e.plus(a, b), d))?;
                    let y = c.lib("plus", || e.plus(a, &e.plus(b, d)))?;
                    ensure!(pt_ref("sum", &x, &kb.p)? == pt_ref("sum", &y, &kb.p)?, "({} + {}) + {} = {} but {} the other way round", a, b, d, show(&x), show(&y));
                }
            }
        }
    }
    Ok(())
}
fn laws(c: &mut Ctx, e: &EllipticCurve, k: &Curve, u: &Pt, v: &Pt, w: &Pt) -> Res {
    check_neg(c, e, k, u)?;
    let a = check_plus(c, e, k, u, v)?;
    let b = check_plus(c, e, k, v, u)?;
    ensure!(pt_ref("sum", &a, &k.p)? == pt_ref("sum", &b, &k.p)?, "addition is not commutative");
    let lw = pt_lib(&mut c.rng, w, &k.p);
    let lu = pt_lib(&mut c.rng, u, &k.p);
    let vw = check_plus(c, e, k, v, w)?;
    let x = c.lib("plus", || e.plus(&a, &lw))?;
    let y = c.lib("plus", || e.plus(&lu, &vw))?;
    let want = k.add(&k.add(u, v), w);
    same_pt("(P + Q) + R", &x, &want, &k.p)?;
    same_pt("P + (Q + R)", &y, &want, &k.p)?;
    check_plus(c, e, k, u, u)?;
    Ok(())
}
fn c18_random(c: &mut Ctx) -> Res {
    let k = big_curve(&mut c.rng, 3);
    let e = raw(&mut c.rng, &k);
    let u = some_point(&mut c.rng, &k);
    let v = match c.rng.below(5) {
        0 => u.clone(),
        1 => k.neg(&u),
        2 => k.add(&u, &u),
        _ => some_point(&mut c.rng, &k),
    };
    let w = match c.rng.below(4) {
        0 => k.neg(&k.add(&u, &v)),
        1 => v.clone(),
        _ => some_point(&mut c.rng, &k),
    };
    c.input(&(&k, &u, &v, &w));
    c.nontrivial = u.is_some() && v.is_some();
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}: {:?} {:?} {:?}", e.a, e.b, e.p, u, v, w));
    laws(c, &e, &k, &u, &v, &w)
}
/// two-torsion and points with a zero coordinate, over fields of any size
fn c18_special(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let (k, t) = loop {
        let p = fp::any_prime(r, 3);
        let x0 = match r.below(3) { 0 => BigInt::zero(), _ => bits(r, 200).mod_floor(&p) };
        let a = match r.below(3) { 0 => BigInt::zero(), _ => bits(r, 200) };
        let b = -(&x0 * &x0 * &x0 + &a * &x0);
        let k = Curve::new(&a, &b, &p);
        if k.nonsingular() {
            break (k, Some((x0, BigInt::zero())));
        }
    };
    let e = raw(r, &k);
    let o = some_point(r, &k);
    c.input(&(&k, &t, &o));
    c.nontrivial = true;
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}: 2-torsion {:?} and {:?}", e.a, e.b, e.p, t, o));
    laws(c, &e, &k, &t, &o, &t)?;
    laws(c, &e, &k, &o, &t, &None)
}
pub fn c18() -> Prop {
    let n = space(&C18P);
    Prop {
        id: "C18",
        rule: "a non-singular curve with every pair of its points added in random representatives, or a triple of points with at least two finite ones",
        scenarios: vec![
            sc("all-small", n, n, c18_all).exhaustive(n).steps(20_000_000),
            sc("random", 40_000, 250_000, c18_random).steps(20_000_000),
            sc("special", 40_000, 120_000, c18_special).steps(20_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C19

fn check_mul(c: &mut Ctx, e: &EllipticCurve, u: &Pt, n: &BigInt, want: &Pt, p: &BigInt) -> Result<ECPoint, String> {
    let lu = pt_lib(&mut c.rng, u, p);
    let g = c.lib("multiply_scalar", || e.multiply_scalar(&lu, n))?;
    same_pt(&format!("{} * {} on y^2 = x^3 + {} x + {} over F_{}", n, show(&lu), e.a, e.b, e.p), &g, want, p)?;
    c.feat(if n.is_zero() { "zero scalars" } else if n.is_negative() { "negative scalars" } else { "positive scalars" });
    Ok(g)
}
const C19P: [u64; 4] = [3, 5, 7, 11];
fn c19_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C19P);
    if !k.nonsingular() {
        return Ok(());
    }
    let kb = k.big();
    let e = raw(&mut c.rng, &kb);
    c.input(&k);
    c.nontrivial = true;
    c.note(|| format!("all multiples on y^2 = x^3 + {} x + {} over F_{}", e.a, e.b, e.p));
    let pts = k.points();
    let top = 2 * pts.len() as i64 + 3;
    for u in &pts {
        let mut pos: SPt = None;
        for n in 0..=top {
            let ub = spt_big(*u);
            check_mul(c, &e, &ub, &bi(n), &spt_big(pos), &kb.p)?;
            check_mul(c, &e, &ub, &bi(-n), &spt_big(k.neg(pos)), &kb.p)?;
            if pos.is_none() && n > 0 {
                c.feat("multiples of the order");
            }
            pos = k.add(pos, *u);
        }
    }
    Ok(())
}
fn scalar(r: &mut Rng, ord: u64) -> BigInt {
    let n = match r.below(6) {
        0 => bi(r.range(-4, 4)),
        1 => BigInt::from(r.below(3 * ord + 1)),
        2 => int(r),
        3 => BigInt::from(ord) * int(r) + r.range(-2, 2),
        4 => BigInt::one() << r.usize(1, 200),
        _ => { let k = r.usize(1, 200); bits(r, k) }
    };
    sign(r, n)
}
fn c19_small(c: &mut Ctx) -> Res {
    let ps: Vec<u64> = fp::primes_upto(150).into_iter().filter(|p| *p >= 3).collect();
    let k = small_nonsing(&mut c.rng, &ps);
    let kb = k.big();
    let mut e = raw(&mut c.rng, &kb);
    let pts = k.points();
    if c.rng.one_in(4) {
        // with its points listed
        e.create_points();
        c.feat("enumerated curves");
    }
    let u = *c.rng.pick(&pts);
    let ord = k.order(u);
    let ub = spt_big(u);
    let want = |n: &BigInt| {
        let m = n.mod_floor(&BigInt::from(ord));
        let m: i64 = m.to_str_radix(10).parse().unwrap();
        spt_big(k.mul(u, m))
    };
    // multiples of the order of the point, or of the group
    let size = pts.len() as u64;
    let around = if c.rng.one_in(3) { size } else { ord };
    let (m, n) = (scalar(&mut c.rng, around), scalar(&mut c.rng, ord));
    c.input(&(&k, &u, &m, &n));
    c.nontrivial = u.is_some() && (m.abs() >= bi(2) || n.abs() >= bi(2));
    c.note(|| format!("m = {}, n = {}, P = {:?} of order {} on y^2 = x^3 + {} x + {} over F_{}", m, n, u, ord, e.a, e.b, e.p));
    let mp = check_mul(c, &e, &ub, &m, &want(&m), &kb.p)?;
    let np = check_mul(c, &e, &ub, &n, &want(&n), &kb.p)?;
    let s = c.lib("plus", || e.plus(&mp, &np))?;
    same_pt("m P + n P", &s, &want(&(&m + &n)), &kb.p)?;
    check_mul(c, &e, &ub, &(&m + &n), &want(&(&m + &n)), &kb.p)?;
    let mn = c.lib("multiply_scalar", || e.multiply_scalar(&np, &m))?;
    same_pt("m (n P)", &mn, &want(&(&m * &n)), &kb.p)?;
    check_mul(c, &e, &ub, &(&m * &n), &want(&(&m * &n)), &kb.p)?;
    let wide = c.rng.usize(1, 300);
    let turns = if c.rng.one_in(2) { int(&mut c.rng) } else { bits(&mut c.rng, wide) };
    let shift = if c.rng.one_in(3) { BigInt::from(ord) * turns } else { &m + BigInt::from(ord) * turns };
    check_mul(c, &e, &ub, &shift, &want(&shift), &kb.p)?;
    Ok(())
}
fn c19_big(c: &mut Ctx) -> Res {
    let k = big_curve(&mut c.rng, 3);
    let e = raw(&mut c.rng, &k);
    let u = some_point(&mut c.rng, &k);
    let (m, n) = (scalar(&mut c.rng, 7), scalar(&mut c.rng, 13));
    c.input(&(&k, &u, &m, &n));
    c.nontrivial = u.is_some();
    c.note(|| format!("m = {}, n = {}, P = {:?} on y^2 = x^3 + {} x + {} over F_{}", m, n, u, e.a, e.b, e.p));
    let mp = check_mul(c, &e, &u, &m, &k.mul(&u, &m), &k.p)?;
    let np = check_mul(c, &e, &u, &n, &k.mul(&u, &n), &k.p)?;
    let mn = &m + &n;
    let sum = check_mul(c, &e, &u, &mn, &k.mul(&u, &mn), &k.p)?;
    let s = c.lib("plus", || e.plus(&mp, &np))?;
    ensure!(pt_ref("sum", &s, &k.p)? == pt_ref("sum", &sum, &k.p)?, "m P + n P is not (m + n) P");
    Ok(())
}
pub fn c19() -> Prop {
    let n = space(&C19P);
    Prop {
        id: "C19",
        rule: "every point of a curve with every multiple from -(2N+3) to 2N+3, or a finite point with scalars of size at least 2",
        scenarios: vec![
            sc("all-small", n, n, c19_all).exhaustive(n).steps(100_000_000),
            sc("small-field", 18_000, 200_000, c19_small).steps(100_000_000),
            sc("large-field", 3_600, 40_000, c19_big).steps(1_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C20

fn c20_curve(c: &mut Ctx, k: Small, orders: &[BigInt], reps: bool) -> Res {
    let kb = k.big();
    let (a, b) = (rep(&mut c.rng, &kb.a, &kb.p), rep(&mut c.rng, &kb.b, &kb.p));
    let e = c.lib("EllipticCurve::new", || EllipticCurve::new(&a, &b, &kb.p))?;
    let pts = k.points();
    c.nontrivial = pts.len() > 1;
    c.note(|| format!("y^2 = x^3 + {} x + {} over F_{}, {} points, n = {:?}", a, b, k.p, pts.len(), orders.iter().map(|n| n.to_string()).collect::<Vec<_>>()));
    let ords: Vec<u64> = pts.iter().map(|u| k.order(*u)).collect();
    for (u, o) in pts.iter().zip(&ords) {
        if k.p > 40 && !c.rng.one_in(1 + k.p / 20) {
            continue;
        }
        let l = if reps { pt_lib(&mut c.rng, &spt_big(*u), &kb.p) } else { pt_canon(&spt_big(*u)) };
        let g = c.lib("point_order", || e.point_order(&l))?;
        ensure!(g == BigInt::from(*o), "the order of {} on y^2 = x^3 + {} x + {} over F_{}: got {}, it is {}", show(&l), a, b, k.p, g, o);
        ensure!(BigInt::from(pts.len()).is_multiple_of(&g), "the order does not divide the cardinality");
        c.feat("point orders compared");
    }
    for n in orders {
        let v = c.lib("division_points", || e.division_points(n))?;
        let want: Vec<SPt> = pts.iter().zip(&ords).filter(|(_, o)| n.is_multiple_of(&BigInt::from(**o))).map(|(u, _)| *u).collect();
        let what = format!("division points for {} on y^2 = x^3 + {} x + {} over F_{}", n, a, b, k.p);
        let got = v.iter().map(|g| pt_ref(&what, g, &kb.p)).collect::<Result<Vec<Pt>, String>>()?;
        let want: Vec<Pt> = want.into_iter().map(spt_big).collect();
        ensure!(got == want, "{}: got {}, expected {:?}", what, v, want);
        // they are the listed points themselves, and a subgroup
        for g in v.iter() {
            ensure!(e.points.contains(g), "{}: {} is not in the point list", what, show(g));
        }
        ensure!(v.iter().any(|g| g.is_infinity()), "{}: O is missing", what);
        c.feat(match want.len() { 1 => "trivial kernels", n if n == pts.len() => "kernels that are the whole group", _ => "proper kernels" });
        if v.len() <= 40 {
            let x = c.rng.pick(&v[..]).clone();
            let y = c.rng.pick(&v[..]).clone();
            let s = c.lib("plus", || e.plus(&x, &y))?;
            ensure!(want.contains(&pt_ref("sum", &s, &kb.p)?), "{}: not closed under addition", what);
        }
    }
    Ok(())
}
const C20P: [u64; 5] = [3, 5, 7, 11, 13];
fn c20_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &C20P);
    if !k.nonsingular() {
        return Ok(());
    }
    c.input(&k);
    let n = k.points().len() as i64;
    let ns: Vec<BigInt> = (-3..=n + 2).map(bi).collect();
    c20_curve(c, k.clone(), &ns, false)?;
    c20_curve(c, k, &[], true)
}
fn c20_random(c: &mut Ctx) -> Res {
    let top = if c.rng.one_in(300) { 1_500 } else if c.rng.one_in(60) { 620 } else if c.rng.one_in(10) { 280 } else { 80 };
    let ps: Vec<u64> = fp::primes_upto(top).into_iter().filter(|p| *p >= 3).collect();
    let k = small_nonsing(&mut c.rng, &ps);
    let card = k.points().len() as u64;
    let ns: Vec<BigInt> = (0..4).map(|_| match c.rng.below(5) {
        0 => scalar(&mut c.rng, card),
        1 => BigInt::from(*c.rng.pick(&[2u32, 3, 4, 5, 6, 7, 8, 9, 11, 12])),
        2 => BigInt::from(card) * c.rng.range(-3, 3),
        3 => {
            let ds: Vec<u64> = (1..=card).filter(|d| card % d == 0).collect();
            let d = *c.rng.pick(&ds);
            sign(&mut c.rng, d.into())
        }
        _ => bi(c.rng.range(-30, 30)),
    }).collect();
    c.input(&(&k, &ns));
    c20_curve(c, k, &ns, true)
}
pub fn c20() -> Prop {
    let n = space(&C20P);
    Prop {
        id: "C20",
        rule: "a non-singular curve with more than one point whose orders and division points are compared with brute force",
        scenarios: vec![
            sc("all-small", n, n, c20_all).exhaustive(n).steps(400_000_000),
            sc("random", 4_500, 25_000, c20_random).steps(20_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C21

fn secp() -> (Curve, Pt, BigInt) {
    let k = Curve { a: BigInt::zero(), b: bi(7), p: fp::hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f") };
    let g = Some((fp::hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), fp::hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")));
    let n = fp::hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    (k, g, n)
}
fn c21_params(c: &mut Ctx) -> Res {
    let (k, g, n) = secp();
    let s = c.lib("Secp256k1::new", Secp256k1::new)?;
    c.input("parameters");
    c.nontrivial = true;
    ensure!(s.ec.p == k.p, "p is {}", s.ec.p);
    ensure!(s.ec.a.mod_floor(&k.p).is_zero() && s.ec.b.mod_floor(&k.p) == k.b, "the curve is y^2 = x^3 + {} x + {}", s.ec.a, s.ec.b);
    same_pt("G", &s.g, &g, &k.p)?;
    ensure!(c.lib("is_on_curve", || s.ec.is_on_curve(&s.g))?, "G is not on the curve");
    let v = c.lib("multiply_scalar", || s.ec.multiply_scalar(&s.g, &n))?;
    ensure!(v.is_infinity(), "n G is {}", show(&v));
    // published public keys
    let kat = [
        ("2", "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5", "1ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a"),
        ("3", "f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9", "388f7b0f632de8140fe337e62a37f3566500a99934c2231b6cb9fd7584b8e672"),
        ("14", "4ce119c96e2fa357200b559b2f7dd5a5f02d5290aff74b03f3e471b273211c97", "12ba26dcb10ec1625da61fa10a844c676162948271d96967450288ee9233dc3a"),
        ("aa5e28d6a97a2479a65527f7290311a3624d4cc0fa1578598ee3c2613bf99522", "34f9460f0e4f08393d192b3c5133a6ba099aa0ad9fd54ebccfacdfa239ff49c6", "0b71ea9bd730fd8923f6d25a7a91e7dd7728a960686cb5a901bb419e0f2ca232"),
        ("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "b7c52588d95c3b9aa25b0403f1eef75702e84bb7597aabe663b82f6f04ef2777"),
    ];
    for (s_, x, y) in kat.iter() {
        let e = fp::hex(s_);
        let w = Some((fp::hex(x), fp::hex(y)));
        ensure!(k.mul(&g, &e) == w, "reference disagrees with the published multiple {}", s_);
        let v = c.lib("multiply_scalar", || s.ec.multiply_scalar(&s.g, &e))?;
        same_pt(&format!("0x{} G", s_), &v, &w, &k.p)?;
        c.feat("published multiples compared");
    }
    Ok(())
}
fn c21_check(c: &mut Ctx, e: &BigInt) -> Res {
    let (k, g, n) = secp();
    c.input(e);
    c.nontrivial = e.abs() >= bi(2);
    c.note(|| format!("k = {}", e));
    let s = c.lib("Secp256k1::new", Secp256k1::new)?;
    let v = c.lib("multiply_scalar", || s.ec.multiply_scalar(&s.g, e))?;
    same_pt(&format!("{} G", e), &v, &k.mul(&g, &e.mod_floor(&n)), &k.p)?;
    c.feat(if e.is_negative() { "negative k" } else if e >= &n { "k at or above the group order" } else { "k below the group order" });
    Ok(())
}
fn c21_small(c: &mut Ctx) -> Res {
    let e = bi(c.idx as i64 - 60);
    c21_check(c, &e)
}
fn c21_random(c: &mut Ctx) -> Res {
    let (_, _, n) = secp();
    let r = &mut c.rng;
    let e = match r.below(8) {
        0 => &n + r.range(-30, 30),
        1 => &n * r.range(-3, 3) + r.range(-3, 3),
        2 => (BigInt::one() << r.usize(1, 300)) + r.range(-1, 1),
        3 => { let k = r.usize(1, 600); bits(r, k) }
        4 => -bits(r, 256),
        5 => int(r),
        // few bits set, long runs
        6 => {
            let mut v = BigInt::zero();
            for _ in 0..r.usize(1, 4) {
                v += BigInt::one() << r.usize(0, 255);
            }
            v
        }
        _ => bits(r, 256),
    };
    c21_check(c, &e)
}
pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "a multiple k G with |k| at least 2 compared with an independent scalar multiplication (left to right) of the standard generator",
        scenarios: vec![
            sc("parameters", 1, 1, c21_params).exhaustive(1).steps(1_000_000_000),
            sc("small-k", 121, 121, c21_small).exhaustive(121).steps(1_000_000_000),
            sc("random-k", 1_200, 40_000, c21_random).steps(1_000_000_000),
        ],
    }
}

// ---------------------------------------------------------------- C22

fn c22_check(c: &mut Ctx, k: &Curve) -> Res {
    let p = &k.p;
    let e = raw(&mut c.rng, k);
    let what = format!("j of y^2 = x^3 + {} x + {} over F_{}", e.a, e.b, p);
    let j = c.lib("j_invariant", || e.j_invariant())?;
    let want = k.j();
    ensure!(j == want, "{}: got {}, expected {}", what, j, want);
    ensure!(!j.is_negative() && &j < p, "{}: {} is not in 0..p-1", what, j);
    ensure!(j.is_zero() == k.a.is_zero(), "{}: {} but a = {}", what, j, k.a);
    ensure!((j == bi(1728).mod_floor(p)) == k.b.is_zero(), "{}: {} but b = {}", what, j, k.b);
    c.feat(if k.a.is_zero() { "j = 0" } else if k.b.is_zero() { "j = 1728" } else { "other j" });
    // the isomorphic curve by u
    let u = bits(&mut c.rng, 300).mod_floor(p);
    if !u.is_zero() {
        let u2 = &u * &u;
        let u4 = (&u2 * &u2).mod_floor(p);
        let tw = Curve::new(&(&u4 * &k.a), &(&u4 * &u2 * &k.b), p);
        let e2 = raw(&mut c.rng, &tw);
        let j2 = c.lib("j_invariant", || e2.j_invariant())?;
        ensure!(j2 == j, "{}: {} but {} for the isomorphic curve with u = {}", what, j, j2, u);
    }
    Ok(())
}
fn c22_primes() -> Vec<u64> {
    fp::primes_upto(43).into_iter().filter(|p| *p >= 5).collect()
}
fn c22_all(c: &mut Ctx) -> Res {
    let k = code(c.idx, &c22_primes());
    if !k.nonsingular() {
        return Ok(());
    }
    c.input(&k);
    c.nontrivial = true;
    c.note(|| format!("{:?}", k));
    c22_check(c, &k.big())
}
fn c22_random(c: &mut Ctx) -> Res {
    let k = big_curve(&mut c.rng, 5);
    c.input(&k);
    c.nontrivial = true;
    c.note(|| format!("{:?}", k));
    c22_check(c, &k)
}
/// constructed curves: the same number, and in their text
fn c22_listed(c: &mut Ctx) -> Res {
    let ps: Vec<u64> = fp::primes_upto(60).into_iter().filter(|p| *p >= 5).collect();
    let k = small_nonsing(&mut c.rng, &ps);
    let kb = k.big();
    c.input(&k);
    c.nontrivial = true;
    let (a, b) = (rep(&mut c.rng, &kb.a, &kb.p), rep(&mut c.rng, &kb.b, &kb.p));
    let e = c.lib("EllipticCurve::new", || EllipticCurve::new(&a, &b, &kb.p))?;
    let j = c.lib("j_invariant", || e.j_invariant())?;
    ensure!(j == BigInt::from(k.j()), "j of y^2 = x^3 + {} x + {} over F_{}: got {}, expected {}", a, b, k.p, j, k.j());
    Ok(())
}
pub fn c22() -> Prop {
    let n = space(&c22_primes());
    Prop {
        id: "C22",
        rule: "a non-singular curve over F_p, p >= 5, with a and b in random representatives, and an isomorphic one",
        scenarios: vec![
            sc("all-small", n, n, c22_all).exhaustive(n).steps(20_000_000),
            sc("random", 180_000, 800_000, c22_random).steps(20_000_000),
            sc("listed", 4_000, 32_000, c22_listed).steps(400_000_000),
        ],
    }
}
