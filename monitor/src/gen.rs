//! Boundary-biased generators.
use crate::model::*;
use crate::rng::Rng;
use num_bigint::BigInt;
use num_traits::{One, Zero};

pub fn bits(r: &mut Rng, n: usize) -> BigInt {
    let mut v = BigInt::zero();
    let mut k = 0;
    while k < n {
        let t = (n - k).min(64);
        let w = if t == 64 { r.u64() } else { r.u64() & ((1u64 << t) - 1) };
        v += BigInt::from(w) << k;
        k += t;
    }
    v
}
pub fn sign(r: &mut Rng, n: BigInt) -> BigInt {
    if r.one_in(2) { -n } else { n }
}
/// any integer
pub fn int(r: &mut Rng) -> BigInt {
    if r.scale != 0 && !r.one_in(8) {
        let n = match r.below(8) {
            0 => (BigInt::one() << r.scale) - r.range(0, 3),
            1 => (BigInt::one() << (r.scale - 1)) + r.range(-2, 2),
            _ => bits(r, r.scale),
        };
        return sign(r, n);
    }
    match r.below(11) {
        0..=3 => bi(r.range(-3, 3)),
        4 | 5 => bi(r.range(-30, 30)),
        // every machine size
        10 => {
            let k = r.usize(1, 70);
            let n = bits(r, k);
            sign(r, n)
        }
        6 => {
            let k = *r.pick(&[7usize, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128, 255, 256]);
            let n = (BigInt::one() << k) + r.range(-2, 2);
            sign(r, n)
        }
        7 => {
            let n = bits(r, 64);
            sign(r, n)
        }
        8 => bi(r.range(-100000, 100000)),
        _ => {
            let k = if r.one_in(20) { r.usize(300, 1100) } else { r.usize(1, 300) };
            let n = bits(r, k);
            sign(r, n)
        }
    }
}
pub fn nonzero(r: &mut Rng) -> BigInt {
    loop {
        let n = int(r);
        if !n.is_zero() {
            return n;
        }
    }
}
/// integer near the given scale: another representative modulo p now and then
pub fn rep(r: &mut Rng, v: &BigInt, p: &BigInt) -> BigInt {
    match r.below(5) {
        0 | 1 => v.clone(),
        2 => v - p,
        3 => v + p * bi(r.range(-4, 4)),
        _ => {
            let k = int(r);
            v + p * k
        }
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub x: (i64, i64),
    pub y: (i64, i64),
    pub q: (i64, i64),
    pub var: bool,
    pub terms: usize,
}
pub const X: Shape = Shape { x: (0, 8), y: (0, 0), q: (0, 0), var: false, terms: 7 };
pub const XY: Shape = Shape { x: (0, 6), y: (0, 6), q: (0, 0), var: false, terms: 7 };
pub const XYQ: Shape = Shape { x: (0, 4), y: (0, 4), q: (-4, 4), var: false, terms: 7 };
pub const Q: Shape = Shape { x: (0, 0), y: (0, 0), q: (0, 8), var: false, terms: 7 };
pub const QNEG: Shape = Shape { x: (0, 0), y: (0, 0), q: (-6, 8), var: false, terms: 7 };
pub const QVAR: Shape = Shape { x: (0, 0), y: (0, 0), q: (-5, 5), var: true, terms: 9 };
pub const ALLV: Shape = Shape { x: (-3, 4), y: (-3, 4), q: (-3, 4), var: true, terms: 7 };
pub const ALL: Shape = Shape { x: (-3, 4), y: (-3, 4), q: (-3, 4), var: false, terms: 7 };

impl Shape {
    pub fn with_terms(mut self, n: usize) -> Shape {
        self.terms = n;
        self
    }
    pub fn with_var(mut self, v: bool) -> Shape {
        self.var = v;
        self
    }
    pub fn with_x(mut self, a: i64, b: i64) -> Shape {
        self.x = (a, b);
        self
    }
    pub fn with_y(mut self, a: i64, b: i64) -> Shape {
        self.y = (a, b);
        self
    }
    pub fn with_q(mut self, a: i64, b: i64) -> Shape {
        self.q = (a, b);
        self
    }
}

pub fn var(r: &mut Rng) -> Var {
    if r.one_in(3) {
        None
    } else if r.one_in(8) {
        Some((r.range(0, 1 << 20) as i32, r.range(0, 1 << 20) as i32))
    } else {
        Some((r.range(0, 3) as i32, r.range(0, 3) as i32))
    }
}
fn expo(r: &mut Rng, b: (i64, i64)) -> i64 {
    if b.0 == b.1 {
        return b.0;
    }
    if b.0 <= 0 && b.1 >= 1 && r.one_in(3) {
        return r.range(0, 1);
    }
    r.range(b.0, b.1)
}
pub fn mono(r: &mut Rng, s: &Shape) -> Mono {
    let v = if s.var { var(r) } else { None };
    (expo(r, s.x), expo(r, s.y), expo(r, s.q), v)
}
/// any of the shapes usable everywhere in arithmetic
pub fn any_shape(r: &mut Rng) -> Shape {
    *r.pick(&[X, XY, XYQ, Q, QNEG, ALL])
}
pub fn poly(r: &mut Rng, s: &Shape) -> RPoly {
    let n = match r.below(10) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        4 if s.terms >= 7 && r.one_in(12) => r.usize(s.terms, s.terms.max(60)),
        _ => r.usize(1, s.terms),
    };
    let style = r.below(3);
    let mut p = RPoly::zero();
    for _ in 0..n {
        let c = match style {
            0 => bi(*r.pick(&[-2, -1, 1, 2])),
            _ => nonzero(r),
        };
        let m = mono(r, s);
        p.put(m, c);
    }
    p
}
pub fn nonzero_poly(r: &mut Rng, s: &Shape) -> RPoly {
    loop {
        let p = poly(r, s);
        if !p.is_zero() {
            return p;
        }
    }
}
/// a polynomial that cancels against p in part
pub fn related(r: &mut Rng, p: &RPoly, s: &Shape) -> RPoly {
    let k = r.below(5);
    match k {
        0 => p.neg(),
        1 => p.clone(),
        2 => {
            let mut o = p.neg();
            let m = mono(r, s);
            o.put(m, nonzero(r));
            o
        }
        3 => {
            let mut o = RPoly::zero();
            for (m, c) in &p.0 {
                match r.below(4) {
                    0 => o.put(*m, -c),
                    1 => o.put(*m, c.clone()),
                    2 => o.put(*m, nonzero(r)),
                    _ => {}
                }
            }
            o
        }
        _ => poly(r, s),
    }
}
/// many terms: dense in one variable or scattered
pub fn large(r: &mut Rng, top: usize) -> RPoly {
    let n = r.usize(12, top);
    let style = r.below(3);
    let mut p = RPoly::zero();
    let pick = r.below(5);
    let off = r.range(-3, 3);
    for i in 0..n as i64 {
        let c = match style {
            0 => bi(r.range(-2, 2)),
            1 => bi(r.range(-999, 999)),
            _ => int(r),
        };
        let m = match pick {
            0 => (i, 0, 0, None),
            1 => (0, 0, i + off, None),
            2 => (i % 9, i / 9, 0, None),
            3 => (r.range(0, 400), r.range(0, 3), 0, None),
            _ => (r.range(-9, 9), r.range(-9, 9), r.range(-9, 9), None),
        };
        p.put(m, c);
    }
    p
}
/// the same terms with powers moved next to the limits of the machine sizes; lim: the greatest
/// bit length allowed for x, y and q (0: leave alone)
pub fn far(r: &mut Rng, p: &RPoly, lim: (u32, u32, u32)) -> RPoly {
    let mut ax = |l: u32| -> (bool, u32) {
        let v: Vec<u32> = [7u32, 8, 15, 16, 20, 24, 30, 31].iter().cloned().filter(|b| *b <= l).collect();
        if v.is_empty() || r.one_in(3) { (false, 0) } else { (true, *r.pick(&v)) }
    };
    let (x, y, q) = (ax(lim.0), ax(lim.1), ax(lim.2));
    let mv = |e: i64, a: (bool, u32)| -> i64 {
        if !a.0 || e.abs() > 60 || e == 0 {
            return e;
        }
        let w = 1i64 << a.1;
        let n = match e.abs() % 3 {
            0 => e.abs(),
            1 => w - 1 - e.abs() / 3,
            _ if a.1 == 31 => w - 1 - e.abs(),
            _ => w + e.abs() / 3,
        };
        if e < 0 { -n } else { n }
    };
    p.map_mono(|m| (mv(m.0, x), mv(m.1, y), mv(m.2, q), m.3))
}
/// n terms at places anywhere in the shape
pub fn many(r: &mut Rng, s: &Shape, n: usize) -> RPoly {
    let style = r.below(3);
    let mut p = RPoly::zero();
    for _ in 0..n {
        let c = match style {
            0 => bi(r.range(-2, 2)),
            1 => bi(r.range(-999, 999)),
            _ => int(r),
        };
        let m = (r.range(s.x.0, s.x.1), r.range(s.y.0, s.y.1), r.range(s.q.0, s.q.1), if s.var { var(r) } else { None });
        p.put(m, c);
    }
    p
}
/// dense univariate with coefficients of any kind
pub fn uni(r: &mut Rng, maxdeg: usize) -> dense::D {
    let n = r.usize(0, maxdeg + 1);
    let style = r.below(3);
    dense::trim((0..n).map(|_| match style {
        0 => bi(r.range(-2, 2)),
        1 => if r.one_in(3) { BigInt::zero() } else { bi(r.range(-50, 50)) },
        _ => int(r),
    }).collect())
}
