//! The visibility graph of polygonal obstacles.
use super::geo::*;
use crate::sym::*;
use trellis::pathplan::cvt::Pobsopen;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

const N: usize = 18;
#[cfg(not(feature = "thorough"))]
const G: i64 = 2;
#[cfg(feature = "thorough")]
const G: i64 = 3;

#[cfg(not(feature = "thorough"))]
const K: i64 = 3;
#[cfg(feature = "thorough")]
const K: i64 = 5;

/// b is on the outer side of the corner a0 a1 a2, its sides included.
pub fn cone(a0: P, a1: P, a2: P, b: P) -> bool {
    let (m, p) = (turn(a0, a1, b) >= 0, turn(a1, a2, b) >= 0);
    if turn(a0, a1, a2) > 0 {
        m & p
    } else {
        m | p
    }
}

pub struct Obs {
    pub n: usize,
    pub np: usize,
    pub start: [usize; 6],
    pub p: [P; N],
    pub next: [usize; N],
    pub prev: [usize; N],
    pub of: [usize; N],
    /// the side of a cell of the grid
    pub unit: f64,
}
impl Obs {
    pub fn f(&self, p: P) -> Vec2<f64> {
        fine(p, self.unit)
    }
    pub fn dist(&self, a: P, b: P) -> f64 {
        let d = (dist2(a, b) as f64).sqrt();
        if self.unit == 1.0 {
            d
        } else {
            d * self.unit
        }
    }
}
pub fn fine(p: P, unit: f64) -> Vec2<f64> {
    if unit == 1.0 {
        f(p)
    } else {
        Vec2 { x: p.x as f64 * unit, y: p.y as f64 * unit }
    }
}

/// Obstacles of the given sizes with unknown corners.
pub fn obstacles(sizes: &[usize], grid: i64) -> Obs {
    let mut p = [P { x: 0, y: 0 }; N];
    let mut n = 0;
    for &s in sizes {
        n += s;
    }
    for q in p[..n].iter_mut() {
        *q = point(grid);
    }
    with_corners(sizes, &p[..n])
}

pub fn with_corners(sizes: &[usize], p: &[P]) -> Obs {
    let mut o = Obs { n: 0, np: sizes.len(), start: [0; 6], p: [P { x: 0, y: 0 }; N], next: [0; N], prev: [0; N], of: [0; N], unit: 1.0 };
    for (q, &s) in sizes.iter().enumerate() {
        o.start[q] = o.n;
        for i in 0..s {
            let k = o.n + i;
            o.p[k] = p[k];
            o.next[k] = o.n + (i + 1) % s;
            o.prev[k] = o.n + (i + s - 1) % s;
            o.of[k] = q;
        }
        o.n += s;
    }
    o.start[sizes.len()] = o.n;
    o
}

pub fn open(o: &Obs) -> trellis::pathplan::vis::vconfig_t {
    let mut l = Vec::new();
    for q in 0..o.np {
        let mut v = Vec::new();
        for i in o.start[q]..o.start[q + 1] {
            v.push(o.f(o.p[i]));
        }
        l.push(Ppoly_t { ps: v });
    }
    let mut r = Vec::new();
    for a in l.iter() {
        r.push(a);
    }
    Pobsopen(&r)
}

/// Obstacles of many corners, one of them possibly unknown, turned and scaled, and how.
pub fn scene(u: Option<P>) -> (Obs, i64, i64) {
    const fn c(x: i64, y: i64) -> P {
        P { x, y }
    }
    let mut b = [c(0, 0); N];
    // a square, a notched hexagon and a needle; a row of bars; a spiral around a triangle; stars of
    // concave corners with sides in line
    let (sizes, pts): (&[usize], &[P]) = match split(int(0, 3)) {
        0 => (&[4, 6, 2], &[c(1, 1), c(1, 4), c(4, 4), c(4, 1), c(6, 0), c(6, 6), c(8, 3), c(10, 6), c(10, 0), c(8, 1), c(2, 7), c(9, 9)]),
        1 => (&[2, 2, 2, 3, 1], &[c(0, 0), c(0, 6), c(2, 1), c(2, 7), c(4, 0), c(4, 6), c(6, 1), c(6, 7), c(7, 4), c(9, 3)]),
        2 => (&[10, 3], &[c(0, 0), c(0, 10), c(10, 10), c(10, 2), c(3, 2), c(3, 4), c(8, 4), c(8, 8), c(2, 8), c(2, 0), c(4, 6), c(5, 7), c(6, 5)]),
        _ => (&[8, 5, 1], &[c(4, 0), c(3, 3), c(0, 4), c(3, 5), c(4, 8), c(5, 5), c(8, 4), c(5, 3), c(10, 2), c(9, 5), c(10, 8), c(13, 8), c(13, 2), c(8, 8)]),
    };
    b[..pts.len()].copy_from_slice(pts);
    let n = pts.len();
    if let Some(u) = u {
        b[[0, n / 2, n - 1][split(int(0, 2)) as usize]] = u;
    }
    let (s, d, unit) = SCALES[split(int(0, 4)) as usize];
    let back = split(int(0, 1)) == 1;
    let mut e = [c(0, 0); N];
    for i in 0..n {
        let p = b[if back { n - 1 - i } else { i }];
        e[i] = placed(p, s, d);
    }
    let mut z = [0usize; 6];
    for q in 0..sizes.len() {
        z[q] = sizes[if back { sizes.len() - 1 - q } else { q }];
    }
    (Obs { unit, ..with_corners(&z[..sizes.len()], &e[..n]) }, s, d)
}
/// Lengths of the scenes' units, where their origin is, and the size of it all.
pub const SCALES: [(i64, i64, f64); 5] = [(1, 0, 1.0), (1000, -4321, 1.0), (1_000_000, 7, 1.0), (1, 1 << 34, 1.0), (1, -300, 1.0 / 64.0)];
pub fn placed(p: P, s: i64, d: i64) -> P {
    P { x: p.x * s + d, y: p.y * s - d }
}

fn judge(sizes: &[usize]) {
    judge_of(obstacles(sizes, G));
}
fn judge_of(o: Obs) {
    let c = open(&o);
    check(c.N == o.n && c.Npoly == o.np, 1);
    check(c.P.len() == o.n && c.next.len() == o.n && c.prev.len() == o.n && c.start.len() == o.np + 1, 2);
    for q in 0..=o.np {
        check(c.start[q] as usize == o.start[q], 3);
    }
    for i in 0..o.n {
        check(c.P[i] == o.f(o.p[i]), 4);
        check(c.next[i] as usize == o.next[i] && c.prev[i] as usize == o.prev[i], 5);
    }
    check(c.vis.rows == o.n, 6);
    for i in 0..o.n {
        for j in 0..o.n {
            let adjacent = o.next[i] == j || o.next[j] == i;
            let mut sees = i != j && cone(o.p[o.prev[i]], o.p[i], o.p[o.next[i]], o.p[j]) && cone(o.p[o.prev[j]], o.p[j], o.p[o.next[j]], o.p[i]);
            for k in 0..o.n {
                sees &= !hides(o.p[i], o.p[j], o.p[k], o.p[o.next[k]]);
            }
            let e = if adjacent || sees { o.dist(o.p[i], o.p[j]) } else { 0.0 };
            check(c.vis[(i, j)] == e, 7);
            observe(c.vis[(i, j)].to_bits());
        }
    }
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p19_one() {
    match split(int(1, 4)) {
        1 => judge(&[1]),
        2 => judge(&[2]),
        3 => judge(&[3]),
        _ => judge(&[4]),
    }
}
#[no_mangle]
pub extern "C" fn h_p19_two() {
    match split(int(0, 3)) {
        0 => judge(&[1, 1]),
        1 => judge(&[2, 2]),
        2 => judge(&[3, 1]),
        _ => judge(&[1, 3]),
    }
}
#[no_mangle]
pub extern "C" fn h_p19_pair() {
    judge(&[3, 2]);
}

/// Scenes of many corners, one of them unknown.
#[no_mangle]
pub extern "C" fn h_p19_scene() {
    judge_of(scene(Some(P { x: 3 + int(0, K), y: 3 + int(0, K) })).0);
}

list!(h_p19_one, h_p19_two, h_p19_pair, h_p19_scene);
