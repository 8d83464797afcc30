//! The shortest path inside a simple polygon.
use super::geo::*;
use crate::sym::*;
use trellis::pathplan::shortest::Pshortestpath;

const MP: usize = 62;

/// Strictly inside, for a point that is on no side.
fn inside(p: &[P], q: P) -> bool {
    let n = p.len();
    let mut r = false;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let left = turn(a, b, q) > 0;
        r ^= ((a.y > q.y) != (b.y > q.y)) & (left == (b.y > a.y));
    }
    r
}

/// A simple polygon without three corners on a line, and two points strictly inside, the first on
/// no line through two corners.
fn wellformed(p: &[P], a: P, b: P) -> bool {
    let n = p.len();
    let mut ok = true;
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                ok &= turn(p[i], p[j], p[k]) != 0;
            }
            ok &= turn(p[i], p[j], a) != 0;
            if j != i + 1 && (j + 1) % n != i {
                ok &= !cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
            }
        }
        ok &= !((turn(p[i], p[(i + 1) % n], b) == 0) & ((b == p[i]) | between(p[i], p[(i + 1) % n], b)));
    }
    ok & inside(p, a) & inside(p, b)
}

fn judge(p: &[P], a: P, b: P) {
    judge_at(p, a, b, 1.0, 0.0)
}
/// The outline and the ends, so many times as large, and moved.
fn judge_at(p: &[P], a: P, b: P, size: f64, by: f64) {
    let f = |q: P| trellis::vec2::Vec2 { x: q.x as f64 * size + by, y: q.y as f64 * size - by };
    let n = p.len();
    let mut area = 0;
    for i in 0..n {
        area += turn(p[0], p[i], p[(i + 1) % n]);
    }
    let outline = trellis::polyline::Ppoly_t { ps: p.iter().map(|&q| f(q)).collect() };
    let path = match Pshortestpath(&outline, &[f(a), f(b)]) {
        Ok(p) => p.ps,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    let m = path.len();
    check(m >= 2 && m <= n + 2, 2);
    check(path[0] == f(a) && path[m - 1] == f(b), 3);
    let mut q = [P { x: 0, y: 0 }; MP];
    let mut at = [0usize; MP];
    q[0] = a;
    for i in 1..n + 2 {
        if i + 1 == m {
            q[i] = b;
        } else if i < m {
            let mut found = false;
            for k in 0..n {
                if path[i] == f(p[k]) {
                    found = true;
                    at[i] = k;
                }
            }
            check(found, 4);
            q[i] = p[at[i]];
        }
    }
    for i in 0..n + 1 {
        if i + 1 < m {
            // the leg stays inside
            for k in 0..n {
                check(!cross(q[i], q[i + 1], p[k], p[(k + 1) % n]), 5);
            }
        }
        if i > 0 && i + 1 < m {
            let v = q[i];
            let (c, d) = (p[(at[i] + n - 1) % n], p[(at[i] + 1) % n]);
            // the leg from a corner starts into the polygon or along its side
            let (s, t) = if area > 0 { (c, d) } else { (d, c) };
            let (l, r) = (turn(v, q[i + 1], s), turn(v, q[i + 1], t));
            let into = if turn(s, v, t) > 0 { l >= 0 && r <= 0 } else { l >= 0 || r <= 0 };
            check(into, 6);
            // and the path is taut: it bends around the corner, which lies within the bend
            let w = sgn(turn(q[i - 1], v, q[i + 1]));
            // (0: it passes the corner straight on)
            for x in [c, d] {
                check(w * turn(q[i - 1], v, x) >= 0 && w * turn(v, q[i + 1], x) >= 0, 8);
            }
            reach(2);
        }
    }
    observe(m as u64);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p21_triangle() {
    let p = [point(3), point(3), point(3)];
    let (a, b) = (point(3), point(3));
    assume(wellformed(&p, a, b));
    judge(&p, a, b);
}

const fn c(x: i64, y: i64) -> P {
    P { x, y }
}
/// The outline from any of its corners on, one way round or the other.
fn turned<const N: usize>(p: [P; N], step: usize) -> [P; N] {
    let r = split(int(0, (N / step - 1) as i64)) as usize * step;
    let back = split(int(0, 1)) == 1;
    let mut q = p;
    for i in 0..N {
        q[i] = p[(if back { N - i } else { i } + r) % N];
    }
    q
}
fn one_of(l: &[P]) -> P {
    l[split(int(0, l.len() as i64 - 1)) as usize]
}

/// A quadrilateral with one unknown corner.
#[no_mangle]
pub extern "C" fn h_p21_dart() {
    let u = P { x: 2 + 2 * split(int(0, 2)), y: int(0, 8) };
    let p = turned([c(0, 0), c(8, 1), u, c(1, 8)], 2);
    let (a, b) = (one_of(&[c(1, 7), c(1, 2)]), point(8));
    assume(wellformed(&p, a, b));
    judge(&p, a, b);
}
/// Fixed outlines, one end unknown.
#[no_mangle]
pub extern "C" fn h_p21_horseshoe() {
    let p = turned([c(0, 0), c(9, 1), c(10, 9), c(7, 8), c(6, 3), c(3, 4), c(2, 11), c(1, 10)], 3);
    let (a, b) = (one_of(&[c(2, 9), c(9, 7)]), point(11));
    assume(wellformed(&p, a, b));
    judge(&p, a, b);
}
#[cfg(not(feature = "thorough"))]
const COMB: usize = 8;
#[cfg(feature = "thorough")]
const COMB: usize = 2;
#[no_mangle]
pub extern "C" fn h_p21_comb() {
    let p = turned([c(0, 0), c(12, 1), c(11, 7), c(10, 2), c(7, 9), c(5, 3), c(4, 12), c(1, 11)], COMB);
    let (a, b) = (one_of(&[c(3, 10), c(7, 6)]), point(12));
    assume(wellformed(&p, a, b));
    judge(&p, a, b);
}

/// Outlines of 14 and 16 corners: a spiral, a zigzag and three rooms.
fn maze<const N: usize>(p: [P; N], a: &[P]) {
    let p = turned(p, N / 2);
    let (x, y) = (split(int(0, 3)) * 7, split(int(0, 2)) * 7);
    let (a, b) = (one_of(a), P { x: x + int(0, 6), y: y + int(0, 6) });
    assume(wellformed(&p, a, b));
    judge(&p, a, b);
}
#[no_mangle]
pub extern "C" fn h_p21_spiral() {
    maze([c(1, 0), c(21, 0), c(20, 20), c(3, 20), c(3, 7), c(15, 6), c(14, 15), c(8, 15), c(8, 11), c(11, 11), c(11, 9), c(6, 10), c(6, 18), c(18, 17), c(18, 4), c(0, 3)], &[c(5, 12), c(17, 18), c(1, 2)]);
}
#[no_mangle]
pub extern "C" fn h_p21_zigzag() {
    maze([c(0, 0), c(5, 9), c(8, 1), c(12, 8), c(16, 0), c(21, 8), c(24, 1), c(25, 6), c(20, 14), c(17, 6), c(13, 15), c(9, 7), c(5, 14), c(1, 7)], &[c(2, 4), c(12, 12), c(23, 4)]);
}
#[no_mangle]
pub extern "C" fn h_p21_rooms() {
    maze([c(1, 0), c(9, 1), c(10, 5), c(11, 5), c(12, 0), c(21, 1), c(20, 10), c(12, 9), c(13, 12), c(20, 12), c(21, 21), c(0, 21), c(1, 13), c(9, 13), c(8, 11), c(0, 10)], &[c(2, 2), c(16, 18), c(18, 2)]);
}

/// Outlines of other sizes, small, large and far from the origin.
#[no_mangle]
pub extern "C" fn h_p21_sizes() {
    const SIZES: [(f64, f64); 5] = [(1.0 / 1024.0, 0.0), (4096.0, 0.0), (0.125, -1000.0), (1.0 / 65536.0, 0.5), (1048576.0, 8388608.0)];
    let (size, by) = SIZES[split(int(0, 4)) as usize];
    let p = turned([c(0, 0), c(5, 9), c(8, 1), c(12, 8), c(16, 0), c(21, 8), c(24, 1), c(25, 6), c(20, 14), c(17, 6), c(13, 15), c(9, 7), c(5, 14), c(1, 7)], 14);
    let a = one_of(&[c(2, 4), c(12, 12), c(23, 4)]);
    let b = P { x: split(int(0, 2)) * 8 + int(0, 7), y: int(0, 15) };
    assume(wellformed(&p, a, b));
    judge_at(&p, a, b, size, by);
}

/// A long winding corridor.
#[no_mangle]
pub extern "C" fn h_p21_long() {
    const OUTLINE: [P; 60] = [c(0, 1), c(35, 29), c(61, 1), c(98, 34), c(124, -1), c(158, 32), c(190, 3), c(220, 26), c(254, -2), c(287, 34), c(319, 2), c(353, 32), c(385, 0), c(413, 30), c(446, 3), c(476, 30), c(513, 2), c(543, 33), c(577, 4), c(605, 31), c(642, -3), c(670, 27), c(707, -2), c(732, 29), c(766, -4), c(798, 28), c(835, 0), c(868, 28), c(894, -3), c(932, 31), c(929, 56), c(899, 22), c(867, 53), c(829, 24), c(798, 54), c(764, 25), c(739, 54), c(700, 19), c(670, 52), c(640, 26), c(608, 48), c(576, 25), c(545, 56), c(511, 19), c(476, 53), c(451, 20), c(417, 52), c(380, 23), c(352, 49), c(320, 18), c(287, 50), c(256, 23), c(223, 51), c(190, 20), c(158, 49), c(130, 22), c(93, 51), c(67, 21), c(28, 50), c(4, 18)];
    const IN: [P; 30] = [c(4, 9), c(30, 40), c(69, 9), c(99, 38), c(129, 14), c(157, 41), c(195, 11), c(223, 38), c(258, 11), c(292, 43), c(316, 13), c(355, 38), c(385, 9), c(413, 42), c(450, 11), c(472, 43), c(509, 14), c(549, 46), c(581, 14), c(601, 38), c(638, 14), c(675, 35), c(705, 7), c(732, 37), c(762, 7), c(800, 40), c(835, 8), c(868, 43), c(896, 11), c(928, 44)];
    let back = split(int(0, 1)) == 1;
    let first = [0usize, 17][split(int(0, 1)) as usize];
    let mut p = OUTLINE;
    for i in 0..60 {
        p[i] = OUTLINE[(if back { 59 - i } else { i } + first) % 60];
    }
    let a = one_of(&[IN[0], IN[14]]);
    let b = split(int(0, 14)) as usize * 2 + 1;
    assume(a != IN[b]);
    judge(&p, a, IN[b]);
}

list!(h_p21_sizes, h_p21_long, h_p21_spiral, h_p21_zigzag, h_p21_rooms, h_p21_triangle, h_p21_dart, h_p21_horseshoe, h_p21_comb);
