//! Visibility between points among obstacles, and the route between them.
use super::geo::*;
use super::p19::{cone, fine, obstacles, open, placed, scene, with_corners, Obs, SCALES};
use crate::sym::*;
use trellis::pathplan::array2::allocArray;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::shortestpth::makePath;
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::*;
use trellis::pathplan::{POLYID_NONE, POLYID_UNKNOWN};

#[cfg(not(feature = "thorough"))]
const G: i64 = 3;
#[cfg(not(feature = "thorough"))]
const R: i64 = 5;
#[cfg(feature = "thorough")]
const R: i64 = 7;
#[cfg(feature = "thorough")]
const G: i64 = 4;

/// Inside or on the border of a convex polygon given clockwise: no side has the point on its left.
fn inside(ps: &[P], q: P) -> bool {
    let mut r = true;
    for i in 0..ps.len() {
        r &= turn(ps[i], ps[(i + 1) % ps.len()], q) <= 0;
    }
    r
}

/// Turns, betweenness and areas.
#[no_mangle]
pub extern "C" fn h_p20_basic() {
    let (a, b, c) = (point(R), point(R), point(R));
    check(wind(f(a), f(b), f(c)) as i64 == sgn(turn(a, b, c)), 1);
    check(area2(f(a), f(b), f(c)) == turn(a, b, c) as f64, 2);
    if turn(a, b, c) == 0 && a != b {
        check(inBetween(f(a), f(b), f(c)) == between(a, b, c), 3);
    }
    reach(1);
}

/// The same in other sizes and places.
#[no_mangle]
pub extern "C" fn h_p20_turns() {
    let (s, d, unit) = SCALES[split(int(0, 4)) as usize];
    const A: [(i64, i64); 6] = [(0, 0), (3, 4), (7, 1), (7, 7), (-2, 5), (9, -1)];
    let (i, j) = (split(int(0, 5)) as usize, split(int(0, 5)) as usize);
    let c = P { x: int(0, 7), y: int(0, 7) };
    let at = |i: usize| placed(P { x: A[i].0, y: A[i].1 }, s, d);
    let (a, b, c) = (at(i), at(j), placed(c, s, d));
    let (l, m, n) = (fine(a, unit), fine(b, unit), fine(c, unit));
    let t = turn(a, b, c);
    check(wind(l, m, n) as i64 == sgn(t), 1);
    check(wind(n, l, m) as i64 == sgn(t), 4);
    check(area2(l, m, n) == t as f64 * unit * unit, 2);
    if t == 0 && a != b {
        check(inBetween(l, m, n) == between(a, b, c), 3);
    }
    reach(1);
}

/// A point is in a convex clockwise polygon exactly when the triangles it spans with the sides fill
/// the polygon.
fn filled(n: usize, g: i64) {
    let p = [point(g), point(g), point(g), point(g)];
    let q = point(g);
    let mut area = 0;
    let mut sum = 0;
    for i in 0..n {
        let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]);
        assume(turn(a, b, c) < 0);
        sum += turn(a, b, q).abs();
        area += a.x * b.y - a.y * b.x;
    }
    let ps = poly(&p[..n]);
    check(in_poly(&ps.ps, f(q)) == (sum == -area), 10);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_p20_inside3() {
    filled(3, G);
}
#[no_mangle]
pub extern "C" fn h_p20_inside4() {
    filled(4, G - 1);
}

fn by_hand(o: &Obs) -> vconfig_t {
    let mut c = vconfig_t { Npoly: o.np, N: o.n, ..Default::default() };
    for i in 0..o.n {
        c.P.push(o.f(o.p[i]));
        c.next.push(o.next[i] as i32);
        c.prev.push(o.prev[i] as i32);
    }
    for q in 0..=o.np {
        c.start.push(o.start[q] as i32);
    }
    c
}

fn hit(o: &Obs, p: P) -> i32 {
    let mut r = POLYID_NONE;
    for q in (0..o.np).rev() {
        r = if inside(&o.p[o.start[q]..o.start[q + 1]], p) { q as i32 } else { r };
    }
    r
}

/// The first polygon around a point.
#[no_mangle]
pub extern "C" fn h_p20_hit() {
    let o = obstacles(&[3, 3], G);
    let p = point(G);
    check(polyhit(&by_hand(&o), f(p)) == hit(&o, p), 20);
    reach(1);
}

fn from_point(sizes: &[usize]) {
    let o = obstacles(sizes, G - 1);
    let p = point(G - 1);
    let pp = match split(int(0, 3)) {
        0 => POLYID_NONE,
        1 => POLYID_UNKNOWN,
        2 => 0,
        _ => o.np as i32 - 1,
    };
    let own = if pp == POLYID_UNKNOWN { hit(&o, p) } else { pp };
    from(&o, p, pp, own);
}
fn from(o: &Obs, p: P, pp: i32, own: i32) {
    let c = by_hand(o);
    let v = ptVis(&c, pp, o.f(p));
    check(v.len() == o.n + 2, 30);
    for k in 0..o.n {
        let mut sees = o.of[k] as i32 != own && cone(o.p[o.prev[k]], o.p[k], o.p[o.next[k]], p);
        for e in 0..o.n {
            sees &= o.of[e] as i32 == own || !hides(p, o.p[k], o.p[e], o.p[o.next[e]]);
        }
        let e = if sees { o.dist(p, o.p[k]) } else { 0.0 };
        check(v[k] == e, 31);
        observe(v[k].to_bits());
    }
    check(v[o.n] == 0.0 && v[o.n + 1] == 0.0, 32);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_p20_point() {
    match split(int(0, 1)) {
        0 => from_point(&[3]),
        _ => from_point(&[2, 1]),
    }
}
#[no_mangle]
pub extern "C" fn h_p20_point_pair() {
    from_point(&[3, 2]);
}

#[no_mangle]
pub extern "C" fn h_p20_point_three() {
    // an obstacle between the point's own and the others
    from_point(&[1, 2, 1]);
}

fn between_points(sizes: &[usize]) {
    let o = obstacles(sizes, G - 1);
    let (p, q) = (point(G - 1), point(G - 1));
    let top = o.np as i64 - 1;
    between_these(&o, p, q, split(int(-1, top)) as i32, split(int(-1, top)) as i32);
}
fn between_these(o: &Obs, p: P, q: P, pp: i32, qp: i32) {
    let id = |x: i32| if x < 0 { POLYID_NONE } else { x };
    let c = by_hand(o);
    let mut sees = true;
    for e in 0..o.n {
        let of = o.of[e] as i32;
        sees &= of == pp || of == qp || !hides(p, q, o.p[e], o.p[o.next[e]]);
    }
    check(directVis(o.f(p), id(pp), o.f(q), id(qp), &c) == sees, 40);
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_p20_direct_one() {
    between_points(&[3]);
}
#[no_mangle]
pub extern "C" fn h_p20_direct_two() {
    between_points(&[3, 3]);
}
#[no_mangle]
pub extern "C" fn h_p20_direct_three() {
    // three obstacles, so that one lies between the two that the points belong to
    between_points(&[2, 2, 2]);
}

/// A point anywhere among obstacles of many corners.
#[no_mangle]
pub extern "C" fn h_p20_scene_point() {
    let w = split(int(0, 1));
    let u = P { x: int(0, 7) + 5 * w, y: int(0, 7) + 2 * w };
    let (o, s, d) = scene(None);
    let pp = split(int(-1, 4)) as i32;
    assume(pp < o.np as i32);
    let pp = if pp < 0 { POLYID_NONE } else { pp };
    from(&o, placed(u, s, d), pp, pp);
}
/// Two points anywhere in two parts of such a scene.
#[no_mangle]
pub extern "C" fn h_p20_scene_direct() {
    let (u, v) = (P { x: int(0, 3), y: int(0, 3) }, P { x: int(0, 3), y: int(0, 3) });
    let (o, s, d) = scene(None);
    let (a, b) = [(0, 6), (5, 2), (6, 7)][split(int(0, 2)) as usize];
    let (pp, qp) = (split(int(-1, 4)) as i32, split(int(-1, 4)) as i32);
    assume(pp < o.np as i32 && qp < o.np as i32);
    between_these(&o, placed(P { x: u.x + a, y: u.y + 2 }, s, d), placed(P { x: v.x + b, y: v.y + 4 }, s, d), pp, qp);
}
/// A point among convex obstacles of many corners that overlap.
#[no_mangle]
pub extern "C" fn h_p20_scene_hit() {
    let u = P { x: int(0, 15), y: int(0, 15) };
    let mut e = [P { x: 0, y: 0 }; 17];
    let (s, d, unit) = SCALES[split(int(0, 4)) as usize];
    // an octagon, a pentagon, a triangle and a point on it: all clockwise
    const B: [(i64, i64); 17] = [(4, 1), (1, 4), (1, 7), (4, 10), (7, 10), (10, 7), (10, 4), (7, 1), (8, 8), (9, 13), (12, 14), (14, 11), (13, 8), (2, 9), (3, 15), (11, 12), (3, 15)];
    for i in 0..17 {
        e[i] = placed(P { x: B[i].0, y: B[i].1 }, s, d);
    }
    let o = if split(int(0, 1)) == 0 { with_corners(&[8, 5, 3, 1], &e) } else { with_corners(&[5, 3, 1], &e[8..]) };
    let o = Obs { unit, ..o };
    let p = placed(u, s, d);
    check(polyhit(&by_hand(&o), o.f(p)) == hit(&o, p), 20);
    reach(1);
}
/// The route through such a scene is the shortest one.
#[no_mangle]
pub extern "C" fn h_p20_scene_route() {
    let u = P { x: int(0, 7), y: int(0, 7) };
    let (o, s, d) = scene(None);
    let c = open(&o);
    let q = placed(u, s, d);
    let p = placed([P { x: 0, y: 5 }, P { x: 5, y: 5 }, P { x: 11, y: 4 }, P { x: 7, y: -1 }][split(int(0, 3)) as usize], s, d);
    let (pvis, qvis) = (ptVis(&c, POLYID_NONE, o.f(p)), ptVis(&c, POLYID_NONE, o.f(q)));
    let n = o.n;
    let mut sees = true;
    for e in 0..n {
        sees &= !hides(p, q, o.p[e], o.p[o.next[e]]);
    }
    let dad = makePath(o.f(p), POLYID_NONE, &pvis, o.f(q), POLYID_NONE, &qvis, &c);
    check(dad.len() == n + 2 && dad[n + 1] == -1, 60);
    if sees {
        check(dad[n] as usize == n + 1, 61);
    } else {
        const FAR: f64 = 1e18;
        let mut best = [FAR; 20];
        best[n + 1] = 0.0;
        let w = |i: usize, j: usize| -> f64 {
            let x = if i < n && j < n {
                c.vis[(i, j)]
            } else if i.min(j) < n {
                if i.max(j) == n {
                    qvis[i.min(j)]
                } else {
                    pvis[i.min(j)]
                }
            } else {
                0.0
            };
            if x == 0.0 {
                FAR
            } else {
                x
            }
        };
        for _ in 0..n + 1 {
            for i in 0..n + 2 {
                for j in 0..n + 2 {
                    if i != j {
                        let t = best[i] + w(i, j);
                        best[j] = if t < best[j] { t } else { best[j] };
                    }
                }
            }
        }
        if best[n] < FAR {
            let (mut at, mut sum, mut steps) = (n, 0.0, 0);
            while at != n + 1 && steps < n + 2 {
                let to = dad[at];
                check(to >= 0, 62);
                sum += w(at, to as usize);
                at = to as usize;
                steps += 1;
            }
            check(at == n + 1, 63);
            check(sum <= best[n] * (1.0 + 1e-12), 64);
            reach(2);
        }
    }
    reach(1);
}

/// With any lengths for the sight lines, the route found is the shortest one.
#[no_mangle]
pub extern "C" fn h_p20_route() {
    const FAR: i64 = 1000;
    let n = 2;
    // one wall; the way from p to q is blocked or not
    let o = obstacles(&[2], 2);
    let mut c = by_hand(&o);
    c.vis = allocArray(n, 2);
    let mut w = [[0i64; 4]; 4];
    let mut put = |i: usize, j: usize| {
        let x = int(0, 3);
        w[i][j] = x;
        w[j][i] = x;
        x as f64
    };
    let x = put(0, 1);
    c.vis[(0, 1)] = x;
    c.vis[(1, 0)] = x;
    let qvis = vec![put(2, 0), put(2, 1), 0.0, 0.0];
    let pvis = vec![put(3, 0), put(3, 1), 0.0, 0.0];
    let (p, q) = (P { x: 0, y: 0 }, point(2));
    let dad = makePath(f(p), POLYID_NONE, &pvis, f(q), POLYID_NONE, &qvis, &c);
    check(dad.len() == 4, 50);
    let mut blocked = false;
    for e in 0..n {
        blocked |= hides(p, q, o.p[e], o.p[o.next[e]]);
    }
    check(dad[3] == -1, 51);
    if !blocked {
        check(dad[2] == 3, 52);
    } else {
        let mut best = [FAR; 4];
        best[3] = 0;
        for _ in 0..3 {
            for f in 0..4 {
                for t in 0..4 {
                    let s = if w[f][t] == 0 { FAR } else { best[f] + w[f][t] };
                    best[t] = if s < best[t] { s } else { best[t] };
                }
            }
        }
        if best[2] < FAR {
            let mut v = 2usize;
            let mut sum = 0;
            for _ in 0..3 {
                if v != 3 {
                    check(dad[v] >= 0 && dad[v] < 4, 53);
                    let d = dad[v] as usize;
                    check(w[v][d] != 0, 54);
                    sum += w[v][d];
                    v = d;
                }
            }
            check(v == 3 && sum == best[2], 55);
        }
        reach(2);
    }
    reach(1);
}

list!(h_p20_turns, h_p20_scene_point, h_p20_scene_direct, h_p20_scene_hit, h_p20_scene_route, h_p20_basic, h_p20_point_three, h_p20_inside3, h_p20_inside4, h_p20_hit, h_p20_point, h_p20_point_pair, h_p20_direct_one, h_p20_direct_two, h_p20_direct_three, h_p20_route);
