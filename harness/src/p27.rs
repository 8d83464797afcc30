//! Elliptic wedges as curves.
use crate::sym::*;
use core::f64::consts::PI;
use trellis::common::ellipse::*;
use trellis::polyline::Ppolyline_t;
use trellis::vec2::Vec2;

const BOUND: f64 = 1e-5;
/// semi-axes: round, wide, narrow, tall, tiny
const AXES: [(f64, f64); 8] = [(1.0, 1.0), (100.0, 50.0), (64.0, 15.0), (3.0, 2.5), (200.0, 20.0), (0.25, 0.125), (10.0, 12.0), (30.0, 90.0)];
const STARTS: [f64; 8] = [0.0, 0.3, PI / 2.0, 2.0, PI, 4.0, -1.0, 7.0];
const SPANS: [f64; 8] = [0.01, 0.5, PI / 2.0, 2.0, PI, 4.0, 3.0 * PI / 2.0, 2.0 * PI];

const fn starts() -> [f64; 64] {
    let mut t = [0.0; 64];
    let mut k = 0;
    while k < 64 {
        t[k] = STARTS[k / 8];
        k += 1;
    }
    t
}
const fn ends() -> [f64; 64] {
    let mut t = [0.0; 64];
    let mut k = 0;
    while k < 64 {
        t[k] = STARTS[k / 8] + SPANS[k % 8];
        k += 1;
    }
    t
}
static FROM: [f64; 64] = starts();
static TO: [f64; 64] = ends();

fn small(x: f64, e: f64) -> bool {
    (x < e) & (x > -e)
}
fn bez(p: f64, q: f64, r: f64, s: f64, t: f64) -> f64 {
    let u = 1.0 - t;
    u * u * u * p + 3.0 * u * u * t * q + 3.0 * u * t * t * r + t * t * t * s
}

#[no_mangle]
pub extern "C" fn h_p27_wedge() {
    let (a, b) = AXES[split(int(0, 7)) as usize];
    wedge(a, b, &FROM, &TO, int(0, 63) as usize);
}

/// Large, thin and minute ellipses; angles of several turns, minute wedges.
const FAR: [(f64, f64); 8] = [(1000.0, 999.0), (5000.0, 800.0), (1.0e6, 4.0e5), (300.0, 2.0), (2.0, 1000.0), (1.0e-3, 2.0e-3), (1.0e5, 1.0e5), (40000.0, 9000.0)];
static FROM2: [f64; 16] = [0.0, 0.1, -3.0, 12.0, -20.0, 100.0, PI / 2.0, -PI / 2.0, 3.1, -PI, 1.5, 3.0, 6.0, 0.7, 5.0, -0.2];
static TO2: [f64; 16] = [1e-4, 0.1001, 3.0, 18.0, -18.0, 103.0, PI / 2.0 + 0.001, PI / 2.0, 3.2, PI - 0.001, 1.6, 8.0, 6.5, 0.7 + 2.0 * PI, 11.2, 0.2];

#[no_mangle]
pub extern "C" fn h_p27_far() {
    let (a, b) = FAR[split(int(0, 7)) as usize];
    wedge(a, b, &FROM2, &TO2, int(0, 15) as usize);
}

fn wedge(a: f64, b: f64, from: &[f64], to: &[f64], k: usize) {
    let c = if split(int(0, 1)) == 0 { Vec2 { x: 0.0, y: 0.0 } } else { Vec2 { x: 200.0, y: -75.0 } };
    let (from, to) = (from[k], to[k]);
    let mut path = Ppolyline_t::default();
    ellipticWedge(c, a, b, from, to, &mut path);
    let ps = &path.ps;
    let n = ps.len();
    check(n >= 10 && n % 3 == 1, 1);
    // to and fro the centre
    check(ps[0] == c && ps[1] == c && ps[2] == ps[3] && ps[n - 1] == c && ps[n - 2] == c && ps[n - 3] == ps[n - 4], 2);
    let m = n / 3 - 2;
    // in units of the axes
    let x = |i: usize| (ps[i].x - c.x) / a;
    let y = |i: usize| (ps[i].y - c.y) / b;
    let mut total = 0.0;
    for j in 0..=m {
        let i = 3 + 3 * j;
        check(small(x(i) * x(i) + y(i) * y(i) - 1.0, 1e-9), 3);
        if j == m {
            break;
        }
        let (sin, cos) = (x(i) * y(i + 3) - y(i) * x(i + 3), x(i) * x(i + 3) + y(i) * y(i + 3));
        check(sin > 0.0 && cos > -1e-9, 4);
        total += sin.atan2(cos);
        for t in [0.125, 0.5, 0.75] {
            let (u, v) = (bez(x(i), x(i + 1), x(i + 2), x(i + 3), t), bez(y(i), y(i + 1), y(i + 2), y(i + 3), t));
            // the distance to first order
            let (d, g) = (u * u + v * v - 1.0, (u * u / (a * a) + v * v / (b * b)).sqrt());
            check(small(d / (2.0 * g), BOUND), 5);
        }
        if j > 0 {
            let (px, py, qx, qy) = (ps[i].x - ps[i - 1].x, ps[i].y - ps[i - 1].y, ps[i + 1].x - ps[i].x, ps[i + 1].y - ps[i].y);
            let (cross, dot) = (px * qy - py * qx, px * qx + py * qy);
            check(dot > 0.0 && small(cross / dot, 1e-6), 6);
        }
    }
    // the ends lie in the given directions, the given way around
    for (i, l) in [(3, from), (n - 4, to)] {
        let (u, v, dx, dy) = (ps[i].x - c.x, ps[i].y - c.y, l.cos(), l.sin());
        check(small(u * dy - v * dx, 1e-6) && u * dx + v * dy > 0.0, 7);
    }
    check(small(total - (to - from), PI) && total < 2.0 * PI + 1e-6, 8);
    observe(n as u64);
    reach(1);
}

list!(h_p27_wedge, h_p27_far);
