//! Paths of cubic curves.
use crate::sym::*;
use trellis::common::ellipse::PathTarget;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

#[cfg(not(feature = "thorough"))]
const K: usize = 3;
#[cfg(feature = "thorough")]
const K: usize = 5;

fn pt() -> Vec2<f64> {
    Vec2 { x: f64::from_bits(bits(64)), y: f64::from_bits(bits(64)) }
}
fn same(a: Vec2<f64>, b: Vec2<f64>) -> bool {
    a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits()
}

/// A start point, and three points for each segment; a straight one begins where the last ended
/// and repeats its end; a closed path ends where it started.
#[no_mangle]
pub extern "C" fn h_p26_path() {
    let mut p = Ppoly_t { ps: vec![] };
    let mut e = [Vec2 { x: 0.0, y: 0.0 }; 3 * K + 4];
    let mut n = 0;
    e[n] = pt();
    p.move_to(e[n]);
    n += 1;
    for _ in 0..K {
        let op = split(int(0, 3));
        let (a, b, c) = (pt(), pt(), pt());
        match op {
            0 => {
                p.line_to(c);
                e[n] = e[n - 1];
                e[n + 1] = c;
                e[n + 2] = c;
                n += 3;
            }
            1 => {
                p.curve_to(a, b, c);
                e[n] = a;
                e[n + 1] = b;
                e[n + 2] = c;
                n += 3;
            }
            2 => {
                p.move_to(a);
                e[0] = a;
                n = 1;
            }
            _ => {}
        }
    }
    if split(int(0, 1)) == 1 {
        p.end_path(true);
        e[n] = e[n - 1];
        e[n + 1] = e[0];
        e[n + 2] = e[0];
        n += 3;
    } else {
        p.end_path(false);
    }
    check(p.ps.len() == n, 1);
    for i in 0..n {
        check(same(p.ps[i], e[i]), 2);
    }
    observe(n as u64);
    reach(1);
}

/// More points than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p26_huge() {
    const M: usize = 21846;
    let mut p = Ppoly_t { ps: vec![] };
    let (a, b) = (pt(), pt());
    p.move_to(a);
    let curves = split(int(0, 1)) == 1;
    for k in 0..M {
        let c = Vec2 { x: k as f64, y: 0.0 };
        if curves {
            p.curve_to(c, b, c);
        } else {
            p.line_to(c);
        }
    }
    p.line_to(b);
    p.end_path(true);
    check(p.ps.len() == 3 * M + 7, 20);
    for k in 0..M {
        let x = k as f64;
        check(p.ps[3 * k + 3].x == x, 21);
        check(if curves { p.ps[3 * k + 1].x == x && same(p.ps[3 * k + 2], b) } else { p.ps[3 * k + 2].x == x && (k == 0 || p.ps[3 * k + 1].x == x - 1.0) }, 22);
    }
    let q = &p.ps[3 * M..];
    check(same(p.ps[0], a) && same(q[1], q[0]) && same(q[2], b) && same(q[3], b) && same(q[4], b) && same(q[5], a) && same(q[6], a), 23);
    reach(1);
}

list!(h_p26_huge, h_p26_path);
