//! Boxes, points and rounding.
use crate::sym::*;
use trellis::common::arith::*;
use trellis::common::geom::*;
use trellis::vec2::Vec2;

fn num() -> f64 {
    let x = f64::from_bits(bits(64));
    assume(!x.is_nan());
    x
}
fn pt() -> Vec2<f64> {
    Vec2 { x: num(), y: num() }
}
fn bx() -> boxf {
    boxf { LL: pt(), UR: pt() }
}
fn copy(b: &boxf) -> boxf {
    boxf { LL: b.LL, UR: b.UR }
}
fn ok(b: &boxf) -> bool {
    b.LL.x <= b.UR.x && b.LL.y <= b.UR.y
}
fn inside(p: Vec2<f64>, b: &boxf) -> bool {
    b.LL.x <= p.x && p.x <= b.UR.x && b.LL.y <= p.y && p.y <= b.UR.y
}

/// Membership, containment and overlap, over all doubles.
#[no_mangle]
pub extern "C" fn h_p24_tests() {
    let (a, b, p) = (bx(), bx(), pt());
    check(INSIDE(p, &a) == inside(p, &a), 1);
    assume(ok(&a) && ok(&b));
    let c = CONTAINS(&a, &b);
    check(c == (inside(b.LL, &a) && inside(b.UR, &a)), 2);
    check(!(c && INSIDE(p, &b)) || INSIDE(p, &a), 3);
    let o = OVERLAP(&a, &b);
    check(o == OVERLAP(&b, &a), 4);
    // a common point, or a gap on one of the axes
    check(!(INSIDE(p, &a) && INSIDE(p, &b)) || o, 5);
    check(o || a.UR.x < b.LL.x || b.UR.x < a.LL.x || a.UR.y < b.LL.y || b.UR.y < a.LL.y, 6);
    reach(1);
}

/// The clipped box holds exactly the common points.
#[no_mangle]
pub extern "C" fn h_p24_clip() {
    let (mut a, b, p) = (bx(), bx(), pt());
    let old = copy(&a);
    CLIPBB(&mut a, &b);
    check(INSIDE(p, &a) == (INSIDE(p, &old) && INSIDE(p, &b)), 10);
    if ok(&old) && ok(&b) {
        check(ok(&a) == OVERLAP(&old, &b), 11);
    }
    reach(1);
}

/// The expanded box is the least one around its parts.
#[no_mangle]
pub extern "C" fn h_p24_expand() {
    let (mut a, b, p, q) = (bx(), bx(), pt(), bx());
    assume(ok(&a) && ok(&b));
    let old = copy(&a);
    let mut c = copy(&a);
    EXPANDBP(&mut a, p);
    check(INSIDE(p, &a) && CONTAINS(&a, &old), 20);
    check(!(CONTAINS(&q, &old) && INSIDE(p, &q)) || CONTAINS(&q, &a), 21);
    EXPANDBB(&mut c, &b);
    check(CONTAINS(&c, &b) && CONTAINS(&c, &old), 22);
    check(!(CONTAINS(&q, &old) && CONTAINS(&q, &b)) || CONTAINS(&q, &c), 23);
    reach(1);
}

/// Comparisons, least and greatest, over all doubles.
#[no_mangle]
pub extern "C" fn h_p24_order() {
    let (a, b, c) = (num(), num(), num());
    check(CMP(a, b) == if a < b { -1 } else { (a > b) as i32 }, 30);
    check(CMP(a, b) == -CMP(b, a), 31);
    check(BETWEEN(a, b, c) == (a <= b && b <= c), 32);
    check(SGN(a) == if a < 0.0 { -1 } else { 1 }, 33);
    for (lo, hi) in [(MIN(a, b), MAX(a, b)), (trellis::math::fmin(a, b), trellis::math::fmax(a, b))] {
        check(lo <= a && lo <= b && (lo == a || lo == b), 34);
        check(hi >= a && hi >= b && (hi == a || hi == b), 35);
    }
    reach(1);
}

/// Rounding and conversions of whole and quarter numbers.
#[no_mangle]
pub extern "C" fn h_p24_round() {
    let k = int(-32, 31);
    let f = k as f64 * 0.25;
    let r = ROUND(f) as i64;
    // the nearest whole number, halves away from zero
    check(4 * r - k <= 2 && k - 4 * r <= 2, 40);
    check(!(4 * r - k == 2) || k > 0, 41);
    check(!(k - 4 * r == 2) || k < 0, 42);
    let j = int(-32, 31);
    let p = PF2P(Vec2 { x: f, y: j as f64 * 0.25 });
    check(p.x as i64 == r && p.y as i64 == ROUND(j as f64 * 0.25) as i64, 43);
    let i = boxi { LL: Vec2 { x: k as i32, y: j as i32 }, UR: Vec2 { x: j as i32, y: k as i32 + 1 } };
    let d = B2BF(&i);
    check(d.LL.x == k as f64 && d.LL.y == j as f64 && d.UR.x == j as f64 && d.UR.y == (k + 1) as f64, 44);
    let b = BF2B(&d);
    check(b.LL == i.LL && b.UR == i.UR, 45);
    check(POINTS(f) as i64 == 18 * k && INCH2PS(f) == (18 * k) as f64 && PS2INCH((18 * k) as f64) == f, 46);
    check(AVG(k as f64, j as f64) * 2.0 == (k + j) as f64, 47);
    observe(r as u64);
    reach(1);
}

/// Vectors are added, scaled and compared by component; lengths and distances.
#[no_mangle]
pub extern "C" fn h_p24_vectors() {
    let (a, b, c, d, s) = (int(-15, 15), int(-15, 15), int(-7, 7), int(-7, 7), int(-3, 4));
    let p = Vec2 { x: a as f64, y: b as f64 };
    let q = Vec2 { x: c as f64, y: d as f64 };
    check(p + q == Vec2 { x: (a + c) as f64, y: (b + d) as f64 }, 50);
    check(p - q == Vec2 { x: (a - c) as f64, y: (b - d) as f64 }, 51);
    check(p * s as f64 == Vec2 { x: (a * s) as f64, y: (b * s) as f64 }, 52);
    check(s as f64 * p == Vec2 { x: (a * s) as f64, y: (b * s) as f64 }, 53);
    check((p == q) == (a == c && b == d), 54);
    check(trellis::math::sqr(a) == a * a && trellis::math::sqr(p.x) == (a * a) as f64 && trellis::math::sqr(c as i8) as i64 == c * c, 61);
    let i = Vec2 { x: a, y: b };
    check(i + Vec2 { x: c, y: d } == Vec2 { x: a + c, y: b + d }, 55);
    check((i * s) == Vec2 { x: a * s, y: b * s }, 56);
    let n = split(int(1, 3));
    check(Vec2 { x: a, y: b } / n == Vec2 { x: a / n, y: b / n }, 62);
    check(Vec2 { x: (s * n) as f64, y: (n - s * n) as f64 } / n as f64 == Vec2 { x: s as f64, y: (1 - s) as f64 }, 63);
    check(Into::<(f64, f64)>::into(Vec2::from((p.x, q.y))) == (p.x, q.y), 59);
    check(APPROXEQ(p.x, q.x, s as f64) == ((a - c).abs() < s), 60);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p24_near() {
    let (a, b, c, d, s) = (int(-2, 3), int(-2, 3), int(-2, 3), int(-2, 3), int(-6, 6));
    let p = Vec2 { x: a as f64, y: b as f64 };
    let q = Vec2 { x: c as f64, y: d as f64 };
    let n = (a - c) * (a - c) + (b - d) * (b - d);
    check(DIST2(p, q) == ((a - c) * (a - c) + (b - d) * (b - d)) as f64, 57);
    check(LEN2(p.x, q.y) == (a * a + d * d) as f64 && SQR(p.x) == (a * a) as f64, 58);
    check(APPROXEQPT(p, q, s as f64) == (n < s * s), 70);
    let l = DIST(p, q);
    check(l == LEN(p.x - q.x, p.y - q.y) && l >= 0.0, 71);
    let k = int(0, 15);
    check((l < k as f64) == (n < k * k) && (l == k as f64) == (n == k * k), 72);
    reach(1);
}

/// Coordinates far out.
#[no_mangle]
pub extern "C" fn h_p24_far() {
    const FAR: [i32; 16] = [0, 127, 128, 255, 256, 4095, 32767, 32768, 65535, 65536, 999_999, 16_777_215, 16_777_217, 1_000_000_001, 2_147_483_646, 2_147_483_647];
    let (i, j) = (split(int(0, 15)) as usize, split(int(0, 15)) as usize);
    let neg = split(int(0, 1)) == 1;
    let (a, b) = if neg { (-FAR[i], -FAR[j]) } else { (FAR[i], FAR[j]) };
    // a part behind the point that rounds to or fro
    let q = split(int(0, 3));
    let part = [0.0, 0.25, 0.375, 0.4375][q as usize];
    let x = if neg { a as f64 - part } else { a as f64 + part };
    check(ROUND(x) == a, 80);
    let y = if neg { b as f64 + part } else { b as f64 - part };
    check(ROUND(y) == b, 81);
    check(FAR[i] > 2_000_000_000 || ROUND(if neg { a as f64 - 0.5 } else { a as f64 + 0.5 }) == if neg { a - 1 } else { a + 1 }, 82);
    check(PF2P(Vec2 { x, y }) == Vec2 { x: a, y: b }, 83);
    let w = P2PF(Vec2 { x: a, y: b });
    check(w.x == a as f64 && w.y == b as f64, 84);
    let k = boxi { LL: Vec2 { x: a, y: b }, UR: Vec2 { x: b, y: a } };
    let f = B2BF(&k);
    check(f.LL == w && f.UR == Vec2 { x: w.y, y: w.x }, 85);
    let g = BF2B(&boxf { LL: Vec2 { x, y }, UR: Vec2 { x: y, y: x } });
    check(g.LL == k.LL && g.UR == k.UR, 86);
    check(FAR[i] > 20_000_000 || POINTS(a as f64) == a * 72, 87);
    check(CMP(x, y) == (x > y) as i32 - (x < y) as i32 && SGN(x) == if x < 0.0 { -1 } else { 1 }, 88);
    reach(1);
}

/// Units, angles, and how a vector is made and written.
#[no_mangle]
pub extern "C" fn h_p24_units() {
    use core::fmt::Write;
    check(POINTS_PER_INCH == 72.0 && POINTS_PER_PC == 12.0, 90);
    // an inch is 2.54 centimetres
    check((POINTS_PER_CM * 2.54 - 72.0).abs() < 1e-5 && (POINTS_PER_MM * 25.4 - 72.0).abs() < 1e-5, 91);
    check(MILLIPOINT == 1e-3 && MICROPOINT == 1e-6, 92);
    check((M_PI - 3.141592653589793).abs() < 1e-15 && (SQRT2 * SQRT2 - 2.0).abs() < 1e-15, 93);
    let d = [0.0, 15.0, 30.0, 45.0, 90.0, 120.0, 179.0, 180.0, 270.0, 359.0, 360.0, 720.0, -1.0, -90.0, -180.0, -450.0][split(int(0, 15)) as usize];
    let r = RADIANS(d);
    check((r - d * 0.017453292519943295).abs() < 1e-12, 94);
    check((DEGREES(r) - d).abs() < 1e-9, 95);
    let v = Vec2::from_angle(r);
    check((v.x - r.cos()).abs() < 1e-12 && (v.y - r.sin()).abs() < 1e-12, 96);
    let (a, b) = (split(int(-3, 3)), split(int(-3, 3)));
    let mut s = String::new();
    let _ = write!(s, "{:?}", Vec2::from((a as i32, b as i32)));
    let dig = |k: i64, t: &mut Vec<u8>| {
        if k < 0 {
            t.push(b'-');
        }
        t.push(b'0' + k.unsigned_abs() as u8);
    };
    let mut t = vec![b'('];
    dig(a, &mut t);
    t.extend_from_slice(b", ");
    dig(b, &mut t);
    t.push(b')');
    check(s.as_bytes() == &t[..], 97);
    let z = Vec2::<i32>::default();
    check(z.x == 0 && z.y == 0, 98);
    reach(1);
}

list!(h_p24_tests, h_p24_clip, h_p24_expand, h_p24_order, h_p24_round, h_p24_vectors, h_p24_near, h_p24_far, h_p24_units);
