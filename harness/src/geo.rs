//! Unknown points on a grid, and exact predicates over them.
use crate::sym::*;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

#[derive(Clone, Copy, PartialEq)]
pub struct P {
    pub x: i64,
    pub y: i64,
}
pub fn point(max: i64) -> P {
    P { x: int(0, max), y: int(0, max) }
}
pub fn f(p: P) -> Vec2<f64> {
    Vec2 { x: p.x as f64, y: p.y as f64 }
}
pub fn poly(p: &[P]) -> Ppoly_t {
    let mut v = Vec::with_capacity(p.len());
    for &q in p {
        v.push(f(q));
    }
    Ppoly_t { ps: v }
}
/// Positive: a, b, c turn left.
pub fn turn(a: P, b: P, c: P) -> i64 {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
pub fn sgn(x: i64) -> i64 {
    (x > 0) as i64 - (x < 0) as i64
}
pub fn dist2(a: P, b: P) -> i64 {
    (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
}
/// c lies on the line through a and b, strictly between them.
pub fn between(a: P, b: P, c: P) -> bool {
    let d = (a.x - c.x) * (b.x - c.x) + (a.y - c.y) * (b.y - c.y);
    (turn(a, b, c) == 0) & (d < 0)
}
/// The two segments cross at a point inside both.
pub fn cross(a: P, b: P, c: P, d: P) -> bool {
    (sgn(turn(a, b, c)) * sgn(turn(a, b, d)) < 0) & (sgn(turn(c, d, a)) * sgn(turn(c, d, b)) < 0)
}
/// The wall cd hides a from b.
pub fn hides(a: P, b: P, c: P, d: P) -> bool {
    between(a, b, c) | between(a, b, d) | cross(a, b, c, d)
}
