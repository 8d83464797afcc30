//! Splines routed along paths through corridors.
use crate::sym::*;
use trellis::pathplan::route::*;
use trellis::pathplan::Pedge_t;
use trellis::polyline::Ppolyline_t;
use trellis::vec2::Vec2;

type P = Vec2<f64>;
const fn p(x: f64, y: f64) -> P {
    Vec2 { x, y }
}
/// A corridor: its outline, the boxes it is made of, the bends of a path through it, and a box for
/// either end of the path.
struct Scene {
    outline: &'static [P],
    boxes: &'static [[f64; 4]],
    bends: &'static [P],
    ends: [[f64; 4]; 2],
    point: P,
}
static SCENES: [Scene; 5] = [
    // one room
    Scene { outline: &[p(0.0, 0.0), p(100.0, 0.0), p(100.0, 40.0), p(0.0, 40.0)], boxes: &[[0.0, 0.0, 100.0, 40.0]], bends: &[], ends: [[5.0, 5.0, 30.0, 30.0], [60.0, 5.0, 30.0, 30.0]], point: p(50.0, 17.5) },
    // a bend
    Scene { outline: &[p(0.0, 0.0), p(100.0, 0.0), p(100.0, 90.0), p(70.0, 90.0), p(70.0, 30.0), p(0.0, 30.0)], boxes: &[[0.0, 0.0, 100.0, 30.0], [70.0, 0.0, 100.0, 90.0]], bends: &[p(70.0, 30.0)], ends: [[5.0, 3.0, 40.0, 24.0], [73.0, 60.0, 24.0, 25.0]], point: p(85.0, 15.0) },
    // two bends, one way
    Scene { outline: &[p(0.0, 0.0), p(90.0, 0.0), p(90.0, 80.0), p(60.0, 80.0), p(60.0, 30.0), p(30.0, 30.0), p(30.0, 80.0), p(0.0, 80.0)], boxes: &[[0.0, 0.0, 90.0, 30.0], [0.0, 0.0, 30.0, 80.0], [60.0, 0.0, 90.0, 80.0]], bends: &[p(30.0, 30.0), p(60.0, 30.0)], ends: [[2.0, 50.0, 26.0, 28.0], [62.0, 50.0, 26.0, 28.0]], point: p(45.0, 15.0) },
    // two bends, this way and that
    Scene { outline: &[p(0.0, 0.0), p(60.0, 0.0), p(60.0, 60.0), p(100.0, 60.0), p(100.0, 80.0), p(40.0, 80.0), p(40.0, 20.0), p(0.0, 20.0)], boxes: &[[0.0, 0.0, 60.0, 20.0], [40.0, 0.0, 60.0, 80.0], [40.0, 60.0, 100.0, 80.0]], bends: &[p(40.0, 20.0), p(60.0, 60.0)], ends: [[4.0, 2.0, 30.0, 16.0], [65.0, 62.0, 30.0, 16.0]], point: p(50.0, 40.0) },
    // a lock: two rooms and a door, whose walls have no thickness of their own
    Scene { outline: &[p(0.0, 0.0), p(50.0, 0.0), p(50.0, 20.0), p(52.0, 20.0), p(52.0, 0.0), p(100.0, 0.0), p(100.0, 60.0), p(52.0, 60.0), p(52.0, 30.0), p(50.0, 30.0), p(50.0, 60.0), p(0.0, 60.0)], boxes: &[[0.0, 0.0, 50.0, 60.0], [52.0, 0.0, 100.0, 60.0], [40.0, 20.0, 60.0, 30.0]], bends: &[p(50.0, 25.0), p(52.0, 25.0)], ends: [[5.0, 5.0, 30.0, 50.0], [65.0, 5.0, 30.0, 50.0]], point: p(51.0, 25.0) },
];
const DIRS: [P; 6] = [p(0.0, 0.0), p(1.0, 0.0), p(0.0, -2.0), p(3.0, 4.0), p(-5.0, 1.0), p(5.0, 2.0)];

fn cross(a: P, b: P) -> f64 {
    a.x * b.y - a.y * b.x
}
fn dot(a: P, b: P) -> f64 {
    a.x * b.x + a.y * b.y
}
fn small(x: f64) -> bool {
    (x < 1e-6) & (x > -1e-6)
}
/// b points the way a does, or one of them nowhere
fn along(a: P, b: P) -> bool {
    small(cross(a, b)) & (dot(a, b) > -1e-6)
}
/// The scene turned and skewed, so that walls run in any direction.
const MAPS: [[f64; 4]; 4] = [[1.0, 0.0, 0.0, 1.0], [0.75, -0.5, 0.5, 0.75], [0.0, 1.0, 1.0, 0.0], [1.0, 0.5, -0.25, 1.0]];
fn map(m: usize, q: P) -> P {
    let m = &MAPS[m];
    p(m[0] * q.x + m[1] * q.y, m[2] * q.x + m[3] * q.y)
}
fn back(m: usize, q: P) -> P {
    let m = &MAPS[m];
    let d = m[0] * m[3] - m[1] * m[2];
    p((m[3] * q.x - m[1] * q.y) / d, (m[0] * q.y - m[2] * q.x) / d)
}
fn within(s: &Scene, q: P) -> bool {
    let e = 0.05;
    let mut r = false;
    for b in s.boxes {
        r |= (q.x > b[0] - e) & (q.x < b[2] + e) & (q.y > b[1] - e) & (q.y < b[3] + e);
    }
    r
}

fn route(s: &Scene, m: usize, ends: [P; 2], dirs: [P; 2]) {
    let mut path = vec![ends[0]];
    path.extend(s.bends.iter().map(|b| map(m, *b)));
    path.push(ends[1]);
    let input = Ppolyline_t { ps: path };
    let n = s.outline.len();
    let mut edges: Vec<Pedge_t> = (0..n).map(|i| Pedge_t { a: map(m, s.outline[i]), b: map(m, s.outline[(i + 1) % n]) }).collect();
    // a barrier of no length
    edges.insert(n / 2, Pedge_t { a: map(m, s.point), b: map(m, s.point) });
    let mut evs = dirs;
    let mut out = Ppolyline_t::default();
    check(Proutespline(&edges, &input, &mut evs, &mut out).is_ok(), 1);
    let (q, k) = (&out.ps, out.ps.len());
    check(k >= 4 && k % 3 == 1 && k <= 3 * input.ps.len() - 2, 2);
    check(q[0] == ends[0] && q[k - 1] == ends[1], 3);
    check(along(dirs[0], q[1] - q[0]) && along(dirs[1], q[k - 1] - q[k - 2]), 4);
    // joints are bends of the path, in order, and passed smoothly
    let mut at = 0;
    for j in (3..k - 1).step_by(3) {
        let mut f = false;
        while at < s.bends.len() && !f {
            f = q[j] == input.ps[at + 1];
            at += 1;
        }
        check(f, 5);
        check(along(q[j] - q[j - 1], q[j + 1] - q[j]), 6);
    }
    for j in (0..k - 1).step_by(3) {
        for i in 1..16 {
            let t = i as f64 / 16.0;
            let u = 1.0 - t;
            let c = q[j] * (u * u * u) + q[j + 1] * (3.0 * u * u * t) + q[j + 2] * (3.0 * u * t * t) + q[j + 3] * (t * t * t);
            check(within(s, back(m, c)), 7);
        }
    }
    observe(k as u64);
    reach(1);
}

const fn grid() -> [[f64; 64]; 4] {
    let mut t = [[0.0; 64]; 4];
    let mut k = 0;
    while k < 64 {
        // four places in each box
        t[0][k] = [0.0, 0.25, 0.75, 1.0][k % 4];
        t[1][k] = [0.0, 1.0, 0.5, 0.125][(k + k / 16) % 4];
        t[2][k] = [0.5, 0.0, 1.0, 0.25][k / 4 % 4];
        t[3][k] = [0.0, 0.5, 1.0, 0.75][(k / 4 + k / 16) % 4];
        k += 1;
    }
    t
}
static GRID: [[f64; 64]; 4] = grid();

#[no_mangle]
pub extern "C" fn h_p25_corridor() {
    let s = &SCENES[split(int(0, 4)) as usize];
    let dirs = [DIRS[split(int(0, 4)) as usize], DIRS[split(int(0, 4)) as usize]];
    #[cfg(not(feature = "thorough"))]
    let k = int(0, 15) as usize;
    #[cfg(feature = "thorough")]
    let k = int(0, 63) as usize;
    let e = |i: usize| p(s.ends[i][0] + s.ends[i][2] * GRID[2 * i][k], s.ends[i][1] + s.ends[i][3] * GRID[2 * i + 1][k]);
    #[cfg(not(feature = "thorough"))]
    let m = split(int(0, 1)) as usize;
    #[cfg(feature = "thorough")]
    let m = split(int(0, 3)) as usize;
    route(s, m, [map(m, e(0)), map(m, e(1))], dirs);
}


/// Barriers of any kind, standing free or joined, the bends of a path between them, and a box for
/// either end of the path.
struct Field {
    walls: &'static [[f64; 4]],
    bends: &'static [P],
    ends: [[f64; 4]; 2],
}
const ROOM: [[f64; 4]; 4] = [[0.0, 0.0, 160.0, 0.0], [160.0, 0.0, 160.0, 60.0], [160.0, 60.0, 0.0, 60.0], [0.0, 60.0, 0.0, 0.0]];
static FIELDS: [Field; 6] = [
    // walls from either side, one after the other: four bends
    Field { walls: &[[30.0, 45.0, 30.0, 0.0], [60.0, 60.0, 60.0, 15.0], [90.0, 0.0, 90.0, 45.0], [120.0, 15.0, 120.0, 60.0]], bends: &[p(30.0, 45.0), p(60.0, 15.0), p(90.0, 45.0), p(120.0, 15.0)], ends: [[3.0, 3.0, 24.0, 40.0], [123.0, 20.0, 30.0, 35.0]] },
    // around a block
    Field { walls: &[[40.0, 20.0, 60.0, 20.0], [60.0, 20.0, 60.0, 40.0], [60.0, 40.0, 40.0, 40.0], [40.0, 40.0, 40.0, 20.0]], bends: &[p(40.0, 40.0), p(60.0, 40.0)], ends: [[5.0, 22.0, 30.0, 14.0], [65.0, 22.0, 30.0, 14.0]] },
    // between two fences of posts
    Field { walls: &[[20.0, 28.0, 20.0, 32.0], [40.0, 28.0, 44.0, 31.0], [60.0, 28.0, 60.0, 32.0], [70.0, 28.0, 80.0, 28.0], [20.0, 20.0, 20.0, 16.0], [40.0, 20.0, 36.0, 17.0], [60.0, 20.0, 60.0, 16.0], [70.0, 20.0, 80.0, 20.0]], bends: &[], ends: [[5.0, 22.0, 10.0, 4.0], [85.0, 22.0, 10.0, 4.0]] },
    // from one wall to another
    Field { walls: &[], bends: &[], ends: [[0.0, 10.0, 0.0, 40.0], [160.0, 20.0, 0.0, 20.0]] },
    // past the end of a wall, by less than the tolerance
    Field { walls: &[[20.0, 30.0, 60.0, 30.0]], bends: &[], ends: [[19.98, 29.985, 0.01, 0.005], [70.0, 25.0, 20.0, 4.0]] },
    // along a staircase
    Field { walls: &[[20.0, 0.0, 20.0, 10.0], [20.0, 10.0, 40.0, 10.0], [40.0, 10.0, 40.0, 20.0], [40.0, 20.0, 60.0, 20.0], [60.0, 20.0, 60.0, 30.0], [60.0, 30.0, 100.0, 30.0], [100.0, 30.0, 100.0, 0.0]], bends: &[p(20.0, 10.0), p(40.0, 20.0), p(60.0, 30.0), p(100.0, 30.0)], ends: [[4.0, 1.0, 10.0, 2.0], [105.0, 2.0, 40.0, 20.0]] },
];
/// turned, skewed and scaled
const SIZES: [([f64; 4], f64); 5] = [([1.0, 0.0, 0.0, 1.0], 1.0), ([0.75, -0.5, 0.5, 0.75], 1.0), ([0.0, 64.0, 64.0, 0.0], 64.0), ([0.0625, 0.03125, -0.015625, 0.0625], 0.0625), ([-1.0, 0.25, 0.0, 1.0], 1.0)];

/// The way from c to d goes through the barrier from a to b, further than e from its ends.
fn crosses(a: P, b: P, c: P, d: P, e: f64) -> bool {
    let (w, v) = (b - a, d - c);
    let l = dot(w, w);
    let (s, t) = (cross(w, c - a), cross(w, d - a));
    // on both sides, by more than what rounding makes
    let m = 1e-8 * l;
    let both = ((s > m) & (t < -m)) | ((s < -m) & (t > m));
    // where
    let u = if both { s / (s - t) } else { 0.0 };
    let g = c + v * u;
    let f = dot(g - a, w);
    both & (f > 0.0) & (f < l) & (dot(g - a, g - a) > e * e) & (dot(g - b, g - b) > e * e)
}

#[no_mangle]
pub extern "C" fn h_p25_barriers() {
    let f = &FIELDS[split(int(0, 5)) as usize];
    #[cfg(not(feature = "thorough"))]
    const PAIRS: [(usize, usize); 7] = [(0, 0), (1, 1), (2, 3), (3, 4), (4, 2), (3, 0), (5, 1)];
    #[cfg(feature = "thorough")]
    const PAIRS: [(usize, usize); 14] = [(0, 0), (1, 1), (2, 3), (3, 4), (4, 2), (3, 0), (5, 1), (5, 5), (0, 4), (2, 2), (3, 3), (1, 4), (4, 4), (1, 2)];
    let d = PAIRS[split(int(0, PAIRS.len() as i64 - 1)) as usize];
    #[cfg(not(feature = "thorough"))]
    let (m, size) = SIZES[split(int(0, 3)) as usize];
    #[cfg(feature = "thorough")]
    let (m, size) = SIZES[split(int(0, 4)) as usize];
    #[cfg(not(feature = "thorough"))]
    let k = int(0, 7) as usize * 5;
    #[cfg(feature = "thorough")]
    let k = int(0, 63) as usize;
    let to = |q: P| p(m[0] * q.x + m[1] * q.y, m[2] * q.x + m[3] * q.y);
    let e = |i: usize| to(p(f.ends[i][0] + f.ends[i][2] * GRID[2 * i][k], f.ends[i][1] + f.ends[i][3] * GRID[2 * i + 1][k]));
    let dirs = [to(DIRS[d.0]), to(DIRS[d.1])];
    let mut path = vec![e(0)];
    path.extend(f.bends.iter().map(|b| to(*b)));
    path.push(e(1));
    let input = Ppolyline_t { ps: path };
    let edges: Vec<Pedge_t> = ROOM.iter().chain(f.walls.iter()).map(|w| Pedge_t { a: to(p(w[0], w[1])), b: to(p(w[2], w[3])) }).collect();
    let mut evs = dirs;
    let mut out = Ppolyline_t::default();
    check(Proutespline(&edges, &input, &mut evs, &mut out).is_ok(), 20);
    let (q, n) = (&out.ps, out.ps.len());
    check(n >= 4 && n % 3 == 1 && n <= 3 * input.ps.len() - 2, 21);
    check(q[0] == e(0) && q[n - 1] == e(1), 22);
    let way = |a: P, b: P| (small(cross(a, b) / (size * size))) & (dot(a, b) / (size * size) > -1e-6);
    check(way(dirs[0], q[1] - q[0]) && way(dirs[1], q[n - 1] - q[n - 2]), 23);
    let mut at = 0;
    for j in (3..n - 1).step_by(3) {
        let mut is = false;
        while at < f.bends.len() && !is {
            is = q[j] == input.ps[at + 1];
            at += 1;
        }
        check(is, 24);
        check(way(q[j] - q[j - 1], q[j + 1] - q[j]), 25);
    }
    let near = 0.2 * size + 0.04;
    for j in (0..n - 1).step_by(3) {
        let mut c = q[j];
        for i in 1..33 {
            let t = i as f64 / 32.0;
            let u = 1.0 - t;
            let d = if i == 32 { q[j + 3] } else { q[j] * (u * u * u) + q[j + 1] * (3.0 * u * u * t) + q[j + 2] * (3.0 * u * t * t) + q[j + 3] * (t * t * t) };
            let mut bad = false;
            for w in &edges {
                bad |= crosses(w.a, w.b, c, d, near);
            }
            check(!bad, 26);
            c = d;
        }
    }
    observe(n as u64);
    reach(1);
}

list!(h_p25_corridor, h_p25_barriers);
