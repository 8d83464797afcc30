//! Roots of polynomials of degree three and less, from tables indexed by one unknown.
use crate::sym::*;
use trellis::pathplan::solvers::solve3;

const TINY: f64 = 1.0 / (1u64 << 27) as f64;

struct Tab<const N: usize> {
    c: [[f64; N]; 4],
    r: [[f64; N]; 3],
}
impl<const N: usize> Tab<N> {
    const fn new() -> Self {
        Tab { c: [[0.0; N]; 4], r: [[0.0; N]; 3] }
    }
    /// (x - a)(x - b)(x - c)
    const fn put(&mut self, k: usize, a: f64, b: f64, c: f64) {
        self.c[0][k] = -(a * b * c);
        self.c[1][k] = a * b + b * c + c * a;
        self.c[2][k] = -(a + b + c);
        self.c[3][k] = 1.0;
        self.r[0][k] = a;
        self.r[1][k] = b;
        self.r[2][k] = c;
    }
    /// the k-th polynomial, times s
    fn poly(&self, k: usize, s: f64) -> [f64; 4] {
        [self.c[0][k] * s, self.c[1][k] * s, self.c[2][k] * s, self.c[3][k] * s]
    }
}

/// three roots a < b < c
const fn distinct() -> Tab<680> {
    let mut t = Tab::new();
    let (mut k, mut a) = (0, -8);
    while a <= 8 {
        let mut b = a + 1;
        while b <= 8 {
            let mut c = b + 1;
            while c <= 8 {
                t.put(k, a as f64, b as f64, c as f64);
                k += 1;
                c += 1;
            }
            b += 1;
        }
        a += 1;
    }
    assert!(k == 680);
    t
}
static DISTINCT: Tab<680> = distinct();

/// (x - r)((x - p)² + q), q > 0
const fn single() -> Tab<105> {
    let mut t = Tab::new();
    let mut k = 0;
    while k < 105 {
        let (r, p, q) = ((k % 7) as f64 - 3.0, ((k / 7) % 5) as f64 - 2.0, [1.0, 3.0, 0.25][k / 35]);
        let n = p * p + q;
        t.c[0][k] = -(r * n);
        t.c[1][k] = n + 2.0 * p * r;
        t.c[2][k] = -(2.0 * p + r);
        t.c[3][k] = 1.0;
        t.r[0][k] = r;
        k += 1;
    }
    t
}
static SINGLE: Tab<105> = single();

/// (x - r)²(x - r - 3d): exact in floating point
const fn multiple() -> Tab<35> {
    let mut t = Tab::new();
    let mut k = 0;
    while k < 35 {
        let (r, d) = ((k % 7) as f64 - 3.0, (k / 7) as f64 - 2.0);
        t.put(k, r, r, r + 3.0 * d);
        k += 1;
    }
    t
}
static MULTIPLE: Tab<35> = multiple();

fn factor() -> f64 {
    match split(int(0, 3)) {
        0 => 1.0,
        1 => -2.0,
        2 => 0.5,
        _ => 1024.0,
    }
}
/// the coefficient that is taken for none
fn none() -> f64 {
    match split(int(0, 2)) {
        0 => 0.0,
        1 => TINY,
        _ => -TINY,
    }
}
fn near(a: f64, b: f64, e: f64) -> bool {
    let d = a - b;
    (d < e) & (d > -e)
}
fn among(x: f64, r: &[f64; 4], n: usize, e: f64) -> bool {
    let mut f = false;
    for i in 0..n {
        f |= near(x, r[i], e);
    }
    f
}

#[no_mangle]
pub extern "C" fn h_p30_distinct() {
    let s = factor();
    let k = (split(int(0, 9)) * 68 + split(int(0, 1)) * 34 + int(0, 33)) as usize;
    let (n, r) = solve3(&DISTINCT.poly(k, s));
    check(n == 3, 1);
    for i in 0..3 {
        check(among(DISTINCT.r[i][k], &r, 3, 1e-6), 2);
    }
    observe(n as u64);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p30_single() {
    let s = factor();
    let k = (split(int(0, 1)) * 53 + int(0, 51)) as usize;
    let (n, r) = solve3(&SINGLE.poly(k, s));
    check(n == 1, 10);
    check(near(SINGLE.r[0][k], r[0], 1e-6), 11);
    observe(n as u64);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p30_multiple() {
    let s = factor();
    let k = int(0, 34) as usize;
    let (n, r) = solve3(&MULTIPLE.poly(k, s));
    check(n == 3, 20);
    for i in 0..3 {
        check(among(MULTIPLE.r[i][k], &r, 3, 1e-6), 21);
        check(near(r[i], MULTIPLE.r[0][k], 1e-6) | near(r[i], MULTIPLE.r[2][k], 1e-6), 22);
    }
    observe(n as u64);
    reach(1);
}

/// a (x - p)² - a q: two roots, one, or none, when there is no cube
#[no_mangle]
pub extern "C" fn h_p30_square() {
    let (s, z) = (factor(), none());
    let q = split(int(-2, 4));
    let p = int(-6, 6) as f64 * 0.5;
    let w = q as f64 * 0.25;
    // differences of squares: q = h² for 0, 1 and 4
    let (n, r) = solve3(&[(p * p - w) * s, -2.0 * p * s, s, z]);
    if q < 0 {
        check(n == 0, 30);
    } else if q == 0 {
        check(n == 1 && near(r[0], p, 1e-6), 31);
    } else {
        let h = [0.0, 0.5, 0.7071067811865476, 0.8660254037844386, 1.0][q as usize];
        check(n == 2, 32);
        check(among(p - h, &r, 2, 1e-6) && among(p + h, &r, 2, 1e-6), 33);
    }
    observe(n as u64);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p30_line() {
    let (z, y) = (none(), none());
    let b = int(-4, 4);
    let a = split(int(-3, 3));
    let (n, r) = solve3(&[b as f64, a as f64, y, z]);
    if a == 0 {
        // every number, or none
        check(n == if b == 0 { 4 } else { 0 }, 40);
    } else {
        check(n == 1 && near(r[0] * a as f64, -b as f64, 1e-6), 41);
    }
    let (n, _) = solve3(&[none(), y, z, 0.0]);
    check(n == 4, 42);
    observe(n as u64);
    reach(1);
}

list!(h_p30_distinct, h_p30_single, h_p30_multiple, h_p30_square, h_p30_line);
