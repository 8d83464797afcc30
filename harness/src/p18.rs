//! Shortest paths over a weighted adjacency matrix.
use crate::sym::*;
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::pathplan::shortestpth::{shortestPath, shortestPathGeneric};

#[cfg(not(feature = "thorough"))]
const N: usize = 4;
#[cfg(not(feature = "thorough"))]
const W: i64 = 3;
#[cfg(feature = "thorough")]
const N: usize = 5;
#[cfg(feature = "thorough")]
const W: i64 = 4;
const FAR: i64 = 1000;

/// The returned links lead from the target to the root over edges, at the least total weight.
#[no_mangle]
pub extern "C" fn h_p18_dijkstra() {
    let n = split(int(1, N as i64)) as usize;
    let mut w = [[0i64; N]; N];
    let mut m: Array2<f64> = allocArray(n, 2);
    for i in 0..N {
        for j in 0..i {
            let x = int(0, W);
            if i < n {
                w[i][j] = x;
                w[j][i] = x;
                m[(i, j)] = x as f64;
                // only the entries below the diagonal count
                m[(j, i)] = 77.0;
            } else {
                assume(x == 0);
            }
        }
    }
    let a = split(int(0, N as i64 - 1)) as usize;
    let b = split(int(0, N as i64 - 1)) as usize;
    assume(a < n && b < n);
    let dad = if split(int(0, 1)) == 0 { shortestPath(a as i32, b as i32, n, &m) } else { shortestPathGeneric(a as i32, b as i32, n, |i, j| w[i][j] as f64) };
    check(dad.len() == n, 1);
    let mut best = [FAR; N];
    best[a] = 0;
    for _ in 1..n {
        for f in 0..n {
            for t in 0..n {
                let s = if w[f][t] == 0 { FAR } else { best[f] + w[f][t] };
                best[t] = if s < best[t] { s } else { best[t] };
            }
        }
    }
    check(dad[a] == -1, 2);
    let mut v = b;
    let mut sum = 0;
    let mut end = false;
    for _ in 0..n {
        if !end {
            let d = dad[v];
            check(d >= -1 && d < n as i64 as i32, 3);
            if d < 0 {
                end = true;
            } else {
                let d = d as usize;
                check(w[v][d] != 0, 4);
                sum += w[v][d];
                v = d;
            }
        }
    }
    check(end, 5);
    check((v == a) == (best[b] < FAR), 6);
    if v == a {
        check(sum == best[b], 7);
    }
    observe(sum as u64);
    reach(1);
}

/// Rows and columns of an array are separate cells.
#[no_mangle]
pub extern "C" fn h_p18_array() {
    let r = split(int(1, 3)) as usize;
    let c = split(int(1, 3)) as usize;
    let x = split(int(0, 2)) as usize;
    let mut m: Array2<u32> = Array2::new(r, c, x);
    let (i, j) = (int(0, 2) as usize, int(0, 4) as usize);
    let (k, l) = (int(0, 2) as usize, int(0, 4) as usize);
    assume(i < r && k < r && j < c + x && l < c + x);
    check(m[(k, l)] == 0, 10);
    m[(i, j)] = 5;
    check(m[(k, l)] == if i == k && j == l { 5 } else { 0 }, 11);
    reach(1);
}

/// Lengths of any magnitude.
#[no_mangle]
pub extern "C" fn h_p18_scale() {
    const L: [i64; 4] = [0, 1, 300, 400_000_000];
    const D: [(usize, usize); 6] = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)];
    let mut w = [[0i64; NB]; NB];
    for (i, j) in D {
        let x = L[int(0, 3) as usize];
        w[i][j] = x;
        w[j][i] = x;
    }
    links(4, &w, 3, 2);
}

/// Matrices of more points, of which some edges are unknown.
#[no_mangle]
pub extern "C" fn h_p18_shapes() {
    let s = split(int(0, 3)) as usize;
    let mut w = [[0i64; NB]; NB];
    let mut put = |i: usize, j: usize, x: i64| {
        w[i][j] = x;
        w[j][i] = x;
    };
    let u = [int(0, 3), int(0, 3), int(0, 3), int(0, 3)];
    match s {
        0 => {
            // a ring with two chords
            for i in 0..NB {
                put(i, (i + 1) % NB, 1 + (i % 3) as i64);
            }
            put(0, 4, u[0]);
            put(2, 6, u[1]);
            put(7, 3, u[2]);
            put(1, 2, u[3]);
        }
        1 => {
            // two rows
            for i in 0..NB / 2 {
                put(i, i + NB / 2, 1);
                if i > 0 {
                    put(i - 1, i, 2 * u[i]);
                    put(i - 1 + NB / 2, i + NB / 2, 3);
                }
            }
            put(0, NB - 1, 7 * u[0]);
        }
        2 => {
            // from one point to all others, which are joined in a row
            for i in 1..NB {
                put(0, i, i as i64);
                if i > 1 {
                    put(i - 1, i, if i < 6 { u[i - 2] } else { 1 });
                }
            }
        }
        _ => {
            // two parts
            for i in 1..4 {
                put(i - 1, i, u[i - 1]);
            }
            put(4, 5, 1);
            put(5, 6, 2);
            put(6, 4, 3);
            put(2, 5, u[3]);
        }
    }
    let (a, b) = (split(int(0, 2)) as usize, split(int(0, 2)) as usize);
    links(NB, &w, [0, 3, NB - 1][a], [NB - 1, 4, 1][b]);
}
const NB: usize = 8;
fn links(n: usize, w: &[[i64; NB]; NB], a: usize, b: usize) {
    let dad = shortestPathGeneric(a as i32, b as i32, n, |i, j| if i >= j { w[i][j] as f64 } else { 5.0 });
    check(dad.len() == n, 21);
    let mut best = [FAR * 10_000_000; NB];
    best[a] = 0;
    for _ in 1..n {
        for f in 0..n {
            for t in 0..n {
                let s = if w[f][t] == 0 { FAR * 10_000_000 } else { best[f] + w[f][t] };
                best[t] = if s < best[t] { s } else { best[t] };
            }
        }
    }
    check(dad[a] == -1, 22);
    let (mut v, mut sum, mut end) = (b, 0, false);
    for _ in 0..n {
        if !end {
            let d = dad[v];
            check(d >= -1 && d < n as i32, 23);
            if d < 0 {
                end = true;
            } else {
                let d = d as usize;
                check(w[v][d] != 0, 24);
                sum += w[v][d];
                v = d;
            }
        }
    }
    check(end, 25);
    check((v == a) == (best[b] < FAR * 10_000_000), 26);
    check(v != a || sum == best[b], 27);
    observe(sum as u64);
    reach(1);
}

/// A row of many points, a shortcut of unknown length.
#[no_mangle]
pub extern "C" fn h_p18_many() {
    const V: usize = 300;
    let x = int(0, 15);
    let to = 255 + split(int(0, 2)) as usize;
    let back = split(int(0, 1)) == 1;
    let w = |i: usize, j: usize| {
        if i == j + 1 {
            1.0
        } else if i == to && j == 4 {
            [0.0, 1.0, 248.0, 249.0, 250.0, 251.0, 252.0, 253.0, 254.0, 255.0, 256.0, 257.0, 300.0, 65536.0, 1e9, 2147483646.0][x as usize]
        } else {
            0.0
        }
    };
    let (root, end) = if back { (V - 1, 0) } else { (0, V - 1) };
    let dad = shortestPathGeneric(root as i32, end as i32, V, w);
    check(dad.len() == V && dad[root] == -1, 60);
    let short = dad[if back { 4 } else { to }] == if back { to as i32 } else { 4 };
    let y = w(to, 4);
    check(if short { y > 0.0 && y <= (to - 4) as f64 } else { y == 0.0 || y >= (to - 4) as f64 }, 61);
    for v in 0..V {
        let next = if back { v as i32 + 1 } else { v as i32 - 1 };
        let skipped = short && v > 4 && v < to;
        check(v == root || skipped || dad[v] == if short && v == (if back { 4 } else { to }) { if back { to as i32 } else { 4 } } else { next }, 62);
    }
    reach(1);
}

list!(h_p18_many, h_p18_dijkstra, h_p18_array, h_p18_scale, h_p18_shapes);
