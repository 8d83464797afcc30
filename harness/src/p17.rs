//! Shortest paths over weighted edges.
use super::gr::*;
use crate::sym::*;
use trellis::ortho::shortest_path::find_shortest_path;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (3, 3);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (4, 4);
/// greatest weight where there are more edges
#[cfg(not(feature = "thorough"))]
const W: i64 = 3;
#[cfg(feature = "thorough")]
const W: i64 = 7;
const FAR: i64 = 1000;

fn judge(r: &G, w: &[i64; NE], a: usize, b: usize) {
    let p = find_shortest_path(|v| (0..r.m).filter(move |&k| r.from[k] == v as usize).map(move |k| (r.to[k] as i32, w[k] as i32)), a as i32, b as i32);
    // the least weight of a step
    let mut d = [[FAR; NV]; NV];
    for k in 0..r.m {
        for t in 0..r.n {
            let e = &mut d[r.from[k]][t];
            *e = if r.to[k] == t && w[k] < *e { w[k] } else { *e };
        }
    }
    // the least weight of a path from a
    let mut best = [FAR; NV];
    for v in 0..r.n {
        best[v] = if v == a { 0 } else { FAR };
    }
    for _ in 1..r.n {
        for f in 0..r.n {
            for t in 0..r.n {
                let s = best[f] + d[f][t];
                best[t] = if s < best[t] { s } else { best[t] };
            }
        }
    }
    match p {
        None => {
            check(best[b] >= FAR, 1);
            observe(99);
        }
        Some(p) => {
            // from the goal back to the start
            check(best[b] < FAR, 2);
            let n = p.len();
            check(n >= 1 && n <= r.n, 3);
            check(p[0] as usize == b && p[n - 1] as usize == a, 4);
            let mut sum = 0;
            for i in 1..n {
                sum += d[p[i] as usize][p[i - 1] as usize];
            }
            check(sum == best[b], 5);
            observe(sum as u64);
        }
    }
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p17_shortest() {
    let (_, r) = any(1, S.0, S.1);
    let mut w = [0; NE];
    for k in 0..S.1 {
        w[k] = int(0, 5);
    }
    for k in 0..S.1 {
        assume(k < r.m || w[k] == 0);
    }
    let a = split(int(0, S.0 as i64 - 1)) as usize;
    let b = split(int(0, S.0 as i64 - 1)) as usize;
    assume(a < r.n && b < r.n);
    judge(&r, &w, a, b);
}

/// Graphs of a given shape, with more edges: the weights are unknown.
#[no_mangle]
pub extern "C" fn h_p17_shapes() {
    const SHAPES: [&[(usize, usize)]; 13] = [
        &[(0, 1), (0, 2), (0, 2), (0, 2), (0, 1)],
        &[(0, 2), (0, 2), (0, 1), (0, 1), (1, 2)],
        &[(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)],
        &[(0, 3), (0, 2), (0, 2), (0, 3), (1, 3)],
        &[(0, 1), (1, 0), (1, 2), (2, 1), (2, 3)],
        &[(0, 2), (0, 2), (0, 2), (0, 2), (0, 2)],
        &[(0, 1), (0, 2), (0, 3), (0, 4), (4, 3)],
        &[(0, 1), (1, 2), (2, 3), (0, 3), (1, 3)],
        &[(0, 2), (2, 1), (1, 3), (0, 1), (2, 3)],
        &[(0, 1), (1, 2), (2, 0), (1, 1), (2, 3)],
        &[(0, 4), (0, 1), (1, 4), (0, 2), (2, 4)],
        &[(0, 1), (0, 3), (1, 2), (2, 3), (0, 2)],
        &[(0, 1), (0, 1), (0, 1), (1, 2), (0, 2)],
    ];
    let e = SHAPES[split(int(0, 12)) as usize];
    let mut r = G { n: 0, m: 0, from: [0; NE], to: [0; NE] };
    r.m = e.len();
    for k in 0..e.len() {
        r.from[k] = e[k].0;
        r.to[k] = e[k].1;
        r.n = r.n.max(e[k].0 + 1).max(e[k].1 + 1);
    }
    let mut w = [0; NE];
    for k in 0..5 {
        w[k] = int(0, W);
    }
    judge(&r, &w, 0, r.n - 1);
}

/// Labels anywhere among the integers, and great weights.
#[no_mangle]
pub extern "C" fn h_p17_labels() {
    const LABELS: [[i32; 5]; 3] = [[7, 300, 1_000_000, i32::MAX, 40], [-1, -2, i32::MIN, 0, i32::MAX], [256, 0, 65536, 1 << 24, 65537]];
    const SHAPES: [&[(usize, usize)]; 4] = [&[(0, 1), (0, 2), (1, 3), (2, 3)], &[(0, 3), (0, 2), (2, 1), (1, 3)], &[(0, 1), (1, 0), (1, 4), (4, 3)], &[(0, 3), (0, 3), (3, 0), (3, 4)]];
    const GREAT: [i64; 8] = [0, 1, 255, 65536, 1 << 24, (1 << 24) + 1, 500_000_000, 500_000_001];
    let l = &LABELS[split(int(0, 2)) as usize];
    let e = SHAPES[split(int(0, 3)) as usize];
    let b = [1, 3, 4][split(int(0, 2)) as usize];
    let mut w = [0i64; 4];
    for k in 0..3 {
        w[k] = GREAT[int(0, 7) as usize];
    }
    w[3] = [0, 1 << 24][split(int(0, 1)) as usize];
    let of = |x: i32| (0..5).find(|&k| l[k] == x).unwrap_or(9);
    let p = find_shortest_path(|v| (0..4).filter(move |&k| l[e[k].0] == v).map(move |k| (l[e[k].1], w[k] as i32)), l[0], l[b]);
    // the least sum over all ways
    let mut best = [i64::MAX / 2; 5];
    best[0] = 0;
    for _ in 0..4 {
        for k in 0..4 {
            let s = best[e[k].0] + w[k];
            best[e[k].1] = if s < best[e[k].1] { s } else { best[e[k].1] };
        }
    }
    match p {
        None => check(best[b] >= i64::MAX / 2, 10),
        Some(p) => {
            let n = p.len();
            check(n >= 1 && n <= 5 && of(p[0]) == b && of(p[n - 1]) == 0, 11);
            let mut sum = 0;
            for i in 1..n {
                let (f, t) = (of(p[i]), of(p[i - 1]));
                let mut d = i64::MAX / 2;
                for k in 0..4 {
                    d = if e[k].0 == f && e[k].1 == t && w[k] < d { w[k] } else { d };
                }
                sum += d;
            }
            check(sum == best[b], 12);
        }
    }
    reach(1);
}

/// Long paths: a chain, and a further edge of unknown weight that leads along or back.
#[no_mangle]
pub extern "C" fn h_p17_long() {
    let n = [18i32, 40, 70][split(int(0, 2)) as usize];
    let from = [0, 1, n / 2, n - 2][split(int(0, 3)) as usize];
    let to = [0, 2, n / 2 + 1, n - 1][split(int(0, 3)) as usize];
    let w = int(0, 60) as i32;
    let p = find_shortest_path(
        |v| {
            let a = if v + 1 < n { Some((v + 1, 1 + v % 2)) } else { None };
            let b = if v == from { Some((to, w)) } else { None };
            b.into_iter().chain(a)
        },
        0,
        n - 1,
    );
    // steps weigh 1 and 2 in turn
    let along = |a: i32, b: i32| (a..b).map(|v| 1 + v % 2).sum::<i32>();
    let whole = along(0, n - 1);
    match p {
        None => check(false, 20),
        Some(p) => {
            let other = if to > from { whole - along(from, to) + w } else { i32::MAX };
            let mut sum = 0;
            check(p.len() >= 2 && p[0] == n - 1 && p[p.len() - 1] == 0, 21);
            for i in 1..p.len() {
                let (a, b) = (p[i], p[i - 1]);
                let step = if b == a + 1 { 1 + a % 2 } else { i32::MAX / 4 };
                let jump = if a == from && b == to { w } else { i32::MAX / 4 };
                sum += if jump < step { jump } else { step };
            }
            check(sum == if other < whole { other } else { whole }, 22);
        }
    }
    reach(1);
}

/// A path of many steps.
#[no_mangle]
pub extern "C" fn h_p17_deep() {
    let n = [270i32, 520][split(int(0, 1)) as usize];
    let w = [3, 254, 256, 400][split(int(0, 1)) as usize * 2 + int(0, 1) as usize];
    let to = 256 + split(int(0, 1)) as i32;
    let p = find_shortest_path(
        |v| {
            let a = if v + 1 < n { Some((v + 1, 1)) } else { None };
            let b = if v == 1 { Some((to, w)) } else { None };
            a.into_iter().chain(b)
        },
        0,
        n - 1,
    );
    match p {
        None => check(false, 40),
        Some(p) => {
            let jump = p.len() < n as usize;
            let m = if jump { n - to + 2 } else { n };
            check(p.len() == m as usize && if jump { w <= to - 1 } else { w >= to - 1 }, 41);
            for i in 0..m {
                let v = n - 1 - i;
                check(p[i as usize] == if jump && v < to { m - 1 - i } else { v }, 42);
            }
        }
    }
    reach(1);
}

list!(h_p17_deep, h_p17_shortest, h_p17_shapes, h_p17_labels, h_p17_long);
