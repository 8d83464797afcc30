//! Graphs built from edges and paths.
use super::gr::*;
use crate::sym::*;
use trellis::testing::{graph_builder, graph_from_paths};

#[cfg(not(feature = "thorough"))]
const K: usize = 4;
#[cfg(feature = "thorough")]
const K: usize = 5;
const V: i64 = 3;

/// One vertex more than the greatest named, the edges of each vertex in the order they came.
fn judge(g: &trellis::graph::Graph, from: &[u32], to: &[u32], m: usize) {
    let mut n = 0;
    for k in 0..m {
        n = if from[k] as usize >= n { from[k] as usize + 1 } else { n };
        n = if to[k] as usize >= n { to[k] as usize + 1 } else { n };
    }
    check(g.num_verts() == n, 1);
    check(g.num_edges() == m, 2);
    for v in 0..V as u32 + 1 {
        if (v as usize) < n {
            let e = g.edges_from(v);
            let mut i = 0;
            for k in 0..m {
                if from[k] == v {
                    check(i < e.len() && e[i] == to[k], 3);
                    i += 1;
                }
            }
            check(i == e.len(), 4);
        }
    }
    observe(n as u64);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p15_edges() {
    let m = split(int(0, K as i64)) as usize;
    let (mut f, mut t) = ([0; K], [0; K]);
    let mut b = graph_builder();
    for k in 0..K {
        // the keys of the builder's table are picked one by one
        f[k] = split(int(0, V)) as u32;
        t[k] = int(0, V) as u32;
        if k < m {
            b.edge(f[k], t[k]);
        } else {
            assume(f[k] == 0 && t[k] == 0);
        }
    }
    judge(&b.build(), &f, &t, m);
}

/// The same by paths; a path of fewer than two vertices has no edge.
#[no_mangle]
pub extern "C" fn h_p15_paths() {
    let how = split(int(0, 2));
    let l = [split(int(0, 3)) as usize, split(int(0, 3)) as usize];
    let mut p = [[0u32; 3]; 2];
    let (mut f, mut t, mut m) = ([0; 4], [0; 4], 0);
    for i in 0..2 {
        for k in 0..3 {
            // the last one names no key
            let v = if k == 2 { int(0, V) } else { split(int(0, V)) };
            p[i][k] = v as u32;
            if k >= l[i] {
                assume(v == 0);
            } else if k > 0 {
                f[m] = p[i][k - 1];
                t[m] = p[i][k];
                m += 1;
            }
        }
    }
    let (a, b) = (&p[0][..l[0]], &p[1][..l[1]]);
    let g = match how {
        0 => graph_from_paths(&[a, b]),
        1 => {
            let mut g = graph_builder();
            g.path(a);
            g.path(b);
            g.build()
        }
        _ => {
            let mut g = graph_builder();
            for x in [a, b] {
                if x.len() > 0 {
                    let mut h = g.from(x[0]);
                    for k in 1..x.len() {
                        h = h.to(x[k]);
                    }
                }
            }
            g.build()
        }
    };
    judge(&g, &f, &t, m);
}

/// Vertices far apart, by edges and by paths.
#[no_mangle]
pub extern "C" fn h_p15_sparse() {
    const AT: [u32; 7] = [0, 1, 40, 63, 64, 257, 300];
    let how = split(int(0, 1));
    let (mut f, mut t) = ([0u32; 3], [0u32; 3]);
    let mut m = split(int(0, 3)) as usize;
    let mut b = graph_builder();
    if how == 0 {
        for k in 0..3 {
            let (x, y) = (int(0, 6), int(0, 6));
            if k < m {
                f[k] = AT[split(x) as usize];
                t[k] = AT[y as usize];
                b.edge(f[k], t[k]);
            } else {
                assume(x == 0 && y == 0);
            }
        }
    } else {
        assume(m == 0);
        m = 2;
        let mut p = [0; 3];
        for k in 0..6 {
            let x = int(0, 6);
            match k {
                0 | 1 => p[k] = AT[split(x) as usize],
                2 => p[k] = AT[x as usize],
                _ => assume(x == 0),
            }
        }
        for k in 0..2 {
            f[k] = p[k];
            t[k] = p[k + 1];
        }
        b.path(&p);
    }
    let g = b.build();
    let mut n = 0;
    for k in 0..m {
        n = if f[k] + 1 > n { f[k] + 1 } else { n };
        n = if t[k] + 1 > n { t[k] + 1 } else { n };
    }
    check(g.num_verts() == n as usize && g.num_edges() == m, 10);
    for v in AT {
        if v < n {
            let e = g.edges_from(v);
            let mut i = 0;
            for k in 0..m {
                if f[k] == v {
                    check(i < e.len() && e[i] == t[k], 11);
                    i += 1;
                }
            }
            check(i == e.len(), 12);
        }
    }
    reach(1);
}

/// Many edges of one vertex, and many vertices, in several orders; one edge unknown.
#[no_mangle]
pub extern "C" fn h_p15_many() {
    const N: u32 = 20;
    let step = [1u32, 7, 19][split(int(0, 2)) as usize];
    let count = [1u32, 3, 10][split(int(0, 2)) as usize];
    let at = [0u32, 11, 19][split(int(0, 2)) as usize];
    let (x, y) = (split(int(0, N as i64)) as u32, int(0, N as i64 + 2) as u32);
    let mut b = graph_builder();
    let mut l: Vec<(u32, u32)> = vec![];
    for k in 0..N {
        let v = k * step % N;
        for c in 0..count {
            l.push((v, (v + c * 3) % N));
        }
        if k == at {
            l.push((x, y));
        }
    }
    for &(f, t) in &l {
        b.edge(f, t);
    }
    let g = b.build();
    let mut n = N;
    n = if x + 1 > n { x + 1 } else { n };
    n = if y + 1 > n { y + 1 } else { n };
    check(g.num_verts() == n as usize && g.num_edges() == l.len(), 20);
    for v in 0..N + 1 {
        if v < n {
            let e = g.edges_from(v);
            let mut i = 0;
            for &(f, t) in &l {
                if f == v {
                    check(i < e.len() && e[i] == t, 21);
                    i += 1;
                }
            }
            check(i == e.len(), 22);
        }
    }
    reach(1);
}

/// Vertices of more than 16 bits.
#[no_mangle]
pub extern "C" fn h_p15_huge() {
    const AT: [u32; 4] = [1, 65535, 65536, 65540];
    let (a, b, c) = (AT[split(int(0, 3)) as usize], AT[split(int(0, 3)) as usize], AT[int(0, 3) as usize]);
    assume(c == 1 || a != 1);
    let mut g = graph_builder();
    g.edge(a, b);
    g.from(b).to(c);
    let g = g.build();
    let n = if a > b { a } else { b };
    let n = if n > c { n } else { c };
    check(g.num_verts() == n as usize + 1 && g.num_edges() == 2, 30);
    if a == b {
        check(g.edges_from(a) == [b, c], 31);
    } else {
        check(g.edges_from(a) == [b] && g.edges_from(b) == [c], 32);
    }
    check(g.edges_from(0).len() == 0, 33);
    reach(1);
}

list!(h_p15_huge, h_p15_edges, h_p15_paths, h_p15_sparse, h_p15_many);
