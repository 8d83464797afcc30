//! Graph: edge views and transposition.
use super::gr::*;
use crate::sym::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 5);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 6);

#[no_mangle]
pub extern "C" fn h_p08_transpose() {
    let (g, r) = any(0, S.0, S.1);
    let t = g.transpose();
    check(t.num_verts() == r.n && t.num_edges() == r.m, 1);
    // the edges of the input, in order, are what the lists of the output hold, in order
    let mut at = [0usize; NV];
    for k in 0..r.m {
        let l = t.edges_from(r.to[k] as u32);
        let i = at[r.to[k]];
        check(i < l.len() && l[i] as usize == r.from[k], 2);
        at[r.to[k]] += 1;
    }
    for v in 0..r.n {
        check(t.edges_from(v as u32).len() == at[v], 3);
    }
    trellis::graph::assert_graph_is_well_formed(&t);
    reach(1);
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p08_sparse() {
    let (g, r) = sparse(3);
    check(g.num_verts() == SPARSE && g.num_edges() == r.m, 30);
    let t = g.transpose();
    check(t.num_verts() == SPARSE && t.num_edges() == r.m, 31);
    let mut at = [0usize; NV];
    for k in 0..r.m {
        let l = t.edges_from(AT[r.to[k]] as u32);
        let i = at[r.to[k]];
        check(i < l.len() && l[i] as usize == AT[r.from[k]], 32);
        at[r.to[k]] += 1;
    }
    let mut k = 0;
    for (f, t) in g.iter_edges_flattened() {
        check(k < r.m && f as usize == AT[r.from[k]] && t as usize == AT[r.to[k]], 33);
        k += 1;
    }
    let mut v = 0;
    for (f, l) in g.iter_from_edges() {
        check(f as usize == v, 34);
        check(l.len() == g.edges_from(f).len(), 35);
        v += 1;
    }
    check(k == r.m && v == SPARSE, 36);
    trellis::graph::assert_graph_is_well_formed(&g);
    trellis::graph::assert_graph_is_well_formed(&t);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p08_views() {
    let (mut g, r) = any(0, S.0, S.1);
    check(g.num_verts() == r.n && g.num_edges() == r.m, 10);
    let mut k = 0;
    for (f, t) in g.iter_edges_flattened() {
        check(k < r.m && f as usize == r.from[k] && t as usize == r.to[k], 11);
        k += 1;
    }
    check(k == r.m, 12);
    let mut k = 0;
    let mut v = 0;
    for (f, l) in g.iter_from_edges() {
        check(f as usize == v && v < r.n, 13);
        check(l == g.edges_from(f), 14);
        for &t in l {
            check(k < r.m && r.from[k] == v && r.to[k] == t as usize, 15);
            k += 1;
        }
        v += 1;
    }
    check(k == r.m && v == r.n, 16);
    check(g.edges().num_values() == r.m, 17);
    // what is added to the table of the edges is in every view
    let old = g.clone();
    check(old == g, 18);
    g.edges_mut().push_value(7);
    g.edges_mut().finish_key();
    check(g.num_verts() == r.n + 1 && g.num_edges() == r.m + 1 && g.edges_from(r.n as u32) == [7], 19);
    check(g.iter_edges_flattened().last() == Some((r.n as u32, 7)) && g != old, 21);
    reach(1);
}

/// assert_graph_is_well_formed panics exactly on an edge to a vertex that does not exist.
#[no_mangle]
pub extern "C" fn h_p08_formed() {
    let n = split(int(0, 3)) as usize;
    let mut g = trellis::graph::Graph::new();
    let mut bad = false;
    for v in 0..3 {
        let d = split(int(0, 2));
        let a = int(0, 4) as usize;
        let b = int(0, 4) as usize;
        if v < n {
            if d > 0 {
                g.push_to(a as u32);
                bad |= a >= n;
            }
            if d > 1 {
                g.push_to(b as u32);
                bad |= b >= n;
            }
            g.finish_from();
        } else {
            assume(d == 0);
        }
    }
    allow_panic(bad);
    trellis::graph::assert_graph_is_well_formed(&g);
    check(!bad, 20);
    reach(1);
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p08_patterned() {
    let (g, r) = patterned();
    let t = g.transpose();
    check(t.num_verts() == r.n && t.num_edges() == r.m, 40);
    let mut at = [0usize; NV];
    for k in 0..r.m {
        let l = t.edges_from(r.to[k] as u32);
        let i = at[r.to[k]];
        check(i < l.len() && l[i] as usize == r.from[k], 41);
        at[r.to[k]] += 1;
    }
    let mut k = 0;
    for (f, t) in g.iter_edges_flattened() {
        check(k < r.m && f as usize == r.from[k] && t as usize == r.to[k], 42);
        k += 1;
    }
    check(k == r.m, 43);
    reach(1);
}

/// More vertices, and more edges, than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p08_huge() {
    const L: usize = 65540;
    let u = [0usize, 3, 65535, 65536, 65539][int(0, 4) as usize];
    let mut g = trellis::graph::Graph::new();
    if split(int(0, 1)) == 0 {
        for v in 0..L {
            if v == 65536 {
                g.push_to(u as u32);
                g.push_to(65537);
            }
            g.finish_from();
        }
        let t = g.transpose();
        check(t.num_verts() == L && t.num_edges() == 2, 60);
        check(t.edges_from(u as u32) == [65536] && t.edges_from(65537) == [65536] && t.edges_from(1).len() == 0, 61);
        let mut i = g.iter_edges_flattened();
        check(i.next() == Some((65536, u as u32)) && i.next() == Some((65536, 65537)) && i.next().is_none(), 62);
        let mut n = 0;
        for (v, l) in g.iter_from_edges() {
            check(v == n && (l.len() != 0) == (v == 65536), 63);
            n += 1;
        }
        check(n as usize == L, 64);
        trellis::graph::assert_graph_is_well_formed(&g);
    } else {
        // one vertex with that many edges to two
        for e in 0..L {
            g.push_to((e & 1) as u32);
        }
        g.finish_from();
        g.push_to(0);
        g.finish_from();
        let t = g.transpose();
        check(t.num_verts() == 2 && t.num_edges() == L + 1, 65);
        check(t.edges_from(0).len() == L / 2 + 1 && t.edges_from(1).len() == L / 2, 66);
        check(t.edges_from(0)[L / 2] == 1 && t.edges_from(0)[L / 2 - 1] == 0, 67);
    }
    reach(1);
}

list!(h_p08_huge, h_p08_transpose, h_p08_sparse, h_p08_views, h_p08_formed, h_p08_patterned);
