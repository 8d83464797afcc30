//! Degrees, sources, sinks, referenced vertices, depth-first walk.
use super::gr::*;
use crate::sym::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 5);

#[no_mangle]
pub extern "C" fn h_p14_ends() {
    let (g, r) = any(0, S.0, S.1);
    let src = trellis::find_sources(g.edges());
    let snk = trellis::find_sinks(g.edges());
    let refd = trellis::find_referenced_edges(g.edges().all_values(), r.n);
    let deg = trellis::find_degree(g.edges().all_values(), r.n as u32);
    check(src.len() == r.n && snk.len() == r.n && refd.len() == r.n && deg.len() == r.n, 1);
    for v in 0..r.n {
        let (mut i, mut o) = (0, 0);
        for k in 0..r.m {
            i += (r.to[k] == v) as u16;
            o += (r.from[k] == v) as u16;
        }
        check(src[v] == (i == 0), 2);
        check(snk[v] == (o == 0), 3);
        check(refd[v] == (i > 0), 4);
        check(deg[v] == i, 5);
    }
    reach(1);
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p14_sparse() {
    let (g, r) = sparse(3);
    let e = g.edges();
    let src = trellis::find_sources(e);
    let snk = trellis::find_sinks(e);
    let refd = trellis::find_referenced_edges(e.all_values(), SPARSE);
    let deg = trellis::find_degree(e.all_values(), SPARSE as u32);
    check(src.len() == SPARSE && snk.len() == SPARSE && refd.len() == SPARSE && deg.len() == SPARSE, 6);
    for x in 0..SPARSE {
        let v = small(x);
        let (mut i, mut o) = (0, 0);
        for k in 0..r.m {
            i += (r.to[k] == v) as u16;
            o += (r.from[k] == v) as u16;
        }
        check(src[x] == (i == 0), 7);
        check(snk[x] == (o == 0), 8);
        check(refd[x] == (i > 0) && deg[x] == i, 9);
    }
    reach(1);
}

/// Counting onto degrees that are already there; a degree that is full stays full, and is reported.
#[no_mangle]
pub extern "C" fn h_p14_saturate() {
    const L: usize = 4;
    let mut d = [0u16; 3];
    let mut e = [0u32; L];
    for v in 0..3 {
        d[v] = wide(0, 65535) as u16;
    }
    let n = split(int(0, L as i64)) as usize;
    for k in 0..L {
        e[k] = int(0, 2) as u32;
    }
    let old = d;
    let full = trellis::add_degree(&e[..n], &mut d);
    let mut any = false;
    for v in 0..3 {
        let mut c = 0u32;
        for k in 0..n {
            c += (e[k] == v as u32) as u32;
        }
        let want = old[v] as u32 + c;
        check(d[v] as u32 == if want > 65535 { 65535 } else { want }, 10);
        any |= want > 65535;
    }
    check(full == any, 11);
    reach(1);
}

const MO: usize = 40;
fn walk(r: &G, v: usize, depth: usize, out: &mut [usize; MO], n: &mut usize) {
    for k in 0..r.m {
        if r.from[k] == v {
            if *n < MO {
                out[*n] = r.to[k];
            }
            *n += 1;
            if depth < NV {
                walk(r, r.to[k], depth + 1, out, n);
            }
        }
    }
}

#[cfg(not(feature = "thorough"))]
const D: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const D: (usize, usize) = (4, 5);

/// On a graph without cycles: every walk from the start, each vertex before what follows it.
#[no_mangle]
pub extern "C" fn h_p14_preorder() {
    let (g, r) = any(1, D.0, D.1);
    assume(!r.cyclic());
    let s = split(int(0, D.0 as i64 - 1)) as usize;
    assume(s < r.n);
    let mut out = [0; MO];
    let mut n = 0;
    walk(&r, s, 0, &mut out, &mut n);
    let mut i = 0;
    for v in trellis::traverse_depth_first_preorder(g.edges(), s as u32) {
        check(i < n && out[i % MO] == v as usize, 20);
        i += 1;
    }
    check(i == n, 21);
    reach(1);
}

/// A long path, entered by one more edge.
#[no_mangle]
pub extern "C" fn h_p14_deep() {
    const L: usize = 300;
    let to = [1, 2, 255, 256, 299][int(0, 4) as usize];
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if v + 1 < L {
            g.push_to(v as u32 + 1);
        }
        if v == 0 {
            g.push_to(to as u32);
        }
        g.finish_from();
    }
    let s = [0, 1, 298, 299][split(int(0, 3)) as usize];
    let mut i = s + 1;
    let mut again = s == 0;
    for v in trellis::traverse_depth_first_preorder(g.edges(), s as u32) {
        if i == L && again {
            i = to;
            again = false;
        }
        check(i < L && v as usize == i, 22);
        i += 1;
    }
    check(i == L && !again, 23);
    reach(1);
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p14_patterned() {
    let (g, r) = patterned();
    let src = trellis::find_sources(g.edges());
    let snk = trellis::find_sinks(g.edges());
    let refd = trellis::find_referenced_edges(g.edges().all_values(), r.n);
    let deg = trellis::find_degree(g.edges().all_values(), r.n as u32);
    for v in 0..r.n {
        let (mut i, mut o) = (0, 0);
        for k in 0..r.m {
            i += (r.to[k] == v) as u16;
            o += (r.from[k] == v) as u16;
        }
        check(src[v] == (i == 0) && snk[v] == (o == 0) && refd[v] == (i > 0) && deg[v] == i, 30);
    }
    reach(1);
}

/// A path of more vertices than 16 bits count, walked; and degrees of that many edges.
#[no_mangle]
pub extern "C" fn h_p14_huge() {
    const L: usize = 65540;
    let u = int(0, 3) as usize;
    let to = [1usize, 65535, 65536, 65539][u];
    let mut g = trellis::graph::Graph::new();
    if split(int(0, 1)) == 0 {
        for v in 0..L {
            if v + 1 < L {
                g.push_to(v as u32 + 1);
            }
            if v == 0 {
                g.push_to(to as u32);
            }
            g.finish_from();
        }
        let (src, snk) = (trellis::find_sources(g.edges()), trellis::find_sinks(g.edges()));
        check(src.len() == L && src[0] && !src[1] && !src[65537] && snk.len() == L && snk[L - 1] && !snk[65536], 60);
        let mut n = 0;
        let mut p = 0;
        for v in trellis::traverse_depth_first_preorder(g.edges(), 0) {
            if n > 0 {
                check(v as usize == if p == L - 1 { to } else { p + 1 }, 61);
            }
            p = v as usize;
            n += 1;
        }
        check(n == 2 * L - to - 1, 62);
        reach(1);
    } else {
        for _ in 0..L {
            g.push_to(0);
        }
        g.finish_from();
        for _ in 0..65532 + 2 * split(u as i64) {
            g.push_to(1);
        }
        g.finish_from();
        let d = trellis::find_degree(g.edges().all_values(), 2);
        check(d[0] as usize == 65535.min(L) && d[1] as usize == 65535.min(g.num_edges() - L), 63);
        reach(1);
    }
}

list!(h_p14_huge, h_p14_ends, h_p14_sparse, h_p14_deep, h_p14_saturate, h_p14_preorder, h_p14_patterned);
