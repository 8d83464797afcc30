//! Proper graphs.
use super::gr::*;
use crate::sym::*;
use trellis::layering::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize, i64) = (3, 3, 3);
#[cfg(feature = "thorough")]
const S: (usize, usize, i64) = (4, 4, 4);
const MV: usize = 1024;

fn judge(r: &G, l: &LayerMap, p: &trellis::graph::Graph) {
    let mut extra = 0;
    let mut seen = [false; MV];
    let nv = p.num_verts();
    for k in 0..r.m {
        let span = (l.v_layer[r.from[k]] - l.v_layer[r.to[k]]) as usize;
        extra += span - 1;
    }
    check(nv == r.n + extra, 1);
    check(p.num_edges() == r.m + extra, 2);
    let mut nth = 0;
    for k in 0..r.m {
        let f = r.from[k];
        nth = if k > 0 && r.from[k - 1] == f { nth + 1 } else { 0 };
        let span = (l.v_layer[f] - l.v_layer[r.to[k]]) as usize;
        let list = p.edges_from(f as u32);
        check(nth < list.len(), 3);
        let mut v = list[nth] as usize;
        for _ in 1..span {
            // a vertex of its own on every layer in between
            check(v >= r.n && v < nv, 4);
            check(!seen[v], 5);
            seen[v] = true;
            let nx = p.edges_from(v as u32);
            check(nx.len() == 1, 6);
            v = nx[0] as usize;
        }
        check(v == r.to[k], 7);
    }
    for v in 0..r.n {
        let mut d = 0;
        for k in 0..r.m {
            if r.from[k] == v {
                d += 1;
            }
        }
        check(p.edges_from(v as u32).len() == d, 8);
    }
    reach(1);
}

/// The layers are what create_layer_map assigns.
#[no_mangle]
pub extern "C" fn h_p11_own() {
    let (g, r) = any(0, S.0, S.1);
    assume(!r.cyclic());
    if let Ok(l) = create_layer_map(&g) {
        let p = create_proper_graph(&g, &l);
        judge(&r, &l, &p);
    }
}

/// Any layers on which all edges point down.
#[no_mangle]
pub extern "C" fn h_p11_any() {
    let (g, r) = any(1, 3, 2);
    let mut l = LayerMap { num_layers: S.2 as usize + 1, v_layer: vec![] };
    for v in 0..3 {
        let x = split(int(0, S.2));
        if v < r.n {
            l.v_layer.push(x as u32);
        } else {
            assume(x == 0);
        }
    }
    for k in 0..r.m {
        assume(l.v_layer[r.from[k]] > l.v_layer[r.to[k]]);
    }
    let p = create_proper_graph(&g, &l);
    judge(&r, &l, &p);
}

/// An edge over many layers, beside two others.
#[no_mangle]
pub extern "C" fn h_p11_long() {
    let mut g = trellis::graph::Graph::new();
    let mut r = G { n: 3, m: 3, from: [0; NE], to: [0; NE] };
    let h = [2, 255, 256, 257, 300][split(int(0, 4)) as usize];
    let m = [1, 128, h - 1][split(int(0, 2)) as usize];
    let swap = int(0, 1) as usize;
    assume(m < h);
    // 0 is above 1, which is above 2, in one order or the other
    r.from[2] = 1;
    r.to[0] = 1 + swap;
    r.to[1] = 2 - swap;
    r.to[2] = 2;
    for v in 0..3 {
        for k in 0..3 {
            if r.from[k] == v {
                g.push_to(r.to[k] as u32);
            }
        }
        g.finish_from();
    }
    let l = LayerMap { num_layers: h + 1, v_layer: vec![h as u32, m as u32, 0] };
    let p = create_proper_graph(&g, &l);
    judge(&r, &l, &p);
}

/// An edge over more layers than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p11_huge() {
    let h = 65535 + 2 * split(int(0, 1)) as usize;
    let down = 1 + 2 * split(int(0, 1)) as u32;
    let mut g = trellis::graph::Graph::new();
    g.push_to(1);
    g.push_to(2);
    g.finish_from();
    g.finish_from();
    g.finish_from();
    let l = LayerMap { num_layers: h + 1, v_layer: vec![h as u32, 0, h as u32 - down] };
    let p = create_proper_graph(&g, &l);
    let n = 3 + (h - 1) + (down as usize - 1);
    check(p.num_verts() == n && p.num_edges() == h + down as usize, 50);
    check(p.edges_from(0).len() == 2 && p.edges_from(1).len() == 0 && p.edges_from(2).len() == 0, 51);
    // down the first edge
    let mut v = p.edges_from(0)[0];
    for _ in 0..h - 1 {
        check(v >= 3 && (v as usize) < n && p.edges_from(v).len() == 1, 52);
        v = p.edges_from(v)[0];
    }
    check(v == 1, 53);
    let mut v = p.edges_from(0)[1];
    for _ in 0..2 {
        if v != 2 {
            check(v >= 3 && (v as usize) < n && p.edges_from(v).len() == 1, 54);
            v = p.edges_from(v)[0];
        }
    }
    check(v == 2, 55);
    reach(1);
}

list!(h_p11_huge, h_p11_own, h_p11_any, h_p11_long);
