//! Layer assignment.
use super::gr::*;
use crate::sym::*;
use trellis::layering::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 5);

fn judge(r: &G, l: &LayerMap) {
    check(l.v_layer.len() == r.n, 2);
    let mut top = 0;
    for v in 0..r.n {
        // one above the highest successor, 0 without any
        let mut h = 0;
        for k in 0..r.m {
            if r.from[k] == v {
                check(l.v_layer[v] > l.v_layer[r.to[k]], 3);
                if l.v_layer[r.to[k]] + 1 > h {
                    h = l.v_layer[r.to[k]] + 1;
                }
            }
        }
        check(l.v_layer[v] == h, 4);
        if h > top {
            top = h;
        }
    }
    check(l.num_layers == top as usize + 1, 5);
}

#[no_mangle]
pub extern "C" fn h_p10_layers() {
    let (g, r) = any(0, S.0, S.1);
    let l = create_layer_map(&g);
    check(l.is_err() == r.cyclic(), 1);
    if let Ok(l) = l {
        judge(&r, &l);
        reach(1);
    } else {
        reach(2);
    }
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p10_sparse() {
    let (g, r) = sparse(3);
    let l = create_layer_map(&g);
    check(l.is_err() == r.cyclic(), 10);
    if let Ok(mut l) = l {
        check(l.v_layer.len() == SPARSE, 11);
        let mut s = LayerMap { num_layers: l.num_layers, v_layer: vec![] };
        for i in 0..4 {
            s.v_layer.push(l.v_layer[AT[i]]);
            l.v_layer[AT[i]] = 0;
        }
        for v in 0..SPARSE {
            check(l.v_layer[v] == 0, 12);
        }
        judge(&r, &s);
        reach(1);
    } else {
        reach(2);
    }
}

/// A long path with one more edge.
#[no_mangle]
pub extern "C" fn h_p10_long() {
    const L: usize = 260;
    let from = [0, 100, 258][split(int(0, 2)) as usize];
    let at = split(int(0, 2)) as usize;
    let to = [[0, 1, 99], [100, 255, 256], [257, 258, 259]][at][int(0, 2) as usize];
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if v == from {
            g.push_to(to as u32);
        }
        if v + 1 < L {
            g.push_to(v as u32 + 1);
        }
        g.finish_from();
    }
    match create_layer_map(&g) {
        Err(_) => {
            check(to <= from, 20);
            reach(2);
        }
        Ok(l) => {
            check(to > from && l.v_layer.len() == L && l.num_layers == L, 21);
            for i in 0..L {
                check(l.v_layer[i] as usize == L - 1 - i, 22);
            }
            reach(1);
        }
    }
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p10_patterned() {
    let (g, r) = patterned();
    let l = create_layer_map(&g);
    check(l.is_err() == r.cyclic(), 30);
    if let Ok(l) = l {
        judge(&r, &l);
        reach(1);
    } else {
        reach(2);
    }
}

/// More vertices than 16 bits count, and a path of four of them with one more edge.
#[no_mangle]
pub extern "C" fn h_p10_huge() {
    const L: usize = 65540;
    const AT: [usize; 4] = [2, 65535, 65536, 65538];
    let to = int(0, 3) as usize;
    let from = split(int(0, 3)) as usize;
    let mut g = trellis::graph::Graph::new();
    let mut i = 0;
    for v in 0..L {
        if v == AT[i] {
            if i == from {
                g.push_to(AT[to] as u32);
            }
            if i < 3 {
                g.push_to(AT[i + 1] as u32);
                i += 1;
            }
        }
        g.finish_from();
    }
    match create_layer_map(&g) {
        Err(_) => {
            check(to <= from, 40);
            reach(2);
        }
        Ok(l) => {
            check(to > from && l.v_layer.len() == L && l.num_layers == 4, 41);
            for v in 0..L {
                let i = if v == AT[0] { 3 } else if v == AT[1] { 2 } else if v == AT[2] { 1 } else { 0 };
                check(l.v_layer[v] as usize == i, 42);
            }
            reach(1);
        }
    }
}

list!(h_p10_huge, h_p10_layers, h_p10_sparse, h_p10_long, h_p10_patterned);
