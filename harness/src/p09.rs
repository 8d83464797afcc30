//! Topological sorting.
use super::gr::*;
use crate::sym::*;
use trellis::topo_sort::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 5);

fn judge(r: &G, o: Result<Vec<u32>, trellis::error::Error>, forward: bool) {
    let cyclic = r.cyclic();
    check(o.is_err() == cyclic, 1);
    if let Ok(o) = o {
        let mut pos = [usize::MAX; NV];
        let mut c = 0;
        for &v in o.iter() {
            check((v as usize) < r.n, 2);
            check(pos[v as usize] == usize::MAX, 3);
            pos[v as usize] = c;
            c += 1;
        }
        for v in 0..r.n {
            check((pos[v] != usize::MAX) == r.has_edge(v), 4);
        }
        for k in 0..r.m {
            if forward {
                check(pos[r.from[k]] < pos[r.to[k]], 5);
            } else {
                check(pos[r.from[k]] > pos[r.to[k]], 6);
            }
        }
        reach(1);
    } else {
        reach(2);
    }
}

#[no_mangle]
pub extern "C" fn h_p09_forward() {
    let (g, r) = any(0, S.0, S.1);
    judge(&r, topo_sort(&g), true);
}

#[no_mangle]
pub extern "C" fn h_p09_reverse() {
    let (g, r) = any(0, S.0, S.1);
    judge(&r, topo_sort_reverse(&g), false);
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p09_sparse() {
    let (g, r) = sparse(3);
    let forward = split(int(0, 1)) == 1;
    let o = if forward { topo_sort(&g) } else { topo_sort_reverse(&g) };
    judge(&r, o.map(|o| o.iter().map(|&v| small(v as usize) as u32).collect()), forward);
}

/// A long path with one more edge.
#[no_mangle]
pub extern "C" fn h_p09_long() {
    const L: usize = 260;
    let from = [0, 100, 258][split(int(0, 2)) as usize];
    let at = split(int(0, 2)) as usize;
    let to = [[0, 1, 99], [100, 255, 256], [257, 258, 259]][at][int(0, 2) as usize];
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if v == from {
            g.push_to(to as u32);
        }
        if v + 1 < L {
            g.push_to(v as u32 + 1);
        }
        g.finish_from();
    }
    match topo_sort(&g) {
        Err(_) => {
            check(to <= from, 10);
            reach(2);
        }
        Ok(o) => {
            check(to > from && o.len() == L, 11);
            for i in 0..L {
                check(o[i] as usize == i, 12);
            }
            reach(1);
        }
    }
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p09_patterned() {
    let (g, r) = patterned();
    let forward = split(int(0, 1)) == 1;
    judge(&r, if forward { topo_sort(&g) } else { topo_sort_reverse(&g) }, forward);
}

/// More vertices than 16 bits count, in pairs, and a path of four with one more edge.
#[no_mangle]
pub extern "C" fn h_p09_huge() {
    const L: usize = 65540;
    const AT: [usize; 4] = [65532, 65535, 65536, 65538];
    let to = int(0, 3) as usize;
    let from = split(int(0, 1)) as usize * 2;
    let mut g = trellis::graph::Graph::new();
    let mut i = 0;
    for v in 0..L {
        if v == AT[i] {
            if i == from {
                g.push_to(AT[to] as u32);
            }
            if i < 3 {
                g.push_to(AT[i + 1] as u32);
                i += 1;
            }
        }
        if v < 65532 && v % 2 == 0 {
            g.push_to(v as u32 + 1);
        }
        g.finish_from();
    }
    let back = split(int(0, 1)) == 1;
    match if back { topo_sort_reverse(&g) } else { topo_sort(&g) } {
        Err(_) => {
            check(to <= from, 40);
            reach(2);
        }
        Ok(o) => {
            check(to > from && o.len() == 65536, 41);
            let mut pos = [usize::MAX; L];
            for k in 0..65536 {
                check(pos[o[k] as usize] == usize::MAX, 42);
                pos[o[k] as usize] = k;
            }
            for v in 0..65532 {
                check(v % 2 == 1 || pos[v] != usize::MAX && pos[v + 1] != usize::MAX && (pos[v] > pos[v + 1]) == back, 43);
            }
            for i in 1..4 {
                check(pos[AT[i]] != usize::MAX && (pos[AT[i - 1]] > pos[AT[i]]) == back, 44);
            }
            reach(1);
        }
    }
}

list!(h_p09_huge, h_p09_forward, h_p09_reverse, h_p09_sparse, h_p09_long, h_p09_patterned);
