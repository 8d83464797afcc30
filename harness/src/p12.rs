//! Partition into connected subgraphs.
use super::gr::*;
use crate::sym::*;
use trellis::disjoint::*;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 5);

fn judge(g: &trellis::graph::Graph, r: &G) {
    parts(&find_disjoint_subgraphs(g).subgraphs, r);
}
fn parts(d: &trellis::ramp_table::RampTable<u32>, r: &G) {
    let mut of = [usize::MAX; NV + 4];
    let mut i = 0;
    for s in d.iter() {
        check(s.len() >= 1, 1);
        for &v in s {
            check((v as usize) < r.n, 2);
            check(of[v as usize] == usize::MAX, 3);
            of[v as usize] = i;
        }
        i += 1;
    }
    check(i == d.len() && d.num_values() == d.iter().map(|s| s.len()).sum::<usize>(), 4);
    // connected by edges, whatever their direction
    let mut a = r.adj();
    for i in 0..r.n {
        for j in 0..r.n {
            a[i][j] |= a[j][i];
        }
    }
    let a = close(a, r.n);
    for v in 0..r.n {
        check((of[v] != usize::MAX) == r.has_edge(v), 5);
        for w in 0..v {
            if r.has_edge(v) & r.has_edge(w) {
                check((of[v] == of[w]) == a[v][w], 6);
            }
        }
    }
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p12_partition() {
    let (g, r) = any(0, S.0, S.1);
    judge(&g, &r);
}

#[cfg(not(feature = "thorough"))]
const X: usize = 3;
#[cfg(feature = "thorough")]
const X: usize = 4;

/// Larger: the pairs 0-1, 2-3 and 4-5, and unknown further edges between seven vertices.
#[no_mangle]
pub extern "C" fn h_p12_links() {
    let n = 7;
    let mut g = trellis::graph::Graph::new();
    let mut r = G { n, m: 0, from: [0; NE], to: [0; NE] };
    let mut left = X;
    let mut tos = [0usize; X];
    for k in 0..X {
        tos[k] = int(0, n as i64 - 1) as usize;
    }
    for v in 0..n {
        if v < 6 && v % 2 == 0 {
            g.push_to(v as u32 + 1);
            r.from[r.m] = v;
            r.to[r.m] = v + 1;
            r.m += 1;
        } else {
            let d = split(int(0, X as i64)) as usize;
            assume(d <= left);
            for _ in 0..d {
                left -= 1;
                let to = tos[left];
                g.push_to(to as u32);
                r.from[r.m] = v;
                r.to[r.m] = to;
                r.m += 1;
            }
        }
        g.finish_from();
    }
    judge(&g, &r);
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p12_sparse() {
    let (g, r) = sparse(3);
    let mut s = find_disjoint_subgraphs(&g).subgraphs;
    for v in s.all_values_mut() {
        *v = small(*v as usize) as u32;
    }
    parts(&s, &r);
}

/// Many pairs, linked by further edges.
#[no_mangle]
pub extern "C" fn h_p12_many() {
    const L: usize = 280;
    const AT: [usize; 4] = [1, 126, 258, 277];
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if v % 2 == 0 {
            g.push_to(v as u32 + 1);
        }
        g.finish_from();
    }
    // two more, each leading to two of the pairs
    let mut t = [0; 4];
    for k in 0..4 {
        t[k] = split(int(0, [3, 3, 1, 1][k])) as usize;
        g.push_to(AT[t[k]] as u32);
        if k % 2 == 1 {
            g.finish_from();
        }
    }
    let s = find_disjoint_subgraphs(&g).subgraphs;
    let mut of = [usize::MAX; L + 2];
    let mut i = 0;
    for l in s.iter() {
        check(l.len() >= 2, 20);
        for &v in l {
            check((v as usize) < L + 2 && of[v as usize] == usize::MAX, 21);
            of[v as usize] = i;
        }
        i += 1;
    }
    for v in 0..L {
        check(of[v] != usize::MAX && of[v] == of[v ^ 1], 22);
    }
    // which of the four pairs and two more are linked
    let mut a = [[false; NV]; NV];
    for k in 0..4 {
        for x in 0..4 {
            let e = t[k] == x;
            a[4 + k / 2][x] |= e;
            a[x][4 + k / 2] |= e;
        }
    }
    let a = close(a, 6);
    let at = [AT[0], AT[1], AT[2], AT[3], L, L + 1];
    for x in 0..6 {
        for y in 0..x {
            check((of[at[x]] == of[at[y]]) == a[x][y], 23);
        }
    }
    // the other pairs are alone
    let mut linked = 0;
    for x in 0..4 {
        let mut first = true;
        for y in 0..x {
            first &= !a[x][y];
        }
        linked += first as usize;
    }
    check(i == L / 2 - 4 + linked, 24);
    reach(1);
}

/// Pairs linked one after the other into two long rows, in several orders, and these two by one
/// more link.
#[no_mangle]
pub extern "C" fn h_p12_rows() {
    const N: usize = 300;
    let cut = [0usize, 7, 150, N - 2][split(int(0, 3)) as usize];
    let order = split(int(0, 3)) as usize;
    let from = [0, cut][split(int(0, 1)) as usize];
    let to = [cut + 1, N - 1, N - 1 - (N - 2 - cut) / 2, N - 1 - (N - 2 - cut) / 9][int(0, 3) as usize];
    let joined = split(int(0, 1)) == 1;
    let swap = split(int(0, 1)) == 1;
    let mut g = trellis::graph::Graph::new();
    for _ in 0..N {
        g.push_to(g.num_verts() as u32 + 1);
        g.finish_from();
        g.finish_from();
    }
    let mut links = 0;
    let mut link = |a: usize, b: usize| {
        g.push_to(2 * (if swap { b } else { a }) as u32);
        g.push_to(2 * (if swap { a } else { b }) as u32 + 1);
        g.finish_from();
        links += 1;
    };
    for k in 0..N - 1 {
        let k = match order {
            0 => k,
            1 => N - 2 - k,
            2 => k * 2 % (N - 1),
            _ => k * 77 % (N - 1),
        };
        if k != cut {
            link(k, k + 1);
        }
    }
    if joined {
        link(from, to);
    }
    let s = find_disjoint_subgraphs(&g).subgraphs;
    check(s.len() == if joined { 1 } else { 2 }, 30);
    check(s.num_values() == 2 * N + links, 31);
    let mut seen = [false; 3 * N];
    for l in s.iter() {
        let low = |v: usize| v / 2 <= cut;
        // the links of each row are not looked at one by one: their number is known
        let mut sides = [0usize; 2];
        for &v in l {
            let v = v as usize;
            check(v < 2 * N + links && !seen[v], 32);
            seen[v] = true;
            if v < 2 * N {
                sides[low(v) as usize] += 1;
            }
        }
        if joined {
            check(sides[1] == 2 * (cut + 1) && sides[0] == 2 * (N - 1 - cut), 33);
        } else {
            check(sides[0] == 0 && sides[1] == 2 * (cut + 1) || sides[1] == 0 && sides[0] == 2 * (N - 1 - cut), 34);
            check(l.len() == if sides[1] == 0 { sides[0] + N - 2 - cut } else { sides[1] + cut }, 35);
        }
    }
    reach(1);
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p12_patterned() {
    let (g, r) = patterned();
    judge(&g, &r);
}

/// More vertices, and more parts, than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p12_huge() {
    const L: usize = 65540;
    let u = [1usize, 3, 65535, 65537][int(0, 3) as usize];
    let path = split(int(0, 1)) == 0;
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if path {
            // all but the last in one part, and that one by the unknown edge
            if v + 2 < L {
                g.push_to(v as u32 + 1);
            }
        } else if v % 2 == 0 {
            g.push_to(v as u32 + 1);
        }
        if v + 1 == L {
            g.push_to(u as u32);
        }
        g.finish_from();
    }
    let s = find_disjoint_subgraphs(&g).subgraphs;
    let mut seen = 0;
    let mut last = 0;
    for l in s.iter() {
        seen += l.len();
        for &v in l {
            if v as usize == L - 1 {
                last = l.len();
                check(path || l.iter().any(|&x| x as usize == u) && l.iter().any(|&x| x as usize == u - 1), 40);
            }
        }
        check(path || l.len() == 2 || l.len() == 4, 41);
    }
    check(seen == L, 42);
    check(s.len() == if path { 1 } else { L / 2 - 1 } && last == if path { L } else { 4 }, 43);
    reach(1);
}

list!(h_p12_rows, h_p12_huge, h_p12_partition, h_p12_links, h_p12_sparse, h_p12_many, h_p12_patterned);
