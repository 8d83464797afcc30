//! Chains.
use super::gr::*;
use crate::sym::*;
use trellis::find_chains::find_chains;

#[cfg(not(feature = "thorough"))]
const S: (usize, usize) = (4, 4);
#[cfg(feature = "thorough")]
const S: (usize, usize) = (5, 5);

fn judge(c: &trellis::ramp_table::RampTable<u32>, r: &G) {
    // a chain vertex has one edge in, one edge out, and they are not the same edge
    let mut ch = [false; NV];
    for v in 0..r.n {
        let (mut i, mut o, mut own) = (0, 0, false);
        for k in 0..r.m {
            i += (r.to[k] == v) as u32;
            o += (r.from[k] == v) as u32;
            own |= r.to[k] == v && r.from[k] == v;
        }
        ch[v] = i == 1 && o == 1 && !own;
    }
    let next = |v: usize| {
        let mut t = 0;
        for k in 0..r.m {
            if r.from[k] == v {
                t = r.to[k];
            }
        }
        t
    };
    let mut key = 0;
    for k in 0..r.m {
        if !ch[r.from[k]] && ch[r.to[k]] {
            check(key < c.len(), 1);
            let s = c.entry_values(key);
            check(s.len() >= 3 && s[0] as usize == r.from[k] && s[1] as usize == r.to[k], 2);
            let mut v = r.to[k];
            let mut i = 1;
            for _ in 0..r.n {
                if ch[v] {
                    check(i < s.len() && s[i] as usize == v, 3);
                    v = next(v);
                    i += 1;
                }
            }
            check(i + 1 == s.len() && s[i] as usize == v && !ch[v], 4);
            key += 1;
        }
    }
    check(c.len() == key, 5);
    check(c.num_values() == c.iter().map(|s| s.len()).sum::<usize>(), 6);
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p13_chains() {
    let (g, r) = any(0, S.0, S.1);
    judge(&find_chains(&g), &r);
}

/// Large vertex numbers.
#[no_mangle]
pub extern "C" fn h_p13_sparse() {
    let (g, r) = sparse(4);
    let mut c = find_chains(&g);
    for v in c.all_values_mut() {
        *v = small(*v as usize) as u32;
    }
    judge(&c, &r);
}

/// A long chain, with one more edge.
#[no_mangle]
pub extern "C" fn h_p13_long() {
    const L: usize = 300;
    let from = [0, 100, 298, 299][split(int(0, 3)) as usize];
    let to = [0, 1, 99, 100, 101, 255, 256, 298, 299][int(0, 8) as usize];
    let mut g = trellis::graph::Graph::new();
    for v in 0..L {
        if v + 1 < L {
            g.push_to(v as u32 + 1);
        }
        if v == from {
            g.push_to(to as u32);
        }
        g.finish_from();
    }
    let (mut i, mut o) = ([1u32; L], [1u32; L]);
    i[0] -= 1;
    o[L - 1] -= 1;
    i[to] += 1;
    o[from] += 1;
    let ch = |v: usize| i[v] == 1 && o[v] == 1 && !(v == from && v == to);
    let c = find_chains(&g);
    let mut key = 0;
    for v in 0..L {
        for e in 0..2 {
            let t = if e == 0 { v + 1 } else { to };
            if (e == 0 && v + 1 == L) || (e == 1 && v != from) || ch(v) || !ch(t) {
                continue;
            }
            check(key < c.len(), 10);
            let s = c.entry_values(key);
            key += 1;
            check(s[0] as usize == v, 11);
            let mut t = t;
            let mut n = 1;
            while ch(t) {
                check(n < s.len() && s[n] as usize == t, 12);
                n += 1;
                t = if t == from { to } else { t + 1 };
            }
            check(n + 1 == s.len() && s[n] as usize == t, 13);
        }
    }
    check(c.len() == key, 14);
    reach(1);
}

/// A vertex with many edges in and out, and a way to and from it.
#[no_mangle]
pub extern "C" fn h_p13_star() {
    const D: [usize; 17] = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 255, 256, 257];
    let i = D[split(int(0, 16)) as usize];
    let o = D[split(int(0, 16)) as usize];
    // vertices: 0 = the hub, 1 = the end of its edges, 2 = where edges come from
    let lp = flag();
    let mut g = trellis::graph::Graph::new();
    for _ in 0..o {
        g.push_to(1);
    }
    g.finish_from();
    if lp {
        g.push_to(1);
    }
    g.finish_from();
    for _ in 0..i {
        g.push_to(0);
    }
    g.finish_from();
    let c = find_chains(&g);
    let hub = i == 1 && o == 1;
    check(c.len() == hub as usize, 20);
    if hub {
        check(c.entry_values(0) == [2, 0, 1], 21);
    }
    observe(c.len() as u64);
    reach(1);
}

/// Larger graphs.
#[no_mangle]
pub extern "C" fn h_p13_patterned() {
    let (g, r) = patterned();
    judge(&find_chains(&g), &r);
}

/// A chain, and a number of chains, of more than 16 bits.
#[no_mangle]
pub extern "C" fn h_p13_huge() {
    const L: usize = 65540;
    let u = int(0, 3) as usize;
    let mut g = trellis::graph::Graph::new();
    if split(int(0, 1)) == 0 {
        let to = [2usize, 65535, 65537, 65538][u];
        for v in 0..L {
            if v + 1 < L {
                g.push_to(v as u32 + 1);
            } else {
                g.push_to(to as u32);
            }
            g.finish_from();
        }
        // into the chain: it ends there, and a second one begins behind
        let c = find_chains(&g);
        let mut n = 0;
        for s in c.iter() {
            for k in 1..s.len() {
                check(s[k] == if s[k - 1] as usize == L - 1 { to as u32 } else { s[k - 1] + 1 }, 50);
                check((k + 1 == s.len()) == (s[k] as usize == to), 51);
            }
            n += s.len() - 1;
        }
        check(c.len() == 2 && n == L, 52);
        check(c[0][0] == 0 && c[1][0] == to as u32 && c[0].len() == to + 1, 53);
    } else {
        // a star
        for k in 1..L {
            g.push_to(k as u32);
        }
        g.finish_from();
        let u = u as u32 * 16000 + 16001;
        for v in 1..L {
            // every one of them leads back
            g.push_to(if v == 65537 { u } else { 0 });
            g.finish_from();
        }
        let c = find_chains(&g);
        check(c.len() == L - 2, 54);
        let mut v = 1;
        for s in c.iter() {
            v += (v == u) as u32;
            check(s.len() == 3 && s[0] == 0 && s[1] == v && s[2] == if v == 65537 { u } else { 0 }, 55);
            v += 1;
        }
    }
    reach(1);
}

list!(h_p13_huge, h_p13_chains, h_p13_sparse, h_p13_long, h_p13_star, h_p13_patterned);
