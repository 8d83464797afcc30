//! An unknown multigraph: the degree sequence is explored case by case, the targets stay unknown.
use crate::sym::*;
use trellis::graph::Graph;

pub const NV: usize = 12;
pub const NE: usize = 20;

#[derive(Clone, Copy)]
pub struct G {
    pub n: usize,
    pub m: usize,
    pub from: [usize; NE],
    pub to: [usize; NE],
}

/// lo..=hi vertices, at most `emax` edges.
pub fn any(lo: usize, hi: usize, emax: usize) -> (Graph, G) {
    let n = split(int(lo as i64, hi as i64)) as usize;
    let mut g = Graph::new();
    let mut r = G { n, m: 0, from: [0; NE], to: [0; NE] };
    let mut tos = [0usize; NE];
    for k in 0..emax {
        tos[k] = int(0, hi as i64 - 1) as usize;
    }
    for v in 0..hi {
        let d = split(int(0, emax as i64)) as usize;
        if v < n {
            assume(r.m + d <= emax);
            for _ in 0..d {
                let t = tos[r.m];
                assume(t < n);
                r.from[r.m] = v;
                r.to[r.m] = t;
                r.m += 1;
                g.push_to(t as u32);
            }
            g.finish_from();
        } else {
            assume(d == 0);
        }
    }
    for k in r.m..emax {
        assume(tos[k] == 0);
    }
    (g, r)
}

/// Where the vertices of a sparse graph are, among vertices without edges.
pub const AT: [usize; 4] = [1, 63, 256, 299];
pub const SPARSE: usize = 301;

/// An unknown multigraph of 4 vertices and at most `emax` edges, with large vertex numbers.
pub fn sparse(emax: usize) -> (Graph, G) {
    let mut g = Graph::new();
    let mut r = G { n: 4, m: 0, from: [0; NE], to: [0; NE] };
    let mut tos = [0usize; NE];
    for k in 0..emax {
        tos[k] = int(0, 3) as usize;
    }
    let mut i = 0;
    for v in 0..SPARSE {
        if i < 4 && v == AT[i] {
            let d = split(int(0, emax as i64)) as usize;
            assume(r.m + d <= emax);
            for _ in 0..d {
                r.from[r.m] = i;
                r.to[r.m] = tos[r.m];
                g.push_to(AT[tos[r.m]] as u32);
                r.m += 1;
            }
            i += 1;
        }
        g.finish_from();
    }
    for k in r.m..emax {
        assume(tos[k] == 0);
    }
    (g, r)
}
/// The number of a vertex of a sparse graph among its 4; greater than all for the others.
pub fn small(v: usize) -> usize {
    let mut r = NV + 1;
    for i in 0..4 {
        r = if v == AT[i] { i } else { r };
    }
    r
}

#[cfg(not(feature = "thorough"))]
const PERMS: [usize; 2] = [1, 4];
#[cfg(not(feature = "thorough"))]
const ORIGINS: [usize; 2] = [5, 11];
#[cfg(feature = "thorough")]
const PERMS: [usize; 5] = [1, 4, 7, 9, 10];
#[cfg(feature = "thorough")]
const ORIGINS: [usize; 4] = [2, 5, 9, 11];

/// One of several graphs of 11 vertices, in one of several numberings, with up to two further edges
/// that lead anywhere.
pub fn patterned() -> (Graph, G) {
    const N: usize = 11;
    const PATTERNS: [&[(usize, usize)]; 9] = [
        &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9)],
        &[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9)],
        &[(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (9, 0)],
        &[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (1, 2), (1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5)],
        &[(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6), (3, 7), (3, 8), (4, 9), (4, 10)],
        &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 6), (5, 6), (6, 7), (6, 8), (7, 9), (8, 9)],
        &[(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (7, 8), (8, 3), (9, 6), (9, 10)],
        &[(0, 1), (1, 2), (2, 0), (3, 4), (4, 3), (5, 6), (6, 7), (8, 8)],
        &[(0, 4), (0, 5), (0, 6), (1, 4), (1, 5), (1, 6), (2, 4), (2, 5), (2, 6), (3, 4), (3, 5), (3, 6)],
    ];
    let e = PATTERNS[split(int(0, 8)) as usize];
    let q = PERMS[split(int(0, PERMS.len() as i64 - 1)) as usize];
    let more = [split(int(0, N as i64)) as usize, ORIGINS[split(int(0, ORIGINS.len() as i64 - 1)) as usize]];
    let to = [int(0, N as i64 - 1) as usize, int(0, N as i64 - 1) as usize];
    let mut g = Graph::new();
    let mut r = G { n: N, m: 0, from: [0; NE], to: [0; NE] };
    for v in 0..N {
        let mut put = |t: usize| {
            g.push_to(t as u32);
            r.from[r.m] = v;
            r.to[r.m] = t;
            r.m += 1;
        };
        if v == more[0] {
            put(to[0]);
        }
        for &(a, b) in e {
            if a * q % N == v {
                put(b * q % N);
            }
        }
        if v == more[1] {
            put(to[1]);
        }
        g.finish_from();
    }
    for i in 0..2 {
        assume(more[i] < N || to[i] == 0);
    }
    (g, r)
}

impl G {
    pub fn adj(&self) -> [[bool; NV]; NV] {
        let mut a = [[false; NV]; NV];
        for k in 0..self.m {
            for t in 0..self.n {
                a[self.from[k]][t] |= self.to[k] == t;
            }
        }
        a
    }
    /// Paths of at least one edge.
    pub fn paths(&self) -> [[bool; NV]; NV] {
        close(self.adj(), self.n)
    }
    pub fn cyclic(&self) -> bool {
        let p = self.paths();
        let mut c = false;
        for v in 0..self.n {
            c |= p[v][v];
        }
        c
    }
    pub fn has_edge(&self, v: usize) -> bool {
        let mut c = false;
        for k in 0..self.m {
            c |= (self.from[k] == v) | (self.to[k] == v);
        }
        c
    }
}
pub fn close(mut a: [[bool; NV]; NV], n: usize) -> [[bool; NV]; NV] {
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                a[i][j] |= a[i][k] & a[k][j];
            }
        }
    }
    a
}
