//! A small incremental CDCL solver and the bit-level encoding of the expression
//! DAG.  It is used to prune infeasible branches during exploration; every verdict
//! (and every pruning) is confirmed by the external SMT solver afterwards.
use crate::expr::*;
use std::rc::Rc;

type Lit = u32; // var << 1 | neg

#[derive(Clone, Copy)]
struct Watch {
    cl: u32,
    blk: Lit,
    tag: u32, // the clause only matters where this variable does
}

/// Clauses define gates: each gate clause carries the variable it defines, and a query only looks
/// at the gates its literals depend on (its cone).  Skipping the other definitions is sound, as
/// a gate can always be given the value its inputs determine.
pub struct Sat {
    ar: Vec<u32>, // clause: length, learnt slot + 1 or 0, tag, literals
    lact: Vec<(u32, f32)>,
    watches: Vec<Vec<Watch>>,
    val: Vec<i8>, // per literal: 1 true, -1 false, 0 unknown
    level: Vec<u32>,
    reason: Vec<u32>,
    fan: Vec<[Lit; 3]>,
    stamp: Vec<u32>,
    now: u32,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    cinc: f32,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    phase: Vec<bool>,
    seen: Vec<bool>,
    ok: bool,
    pub conflicts: u64,
    pub props: u64,
    pub decs: u64,
    pub core: Vec<Lit>, // of the last unsatisfiable query: assumptions that cannot hold together
    nlearnt: usize,
    maxlearnt: usize,
}
const NOREASON: u32 = u32::MAX;
const H: usize = 3;

impl Sat {
    pub fn new() -> Sat {
        Sat {
            ar: vec![],
            lact: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            fan: vec![],
            stamp: vec![],
            now: 0,
            trail: vec![],
            lim: vec![],
            qhead: 0,
            act: vec![],
            inc: 1.0,
            cinc: 1.0,
            heap: vec![],
            hpos: vec![],
            phase: vec![],
            seen: vec![],
            ok: true,
            conflicts: 0,
            props: 0,
            decs: 0,
            core: vec![],
            nlearnt: 0,
            maxlearnt: 8000,
        }
    }
    pub fn newvar(&mut self, fan: [Lit; 3]) -> u32 {
        let v = self.level.len() as u32;
        self.level.push(0);
        self.reason.push(NOREASON);
        self.fan.push(fan);
        self.stamp.push(0);
        self.act.push(0.0);
        self.phase.push(false);
        self.seen.push(false);
        self.val.push(0);
        self.val.push(0);
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.hpos.push(-1);
        v
    }
    fn hless(&self, a: u32, b: u32) -> bool {
        self.act[a as usize] > self.act[b as usize]
    }
    fn hup(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if !self.hless(x, self.heap[p]) {
                break;
            }
            self.heap[i] = self.heap[p];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = p;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hdown(&mut self, mut i: usize) {
        let x = self.heap[i];
        let n = self.heap.len();
        loop {
            let mut c = 2 * i + 1;
            if c >= n {
                break;
            }
            if c + 1 < n && self.hless(self.heap[c + 1], self.heap[c]) {
                c += 1;
            }
            if !self.hless(self.heap[c], x) {
                break;
            }
            self.heap[i] = self.heap[c];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = c;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hins(&mut self, v: u32) {
        if self.hpos[v as usize] >= 0 || self.stamp[v as usize] != self.now {
            return;
        }
        self.heap.push(v);
        let i = self.heap.len() - 1;
        self.hpos[v as usize] = i as i32;
        self.hup(i);
    }
    fn hpop(&mut self) -> Option<u32> {
        if self.heap.is_empty() {
            return None;
        }
        let x = self.heap[0];
        self.hpos[x as usize] = -1;
        let y = self.heap.pop().unwrap();
        if !self.heap.is_empty() {
            self.heap[0] = y;
            self.hpos[y as usize] = 0;
            self.hdown(0);
        }
        Some(x)
    }
    fn bump(&mut self, v: u32) {
        self.act[v as usize] += self.inc;
        if self.act[v as usize] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v as usize] >= 0 {
            let p = self.hpos[v as usize] as usize;
            self.hup(p);
        }
    }
    fn enq(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[(l ^ 1) as usize] = -1;
        let v = (l >> 1) as usize;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for i in (to..self.trail.len()).rev() {
            let l = self.trail[i];
            self.val[l as usize] = 0;
            self.val[(l ^ 1) as usize] = 0;
            self.phase[(l >> 1) as usize] = l & 1 == 0;
            self.hins(l >> 1);
        }
        self.trail.truncate(to);
        self.qhead = to;
        self.lim.truncate(lvl);
    }
    pub fn add(&mut self, c: &[Lit], tag: u32) {
        if !self.ok {
            return;
        }
        self.cancel(0);
        let mut c: Vec<Lit> = c.to_vec();
        c.sort();
        c.dedup();
        for w in c.windows(2) {
            if w[0] ^ 1 == w[1] {
                return;
            }
        }
        if c.iter().any(|&l| self.val[l as usize] == 1) {
            return;
        }
        c.retain(|&l| self.val[l as usize] == 0);
        match c.len() {
            0 => self.ok = false,
            1 => {
                self.enq(c[0], NOREASON);
                if self.propagate() != NOREASON {
                    self.ok = false;
                }
            }
            _ => {
                self.attach(&c, tag, false);
            }
        }
    }
    fn attach(&mut self, c: &[Lit], tag: u32, learnt: bool) -> u32 {
        let i = self.ar.len() as u32;
        self.watches[(c[0] ^ 1) as usize].push(Watch { cl: i, blk: c[1], tag });
        self.watches[(c[1] ^ 1) as usize].push(Watch { cl: i, blk: c[0], tag });
        self.ar.push(c.len() as u32);
        if learnt {
            self.lact.push((i, self.cinc));
            self.ar.push(self.lact.len() as u32);
            self.nlearnt += 1;
        } else {
            self.ar.push(0);
        }
        self.ar.push(tag);
        self.ar.extend_from_slice(c);
        i
    }
    fn propagate(&mut self) -> u32 {
        let all = self.lim.is_empty();
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.props += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let n = ws.len();
            let mut confl = NOREASON;
            'outer: while i < n {
                let w = ws[i];
                i += 1;
                if self.val[w.blk as usize] == 1 || (!all && self.stamp[w.tag as usize] != self.now) {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let at = w.cl as usize;
                let len = self.ar[at] as usize;
                if len == 0 {
                    continue; // deleted
                }
                let c = &mut self.ar[at + H..at + H + len];
                if c[0] == p ^ 1 {
                    c.swap(0, 1);
                }
                let first = c[0];
                if self.val[first as usize] == 1 {
                    ws[j] = Watch { cl: w.cl, blk: first, tag: w.tag };
                    j += 1;
                    continue;
                }
                for k in 2..len {
                    if self.val[c[k] as usize] != -1 {
                        c.swap(1, k);
                        let l = c[1];
                        self.watches[(l ^ 1) as usize].push(Watch { cl: w.cl, blk: first, tag: w.tag });
                        continue 'outer;
                    }
                }
                ws[j] = Watch { cl: w.cl, blk: first, tag: w.tag };
                j += 1;
                if self.val[first as usize] == -1 {
                    confl = w.cl;
                    self.qhead = self.trail.len();
                    while i < n {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                } else {
                    self.enq(first, w.cl);
                }
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl != NOREASON {
                return confl;
            }
        }
        NOREASON
    }
    fn lits(&self, c: u32) -> &[Lit] {
        let at = c as usize;
        &self.ar[at + H..at + H + self.ar[at] as usize]
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize) {
        let mut out: Vec<Lit> = vec![0];
        let mut cnt = 0;
        let mut p: Option<Lit> = None;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear = vec![];
        loop {
            let slot = self.ar[confl as usize + 1];
            if slot > 0 {
                let a = &mut self.lact[slot as usize - 1].1;
                *a += self.cinc;
                if *a > 1e20 {
                    for a in self.lact.iter_mut() {
                        a.1 *= 1e-20;
                    }
                    self.cinc *= 1e-20;
                }
            }
            let n = self.ar[confl as usize] as usize;
            for k in 0..n {
                let q = self.ar[confl as usize + H + k];
                if Some(q) == p {
                    continue;
                }
                let v = (q >> 1) as usize;
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    clear.push(v);
                    self.bump(q >> 1);
                    if self.level[v] >= cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[(self.trail[idx] >> 1) as usize] {
                    break;
                }
            }
            let l = self.trail[idx];
            p = Some(l);
            confl = self.reason[(l >> 1) as usize];
            self.seen[(l >> 1) as usize] = false;
            cnt -= 1;
            if cnt == 0 {
                break;
            }
        }
        out[0] = p.unwrap() ^ 1;
        // drop literals implied by the rest (one step)
        let mut keep = vec![out[0]];
        for &q in &out[1..] {
            let r = self.reason[(q >> 1) as usize];
            let red = r != NOREASON && self.lits(r).iter().all(|&x| x >> 1 == q >> 1 || self.level[(x >> 1) as usize] == 0 || self.seen[(x >> 1) as usize]);
            if !red {
                keep.push(q);
            }
        }
        for v in clear {
            self.seen[v] = false;
        }
        let mut bt = 0;
        if keep.len() > 1 {
            let mut m = 1;
            for i in 2..keep.len() {
                if self.level[(keep[i] >> 1) as usize] > self.level[(keep[m] >> 1) as usize] {
                    m = i;
                }
            }
            keep.swap(1, m);
            bt = self.level[(keep[1] >> 1) as usize] as usize;
        }
        (keep, bt)
    }
    /// Forget half of the learnt clauses and compact the arena; only at level 0.
    fn reduce(&mut self) {
        let mut ls: Vec<(u32, f32)> = self.lact.iter().copied().filter(|x| self.ar[x.0 as usize] > 2).collect();
        ls.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        let k = ls.len() / 2;
        for i in 0..self.level.len() {
            // reasons at level 0 are never looked at again
            self.reason[i] = NOREASON;
        }
        for x in &ls[..k] {
            let at = x.0 as usize;
            self.ar[at + 1] = u32::MAX; // dead
            self.nlearnt -= 1;
        }
        let old = std::mem::take(&mut self.ar);
        let oact = std::mem::take(&mut self.lact);
        for w in self.watches.iter_mut() {
            w.clear();
        }
        let mut p = 0;
        let mut l0 = vec![];
        while p < old.len() {
            let n = old[p] as usize;
            let slot = old[p + 1];
            let tag = old[p + 2];
            let c = &old[p + H..p + H + n];
            p += H + n;
            if slot == u32::MAX || c.iter().any(|&l| self.val[l as usize] == 1) {
                if slot != 0 && slot != u32::MAX {
                    self.nlearnt -= 1;
                }
                continue;
            }
            l0.clear();
            l0.extend(c.iter().copied().filter(|&l| self.val[l as usize] == 0));
            debug_assert!(l0.len() > 1);
            if slot > 0 {
                self.nlearnt -= 1;
                let a = oact[slot as usize - 1].1;
                self.attach(&l0, tag, true);
                self.lact.last_mut().unwrap().1 = a;
            } else {
                self.attach(&l0, tag, false);
            }
        }
    }
    fn cone(&mut self, roots: &[Lit]) {
        self.now += 1;
        let now = self.now;
        for &v in &self.heap {
            self.hpos[v as usize] = -1;
        }
        self.heap.clear();
        self.stamp[0] = now;
        let mut st: Vec<u32> = vec![];
        let mut vs = vec![];
        for r in roots {
            if self.stamp[(r >> 1) as usize] != now {
                self.stamp[(r >> 1) as usize] = now;
                st.push(r >> 1);
            }
        }
        while let Some(v) = st.pop() {
            vs.push(v);
            for l in self.fan[v as usize] {
                let u = l >> 1;
                if self.stamp[u as usize] != now {
                    self.stamp[u as usize] = now;
                    st.push(u);
                }
            }
        }
        for v in vs {
            if self.val[(v << 1) as usize] == 0 {
                self.hins(v);
            }
        }
    }
    /// Some(true) satisfiable, Some(false) not, None: budget used up.
    pub fn solve(&mut self, assumptions: &[Lit], budget: u64) -> Option<bool> {
        self.core.clear();
        if !self.ok {
            return Some(false);
        }
        self.cancel(0);
        if self.propagate() != NOREASON {
            self.ok = false;
            return Some(false);
        }
        self.cone(assumptions);
        let start = self.conflicts;
        let mut restart = 100u64;
        let mut next = self.conflicts + restart;
        loop {
            let confl = self.propagate();
            if confl != NOREASON {
                self.conflicts += 1;
                if self.lim.is_empty() {
                    self.ok = false;
                    return Some(false);
                }
                let (c, bt) = self.analyze(confl);
                self.cancel(bt);
                if c.len() == 1 {
                    self.enq(c[0], NOREASON);
                } else {
                    let l = c[0];
                    let tag = c.iter().map(|x| x >> 1).max().unwrap();
                    let i = self.attach(&c, tag, true);
                    self.enq(l, i);
                }
                self.inc /= 0.95;
                self.cinc /= 0.999;
                if self.conflicts - start > budget {
                    self.cancel(0);
                    return None;
                }
                continue;
            }
            if self.conflicts >= next {
                restart = restart + restart / 10;
                next = self.conflicts + restart;
                self.cancel(0);
                if self.propagate() != NOREASON {
                    self.ok = false;
                    return Some(false);
                }
                if self.nlearnt > self.maxlearnt {
                    self.reduce();
                    self.maxlearnt += 500;
                }
                continue;
            }
            if self.lim.len() < assumptions.len() {
                let a = assumptions[self.lim.len()];
                match self.val[a as usize] {
                    1 => {
                        self.lim.push(self.trail.len());
                    }
                    -1 => {
                        self.failed(a);
                        self.cancel(0);
                        return Some(false);
                    }
                    _ => {
                        self.lim.push(self.trail.len());
                        self.enq(a, NOREASON);
                    }
                }
                continue;
            }
            let mut d = None;
            while let Some(v) = self.hpop() {
                if self.val[(v << 1) as usize] == 0 {
                    d = Some(v);
                    break;
                }
            }
            match d {
                None => return Some(true),
                Some(v) => {
                    self.decs += 1;
                    self.lim.push(self.trail.len());
                    let l = v << 1 | if self.phase[v as usize] { 0 } else { 1 };
                    self.enq(l, NOREASON);
                }
            }
        }
    }
    /// The assumptions that force assumption `a` to be false.
    fn failed(&mut self, a: Lit) {
        self.core.push(a);
        let va = (a >> 1) as usize;
        if self.level[va] == 0 {
            return;
        }
        self.seen[va] = true;
        for i in (self.lim[0]..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = (l >> 1) as usize;
            if !self.seen[v] {
                continue;
            }
            self.seen[v] = false;
            let r = self.reason[v];
            if r == NOREASON {
                self.core.push(l);
            } else {
                let n = self.ar[r as usize] as usize;
                for k in 0..n {
                    let u = (self.ar[r as usize + H + k] >> 1) as usize;
                    if u != v && self.level[u] > 0 {
                        self.seen[u] = true;
                    }
                }
            }
        }
        self.seen[va] = false;
    }
    pub fn value(&self, l: Lit) -> bool {
        self.val[l as usize] == 1
    }
}

/// Encoding of DAG nodes into clauses, on demand.
pub struct Blast {
    pub sat: Sat,
    b: Vec<Option<Lit>>,         // per Boolean node
    e: Vec<Option<Rc<Vec<Lit>>>>, // per word node
    t: Lit,
    bvars: Vec<(u32, Lit)>,
    evars: Vec<(u32, Rc<Vec<Lit>>)>,
    pub unsupported: bool,
}

impl Blast {
    pub fn new() -> Blast {
        let mut sat = Sat::new();
        let v = sat.newvar([0; 3]);
        sat.add(&[v << 1], v);
        Blast { sat, b: vec![], e: vec![], t: v << 1, bvars: vec![], evars: vec![], unsupported: false }
    }
    fn fresh(&mut self) -> Lit {
        self.sat.newvar([0; 3]) << 1
    }
    fn gate(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        self.sat.newvar([a, b, c]) << 1
    }
    fn def(&mut self, o: Lit, c: &[Lit]) {
        self.sat.add(c, o >> 1);
    }
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (t, f) = (self.t, self.t ^ 1);
        if a == f || b == f || a == b ^ 1 {
            return f;
        }
        if a == t || a == b {
            return b;
        }
        if b == t {
            return a;
        }
        let o = self.gate(a, b, 0);
        self.def(o, &[o ^ 1, a]);
        self.def(o, &[o ^ 1, b]);
        self.def(o, &[o, a ^ 1, b ^ 1]);
        o
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let (t, f) = (self.t, self.t ^ 1);
        if a == f {
            return b;
        }
        if b == f {
            return a;
        }
        if a == t {
            return b ^ 1;
        }
        if b == t {
            return a ^ 1;
        }
        if a == b {
            return f;
        }
        if a == b ^ 1 {
            return t;
        }
        let o = self.gate(a, b, 0);
        self.def(o, &[o ^ 1, a, b]);
        self.def(o, &[o ^ 1, a ^ 1, b ^ 1]);
        self.def(o, &[o, a ^ 1, b]);
        self.def(o, &[o, a, b ^ 1]);
        o
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == self.t || a == b {
            return a;
        }
        if c == self.t ^ 1 {
            return b;
        }
        if a == self.t || b == self.t || a == self.t ^ 1 || b == self.t ^ 1 || a == b ^ 1 {
            let x = self.and(c, a);
            let y = self.and(c ^ 1, b);
            return self.or(x, y);
        }
        let o = self.gate(a, b, c);
        self.def(o, &[c ^ 1, a ^ 1, o]);
        self.def(o, &[c ^ 1, a, o ^ 1]);
        self.def(o, &[c, b ^ 1, o]);
        self.def(o, &[c, b, o ^ 1]);
        o
    }
    fn kbits(&self, v: u128, w: u32) -> Vec<Lit> {
        (0..w).map(|i| if v >> i & 1 == 1 { self.t } else { self.t ^ 1 }).collect()
    }
    fn adder(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
        let mut c = cin;
        let mut o = vec![];
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            o.push(self.xor(x, c));
            let p = self.and(a[i], b[i]);
            let q = self.and(x, c);
            c = self.or(p, q);
        }
        (o, c)
    }
    fn ultl(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let nb: Vec<Lit> = b.iter().map(|x| x ^ 1).collect();
        // a < b  <=>  no carry out of a + !b + 1
        let t = self.t;
        let (_, c) = self.carry(a, &nb, t);
        c ^ 1
    }
    fn carry(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> ((), Lit) {
        let mut c = cin;
        for i in 0..a.len() {
            let p = self.and(a[i], b[i]);
            let x = self.or(a[i], b[i]);
            let q = self.and(x, c);
            c = self.or(p, q);
        }
        ((), c)
    }
    fn mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let f = self.t ^ 1;
        let mut acc = vec![f; w];
        for i in 0..w {
            if b[i] == f {
                continue;
            }
            let row: Vec<Lit> = (0..w).map(|j| if j < i { f } else { self.and(a[j - i], b[i]) }).collect();
            acc = self.adder(&acc, &row, f).0;
        }
        acc
    }
    fn udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let f = self.t ^ 1;
        let mut r = vec![f; w + 1];
        let mut q = vec![f; w];
        let mut bx = b.to_vec();
        bx.push(f);
        for i in (0..w).rev() {
            let mut s = vec![a[i]];
            s.extend_from_slice(&r[..w]);
            let lt = self.ultl(&s, &bx);
            let nb: Vec<Lit> = bx.iter().map(|x| x ^ 1).collect();
            let t = self.t;
            let (d, _) = self.adder(&s, &nb, t);
            q[i] = lt ^ 1;
            r = (0..=w).map(|j| self.mux(lt, s[j], d[j])).collect();
        }
        r.truncate(w);
        (q, r)
    }
    fn neg(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n: Vec<Lit> = a.iter().map(|x| x ^ 1).collect();
        let z = self.kbits(0, a.len() as u32);
        let t = self.t;
        self.adder(&n, &z, t).0
    }
    fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }
    pub fn lit(&mut self, c: &Ctx, b: B) -> Lit {
        self.bnode(c, b >> 1) ^ (b & 1)
    }
    fn bnode(&mut self, c: &Ctx, n: u32) -> Lit {
        if self.b.len() <= n as usize {
            self.b.resize(c.bn.len(), None);
        }
        if let Some(l) = self.b[n as usize] {
            return l;
        }
        let l = match c.bn[n as usize] {
            BN::True => self.t,
            BN::Var(i) => {
                let l = self.fresh();
                self.bvars.push((i, l));
                l
            }
            BN::And(x, y) => {
                let p = self.lit(c, x);
                let q = self.lit(c, y);
                self.and(p, q)
            }
            BN::Eq(x, y) => {
                let p = self.word(c, x);
                let q = self.word(c, y);
                let mut r = self.t;
                for i in 0..p.len() {
                    let d = self.xor(p[i], q[i]);
                    r = self.and(r, d ^ 1);
                }
                r
            }
            BN::Ult(x, y) => {
                let p = self.word(c, x);
                let q = self.word(c, y);
                self.ultl(&p, &q)
            }
            BN::Slt(x, y) => {
                let mut p = self.word(c, x).to_vec();
                let mut q = self.word(c, y).to_vec();
                let n = p.len();
                p[n - 1] ^= 1;
                q[n - 1] ^= 1;
                self.ultl(&p, &q)
            }
            BN::Bit(x, i) => self.word(c, x)[i as usize],
        };
        self.b[n as usize] = Some(l);
        l
    }
    fn word(&mut self, c: &Ctx, e: E) -> Rc<Vec<Lit>> {
        if self.e.len() <= e as usize {
            self.e.resize(c.en.len(), None);
        }
        if let Some(x) = &self.e[e as usize] {
            return x.clone();
        }
        let w = c.width(e);
        let f = self.t ^ 1;
        let r: Vec<Lit> = match &c.en[e as usize] {
            EN::Const(_, v) => self.kbits(*v, w),
            EN::Var(_, i) => {
                let r: Vec<Lit> = (0..w).map(|_| self.fresh()).collect();
                self.evars.push((*i, Rc::new(r.clone())));
                r
            }
            EN::Cases(_, l) => {
                let gs: Vec<Lit> = l.iter().map(|x| self.lit(c, x.1)).collect();
                (0..w)
                    .map(|i| {
                        let on: Vec<Lit> = l.iter().zip(&gs).filter(|(x, _)| x.0 >> i & 1 == 1).map(|(_, g)| *g).collect();
                        if on.is_empty() {
                            f
                        } else if on.len() == l.len() {
                            self.t
                        } else {
                            let mut r = f;
                            for g in on {
                                r = self.or(r, g);
                            }
                            r
                        }
                    })
                    .collect()
            }
            EN::Ite(b, x, y) => {
                let g = self.lit(c, *b);
                let p = self.word(c, *x);
                let q = self.word(c, *y);
                self.muxv(g, &p, &q)
            }
            EN::Bin(op, x, y) => {
                let a = self.word(c, *x);
                let b = self.word(c, *y);
                match op {
                    Op::Add => self.adder(&a, &b, f).0,
                    Op::Sub => {
                        let nb: Vec<Lit> = b.iter().map(|x| x ^ 1).collect();
                        let t = self.t;
                        self.adder(&a, &nb, t).0
                    }
                    Op::Mul => self.mul(&a, &b),
                    Op::And => (0..a.len()).map(|i| self.and(a[i], b[i])).collect(),
                    Op::Or => (0..a.len()).map(|i| self.or(a[i], b[i])).collect(),
                    Op::Xor => (0..a.len()).map(|i| self.xor(a[i], b[i])).collect(),
                    Op::Udiv => self.udivrem(&a, &b).0,
                    Op::Urem => self.udivrem(&a, &b).1,
                    Op::Sdiv | Op::Srem => {
                        let n = a.len();
                        let (sa, sb) = (a[n - 1], b[n - 1]);
                        let na = self.neg(&a);
                        let nb = self.neg(&b);
                        let ua = self.muxv(sa, &na, &a);
                        let ub = self.muxv(sb, &nb, &b);
                        let (q, r) = self.udivrem(&ua, &ub);
                        if *op == Op::Sdiv {
                            let s = self.xor(sa, sb);
                            let nq = self.neg(&q);
                            self.muxv(s, &nq, &q)
                        } else {
                            let nr = self.neg(&r);
                            self.muxv(sa, &nr, &r)
                        }
                    }
                    Op::Shl | Op::Lshr | Op::Ashr => {
                        let n = a.len();
                        let mut cur = a.to_vec();
                        let fill = if *op == Op::Ashr { a[n - 1] } else { f };
                        let mut k = 0;
                        let mut big = f;
                        while k < n {
                            let s = b[k];
                            if k < 31 && (1usize << k) < n {
                                let d = 1usize << k;
                                let sh: Vec<Lit> = (0..n)
                                    .map(|i| match op {
                                        Op::Shl => {
                                            if i >= d {
                                                cur[i - d]
                                            } else {
                                                f
                                            }
                                        }
                                        _ => {
                                            if i + d < n {
                                                cur[i + d]
                                            } else {
                                                fill
                                            }
                                        }
                                    })
                                    .collect();
                                cur = self.muxv(s, &sh, &cur);
                            } else {
                                big = self.or(big, s);
                            }
                            k += 1;
                        }
                        let fl = vec![fill; n];
                        self.muxv(big, &fl, &cur)
                    }
                }
            }
            EN::Zext(x, _) => {
                let mut r = self.word(c, *x).to_vec();
                r.resize(w as usize, f);
                r
            }
            EN::Sext(x, _) => {
                let mut r = self.word(c, *x).to_vec();
                let s = *r.last().unwrap();
                r.resize(w as usize, s);
                r
            }
            EN::Extract(x, lo, n) => self.word(c, *x)[*lo as usize..(*lo + *n) as usize].to_vec(),
            EN::Concat(h, l) => {
                let mut r = self.word(c, *l).to_vec();
                r.extend_from_slice(&self.word(c, *h));
                r
            }
            EN::IntF(_) | EN::F(..) => {
                // no bit-level encoding: any value
                self.unsupported = true;
                (0..w).map(|_| self.fresh()).collect()
            }
        };
        assert_eq!(r.len(), w as usize);
        let r = Rc::new(r);
        self.e[e as usize] = Some(r.clone());
        r
    }
    pub fn model(&self, c: &Ctx) -> Model {
        let mut m = Model { b: vec![false; c.nbv as usize], e: vec![0; c.nev as usize], seed: self.sat.conflicts ^ 0x5bd1e995 };
        for (i, l) in &self.bvars {
            m.b[*i as usize] = self.sat.value(*l);
        }
        for (i, ls) in &self.evars {
            let mut v = 0u128;
            for (k, l) in ls.iter().enumerate() {
                if self.sat.value(*l) {
                    v |= 1 << k;
                }
            }
            m.e[*i as usize] = v;
        }
        m
    }
}
