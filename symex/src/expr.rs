//! Hash-consed expression DAG: Booleans as an and-inverter graph whose leaves are
//! variables and word-level predicates, words as bit-vector terms.  A word whose
//! value ranges over few constants is kept as a guarded list of constants
//! ("Cases"), so that symbolic pointers and lengths stay enumerable.
use std::collections::HashMap;
use std::rc::Rc;

pub type B = u32; // literal: node << 1 | complement
pub type E = u32;
pub const TRUE: B = 0;
pub const FALSE: B = 1;
pub const MAX_CASES: usize = 160;

#[inline]
pub fn not(b: B) -> B {
    b ^ 1
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    True,
    Var(u32),
    And(B, B),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Bit(E, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Lshr,
    Ashr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Sqrt,
    Floor,
    Ceil,
    Round,
    Trunc,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum EN {
    Const(u32, u128),
    Var(u32, u32),
    Cases(u32, Rc<[(u128, B)]>),
    Ite(B, E, E),
    Bin(Op, E, E),
    Zext(E, u32),
    Sext(E, u32),
    Extract(E, u32, u32), // lo, width
    Concat(E, E),         // hi, lo
    IntF(E),              // double whose real value is the signed word
    F(FOp, E, E),         // other double arithmetic, 64-bit result
}

/// One assignment to the free variables.
#[derive(Clone, Default)]
pub struct Model {
    pub b: Vec<bool>,
    pub e: Vec<u128>,
    pub seed: u64,
}

impl Model {
    fn mix(&self, i: u64) -> u64 {
        let mut z = self.seed.wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(0x1234567);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn bv(&self, i: u32) -> bool {
        self.b.get(i as usize).copied().unwrap_or_else(|| self.mix(i as u64 * 2) >> 17 & 1 == 1)
    }
    pub fn ev(&self, i: u32) -> u128 {
        self.e.get(i as usize).copied().unwrap_or_else(|| self.mix(i as u64 * 2 + 1) as u128)
    }
}

const RECENT: usize = 40;
#[derive(Default)]
struct Word {
    n: u32, // models present
    models: Vec<Model>,
    b: Vec<(u64, u64)>, // known, value
    e: Vec<Option<Rc<EV>>>,
}
struct EV {
    known: u64,
    v: [u128; 64],
}

#[derive(Default)]
pub struct Lemmas {
    b: Vec<B>,
    end: Vec<u32>,
}
impl Lemmas {
    fn push(&mut self, l: &[B]) {
        self.b.extend_from_slice(l);
        self.end.push(self.b.len() as u32);
    }
    pub fn len(&self) -> usize {
        self.end.len()
    }
    pub fn iter(&self) -> impl Iterator<Item = &[B]> {
        (0..self.end.len()).map(|i| &self.b[if i == 0 { 0 } else { self.end[i - 1] as usize }..self.end[i] as usize])
    }
}

pub struct Ctx {
    pub bn: Vec<BN>,
    bmap: HashMap<BN, B>,
    pub en: Vec<EN>,
    pub ew: Vec<u32>,
    emap: HashMap<EN, E>,
    pub nbv: u32,
    pub nev: u32,
    pub evw: Vec<u32>,
    words: Vec<Word>,
    range: HashMap<E, (i128, i128)>,
    pub tainted: std::collections::HashSet<u32>, // word variables standing for uninitialised data
    taint_e: HashMap<E, bool>,
    taint_b: HashMap<u32, bool>,
    twin_em: HashMap<E, E>,
    twin_bm: HashMap<u32, B>,
    pub err: Option<String>,
    pub fop_used: bool,
    tts: Vec<Option<Box<TT>>>, // per Boolean node
    tmap: HashMap<TT, B>,
    /// what was decided by a truth table: conjunctions that no input satisfies
    pub lemmas: Lemmas,
    rows: std::collections::HashSet<Vec<B>>,
}

/// The truth table of a Boolean over at most TTV variables; false where all of them are.
#[derive(Clone, PartialEq, Eq, Hash)]
struct TT {
    n: u8,
    vars: [u32; TTV],
    t: [u64; TTW],
}
const TTV: usize = 8;
const TTW: usize = 1 << TTV >> 6;
/// tables of the single variables
const TTX: [u64; 6] = [0xaaaa_aaaa_aaaa_aaaa, 0xcccc_cccc_cccc_cccc, 0xf0f0_f0f0_f0f0_f0f0, 0xff00_ff00_ff00_ff00, 0xffff_0000_ffff_0000, 0xffff_ffff_0000_0000];
impl TT {
    fn vars(&self) -> &[u32] {
        &self.vars[..self.n as usize]
    }
    /// the table over more variables; tables are kept periodic, so that they fill all words
    fn expand(&self, vars: &[u32]) -> [u64; TTW] {
        if self.vars() == vars {
            return self.t;
        }
        let mut pos = [0; TTV];
        for (k, v) in self.vars().iter().enumerate() {
            pos[k] = vars.iter().position(|x| x == v).unwrap();
        }
        let mut t = [0; TTW];
        for m in 0..1usize << vars.len() {
            let mut i = 0;
            for k in 0..self.n as usize {
                i |= (m >> pos[k] & 1) << k;
            }
            t[m >> 6] |= (self.t[i >> 6] >> (i & 63) & 1) << (m & 63);
        }
        Self::fill(&mut t, vars.len());
        t
    }
    fn fill(t: &mut [u64; TTW], n: usize) {
        for k in n..6 {
            t[0] |= t[0] << (1 << k);
        }
        for k in n.max(6)..TTV {
            let w = 1 << (k - 6);
            for i in 0..w {
                t[i + w] = t[i];
            }
        }
    }
    /// of these variables those that matter
    fn reduce(vars: &[u32], t: [u64; TTW]) -> TT {
        let mut keep = [0; TTV];
        let mut n = 0;
        for k in 0..vars.len() {
            let dep = if k < 6 {
                (0..TTW).any(|i| (t[i] ^ t[i] >> (1 << k)) & !TTX[k] != 0)
            } else {
                let w = 1 << (k - 6);
                (0..TTW).any(|i| i & w == 0 && t[i] != t[i | w])
            };
            if dep {
                keep[n] = k;
                n += 1;
            }
        }
        let mut r = TT { n: n as u8, vars: [0; TTV], t };
        for i in 0..n {
            r.vars[i] = vars[keep[i]];
        }
        if n < vars.len() {
            let mut s = [0; TTW];
            for m in 0..1usize << n {
                let mut i = 0;
                for k in 0..n {
                    i |= (m >> k & 1) << keep[k];
                }
                s[m >> 6] |= (t[i >> 6] >> (i & 63) & 1) << (m & 63);
            }
            Self::fill(&mut s, n);
            r.t = s;
        }
        r
    }
}
fn join(a: &mut ([u32; TTV], usize), b: &[u32]) -> bool {
    for x in b {
        let i = a.0[..a.1].partition_point(|y| y < x);
        if i == a.1 || a.0[i] != *x {
            if a.1 == TTV {
                return false;
            }
            a.0.copy_within(i..a.1, i + 1);
            a.0[i] = *x;
            a.1 += 1;
        }
    }
    true
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sgn(v: u128, w: u32) -> i128 {
    if w == 0 {
        return 0;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn bits_for(lo: i128, hi: i128) -> u32 {
    let mut w = 1;
    loop {
        let min = -(1i128 << (w - 1));
        let max = (1i128 << (w - 1)) - 1;
        if lo >= min && hi <= max {
            return w;
        }
        w += 1;
    }
}

pub fn op_const(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::Udiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::Urem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::Sdiv => {
            let (x, y) = (sgn(a, w), sgn(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::Srem => {
            let (x, y) = (sgn(a, w), sgn(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::Lshr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::Ashr => {
            let x = sgn(a, w);
            if b >= w as u128 {
                (x >> 127) as u128
            } else {
                (x >> b) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}

pub fn fop_const(op: FOp, a: u128, b: u128) -> u128 {
    let x = f64::from_bits(a as u64);
    let y = f64::from_bits(b as u64);
    let r = match op {
        FOp::Add => x + y,
        FOp::Sub => x - y,
        FOp::Mul => x * y,
        FOp::Div => x / y,
        FOp::Rem => x % y,
        FOp::Sqrt => x.sqrt(),
        FOp::Floor => x.floor(),
        FOp::Ceil => x.ceil(),
        FOp::Round => x.round(),
        FOp::Trunc => x.trunc(),
    };
    r.to_bits() as u128
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            bn: vec![BN::True],
            bmap: HashMap::new(),
            en: vec![],
            ew: vec![],
            emap: HashMap::new(),
            nbv: 0,
            nev: 0,
            evw: vec![],
            words: vec![],
            range: HashMap::new(),
            tainted: Default::default(),
            taint_e: HashMap::new(),
            taint_b: HashMap::new(),
            twin_em: HashMap::new(),
            twin_bm: HashMap::new(),
            err: None,
            fop_used: false,
            tts: vec![Some(Box::new(TT { n: 0, vars: [0; TTV], t: [!0; TTW] }))],
            tmap: HashMap::new(),
            lemmas: Lemmas::default(),
            rows: Default::default(),
        };
        c.bmap.insert(BN::True, 0);
        c
    }
    pub fn fail(&mut self, s: &str) {
        if self.err.is_none() {
            self.err = Some(s.to_string());
        }
    }
    fn mkb(&mut self, n: BN) -> B {
        if let Some(&b) = self.bmap.get(&n) {
            return b;
        }
        let i = self.bn.len() as u32;
        let t = match n {
            BN::Var(v) => {
                let mut vars = [0; TTV];
                vars[0] = v;
                Some(TT { n: 1, vars, t: [TTX[0]; TTW] })
            }
            BN::And(a, b) => match (&self.tts[(a >> 1) as usize], &self.tts[(b >> 1) as usize]) {
                (Some(p), Some(q)) => {
                    let mut vars = (p.vars, p.n as usize);
                    if join(&mut vars, q.vars()) {
                        let vars = &vars.0[..vars.1];
                        let (mut r, s) = (self.table(a, vars), self.table(b, vars));
                        for i in 0..TTW {
                            r[i] &= s[i];
                        }
                        Some(TT::reduce(vars, r))
                    } else {
                        None
                    }
                }
                _ => None,
            },
            _ => None,
        };
        // a Boolean of few variables is represented by one node
        if let Some(mut t) = t {
            let neg = t.t[0] & 1;
            if neg == 1 {
                for x in t.t.iter_mut() {
                    *x = !*x;
                }
            }
            let same = if t.n == 0 { Some(FALSE ^ neg as u32) } else { self.tmap.get(&t).map(|r| r ^ neg as u32) };
            if let Some(b) = same {
                if let BN::And(x, y) = n {
                    for l in [vec![x, y, not(b)], vec![not(x), b], vec![not(y), b]] {
                        self.lemma(l);
                    }
                }
                self.bmap.insert(n, b);
                return b;
            }
            self.tmap.insert(t.clone(), i << 1 ^ neg as u32);
            if neg == 1 {
                for x in t.t.iter_mut() {
                    *x = !*x;
                }
            }
            self.tts.push(Some(Box::new(t)));
        } else {
            self.tts.push(None);
        }
        self.bn.push(n);
        self.bmap.insert(n, i << 1);
        i << 1
    }
    fn lemma(&mut self, mut l: Vec<B>) {
        l.retain(|b| *b != TRUE);
        if !l.contains(&FALSE) && !l.iter().any(|b| l.contains(&not(*b))) {
            self.lemmas.push(&l);
        }
    }
    fn mke(&mut self, n: EN, w: u32) -> E {
        if let Some(&i) = self.emap.get(&n) {
            return i;
        }
        let i = self.en.len() as u32;
        self.en.push(n.clone());
        self.ew.push(w);
        self.emap.insert(n, i);
        i
    }
    pub fn width(&self, e: E) -> u32 {
        self.ew[e as usize]
    }
    // ---------------------------------------------------------------- Booleans
    pub fn bvar(&mut self) -> B {
        let v = self.nbv;
        self.nbv += 1;
        self.mkb(BN::Var(v))
    }
    pub fn evar(&mut self, w: u32) -> E {
        let v = self.nev;
        self.nev += 1;
        self.evw.push(w);
        self.mke(EN::Var(w, v), w)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == FALSE || b == FALSE || a == not(b) {
            return FALSE;
        }
        if a == TRUE || a == b {
            return b;
        }
        if b == TRUE {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        // one-level rules
        for (x, y) in [(a, b), (b, a)] {
            if let BN::And(p, q) = self.bn[(x >> 1) as usize] {
                if x & 1 == 0 {
                    if y == p || y == q {
                        return x;
                    }
                    if y == not(p) || y == not(q) {
                        return FALSE;
                    }
                } else {
                    if y == not(p) || y == not(q) {
                        return y;
                    }
                    if y == p {
                        return self.and(y, not(q));
                    }
                    if y == q {
                        return self.and(y, not(p));
                    }
                }
            }
        }
        if let (BN::And(p, q), BN::And(r, s)) = (self.bn[(a >> 1) as usize], self.bn[(b >> 1) as usize]) {
            let (na, nb) = (a & 1 == 1, b & 1 == 1);
            if !na && !nb {
                if p == not(r) || p == not(s) || q == not(r) || q == not(s) {
                    return FALSE;
                }
            } else if !na && nb {
                // (p&q) & !(r&s)
                if r == not(p) || r == not(q) || s == not(p) || s == not(q) {
                    return a;
                }
                if r == p || r == q {
                    return self.and(a, not(s));
                }
                if s == p || s == q {
                    return self.and(a, not(r));
                }
            } else if na && !nb {
                if p == not(r) || p == not(s) || q == not(r) || q == not(s) {
                    return b;
                }
                if p == r || p == s {
                    return self.and(b, not(q));
                }
                if q == r || q == s {
                    return self.and(b, not(p));
                }
            } else {
                // !(p&q) & !(r&s): (p,q) & (p,!q) covers -> !p
                if p == r && q == not(s) || p == s && q == not(r) {
                    return not(p);
                }
                if q == s && p == not(r) || q == r && p == not(s) {
                    return not(q);
                }
            }
        }
        // equalities of one word with two different constants exclude each other
        if a & 1 == 0 && b & 1 == 0 {
            if let (BN::Eq(x, c), BN::Eq(y, d)) = (self.bn[(a >> 1) as usize], self.bn[(b >> 1) as usize]) {
                if x == y && c != d && self.is_const(c).is_some() && self.is_const(d).is_some() {
                    return FALSE;
                }
            }
        }
        self.mkb(BN::And(a, b))
    }
    /// The variables of a Boolean that has a truth table.
    pub fn small_vars(&self, b: B) -> Option<Vec<u32>> {
        if b == TRUE || b == FALSE {
            return Some(vec![]);
        }
        self.tts.get((b >> 1) as usize)?.as_ref().map(|t| t.vars().to_vec())
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        not(self.and(not(a), not(b)))
    }
    pub fn iteb(&mut self, c: B, a: B, b: B) -> B {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if a == TRUE || a == c {
            return self.or(c, b);
        }
        if a == FALSE || a == not(c) {
            return self.and(not(c), b);
        }
        if b == TRUE || b == not(c) {
            return self.or(not(c), a);
        }
        if b == FALSE || b == c {
            return self.and(c, a);
        }
        let x = self.and(c, a);
        let y = self.and(not(c), b);
        self.or(x, y)
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        self.iteb(a, not(b), b)
    }
    pub fn iff(&mut self, a: B, b: B) -> B {
        self.iteb(a, b, not(b))
    }
    // ---------------------------------------------------------------- words
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.mke(EN::Const(w, v & mask(w)), w)
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        match self.en[e as usize] {
            EN::Const(_, v) => Some(v),
            _ => None,
        }
    }
    /// Guarded constants of a word, if it is kept that way.
    pub fn leaves(&self, e: E) -> Option<Vec<(u128, B)>> {
        match &self.en[e as usize] {
            EN::Const(_, v) => Some(vec![(*v, TRUE)]),
            EN::Cases(_, l) => Some(l.to_vec()),
            _ => None,
        }
    }
    fn nleaves(&self, e: E) -> usize {
        match &self.en[e as usize] {
            EN::Const(..) => 1,
            EN::Cases(_, l) => l.len(),
            _ => 0,
        }
    }
    /// Leaves must be exclusive and exhaustive; equal values are joined here.
    pub fn cases(&mut self, w: u32, l: Vec<(u128, B)>) -> E {
        let mut m: Vec<(u128, B)> = Vec::with_capacity(l.len());
        let mut ix: HashMap<u128, usize> = HashMap::new();
        for (v, g) in l {
            if g == FALSE {
                continue;
            }
            if g == TRUE {
                return self.konst(w, v);
            }
            match ix.get(&v) {
                Some(&i) => {
                    let o = self.or(m[i].1, g);
                    m[i].1 = o;
                    if o == TRUE {
                        return self.konst(w, v);
                    }
                }
                None => {
                    ix.insert(v, m.len());
                    m.push((v, g));
                }
            }
        }
        if m.is_empty() {
            // unreachable value; any constant will do
            return self.konst(w, 0);
        }
        if m.len() == 1 {
            return self.konst(w, m[0].0);
        }
        m.sort_by_key(|x| x.0);
        if m.len() == 2 && m[1].1 != not(m[0].1) {
            // exclusive and exhaustive, so one guard is the negation of the other
            if m[0].1 < m[1].1 {
                m[1].1 = not(m[0].1)
            } else {
                m[0].1 = not(m[1].1)
            }
        }
        self.mke(EN::Cases(w, m.into()), w)
    }
    /// Like `cases`, but the leaves need not cover everything outside some path
    /// condition: the first leaf takes the rest.
    pub fn ite(&mut self, c: B, a: E, b: E) -> E {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let w = self.width(a);
        assert_eq!(w, self.width(b), "ite widths");
        let (na, nb) = (self.nleaves(a), self.nleaves(b));
        if na > 0 && nb > 0 && na + nb <= 2 * MAX_CASES {
            let la = self.leaves(a).unwrap();
            let lb = self.leaves(b).unwrap();
            // values on both sides: guard = ite(c, ga, gb)
            let mut mb: HashMap<u128, B> = lb.iter().cloned().collect();
            let mut out = vec![];
            for (v, g) in la {
                let o = match mb.remove(&v) {
                    Some(h) => self.iteb(c, g, h),
                    None => self.and(c, g),
                };
                out.push((v, o));
            }
            for (v, _) in &lb {
                if let Some(h) = mb.get(v) {
                    let h = *h;
                    let o = self.and(not(c), h);
                    out.push((*v, o));
                }
            }
            if out.len() <= MAX_CASES {
                return self.cases(w, out);
            }
        }
        if let EN::Ite(c2, x, y) = self.en[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if c2 == not(c) {
                return self.ite(c, y, b);
            }
            if y == b {
                let n = self.and(c, c2);
                return self.ite(n, x, b);
            }
            if x == b {
                let n = self.and(c, not(c2));
                return self.ite(n, y, b);
            }
        }
        if let EN::Ite(c2, x, y) = self.en[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if c2 == not(c) {
                return self.ite(c, a, x);
            }
            if x == a {
                let n = self.or(c, c2);
                return self.ite(n, a, y);
            }
            if y == a {
                let n = self.or(c, not(c2));
                return self.ite(n, a, x);
            }
        }
        // doubles that hold integers stay that way
        if let (EN::IntF(x), EN::IntF(y)) = (self.en[a as usize].clone(), self.en[b as usize].clone()) {
            let w = self.width(x).max(self.width(y));
            let (x, y) = (self.sext(x, w), self.sext(y, w));
            let r = self.ite(c, x, y);
            return self.intf(r);
        }
        if c & 1 == 1 {
            return self.mke(EN::Ite(not(c), b, a), w);
        }
        self.mke(EN::Ite(c, a, b), w)
    }
    fn table(&self, b: B, vars: &[u32]) -> [u64; TTW] {
        let mut t = self.tts[(b >> 1) as usize].as_ref().unwrap().expand(vars);
        if b & 1 == 1 {
            for x in t.iter_mut() {
                *x = !*x;
            }
        }
        t
    }
    /// truth tables of the guards of two lists, over the same variables
    fn guard_tables(&self, la: &[(u128, B)], lb: &[(u128, B)]) -> Option<(Vec<[u64; TTW]>, Vec<[u64; TTW]>)> {
        let mut vars = ([0; TTV], 0);
        for (_, g) in la.iter().chain(lb) {
            let t = self.tts[(*g >> 1) as usize].as_ref()?;
            if !join(&mut vars, t.vars()) {
                return None;
            }
        }
        let vars = &vars.0[..vars.1];
        let f = |l: &[(u128, B)]| l.iter().map(|(_, g)| self.table(*g, vars)).collect::<Vec<_>>();
        Some((f(la), f(lb)))
    }
    pub fn map1(&mut self, e: E, w: u32, f: &dyn Fn(u128) -> u128) -> Option<E> {
        let l = self.leaves(e)?;
        Some(self.cases(w, l.into_iter().map(|(v, g)| (f(v) & mask(w), g)).collect()))
    }
    pub fn map2(&mut self, a: E, b: E, w: u32, f: &dyn Fn(u128, u128) -> u128) -> Option<E> {
        let (na, nb) = (self.nleaves(a), self.nleaves(b));
        if na == 0 || nb == 0 {
            return None;
        }
        if na > 2 && nb > 2 && na * nb > 32 {
            // combinations that cannot occur are left out
            let (la, lb) = (self.leaves(a).unwrap(), self.leaves(b).unwrap());
            if let Some((ta, tb)) = self.guard_tables(&la, &lb) {
                let mut vals = std::collections::HashSet::new();
                let mut out: Vec<(u128, B)> = vec![];
                for ((x, g), s) in la.iter().zip(&ta) {
                    let mut row = vec![*g];
                    for ((y, h), t) in lb.iter().zip(&tb) {
                        let (mut both, mut sub, mut sup) = (false, true, true);
                        for i in 0..TTW {
                            both |= s[i] & t[i] != 0;
                            sub &= s[i] & !t[i] == 0;
                            sup &= t[i] & !s[i] == 0;
                        }
                        if both {
                            let v = f(*x, *y) & mask(w);
                            vals.insert(v);
                            let gh = if sub { *g } else if sup { *h } else { self.and(*g, *h) };
                            out.push((v, gh));
                            row.push(not(*h));
                            if sub {
                                // the whole row; below, that it is one
                                continue;
                            }
                            if sup && self.rows.insert(vec![*h, not(*g)]) {
                                self.lemma(vec![*h, not(*g)]);
                            }
                        }
                    }
                    // the other combinations cannot occur
                    if row.len() <= lb.len() {
                        row.sort();
                        if self.rows.insert(row.clone()) {
                            self.lemma(row);
                        }
                    }
                }
                return if vals.len() > MAX_CASES { None } else { Some(self.cases(w, out)) };
            }
        }
        if na * nb > 4096 {
            return None;
        }
        let la = self.leaves(a).unwrap();
        let lb = self.leaves(b).unwrap();
        let mut vals = std::collections::HashSet::new();
        for (x, _) in &la {
            for (y, _) in &lb {
                vals.insert(f(*x, *y) & mask(w));
            }
        }
        if vals.len() > MAX_CASES && na > 1 && nb > 1 {
            return None;
        }
        let mut out: Vec<(u128, B)> = vec![];
        for (x, g) in &la {
            for (y, h) in &lb {
                let gh = self.and(*g, *h);
                out.push((f(*x, *y) & mask(w), gh));
            }
        }
        Some(self.cases(w, out))
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        assert_eq!(w, self.width(b), "bin widths {:?}", op);
        if let Some(r) = self.map2(a, b, w, &|x, y| op_const(op, x, y, w)) {
            return r;
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(Op::Add, b, a);
                }
                if let Some(c) = cb {
                    if let EN::Bin(Op::Add, x, y) = self.en[a as usize] {
                        if let Some(d) = self.is_const(y) {
                            let k = self.konst(w, c.wrapping_add(d));
                            return self.bin(Op::Add, x, k);
                        }
                    }
                } else {
                    for (p, q) in [(a, b), (b, a)] {
                        if let EN::Bin(Op::Add, x, y) = self.en[p as usize] {
                            if self.is_const(y).is_some() {
                                let s = self.bin(Op::Add, x, q);
                                return self.bin(Op::Add, s, y);
                            }
                        }
                        if let EN::Bin(Op::Sub, x, y) = self.en[p as usize] {
                            if y == q {
                                return x;
                            }
                        }
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mke(EN::Bin(op, a, b), w);
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, c.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                let (mut a1, mut b1, mut k) = (a, b, 0u128);
                if let EN::Bin(Op::Add, x, y) = self.en[a1 as usize] {
                    if let Some(d) = self.is_const(y) {
                        a1 = x;
                        k = k.wrapping_add(d);
                    }
                }
                if let EN::Bin(Op::Add, x, y) = self.en[b1 as usize] {
                    if let Some(d) = self.is_const(y) {
                        b1 = x;
                        k = k.wrapping_sub(d);
                    }
                }
                let k = self.konst(w, k);
                if a1 == b1 {
                    return k;
                }
                if a1 != a || b1 != b {
                    let s = self.bin(Op::Sub, a1, b1);
                    return self.bin(Op::Add, s, k);
                }
                for (p, q) in [(0, 1), (1, 0)] {
                    if let EN::Bin(Op::Add, x, y) = self.en[a as usize] {
                        let t = [x, y];
                        if t[p] == b {
                            return t[q];
                        }
                    }
                }
            }
            Op::Mul => {
                if ca.is_some() {
                    return self.bin(Op::Mul, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mke(EN::Bin(op, a, b), w);
            }
            Op::And => {
                if a == b || cb == Some(m) {
                    return a;
                }
                if ca == Some(m) {
                    return b;
                }
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(w, 0);
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if (c + 1).is_power_of_two() {
                        let n = c.trailing_ones();
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mke(EN::Bin(op, a, b), w);
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if ca == Some(m) || cb == Some(m) {
                    return self.konst(w, m);
                }
                // disjoint zext | (x << k)  ==> concat
                for (p, q) in [(a, b), (b, a)] {
                    if let (EN::Zext(x, _), EN::Bin(Op::Shl, y, k)) = (self.en[p as usize].clone(), self.en[q as usize].clone()) {
                        if let Some(k) = self.is_const(k) {
                            if k as u32 == self.width(x) {
                                let hi = self.extract(y, 0, w - k as u32);
                                return self.concat(hi, x);
                            }
                        }
                    }
                }
                let (a, b) = if cb.is_none() && (ca.is_some() || a > b) { (b, a) } else { (a, b) };
                return self.mke(EN::Bin(op, a, b), w);
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                return self.mke(EN::Bin(op, a, b), w);
            }
            Op::Shl | Op::Lshr | Op::Ashr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 && op != Op::Ashr {
                        return self.konst(w, 0);
                    }
                    if op == Op::Lshr {
                        let x = self.extract(a, c as u32, w - c as u32);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl {
                        let x = self.extract(a, 0, w - c as u32);
                        let z = self.konst(c as u32, 0);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Udiv => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Lshr, a, k);
                    }
                }
            }
            Op::Urem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            _ => {}
        }
        self.mke(EN::Bin(op, a, b), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        self.bin(Op::Add, a, b)
    }
    pub fn addk(&mut self, a: E, k: u128) -> E {
        let w = self.width(a);
        let k = self.konst(w, k);
        self.bin(Op::Add, a, k)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let w0 = self.width(e);
        if w0 == w {
            return e;
        }
        if let Some(r) = self.map1(e, w, &|v| v) {
            return r;
        }
        match self.en[e as usize].clone() {
            EN::Zext(x, _) => return self.zext(x, w),
            EN::Ite(c, a, b) if self.nleaves(a) > 0 || self.nleaves(b) > 0 => {
                let (x, y) = (self.zext(a, w), self.zext(b, w));
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.mke(EN::Zext(e, w), w)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let w0 = self.width(e);
        if w0 == w {
            return e;
        }
        if let Some(r) = self.map1(e, w, &|v| sgn(v, w0) as u128) {
            return r;
        }
        match self.en[e as usize].clone() {
            EN::Zext(x, _) => return self.zext(x, w),
            EN::Sext(x, _) => return self.sext(x, w),
            _ => {}
        }
        self.mke(EN::Sext(e, w), w)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let w0 = self.width(e);
        if lo == 0 && w == w0 {
            return e;
        }
        assert!(lo + w <= w0, "extract");
        if let Some(r) = self.map1(e, w, &|v| v >> lo) {
            return r;
        }
        match self.en[e as usize].clone() {
            EN::Zext(x, _) => {
                let wx = self.width(x);
                if lo >= wx {
                    return self.konst(w, 0);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                let y = self.extract(x, lo, wx - lo);
                return self.zext(y, w);
            }
            EN::Sext(x, _) => {
                let wx = self.width(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            EN::Concat(h, l) => {
                let wl = self.width(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(l, lo, wl - lo);
                let y = self.extract(h, 0, lo + w - wl);
                return self.concat(y, x);
            }
            EN::Extract(x, l2, _) => return self.extract(x, lo + l2, w),
            EN::Ite(c, a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                return self.ite(c, x, y);
            }
            EN::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                return self.bin(op, x, y);
            }
            EN::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let (x, y) = (self.extract(a, lo, w), self.extract(b, lo, w));
                return self.bin(op, x, y);
            }
            EN::IntF(_) | EN::F(..) => {
                // the bits of a computed double; only whole-word moves are modelled
                self.fail("bit-level access to a computed double");
            }
            _ => {}
        }
        self.mke(EN::Extract(e, lo, w), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.width(h), self.width(l));
        let w = wh + wl;
        if w > 128 {
            self.fail("word wider than 128 bits");
            return self.konst(128, 0);
        }
        if let Some(r) = self.map2(h, l, w, &|x, y| x << wl | y) {
            return r;
        }
        if self.is_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (EN::Extract(x, lo1, w1), EN::Extract(y, lo2, w2)) = (self.en[h as usize].clone(), self.en[l as usize].clone()) {
            if x == y && lo1 == lo2 + w2 {
                return self.extract(x, lo2, w1 + w2);
            }
        }
        if let (EN::Extract(x, lo1, w1), EN::Concat(y1, y2)) = (self.en[h as usize].clone(), self.en[l as usize].clone()) {
            if let EN::Extract(y, lo2, w2) = self.en[y1 as usize].clone() {
                if x == y && lo1 == lo2 + w2 {
                    let m = self.extract(x, lo2, w1 + w2);
                    return self.concat(m, y2);
                }
            }
        }
        if let (EN::Zext(x, _), _) = (self.en[h as usize].clone(), 0) {
            let c = self.concat(x, l);
            return self.zext(c, w);
        }
        // ite(c,a,b) ++ ite(c,x,y)
        if let (EN::Ite(c, a, b), EN::Ite(d, x, y)) = (self.en[h as usize].clone(), self.en[l as usize].clone()) {
            if c == d {
                let p = self.concat(a, x);
                let q = self.concat(b, y);
                return self.ite(c, p, q);
            }
        }
        self.mke(EN::Concat(h, l), w)
    }
    // ---------------------------------------------------------------- predicates
    fn pred_leaves(&mut self, a: E, b: E, f: &mut dyn FnMut(&mut Ctx, E, E) -> B) -> Option<B> {
        let (na, nb) = (self.nleaves(a), self.nleaves(b));
        let w = self.width(a);
        if na > 0 && nb > 0 && na * nb > 1 {
            if na * nb > 16384 {
                return None;
            }
            let la = self.leaves(a).unwrap();
            let lb = self.leaves(b).unwrap();
            let mut r = FALSE;
            for (x, g) in &la {
                // all leaves of b for which it holds
                let mut s = FALSE;
                let kx = self.konst(w, *x);
                for (y, h) in &lb {
                    let ky = self.konst(w, *y);
                    if f(self, kx, ky) == TRUE {
                        s = self.or(s, *h);
                    }
                }
                let t = self.and(*g, s);
                r = self.or(r, t);
            }
            return Some(r);
        }
        for (p, swap) in [(a, false), (b, true)] {
            let n = self.nleaves(p);
            if n > 1 && n <= 24 {
                let l = self.leaves(p).unwrap();
                let mut r = FALSE;
                for (x, g) in &l {
                    let k = self.konst(w, *x);
                    let c = if swap { f(self, a, k) } else { f(self, k, b) };
                    let t = self.and(*g, c);
                    r = self.or(r, t);
                }
                return Some(r);
            }
        }
        None
    }
    pub fn eq(&mut self, a: E, b: E) -> B {
        if a == b {
            return TRUE;
        }
        assert_eq!(self.width(a), self.width(b), "eq widths");
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return if x == y { TRUE } else { FALSE };
        }
        if let Some(r) = self.pred_leaves(a, b, &mut |c, x, y| c.eq(x, y)) {
            return r;
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.is_const(b) {
            match self.en[a as usize].clone() {
                EN::Zext(x, _) => {
                    let wx = self.width(x);
                    if k > mask(wx) {
                        return FALSE;
                    }
                    let k = self.konst(wx, k);
                    return self.eq(x, k);
                }
                EN::Sext(x, w) => {
                    let wx = self.width(x);
                    if (sgn(k & mask(wx), wx) as u128) & mask(w) != k {
                        return FALSE;
                    }
                    let k = self.konst(wx, k);
                    return self.eq(x, k);
                }
                EN::Bin(Op::Add, x, y) => {
                    if let Some(c) = self.is_const(y) {
                        let w = self.width(x);
                        let k = self.konst(w, k.wrapping_sub(c));
                        return self.eq(x, k);
                    }
                }
                EN::Bin(Op::Xor, x, y) => {
                    if let Some(c) = self.is_const(y) {
                        let w = self.width(x);
                        let k = self.konst(w, k ^ c);
                        return self.eq(x, k);
                    }
                }
                EN::Bin(Op::Sub, x, y) if k == 0 => return self.eq(x, y),
                EN::Concat(h, l) => {
                    let (wh, wl) = (self.width(h), self.width(l));
                    let kl = self.konst(wl, k);
                    let kh = self.konst(wh, k >> wl);
                    let p = self.eq(l, kl);
                    let q = self.eq(h, kh);
                    return self.and(p, q);
                }
                EN::Ite(c, x, y) => {
                    let p = self.eq(x, b);
                    let q = self.eq(y, b);
                    return self.iteb(c, p, q);
                }
                EN::IntF(x) => {
                    // reached only through equality of copied bits
                    let r = self.int_cmp_const(x, k);
                    return r;
                }
                _ => {}
            }
        } else {
            match (self.en[a as usize].clone(), self.en[b as usize].clone()) {
                (EN::IntF(x), EN::IntF(y)) => {
                    let w = self.width(x).max(self.width(y));
                    let (x, y) = (self.sext(x, w), self.sext(y, w));
                    return self.eq(x, y);
                }
                (EN::Zext(x, _), EN::Zext(y, _)) => {
                    let w = self.width(x).max(self.width(y));
                    let (x, y) = (self.zext(x, w), self.zext(y, w));
                    return self.eq(x, y);
                }
                (EN::Ite(c, x, y), EN::Ite(d, p, q)) if c == d => {
                    let s = self.eq(x, p);
                    let t = self.eq(y, q);
                    return self.iteb(c, s, t);
                }
                (EN::Ite(c, x, y), _) if x == b || y == b || self.w1(a) => {
                    let s = self.eq(x, b);
                    let t = self.eq(y, b);
                    return self.iteb(c, s, t);
                }
                (_, EN::Ite(c, x, y)) if x == a || y == a || self.w1(a) => {
                    let s = self.eq(x, a);
                    let t = self.eq(y, a);
                    return self.iteb(c, s, t);
                }
                _ => {}
            }
        }
        // what both sums have in common does not matter
        let w = self.width(a);
        let (mut ta, mut tb) = (vec![], vec![]);
        let k = self.terms(a, &mut ta).wrapping_sub(self.terms(b, &mut tb)) & mask(w);
        let n = ta.len() + tb.len();
        ta.retain(|x| match tb.iter().position(|y| x == y) {
            Some(i) => {
                tb.swap_remove(i);
                false
            }
            None => true,
        });
        if ta.len() + tb.len() < n {
            let mut x = self.konst(w, k);
            for t in ta {
                x = self.bin(Op::Add, t, x);
            }
            let mut y = self.konst(w, 0);
            for t in tb {
                y = self.bin(Op::Add, t, y);
            }
            return self.eq(x, y);
        }
        let (a, b) = if self.is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.mkb(BN::Eq(a, b))
    }
    /// The terms of a sum; returns its constant.
    fn terms(&self, e: E, out: &mut Vec<E>) -> u128 {
        if let Some(k) = self.is_const(e) {
            return k;
        }
        match self.en[e as usize] {
            EN::Bin(Op::Add, x, y) => self.terms(x, out).wrapping_add(self.terms(y, out)),
            _ => {
                out.push(e);
                0
            }
        }
    }
    fn w1(&self, e: E) -> bool {
        // computed doubles have no bit-level encoding, so equalities are pushed to the leaves
        self.has_float(e, 6)
    }
    fn has_float(&self, e: E, d: u32) -> bool {
        match &self.en[e as usize] {
            EN::IntF(_) | EN::F(..) => true,
            EN::Ite(_, a, b) if d > 0 => self.has_float(*a, d - 1) || self.has_float(*b, d - 1),
            _ => false,
        }
    }
    fn int_cmp_const(&mut self, x: E, kbits: u128) -> B {
        let f = f64::from_bits(kbits as u64);
        if f.fract() != 0.0 || !f.is_finite() || f.abs() > 9e15 {
            return FALSE;
        }
        let v = f as i128;
        let (lo, hi) = self.range(x);
        if v < lo || v > hi {
            return FALSE;
        }
        let w = self.width(x);
        let k = self.konst(w, v as u128);
        self.eq(x, k)
    }
    pub fn ult(&mut self, a: E, b: E) -> B {
        if a == b {
            return FALSE;
        }
        assert_eq!(self.width(a), self.width(b), "ult widths");
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return if x < y { TRUE } else { FALSE };
        }
        if self.is_const(b) == Some(0) || self.is_const(a) == Some(mask(w)) {
            return FALSE;
        }
        if let Some(r) = self.pred_leaves(a, b, &mut |c, x, y| c.ult(x, y)) {
            return r;
        }
        if self.is_const(b) == Some(1) {
            let z = self.konst(w, 0);
            return self.eq(a, z);
        }
        if self.is_const(a) == Some(0) {
            return not(self.eq(b, a));
        }
        match (self.en[a as usize].clone(), self.en[b as usize].clone()) {
            (EN::Zext(x, _), EN::Const(_, k)) => {
                let wx = self.width(x);
                if k > mask(wx) {
                    return TRUE;
                }
                let k = self.konst(wx, k);
                return self.ult(x, k);
            }
            (EN::Const(_, k), EN::Zext(x, _)) => {
                let wx = self.width(x);
                if k >= mask(wx) {
                    return FALSE;
                }
                let k = self.konst(wx, k);
                return self.ult(k, x);
            }
            (EN::Zext(x, _), EN::Zext(y, _)) => {
                let w = self.width(x).max(self.width(y));
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                return self.ult(x, y);
            }
            (EN::Ite(c, x, y), EN::Const(..)) => {
                let s = self.ult(x, b);
                let t = self.ult(y, b);
                return self.iteb(c, s, t);
            }
            (EN::Const(..), EN::Ite(c, x, y)) => {
                let s = self.ult(a, x);
                let t = self.ult(a, y);
                return self.iteb(c, s, t);
            }
            _ => {}
        }
        self.mkb(BN::Ult(a, b))
    }
    pub fn slt(&mut self, a: E, b: E) -> B {
        if a == b {
            return FALSE;
        }
        assert_eq!(self.width(a), self.width(b), "slt widths");
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return if sgn(x, w) < sgn(y, w) { TRUE } else { FALSE };
        }
        if let Some(r) = self.pred_leaves(a, b, &mut |c, x, y| c.slt(x, y)) {
            return r;
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return TRUE;
        }
        if al >= bh {
            return FALSE;
        }
        if let EN::Ite(c, x, y) = self.en[a as usize].clone() {
            if self.is_const(b).is_some() {
                let s = self.slt(x, b);
                let t = self.slt(y, b);
                return self.iteb(c, s, t);
            }
        }
        if let EN::Ite(c, x, y) = self.en[b as usize].clone() {
            if self.is_const(a).is_some() {
                let s = self.slt(a, x);
                let t = self.slt(a, y);
                return self.iteb(c, s, t);
            }
        }
        self.mkb(BN::Slt(a, b))
    }
    pub fn ule(&mut self, a: E, b: E) -> B {
        not(self.ult(b, a))
    }
    pub fn sle(&mut self, a: E, b: E) -> B {
        not(self.slt(b, a))
    }
    pub fn bit(&mut self, e: E, i: u32) -> B {
        let l = self.leaves(e);
        if let Some(l) = l {
            let mut r = FALSE;
            let mut all = true;
            for (v, g) in l {
                if v >> i & 1 == 1 {
                    r = self.or(r, g);
                } else {
                    all = false;
                }
            }
            return if all { TRUE } else { r };
        }
        match self.en[e as usize].clone() {
            EN::Zext(x, _) => {
                if i >= self.width(x) {
                    return FALSE;
                }
                return self.bit(x, i);
            }
            EN::Sext(x, _) => {
                let w = self.width(x);
                return self.bit(x, i.min(w - 1));
            }
            EN::Extract(x, lo, _) => return self.bit(x, lo + i),
            EN::Concat(h, l) => {
                let wl = self.width(l);
                return if i < wl { self.bit(l, i) } else { self.bit(h, i - wl) };
            }
            EN::Ite(c, a, b) => {
                let (x, y) = (self.bit(a, i), self.bit(b, i));
                return self.iteb(c, x, y);
            }
            EN::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let (x, y) = (self.bit(a, i), self.bit(b, i));
                return match op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            EN::IntF(x) if i == 63 => {
                // sign; zero counts as positive
                let w = self.width(x);
                return self.bit(x, w - 1);
            }
            EN::IntF(_) | EN::F(..) => self.fail("bit-level access to a computed double"),
            _ => {}
        }
        self.mkb(BN::Bit(e, i))
    }
    pub fn of_bool(&mut self, b: B, w: u32) -> E {
        self.cases(w, vec![(0, not(b)), (1, b)])
    }
    /// Signed interval that contains the word's value.
    pub fn range(&mut self, e: E) -> (i128, i128) {
        if let Some(&r) = self.range.get(&e) {
            return r;
        }
        let w = self.width(e).min(127);
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let r = match self.en[e as usize].clone() {
            EN::Const(w, v) => (sgn(v, w), sgn(v, w)),
            EN::Cases(w, l) => {
                let lo = l.iter().map(|x| sgn(x.0, w)).min().unwrap();
                let hi = l.iter().map(|x| sgn(x.0, w)).max().unwrap();
                (lo, hi)
            }
            EN::Ite(_, a, b) => {
                let (x, y) = (self.range(a), self.range(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            EN::Sext(a, _) => self.range(a),
            EN::Zext(a, _) => {
                let r = self.range(a);
                if r.0 >= 0 {
                    r
                } else {
                    (0, mask(self.width(a).min(126)) as i128)
                }
            }
            EN::Bin(op, a, b) if w < 100 => {
                let (x, y) = (self.range(a), self.range(b));
                let c = match op {
                    Op::Add => (x.0 + y.0, x.1 + y.1),
                    Op::Sub => (x.0 - y.1, x.1 - y.0),
                    Op::Mul if a == b => {
                        let m = (x.0 * x.0).max(x.1 * x.1);
                        (0, m)
                    }
                    Op::Mul => {
                        let p = [x.0.saturating_mul(y.0), x.0.saturating_mul(y.1), x.1.saturating_mul(y.0), x.1.saturating_mul(y.1)];
                        (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                    _ => full,
                };
                if c.0 >= full.0 && c.1 <= full.1 {
                    c
                } else {
                    full
                }
            }
            _ => full,
        };
        self.range.insert(e, r);
        r
    }
    // ---------------------------------------------------------------- doubles
    /// Double that equals the signed word, which must be exactly representable.
    pub fn intf(&mut self, e: E) -> E {
        if let Some(l) = self.leaves(e) {
            let w = self.width(e);
            let l = l.into_iter().map(|(v, g)| ((sgn(v, w) as f64).to_bits() as u128, g)).collect();
            return self.cases(64, l);
        }
        let (lo, hi) = self.range(e);
        if lo < -(1i128 << 53) || hi > (1i128 << 53) {
            self.fail("integer-valued double may exceed 2^53");
        }
        let w = bits_for(lo, hi);
        let e = if w < self.width(e) { self.extract(e, 0, w) } else { e };
        self.mke(EN::IntF(e), 64)
    }
    fn as_int(&mut self, e: E) -> Option<E> {
        match self.en[e as usize].clone() {
            EN::IntF(x) => Some(x),
            EN::Const(..) | EN::Cases(..) => {
                let l = self.leaves(e).unwrap();
                let mut o = vec![];
                for (v, g) in l {
                    let f = f64::from_bits(v as u64);
                    if !f.is_finite() || f.fract() != 0.0 || f.abs() > 9007199254740992.0 {
                        return None;
                    }
                    o.push((f as i128, g));
                }
                let lo = o.iter().map(|x| x.0).min().unwrap();
                let hi = o.iter().map(|x| x.0).max().unwrap();
                let w = bits_for(lo, hi);
                Some(self.cases(w, o.into_iter().map(|(v, g)| (v as u128 & mask(w), g)).collect()))
            }
            EN::Ite(c, a, b) => {
                let x = self.as_int(a)?;
                let y = self.as_int(b)?;
                let w = self.width(x).max(self.width(y));
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                Some(self.ite(c, x, y))
            }
            _ => None,
        }
    }
    pub fn fbin(&mut self, op: FOp, a: E, b: E) -> E {
        if let Some(r) = self.map2(a, b, 64, &|x, y| fop_const(op, x, y)) {
            return r;
        }
        if matches!(op, FOp::Add | FOp::Sub | FOp::Mul) {
            if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
                let (x0, x1) = self.range(x);
                let (y0, y1) = self.range(y);
                let p = [x0 * y0, x0 * y1, x1 * y0, x1 * y1];
                let (lo, hi, o) = match op {
                    FOp::Add => (x0 + y0, x1 + y1, Op::Add),
                    FOp::Sub => (x0 - y1, x1 - y0, Op::Sub),
                    _ => (*p.iter().min().unwrap(), *p.iter().max().unwrap(), Op::Mul),
                };
                let w = bits_for(lo, hi).max(self.width(x)).max(self.width(y));
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                let r = self.bin(o, x, y);
                return self.intf(r);
            }
        }
        if op == FOp::Div {
            // x / 1
            if self.is_const(b) == Some(1f64.to_bits() as u128) {
                return a;
            }
        }
        for (p, swap) in [(a, false), (b, true)] {
            if let EN::Ite(c, x, y) = self.en[p as usize].clone() {
                let (r, s) = if swap { (self.fbin(op, a, x), self.fbin(op, a, y)) } else { (self.fbin(op, x, b), self.fbin(op, y, b)) };
                return self.ite(c, r, s);
            }
        }
        self.fop_used = true;
        let (a, b) = if matches!(op, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) };
        self.mke(EN::F(op, a, b), 64)
    }
    pub fn fun1(&mut self, op: FOp, a: E) -> E {
        if let Some(r) = self.map1(a, 64, &|x| fop_const(op, x, 0)) {
            return r;
        }
        if let Some(x) = self.as_int(a) {
            if op != FOp::Sqrt {
                return a;
            }
            let (lo, hi) = self.range(x);
            if hi - lo < MAX_CASES as i128 {
                let w = self.width(x);
                let mut l = vec![];
                for v in lo..=hi {
                    let k = self.konst(w, v as u128);
                    let g = self.eq(x, k);
                    l.push(((v as f64).sqrt().to_bits() as u128, g));
                }
                return self.cases(64, l);
            }
        }
        if let EN::Ite(c, x, y) = self.en[a as usize].clone() {
            let (r, s) = (self.fun1(op, x), self.fun1(op, y));
            return self.ite(c, r, s);
        }
        self.fop_used = true;
        let z = self.konst(64, 0);
        self.mke(EN::F(op, a, z), 64)
    }
    pub fn fneg(&mut self, a: E) -> E {
        if let Some(r) = self.map1(a, 64, &|x| (x as u64 ^ 1 << 63) as u128) {
            return r;
        }
        if let Some(x) = self.as_int(a) {
            let (lo, hi) = self.range(x);
            let w = bits_for(-hi, -lo).max(self.width(x));
            let x = self.sext(x, w);
            let z = self.konst(w, 0);
            let r = self.bin(Op::Sub, z, x);
            return self.intf(r);
        }
        if let EN::Ite(c, x, y) = self.en[a as usize].clone() {
            let (r, s) = (self.fneg(x), self.fneg(y));
            return self.ite(c, r, s);
        }
        let k = self.konst(64, 1 << 63);
        if matches!(self.en[a as usize], EN::F(..)) {
            let z = self.konst(64, 1 << 63); // -0.0
            return self.fbin(FOp::Sub, z, a);
        }
        self.bin(Op::Xor, a, k)
    }
    /// the range of a double that holds integers
    pub fn int_range(&mut self, a: E) -> Option<(i128, i128)> {
        let x = self.as_int(a)?;
        Some(self.range(x))
    }
    pub fn as_ite(&self, a: E) -> Option<(B, E, E)> {
        match self.en[a as usize] {
            EN::Ite(c, x, y) => Some((c, x, y)),
            _ => None,
        }
    }
    pub fn is_intf(&mut self, a: E) -> bool {
        self.as_int(a).is_some()
    }
    /// a double that holds one of few integers, as the list of them
    pub fn as_leaves(&mut self, a: E) -> E {
        if self.nleaves(a) > 0 {
            return a;
        }
        if let Some(x) = self.as_int(a) {
            let (lo, hi) = self.range(x);
            if hi - lo < MAX_CASES as i128 {
                let w = self.width(x);
                let mut l = vec![];
                for v in lo..=hi {
                    let k = self.konst(w, v as u128 & mask(w));
                    let g = self.eq(x, k);
                    l.push(((v as f64).to_bits() as u128, g));
                }
                return self.cases(64, l);
            }
        }
        a
    }
    /// the sign bit of a double
    pub fn fsign(&mut self, a: E) -> B {
        if let Some(x) = self.as_int(a) {
            if self.nleaves(a) == 0 {
                let w = self.width(x);
                return self.bit(x, w - 1);
            }
        }
        self.bit(a, 63)
    }
    pub fn fabs(&mut self, a: E) -> E {
        if let Some(r) = self.map1(a, 64, &|x| (x as u64 & !(1 << 63)) as u128) {
            return r;
        }
        if let Some(x) = self.as_int(a) {
            let n = self.fneg(a);
            let w = self.width(x);
            let s = self.bit(x, w - 1);
            return self.ite(s, n, a);
        }
        if let EN::Ite(c, x, y) = self.en[a as usize].clone() {
            let (r, s) = (self.fabs(x), self.fabs(y));
            return self.ite(c, r, s);
        }
        let k = self.konst(64, (1 << 63) - 1);
        self.bin(Op::And, a, k)
    }
    fn is_nan(&mut self, a: E) -> B {
        if self.as_int_cheap(a) {
            return FALSE;
        }
        let k = self.konst(64, (1 << 63) - 1);
        let m = self.bin(Op::And, a, k);
        let inf = self.konst(64, f64::INFINITY.to_bits() as u128);
        self.ult(inf, m)
    }
    fn as_int_cheap(&self, a: E) -> bool {
        matches!(self.en[a as usize], EN::IntF(_))
    }
    /// (unordered, less, equal) of two doubles
    fn fcmp3(&mut self, a: E, b: E) -> (B, B, B) {
        let (na, nb) = (self.nleaves(a), self.nleaves(b));
        if na == 1 && nb == 1 {
            let x = f64::from_bits(self.is_const(a).unwrap() as u64);
            let y = f64::from_bits(self.is_const(b).unwrap() as u64);
            let t = |b| if b { TRUE } else { FALSE };
            return (t(x.is_nan() || y.is_nan()), t(x < y), t(x == y));
        }
        let ints = if na > 0 && nb > 0 && na * nb <= 4096 { None } else { self.as_int(a).and_then(|x| self.as_int(b).map(|y| (x, y))) };
        if let Some((x, y)) = ints {
            let w = self.width(x).max(self.width(y));
            let (x, y) = (self.sext(x, w), self.sext(y, w));
            let l = self.slt(x, y);
            let e = self.eq(x, y);
            return (FALSE, l, e);
        }
        // constant leaves on either side
        for (p, swap) in [(a, false), (b, true)] {
            if self.nleaves(p) > 1 {
                let l = self.leaves(p).unwrap();
                let (mut u, mut lt, mut eq) = (FALSE, FALSE, FALSE);
                for (v, g) in l {
                    let k = self.konst(64, v);
                    let (x, y, z) = if swap { self.fcmp3(a, k) } else { self.fcmp3(k, b) };
                    let (x, y, z) = (self.and(g, x), self.and(g, y), self.and(g, z));
                    u = self.or(u, x);
                    lt = self.or(lt, y);
                    eq = self.or(eq, z);
                }
                return (u, lt, eq);
            }
        }
        for (p, q, swap) in [(a, b, false), (b, a, true)] {
            if let EN::Ite(c, x, y) = self.en[p as usize].clone() {
                let (r, s) = if swap { (self.fcmp3(q, x), self.fcmp3(q, y)) } else { (self.fcmp3(x, q), self.fcmp3(y, q)) };
                return (self.iteb(c, r.0, s.0), self.iteb(c, r.1, s.1), self.iteb(c, r.2, s.2));
            }
        }
        // integer against a constant that is not one
        if let (Some(x), Some(k)) = (self.as_int(a), self.is_const(b)) {
            return self.int_vs_f(x, f64::from_bits(k as u64));
        }
        if let (Some(k), Some(x)) = (self.is_const(a), self.as_int(b)) {
            let (u, l, e) = self.int_vs_f(x, f64::from_bits(k as u64));
            let le = self.or(l, e);
            let ule = self.or(le, u);
            return (u, not(ule), e);
        }
        if matches!(self.en[a as usize], EN::F(..) | EN::IntF(_)) || matches!(self.en[b as usize], EN::F(..) | EN::IntF(_)) {
            if a == b {
                self.fail("comparison of a computed double with itself");
            } else {
                if std::env::var_os("SX_SHOW").is_some() {
                    eprintln!("{}\n  and {}", self.show(a, 5), self.show(b, 5));
                }
                self.fail("comparison of doubles outside the exact-integer domain");
            }
            return (FALSE, FALSE, FALSE);
        }
        // raw bit patterns
        let n1 = self.is_nan(a);
        let n2 = self.is_nan(b);
        let u = self.or(n1, n2);
        let k = self.konst(64, (1 << 63) - 1);
        let z = self.konst(64, 0);
        let ma = self.bin(Op::And, a, k);
        let mb = self.bin(Op::And, b, k);
        let za = self.eq(ma, z);
        let zb = self.eq(mb, z);
        let bz = self.and(za, zb);
        let same = self.eq(a, b);
        let e0 = self.or(bz, same);
        let sa = self.bit(a, 63);
        let sb = self.bit(b, 63);
        let pos = self.ult(ma, mb);
        let neg = self.ult(mb, ma);
        // sa&!sb -> less unless both zero; both neg -> ma>mb; both pos -> ma<mb
        let l1 = self.iteb(sa, neg, pos);
        let diff = self.xor(sa, sb);
        let l2 = self.iteb(diff, sa, l1);
        let l3 = self.and(l2, not(bz));
        (u, self.and(l3, not(u)), self.and(e0, not(u)))
    }
    /// For the maintainer.
    pub fn show(&self, e: E, d: u32) -> String {
        match &self.en[e as usize] {
            EN::Cases(_, l) if l.len() > 6 => format!("Cases#{}", l.len()),
            EN::Ite(c, a, b) if d > 0 => format!("(ite {} {} {})", c, self.show(*a, d - 1), self.show(*b, d - 1)),
            EN::Bin(o, a, b) if d > 0 => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            EN::F(o, a, b) if d > 0 => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            EN::IntF(a) if d > 0 => format!("(intf {})", self.show(*a, d - 1)),
            EN::Zext(a, _) | EN::Sext(a, _) if d > 0 => format!("(ext {})", self.show(*a, d - 1)),
            x => format!("{:?}", x),
        }
    }
    fn int_vs_f(&mut self, x: E, f: f64) -> (B, B, B) {
        if f.is_nan() {
            return (TRUE, FALSE, FALSE);
        }
        let (lo, hi) = self.range(x);
        if f > hi as f64 {
            return (FALSE, TRUE, FALSE);
        }
        if f < lo as f64 {
            return (FALSE, FALSE, FALSE);
        }
        let fl = f.floor() as i128;
        let w = self.width(x);
        if fl as f64 == f {
            let k = self.konst(w, fl as u128);
            return (FALSE, self.slt(x, k), self.eq(x, k));
        }
        // x < f  <=>  x <= floor f
        let k = self.konst(w, fl as u128);
        (FALSE, self.sle(x, k), FALSE)
    }
    pub fn fcmp(&mut self, pred: &str, a: E, b: E) -> B {
        if pred == "true" {
            return TRUE;
        }
        if pred == "false" {
            return FALSE;
        }
        let (u, l, e) = self.fcmp3(a, b);
        let le = self.or(l, e);
        let ule = self.or(le, u);
        let g = not(ule);
        match pred {
            "oeq" => e,
            "ogt" => g,
            "oge" => self.or(g, e),
            "olt" => l,
            "ole" => le,
            "one" => self.or(l, g),
            "ord" => not(u),
            "uno" => u,
            "ueq" => self.or(u, e),
            "ugt" => self.or(u, g),
            "uge" => not(l),
            "ult" => self.or(u, l),
            "ule" => ule,
            "une" => not(e),
            _ => {
                self.fail("fcmp predicate");
                FALSE
            }
        }
    }
    /// Signed integer value of a double after truncation toward zero (in-range only).
    pub fn f_to_int(&mut self, a: E, w: u32, signed: bool, saturate: bool) -> E {
        let conv = move |v: u128| -> u128 {
            let f = f64::from_bits(v as u64);
            let _ = saturate;
            let (lo, hi) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1) - 1.0) } else { (0.0, 2f64.powi(w as i32) - 1.0) };
            if f.is_nan() {
                return 0;
            }
            let t = f.trunc();
            if t <= lo {
                return (if signed { -(1i128 << (w - 1)) } else { 0 }) as u128 & mask(w);
            }
            if t >= hi {
                return if signed { (1u128 << (w - 1)) - 1 } else { mask(w) };
            }
            (t as i128) as u128 & mask(w)
        };
        if let Some(r) = self.map1(a, w, &conv) {
            return r;
        }
        if let Some(x) = self.as_int(a) {
            let (lo, hi) = self.range(x);
            let full = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
            if lo >= full.0 && hi <= full.1 {
                let wx = self.width(x);
                return if wx >= w { self.extract(x, 0, w) } else { self.sext(x, w) };
            }
            // clamp
            let wx = self.width(x).max(w + 1);
            let x = self.sext(x, wx);
            let kl = self.konst(wx, full.0 as u128);
            let kh = self.konst(wx, full.1 as u128);
            let below = self.slt(x, kl);
            let above = self.slt(kh, x);
            let t = self.ite(below, kl, x);
            let t = self.ite(above, kh, t);
            return self.extract(t, 0, w);
        }
        if let EN::Ite(c, x, y) = self.en[a as usize].clone() {
            let (r, s) = (self.f_to_int(x, w, signed, saturate), self.f_to_int(y, w, signed, saturate));
            return self.ite(c, r, s);
        }
        self.fail("double to integer outside the exact-integer domain");
        self.konst(w, 0)
    }
    // ---------------------------------------------------------------- taint
    pub fn e_tainted(&mut self, e: E) -> bool {
        if self.tainted.is_empty() {
            return false;
        }
        if let Some(&t) = self.taint_e.get(&e) {
            return t;
        }
        let t = match self.en[e as usize].clone() {
            EN::Const(..) => false,
            EN::Var(_, v) => self.tainted.contains(&v),
            EN::Cases(_, l) => l.iter().any(|x| self.b_tainted(x.1)),
            EN::Ite(c, a, b) => self.b_tainted(c) || self.e_tainted(a) || self.e_tainted(b),
            EN::Bin(_, a, b) | EN::Concat(a, b) | EN::F(_, a, b) => self.e_tainted(a) || self.e_tainted(b),
            EN::Zext(a, _) | EN::Sext(a, _) | EN::Extract(a, _, _) | EN::IntF(a) => self.e_tainted(a),
        };
        self.taint_e.insert(e, t);
        t
    }
    pub fn b_tainted(&mut self, b: B) -> bool {
        if self.tainted.is_empty() {
            return false;
        }
        let n = b >> 1;
        if let Some(&t) = self.taint_b.get(&n) {
            return t;
        }
        let t = match self.bn[n as usize] {
            BN::True | BN::Var(_) => false,
            BN::And(a, b) => self.b_tainted(a) || self.b_tainted(b),
            BN::Eq(a, b) | BN::Ult(a, b) | BN::Slt(a, b) => self.e_tainted(a) || self.e_tainted(b),
            BN::Bit(a, _) => self.e_tainted(a),
        };
        self.taint_b.insert(n, t);
        t
    }
    /// The same expression over a second copy of the uninitialised data.
    pub fn twin_e(&mut self, e: E) -> E {
        if !self.e_tainted(e) {
            return e;
        }
        if let Some(&t) = self.twin_em.get(&e) {
            return t;
        }
        let w = self.width(e);
        let t = match self.en[e as usize].clone() {
            EN::Const(..) => e,
            EN::Var(w, _) => self.evar(w),
            EN::Cases(_, l) => {
                let l = l.iter().map(|x| (x.0, self.twin_b(x.1))).collect();
                self.cases(w, l)
            }
            EN::Ite(c, a, b) => {
                let (c, a, b) = (self.twin_b(c), self.twin_e(a), self.twin_e(b));
                self.ite(c, a, b)
            }
            EN::Bin(o, a, b) => {
                let (a, b) = (self.twin_e(a), self.twin_e(b));
                self.bin(o, a, b)
            }
            EN::Concat(a, b) => {
                let (a, b) = (self.twin_e(a), self.twin_e(b));
                self.concat(a, b)
            }
            EN::F(o, a, b) => {
                let un = a == b && matches!(o, FOp::Sqrt | FOp::Floor | FOp::Ceil | FOp::Round | FOp::Trunc);
                let (a, b) = (self.twin_e(a), self.twin_e(b));
                if un {
                    self.fun1(o, a)
                } else {
                    self.fbin(o, a, b)
                }
            }
            EN::Zext(a, w) => {
                let a = self.twin_e(a);
                self.zext(a, w)
            }
            EN::Sext(a, w) => {
                let a = self.twin_e(a);
                self.sext(a, w)
            }
            EN::Extract(a, lo, n) => {
                let a = self.twin_e(a);
                self.extract(a, lo, n)
            }
            EN::IntF(a) => {
                let a = self.twin_e(a);
                self.intf(a)
            }
        };
        self.twin_em.insert(e, t);
        t
    }
    pub fn twin_b(&mut self, b: B) -> B {
        if !self.b_tainted(b) {
            return b;
        }
        let n = b >> 1;
        let t = match self.twin_bm.get(&n) {
            Some(&t) => t,
            None => {
                let t = match self.bn[n as usize] {
                    BN::True | BN::Var(_) => n << 1,
                    BN::And(x, y) => {
                        let (x, y) = (self.twin_b(x), self.twin_b(y));
                        self.and(x, y)
                    }
                    BN::Eq(x, y) => {
                        let (x, y) = (self.twin_e(x), self.twin_e(y));
                        self.eq(x, y)
                    }
                    BN::Ult(x, y) => {
                        let (x, y) = (self.twin_e(x), self.twin_e(y));
                        self.ult(x, y)
                    }
                    BN::Slt(x, y) => {
                        let (x, y) = (self.twin_e(x), self.twin_e(y));
                        self.slt(x, y)
                    }
                    BN::Bit(x, i) => {
                        let x = self.twin_e(x);
                        self.bit(x, i)
                    }
                };
                self.twin_bm.insert(n, t);
                t
            }
        };
        t ^ (b & 1)
    }
    // ---------------------------------------------------------------- evaluation under models
    pub fn add_model(&mut self, m: Model) {
        if self.words.last().map_or(true, |w| w.n == 64) {
            self.words.push(Word::default());
            // what is known of older models is forgotten, or it would fill the memory
            if let Some(w) = self.words.len().checked_sub(RECENT + 1) {
                let w = &mut self.words[w];
                w.b = vec![];
                w.e = vec![];
            }
        }
        let w = self.words.last_mut().unwrap();
        w.models.push(m);
        w.n += 1;
    }
    /// The models that are looked at, 64 in each word.
    pub fn recent(&self) -> std::ops::Range<usize> {
        self.words.len().saturating_sub(RECENT)..self.words.len()
    }
    pub fn nwords(&self) -> usize {
        self.words.len()
    }
    pub fn model(&self, w: usize, i: usize) -> &Model {
        &self.words[w].models[i]
    }
    fn have(&self, w: usize) -> u64 {
        let n = self.words[w].n;
        if n == 64 {
            !0
        } else {
            (1u64 << n) - 1
        }
    }
    /// Value of a Boolean under the 64 models of word `w`.
    pub fn sig(&mut self, b: B, w: usize) -> u64 {
        let have = self.have(w);
        let v = self.sign(b >> 1, w);
        (if b & 1 == 1 { !v } else { v }) & have
    }
    fn sign(&mut self, n: u32, w: usize) -> u64 {
        let have = self.have(w);
        {
            let t = &mut self.words[w].b;
            if t.len() <= n as usize {
                t.resize(self.bn.len().max(n as usize + 1), (0, 0));
            }
            let (k, v) = t[n as usize];
            if k == have {
                return v;
            }
        }
        let v = match self.bn[n as usize] {
            BN::True => have,
            BN::Var(i) => {
                let mut v = 0u64;
                for (j, m) in self.words[w].models.iter().enumerate() {
                    if m.bv(i) {
                        v |= 1 << j;
                    }
                }
                v
            }
            BN::And(a, b) => {
                let x = self.sig(a, w);
                if x == 0 {
                    0
                } else {
                    x & self.sig(b, w)
                }
            }
            BN::Eq(a, b) => self.cmpw(a, b, w, |x, y, _| x == y),
            BN::Ult(a, b) => self.cmpw(a, b, w, |x, y, _| x < y),
            BN::Slt(a, b) => self.cmpw(a, b, w, |x, y, w| sgn(x, w) < sgn(y, w)),
            BN::Bit(a, i) => {
                let x = self.evw(a, w);
                let mut v = 0;
                for j in 0..64 {
                    if x.v[j] >> i & 1 == 1 {
                        v |= 1 << j;
                    }
                }
                v & have
            }
        };
        self.words[w].b[n as usize] = (have, v);
        v
    }
    fn cmpw(&mut self, a: E, b: E, w: usize, f: impl Fn(u128, u128, u32) -> bool) -> u64 {
        let x = self.evw(a, w);
        let y = self.evw(b, w);
        let wd = self.width(a);
        let mut v = 0;
        for j in 0..64 {
            if f(x.v[j], y.v[j], wd) {
                v |= 1 << j;
            }
        }
        v & self.have(w)
    }
    fn evw(&mut self, e: E, w: usize) -> Rc<EV> {
        let have = self.have(w);
        {
            let t = &mut self.words[w].e;
            if t.len() <= e as usize {
                t.resize(self.en.len().max(e as usize + 1), None);
            }
            if let Some(x) = &t[e as usize] {
                if x.known == have {
                    return x.clone();
                }
            }
        }
        let mut r = EV { known: have, v: [0; 64] };
        let wd = self.width(e);
        match self.en[e as usize].clone() {
            EN::Const(_, v) => r.v = [v; 64],
            EN::Var(_, i) => {
                for (j, m) in self.words[w].models.iter().enumerate() {
                    r.v[j] = m.ev(i) & mask(wd);
                }
            }
            EN::Cases(_, l) => {
                for (v, g) in l.iter() {
                    let s = self.sig(*g, w);
                    for j in 0..64 {
                        if s >> j & 1 == 1 {
                            r.v[j] = *v;
                        }
                    }
                }
            }
            EN::Ite(c, a, b) => {
                let s = self.sig(c, w);
                let x = self.evw(a, w);
                let y = self.evw(b, w);
                for j in 0..64 {
                    r.v[j] = if s >> j & 1 == 1 { x.v[j] } else { y.v[j] };
                }
            }
            EN::Bin(op, a, b) => {
                let x = self.evw(a, w);
                let y = self.evw(b, w);
                for j in 0..64 {
                    r.v[j] = op_const(op, x.v[j], y.v[j], wd);
                }
            }
            EN::F(op, a, b) => {
                let x = self.evw(a, w);
                let y = self.evw(b, w);
                for j in 0..64 {
                    r.v[j] = fop_const(op, x.v[j], y.v[j]);
                }
            }
            EN::IntF(a) => {
                let x = self.evw(a, w);
                let wa = self.width(a);
                for j in 0..64 {
                    r.v[j] = (sgn(x.v[j], wa) as f64).to_bits() as u128;
                }
            }
            EN::Zext(a, _) => r.v = self.evw(a, w).v,
            EN::Sext(a, _) => {
                let x = self.evw(a, w);
                let wa = self.width(a);
                for j in 0..64 {
                    r.v[j] = sgn(x.v[j], wa) as u128 & mask(wd);
                }
            }
            EN::Extract(a, lo, _) => {
                let x = self.evw(a, w);
                for j in 0..64 {
                    r.v[j] = x.v[j] >> lo & mask(wd);
                }
            }
            EN::Concat(h, l) => {
                let x = self.evw(h, w);
                let y = self.evw(l, w);
                let wl = self.width(l);
                for j in 0..64 {
                    r.v[j] = x.v[j] << wl | y.v[j];
                }
            }
        }
        let r = Rc::new(r);
        self.words[w].e[e as usize] = Some(r.clone());
        r
    }
    pub fn eval_e(&mut self, e: E, w: usize, i: usize) -> u128 {
        self.evw(e, w).v[i]
    }
}
