//! Symbolic execution of LLVM IR with state merging.
//!
//! A state is a call stack, a memory and a path condition.  States are run in weak
//! topological order and joined when they meet at the same position (same call
//! stack, block and loop iteration), so one state stands for every input that gets
//! there.  Loops need no bound of their own: an iteration is entered while some
//! input reaches it.
use crate::expr::*;
use crate::ir::*;
use crate::sat::Blast;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    None,
    Undef,
    B(B),
    E(E),
    A(Rc<Vec<V>>),
}

pub struct PcN {
    parent: Option<Pc>,
    cond: B,
    depth: u32,
    pub all: B,
    /// what holds besides the choices of `split`, and the variables of these choices (none: unknown)
    loc: B,
    split: Option<Rc<Vec<u32>>>,
    chosen: bool,
    sigs: RefCell<Vec<(u64, u64)>>,
}
#[derive(Clone)]
pub struct Pc(Rc<PcN>);

#[derive(Clone)]
struct Cell {
    n: u32,
    v: E,
    init: B,
}
#[derive(Clone)]
enum Base {
    Uninit,
    Zero,
    Bytes(Rc<[u8]>),
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Heap,
    Stack,
    Global,
}
#[derive(Clone)]
struct Obj {
    kind: Kind,
    size: E,
    max: u64,
    min: u64,
    align: u64,
    alive: B,
    base: Base,
    cells: BTreeMap<u32, Cell>,
    constant: bool,
}

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    fi: u32,
    b: u32,
    idx: usize,
    prev: u32,
    iters: Vec<(u32, u32)>,
    env: Vec<V>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
struct State {
    tag: Vec<u32>,
    frames: Vec<Frame>,
    objs: BTreeMap<u32, Rc<Obj>>,
    pc: Pc,
    nsym: usize,
    obs: Vec<E>,
    allow: B,
}

pub enum Stop {
    Err(String),
    Viol(Violation),
}
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub cond: B,
    pub vals: Vec<u128>,
}

pub struct Sym {
    pub e: E,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub queries: u64,
    pub q_unsat: u64,
    pub q_sat: u64,
    pub q_unknown: u64,
    pub q_time: f64,
    pub max_iter: u32,
    pub max_objs: usize,
    pub ends: u64,
    pub panics_ok: u64,
}

pub struct Obligation {
    pub what: String,
    pub cond: B, // must be unsatisfiable
}

const GLOB: u32 = 0x100_0000;
const FUNC: u32 = 0x200_0000;
const DYN: u32 = 0x300_0000;

pub struct Engine {
    pub m: Module,
    pub cx: Ctx,
    pub bl: Blast,
    pub funcs: HashMap<usize, Rc<Func>>,
    pub used: BTreeMap<String, (usize, u64)>,
    pub stats: Stats,
    pub syms: Vec<Sym>,
    pub open: Vec<Obligation>,
    pub cores: HashSet<Rc<[B]>>,
    pub checks: u64,
    pub reached: BTreeMap<u32, u64>,
    pub finals: Vec<(B, Vec<E>)>,
    pub max_iter: u32,
    pub max_steps: u64,
    pub trace: bool,
    pub deadline: std::time::Instant,
    /// SX_PROF=1: per instruction, time, nodes and steps
    #[allow(clippy::type_complexity)]
    pub prof: Option<(HashMap<(u32, u32, u32), (f64, usize, usize, u64)>, Option<((u32, u32, u32), (std::time::Instant, usize, usize))>)>,
    gobjs: HashMap<u32, Rc<Obj>>,
    next_obj: u32,
    unsat: HashMap<B, Vec<Rc<[B]>>>,
    undef_e: HashMap<u32, E>,
    undef_p: HashMap<(E, u32), E>,
    live_cache: HashMap<(u32, u32, usize), Rc<Vec<bool>>>,
    enum_cache: HashMap<(E, usize), (Pc, Rc<Vec<(u128, B)>>)>,
    handlers: HashMap<u32, Bi>,
    pub asserts: u64,
    pub assert_sites: BTreeSet<u32>,
    pub budget: u64,
    pub viols_last: Option<Violation>,
    seq: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    FmtWrite,
    Success,
    Panic,
    Memcmp,
    Bcmp,
    RandomKeys,
    SymInt,
    SymWide,
    SymBits,
    SymAssume,
    SymAssert,
    SymObserve,
    SymReach,
    SymAllowPanic,
    SymSplit,
    Llvm,
    Memcpy,
    Memset,
    Sqrt,
    Libm1(fn(f64) -> f64),
    Libm2(fn(f64, f64) -> f64),
    Strlen,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}

impl Engine {
    pub fn new(m: Module, seed: u64, deadline: std::time::Instant) -> Engine {
        let mut cx = Ctx::new();
        for i in 0..64u64 {
            cx.add_model(Model { b: vec![], e: vec![], seed: (seed + 1).wrapping_mul(0x2545F4914F6CDD1D) ^ i << 32 | i });
        }
        Engine {
            m,
            cx,
            bl: Blast::new(),
            funcs: HashMap::new(),
            used: BTreeMap::new(),
            stats: Stats::default(),
            syms: vec![],
            open: vec![],
            cores: HashSet::new(),
            checks: 0,
            reached: BTreeMap::new(),
            finals: vec![],
            max_iter: 3000,
            max_steps: 1_000_000_000,
            trace: false,
            deadline,
            prof: std::env::var_os("SX_PROF").map(|_| Default::default()),
            gobjs: HashMap::new(),
            next_obj: DYN,
            unsat: HashMap::new(),
            undef_e: HashMap::new(),
            undef_p: HashMap::new(),
            live_cache: HashMap::new(),
            enum_cache: HashMap::new(),
            handlers: HashMap::new(),
            asserts: 0,
            assert_sites: BTreeSet::new(),
            budget: 20000,
            viols_last: None,
            seq: 0,
        }
    }
    // ------------------------------------------------------------ path conditions
    fn pc_push(&mut self, pc: &Pc, c: B) -> Pc {
        if c == TRUE {
            return pc.clone();
        }
        let all = self.cx.and(pc.0.all, c);
        let loc = self.cx.and(pc.0.loc, c);
        let split = pc.0.split.clone();
        Pc(Rc::new(PcN { parent: Some(pc.clone()), cond: c, depth: pc.0.depth + 1, all, loc, split, chosen: false, sigs: RefCell::new(vec![]) }))
    }
    /// As `pc_push`, for the choice of a split: the value is a constant from here on.
    fn pc_split(&mut self, pc: &Pc, c: B) -> Pc {
        let p = self.pc_push(pc, c);
        let split = match (&pc.0.split, self.cx.small_vars(c)) {
            (Some(l), Some(v)) => {
                let mut l = (**l).clone();
                l.extend(v);
                l.sort();
                l.dedup();
                Some(Rc::new(l))
            }
            _ => None,
        };
        if split.is_none() {
            return p;
        }
        // what the choice implies, such as the range it was made from, says nothing more
        let mut loc = TRUE;
        let mut q = Some(pc);
        while let Some(x) = q {
            if !x.0.chosen && self.cx.and(c, not(x.0.cond)) != FALSE {
                loc = self.cx.and(loc, x.0.cond);
            }
            q = x.0.parent.as_ref();
        }
        Pc(Rc::new(PcN { parent: p.0.parent.clone(), cond: c, depth: p.0.depth, all: p.0.all, loc, split, chosen: true, sigs: RefCell::new(vec![]) }))
    }
    fn pc_sig(&mut self, pc: &Pc, w: usize) -> u64 {
        // the conjunction's own node is cached in the context
        let _ = &pc.0.sigs;
        self.cx.sig(pc.0.all, w)
    }
    fn pc_has(&self, pc: &Pc, c: B) -> bool {
        let mut p = Some(pc);
        while let Some(x) = p {
            if x.0.cond == c {
                return true;
            }
            p = x.0.parent.as_ref();
        }
        false
    }
    fn is_ancestor(&self, a: &Pc, pc: &Pc) -> bool {
        let mut p = Some(pc);
        while let Some(x) = p {
            if Rc::ptr_eq(&x.0, &a.0) {
                return true;
            }
            if x.0.depth <= a.0.depth {
                return false;
            }
            p = x.0.parent.as_ref();
        }
        false
    }
    fn conj(&self, pc: &Pc) -> Vec<B> {
        let mut v = vec![];
        let mut p = Some(pc);
        while let Some(x) = p {
            if x.0.cond != TRUE {
                v.push(x.0.cond);
            }
            p = x.0.parent.as_ref();
        }
        v.reverse();
        v
    }
    fn err_check(&mut self) -> R<()> {
        if let Some(e) = self.cx.err.take() {
            return err(e);
        }
        Ok(())
    }
    /// Is there an input that satisfies the path condition and `c`?  `None`: undecided.
    fn sat(&mut self, pc: &Pc, c: B) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        for w in self.cx.recent().rev() {
            let s = self.pc_sig(pc, w);
            if s != 0 && s & self.cx.sig(c, w) != 0 {
                return Some(true);
            }
        }
        if self.pc_has(pc, not(c)) || self.cx.and(pc.0.loc, c) == FALSE || self.cx.and(pc.0.all, c) == FALSE {
            return Some(false);
        }
        self.ask(pc, c)
    }
    /// Leaves the question to the SAT solver, which adds a model if there is one.
    fn ask(&mut self, pc: &Pc, c: B) -> Option<bool> {
        // the conjuncts, latest first: refutations then tend to use the fewest of them
        let mut cs = vec![];
        self.flatten(c, &mut cs);
        let mut p = Some(pc);
        while let Some(x) = p {
            self.flatten(x.0.cond, &mut cs);
            p = x.0.parent.as_ref();
        }
        if let Some(l) = self.unsat.get(&c) {
            let set: HashSet<B> = cs.iter().copied().collect();
            if l.iter().any(|a| a.iter().all(|b| set.contains(b))) {
                return Some(false);
            }
        }
        let t = std::time::Instant::now();
        let mut lits = Vec::with_capacity(cs.len());
        for &b in &cs {
            lits.push(self.bl.lit(&self.cx, b));
        }
        let r = self.bl.sat.solve(&lits, self.budget);
        self.stats.queries += 1;
        let r = match r {
            Some(true) => {
                self.stats.q_sat += 1;
                let m = self.bl.model(&self.cx);
                self.cx.add_model(m);
                let w = self.cx.nwords() - 1;
                let s = self.pc_sig(pc, w) & self.cx.sig(c, w);
                if s == 0 {
                    // the bit-level encoding left some computed double free
                    self.stats.q_unknown += 1;
                    None
                } else {
                    Some(true)
                }
            }
            Some(false) => {
                self.stats.q_unsat += 1;
                let set: HashSet<u32> = self.bl.sat.core.iter().copied().collect();
                let mut core: Vec<B> = vec![];
                let mut taken = HashSet::new();
                for (b, l) in cs.iter().zip(&lits) {
                    if set.contains(l) && taken.insert(*l) {
                        core.push(*b);
                    }
                }
                core.sort();
                let core: Rc<[B]> = core.into();
                self.unsat.entry(c).or_default().push(core.clone());
                self.cores.insert(core);
                Some(false)
            }
            None => {
                self.stats.q_unknown += 1;
                None
            }
        };
        let dt = t.elapsed().as_secs_f64();
        self.stats.q_time += dt;
        if self.trace && dt > 0.5 {
            eprintln!("slow query {:.2}s {:?} conflicts={} bn={} en={}", dt, r, self.bl.sat.conflicts, self.cx.bn.len(), self.cx.en.len());
        }
        r
    }
    /// As `sat`, where no model is needed.
    fn prune(&mut self, pc: &Pc, c: B) -> Option<bool> {
        // Conditions over few variables that no split has decided are decided by their truth
        // table: the choices of the splits are possible together and say nothing about these.
        if let Some(split) = &pc.0.split {
            let x = self.cx.and(pc.0.loc, c);
            if x == FALSE {
                return Some(false);
            }
            if let Some(v) = self.cx.small_vars(x) {
                if v.iter().all(|y| split.binary_search(y).is_err()) {
                    return Some(true);
                }
            }
        }
        self.sat(pc, c)
    }
    /// Feasibility for pruning; undecided counts as feasible.
    fn feasible(&mut self, pc: &Pc, c: B) -> bool {
        self.prune(pc, c) != Some(false)
    }
    fn flatten(&self, c: B, out: &mut Vec<B>) {
        let mut st = vec![c];
        while let Some(b) = st.pop() {
            if b == TRUE {
                continue;
            }
            match (b & 1, &self.cx.bn[(b >> 1) as usize]) {
                (0, BN::And(x, y)) => {
                    st.push(*x);
                    st.push(*y);
                }
                _ => out.push(b),
            }
        }
    }
    /// Leaves a condition no input may satisfy to the SMT solver.
    fn open(&mut self, what: String, cond: B) {
        if cond != FALSE {
            self.open.push(Obligation { what, cond });
        }
    }
    fn violation(&mut self, pc: &Pc, c: B, kind: &str, msg: String) -> Stop {
        let cond = self.cx.and(pc.0.all, c);
        if self.cx.recent().all(|w| self.cx.sig(cond, w) == 0) {
            self.ask(pc, c);
        }
        let mut vals = vec![];
        'o: for w in self.cx.recent() {
            let s = self.cx.sig(cond, w);
            if s != 0 {
                let i = s.trailing_zeros() as usize;
                for k in 0..self.syms.len() {
                    let e = self.syms[k].e;
                    vals.push(self.cx.eval_e(e, w, i));
                }
                break 'o;
            }
        }
        if vals.is_empty() && !self.syms.is_empty() {
            return Stop::Err(format!("no model at hand for: {} {}", kind, msg));
        }
        Stop::Viol(Violation { kind: kind.into(), msg, cond, vals })
    }
    /// The condition has to hold on every input that gets here.
    fn must(&mut self, st: &mut State, c: B, kind: &str, msg: &dyn Fn() -> String) -> R<()> {
        self.err_check()?;
        if c == TRUE {
            return Ok(());
        }
        let pc = st.pc.clone();
        let tainted = self.cx.b_tainted(c);
        let kind = if tainted { "uninit" } else { kind };
        // uninitialised data is universally quantified: the condition has to hold whatever it is
        match self.sat(&pc, not(c)) {
            Some(true) => return Err(self.violation(&pc, not(c), kind, msg())),
            Some(false) => self.checks += 1,
            None => {
                let x = self.cx.and(pc.0.all, not(c));
                self.open(format!("{}: {}", kind, msg()), x);
            }
        }
        st.pc = self.pc_push(&pc, c);
        Ok(())
    }
    /// The condition must not depend on uninitialised data.
    fn defined(&mut self, pc: &Pc, same: B, msg: &dyn Fn() -> String) -> R<()> {
        if same == TRUE {
            return Ok(());
        }
        match self.sat(pc, not(same)) {
            Some(true) => Err(self.violation(pc, not(same), "uninit", msg())),
            Some(false) => {
                self.checks += 1;
                Ok(())
            }
            None => {
                let x = self.cx.and(pc.0.all, not(same));
                self.open(format!("uninit: {}", msg()), x);
                Ok(())
            }
        }
    }
    fn site(&self, st: &State) -> String {
        st.frames.iter().rev().take(4).map(|f| short(&f.f.name)).collect::<Vec<_>>().join(" < ")
    }
    pub fn print_prof(&self) {
        if let Some(p) = &self.prof {
            let mut v: Vec<_> = p.0.iter().collect();
            v.sort_by(|a, b| b.1 .0.partial_cmp(&a.1 .0).unwrap());
            for (k, s) in v.iter().take(25) {
                let f = &self.funcs[&(k.0 as usize)];
                eprintln!("{:7.2} s {:8} b {:7} w {:6} n  {} b{} {:.100?}", s.0, s.1, s.2, s.3, short(&f.name), k.1, f.blocks[k.1 as usize].insts[k.2 as usize].k);
            }
        }
    }
    // ------------------------------------------------------------ constants and globals
    fn k64(&mut self, v: u64) -> E {
        self.cx.konst(64, v as u128)
    }
    fn gaddr(&mut self, name: &str) -> R<u64> {
        let mut n = name.to_string();
        while let Some(a) = self.m.aliases.get(&n) {
            n = a.clone();
        }
        if let Some(&i) = self.m.gmap.get(&n) {
            return Ok(((GLOB + i as u32) as u64) << 32);
        }
        if let Some(&i) = self.m.fmap.get(&n) {
            return Ok(((FUNC + i as u32) as u64) << 32);
        }
        err(format!("unknown global {}", name))
    }
    fn cval(&mut self, ty: &Ty, c: &C) -> R<V> {
        Ok(match (c, ty) {
            (C::Undef, Ty::Struct(_, fs)) => {
                let mut v = vec![];
                for f in fs.iter() {
                    v.push(self.cval(f, c)?);
                }
                V::A(Rc::new(v))
            }
            (C::Undef, Ty::Vec(n, t)) => {
                let mut v = vec![];
                for _ in 0..*n {
                    v.push(self.cval(t, c)?);
                }
                V::A(Rc::new(v))
            }
            (C::Undef, _) => V::Undef,
            (C::Int(v), Ty::Int(1)) => V::B(if *v & 1 == 1 { TRUE } else { FALSE }),
            (C::Int(v), Ty::Int(w)) => {
                if *w > 128 {
                    return err("wide integer");
                }
                V::E(self.cx.konst(*w, *v))
            }
            (C::Float(b), Ty::F64) => V::E(self.cx.konst(64, *b as u128)),
            // a register of single precision holds the double of the same value
            (C::Float(b), Ty::F32) => V::E(self.cx.konst(64, *b as u128)),
            (C::Null, _) => V::E(self.k64(0)),
            (C::Zero, Ty::Int(1)) => V::B(FALSE),
            (C::Zero, Ty::Int(w)) => V::E(self.cx.konst(*w, 0)),
            (C::Zero, Ty::Ptr) | (C::Zero, Ty::F64) | (C::Zero, Ty::F32) => V::E(self.k64(0)),
            (C::Zero, Ty::Struct(..)) => {
                let Ty::Struct(_, fs) = ty else { unreachable!() };
                let mut v = vec![];
                for f in fs.iter() {
                    v.push(self.cval(f, c)?);
                }
                V::A(Rc::new(v))
            }
            (C::Zero, Ty::Arr(n, t)) => {
                let x = self.cval(t, c)?;
                V::A(Rc::new(vec![x; *n as usize]))
            }
            (C::Zero, Ty::Vec(n, t)) => {
                let x = self.cval(t, c)?;
                V::A(Rc::new(vec![x; *n as usize]))
            }
            (C::Splat(x), Ty::Vec(n, _)) => {
                let v = self.cval(&x.0, &x.1)?;
                V::A(Rc::new(vec![v; *n as usize]))
            }
            (C::Agg(l), _) => {
                let mut v = vec![];
                for (t, x) in l.iter() {
                    v.push(self.cval(t, x)?);
                }
                V::A(Rc::new(v))
            }
            (C::Bytes(b), _) => {
                let mut v = vec![];
                for x in b.iter() {
                    v.push(V::E(self.cx.konst(8, *x as u128)));
                }
                V::A(Rc::new(v))
            }
            (C::Global(n), _) => {
                let a = self.gaddr(n)?;
                V::E(self.k64(a))
            }
            (C::Gep(t, b, ix), _) => {
                let base = self.cval(&b.0, &b.1)?;
                let mut iv = vec![];
                for (t, c) in ix.iter() {
                    iv.push((t.clone(), self.cval(t, c)?));
                }
                V::E(self.gep(t, base, iv)?)
            }
            (C::Cast(op, x, t), _) => {
                let v = self.cval(&x.0, &x.1)?;
                self.cast(op, &x.0, v, t)?
            }
            (C::Bin(op, a, b), _) => {
                let x = self.cval(&a.0, &a.1)?;
                let y = self.cval(&b.0, &b.1)?;
                self.binop(op, &a.0, x, y)?
            }
            _ => return err(format!("constant {:?} of {:?}", c, ty)),
        })
    }
    fn init_cells(&mut self, o: &mut Obj, bytes: &mut Vec<u8>, ty: &Ty, c: &C, off: u64) -> R<()> {
        match (c, ty) {
            (C::Zero, _) | (C::Undef, _) | (C::Null, _) => {}
            (C::Bytes(b), _) => bytes[off as usize..off as usize + b.len()].copy_from_slice(b),
            (C::Agg(l), _) => {
                for (i, (t, x)) in l.iter().enumerate() {
                    let fo = ty.field_offset(i);
                    self.init_cells(o, bytes, t, x, off + fo)?;
                }
            }
            _ => {
                let v = self.cval(ty, c)?;
                let n = ty.size() as u32;
                let e = match v {
                    V::B(b) => self.cx.of_bool(b, 8),
                    V::E(e) => self.cx.zext(e, n * 8),
                    _ => return err("initialiser"),
                };
                o.cells.insert(off as u32, Cell { n, v: e, init: TRUE });
            }
        }
        Ok(())
    }
    fn gobj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gobjs.get(&id) {
            return Ok(o.clone());
        }
        let gi = (id - GLOB) as usize;
        let (ty, init, constant, name) = {
            let g = &self.m.globals[gi];
            (g.ty.clone(), g.init.clone(), g.constant, g.name.clone())
        };
        let n = ty.size();
        let size = self.k64(n);
        let mut o = Obj { kind: Kind::Global, size, max: n, min: n, align: 16, alive: TRUE, base: Base::Zero, cells: BTreeMap::new(), constant };
        let mut bytes = vec![0u8; n as usize];
        match init {
            None => return err(format!("external global {}", name)),
            Some(c) => self.init_cells(&mut o, &mut bytes, &ty, &c, 0)?,
        }
        if bytes.iter().any(|b| *b != 0) {
            o.base = Base::Bytes(bytes.into());
        }
        let o = Rc::new(o);
        self.gobjs.insert(id, o.clone());
        Ok(o)
    }
    // ------------------------------------------------------------ memory
    fn undef(&mut self, w: u32) -> E {
        if let Some(&e) = self.undef_e.get(&w) {
            return e;
        }
        let e = self.cx.evar(w);
        if let EN::Var(_, v) = self.cx.en[e as usize] {
            self.cx.tainted.insert(v);
        }
        self.undef_e.insert(w, e);
        e
    }
    /// What a read of uninitialised memory gives: the same for every read of one address.
    fn undef_at(&mut self, p: E, n: u32) -> E {
        if let Some(&e) = self.undef_p.get(&(p, n)) {
            return e;
        }
        let e = self.cx.evar(n * 8);
        if let EN::Var(_, v) = self.cx.en[e as usize] {
            self.cx.tainted.insert(v);
        }
        self.undef_p.insert((p, n), e);
        e
    }
    fn new_obj(&mut self, st: &mut State, kind: Kind, size: E, align: u64, base: Base) -> R<u64> {
        let l = match self.cx.leaves(size) {
            Some(l) => l,
            None => {
                let l = self.enumerate(&st.pc.clone(), size)?;
                l.to_vec()
            }
        };
        let mut max = 0;
        let mut min = u64::MAX;
        for (v, g) in &l {
            if l.len() > 1 && !self.feasible(&st.pc.clone(), *g) {
                continue;
            }
            max = max.max(*v as u64);
            min = min.min(*v as u64);
        }
        if max > 1 << 24 {
            return err(format!("allocation of {} bytes at {}", max, self.site(st)));
        }
        let size = if max == min { self.k64(max) } else { size };
        let id = self.next_obj;
        self.next_obj += 1;
        st.objs.insert(id, Rc::new(Obj { kind, size, max, min, align, alive: TRUE, base, cells: BTreeMap::new(), constant: false }));
        self.stats.max_objs = self.stats.max_objs.max(st.objs.len());
        Ok((id as u64) << 32)
    }
    fn obj(&mut self, st: &State, id: u32) -> R<Option<Rc<Obj>>> {
        if let Some(o) = st.objs.get(&id) {
            return Ok(Some(o.clone()));
        }
        if id >= GLOB && id < FUNC {
            return Ok(Some(self.gobj(id)?));
        }
        Ok(None)
    }
    /// All values a word can take here, with a guard for each.
    fn enumerate(&mut self, pc: &Pc, e: E) -> R<Rc<Vec<(u128, B)>>> {
        self.err_check()?;
        let key = (e, Rc::as_ptr(&pc.0) as usize);
        if let Some((_, r)) = self.enum_cache.get(&key) {
            return Ok(r.clone());
        }
        let mut out: Vec<(u128, B)> = vec![];
        if let Some(l) = self.cx.leaves(e) {
            if l.len() == 1 {
                return Ok(Rc::new(l));
            }
            for (v, g) in l {
                if self.feasible(pc, g) {
                    out.push((v, g));
                }
            }
        } else {
            if self.cx.e_tainted(e) {
                let t = self.cx.twin_e(e);
                let same = self.cx.eq(e, t);
                self.defined(pc, same, &|| "uninitialised data used as an address or length".into())?;
            }
            let mut seen = BTreeSet::new();
            let w = self.cx.width(e);
            for k in self.cx.recent() {
                let s = self.pc_sig(pc, k);
                for i in 0..64 {
                    if s >> i & 1 == 1 {
                        seen.insert(self.cx.eval_e(e, k, i));
                    }
                }
            }
            let mut rest = TRUE;
            for &v in &seen {
                let k = self.cx.konst(w, v);
                let g = self.cx.eq(e, k);
                out.push((v, g));
                rest = self.cx.and(rest, not(g));
            }
            loop {
                if out.len() > 512 {
                    return err("a symbolic address or length takes more than 512 values");
                }
                match self.sat(pc, rest) {
                    Some(false) => break,
                    None => return err("could not enumerate a symbolic address or length"),
                    Some(true) => {
                        if rest == TRUE {
                            self.ask(pc, TRUE);
                        }
                        let mut found = false;
                        for k in self.cx.recent() {
                            let s = self.pc_sig(pc, k) & self.cx.sig(rest, k);
                            if s != 0 {
                                let i = s.trailing_zeros() as usize;
                                let v = self.cx.eval_e(e, k, i);
                                let c = self.cx.konst(w, v);
                                let g = self.cx.eq(e, c);
                                out.push((v, g));
                                rest = self.cx.and(rest, not(g));
                                found = true;
                                break;
                            }
                        }
                        if !found {
                            return err("enumeration lost its model");
                        }
                    }
                }
            }
            out.sort_by_key(|x| x.0);
        }
        if out.is_empty() {
            return err("no feasible value");
        }
        // under the path condition exactly one guard holds: let the last take the rest
        if out.len() == 1 {
            out[0].1 = TRUE;
        } else {
            let n = out.len();
            let mut o = FALSE;
            for (_, g) in &out[..n - 1] {
                o = self.cx.or(o, *g);
            }
            if self.cx.leaves(e).map_or(true, |l| l.len() != n) {
                out[n - 1].1 = not(o);
            }
        }
        let r = Rc::new(out);
        self.enum_cache.insert(key, (pc.clone(), r.clone()));
        Ok(r)
    }
    /// Objects an access may touch: (object, offset, guard).
    fn resolve(&mut self, st: &mut State, p: E, n: u64, what: &str, write: bool) -> R<Vec<(u32, u32, B)>> {
        if self.cx.e_tainted(p) {
            let pc = st.pc.clone();
            let site = self.site(st);
            let t = self.cx.twin_e(p);
            let same = self.cx.eq(p, t);
            self.defined(&pc, same, &|| format!("uninitialised pointer in {} at {}", what, site))?;
        }
        let l = self.enumerate(&st.pc.clone(), p)?;
        let mut out = vec![];
        for &(a, g) in l.iter() {
            let id = (a as u64 >> 32) as u32;
            let off = a as u64 & 0xffff_ffff;
            let o = self.obj(st, id)?;
            let site = self.site(st);
            match o {
                None => {
                    self.must(st, not(g), "memory", &|| format!("{} through an invalid pointer {:#x} at {}", what, a, site))?;
                    continue;
                }
                Some(o) => {
                    if o.alive != TRUE {
                        let c = self.cx.and(g, not(o.alive));
                        self.must(st, not(c), "memory", &|| format!("{} after free at {}", what, site))?;
                    }
                    if off + n > o.max {
                        self.must(st, not(g), "memory", &|| format!("{} out of bounds (offset {} of {}) at {}", what, off, o.max, site))?;
                        continue;
                    }
                    if off + n > o.min {
                        let k = self.k64(off + n);
                        let bad = self.cx.ult(o.size, k);
                        let c = self.cx.and(g, bad);
                        self.must(st, not(c), "memory", &|| format!("{} out of bounds (offset {}) at {}", what, off, site))?;
                    }
                    if write && o.constant {
                        self.must(st, not(g), "memory", &|| format!("{} to constant memory at {}", what, site))?;
                        continue;
                    }
                    out.push((id, off as u32, g));
                }
            }
        }
        Ok(out)
    }
    fn base_bytes(&mut self, o: &Obj, off: u32, n: u32) -> Option<E> {
        match &o.base {
            Base::Uninit => None,
            Base::Zero => Some(self.cx.konst(n * 8, 0)),
            Base::Bytes(b) => {
                let mut v = 0u128;
                for i in (0..n).rev() {
                    v = v << 8 | b[(off + i) as usize] as u128;
                }
                Some(self.cx.konst(n * 8, v))
            }
        }
    }
    /// Contents of [off, off+n) as pieces of at most 16 bytes.
    fn pieces(&mut self, o: &Obj, off: u32, n: u32) -> Vec<(u32, u32, Option<(E, B)>)> {
        let end = off + n;
        let mut out = vec![];
        let mut p = off;
        // a cell may start before off
        let mut it: Vec<(u32, Cell)> = vec![];
        if let Some((k, c)) = o.cells.range(..off).next_back() {
            if k + c.n > off {
                it.push((*k, c.clone()));
            }
        }
        for (k, c) in o.cells.range(off..end) {
            it.push((*k, c.clone()));
        }
        let mut ix = 0;
        while p < end {
            if ix < it.len() && it[ix].0 <= p {
                let (k, c) = it[ix].clone();
                let e = (k + c.n).min(end);
                let lo = p - k;
                let m = e - p;
                let v = if lo == 0 && m == c.n { c.v } else { self.cx.extract(c.v, lo * 8, m * 8) };
                out.push((p - off, m, if c.init == FALSE { None } else { Some((v, c.init)) }));
                p = e;
                ix += 1;
            } else {
                let mut e = if ix < it.len() { it[ix].0 } else { end };
                // chunk at 8-byte boundaries
                let nb = (p / 8 + 1) * 8;
                if e > nb {
                    e = nb;
                }
                let m = e - p;
                let v = self.base_bytes(o, p, m);
                out.push((p - off, m, v.map(|v| (v, TRUE))));
                p = e;
            }
        }
        out
    }
    fn obj_load(&mut self, o: &Obj, off: u32, n: u32) -> (E, B) {
        if let Some(c) = o.cells.get(&off) {
            if c.n == n {
                return (c.v, c.init);
            }
        }
        let ps = self.pieces(o, off, n);
        let mut v: Option<E> = None;
        let mut init = TRUE;
        let all_undef = ps.iter().all(|p| p.2.is_none());
        if all_undef {
            return (self.undef(n * 8), FALSE);
        }
        for (_, m, x) in ps {
            let e = match x {
                Some((e, i)) => {
                    if i != TRUE {
                        // partly initialised on some paths
                        let u = self.undef(m * 8);
                        self.cx.ite(i, e, u)
                    } else {
                        e
                    }
                }
                None => self.undef(m * 8),
            };
            v = Some(match v {
                None => e,
                Some(l) => self.cx.concat(e, l),
            });
        }
        if false {
            init = FALSE;
        }
        (v.unwrap(), init)
    }
    fn cut(&mut self, o: &mut Obj, off: u32, n: u32) {
        // remove [off, off+n), keeping the parts of cells that stick out
        let end = off + n;
        let mut del = vec![];
        let mut add = vec![];
        let prev = o.cells.range(..off).next_back().map(|(k, c)| (*k, c.clone()));
        if let Some((k, c)) = prev {
            if k + c.n > off {
                del.push(k);
                add.push((k, Cell { n: off - k, v: self.cx.extract(c.v, 0, (off - k) * 8), init: c.init }));
                if k + c.n > end {
                    let m = k + c.n - end;
                    add.push((end, Cell { n: m, v: self.cx.extract(c.v, (end - k) * 8, m * 8), init: c.init }));
                }
            }
        }
        let ins: Vec<(u32, Cell)> = o.cells.range(off..end).map(|(k, c)| (*k, c.clone())).collect();
        for (k, c) in ins {
            del.push(k);
            if k + c.n > end {
                let m = k + c.n - end;
                add.push((end, Cell { n: m, v: self.cx.extract(c.v, (end - k) * 8, m * 8), init: c.init }));
            }
        }
        for k in del {
            o.cells.remove(&k);
        }
        for (k, c) in add {
            o.cells.insert(k, c);
        }
    }
    fn obj_store(&mut self, o: &mut Obj, off: u32, n: u32, v: Option<(E, B)>, g: B) {
        if g == FALSE {
            return;
        }
        if g == TRUE {
            if !o.cells.get(&off).map_or(false, |c| c.n == n) {
                self.cut(o, off, n);
            }
            match v {
                Some((e, i)) => {
                    o.cells.insert(off, Cell { n, v: e, init: i });
                }
                None => {
                    if let Base::Uninit = o.base {
                        o.cells.remove(&off);
                    } else {
                        let u = self.undef(n * 8);
                        o.cells.insert(off, Cell { n, v: u, init: FALSE });
                    }
                }
            }
            return;
        }
        let exact = o.cells.get(&off).filter(|c| c.n == n).cloned();
        let (ov, oi) = match exact {
            Some(c) => (c.v, c.init),
            None => self.obj_load(o, off, n),
        };
        let c = match v {
            Some((e, i)) => {
                if oi == FALSE {
                    let gi = self.cx.and(g, i);
                    Cell { n, v: e, init: gi }
                } else {
                    let nv = self.cx.ite(g, e, ov);
                    let ni = self.cx.iteb(g, i, oi);
                    Cell { n, v: nv, init: ni }
                }
            }
            None => {
                let ni = self.cx.and(oi, not(g));
                Cell { n, v: ov, init: ni }
            }
        };
        self.cut(o, off, n);
        o.cells.insert(off, c);
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if !st.objs.contains_key(&id) {
            let o = self.gobj(id)?;
            st.objs.insert(id, o);
        }
        Ok(Rc::make_mut(st.objs.get_mut(&id).unwrap()))
    }
    fn load_raw(&mut self, st: &mut State, p: E, n: u32, what: &str) -> R<E> {
        let t = self.resolve(st, p, n as u64, what, false)?;
        let mut r: Option<(E, B)> = None;
        for (id, off, g) in t.into_iter().rev() {
            let o = self.obj(st, id)?.unwrap();
            let (v, i) = self.obj_load(&o, off, n);
            r = Some(match r {
                None => (v, i),
                Some((rv, ri)) => {
                    if ri == FALSE {
                        (v, self.cx.and(g, i))
                    } else if i == FALSE {
                        (rv, self.cx.and(not(g), ri))
                    } else {
                        (self.cx.ite(g, v, rv), self.cx.iteb(g, i, ri))
                    }
                }
            });
        }
        match r {
            None => err("load with no feasible target"),
            Some((v, i)) => {
                if i == TRUE {
                    return Ok(v);
                }
                if i == FALSE {
                    return Ok(self.undef_at(p, n));
                }
                let pc = st.pc.clone();
                if !self.feasible(&pc, not(i)) {
                    return Ok(v);
                }
                let u = self.undef_at(p, n);
                Ok(self.cx.ite(i, v, u))
            }
        }
    }
    fn off(&mut self, p: E, k: u64) -> E {
        if k == 0 {
            p
        } else {
            self.cx.addk(p, k as u128)
        }
    }
    fn load(&mut self, st: &mut State, p: E, ty: &Ty) -> R<V> {
        Ok(match ty {
            Ty::Int(1) => {
                let e = self.load_raw(st, p, 1, "load")?;
                V::B(self.cx.bit(e, 0))
            }
            Ty::Int(w) => {
                if *w > 128 {
                    return err("wide load");
                }
                let n = (*w + 7) / 8;
                let e = self.load_raw(st, p, n, "load")?;
                V::E(self.cx.extract(e, 0, *w))
            }
            Ty::Ptr | Ty::F64 => V::E(self.load_raw(st, p, 8, "load")?),
            Ty::F32 => {
                let e = self.load_raw(st, p, 4, "load")?;
                V::E(self.single(e)?)
            }
            Ty::Vec(n, t) => {
                let sz = t.size();
                let mut v = vec![];
                for i in 0..*n as u64 {
                    let q = self.off(p, i * sz);
                    v.push(self.load(st, q, t)?);
                }
                V::A(Rc::new(v))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = match ty {
                    Ty::Struct(_, f) => f.len(),
                    Ty::Arr(n, _) => *n as usize,
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let q = self.off(p, ty.field_offset(i));
                    v.push(self.load(st, q, &ty.elem(i))?);
                }
                V::A(Rc::new(v))
            }
            _ => return err("load type"),
        })
    }
    fn store(&mut self, st: &mut State, p: E, ty: &Ty, v: V) -> R<()> {
        let (n, x) = match (ty, v) {
            (Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..), V::A(l)) => {
                for (i, x) in l.iter().enumerate() {
                    let q = self.off(p, ty.field_offset(i));
                    self.store(st, q, &ty.elem(i), x.clone())?;
                }
                return Ok(());
            }
            (_, V::Undef) => (ty.size() as u32, None),
            (_, V::B(b)) => (1, Some((self.cx.of_bool(b, 8), TRUE))),
            (Ty::Int(w), V::E(e)) => {
                let n = (*w + 7) / 8;
                (n, Some((self.cx.zext(e, n * 8), TRUE)))
            }
            (Ty::F32, V::E(e)) => (4, Some((self.single_bits(e)?, TRUE))),
            (_, V::E(e)) => (self.cx.width(e) / 8, Some((e, TRUE))),
            _ => return err("store value"),
        };
        // a stored uninitialised word stays uninitialised
        let x = match x {
            Some((e, _)) if matches!(self.cx.en[e as usize], EN::Var(_, v) if self.cx.tainted.contains(&v)) => None,
            x => x,
        };
        let t = self.resolve(st, p, n as u64, "store", true)?;
        for (id, off, g) in t {
            self.obj_mut(st, id)?;
            let mut rc = st.objs.remove(&id).unwrap();
            self.obj_store(Rc::make_mut(&mut rc), off, n, x, g);
            st.objs.insert(id, rc);
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: E, s: E, len: E) -> R<()> {
        let ll = self.enumerate(&st.pc.clone(), len)?;
        let max = ll.iter().map(|x| x.0).max().unwrap() as u64;
        if max == 0 {
            return Ok(());
        }
        if max > 1 << 20 {
            return err("huge copy");
        }
        // how many bytes: guard for byte i is "len > i"
        let min = ll.iter().map(|x| x.0).min().unwrap() as u64;
        let mut gcache: HashMap<u64, B> = HashMap::new();
        let mut longer = |me: &mut Engine, i: u64| -> B {
            if i <= min {
                return TRUE;
            }
            if let Some(&g) = gcache.get(&i) {
                return g;
            }
            let mut g = FALSE;
            for (l, h) in ll.iter() {
                if *l as u64 >= i {
                    g = me.cx.or(g, *h);
                }
            }
            gcache.insert(i, g);
            g
        };
        let site = self.site(st);
        let nz = longer(self, 1);
        let sl = self.enumerate(&st.pc.clone(), s)?;
        let dl = self.enumerate(&st.pc.clone(), d)?;
        // read everything first
        let mut reads: Vec<(B, Vec<(u32, u32, Option<(E, B)>)>)> = vec![];
        for &(a, g) in sl.iter() {
            let (id, off) = ((a as u64 >> 32) as u32, a as u64 & 0xffff_ffff);
            let g1 = self.cx.and(g, nz);
            if sl.len() > 1 && !self.feasible(&st.pc.clone(), g1) {
                continue;
            }
            let o = match self.obj(st, id)? {
                None => {
                    self.must(st, not(g1), "memory", &|| format!("copy from an invalid pointer {:#x} at {}", a, site))?;
                    continue;
                }
                Some(o) => o,
            };
            if o.alive != TRUE {
                let c = self.cx.and(g1, not(o.alive));
                self.must(st, not(c), "memory", &|| format!("copy from freed memory at {}", site))?;
            }
            self.check_range(st, &o, off, &ll, g, "copy from", &site)?;
            let n = max.min(o.max.saturating_sub(off));
            let p = self.pieces(&o, off as u32, n as u32);
            reads.push((g, p));
        }
        for &(a, g) in dl.iter() {
            let (id, off) = ((a as u64 >> 32) as u32, a as u64 & 0xffff_ffff);
            let g1 = self.cx.and(g, nz);
            if dl.len() > 1 && !self.feasible(&st.pc.clone(), g1) {
                continue;
            }
            let o = match self.obj(st, id)? {
                None => {
                    self.must(st, not(g1), "memory", &|| format!("copy to an invalid pointer {:#x} at {}", a, site))?;
                    continue;
                }
                Some(o) => o,
            };
            if o.alive != TRUE {
                let c = self.cx.and(g1, not(o.alive));
                self.must(st, not(c), "memory", &|| format!("copy to freed memory at {}", site))?;
            }
            if o.constant {
                self.must(st, not(g1), "memory", &|| format!("copy to constant memory at {}", site))?;
                continue;
            }
            self.check_range(st, &o, off, &ll, g, "copy to", &site)?;
            let omax = o.max;
            drop(o);
            self.obj_mut(st, id)?;
            let mut rc = st.objs.remove(&id).unwrap();
            let ob = Rc::make_mut(&mut rc);
            let single = reads.len() == 1;
            for (gs, ps) in &reads {
                let gsd = if single { g } else { self.cx.and(g, *gs) };
                for (rel, n, v) in ps {
                    // a piece that some lengths, or the end of the object, or cells of the
                    // destination divide is stored in parts
                    let (from, to) = (*rel as u64, (*rel + *n) as u64);
                    let mut cuts: Vec<u64> = vec![from, to, omax - off.min(omax)];
                    cuts.extend(ll.iter().map(|x| x.0 as u64));
                    if gsd != TRUE || ll.len() > 1 {
                        for (k, c) in ob.cells.range((off + from).saturating_sub(64) as u32..(off + to) as u32) {
                            cuts.push((*k as u64).saturating_sub(off));
                            cuts.push((*k as u64 + c.n as u64).saturating_sub(off));
                        }
                    }
                    cuts.retain(|c| *c >= from && *c <= to);
                    cuts.sort();
                    cuts.dedup();
                    for w in cuts.windows(2) {
                        let (x, y) = (w[0], w[1]);
                        if off + y > omax {
                            continue;
                        }
                        let part = if y - x == *n as u64 {
                            *v
                        } else {
                            v.map(|(e, i)| (self.cx.extract(e, (x - from) as u32 * 8, (y - x) as u32 * 8), i))
                        };
                        let gl = longer(self, y);
                        let gg = self.cx.and(gsd, gl);
                        self.obj_store(ob, (off + x) as u32, (y - x) as u32, part, gg);
                    }
                }
            }
            st.objs.insert(id, rc);
        }
        Ok(())
    }
    fn check_range(&mut self, st: &mut State, o: &Obj, off: u64, ll: &[(u128, B)], g: B, what: &str, site: &str) -> R<()> {
        for (l, h) in ll {
            let l = *l as u64;
            if l == 0 || off + l <= o.min {
                continue;
            }
            let gh = self.cx.and(g, *h);
            let c = if off + l > o.max {
                gh
            } else {
                let k = self.k64(off + l);
                let bad = self.cx.ult(o.size, k);
                self.cx.and(gh, bad)
            };
            self.must(st, not(c), "memory", &|| format!("{} out of bounds ({}+{} of {}) at {}", what, off, l, o.max, site))?;
        }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, d: E, b: E, len: E) -> R<()> {
        let ll = self.enumerate(&st.pc.clone(), len)?;
        let max = ll.iter().map(|x| x.0).max().unwrap() as u64;
        let min = ll.iter().map(|x| x.0).min().unwrap() as u64;
        if max == 0 {
            return Ok(());
        }
        if max > 1 << 20 {
            return err("huge fill");
        }
        let mut nz = FALSE;
        for (l, h) in ll.iter() {
            if *l > 0 {
                nz = self.cx.or(nz, *h);
            }
        }
        let site = self.site(st);
        let dl = self.enumerate(&st.pc.clone(), d)?;
        for &(a, g) in dl.iter() {
            let (id, off) = ((a as u64 >> 32) as u32, a as u64 & 0xffff_ffff);
            let g1 = self.cx.and(g, nz);
            let o = match self.obj(st, id)? {
                None => {
                    self.must(st, not(g1), "memory", &|| format!("fill through an invalid pointer {:#x} at {}", a, site))?;
                    continue;
                }
                Some(o) => o,
            };
            self.check_range(st, &o, off, &ll, g, "fill", &site)?;
            let omax = o.max;
            drop(o);
            self.obj_mut(st, id)?;
            let mut rc = st.objs.remove(&id).unwrap();
            let ob = Rc::make_mut(&mut rc);
            if g == TRUE && min == max && off == 0 && max == omax && self.cx.is_const(b) == Some(0) {
                ob.cells.clear();
                ob.base = Base::Zero;
            } else {
                let mut i = 0u64;
                while i < max {
                    let mut n = 8 - (off + i) % 8;
                    // respect the cells that are there
                    let at = (off + i) as u32;
                    if let Some(c) = ob.cells.get(&at) {
                        n = c.n as u64;
                    }
                    if ll.len() > 1 && n > 1 && ll.iter().any(|l| (l.0 as u64) > i && (l.0 as u64) < i + n) {
                        n = 1;
                    }
                    n = n.min(max - i);
                    if n > 16 {
                        n = 16;
                    }
                    let mut v = b;
                    for _ in 1..n {
                        v = self.cx.concat(b, v);
                    }
                    let mut gl = FALSE;
                    if i + n <= min {
                        gl = TRUE
                    } else {
                        for (l, h) in ll.iter() {
                            if *l as u64 >= i + n {
                                gl = self.cx.or(gl, *h);
                            }
                        }
                    }
                    let gg = self.cx.and(g, gl);
                    if off + i + n <= omax {
                        self.obj_store(ob, at, n as u32, Some((v, TRUE)), gg);
                    }
                    i += n;
                }
            }
            st.objs.insert(id, rc);
        }
        Ok(())
    }
    fn free(&mut self, st: &mut State, p: E) -> R<()> {
        let l = self.enumerate(&st.pc.clone(), p)?;
        let site = self.site(st);
        for &(a, g) in l.iter() {
            let (id, off) = ((a as u64 >> 32) as u32, a as u64 & 0xffff_ffff);
            let o = st.objs.get(&id).cloned();
            match o {
                Some(o) if o.kind == Kind::Heap && off == 0 => {
                    if o.alive != TRUE {
                        let c = self.cx.and(g, not(o.alive));
                        self.must(st, not(c), "memory", &|| format!("double free at {}", site))?;
                    }
                    if g == TRUE {
                        st.objs.remove(&id);
                    } else {
                        let al = self.cx.and(o.alive, not(g));
                        if al == FALSE {
                            st.objs.remove(&id);
                        } else {
                            drop(o);
                            Rc::make_mut(st.objs.get_mut(&id).unwrap()).alive = al;
                        }
                    }
                }
                _ => {
                    self.must(st, not(g), "memory", &|| format!("invalid free of {:#x} at {}", a, site))?;
                }
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------ values
    fn e_of(&mut self, v: &V, ty: &Ty) -> R<E> {
        match v {
            V::E(e) => Ok(*e),
            V::B(b) => Ok(self.cx.of_bool(*b, 1)),
            V::Undef => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                Ok(self.undef(w))
            }
            V::None => err("value used before it is set"),
            V::A(_) => err("aggregate used as a word"),
        }
    }
    fn b_of(&mut self, v: &V) -> R<B> {
        match v {
            V::B(b) => Ok(*b),
            V::E(e) => Ok(self.cx.bit(*e, 0)),
            V::Undef => {
                let u = self.undef(8);
                Ok(self.cx.bit(u, 0))
            }
            V::None => err("condition used before it is set"),
            V::A(_) => err("aggregate used as a condition"),
        }
    }
    fn ite_v(&mut self, c: B, a: &V, b: &V) -> R<V> {
        if c == TRUE {
            return Ok(a.clone());
        }
        if c == FALSE {
            return Ok(b.clone());
        }
        Ok(match (a, b) {
            (V::Undef, x) | (x, V::Undef) => x.clone(),
            (V::None, _) | (_, V::None) => V::None,
            (V::B(x), V::B(y)) => V::B(self.cx.iteb(c, *x, *y)),
            (V::E(x), V::E(y)) => {
                let e = self.cx.ite(c, *x, *y);
                V::E(e)
            }
            (V::A(x), V::A(y)) if x.len() == y.len() => {
                if Rc::ptr_eq(x, y) {
                    return Ok(a.clone());
                }
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.ite_v(c, p, q)?);
                }
                V::A(Rc::new(v))
            }
            _ => return err("values of different kinds meet"),
        })
    }
    fn get(&mut self, st: &State, ty: &Ty, o: &O) -> R<V> {
        match o {
            O::L(i) => Ok(st.frames.last().unwrap().env[*i as usize].clone()),
            O::C(c) => self.cval(ty, c),
        }
    }
    fn get_e(&mut self, st: &State, ty: &Ty, o: &O) -> R<E> {
        let v = self.get(st, ty, o)?;
        self.e_of(&v, ty)
    }
    fn gep(&mut self, ty: &Ty, base: V, ix: Vec<(Ty, V)>) -> R<E> {
        let mut p = self.e_of(&base, &Ty::Ptr)?;
        let mut t = ty.clone();
        for (k, (it, v)) in ix.iter().enumerate() {
            let e = self.e_of(v, it)?;
            if k > 0 {
                if let Ty::Struct(..) = t {
                    let i = self.cx.is_const(e).ok_or(Stop::Err("struct index".into()))? as usize;
                    let o = t.field_offset(i);
                    p = self.off(p, o);
                    t = t.elem(i);
                    continue;
                }
                t = t.elem(0);
            }
            let e = self.cx.sext(e, 64);
            let sz = self.k64(t.size());
            let o = self.cx.bin(Op::Mul, e, sz);
            p = self.cx.add(p, o);
        }
        Ok(p)
    }
    fn vmap(&mut self, a: &V, f: &mut dyn FnMut(&mut Engine, &V) -> R<V>) -> R<V> {
        match a {
            V::A(l) => {
                let mut v = vec![];
                for x in l.iter() {
                    v.push(f(self, x)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            x => f(self, x),
        }
    }
    fn vzip(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Engine, &V, &V) -> R<V>) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(f(self, p, q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (x, y) => f(self, x, y),
        }
    }
    fn binop(&mut self, op: &str, ty: &Ty, a: V, b: V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let t = (**t).clone();
            return self.vzip(&a, &b, &mut |s, x, y| s.binop(op, &t, x.clone(), y.clone()));
        }
        if *ty == Ty::Int(1) {
            let (x, y) = (self.b_of(&a)?, self.b_of(&b)?);
            return Ok(V::B(match op {
                "and" | "mul" => self.cx.and(x, y),
                "or" => self.cx.or(x, y),
                "xor" | "add" | "sub" => self.cx.xor(x, y),
                _ => return err(format!("i1 {}", op)),
            }));
        }
        let (x, y) = (self.e_of(&a, ty)?, self.e_of(&b, ty)?);
        if op.starts_with('f') {
            let o = match op {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            let r = self.cx.fbin(o, x, y);
            // rounding twice gives what rounding once does: 53 >= 2 * 24 + 2
            return Ok(V::E(if *ty == Ty::F32 { self.to_single(r)? } else { r }));
        }
        let o = match op {
            "add" => Op::Add,
            "sub" => Op::Sub,
            "mul" => Op::Mul,
            "udiv" => Op::Udiv,
            "urem" => Op::Urem,
            "sdiv" => Op::Sdiv,
            "srem" => Op::Srem,
            "shl" => Op::Shl,
            "lshr" => Op::Lshr,
            "ashr" => Op::Ashr,
            "and" => Op::And,
            "or" => Op::Or,
            "xor" => Op::Xor,
            _ => return err(format!("operation {}", op)),
        };
        Ok(V::E(self.cx.bin(o, x, y)))
    }
    fn icmp(&mut self, p: &str, ty: &Ty, a: V, b: V) -> R<V> {
        if let Ty::Vec(_, t) = ty {
            let t = (**t).clone();
            return self.vzip(&a, &b, &mut |s, x, y| s.icmp(p, &t, x.clone(), y.clone()));
        }
        if *ty == Ty::Int(1) {
            let (x, y) = (self.b_of(&a)?, self.b_of(&b)?);
            return Ok(V::B(match p {
                "eq" => self.cx.iff(x, y),
                "ne" => self.cx.xor(x, y),
                "ult" | "sgt" => self.cx.and(not(x), y),
                "ugt" | "slt" => self.cx.and(x, not(y)),
                "ule" | "sge" => self.cx.or(not(x), y),
                "uge" | "sle" => self.cx.or(x, not(y)),
                _ => return err("icmp i1"),
            }));
        }
        let (x, y) = (self.e_of(&a, ty)?, self.e_of(&b, ty)?);
        Ok(V::B(match p {
            "eq" => self.cx.eq(x, y),
            "ne" => not(self.cx.eq(x, y)),
            "ult" => self.cx.ult(x, y),
            "ugt" => self.cx.ult(y, x),
            "ule" => self.cx.ule(x, y),
            "uge" => self.cx.ule(y, x),
            "slt" => self.cx.slt(x, y),
            "sgt" => self.cx.slt(y, x),
            "sle" => self.cx.sle(x, y),
            "sge" => self.cx.sle(y, x),
            _ => return err("icmp"),
        }))
    }
    /// rounds a double to single precision
    pub fn to_single(&mut self, e: E) -> R<E> {
        if let Some(r) = self.cx.map1(e, 64, &|x| (f64::from_bits(x as u64) as f32 as f64).to_bits() as u128) {
            return Ok(r);
        }
        if let Some((lo, hi)) = self.cx.int_range(e) {
            if lo >= -(1 << 24) && hi <= 1 << 24 {
                return Ok(e);
            }
            let l = self.cx.as_leaves(e);
            if l != e {
                return self.to_single(l);
            }
        }
        if let Some((c, x, y)) = self.cx.as_ite(e) {
            let (x, y) = (self.to_single(x)?, self.to_single(y)?);
            return Ok(self.cx.ite(c, x, y));
        }
        err("single precision of an unknown")
    }
    fn single(&mut self, e: E) -> R<E> {
        self.cx.map1(e, 64, &|x| (f32::from_bits(x as u32) as f64).to_bits() as u128).map_or_else(|| err("single-precision word"), Ok)
    }
    fn single_bits(&mut self, e: E) -> R<E> {
        let l = self.cx.as_leaves(e);
        self.cx.map1(l, 32, &|x| (f64::from_bits(x as u64) as f32).to_bits() as u128).map_or_else(|| err("single-precision word"), Ok)
    }
    fn cast(&mut self, op: &str, from: &Ty, v: V, to: &Ty) -> R<V> {
        if op == "bitcast" {
            let fv = matches!(from, Ty::Vec(..));
            let tv = matches!(to, Ty::Vec(..));
            if !fv && !tv {
                let V::E(e) = v else { return Ok(v) };
                return Ok(V::E(match (from, to) {
                    (Ty::F32, Ty::F32) => e,
                    (Ty::F32, _) => self.single_bits(e)?,
                    (_, Ty::F32) => self.single(e)?,
                    _ => e,
                }));
            }
            if matches!(from, Ty::Vec(_, t) if **t == Ty::F32) || matches!(to, Ty::Vec(_, t) if **t == Ty::F32) {
                return err("bitcast of single-precision vectors");
            }
            // through a flat word
            let flat = match &v {
                V::A(l) => {
                    let Ty::Vec(_, t) = from else { return err("bitcast") };
                    let mut r: Option<E> = None;
                    for x in l.iter() {
                        let e = self.e_of(x, t)?;
                        r = Some(match r {
                            None => e,
                            Some(lo) => self.cx.concat(e, lo),
                        });
                    }
                    r.unwrap()
                }
                x => self.e_of(x, from)?,
            };
            if let Ty::Vec(n, t) = to {
                let w = self.cx.width(flat) / n;
                let mut out = vec![];
                for i in 0..*n {
                    let e = self.cx.extract(flat, i * w, w);
                    out.push(if **t == Ty::Int(1) { V::B(self.cx.bit(e, 0)) } else { V::E(e) });
                }
                return Ok(V::A(Rc::new(out)));
            }
            return Ok(V::E(flat));
        }
        if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
            let (f, t) = ((**f).clone(), (**t).clone());
            return self.vmap(&v, &mut |s, x| s.cast(op, &f, x.clone(), &t));
        }
        let tw = match to {
            Ty::Int(w) => *w,
            _ => 64,
        };
        if let V::Undef = v {
            return Ok(V::Undef);
        }
        if let V::B(b) = v {
            return Ok(match op {
                "zext" => V::E(self.cx.of_bool(b, tw)),
                "sext" => {
                    let l = vec![(0, not(b)), (mask(tw), b)];
                    V::E(self.cx.cases(tw, l))
                }
                "uitofp" => {
                    let l = vec![(0, not(b)), (1f64.to_bits() as u128, b)];
                    V::E(self.cx.cases(64, l))
                }
                _ => return err(format!("{} of i1", op)),
            });
        }
        let e = self.e_of(&v, from)?;
        Ok(match op {
            "trunc" => {
                if tw == 1 {
                    V::B(self.cx.bit(e, 0))
                } else {
                    V::E(self.cx.extract(e, 0, tw))
                }
            }
            "zext" => V::E(self.cx.zext(e, tw)),
            "sext" => V::E(self.cx.sext(e, tw)),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                let w = self.cx.width(e);
                V::E(if tw < w { self.cx.extract(e, 0, tw) } else { self.cx.zext(e, tw) })
            }
            "sitofp" if *to == Ty::F64 => V::E(self.cx.intf(e)),
            "sitofp" => {
                let x = self.cx.intf(e);
                V::E(self.to_single(x)?)
            }
            "fpext" => V::E(e),
            "fptrunc" => V::E(self.to_single(e)?),
            "uitofp" if *to == Ty::F64 => {
                let w = self.cx.width(e) + 1;
                let x = self.cx.zext(e, w);
                V::E(self.cx.intf(x))
            }
            "fptosi" => V::E(self.cx.f_to_int(e, tw, true, false)),
            "fptoui" => V::E(self.cx.f_to_int(e, tw, false, false)),
            _ => return err(format!("cast {} {:?} -> {:?}", op, from, to)),
        })
    }
    // ------------------------------------------------------------ control
    fn func(&mut self, fi: usize) -> R<Rc<Func>> {
        if let Some(f) = self.funcs.get(&fi) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.m.parse_fn(fi).map_err(Stop::Err)?);
        self.used.insert(f.name.clone(), (f.ninst, f.hash));
        self.funcs.insert(fi, f.clone());
        Ok(f)
    }
    fn key(&self, st: &State) -> Vec<u32> {
        let mut k = vec![];
        k.extend_from_slice(&st.tag);
        k.push(0);
        for f in &st.frames {
            k.push(f.fi);
            for (h, i) in &f.iters {
                k.push(f.f.rank[*h as usize]);
                k.push(*i);
            }
            k.push(f.f.rank[f.b as usize]);
            k.push(f.idx as u32);
        }
        k
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.b;
        // phis
        let mut vals = vec![];
        for (d, t, ins) in &f.blocks[to as usize].phis {
            let o = ins.iter().find(|x| x.1 == from).ok_or_else(|| Stop::Err("phi without an entry".into()))?;
            let v = self.get(st, t, &o.0)?;
            vals.push((*d, v));
        }
        let max = self.max_iter;
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.env[d as usize] = v;
        }
        let mut it = vec![];
        for &h in &f.comps[to as usize] {
            match fr.iters.iter().find(|x| x.0 == h) {
                Some(&(_, n)) => it.push((h, if to == h { n + 1 } else { n })),
                None => it.push((h, 0)),
            }
        }
        // leaving an iteration of an outer component restarts the inner ones
        for k in 0..it.len() {
            let old = fr.iters.iter().find(|x| x.0 == it[k].0).map(|x| x.1);
            if old != Some(it[k].1) {
                for j in k + 1..it.len() {
                    it[j].1 = 0;
                }
                break;
            }
        }
        let mut over = None;
        for x in &it {
            if x.1 > self.stats.max_iter {
                self.stats.max_iter = x.1;
            }
            if x.1 > max {
                over = Some(x.1);
            }
        }
        fr.iters = it;
        fr.prev = from;
        fr.b = to;
        fr.idx = 0;
        if let Some(n) = over {
            let site = self.site(st);
            let pc = st.pc.clone();
            return Err(self.violation(&pc, TRUE, "nontermination", format!("a loop in {} runs more than {} times", site, n - 1)));
        }
        Ok(())
    }
    fn merge(&mut self, a: State, b: State) -> R<State> {
        self.stats.merges += 1;
        // path conditions
        let (mut x, mut y) = (a.pc.clone(), b.pc.clone());
        let (mut sa, mut sb) = (vec![], vec![]);
        while !Rc::ptr_eq(&x.0, &y.0) {
            if x.0.depth >= y.0.depth {
                sa.push(x.0.cond);
                let p = x.0.parent.clone().ok_or_else(|| Stop::Err("merge".into()))?;
                x = p;
            } else {
                sb.push(y.0.cond);
                let p = y.0.parent.clone().ok_or_else(|| Stop::Err("merge".into()))?;
                y = p;
            }
        }
        sa.reverse();
        sb.reverse();
        let mut sel = None;
        'o: for p in &sa {
            for q in &sb {
                if *p == not(*q) {
                    sel = Some(*p);
                    break 'o;
                }
            }
        }
        let mut ca = TRUE;
        for p in &sa {
            ca = self.cx.and(ca, *p);
        }
        let mut cb = TRUE;
        for p in &sb {
            cb = self.cx.and(cb, *p);
        }
        let sel = sel.unwrap_or(ca);
        let d = self.cx.or(ca, cb);
        let pc = self.pc_push(&x, d);
        let mut st = State { tag: a.tag.clone(), frames: vec![], objs: BTreeMap::new(), pc, nsym: a.nsym, obs: vec![], allow: FALSE };
        if a.nsym != b.nsym {
            return err("symbolic values are declared on some paths only");
        }
        if a.obs.len() != b.obs.len() {
            return err("observations differ in number between paths");
        }
        st.allow = self.cx.iteb(sel, a.allow, b.allow);
        for (p, q) in a.obs.iter().zip(&b.obs) {
            st.obs.push(self.cx.ite(sel, *p, *q));
        }
        let nf = a.frames.len();
        for (k, (fa, fb)) in a.frames.into_iter().zip(b.frames).enumerate() {
            let idx = if k + 1 == nf { fa.idx } else { fa.idx + 1 };
            let live = match self.live_cache.get(&(fa.fi, fa.b, idx)) {
                Some(l) => l.clone(),
                None => {
                    let mut l = fa.f.live_at(fa.b, idx);
                    if k + 1 < nf {
                        // the pending call's result is not set yet
                        if let Some(d) = fa.f.blocks[fa.b as usize].insts[fa.idx].dst {
                            l[d as usize] = false;
                        }
                    }
                    let l = Rc::new(l);
                    self.live_cache.insert((fa.fi, fa.b, idx), l.clone());
                    l
                }
            };
            let mut env = vec![V::None; fa.env.len()];
            for i in 0..env.len() {
                if live[i] {
                    env[i] = self.ite_v(sel, &fa.env[i], &fb.env[i])?;
                }
            }
            let mut al = fa.allocas.clone();
            for x in &fb.allocas {
                if !al.contains(x) {
                    al.push(*x);
                }
            }
            st.frames.push(Frame { env, allocas: al, ..fa });
        }
        // memory
        let mut ob = b.objs;
        for (id, oa) in a.objs {
            match ob.remove(&id) {
                Some(o2) => {
                    if Rc::ptr_eq(&oa, &o2) {
                        st.objs.insert(id, oa);
                    } else {
                        let o = self.merge_obj(sel, &oa, &o2);
                        st.objs.insert(id, Rc::new(o));
                    }
                }
                None => {
                    let mut o = oa;
                    if o.kind != Kind::Stack && o.kind != Kind::Global {
                        let al = self.cx.and(sel, o.alive);
                        Rc::make_mut(&mut o).alive = al;
                    } else if o.kind == Kind::Global {
                        let g = self.gobj(id)?;
                        o = Rc::new(self.merge_obj(sel, &o, &g));
                    }
                    st.objs.insert(id, o);
                }
            }
        }
        for (id, mut o) in ob {
            if o.kind == Kind::Heap {
                let al = self.cx.and(not(sel), o.alive);
                Rc::make_mut(&mut o).alive = al;
            } else if o.kind == Kind::Global {
                let g = self.gobj(id)?;
                o = Rc::new(self.merge_obj(sel, &g, &o));
            }
            st.objs.insert(id, o);
        }
        self.err_check()?;
        Ok(st)
    }
    fn merge_obj(&mut self, sel: B, a: &Obj, b: &Obj) -> Obj {
        let mut o = a.clone();
        o.alive = self.cx.iteb(sel, a.alive, b.alive);
        let same_base = match (&a.base, &b.base) {
            (Base::Uninit, Base::Uninit) | (Base::Zero, Base::Zero) => true,
            (Base::Bytes(x), Base::Bytes(y)) => Rc::ptr_eq(x, y),
            _ => false,
        };
        if !same_base {
            // one side was zero-filled as a whole
            let ps = self.pieces(b, 0, b.max as u32);
            for (off, n, v) in ps {
                self.obj_store(&mut o, off, n, v, not(sel));
            }
            return o;
        }
        // cells of b that a does not have in this form
        let offs: BTreeSet<u32> = a.cells.keys().chain(b.cells.keys()).cloned().collect();
        for off in offs {
            match (a.cells.get(&off), b.cells.get(&off)) {
                (Some(x), Some(y)) if x.n == y.n => {
                    if x.v == y.v && x.init == y.init {
                        continue;
                    }
                    let v = if y.init == FALSE {
                        x.v
                    } else if x.init == FALSE {
                        y.v
                    } else {
                        self.cx.ite(sel, x.v, y.v)
                    };
                    let init = self.cx.iteb(sel, x.init, y.init);
                    o.cells.insert(off, Cell { n: x.n, v, init });
                }
                (x, y) => {
                    // different layout: rebuild the union range from both sides
                    let n = x.map_or(0, |c| c.n).max(y.map_or(0, |c| c.n));
                    let covered = |m: &BTreeMap<u32, Cell>| m.range(..off + n).next_back().map_or(false, |(k, c)| k + c.n > off);
                    if y.is_none() && !covered(&b.cells) {
                        // only a
                        let c = x.unwrap();
                        let (bv, bi) = self.obj_load(b, off, c.n);
                        let cell = if bi == FALSE {
                            Cell { n: c.n, v: c.v, init: self.cx.and(sel, c.init) }
                        } else {
                            Cell { n: c.n, v: self.cx.ite(sel, c.v, bv), init: self.cx.iteb(sel, c.init, bi) }
                        };
                        o.cells.insert(off, cell);
                    } else if x.is_none() && !covered(&a.cells) {
                        let c = y.unwrap();
                        let (av, ai) = self.obj_load(a, off, c.n);
                        let cell = if ai == FALSE {
                            Cell { n: c.n, v: c.v, init: self.cx.and(not(sel), c.init) }
                        } else {
                            Cell { n: c.n, v: self.cx.ite(sel, av, c.v), init: self.cx.iteb(sel, ai, c.init) }
                        };
                        o.cells.insert(off, cell);
                    } else if let Some(c) = y {
                        // overlapping differently: write b's cell over a's bytes on b's paths
                        let (v, i) = (c.v, c.init);
                        let cn = c.n;
                        self.obj_store(&mut o, off, cn, if i == FALSE { None } else { Some((v, i)) }, not(sel));
                    } else if let Some(c) = x {
                        // a's cell, where b has other cells inside or around: take b's bytes
                        let ps = self.pieces(b, off, c.n);
                        for (rel, n, v) in ps {
                            self.obj_store(&mut o, off + rel, n, v, not(sel));
                        }
                    }
                }
            }
        }
        o
    }
    /// Makes sure that a model of the condition is at hand, if it has one.
    pub fn model_of(&mut self, c: B) {
        if self.cx.recent().all(|w| self.cx.sig(c, w) == 0) {
            let root = Pc(Rc::new(PcN { parent: None, cond: TRUE, depth: 0, all: TRUE, loc: TRUE, split: None, chosen: false, sigs: RefCell::new(vec![]) }));
            self.ask(&root, c);
        }
    }
    pub fn run(&mut self, name: &str) -> R<()> {
        let fi = *self.m.fmap.get(name).ok_or_else(|| Stop::Err(format!("no function {}", name)))?;
        let f = self.func(fi)?;
        let root = Pc(Rc::new(PcN { parent: None, cond: TRUE, depth: 0, all: TRUE, loc: TRUE, split: Some(Rc::new(vec![])), chosen: false, sigs: RefCell::new(vec![]) }));
        let mut st = State { tag: vec![], frames: vec![], objs: BTreeMap::new(), pc: root, nsym: 0, obs: vec![], allow: FALSE };
        self.push_frame(&mut st, f, fi as u32, vec![])?;
        let mut work: BTreeMap<Vec<u32>, State> = BTreeMap::new();
        let mut cur = Some(st);
        loop {
            let st = match cur.take() {
                Some(s) => s,
                None => match work.pop_first() {
                    Some((_, s)) => s,
                    None => break,
                },
            };
            let mut next = self.run_state(st)?;
            self.err_check()?;
            if next.len() == 1 && work.is_empty() {
                cur = next.pop();
                continue;
            }
            if next.len() > 1 {
                self.stats.forks += next.len() as u64 - 1;
            }
            for s in next {
                let k = self.key(&s);
                match work.remove(&k) {
                    Some(o) => {
                        let m = self.merge(o, s)?;
                        work.insert(k, m);
                    }
                    None => {
                        work.insert(k, s);
                    }
                }
            }
            if std::time::Instant::now() > self.deadline {
                // perhaps some input keeps the code running for ever: name one, for the replay
                let n = |s: &State| s.frames.iter().map(|f| f.iters.iter().map(|x| x.1).max().unwrap_or(0)).max().unwrap_or(0);
                if let Some(s) = work.values().max_by_key(|s| n(s)) {
                    let pc = s.pc.clone();
                    let site = self.site(s);
                    return Err(self.violation(&pc, TRUE, "time", format!("time limit of the exploration, in {}", site)));
                }
                return err("time limit of the exploration");
            }
        }
        Ok(())
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, fi: u32, args: Vec<V>) -> R<()> {
        if st.frames.len() > 300 {
            let site = self.site(st);
            let pc = st.pc.clone();
            return Err(self.violation(&pc, TRUE, "nontermination", format!("call depth over 300 at {}", site)));
        }
        let mut env = vec![V::None; f.nlocals as usize];
        for ((_, id), v) in f.params.iter().zip(args) {
            env[*id as usize] = v;
        }
        let iters = f.comps[0].iter().map(|h| (*h, 0)).collect();
        st.frames.push(Frame { f, fi, b: 0, idx: 0, prev: u32::MAX, iters, env, allocas: vec![] });
        Ok(())
    }
    fn set(&mut self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().env[d as usize] = v;
        }
    }
    /// Run until control leaves the block; returns the successor states.
    fn run_state(&mut self, mut st: State) -> R<Vec<State>> {
        loop {
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let ins = &f.blocks[fr.b as usize].insts[fr.idx];
            if let Some(p) = self.prof.as_mut() {
                let now = (std::time::Instant::now(), self.cx.bn.len(), self.cx.en.len());
                if let Some((k, t0)) = p.1.take() {
                    let e = p.0.entry(k).or_insert((0.0, 0, 0, 0));
                    e.0 += now.0.duration_since(t0.0).as_secs_f64();
                    e.1 += now.1 - t0.1;
                    e.2 += now.2 - t0.2;
                    e.3 += 1;
                }
                p.1 = Some(((fr.fi, fr.b, fr.idx as u32), now));
            }
            self.stats.steps += 1;
            if self.stats.steps > self.max_steps {
                return err("step limit of the exploration");
            }
            let d = ins.dst;
            let v = match &ins.k {
                K::Nop => V::Undef,
                K::Bin(op, t, a, b) => {
                    let x = self.get(&st, t, a)?;
                    let y = self.get(&st, t, b)?;
                    if let "udiv" | "urem" | "sdiv" | "srem" = op.as_str() {
                        let e = self.e_of(&y, t)?;
                        let w = self.cx.width(e);
                        let z = self.cx.konst(w, 0);
                        let c = self.cx.eq(e, z);
                        let site = self.site(&st);
                        self.must(&mut st, not(c), "ub", &|| format!("division by zero at {}", site))?;
                    }
                    self.binop(op, t, x, y)?
                }
                K::FNeg(t, a) => {
                    let e = self.get_e(&st, t, a)?;
                    V::E(self.cx.fneg(e))
                }
                K::ICmp(p, t, a, b) => {
                    let x = self.get(&st, t, a)?;
                    let y = self.get(&st, t, b)?;
                    self.icmp(p, t, x, y)?
                }
                K::FCmp(p, t, a, b) => {
                    let x = self.get_e(&st, t, a)?;
                    let y = self.get_e(&st, t, b)?;
                    V::B(self.cx.fcmp(p, x, y))
                }
                K::Select(ct, c, t, a, b) => {
                    let cv = self.get(&st, ct, c)?;
                    let x = self.get(&st, t, a)?;
                    let y = self.get(&st, t, b)?;
                    match cv {
                        V::A(l) => {
                            let mut out = vec![];
                            for (i, c) in l.iter().enumerate() {
                                let cb = self.b_of(c)?;
                                let (V::A(p), V::A(q)) = (&x, &y) else { return err("select") };
                                out.push(self.ite_v(cb, &p[i], &q[i])?);
                            }
                            V::A(Rc::new(out))
                        }
                        c => {
                            let cb = self.b_of(&c)?;
                            self.ite_v(cb, &x, &y)?
                        }
                    }
                }
                K::Alloca(t, n, nt) => {
                    let ne = self.get_e(&st, nt, n)?;
                    let n = self.cx.is_const(ne).ok_or(Stop::Err("alloca size".into()))? as u64;
                    let sz = self.k64(t.size() * n);
                    let a = self.new_obj(&mut st, Kind::Stack, sz, 16, Base::Uninit)?;
                    st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                    V::E(self.k64(a))
                }
                K::Load(t, p) => {
                    let pe = self.get_e(&st, &Ty::Ptr, p)?;
                    match self.load(&mut st, pe, t)? {
                        V::E(e) => V::E(self.settled(st.pc.0.loc, e, 3)),
                        v => v,
                    }
                }
                K::Store(t, v, p) => {
                    let x = self.get(&st, t, v)?;
                    let pe = self.get_e(&st, &Ty::Ptr, p)?;
                    self.store(&mut st, pe, t, x)?;
                    V::Undef
                }
                K::Gep(t, p, ix) => {
                    let b = self.get(&st, &Ty::Ptr, p)?;
                    let mut iv = vec![];
                    for (t, o) in ix {
                        iv.push((t.clone(), self.get(&st, t, o)?));
                    }
                    V::E(self.gep(t, b, iv)?)
                }
                K::Cast(op, f, a, t) => {
                    let x = self.get(&st, f, a)?;
                    self.cast(op, f, x, t)?
                }
                K::ExtractValue(a, ix) => {
                    let mut v = self.get(&st, &Ty::Void, a)?;
                    for &i in ix {
                        v = match v {
                            V::A(l) => l[i].clone(),
                            V::Undef => V::Undef,
                            _ => return err("extractvalue"),
                        };
                    }
                    v
                }
                K::InsertValue(t, a, v, ix) => {
                    let b = self.get(&st, t, a)?;
                    let mut vt = t.clone();
                    for &i in ix {
                        vt = vt.elem(i);
                    }
                    let x = self.get(&st, &vt, v)?;
                    fn ins(b: &V, ix: &[usize], x: V) -> V {
                        if ix.is_empty() {
                            return x;
                        }
                        match b {
                            V::A(l) => {
                                let mut n = (**l).clone();
                                n[ix[0]] = ins(&n[ix[0]], &ix[1..], x);
                                V::A(Rc::new(n))
                            }
                            _ => V::Undef,
                        }
                    }
                    ins(&b, ix, x)
                }
                K::ExtractElem(t, a, i) => {
                    let v = self.get(&st, t, a)?;
                    let ie = self.get_e(&st, &Ty::Int(64), i)?;
                    let k = self.cx.is_const(ie).ok_or(Stop::Err("vector index".into()))? as usize;
                    match v {
                        V::A(l) => l[k].clone(),
                        _ => return err("extractelement"),
                    }
                }
                K::InsertElem(t, a, x, i) => {
                    let v = self.get(&st, t, a)?;
                    let Ty::Vec(_, et) = t else { return err("insertelement") };
                    let xv = self.get(&st, et, x)?;
                    let ie = self.get_e(&st, &Ty::Int(64), i)?;
                    let k = self.cx.is_const(ie).ok_or(Stop::Err("vector index".into()))? as usize;
                    match v {
                        V::A(l) => {
                            let mut n = (*l).clone();
                            n[k] = xv;
                            V::A(Rc::new(n))
                        }
                        _ => return err("insertelement"),
                    }
                }
                K::Shuffle(t, a, b, mt, m) => {
                    let x = self.get(&st, t, a)?;
                    let y = self.get(&st, t, b)?;
                    let mv = self.get(&st, mt, m)?;
                    let (V::A(x), V::A(y), V::A(mv)) = (x, y, mv) else { return err("shufflevector") };
                    let mut out = vec![];
                    for q in mv.iter() {
                        match q {
                            V::E(e) => {
                                let k = self.cx.is_const(*e).unwrap_or(0) as usize;
                                out.push(if k < x.len() { x[k].clone() } else { y[k - x.len()].clone() });
                            }
                            _ => out.push(V::Undef),
                        }
                    }
                    V::A(Rc::new(out))
                }
                K::Freeze(t, a) => self.get(&st, t, a)?,
                K::AtomicRmw(op, p, t, v) => {
                    let pe = self.get_e(&st, &Ty::Ptr, p)?;
                    let old = self.load(&mut st, pe, t)?;
                    let x = self.get(&st, t, v)?;
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" | "sub" | "and" | "or" | "xor" => self.binop(op, t, old.clone(), x)?,
                        "umax" | "umin" | "max" | "min" => {
                            let p = match op.as_str() {
                                "umax" => "ugt",
                                "umin" => "ult",
                                "max" => "sgt",
                                _ => "slt",
                            };
                            let c = self.icmp(p, t, old.clone(), x.clone())?;
                            let c = self.b_of(&c)?;
                            self.ite_v(c, &old, &x)?
                        }
                        _ => return err(format!("atomicrmw {}", op)),
                    };
                    self.store(&mut st, pe, t, new)?;
                    old
                }
                K::CmpXchg(p, t, a, b) => {
                    let pe = self.get_e(&st, &Ty::Ptr, p)?;
                    let old = self.load(&mut st, pe, t)?;
                    let x = self.get(&st, t, a)?;
                    let y = self.get(&st, t, b)?;
                    let c = self.icmp("eq", t, old.clone(), x)?;
                    let cb = self.b_of(&c)?;
                    let new = self.ite_v(cb, &y, &old)?;
                    self.store(&mut st, pe, t, new)?;
                    V::A(Rc::new(vec![old, c]))
                }
                K::Call { ret, callee, args, noreturn } => {
                    match self.call(st, d, ret, callee, args, *noreturn)? {
                        Next::Same(s) => {
                            st = s;
                            continue;
                        }
                        Next::States(v) => return Ok(v),
                    }
                }
                K::Ret(v) => {
                    let r = match v {
                        Some((t, o)) => self.get(&st, t, o)?,
                        None => V::Undef,
                    };
                    let fr = st.frames.pop().unwrap();
                    for id in fr.allocas {
                        st.objs.remove(&id);
                    }
                    if st.frames.is_empty() {
                        self.stats.ends += 1;
                        self.finals.push((st.pc.0.all, st.obs.clone()));
                        return Ok(vec![]);
                    }
                    let fr = st.frames.last_mut().unwrap();
                    let dst = fr.f.blocks[fr.b as usize].insts[fr.idx].dst;
                    fr.idx += 1;
                    self.set(&mut st, dst, r);
                    return Ok(vec![st]);
                }
                K::Br(t) => {
                    self.jump(&mut st, *t)?;
                    return Ok(vec![st]);
                }
                K::CondBr(c, t, e) => {
                    let cv = self.get(&st, &Ty::Int(1), c)?;
                    let cb = self.b_of(&cv)?;
                    self.err_check()?;
                    if *t == *e {
                        self.jump(&mut st, *t)?;
                        return Ok(vec![st]);
                    }
                    return self.branch(st, vec![(cb, *t), (not(cb), *e)]);
                }
                K::Switch(t, v, def, cs) => {
                    let e = self.get_e(&st, t, v)?;
                    let w = self.cx.width(e);
                    let mut l: Vec<(B, u32)> = vec![];
                    let mut rest = TRUE;
                    for (k, b) in cs {
                        let kc = self.cx.konst(w, *k);
                        let g = self.cx.eq(e, kc);
                        rest = self.cx.and(rest, not(g));
                        match l.iter_mut().find(|x| x.1 == *b) {
                            Some(x) => x.0 = self.cx.or(x.0, g),
                            None => l.push((g, *b)),
                        }
                    }
                    match l.iter_mut().find(|x| x.1 == *def) {
                        Some(x) => x.0 = self.cx.or(x.0, rest),
                        None => l.push((rest, *def)),
                    }
                    return self.branch(st, l);
                }
                K::Unreachable => {
                    let site = self.site(&st);
                    let pc = st.pc.clone();
                    return Err(self.violation(&pc, TRUE, "ub", format!("unreachable code reached in {}", site)));
                }
                K::Resume => return err("unwinding"),
            };
            self.set(&mut st, d, v);
            st.frames.last_mut().unwrap().idx += 1;
        }
    }
    /// After a branch: registers that hold uninitialised data on the other side only.
    fn settle(&mut self, s: &mut State) {
        let loc = s.pc.0.loc;
        for i in 0..s.frames.last().unwrap().env.len() {
            if let V::E(e) = s.frames.last().unwrap().env[i] {
                let x = self.settled(loc, e, 3);
                if x != e {
                    s.frames.last_mut().unwrap().env[i] = V::E(x);
                }
            }
        }
    }
    fn settled(&mut self, loc: B, e: E, d: u32) -> E {
        if !self.cx.e_tainted(e) {
            return e;
        }
        match self.cx.en[e as usize] {
            EN::Ite(c, a, b) => {
                if self.cx.and(loc, not(c)) == FALSE {
                    self.settled(loc, a, d)
                } else if self.cx.and(loc, c) == FALSE {
                    self.settled(loc, b, d)
                } else {
                    e
                }
            }
            EN::Bin(Op::Add, a, b) if d > 0 => {
                let (x, y) = (self.settled(loc, a, d - 1), self.settled(loc, b, d - 1));
                if (x, y) == (a, b) {
                    e
                } else {
                    self.cx.bin(Op::Add, x, y)
                }
            }
            _ => e,
        }
    }
    fn branch(&mut self, st: State, l: Vec<(B, u32)>) -> R<Vec<State>> {
        let f = st.frames.last().unwrap().f.clone();
        let mut live: Vec<(B, u32)> = vec![];
        for (g, b) in l {
            if g == FALSE {
                continue;
            }
            if self.cx.b_tainted(g) {
                let site = self.site(&st);
                let pc = st.pc.clone();
                let t = self.cx.twin_b(g);
                let same = self.cx.iff(g, t);
                self.defined(&pc, same, &|| format!("branch on uninitialised data in {}", site))?;
            }
            let pc = st.pc.clone();
            let r = self.prune(&pc, g);
            match r {
                Some(false) => {}
                _ => {
                    // code that ends in a panic is entered on a decided answer only; an
                    // undecided one becomes an obligation for the SMT solver
                    if r.is_none() && self.dead_end(&f, b) {
                        let x = self.cx.and(pc.0.all, g);
                        let site = self.site(&st);
                        self.open(format!("panic or unreachable code in {}", site), x);
                        continue;
                    }
                    live.push((g, b))
                }
            }
        }
        if live.is_empty() {
            return Ok(vec![]);
        }
        if live.len() == 1 {
            let mut s = st;
            // the other sides were refuted, so the condition is implied here
            self.jump(&mut s, live[0].1)?;
            return Ok(vec![s]);
        }
        let mut out = vec![];
        for (g, b) in live {
            let mut s = st.clone();
            s.pc = self.pc_push(&s.pc.clone(), g);
            self.settle(&mut s);
            self.jump(&mut s, b)?;
            out.push(s);
        }
        Ok(out)
    }
    fn dead_end(&self, f: &Func, b: u32) -> bool {
        matches!(f.blocks[b as usize].insts.last().map(|x| &x.k), Some(K::Unreachable))
    }
}

enum Next {
    Same(State),
    States(Vec<State>),
}

pub fn short(n: &str) -> String {
    // readable enough without a demangler: the identifiers of a v0 name
    let b = n.as_bytes();
    let mut out: Vec<&str> = vec![];
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 0 && j + k <= b.len() && k < 60 {
                let id = &n[j..j + k];
                if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && id.bytes().any(|c| c.is_ascii_alphabetic()) {
                    out.push(id);
                    i = j + k;
                    continue;
                }
            }
        }
        if b[i] == b's' || b[i] == b'B' {
            // base-62 disambiguator or back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    let l = out.len();
    if l > 4 {
        format!("{}::..::{}", out[0], out[l - 2..].join("::"))
    } else {
        out.join("::")
    }
}

include!("builtins.rs");
