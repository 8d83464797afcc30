// Calls: harness primitives, the allocator, LLVM intrinsics and the functions whose
// behaviour is outside the code under test.

impl Engine {
    fn handler(&mut self, fi: u32) -> Bi {
        if let Some(&b) = self.handlers.get(&fi) {
            return b;
        }
        let f = &self.m.funcs[fi as usize];
        let n = f.name.as_str();
        let b = if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
            Bi::Memcpy
        } else if n.starts_with("llvm.memset") {
            Bi::Memset
        } else if n.starts_with("llvm.") {
            Bi::Llvm
        } else if n.ends_with("___rust_alloc") {
            Bi::Alloc
        } else if n.ends_with("___rust_alloc_zeroed") {
            Bi::AllocZeroed
        } else if n.ends_with("___rust_realloc") {
            Bi::Realloc
        } else if n.ends_with("___rust_dealloc") {
            Bi::Dealloc
        } else if n.ends_with("__rust_no_alloc_shim_is_unstable_v2") || n.ends_with("__rust_no_alloc_shim_is_unstable") {
            Bi::Nop
        } else if n.contains("hashmap_random_keys") {
            Bi::RandomKeys
        } else if n.starts_with("_RNvNt") && n.ends_with("_4core3fmt5write") {
            Bi::FmtWrite
        } else if n.contains("5stdio6__print") || n.contains("5stdio7__eprint") {
            Bi::Nop
        } else {
            match n {
                "sym_int" => Bi::SymInt,
                "sym_wide" => Bi::SymWide,
                "sym_bits" => Bi::SymBits,
                "sym_assume" => Bi::SymAssume,
                "sym_assert" => Bi::SymAssert,
                "sym_observe" => Bi::SymObserve,
                "sym_reach" => Bi::SymReach,
                "sym_allow_panic" => Bi::SymAllowPanic,
                "sym_split" => Bi::SymSplit,
                "sym_alloc" => Bi::Alloc,
                "sym_alloc_zeroed" => Bi::AllocZeroed,
                "sym_realloc" => Bi::Realloc,
                "sym_dealloc" => Bi::Dealloc,
                "memcmp" => Bi::Memcmp,
                "bcmp" => Bi::Bcmp,
                "memcpy" | "memmove" => Bi::Memcpy,
                "memset" => Bi::Memset,
                "sqrt" => Bi::Sqrt,
                "strlen" => Bi::Strlen,
                _ if libm1(n).is_some() => Bi::Libm1(libm1(n).unwrap()),
                _ if libm2(n).is_some() => Bi::Libm2(libm2(n).unwrap()),
                _ => {
                    if f.noreturn {
                        Bi::Panic
                    } else {
                        Bi::None
                    }
                }
            }
        };
        self.handlers.insert(fi, b);
        b
    }
    fn cint(&mut self, e: E, what: &str) -> R<i128> {
        let w = self.cx.width(e);
        match self.cx.is_const(e) {
            Some(v) => Ok(sgn(v, w)),
            None => err(format!("{} must be a constant", what)),
        }
    }
    fn call(&mut self, mut st: State, d: Option<u32>, ret: &Ty, callee: &O, args: &[(Ty, O)], noreturn: bool) -> R<Next> {
        // target
        let fi = match callee {
            O::C(c) if matches!(**c, C::Global(_)) => {
                let C::Global(n) = &**c else { unreachable!() };
                let mut n = n.clone();
                while let Some(a) = self.m.aliases.get(&n) {
                    n = a.clone();
                }
                match self.m.fmap.get(&n) {
                    Some(&i) => i as u32,
                    None => return err(format!("call of unknown {}", n)),
                }
            }
            _ => {
                let p = self.get_e(&st, &Ty::Ptr, callee)?;
                let l = self.enumerate(&st.pc.clone(), p)?;
                if l.len() > 1 {
                    // one state per target
                    let mut out = vec![];
                    for &(a, g) in l.iter() {
                        let mut s = st.clone();
                        s.pc = self.pc_push(&s.pc.clone(), g);
                        // pin the pointer
                        let k = self.k64(a as u64);
                        if let O::L(i) = callee {
                            s.frames.last_mut().unwrap().env[*i as usize] = V::E(k);
                        }
                        let r = self.call(s, d, ret, callee, args, noreturn)?;
                        match r {
                            Next::Same(s) => out.push(s),
                            Next::States(v) => out.extend(v),
                        }
                    }
                    return Ok(Next::States(out));
                }
                let id = (l[0].0 as u64 >> 32) as u32;
                if id < FUNC || id >= DYN || l[0].0 & 0xffff_ffff != 0 {
                    let site = self.site(&st);
                    let pc = st.pc.clone();
                    return Err(self.violation(&pc, TRUE, "ub", format!("call through an invalid pointer at {}", site)));
                }
                id - FUNC
            }
        };
        let mut h = self.handler(fi);
        if h == Bi::FmtWrite {
            // formatting that goes to stdout or stderr has no effect; any other is executed
            h = Bi::None;
            let vt = self.get_e(&st, &Ty::Ptr, &args[1].1)?;
            if let Some(a) = self.cx.is_const(vt) {
                let id = (a >> 32) as u32;
                if id >= GLOB && id < FUNC {
                    if let Some(C::Agg(fs)) = &self.m.globals[(id - GLOB) as usize].init {
                        if fs.iter().any(|(_, c)| matches!(c, C::Global(n) if n.contains("5stdio") && n.contains("Std"))) {
                            h = Bi::Success;
                        }
                    }
                }
            }
        }
        if h == Bi::None {
            if !self.m.funcs[fi as usize].defined {
                return err(format!("call of external function {} at {}", self.m.funcs[fi as usize].name, self.site(&st)));
            }
            let mut av = vec![];
            for (t, o) in args {
                av.push(self.get(&st, t, o)?);
            }
            let f = self.func(fi as usize)?;
            self.push_frame(&mut st, f, fi, av)?;
            return Ok(Next::Same(st));
        }
        if h == Bi::Panic || noreturn {
            let name = short(&self.m.funcs[fi as usize].name);
            let site = self.site(&st);
            let pc = st.pc.clone();
            if st.allow != FALSE {
                match self.sat(&pc, not(st.allow)) {
                    Some(true) => {}
                    r => {
                        if r.is_none() {
                            let x = self.cx.and(pc.0.all, not(st.allow));
                            self.open(format!("panic outside the allowed inputs at {}", site), x);
                        } else {
                            self.checks += 1;
                        }
                        self.stats.panics_ok += 1;
                        return Ok(Next::States(vec![]));
                    }
                }
                let na = not(st.allow);
                return Err(self.violation(&pc, na, "panic", format!("{} at {}", name, site)));
            }
            // the state is feasible unless some earlier answer was undecided
            return match self.try_violation(&pc, "panic", format!("{} at {}", name, site))? {
                Some(v) => Err(v),
                None => Ok(Next::States(vec![])),
            };
        }
        let mut a = vec![];
        for (t, o) in args {
            if *t == Ty::Meta {
                continue;
            }
            a.push(self.get(&st, t, o)?);
        }
        let v = match h {
            Bi::Nop => V::Undef,
            Bi::Success => V::B(FALSE),
            Bi::Alloc | Bi::AllocZeroed => {
                let sz = self.e_of(&a[0], &Ty::Int(64))?;
                let al = self.e_of(&a[1], &Ty::Int(64))?;
                let al = self.cx.is_const(al).unwrap_or(16) as u64;
                let base = if h == Bi::Alloc { Base::Uninit } else { Base::Zero };
                let p = self.new_obj(&mut st, Kind::Heap, sz, al, base)?;
                V::E(self.k64(p))
            }
            Bi::Dealloc => {
                let p = self.e_of(&a[0], &Ty::Ptr)?;
                self.free(&mut st, p)?;
                V::Undef
            }
            Bi::Realloc => {
                let p = self.e_of(&a[0], &Ty::Ptr)?;
                let osz = self.e_of(&a[1], &Ty::Int(64))?;
                let nsz = self.e_of(&a[3], &Ty::Int(64))?;
                let q = self.new_obj(&mut st, Kind::Heap, nsz, 16, Base::Uninit)?;
                let qe = self.k64(q);
                let lt = self.cx.ult(osz, nsz);
                let n = self.cx.ite(lt, osz, nsz);
                self.copy(&mut st, qe, p, n)?;
                self.free(&mut st, p)?;
                V::E(qe)
            }
            Bi::RandomKeys => {
                let x = V::E(self.k64(0x0123_4567_89ab_cdef));
                let y = V::E(self.k64(0xfedc_ba98_7654_3210));
                V::A(Rc::new(vec![x, y]))
            }
            Bi::Memcpy => {
                let dst = self.e_of(&a[0], &Ty::Ptr)?;
                let src = self.e_of(&a[1], &Ty::Ptr)?;
                let n = self.e_of(&a[2], &Ty::Int(64))?;
                let n = self.cx.zext(n, 64);
                self.copy(&mut st, dst, src, n)?;
                a[0].clone()
            }
            Bi::Memset => {
                let dst = self.e_of(&a[0], &Ty::Ptr)?;
                let b = self.e_of(&a[1], &Ty::Int(8))?;
                let b = self.cx.extract(b, 0, 8);
                let n = self.e_of(&a[2], &Ty::Int(64))?;
                let n = self.cx.zext(n, 64);
                self.fill(&mut st, dst, b, n)?;
                a[0].clone()
            }
            Bi::Memcmp | Bi::Bcmp => {
                let p = self.e_of(&a[0], &Ty::Ptr)?;
                let q = self.e_of(&a[1], &Ty::Ptr)?;
                let n = self.e_of(&a[2], &Ty::Int(64))?;
                V::E(self.memcmp(&mut st, p, q, n, h == Bi::Memcmp)?)
            }
            Bi::Strlen => return err("strlen"),
            Bi::Sqrt => {
                let e = self.e_of(&a[0], &Ty::F64)?;
                V::E(self.cx.fun1(FOp::Sqrt, e))
            }
            Bi::Libm1(f) => {
                let e = self.e_of(&a[0], &Ty::F64)?;
                V::E(self.libm1(f, e)?)
            }
            Bi::Libm2(f) => {
                let x = self.e_of(&a[0], &Ty::F64)?;
                let y = self.e_of(&a[1], &Ty::F64)?;
                V::E(self.libm2(f, x, y)?)
            }
            Bi::SymInt | Bi::SymWide => {
                let lo = self.e_of(&a[0], &Ty::Int(64))?;
                let hi = self.e_of(&a[1], &Ty::Int(64))?;
                let (lo, hi) = (self.cint(lo, "bound")?, self.cint(hi, "bound")?);
                let i = st.nsym;
                st.nsym += 1;
                if self.syms.len() <= i {
                    let e = self.declare(lo, hi, h == Bi::SymWide);
                    self.syms.push(Sym { e, lo, hi });
                } else if self.syms[i].lo != lo || self.syms[i].hi != hi {
                    return err("symbolic values are declared differently on different paths");
                }
                let e = self.syms[i].e;
                let (elo, ehi) = self.cx.range(e);
                if elo < lo || ehi > hi {
                    let l = self.cx.konst(64, lo as u128);
                    let u = self.cx.konst(64, hi as u128);
                    let c1 = self.cx.sle(l, e);
                    let c2 = self.cx.sle(e, u);
                    let c = self.cx.and(c1, c2);
                    st.pc = self.pc_push(&st.pc.clone(), c);
                }
                V::E(e)
            }
            Bi::SymBits => {
                let w = self.e_of(&a[0], &Ty::Int(64))?;
                let w = self.cint(w, "width")? as u32;
                let i = st.nsym;
                st.nsym += 1;
                if self.syms.len() <= i {
                    let e = self.cx.evar(w);
                    let e = self.cx.zext(e, 64);
                    self.syms.push(Sym { e, lo: 0, hi: mask(w) as i128 });
                }
                V::E(self.syms[i].e)
            }
            Bi::SymAssume => {
                let c = self.b_of(&a[0])?;
                self.err_check()?;
                if !self.feasible(&st.pc.clone(), c) {
                    return Ok(Next::States(vec![]));
                }
                st.pc = self.pc_push(&st.pc.clone(), c);
                V::Undef
            }
            Bi::SymAssert => {
                let c = self.b_of(&a[0])?;
                let code = self.e_of(&a[1], &Ty::Int(32))?;
                // LLVM may have merged assertions, leaving the code to depend on the path
                let codes: Vec<u32> = match self.cx.is_const(code) {
                    Some(v) => vec![v as u32],
                    None => self.enumerate(&st.pc.clone(), code)?.iter().map(|x| x.0 as u32).collect(),
                };
                self.asserts += 1;
                self.assert_sites.extend(codes.iter().copied());
                let code = codes.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("/");
                self.must(&mut st, c, "assert", &|| format!("assertion {}", code))?;
                if c == FALSE {
                    return Ok(Next::States(vec![]));
                }
                V::Undef
            }
            Bi::SymObserve => {
                let e = self.e_of(&a[0], &Ty::Int(64))?;
                st.obs.push(e);
                V::Undef
            }
            Bi::SymReach => {
                let code = self.e_of(&a[0], &Ty::Int(32))?;
                let code = self.cint(code, "code")? as u32;
                *self.reached.entry(code).or_insert(0) += 1;
                V::Undef
            }
            Bi::SymAllowPanic => {
                let c = self.b_of(&a[0])?;
                st.allow = c;
                V::Undef
            }
            Bi::SymSplit => {
                let e = self.e_of(&a[0], &Ty::Int(64))?;
                let l = self.enumerate(&st.pc.clone(), e)?;
                self.seq += 1;
                let mut out = vec![];
                for &(v, g) in l.iter() {
                    let mut s = st.clone();
                    if l.len() > 1 {
                        s.pc = self.pc_split(&s.pc.clone(), g);
                    }
                    s.tag.push(v as u32 + 1);
                    let k = self.k64(v as u64);
                    self.set(&mut s, d, V::E(k));
                    s.frames.last_mut().unwrap().idx += 1;
                    out.push(s);
                }
                return Ok(Next::States(out));
            }
            Bi::Llvm => {
                let name = self.m.funcs[fi as usize].name.clone();
                self.intrinsic(&mut st, &name, ret, args, a)?
            }
            _ => return err("builtin"),
        };
        self.set(&mut st, d, v);
        st.frames.last_mut().unwrap().idx += 1;
        Ok(Next::Same(st))
    }
    fn try_violation(&mut self, pc: &Pc, kind: &str, msg: String) -> R<Option<Stop>> {
        for w in self.cx.recent() {
            if self.pc_sig(pc, w) != 0 {
                return Ok(Some(self.violation(pc, TRUE, kind, msg)));
            }
        }
        match self.ask(pc, TRUE) {
            Some(true) => return Ok(Some(self.violation(pc, TRUE, kind, msg))),
            Some(false) => return Ok(None),
            None => {}
        }
        // leave it to the SMT solver
        self.open(format!("{}: {}", kind, msg), pc.0.all);
        Ok(None)
    }
    fn declare(&mut self, lo: i128, hi: i128, wide: bool) -> E {
        let n = (hi - lo + 1) as usize;
        if n == 1 {
            return self.cx.konst(64, lo as u128);
        }
        if n <= 64 && !wide {
            let mut k = 0;
            while 1usize << k < n {
                k += 1;
            }
            let bs: Vec<B> = (0..k).map(|_| self.cx.bvar()).collect();
            let mut l = vec![];
            for c in 0..1usize << k {
                let mut g = TRUE;
                for (i, b) in bs.iter().enumerate() {
                    g = self.cx.and(g, if c >> i & 1 == 1 { *b } else { not(*b) });
                }
                l.push((((lo + (c % n) as i128) as u128) & mask(64), g));
            }
            return self.cx.cases(64, l);
        }
        let w = bits_for(lo, hi);
        let v = self.cx.evar(w);
        self.cx.sext(v, 64)
    }
    fn memcmp(&mut self, st: &mut State, p: E, q: E, n: E, order: bool) -> R<E> {
        let ll = self.enumerate(&st.pc.clone(), n)?;
        let max = ll.iter().map(|x| x.0).max().unwrap() as u64;
        let z = self.cx.konst(32, 0);
        let mut r = z;
        // results for each length, built from the longest prefix backwards
        let mut eqs = vec![];
        let mut lts = vec![];
        for i in 0..max {
            // a byte is only read where some length covers it
            let mut g = FALSE;
            for (l, h) in ll.iter() {
                if *l as u64 > i {
                    g = self.cx.or(g, *h);
                }
            }
            let mut s2 = st.clone();
            s2.pc = self.pc_push(&s2.pc.clone(), g);
            let a = self.off(p, i);
            let b = self.off(q, i);
            let x = self.load_raw(&mut s2, a, 1, "memcmp")?;
            let y = self.load_raw(&mut s2, b, 1, "memcmp")?;
            eqs.push(self.cx.eq(x, y));
            lts.push(if order { self.cx.ult(x, y) } else { TRUE });
        }
        let one = self.cx.konst(32, 1);
        let m1 = self.cx.konst(32, mask(32));
        for i in (0..max as usize).rev() {
            // value of the comparison starting at byte i, for lengths > i
            let mut g = FALSE;
            for (l, h) in ll.iter() {
                if *l as usize > i {
                    g = self.cx.or(g, *h);
                }
            }
            let df = if order { self.cx.ite(lts[i], m1, one) } else { one };
            let t = self.cx.ite(eqs[i], r, df);
            r = self.cx.ite(g, t, z);
        }
        Ok(r)
    }
    fn minmax(&mut self, p: &str, ty: &Ty, a: &V, b: &V) -> R<V> {
        let c = self.icmp(p, ty, a.clone(), b.clone())?;
        match (&c, a, b) {
            (V::A(cs), V::A(x), V::A(y)) => {
                let mut v = vec![];
                for i in 0..cs.len() {
                    let cb = self.b_of(&cs[i])?;
                    v.push(self.ite_v(cb, &x[i], &y[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let cb = self.b_of(&c)?;
                self.ite_v(cb, a, b)
            }
        }
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, O)], a: Vec<V>) -> R<V> {
        let n = &name[5..];
        let base = n.rsplit_once('.').map_or(n, |x| x.0);
        let ty = args.get(0).map(|x| x.0.clone()).unwrap_or(Ty::Void);
        if n.starts_with("lifetime")
            || n.starts_with("assume")
            || n.starts_with("experimental.noalias")
            || n.starts_with("invariant")
            || n.starts_with("donothing")
            || n.starts_with("dbg")
            || n.starts_with("prefetch")
            || n.starts_with("x86.sse2.pause")
        {
            return Ok(V::Undef);
        }
        if n.starts_with("is.constant") {
            return Ok(V::B(FALSE));
        }
        if n.starts_with("expect") || n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip.invariant") || n.starts_with("ssa.copy") {
            return Ok(a[0].clone());
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            let site = self.site(st);
            let pc = st.pc.clone();
            return Err(self.violation(&pc, TRUE, "panic", format!("trap in {}", site)));
        }
        if n.contains(".with.overflow") {
            let x = self.e_of(&a[0], &ty)?;
            let y = self.e_of(&a[1], &ty)?;
            let w = self.cx.width(x);
            if w > 64 {
                return err("wide overflow arithmetic");
            }
            let signed = n.starts_with('s');
            let op = match &n[1..4] {
                "add" => Op::Add,
                "sub" => Op::Sub,
                _ => Op::Mul,
            };
            let r = self.cx.bin(op, x, y);
            let o = match (op, signed) {
                (Op::Sub, false) => self.cx.ult(x, y),
                (Op::Add, false) => self.cx.ult(r, x),
                _ => {
                    let w2 = if op == Op::Mul { w * 2 } else { w + 1 };
                    let (p, q) = if signed { (self.cx.sext(x, w2), self.cx.sext(y, w2)) } else { (self.cx.zext(x, w2), self.cx.zext(y, w2)) };
                    let full = self.cx.bin(op, p, q);
                    let lo = self.cx.extract(full, 0, w);
                    let back = if signed { self.cx.sext(lo, w2) } else { self.cx.zext(lo, w2) };
                    not(self.cx.eq(full, back))
                }
            };
            return Ok(V::A(Rc::new(vec![V::E(r), V::B(o)])));
        }
        match base {
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => "ult",
                    "umax" => "ugt",
                    "smin" => "slt",
                    _ => "sgt",
                };
                return self.minmax(p, &ty, &a[0], &a[1]);
            }
            "abs" => {
                let x = self.e_of(&a[0], &ty)?;
                let w = self.cx.width(x);
                let z = self.cx.konst(w, 0);
                let ng = self.cx.bin(Op::Sub, z, x);
                let s = self.cx.slt(x, z);
                return Ok(V::E(self.cx.ite(s, ng, x)));
            }
            "usub.sat" | "uadd.sat" => {
                if let V::A(_) = a[0] {
                    let Ty::Vec(_, t) = &ty else { return err("sat") };
                    let t = (**t).clone();
                    return self.vzip(&a[0], &a[1], &mut |s, x, y| {
                        let x = s.e_of(x, &t)?;
                        let y = s.e_of(y, &t)?;
                        Ok(V::E(s.sat_arith(base == "usub.sat", x, y)))
                    });
                }
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                return Ok(V::E(self.sat_arith(base == "usub.sat", x, y)));
            }
            "ctpop" | "cttz" | "ctlz" => {
                let x = self.e_of(&a[0], &ty)?;
                let w = self.cx.width(x);
                if let Some(l) = self.cx.leaves(x) {
                    let l = l
                        .into_iter()
                        .map(|(v, g)| {
                            let k = match base {
                                "ctpop" => v.count_ones(),
                                "cttz" => v.trailing_zeros().min(w),
                                _ => w - (128 - v.leading_zeros()),
                            };
                            (k as u128, g)
                        })
                        .collect();
                    return Ok(V::E(self.cx.cases(w, l)));
                }
                if base == "ctpop" {
                    let mut s = self.cx.konst(w, 0);
                    for i in 0..w {
                        let b = self.cx.bit(x, i);
                        let e = self.cx.of_bool(b, w);
                        s = self.cx.add(s, e);
                    }
                    return Ok(V::E(s));
                }
                let mut r = self.cx.konst(w, w as u128);
                for k in (0..w).rev() {
                    let i = if base == "cttz" { k } else { w - 1 - k };
                    let b = self.cx.bit(x, i);
                    let c = self.cx.konst(w, k as u128);
                    r = self.cx.ite(b, c, r);
                }
                return Ok(V::E(r));
            }
            "bswap" | "bitreverse" => {
                let x = self.e_of(&a[0], &ty)?;
                let w = self.cx.width(x);
                let s = if base == "bswap" { 8 } else { 1 };
                let mut r: Option<E> = None;
                let mut i = 0;
                while i < w {
                    let p = self.cx.extract(x, i, s);
                    r = Some(match r {
                        None => p,
                        Some(h) => self.cx.concat(h, p),
                    });
                    i += s;
                }
                return Ok(V::E(r.unwrap()));
            }
            "fshl" | "fshr" => {
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                let z = self.e_of(&a[2], &ty)?;
                let w = self.cx.width(x);
                if let Some(k) = self.cx.is_const(z) {
                    let k = (k % w as u128) as u32;
                    if k == 0 {
                        return Ok(V::E(if base == "fshl" { x } else { y }));
                    }
                    let k = if base == "fshl" { k } else { w - k };
                    // top w bits of (x:y) << k
                    let hi = self.cx.extract(x, 0, w - k);
                    let lo = self.cx.extract(y, w - k, k);
                    return Ok(V::E(self.cx.concat(hi, lo)));
                }
                return err("funnel shift by a symbolic amount");
            }
            "ptrmask" => {
                let x = self.e_of(&a[0], &Ty::Ptr)?;
                let y = self.e_of(&a[1], &Ty::Int(64))?;
                return Ok(V::E(self.cx.bin(Op::And, x, y)));
            }
            "sqrt" | "floor" | "ceil" | "trunc" | "round" | "fabs" | "rint" | "nearbyint" if ty == Ty::F64 || ty == Ty::F32 => {
                let x = self.e_of(&a[0], &ty)?;
                let r = match base {
                    "sqrt" => self.cx.fun1(FOp::Sqrt, x),
                    "floor" => self.cx.fun1(FOp::Floor, x),
                    "ceil" => self.cx.fun1(FOp::Ceil, x),
                    "trunc" => self.cx.fun1(FOp::Trunc, x),
                    "round" => self.cx.fun1(FOp::Round, x),
                    "fabs" => self.cx.fabs(x),
                    _ => return err(name.to_string()),
                };
                return Ok(V::E(if ty == Ty::F32 { self.to_single(r)? } else { r }));
            }
            "copysign" if ty == Ty::F64 => {
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                if let Ok(r) = self.libm2(f64::copysign, x, y) {
                    return Ok(V::E(r));
                }
                let p = self.cx.fabs(x);
                let m = self.cx.fneg(p);
                let s = self.cx.fsign(y);
                return Ok(V::E(self.cx.ite(s, m, p)));
            }
            "powi" if ty == Ty::F64 => {
                let x = self.e_of(&a[0], &ty)?;
                let k = self.e_of(&a[1], &Ty::Int(32))?;
                let k = self.cint(k, "exponent")? as i32;
                if self.cx.leaves(x).is_some() {
                    return Ok(V::E(self.cx.map1(x, 64, &|v| f64::from_bits(v as u64).powi(k).to_bits() as u128).unwrap()));
                }
                if !(0..=8).contains(&k) {
                    return err("powi");
                }
                // by repeated squaring, as the run-time library does
                let mut r = self.cx.konst(64, 1f64.to_bits() as u128);
                let (mut b, mut k) = (x, k);
                while k > 0 {
                    if k & 1 == 1 {
                        r = self.cx.fbin(FOp::Mul, r, b);
                    }
                    b = self.cx.fbin(FOp::Mul, b, b);
                    k >>= 1;
                }
                return Ok(V::E(r));
            }
            "fma" | "fmuladd" if ty == Ty::F64 => {
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                let z = self.e_of(&a[2], &ty)?;
                if [x, y, z].iter().all(|e| self.cx.is_intf(*e)) {
                    let p = self.cx.fbin(FOp::Mul, x, y);
                    return Ok(V::E(self.cx.fbin(FOp::Add, p, z)));
                }
                return err("fused multiplication of fractions");
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "minimum" | "maximum" if ty == Ty::F64 => {
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                let c = self.cx.fcmp(if base.starts_with("min") { "olt" } else { "ogt" }, x, y);
                let ny = self.cx.fcmp("uno", y, y);
                let pick = self.cx.or(c, ny);
                return Ok(V::E(self.cx.ite(pick, x, y)));
            }
            _ => {}
        }
        if ty == Ty::F64 {
            if let Some(f) = libm1(base) {
                let x = self.e_of(&a[0], &ty)?;
                return Ok(V::E(self.libm1(f, x)?));
            }
            if let Some(f) = libm2(base) {
                let x = self.e_of(&a[0], &ty)?;
                let y = self.e_of(&a[1], &ty)?;
                return Ok(V::E(self.libm2(f, x, y)?));
            }
        }
        if n.starts_with("scmp") || n.starts_with("ucmp") {
            let x = self.e_of(&a[0], &ty)?;
            let y = self.e_of(&a[1], &ty)?;
            let w = match ret {
                Ty::Int(w) => *w,
                _ => return err("cmp"),
            };
            let (l, e) = if n.starts_with('s') { (self.cx.slt(x, y), self.cx.eq(x, y)) } else { (self.cx.ult(x, y), self.cx.eq(x, y)) };
            let le = self.cx.or(l, e);
            let c = vec![(mask(w), l), (0, e), (1, not(le))];
            return Ok(V::E(self.cx.cases(w, c)));
        }
        if n.starts_with("fptosi.sat") || n.starts_with("fptoui.sat") {
            let x = self.e_of(&a[0], &ty)?;
            let w = match ret {
                Ty::Int(w) => *w,
                _ => return err("fpto"),
            };
            return Ok(V::E(self.cx.f_to_int(x, w, n.starts_with("fptosi"), true)));
        }
        if n.starts_with("vector.reduce.or") || n.starts_with("vector.reduce.and") || n.starts_with("vector.reduce.add") {
            if let (V::A(l), Ty::Vec(_, t)) = (&a[0], &ty) {
                let op = if n.contains(".or") {
                    "or"
                } else if n.contains(".and") {
                    "and"
                } else {
                    "add"
                };
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = self.binop(op, t, r, x.clone())?;
                }
                return Ok(r);
            }
        }
        err(format!("intrinsic {} at {}", name, self.site(st)))
    }
    fn libm1(&mut self, f: fn(f64) -> f64, e: E) -> R<E> {
        let e = self.cx.as_leaves(e);
        match self.cx.map1(e, 64, &|v| f(f64::from_bits(v as u64)).to_bits() as u128) {
            Some(r) => Ok(r),
            None => err("a transcendental function of more values than can be listed"),
        }
    }
    fn libm2(&mut self, f: fn(f64, f64) -> f64, x: E, y: E) -> R<E> {
        let (x, y) = (self.cx.as_leaves(x), self.cx.as_leaves(y));
        match self.cx.map2(x, y, 64, &|v, w| f(f64::from_bits(v as u64), f64::from_bits(w as u64)).to_bits() as u128) {
            Some(r) => Ok(r),
            None => err("a transcendental function of more values than can be listed"),
        }
    }
    fn sat_arith(&mut self, sub: bool, x: E, y: E) -> E {
        let w = self.cx.width(x);
        if sub {
            let c = self.cx.ult(x, y);
            let d = self.cx.bin(Op::Sub, x, y);
            let z = self.cx.konst(w, 0);
            self.cx.ite(c, z, d)
        } else {
            let d = self.cx.bin(Op::Add, x, y);
            let c = self.cx.ult(d, x);
            let m = self.cx.konst(w, mask(w));
            self.cx.ite(c, m, d)
        }
    }
}

/// Functions of the system's mathematical library: evaluated value by value, with the library the
/// native build uses as well.
fn libm1(n: &str) -> Option<fn(f64) -> f64> {
    Some(match n {
        "sin" => f64::sin,
        "cos" => f64::cos,
        "tan" => f64::tan,
        "asin" => f64::asin,
        "acos" => f64::acos,
        "atan" => f64::atan,
        "exp" => f64::exp,
        "log" => f64::ln,
        "log2" => f64::log2,
        "log10" => f64::log10,
        "cbrt" => f64::cbrt,
        _ => return None,
    })
}
fn libm2(n: &str) -> Option<fn(f64, f64) -> f64> {
    Some(match n {
        "pow" => f64::powf,
        "atan2" => f64::atan2,
        "hypot" => f64::hypot,
        _ => return None,
    })
}
