//! SMT-LIB rendering of the obligations and the call to the external solver.
use crate::expr::*;
use std::io::Write;
use std::process::{Command, Stdio};

pub struct Emit<'a> {
    cx: &'a Ctx,
    out: String,
    b: Vec<bool>,
    e: Vec<bool>,
    pub bvars: Vec<u32>,
    pub evars: Vec<u32>,
    pub nodes: usize,
    fp: bool,
}

impl<'a> Emit<'a> {
    pub fn new(cx: &'a Ctx) -> Emit<'a> {
        Emit { cx, out: String::new(), b: vec![false; cx.bn.len()], e: vec![false; cx.en.len()], bvars: vec![], evars: vec![], nodes: 0, fp: false }
    }
    fn lit(&self, b: B) -> String {
        if b == TRUE {
            return "true".into();
        }
        if b == FALSE {
            return "false".into();
        }
        if b & 1 == 1 {
            format!("(not b{})", b >> 1)
        } else {
            format!("b{}", b >> 1)
        }
    }
    fn k(v: u128, w: u32) -> String {
        if w % 4 == 0 {
            format!("#x{:0width$x}", v, width = (w / 4) as usize)
        } else {
            format!("#b{:0width$b}", v, width = w as usize)
        }
    }
    fn word(&self, e: E) -> String {
        match &self.cx.en[e as usize] {
            EN::Const(w, v) => Self::k(*v, *w),
            _ => format!("e{}", e),
        }
    }
    /// The word as an FP term.
    fn fp(&mut self, e: E) -> String {
        match self.cx.en[e as usize].clone() {
            EN::IntF(x) => {
                self.need_e(x);
                format!("((_ to_fp 11 53) RNE {})", self.word(x))
            }
            _ => {
                self.need_e(e);
                format!("((_ to_fp 11 53) {})", self.word(e))
            }
        }
    }
    fn need_b(&mut self, b: B) {
        let n = (b >> 1) as usize;
        if self.b[n] || n == 0 {
            return;
        }
        self.b[n] = true;
        let s = match self.cx.bn[n] {
            BN::True => return,
            BN::Var(i) => {
                self.bvars.push(i);
                self.out.push_str(&format!("(declare-const v{} Bool)\n", i));
                format!("v{}", i)
            }
            BN::And(x, y) => {
                self.need_b(x);
                self.need_b(y);
                format!("(and {} {})", self.lit(x), self.lit(y))
            }
            BN::Eq(x, y) => {
                self.need_e(x);
                self.need_e(y);
                format!("(= {} {})", self.word(x), self.word(y))
            }
            BN::Ult(x, y) => {
                self.need_e(x);
                self.need_e(y);
                format!("(bvult {} {})", self.word(x), self.word(y))
            }
            BN::Slt(x, y) => {
                self.need_e(x);
                self.need_e(y);
                format!("(bvslt {} {})", self.word(x), self.word(y))
            }
            BN::Bit(x, i) => {
                self.need_e(x);
                format!("(= ((_ extract {} {}) {}) #b1)", i, i, self.word(x))
            }
        };
        self.nodes += 1;
        self.out.push_str(&format!("(define-fun b{} () Bool {})\n", n, s));
    }
    fn need_e(&mut self, e: E) {
        if self.e[e as usize] {
            return;
        }
        self.e[e as usize] = true;
        let w = self.cx.width(e);
        let s = match self.cx.en[e as usize].clone() {
            EN::Const(..) => return,
            EN::Var(_, i) => {
                self.evars.push(i);
                self.out.push_str(&format!("(declare-const w{} (_ BitVec {}))\n", i, w));
                format!("w{}", i)
            }
            EN::Cases(w, l) => {
                for x in l.iter() {
                    self.need_b(x.1);
                }
                let mut s = Self::k(l[l.len() - 1].0, w);
                for (v, g) in l[..l.len() - 1].iter().rev() {
                    s = format!("(ite {} {} {})", self.lit(*g), Self::k(*v, w), s);
                }
                s
            }
            EN::Ite(c, x, y) => {
                self.need_b(c);
                self.need_e(x);
                self.need_e(y);
                format!("(ite {} {} {})", self.lit(c), self.word(x), self.word(y))
            }
            EN::Bin(op, x, y) => {
                self.need_e(x);
                self.need_e(y);
                let o = match op {
                    Op::Add => "bvadd",
                    Op::Sub => "bvsub",
                    Op::Mul => "bvmul",
                    Op::Udiv => "bvudiv",
                    Op::Urem => "bvurem",
                    Op::Sdiv => "bvsdiv",
                    Op::Srem => "bvsrem",
                    Op::Shl => "bvshl",
                    Op::Lshr => "bvlshr",
                    Op::Ashr => "bvashr",
                    Op::And => "bvand",
                    Op::Or => "bvor",
                    Op::Xor => "bvxor",
                };
                format!("({} {} {})", o, self.word(x), self.word(y))
            }
            EN::Zext(x, w) => {
                self.need_e(x);
                format!("((_ zero_extend {}) {})", w - self.cx.width(x), self.word(x))
            }
            EN::Sext(x, w) => {
                self.need_e(x);
                format!("((_ sign_extend {}) {})", w - self.cx.width(x), self.word(x))
            }
            EN::Extract(x, lo, n) => {
                self.need_e(x);
                format!("((_ extract {} {}) {})", lo + n - 1, lo, self.word(x))
            }
            EN::Concat(h, l) => {
                self.need_e(h);
                self.need_e(l);
                format!("(concat {} {})", self.word(h), self.word(l))
            }
            EN::IntF(_) => {
                self.fp = true;
                let t = self.fp(e);
                self.out.push_str(&format!("(declare-const f{} (_ BitVec 64))\n(assert (= ((_ to_fp 11 53) f{}) {}))\n", e, e, t));
                format!("f{}", e)
            }
            EN::F(op, x, y) => {
                self.fp = true;
                let a = self.fp(x);
                let b = self.fp(y);
                let t = match op {
                    FOp::Add => format!("(fp.add RNE {} {})", a, b),
                    FOp::Sub => format!("(fp.sub RNE {} {})", a, b),
                    FOp::Mul => format!("(fp.mul RNE {} {})", a, b),
                    FOp::Div => format!("(fp.div RNE {} {})", a, b),
                    FOp::Rem => format!("(fp.rem {} {})", a, b),
                    FOp::Sqrt => format!("(fp.sqrt RNE {})", a),
                    FOp::Floor => format!("(fp.roundToIntegral RTN {})", a),
                    FOp::Ceil => format!("(fp.roundToIntegral RTP {})", a),
                    FOp::Round => format!("(fp.roundToIntegral RNA {})", a),
                    FOp::Trunc => format!("(fp.roundToIntegral RTZ {})", a),
                };
                self.out.push_str(&format!("(declare-const f{} (_ BitVec 64))\n(assert (= ((_ to_fp 11 53) f{}) {}))\n", e, e, t));
                format!("f{}", e)
            }
        };
        self.nodes += 1;
        self.out.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", e, w, s));
    }
    /// A query that is satisfiable iff one of the conjunctions is.
    pub fn query(mut self, conds: &[&[B]]) -> Query {
        let mut ors = String::new();
        for &c in conds {
            for &b in c {
                self.need_b(b);
            }
            let ls: Vec<String> = c.iter().map(|b| self.lit(*b)).collect();
            ors.push_str(&if ls.len() == 1 { ls[0].clone() } else { format!("(and {})", ls.join(" ")) });
            ors.push(' ');
        }
        let logic = if self.fp { "QF_BVFP" } else { "QF_BV" };
        let mut s = format!("(set-option :produce-models true)\n(set-logic {})\n", logic);
        s.push_str(&self.out);
        if conds.len() == 1 {
            s.push_str(&format!("(assert {})\n(check-sat)\n", ors));
        } else {
            s.push_str(&format!("(assert (or {}))\n(check-sat)\n", ors));
        }
        let mut names: Vec<String> = self.bvars.iter().map(|i| format!("v{}", i)).collect();
        names.extend(self.evars.iter().map(|i| format!("w{}", i)));
        s.push_str(&format!("(get-value ({}))\n", if names.is_empty() { "true".to_string() } else { names.join(" ") }));
        Query { text: s, nb: self.cx.nbv, ne: self.cx.nev }
    }
}

pub struct Query {
    pub text: String,
    nb: u32,
    ne: u32,
}

pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub fn solve(solver: &str, q: &Query, timeout_s: u64) -> Answer {
    let mut cmd = if solver.contains("cvc5") {
        let mut c = Command::new("cvc5");
        c.args(["--lang=smt2", &format!("--tlimit={}", timeout_s * 1000)]);
        c
    } else {
        let mut c = Command::new(solver);
        c.args(["-in", &format!("-T:{}", timeout_s)]);
        c
    };
    let ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let mut ch = match ch {
        Ok(c) => c,
        Err(e) => return Answer::Unknown(e.to_string()),
    };
    let mut si = ch.stdin.take().unwrap();
    let qs = q.text.clone();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(qs.as_bytes());
    });
    let o = ch.wait_with_output();
    let _ = h.join();
    let o = match o {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(e) => return Answer::Unknown(e.to_string()),
    };
    let first = o.lines().next().unwrap_or("").trim();
    match first {
        "unsat" => Answer::Unsat,
        "sat" => {
            let mut m = Model { b: vec![false; q.nb as usize], e: vec![0; q.ne as usize], seed: 1 };
            // ((v0 true) (w1 #x0f) ...)
            let toks: Vec<String> = o.lines().skip(1).collect::<Vec<_>>().join(" ").replace('(', " ").replace(')', " ").split_whitespace().map(|x| x.to_string()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                let (n, v) = (&toks[i], &toks[i + 1]);
                if let Some(k) = n.strip_prefix('v').and_then(|x| x.parse::<usize>().ok()) {
                    if k < m.b.len() {
                        m.b[k] = v == "true";
                    }
                    i += 2;
                } else if let Some(k) = n.strip_prefix('w').and_then(|x| x.parse::<usize>().ok()) {
                    let x = if let Some(h) = v.strip_prefix("#x") {
                        u128::from_str_radix(h, 16).unwrap_or(0)
                    } else if let Some(b) = v.strip_prefix("#b") {
                        u128::from_str_radix(b, 2).unwrap_or(0)
                    } else {
                        0
                    };
                    if k < m.e.len() {
                        m.e[k] = x;
                    }
                    i += 2;
                } else {
                    i += 1;
                }
            }
            Answer::Sat(m)
        }
        x => Answer::Unknown(x.to_string()),
    }
}
