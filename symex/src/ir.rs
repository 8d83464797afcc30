//! Reader for the textual LLVM IR that rustc emits.  Function bodies are parsed
//! the first time they are called.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n + 7) / 8) as u64,
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(packed, fs) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(w) => match (*w + 7) / 8 {
                1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(p, fs) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(packed, fs) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(_, fs) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Float(u64),
    Null,
    Undef,
    Zero,
    Bytes(Rc<[u8]>),
    Agg(Rc<Vec<(Ty, C)>>),
    Splat(Rc<(Ty, C)>),
    Global(String),
    Gep(Ty, Rc<(Ty, C)>, Rc<Vec<(Ty, C)>>),
    Cast(String, Rc<(Ty, C)>, Ty),
    Bin(String, Rc<(Ty, C)>, Rc<(Ty, C)>),
}

#[derive(Clone, Debug)]
pub enum O {
    L(u32),
    C(Rc<C>),
}

#[derive(Clone, Debug)]
pub enum K {
    Bin(String, Ty, O, O),
    FNeg(Ty, O),
    ICmp(String, Ty, O, O),
    FCmp(String, Ty, O, O),
    Select(Ty, O, Ty, O, O),
    Call { ret: Ty, callee: O, args: Vec<(Ty, O)>, noreturn: bool },
    Alloca(Ty, O, Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Gep(Ty, O, Vec<(Ty, O)>),
    Cast(String, Ty, O, Ty),
    ExtractValue(O, Vec<usize>),
    InsertValue(Ty, O, O, Vec<usize>),
    ExtractElem(Ty, O, O),
    InsertElem(Ty, O, O, O),
    Shuffle(Ty, O, O, Ty, O),
    Freeze(Ty, O),
    AtomicRmw(String, O, Ty, O),
    CmpXchg(O, Ty, O, O),
    Nop,
    // terminators
    Ret(Option<(Ty, O)>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Unreachable,
    Resume,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<u32>,
    pub k: K,
}

#[derive(Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Ty, Vec<(O, u32)>)>,
    pub insts: Vec<Inst>,
    pub succ: Vec<u32>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nlocals: u32,
    pub blocks: Vec<Block>,
    /// weak topological order: rank of each block, and the heads of the enclosing components
    pub rank: Vec<u32>,
    pub comps: Vec<Vec<u32>>,
    pub live_in: Vec<Vec<bool>>, // after the phis
    pub ninst: usize,
    pub hash: u64,
}

pub struct FnSrc {
    pub name: String,
    pub defined: bool,
    pub noreturn: bool,
    header: String,
    lines: (usize, usize),
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub constant: bool,
}

pub struct Module {
    text: Rc<String>,
    line_at: Vec<(usize, usize)>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub funcs: Vec<FnSrc>,
    pub fmap: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    noreturn_groups: std::collections::HashSet<String>,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    W(String),  // word or number
    L(String),  // %x
    G(String),  // @x
    S(Vec<u8>),
    Cs(Vec<u8>), // string
    P(char),
    A(String), // #n
    M,         // metadata reference
    End,
}

struct Lx {
    t: Vec<T>,
    i: usize,
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' | b'$' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                o.push(match c {
                    b'%' => T::L(name),
                    b'@' => T::G(name),
                    _ => T::W(name),
                });
            }
            b'"' => {
                let (v, j) = string(b, i);
                i = j;
                o.push(T::S(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = string(b, i + 1);
                i = j;
                o.push(T::Cs(v));
            }
            b'#' => {
                let st = i;
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                o.push(T::A(s[st..i].to_string()));
            }
            b'!' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                o.push(T::M);
            }
            _ if idc(c) || c == b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'+' && (b[i - 1] == b'e')) {
                    i += 1;
                }
                o.push(T::W(s[st..i].to_string()));
            }
            _ => {
                o.push(T::P(c as char));
                i += 1;
            }
        }
    }
    Ok(o)
}
fn string(b: &[u8], q: usize) -> (Vec<u8>, usize) {
    let mut v = vec![];
    let mut i = q + 1;
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap_or(0));
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    (v, i + 1)
}

type R<X> = Result<X, String>;

const ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "writable", "zeroext", "signext", "inreg", "returned",
    "immarg", "nofree", "swiftself", "swifterror", "nest", "dead_on_unwind", "allocalign", "allocptr", "inalloca", "dead_on_return",
    "local_unnamed_addr", "unnamed_addr", "fastcc", "ccc", "coldcc", "tail", "musttail", "notail", "internal", "private", "hidden", "dso_local",
    "protected", "weak", "linkonce_odr", "external", "weak_odr", "linkonce", "available_externally", "extern_weak", "default", "common", "nneg", "nuw", "nsw", "exact",
    "disjoint", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "preserve_mostcc", "preserve_nonecc", "externally_initialized", "byref_", "noext",
];

impl Lx {
    fn peek(&self) -> &T {
        self.t.get(self.i).unwrap_or(&T::End)
    }
    fn next(&mut self) -> T {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn word(&mut self) -> R<String> {
        match self.next() {
            T::W(w) => Ok(w),
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), T::W(x) if x == w)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), T::P(x) if *x == c)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?}", c, self.peek()))
        }
    }
    /// Skip attributes, including parenthesised ones.
    fn attrs(&mut self) {
        loop {
            match self.peek().clone() {
                T::W(w) => {
                    if ATTRS.contains(&w.as_str()) {
                        self.i += 1;
                    } else if w == "align" || w == "addrspace" {
                        self.i += 1;
                        if self.is_p('(') {
                            self.parens();
                        } else {
                            self.i += 1;
                        }
                    } else if matches!(
                        w.as_str(),
                        "range" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "sret" | "byval" | "initializes" | "elementtype" | "nofpclass" | "preallocated" | "byref"
                    ) {
                        self.i += 1;
                        self.parens();
                    } else {
                        return;
                    }
                }
                T::S(_) => {
                    // "key"="value" attribute
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                T::A(_) => self.i += 1,
                _ => return,
            }
        }
    }
    fn parens(&mut self) {
        if !self.eat('(') {
            return;
        }
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                T::End => return,
                _ => {}
            }
        }
    }
}

fn parse_int(w: &str, bits: u32) -> R<u128> {
    let v = if let Some(r) = w.strip_prefix('-') {
        (r.parse::<u128>().map_err(|e| format!("{}: {}", w, e))?).wrapping_neg()
    } else if let Some(r) = w.strip_prefix("u0x") {
        u128::from_str_radix(r, 16).map_err(|e| e.to_string())?
    } else if let Some(r) = w.strip_prefix("s0x") {
        u128::from_str_radix(r, 16).map_err(|e| e.to_string())?
    } else {
        w.parse::<u128>().map_err(|e| format!("{}: {}", w, e))?
    };
    Ok(if bits >= 128 { v } else { v & ((1u128 << bits) - 1) })
}

struct FnCx {
    names: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCx {
    fn local(&mut self, n: &str) -> u32 {
        let k = self.names.len() as u32;
        *self.names.entry(n.to_string()).or_insert(k)
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut line_at = vec![];
        let mut p = 0;
        for l in text.split_inclusive('\n') {
            line_at.push((p, p + l.trim_end_matches('\n').len()));
            p += l.len();
        }
        let mut m = Module {
            text: Rc::new(text),
            line_at,
            types: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: HashMap::new(),
            noreturn_groups: Default::default(),
        };
        let text = m.text.clone();
        let lines: Vec<&str> = m.line_at.iter().map(|&(a, b)| &text[a..b]).collect();
        for l in &lines {
            if let Some(r) = l.strip_prefix("attributes #") {
                if r.contains(" noreturn ") {
                    m.noreturn_groups.insert(format!("#{}", r.split(' ').next().unwrap()));
                }
            }
        }
        // named types first
        for l in &lines {
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l)?;
                let mut x = Lx { t, i: 0 };
                if let T::L(n) = x.next() {
                    x.i += 2;
                    if !x.is_w("opaque") {
                        let ty = m.ty(&mut x)?;
                        m.types.insert(n, ty);
                    }
                }
            }
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                m.global(l).map_err(|e| format!("{} in {}", e, &l[..l.len().min(300)]))?;
            } else if l.starts_with("declare ") || l.starts_with("define ") {
                let defined = l.starts_with("define");
                let at = l.find('@').ok_or("no name")?;
                let rest = &l[at + 1..];
                let name = if let Some(r) = rest.strip_prefix('"') {
                    r.split('"').next().unwrap()
                } else {
                    rest.split('(').next().unwrap()
                };
                let attrs = &l[l.rfind(')').unwrap_or(0)..];
                let noreturn = l.contains(" noreturn ") || attrs.split_whitespace().any(|w| m.noreturn_groups.contains(w));
                let st = i + 1;
                if defined {
                    while lines[i] != "}" {
                        i += 1;
                    }
                }
                m.fmap.insert(name.to_string(), m.funcs.len());
                m.funcs.push(FnSrc { name: name.to_string(), defined, noreturn, header: l.to_string(), lines: (st, i) });
            }
            i += 1;
        }
        Ok(m)
    }
    fn global(&mut self, l: &str) -> R<()> {
        let mut x = Lx { t: lex(l)?, i: 0 };
        let name = match x.next() {
            T::G(n) => n,
            _ => return Err("global".into()),
        };
        x.want('=')?;
        let mut external = false;
        loop {
            if x.is_w("external") || x.is_w("extern_weak") {
                external = true;
            }
            if x.is_w("thread_local") {
                x.i += 1;
                x.parens();
                continue;
            }
            let i0 = x.i;
            x.attrs();
            if x.i == i0 {
                break;
            }
            // attrs() may have swallowed "external"
            if x.t[i0..x.i].iter().any(|t| matches!(t, T::W(w) if w == "external" || w == "extern_weak")) {
                external = true;
            }
        }
        let kind = x.word()?;
        if kind == "alias" {
            let _ = self.ty(&mut x)?;
            x.eat(',');
            let _ = self.ty(&mut x)?;
            if let T::G(t) = x.next() {
                self.aliases.insert(name, t);
            }
            return Ok(());
        }
        let constant = match kind.as_str() {
            "constant" => true,
            "global" | "appending" => {
                if x.is_w("global") {
                    x.i += 1;
                }
                false
            }
            _ => return Err(format!("global kind {}", kind)),
        };
        let ty = self.ty(&mut x)?;
        let init = if external { None } else { Some(self.konst(&mut x, &ty)?) };
        self.gmap.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, ty, init, constant });
        Ok(())
    }
    fn ty(&self, x: &mut Lx) -> R<Ty> {
        let t = match x.next() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if x.is_w("addrspace") {
                        x.i += 1;
                        x.parens();
                    }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                "metadata" | "label" | "token" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type {}", w)),
            },
            T::L(n) => self.types.get(&n).cloned().ok_or(format!("type %{}", n))?,
            T::P('[') => {
                let n = x.word()?.parse::<u64>().map_err(|e| e.to_string())?;
                x.word()?;
                let t = self.ty(x)?;
                x.want(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            T::P('<') => {
                if x.eat('{') {
                    let f = self.fields(x)?;
                    x.want('>')?;
                    Ty::Struct(true, Rc::new(f))
                } else {
                    let n = x.word()?.parse::<u32>().map_err(|e| e.to_string())?;
                    x.word()?;
                    let t = self.ty(x)?;
                    x.want('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            T::P('{') => Ty::Struct(false, Rc::new(self.fields(x)?)),
            y => return Err(format!("type {:?}", y)),
        };
        Ok(t)
    }
    fn fields(&self, x: &mut Lx) -> R<Vec<Ty>> {
        let mut v = vec![];
        if x.eat('}') {
            return Ok(v);
        }
        loop {
            v.push(self.ty(x)?);
            if !x.eat(',') {
                break;
            }
        }
        x.want('}')?;
        Ok(v)
    }
    fn tc(&self, x: &mut Lx) -> R<(Ty, C)> {
        x.attrs();
        let t = self.ty(x)?;
        x.attrs();
        let c = self.konst(x, &t)?;
        Ok((t, c))
    }
    fn konst(&self, x: &mut Lx, ty: &Ty) -> R<C> {
        Ok(match x.next() {
            T::G(n) => C::Global(n),
            T::Cs(b) => C::Bytes(b.into()),
            T::P('[') => C::Agg(Rc::new(self.list(x, ']')?)),
            T::P('{') => C::Agg(Rc::new(self.list(x, '}')?)),
            T::P('<') => {
                if x.eat('{') {
                    let l = self.list(x, '}')?;
                    x.want('>')?;
                    C::Agg(Rc::new(l))
                } else {
                    C::Agg(Rc::new(self.list(x, '>')?))
                }
            }
            T::M => C::Undef,
            T::W(w) => match w.as_str() {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" => C::Null,
                "undef" | "poison" => C::Undef,
                "zeroinitializer" | "none" => C::Zero,
                "splat" => {
                    x.want('(')?;
                    let v = self.tc(x)?;
                    x.want(')')?;
                    C::Splat(Rc::new(v))
                }
                "getelementptr" => {
                    x.attrs();
                    if x.is_w("inrange") {
                        x.i += 1;
                        x.parens();
                    }
                    x.want('(')?;
                    let t = self.ty(x)?;
                    x.want(',')?;
                    let b = self.tc(x)?;
                    let mut ix = vec![];
                    while x.eat(',') {
                        ix.push(self.tc(x)?);
                    }
                    x.want(')')?;
                    C::Gep(t, Rc::new(b), Rc::new(ix))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "ptrtoaddr" => {
                    x.attrs();
                    x.want('(')?;
                    let v = self.tc(x)?;
                    x.word()?;
                    let t = self.ty(x)?;
                    x.want(')')?;
                    C::Cast(w, Rc::new(v), t)
                }
                "add" | "sub" | "mul" | "xor" | "or" | "and" | "shl" | "lshr" => {
                    x.attrs();
                    x.want('(')?;
                    let a = self.tc(x)?;
                    x.want(',')?;
                    let b = self.tc(x)?;
                    x.want(')')?;
                    C::Bin(w, Rc::new(a), Rc::new(b))
                }
                "asm" => return Err("inline assembly".into()),
                _ => match ty {
                    Ty::Int(b) => C::Int(parse_int(&w, *b)?),
                    Ty::F64 | Ty::F32 => {
                        let f = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else if let Some(h) = w.strip_prefix("f0x") {
                            u64::from_str_radix(h, 16).map_err(|e| e.to_string())?
                        } else if w == "+inf" {
                            f64::INFINITY.to_bits()
                        } else if w == "-inf" {
                            f64::NEG_INFINITY.to_bits()
                        } else if w.contains("nan") {
                            f64::NAN.to_bits()
                        } else {
                            w.parse::<f64>().map_err(|e| format!("{} {}", w, e))?.to_bits()
                        };
                        C::Float(f)
                    }
                    _ => return Err(format!("constant {} of {:?}", w, ty)),
                },
            },
            y => return Err(format!("constant {:?}", y)),
        })
    }
    fn list(&self, x: &mut Lx, end: char) -> R<Vec<(Ty, C)>> {
        let mut v = vec![];
        if x.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tc(x)?);
            if !x.eat(',') {
                break;
            }
        }
        x.want(end)?;
        Ok(v)
    }
    fn op(&self, x: &mut Lx, ty: &Ty, cx: &mut FnCx) -> R<O> {
        if let T::L(n) = x.peek().clone() {
            x.i += 1;
            return Ok(O::L(cx.local(&n)));
        }
        Ok(O::C(Rc::new(self.konst(x, ty)?)))
    }
    fn tyop(&self, x: &mut Lx, cx: &mut FnCx) -> R<(Ty, O)> {
        x.attrs();
        let t = self.ty(x)?;
        x.attrs();
        if t == Ty::Meta {
            // metadata or label operand
            if let T::L(_) | T::M = x.peek() {
                x.i += 1;
            }
            return Ok((t, O::C(Rc::new(C::Undef))));
        }
        let o = self.op(x, &t, cx)?;
        Ok((t, o))
    }
    fn label(&self, x: &mut Lx, cx: &FnCx) -> R<u32> {
        if !x.eat_w("label") {
            return Err("label".into());
        }
        match x.next() {
            T::L(n) => cx.blocks.get(&n).copied().ok_or(format!("block {}", n)),
            y => Err(format!("label {:?}", y)),
        }
    }
    fn call_tail(&self, x: &mut Lx, cx: &mut FnCx) -> R<K> {
        x.attrs();
        let ret = self.ty(x)?;
        x.attrs();
        if x.is_p('(') {
            // function type of a varargs callee
            x.parens();
        }
        if x.is_w("asm") {
            return Err("inline assembly".into());
        }
        let callee = self.op(x, &Ty::Ptr, cx)?;
        x.want('(')?;
        let mut args = vec![];
        if !x.eat(')') {
            loop {
                args.push(self.tyop(x, cx)?);
                if !x.eat(',') {
                    break;
                }
            }
            x.want(')')?;
        }
        let mut noreturn = false;
        loop {
            match x.peek().clone() {
                T::A(a) => {
                    if self.noreturn_groups.contains(&a) {
                        noreturn = true;
                    }
                    x.i += 1;
                }
                T::W(w) if w == "noreturn" => {
                    noreturn = true;
                    x.i += 1;
                }
                T::P('[') => {
                    // operand bundle
                    let mut d = 0;
                    loop {
                        match x.next() {
                            T::P('[') => d += 1,
                            T::P(']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            T::End => break,
                            _ => {}
                        }
                    }
                }
                _ => break,
            }
        }
        Ok(K::Call { ret, callee, args, noreturn })
    }
    pub fn parse_fn(&self, fi: usize) -> R<Func> {
        let src = &self.funcs[fi];
        let r = self.parse_fn1(src);
        r.map_err(|e| format!("in {}: {}", src.name, e))
    }
    fn parse_fn1(&self, src: &FnSrc) -> R<Func> {
        let mut cx = FnCx { names: HashMap::new(), blocks: HashMap::new() };
        let mut x = Lx { t: lex(src.header.trim_end_matches('{'))?, i: 1 };
        x.attrs();
        let ret = self.ty(&mut x)?;
        x.attrs();
        x.i += 1; // name
        x.want('(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !x.eat(')') {
            loop {
                if x.is_w("...") {
                    x.i += 1;
                    break;
                }
                let t = self.ty(&mut x)?;
                x.attrs();
                let n = match x.peek().clone() {
                    T::L(n) => {
                        x.i += 1;
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        n
                    }
                    _ => {
                        unnamed += 1;
                        (unnamed - 1).to_string()
                    }
                };
                let id = cx.local(&n);
                params.push((t, id));
                if !x.eat(',') {
                    break;
                }
            }
        }
        // split into blocks
        let text = &self.text;
        let (st, en) = src.lines;
        let mut raw: Vec<(String, Vec<String>)> = vec![];
        let mut pend: Option<String> = None;
        let mut hash = 0xcbf29ce484222325u64;
        for li in st..en {
            let (a, b) = self.line_at[li];
            let l = &text[a..b];
            let tl = l.trim_start();
            if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
                continue;
            }
            if let Some(p) = &mut pend {
                p.push(' ');
                p.push_str(tl);
                if tl.starts_with(']') {
                    let q = pend.take().unwrap();
                    raw.last_mut().unwrap().1.push(q);
                }
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if let Some(r) = l.strip_prefix('"') { r.split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                raw.push((name, vec![]));
                continue;
            }
            if raw.is_empty() {
                raw.push((unnamed.to_string(), vec![]));
            }
            if tl.starts_with("switch ") && tl.trim_end().ends_with('[') {
                pend = Some(tl.to_string());
                continue;
            }
            // clauses of landingpad and the second line of invoke
            if tl.starts_with("cleanup") || tl.starts_with("catch ") || tl.starts_with("filter ") {
                continue;
            }
            if tl.starts_with("to label") {
                let last = raw.last_mut().unwrap().1.last_mut().unwrap();
                last.push(' ');
                last.push_str(tl);
                continue;
            }
            raw.last_mut().unwrap().1.push(tl.to_string());
        }
        for (i, (n, _)) in raw.iter().enumerate() {
            cx.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        let mut ninst = 0;
        for (name, ls) in raw {
            let mut b = Block { name, ..Default::default() };
            for l in ls {
                let l = strip_meta(&l);
                for c in l.bytes() {
                    hash = (hash ^ c as u64).wrapping_mul(0x100000001b3);
                }
                self.inst(l, &mut cx, &mut b).map_err(|e| format!("{} in: {}", e, l))?;
                ninst += 1;
            }
            b.succ = match b.insts.last().map(|x| &x.k) {
                Some(K::Br(t)) => vec![*t],
                Some(K::CondBr(_, a, c)) => vec![*a, *c],
                Some(K::Switch(_, _, d, cs)) => {
                    let mut v = vec![*d];
                    v.extend(cs.iter().map(|x| x.1));
                    v
                }
                _ => vec![],
            };
            b.succ.sort();
            b.succ.dedup();
            blocks.push(b);
        }
        let mut f = Func { name: src.name.clone(), ret, params, nlocals: cx.names.len() as u32, blocks, rank: vec![], comps: vec![], live_in: vec![], ninst, hash };
        f.wto();
        f.liveness();
        Ok(f)
    }
    fn inst(&self, l: &str, cx: &mut FnCx, b: &mut Block) -> R<()> {
        let mut x = Lx { t: lex(l)?, i: 0 };
        let mut dst = None;
        if let T::L(n) = x.peek().clone() {
            if x.t.get(1) == Some(&T::P('=')) {
                dst = Some(cx.local(&n));
                x.i = 2;
            }
        }
        while matches!(x.peek(), T::W(w) if w == "tail" || w == "musttail" || w == "notail") {
            x.i += 1;
        }
        let op = x.word()?;
        let k = match op.as_str() {
            "phi" => {
                x.attrs();
                let t = self.ty(&mut x)?;
                let mut v = vec![];
                loop {
                    x.want('[')?;
                    let o = self.op(&mut x, &t, cx)?;
                    x.want(',')?;
                    let bl = match x.next() {
                        T::L(n) => cx.blocks.get(&n).copied().ok_or("phi block")?,
                        _ => return Err("phi".into()),
                    };
                    x.want(']')?;
                    v.push((o, bl));
                    if !x.eat(',') {
                        break;
                    }
                }
                b.phis.push((dst.unwrap(), t, v));
                return Ok(());
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                x.attrs();
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let c = self.op(&mut x, &t, cx)?;
                K::Bin(op, t, a, c)
            }
            "fneg" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                K::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                x.attrs();
                let p = x.word()?;
                x.attrs();
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let c = self.op(&mut x, &t, cx)?;
                if op == "icmp" {
                    K::ICmp(p, t, a, c)
                } else {
                    K::FCmp(p, t, a, c)
                }
            }
            "select" => {
                let (ct, c) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (t, p) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, q) = self.tyop(&mut x, cx)?;
                K::Select(ct, c, t, p, q)
            }
            "call" => self.call_tail(&mut x, cx)?,
            "invoke" => {
                let c = self.call_tail(&mut x, cx)?;
                if !x.eat_w("to") {
                    return Err("invoke".into());
                }
                let n = self.label(&mut x, cx)?;
                b.insts.push(Inst { dst, k: c });
                b.insts.push(Inst { dst: None, k: K::Br(n) });
                return Ok(());
            }
            "alloca" => {
                x.attrs();
                let t = self.ty(&mut x)?;
                let mut n = (Ty::Int(64), O::C(Rc::new(C::Int(1))));
                if x.eat(',') && !x.is_w("align") {
                    n = self.tyop(&mut x, cx)?;
                }
                K::Alloca(t, n.1, n.0)
            }
            "load" => {
                x.attrs();
                let t = self.ty(&mut x)?;
                x.want(',')?;
                let (_, p) = self.tyop(&mut x, cx)?;
                K::Load(t, p)
            }
            "store" => {
                x.attrs();
                let (t, v) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, p) = self.tyop(&mut x, cx)?;
                K::Store(t, v, p)
            }
            "getelementptr" => {
                x.attrs();
                let t = self.ty(&mut x)?;
                x.want(',')?;
                let (_, p) = self.tyop(&mut x, cx)?;
                let mut ix = vec![];
                while x.eat(',') {
                    ix.push(self.tyop(&mut x, cx)?);
                }
                K::Gep(t, p, ix)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                x.attrs();
                let (t, a) = self.tyop(&mut x, cx)?;
                x.word()?;
                let u = self.ty(&mut x)?;
                K::Cast(op, t, a, u)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut x, cx)?;
                let mut ix = vec![];
                while x.eat(',') {
                    ix.push(x.word()?.parse().map_err(|_| "index")?);
                }
                K::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, v) = self.tyop(&mut x, cx)?;
                let mut ix = vec![];
                while x.eat(',') {
                    ix.push(x.word()?.parse().map_err(|_| "index")?);
                }
                K::InsertValue(t, a, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, i) = self.tyop(&mut x, cx)?;
                K::ExtractElem(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, v) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, i) = self.tyop(&mut x, cx)?;
                K::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, c) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (mt, m) = self.tyop(&mut x, cx)?;
                K::Shuffle(t, a, c, mt, m)
            }
            "freeze" => {
                let (t, a) = self.tyop(&mut x, cx)?;
                K::Freeze(t, a)
            }
            "atomicrmw" => {
                x.attrs();
                let o = x.word()?;
                let (_, p) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (t, v) = self.tyop(&mut x, cx)?;
                K::AtomicRmw(o, p, t, v)
            }
            "cmpxchg" => {
                x.attrs();
                let (_, p) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (t, a) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let (_, c) = self.tyop(&mut x, cx)?;
                K::CmpXchg(p, t, a, c)
            }
            "fence" => K::Nop,
            "landingpad" => K::Resume, // never entered: panics end the run
            "ret" => {
                if x.is_w("void") {
                    K::Ret(None)
                } else {
                    K::Ret(Some(self.tyop(&mut x, cx)?))
                }
            }
            "br" => {
                if x.is_w("label") {
                    K::Br(self.label(&mut x, cx)?)
                } else {
                    let (_, c) = self.tyop(&mut x, cx)?;
                    x.want(',')?;
                    let p = self.label(&mut x, cx)?;
                    x.want(',')?;
                    let q = self.label(&mut x, cx)?;
                    K::CondBr(c, p, q)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(&mut x, cx)?;
                x.want(',')?;
                let d = self.label(&mut x, cx)?;
                x.want('[')?;
                let mut cs = vec![];
                let w = match t {
                    Ty::Int(w) => w,
                    _ => return Err("switch".into()),
                };
                while !x.eat(']') {
                    self.ty(&mut x)?;
                    let k = x.word()?;
                    let k = match k.as_str() {
                        "true" => 1,
                        "false" => 0,
                        _ => parse_int(&k, w)?,
                    };
                    x.want(',')?;
                    cs.push((k, self.label(&mut x, cx)?));
                }
                K::Switch(t, v, d, cs)
            }
            "unreachable" => K::Unreachable,
            "resume" => K::Resume,
            _ => return Err(format!("instruction {}", op)),
        };
        b.insts.push(Inst { dst, k });
        Ok(())
    }
}

fn strip_meta(l: &str) -> &str {
    // metadata attachments come last: ", !dbg !1, !noalias !2"
    let b = l.as_bytes();
    let mut q = false;
    let mut depth = 0;
    for i in 0..b.len() {
        match b[i] {
            b'"' => q = !q,
            b'(' if !q => depth += 1,
            b')' if !q => depth -= 1,
            b',' if !q && depth == 0 && i + 2 < b.len() && b[i + 1] == b' ' && b[i + 2] == b'!' => return &l[..i],
            _ => {}
        }
    }
    l
}

pub fn uses(k: &K, f: &mut dyn FnMut(&O)) {
    match k {
        K::Bin(_, _, a, b) | K::ICmp(_, _, a, b) | K::FCmp(_, _, a, b) => {
            f(a);
            f(b)
        }
        K::FNeg(_, a) | K::Load(_, a) | K::Cast(_, _, a, _) | K::ExtractValue(a, _) | K::Freeze(_, a) | K::Alloca(_, a, _) => f(a),
        K::Select(_, a, _, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        K::Call { callee, args, .. } => {
            f(callee);
            for a in args {
                f(&a.1)
            }
        }
        K::Store(_, a, b) | K::InsertValue(_, a, b, _) | K::ExtractElem(_, a, b) | K::AtomicRmw(_, a, _, b) => {
            f(a);
            f(b)
        }
        K::Gep(_, a, ix) => {
            f(a);
            for i in ix {
                f(&i.1)
            }
        }
        K::InsertElem(_, a, b, c) | K::CmpXchg(a, _, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        K::Shuffle(_, a, b, _, c) => {
            f(a);
            f(b);
            f(c)
        }
        K::Ret(Some((_, a))) => f(a),
        K::CondBr(a, ..) | K::Switch(_, a, ..) => f(a),
        K::Nop | K::Ret(None) | K::Br(_) | K::Unreachable | K::Resume => {}
    }
}

impl Func {
    /// Bourdoncle's weak topological order.
    fn wto(&mut self) {
        let n = self.blocks.len();
        struct S<'a> {
            f: &'a Func,
            dfn: Vec<u32>,
            num: u32,
            stack: Vec<u32>,
        }
        #[derive(Clone)]
        enum W {
            V(u32),
            C(u32, Vec<W>),
        }
        fn visit(s: &mut S, v: u32, part: &mut Vec<W>) -> u32 {
            s.stack.push(v);
            s.num += 1;
            s.dfn[v as usize] = s.num;
            let mut head = s.num;
            let mut lp = false;
            for &w in &s.f.blocks[v as usize].succ {
                let m = if s.dfn[w as usize] == 0 { visit(s, w, part) } else { s.dfn[w as usize] };
                if m <= head {
                    head = m;
                    lp = true;
                }
            }
            if head == s.dfn[v as usize] {
                s.dfn[v as usize] = u32::MAX;
                let mut e = s.stack.pop().unwrap();
                if lp {
                    while e != v {
                        s.dfn[e as usize] = 0;
                        e = s.stack.pop().unwrap();
                    }
                    let mut p = vec![];
                    for &w in &s.f.blocks[v as usize].succ {
                        if s.dfn[w as usize] == 0 {
                            visit(s, w, &mut p);
                        }
                    }
                    p.reverse();
                    part.push(W::C(v, p));
                } else {
                    part.push(W::V(v));
                }
            }
            head
        }
        let mut s = S { f: self, dfn: vec![0; n], num: 0, stack: vec![] };
        let mut part = vec![];
        if n > 0 {
            visit(&mut s, 0, &mut part);
        }
        part.reverse();
        let mut rank = vec![u32::MAX; n];
        let mut comps = vec![vec![]; n];
        let mut k = 0;
        fn walk(ws: &[W], cs: &mut Vec<u32>, rank: &mut Vec<u32>, comps: &mut Vec<Vec<u32>>, k: &mut u32) {
            for w in ws {
                match w {
                    W::V(v) => {
                        rank[*v as usize] = *k;
                        *k += 1;
                        comps[*v as usize] = cs.clone();
                    }
                    W::C(v, p) => {
                        cs.push(*v);
                        rank[*v as usize] = *k;
                        *k += 1;
                        comps[*v as usize] = cs.clone();
                        walk(p, cs, rank, comps, k);
                        cs.pop();
                    }
                }
            }
        }
        walk(&part, &mut vec![], &mut rank, &mut comps, &mut k);
        self.rank = rank;
        self.comps = comps;
    }
    fn liveness(&mut self) {
        let n = self.blocks.len();
        let nl = self.nlocals as usize;
        let mut live_in = vec![vec![false; nl]; n];
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|&i| std::cmp::Reverse(self.rank[i]));
        loop {
            let mut changed = false;
            for &b in &order {
                let mut l = vec![false; nl];
                for &s in &self.blocks[b].succ {
                    let mut t = live_in[s as usize].clone();
                    for (d, _, _) in &self.blocks[s as usize].phis {
                        t[*d as usize] = false;
                    }
                    for i in 0..nl {
                        l[i] |= t[i];
                    }
                }
                for &s in &self.blocks[b].succ {
                    for (_, _, ins) in &self.blocks[s as usize].phis {
                        for (o, p) in ins {
                            if *p as usize == b {
                                if let O::L(i) = o {
                                    l[*i as usize] = true;
                                }
                            }
                        }
                    }
                }
                for ins in self.blocks[b].insts.iter().rev() {
                    if let Some(d) = ins.dst {
                        l[d as usize] = false;
                    }
                    uses(&ins.k, &mut |o| {
                        if let O::L(i) = o {
                            l[*i as usize] = true;
                        }
                    });
                }
                if l != live_in[b] {
                    live_in[b] = l;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        // a phi's own value, live after the phis, is part of live_in here
        self.live_in = live_in;
    }
    /// Values needed when execution continues at instruction `i` of block `b`.
    pub fn live_at(&self, b: u32, i: usize) -> Vec<bool> {
        if i == 0 {
            return self.live_in[b as usize].clone();
        }
        let nl = self.nlocals as usize;
        let mut l = vec![false; nl];
        let blk = &self.blocks[b as usize];
        for &s in &blk.succ {
            let mut t = self.live_in[s as usize].clone();
            for (d, _, _) in &self.blocks[s as usize].phis {
                t[*d as usize] = false;
            }
            for k in 0..nl {
                l[k] |= t[k];
            }
        }
        for &s in &blk.succ {
            for (_, _, ins) in &self.blocks[s as usize].phis {
                for (o, p) in ins {
                    if *p == b {
                        if let O::L(k) = o {
                            l[*k as usize] = true;
                        }
                    }
                }
            }
        }
        for ins in blk.insts[i..].iter().rev() {
            if let Some(d) = ins.dst {
                l[d as usize] = false;
            }
            uses(&ins.k, &mut |o| {
                if let O::L(k) = o {
                    l[*k as usize] = true;
                }
            });
        }
        l
    }
}
