//! Reader for textual LLVM IR. Function bodies are decoded when first called.
use crate::expr::{Fp, Op, E};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, TyR),
    Vec(u64, TyR),
    Struct(Vec<TyR>, bool),
    Other,
}
pub type TyR = Rc<Ty>;

pub fn align_to(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_to((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_to(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    align_to(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_to(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> TyR {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
            _ => panic!("elem"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Runtime value.
#[derive(Clone, Debug)]
pub enum V {
    I(E),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn e(&self) -> E {
        match self {
            V::I(e) => *e,
            _ => panic!("aggregate where scalar expected"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
    W(u32, u128), // integer constant of more than 64 bits
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
}
#[derive(Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: TyR,
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub argtys: Vec<TyR>,
    pub normal: Option<u32>,
}
#[derive(Debug)]
pub enum Callee {
    Direct(String),
    Indirect(Opd),
    Asm(String),
}
#[derive(Debug)]
pub enum Ins {
    Bin(Op, u32, Opd, Opd),
    Icmp(Pred, u32, Opd, Opd),
    Cast(Cast, u32, Opd, u32),
    /// operation, destination, operands, width of the result, result negated, operands and result of a known width
    Fp(Fp, u32, Opd, Option<Opd>, u32, bool),
    Fneg(u32, Opd),
    /// either comparison holds, operands swapped in the second
    Fcmp2(Fp, bool, u32, Opd, Opd),
    Select(u32, Opd, Opd, Opd, bool),
    Alloca(u32, u64),
    Load(u32, TyR, Opd),
    Store(Opd, TyR, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    Call(Box<Call>),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Opd),
    InsertElement(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>),
    BitCastVec(u32, Opd, TyR, TyR),
    Copy(u32, Opd),
    Rmw(u32, String, Opd, Opd, TyR),
    CmpXchg(u32, Opd, Opd, Opd, TyR),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Unsup(String),
}
#[derive(Default, Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub allocas: usize,
}

pub enum Kind {
    Var { text: &'static str, constant: bool },
    Func { head: &'static str, body: &'static str },
    Decl,
    Alias { text: &'static str },
}
pub struct Glob {
    pub name: String,
    pub kind: Kind,
}

pub struct Module {
    pub globs: Vec<Glob>,
    pub names: HashMap<String, u32>,
    types: HashMap<String, &'static str>,
    tcache: RefCell<HashMap<String, TyR>>,
    pub fcache: RefCell<HashMap<u32, Rc<Func>>>,
}

pub const BASE: u64 = 0x1000;
pub fn addr_of(id: u32) -> u64 {
    ((id as u64) << 32) + BASE
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),
    L(&'static str),
    G(&'static str),
    S(&'static str),
    P(u8),
    End,
}

pub struct Lex {
    s: &'static [u8],
    i: usize,
    pub t: Tok,
}
fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+')
}
impl Lex {
    pub fn new(s: &'static str) -> Lex {
        let mut l = Lex { s: s.as_bytes(), i: 0, t: Tok::End };
        l.next();
        l
    }
    fn st(&self, a: usize, b: usize) -> &'static str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    pub fn next(&mut self) -> Tok {
        let old = self.t;
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= self.s.len() {
            self.t = Tok::End;
            return old;
        }
        let c = self.s[self.i];
        let quoted = |l: &mut Lex| {
            let a = l.i + 1;
            let mut j = a;
            while l.s[j] != b'"' {
                j += 1;
            }
            l.i = j + 1;
            l.st(a, j)
        };
        self.t = match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' {
                    quoted(self)
                } else {
                    let a = self.i;
                    while self.i < self.s.len() && is_word(self.s[self.i]) {
                        self.i += 1;
                    }
                    self.st(a, self.i)
                };
                if c == b'%' {
                    Tok::L(n)
                } else {
                    Tok::G(n)
                }
            }
            b'"' => Tok::S(quoted(self)),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::S(quoted(self))
            }
            c if is_word(c) => {
                let a = self.i;
                while self.i < self.s.len() && is_word(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::W(self.st(a, self.i))
            }
            c => {
                self.i += 1;
                Tok::P(c)
            }
        };
        old
    }
    pub fn is(&self, c: u8) -> bool {
        self.t == Tok::P(c)
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(self.t, Tok::W(x) if x == w)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn want(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, self.t, self.near());
        }
    }
    pub fn near(&self) -> &str {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 60).min(self.s.len());
        std::str::from_utf8(&self.s[a..b]).unwrap_or("?")
    }
    fn skip_paren(&mut self) {
        // at '('
        self.want(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

/// Constant, before being turned into a value or bytes.
#[derive(Debug, Clone)]
pub enum K {
    Int(u128),
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(TyR, K)>),
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn unquote(s: &str) -> String {
    if s.contains('\\') {
        String::from_utf8_lossy(&unescape(s)).into_owned()
    } else {
        s.to_string()
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut globs = vec![];
        let mut types = HashMap::new();
        let mut pos = 0usize;
        let bytes = src.as_bytes();
        let name_of = |s: &'static str| -> (String, &'static str) {
            // s starts after '@' or '%'
            if let Some(r) = s.strip_prefix('"') {
                let e = r.find('"').unwrap();
                (unquote(&r[..e]), &r[e + 1..])
            } else {
                let e = s.bytes().position(|c| !is_word(c)).unwrap_or(s.len());
                (s[..e].to_string(), &s[e..])
            }
        };
        while pos < src.len() {
            let end = match bytes[pos..].iter().position(|c| *c == b'\n') {
                Some(e) => pos + e,
                None => src.len(),
            };
            let line: &'static str = &src[pos..end];
            let mut next = end + 1;
            match line.as_bytes().first() {
                Some(b'%') => {
                    let (n, r) = name_of(&line[1..]);
                    let r = r.trim_start().strip_prefix("= type").unwrap();
                    types.insert(n, r);
                }
                Some(b'@') => {
                    let (n, r) = name_of(&line[1..]);
                    let r = r.trim_start().strip_prefix('=').unwrap();
                    // linkage etc. up to 'global' | 'constant' | 'alias'
                    let mut kind = None;
                    let mut rest = r.trim_start();
                    loop {
                        let e = rest.bytes().position(|c| c == b' ' || c == b'(').unwrap_or(rest.len());
                        let w = &rest[..e];
                        if w == "global" || w == "constant" {
                            kind = Some(Kind::Var { text: &rest[e..], constant: w == "constant" });
                            break;
                        }
                        if w == "alias" {
                            kind = Some(Kind::Alias { text: &rest[e..] });
                            break;
                        }
                        if w == "ifunc" || rest.is_empty() {
                            break;
                        }
                        if rest.as_bytes().get(e) == Some(&b'(') {
                            let c = rest.find(')').unwrap();
                            rest = rest[c + 1..].trim_start();
                        } else {
                            rest = rest[e..].trim_start();
                        }
                    }
                    if let Some(kind) = kind {
                        globs.push(Glob { name: n, kind });
                    }
                }
                Some(b'd') if line.starts_with("define") => {
                    let at = find_fn_at(line);
                    let (n, _) = name_of(&line[at + 1..]);
                    // body until a line "}"
                    let bstart = end + 1;
                    let mut p = bstart;
                    loop {
                        if bytes[p] == b'}' {
                            break;
                        }
                        p = p + bytes[p..].iter().position(|c| *c == b'\n').unwrap() + 1;
                    }
                    globs.push(Glob { name: n, kind: Kind::Func { head: &line[6..], body: &src[bstart..p] } });
                    next = p + 2;
                }
                Some(b'd') if line.starts_with("declare") => {
                    let at = find_fn_at(line);
                    let (n, _) = name_of(&line[at + 1..]);
                    globs.push(Glob { name: n, kind: Kind::Decl });
                }
                _ => {}
            }
            pos = next;
        }
        let names = globs.iter().enumerate().map(|(i, g)| (g.name.clone(), i as u32 + 1)).collect();
        Module { globs, names, types, tcache: Default::default(), fcache: Default::default() }
    }
    pub fn glob(&self, id: u32) -> Option<&Glob> {
        if id == 0 {
            return None;
        }
        self.globs.get(id as usize - 1)
    }
    pub fn gaddr(&self, name: &str) -> u64 {
        let n = unquote(name);
        let id = *self.names.get(&n).unwrap_or_else(|| panic!("unknown global {}", n));
        if let Kind::Alias { text } = self.globs[id as usize - 1].kind {
            let mut l = Lex::new(text);
            let _ = self.ty(&mut l);
            l.want(b',');
            let (_, k) = self.tyconst(&mut l);
            if let K::Int(a) = k {
                return a as u64;
            }
            panic!("alias");
        }
        addr_of(id)
    }

    pub fn ty(&self, l: &mut Lex) -> TyR {
        match l.next() {
            Tok::W(w) => match w {
                "void" => Rc::new(Ty::Void),
                "ptr" => Rc::new(Ty::Ptr),
                "float" => Rc::new(Ty::Float(32)),
                "double" => Rc::new(Ty::Float(64)),
                "half" => Rc::new(Ty::Float(16)),
                "fp128" => Rc::new(Ty::Float(128)),
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                    Rc::new(Ty::Int(w[1..].parse().unwrap()))
                }
                _ => Rc::new(Ty::Other),
            },
            Tok::L(n) => {
                let n = unquote(n);
                if let Some(t) = self.tcache.borrow().get(&n) {
                    return t.clone();
                }
                let text = self.types.get(&n).unwrap_or_else(|| panic!("type {}", n));
                let mut l2 = Lex::new(text);
                let t = self.ty(&mut l2);
                self.tcache.borrow_mut().insert(n, t.clone());
                t
            }
            Tok::P(b'[') => {
                let Tok::W(n) = l.next() else { panic!() };
                assert!(l.eatw("x"));
                let t = self.ty(l);
                l.want(b']');
                Rc::new(Ty::Arr(n.parse().unwrap(), t))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                while !l.eat(b'}') {
                    f.push(self.ty(l));
                    l.eat(b',');
                }
                Rc::new(Ty::Struct(f, false))
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let mut f = vec![];
                    while !l.eat(b'}') {
                        f.push(self.ty(l));
                        l.eat(b',');
                    }
                    l.want(b'>');
                    return Rc::new(Ty::Struct(f, true));
                }
                let Tok::W(n) = l.next() else { panic!() };
                assert!(l.eatw("x"), "scalable? {}", l.near());
                let t = self.ty(l);
                l.want(b'>');
                Rc::new(Ty::Vec(n.parse().unwrap(), t))
            }
            t => panic!("type? {:?} near {}", t, l.near()),
        }
    }
    fn tyconst(&self, l: &mut Lex) -> (TyR, K) {
        let t = self.ty(l);
        let k = self.konst(l, &t);
        (t, k)
    }
    pub fn konst(&self, l: &mut Lex, t: &TyR) -> K {
        match l.next() {
            Tok::W(w) => match w {
                "true" => K::Int(1),
                "false" | "null" => K::Int(0),
                "undef" | "poison" | "zeroinitializer" | "none" => K::Zero,
                "splat" => {
                    l.want(b'(');
                    let (et, k) = self.tyconst(l);
                    l.want(b')');
                    let Ty::Vec(n, _) = **t else { panic!() };
                    K::Agg(vec![(et, k); n as usize])
                }
                "getelementptr" => {
                    while let Tok::W(_) = l.t {
                        l.next();
                        if l.is(b'(') && l.near().contains("inrange") {
                            // inrange(a, b)
                            let save = l.i;
                            let st = l.t;
                            l.next();
                            if matches!(l.t, Tok::W(x) if x.parse::<i64>().is_ok()) {
                                while !l.eat(b')') {
                                    l.next();
                                }
                            } else {
                                l.i = save;
                                l.t = st;
                            }
                        }
                    }
                    l.want(b'(');
                    let et = self.ty(l);
                    l.want(b',');
                    let (_, base) = self.tyconst(l);
                    let mut a = kint(&base) as u64;
                    let mut cur = et;
                    let mut first = true;
                    while l.eat(b',') {
                        let (it, k) = self.tyconst(l);
                        let v = crate::expr::sx(kint(&k) as u64, it.bits());
                        if first {
                            a = a.wrapping_add((v * cur.size() as i64) as u64);
                            first = false;
                        } else {
                            a = a.wrapping_add(match *cur {
                                Ty::Struct(..) => cur.field_off(v as usize),
                                _ => (v * cur.elem(0).size() as i64) as u64,
                            });
                            cur = cur.elem(v as usize);
                        }
                    }
                    l.want(b')');
                    K::Int(a as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    while let Tok::W(_) = l.t {
                        l.next();
                    }
                    l.want(b'(');
                    let (_, k) = self.tyconst(l);
                    assert!(l.eatw("to"));
                    let tt = self.ty(l);
                    l.want(b')');
                    match (&k, &*tt) {
                        (K::Int(v), Ty::Int(w)) => K::Int(v & crate::expr::mask128(*w)),
                        _ => k,
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while let Tok::W(_) = l.t {
                        l.next();
                    }
                    l.want(b'(');
                    let (at, a) = self.tyconst(l);
                    l.want(b',');
                    let (_, b) = self.tyconst(l);
                    l.want(b')');
                    let (x, y) = (kint(&a), kint(&b));
                    let r = match w {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        _ => x ^ y,
                    };
                    K::Int(r & crate::expr::mask128(at.bits()))
                }
                _ => {
                    if let Ty::Float(fw) = **t {
                        let bits = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).unwrap_or(0)
                        } else {
                            w.parse::<f64>().unwrap_or(0.0).to_bits()
                        };
                        let bits = if fw == 32 { (f64::from_bits(bits) as f32).to_bits() as u64 } else { bits };
                        return K::Int(bits as u128);
                    }
                    let wd = match **t {
                        Ty::Int(w) => w,
                        Ty::Ptr => 64,
                        _ => panic!("const {} of {:?} near {}", w, t, l.near()),
                    };
                    let v = if let Some(n) = w.strip_prefix('-') {
                        (n.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                    } else {
                        w.parse::<u128>().unwrap_or_else(|_| panic!("int {} near {}", w, l.near()))
                    };
                    K::Int(v & crate::expr::mask128(wd))
                }
            },
            Tok::G(n) => K::Int(self.gaddr(n) as u128),
            Tok::S(s) => K::Bytes(unescape(s)),
            Tok::P(b'[') => {
                let mut v = vec![];
                while !l.eat(b']') {
                    v.push(self.tyconst(l));
                    l.eat(b',');
                }
                K::Agg(v)
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !l.eat(b'}') {
                    v.push(self.tyconst(l));
                    l.eat(b',');
                }
                K::Agg(v)
            }
            Tok::P(b'<') => {
                let st = l.eat(b'{');
                let mut v = vec![];
                loop {
                    if st && l.eat(b'}') {
                        l.want(b'>');
                        break;
                    }
                    if !st && l.eat(b'>') {
                        break;
                    }
                    v.push(self.tyconst(l));
                    l.eat(b',');
                }
                K::Agg(v)
            }
            t => panic!("const? {:?} near {}", t, l.near()),
        }
    }
    /// Writes a constant of type `t` at `off`.
    pub fn flatten(&self, k: &K, t: &TyR, out: &mut [u8], off: usize) {
        match k {
            K::Zero => {}
            K::Int(v) => {
                let n = t.size() as usize;
                for i in 0..n.min(16) {
                    out[off + i] = (v >> (8 * i)) as u8;
                }
            }
            K::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
            K::Agg(v) => {
                for (i, (et, k)) in v.iter().enumerate() {
                    self.flatten(k, et, out, off + t.field_off(i) as usize);
                }
            }
        }
    }
    pub fn kval(&self, k: &K, t: &TyR) -> Opd {
        match (k, &**t) {
            (_, Ty::Int(w)) if *w > 64 => Opd::W(*w, if let K::Int(v) = k { *v } else { 0 }),
            _ => Opd::K(self.kv(k, t)),
        }
    }
    fn kv(&self, k: &K, t: &TyR) -> V {
        match (&**t, k) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), _) => {
                let w = t.bits().min(64);
                V::I(E::C(w as u8, if let K::Int(v) = k { *v as u64 } else { 0 }))
            }
            (Ty::Struct(f, _), K::Zero) => V::A(Rc::new(f.iter().map(|t| self.kv(&K::Zero, t)).collect())),
            (Ty::Arr(n, t) | Ty::Vec(n, t), K::Zero) => {
                V::A(Rc::new((0..*n).map(|_| self.kv(&K::Zero, t)).collect()))
            }
            (_, K::Agg(v)) => V::A(Rc::new(v.iter().map(|(t, k)| self.kv(k, t)).collect())),
            (Ty::Arr(..), K::Bytes(b)) => V::A(Rc::new(b.iter().map(|b| V::I(E::C(8, *b as u64))).collect())),
            _ => V::I(E::C(64, 0)),
        }
    }
    /// Initial bytes of a global variable.
    pub fn init(&self, id: u32) -> Option<(Vec<u8>, bool)> {
        let g = self.glob(id)?;
        match g.kind {
            Kind::Var { text, constant } => {
                let mut l = Lex::new(text);
                let t = self.ty(&mut l);
                let mut out = vec![0u8; t.size() as usize];
                if !(l.t == Tok::End || l.is(b',')) {
                    let k = self.konst(&mut l, &t);
                    self.flatten(&k, &t, &mut out, 0);
                }
                Some((out, constant))
            }
            _ => None,
        }
    }
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.fcache.borrow().get(&id) {
            return Some(f.clone());
        }
        let g = self.glob(id)?;
        let Kind::Func { head, body } = g.kind else { return None };
        let f = Rc::new(FuncParser::parse(self, &g.name, head, body));
        self.fcache.borrow_mut().insert(id, f.clone());
        Some(f)
    }
}

/// Position of the '@' naming the function on a define/declare line.
fn find_fn_at(line: &str) -> usize {
    let b = line.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' {
            q = !q;
        }
        if b[i] == b'@' && !q {
            return i;
        }
    }
    panic!("no name in {}", line)
}

const PARAM_ATTRS: &[&str] = &[
    "noundef", "zeroext", "signext", "inreg", "noalias", "nofree", "nonnull", "readonly", "readnone", "writeonly",
    "returned", "nest", "immarg", "swiftself", "swifterror", "allocalign", "allocptr", "noext", "dead_on_unwind",
    "writable", "dead_on_return", "nocapture", "inalloca",
];
const PARAM_ATTRS_P: &[&str] = &[
    "captures", "dereferenceable", "dereferenceable_or_null", "range", "initializes", "sret", "byval", "align", "nofpclass",
    "memory", "elementtype", "byref", "preallocated", "dead_on_return",
];

struct FuncParser<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    nallocas: usize,
}

impl<'a> FuncParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn attrs(&self, l: &mut Lex) {
        loop {
            match l.t {
                Tok::W(w) if PARAM_ATTRS_P.contains(&w) => {
                    l.next();
                    if l.is(b'(') {
                        l.skip_paren();
                    } else if w == "align" {
                        l.next();
                    }
                }
                Tok::W(w) if PARAM_ATTRS.contains(&w) => {
                    l.next();
                }
                Tok::S(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => break,
            }
        }
    }
    fn parse(m: &'a Module, name: &str, head: &'static str, body: &'static str) -> Func {
        let mut p = FuncParser { m, regs: HashMap::new(), blocks: HashMap::new(), nallocas: 0 };
        // parameters
        let at = find_fn_at(head);
        let mut l = Lex::new(&head[at..]);
        l.next();
        l.want(b'(');
        let mut np = 0;
        while !l.eat(b')') {
            if l.eatw("...") {
                continue;
            }
            let _ = m.ty(&mut l);
            p.attrs(&mut l);
            if let Tok::L(n) = l.t {
                l.next();
                p.reg(n);
            } else {
                p.reg(&format!("\u{0}{}", np));
            }
            np += 1;
            l.eat(b',');
        }
        // pre-scan labels
        let mut labels: Vec<String> = vec![];
        for line in body.lines() {
            let b = line.as_bytes();
            if b.is_empty() || b[0] == b' ' || b[0] == b';' || b[0] == b'\t' {
                continue;
            }
            let n = if b[0] == b'"' {
                unquote(&line[1..1 + line[1..].find('"').unwrap()])
            } else {
                line[..line.find(':').unwrap_or(line.len())].to_string()
            };
            labels.push(n);
        }
        // the entry block may be unlabelled
        let first_is_label = body.lines().find(|l| !l.trim().is_empty() && !l.trim_start().starts_with(';')).map_or(false, |l| !l.starts_with(' '));
        let mut off = 0;
        if !first_is_label {
            // implicit label: the next unnamed number = number of unnamed parameters
            p.blocks.insert(format!("{}", np), 0);
            off = 1;
        }
        for (i, n) in labels.iter().enumerate() {
            p.blocks.insert(n.clone(), (i + off) as u32);
        }
        let nb = labels.len() + off;
        let mut blocks: Vec<Block> = Vec::with_capacity(nb);
        if !first_is_label {
            blocks.push(Block::default());
        }
        // split into logical instructions: a line, plus continuation lines for switch/invoke/landingpad
        let mut pos = 0;
        let bb = body.as_bytes();
        while pos < body.len() {
            let end = bb[pos..].iter().position(|c| *c == b'\n').map_or(body.len(), |e| pos + e);
            let line: &'static str = &body[pos..end];
            let mut next = end + 1;
            let t = line.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('#') {
                pos = next;
                continue;
            }
            if !line.starts_with(' ') {
                blocks.push(Block::default());
                pos = next;
                continue;
            }
            let mut stop = end;
            if t.starts_with("switch ") && !line.trim_end().ends_with(']') && !line.contains("], !") {
                // until line that starts with "  ]"
                loop {
                    let e = bb[next..].iter().position(|c| *c == b'\n').map_or(body.len(), |e| next + e);
                    let ln = &body[next..e];
                    stop = e;
                    next = e + 1;
                    if ln.trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if t.contains("invoke ") && !t.starts_with("to label") {
                let e = bb[next..].iter().position(|c| *c == b'\n').map_or(body.len(), |e| next + e);
                stop = e;
                next = e + 1;
            }
            if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                pos = next;
                continue;
            }
            let text: &'static str = &body[pos..stop];
            let bi = blocks.len() - 1;
            let r = p.ins(text);
            match r {
                Parsed::Phi(d, v) => blocks[bi].phis.push((d, v)),
                Parsed::I(i) => blocks[bi].ins.push(i),
            }
            pos = next;
        }
        Func {
            name: name.to_string(),
            nparams: np,
            nregs: p.regs.len(),
            blocks,
            allocas: p.nallocas,
        }
    }
    fn opd(&mut self, l: &mut Lex, t: &TyR) -> Opd {
        if let Tok::L(n) = l.t {
            l.next();
            let n = unquote(n);
            return Opd::R(self.reg(&n));
        }
        let k = self.m.konst(l, t);
        self.m.kval(&k, t)
    }
    fn tyopd(&mut self, l: &mut Lex) -> (TyR, Opd) {
        let t = self.m.ty(l);
        let o = self.opd(l, &t);
        (t, o)
    }
    fn label(&mut self, l: &mut Lex) -> u32 {
        assert!(l.eatw("label"), "label near {}", l.near());
        let Tok::L(n) = l.next() else { panic!() };
        *self.blocks.get(&unquote(n)).unwrap_or_else(|| panic!("no block {}", n))
    }
    fn ins(&mut self, text: &'static str) -> Parsed {
        let mut l = Lex::new(text);
        let l = &mut l;
        let mut dst = None;
        if let Tok::L(n) = l.t {
            l.next();
            l.want(b'=');
            let n = unquote(n);
            dst = Some(self.reg(&n));
        }
        let Tok::W(op) = l.next() else { panic!("ins {}", text) };
        let d = dst.unwrap_or(u32::MAX);
        let bop = match op {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            _ => None,
        };
        if let Some(o) = bop {
            while matches!(l.t, Tok::W("nuw" | "nsw" | "exact" | "disjoint")) {
                l.next();
            }
            let (t, a) = self.tyopd(l);
            l.want(b',');
            let b = self.opd(l, &t);
            return Parsed::I(Ins::Bin(o, d, a, b));
        }
        let i = match op {
            "icmp" => {
                l.eatw("samesign");
                let Tok::W(p) = l.next() else { panic!() };
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("pred {}", p),
                };
                let (t, a) = self.tyopd(l);
                l.want(b',');
                let b = self.opd(l, &t);
                Ins::Icmp(p, d, a, b)
            }
            "zext" | "sext" | "trunc" => {
                while matches!(l.t, Tok::W("nuw" | "nsw" | "nneg")) {
                    l.next();
                }
                let (_, a) = self.tyopd(l);
                assert!(l.eatw("to"));
                let t = self.m.ty(l);
                let w = match &*t {
                    Ty::Vec(_, e) => e.bits(),
                    t => t.bits(),
                };
                Ins::Cast(
                    match op {
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        _ => Cast::Trunc,
                    },
                    d,
                    a,
                    w,
                )
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "fneg" | "fcmp" => {
                let fmf = |l: &mut Lex| {
                    while matches!(l.t, Tok::W("nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "arcp" | "afn")) {
                        l.next();
                    }
                };
                fmf(l);
                let mut pred = "";
                if op == "fcmp" {
                    let Tok::W(p) = l.next() else { panic!() };
                    pred = p;
                    fmf(l);
                }
                let (t, a) = self.tyopd(l);
                let w = match &*t {
                    Ty::Float(w @ (32 | 64)) => *w,
                    _ => return Parsed::I(Ins::Unsup(text.trim().to_string())),
                };
                if op == "fneg" {
                    return Parsed::I(Ins::Fneg(d, a));
                }
                l.want(b',');
                let b = self.opd(l, &t);
                let (k, swap, neg) = match (op, pred) {
                    ("fadd", _) => (Fp::Add, false, false),
                    ("fsub", _) => (Fp::Sub, false, false),
                    ("fmul", _) => (Fp::Mul, false, false),
                    ("fdiv", _) => (Fp::Div, false, false),
                    (_, "oeq") => (Fp::Eq, false, false),
                    (_, "une") => (Fp::Eq, false, true),
                    (_, "olt") => (Fp::Lt, false, false),
                    (_, "ogt") => (Fp::Lt, true, false),
                    (_, "ole") => (Fp::Le, false, false),
                    (_, "oge") => (Fp::Le, true, false),
                    (_, "uge") => (Fp::Lt, false, true),
                    (_, "ule") => (Fp::Lt, true, true),
                    (_, "ugt") => (Fp::Le, false, true),
                    (_, "ult") => (Fp::Le, true, true),
                    (_, "uno") => (Fp::Uno, false, false),
                    (_, "ord") => (Fp::Uno, false, true),
                    (_, "one") => return Parsed::I(Ins::Fcmp2(Fp::Lt, false, d, a, b)),
                    (_, "ueq") => return Parsed::I(Ins::Fcmp2(Fp::Lt, true, d, a, b)),
                    _ => return Parsed::I(Ins::Unsup(text.trim().to_string())),
                };
                let (a, b) = if swap { (b, a) } else { (a, b) };
                Ins::Fp(k, d, a, Some(b), if op == "fcmp" { 1 } else { w }, neg)
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while matches!(l.t, Tok::W("nneg" | "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "arcp" | "afn")) {
                    l.next();
                }
                let (ft, a) = self.tyopd(l);
                assert!(l.eatw("to"));
                let t = self.m.ty(l);
                let ok = |t: &Ty, w: u32| matches!(t, Ty::Float(32 | 64)) || matches!(t, Ty::Int(x) if *x <= w);
                if !ok(&ft, 128) || !ok(&t, 64) {
                    return Parsed::I(Ins::Unsup(text.trim().to_string()));
                }
                let k = match op {
                    "uitofp" => Fp::FromU,
                    "sitofp" => Fp::FromS,
                    "fptoui" => Fp::ToU,
                    "fptosi" => Fp::ToS,
                    _ => Fp::Conv,
                };
                Ins::Fp(k, d, a, None, t.bits(), false)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                let (ft, a) = self.tyopd(l);
                assert!(l.eatw("to"));
                let t = self.m.ty(l);
                match (&*ft, &*t) {
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => Ins::BitCastVec(d, a, ft, t),
                    (Ty::Int(x), Ty::Ptr) if *x < 64 => Ins::Cast(Cast::Zext, d, a, 64),
                    (Ty::Ptr, Ty::Int(x)) if *x < 64 => Ins::Cast(Cast::Trunc, d, a, *x),
                    _ => Ins::Copy(d, a),
                }
            }
            "freeze" => {
                let (_, a) = self.tyopd(l);
                Ins::Copy(d, a)
            }
            "select" => {
                let (_, c) = self.tyopd(l);
                l.want(b',');
                let (t, a) = self.tyopd(l);
                l.want(b',');
                let (_, b) = self.tyopd(l);
                Ins::Select(d, c, a, b, matches!(*t, Ty::Ptr))
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = self.m.ty(l);
                let mut n = 1u64;
                let mut dynamic = false;
                while l.eat(b',') {
                    if l.isw("align") {
                        break;
                    }
                    if l.is(b'!') {
                        break;
                    }
                    let (_, c) = self.tyopd(l);
                    match c {
                        Opd::K(V::I(E::C(_, v))) => n = v,
                        _ => dynamic = true,
                    }
                }
                self.nallocas += 1;
                if dynamic {
                    Ins::Unsup("dynamic alloca".into())
                } else {
                    Ins::Alloca(d, t.size() * n)
                }
            }
            "load" => {
                while matches!(l.t, Tok::W("volatile" | "atomic")) {
                    l.next();
                }
                let t = self.m.ty(l);
                l.want(b',');
                let (_, p) = self.tyopd(l);
                Ins::Load(d, t, p)
            }
            "store" => {
                while matches!(l.t, Tok::W("volatile" | "atomic")) {
                    l.next();
                }
                let (t, v) = self.tyopd(l);
                l.want(b',');
                let (_, p) = self.tyopd(l);
                Ins::Store(v, t, p)
            }
            "getelementptr" => {
                while matches!(l.t, Tok::W("inbounds" | "nuw" | "nusw")) {
                    l.next();
                }
                let et = self.m.ty(l);
                l.want(b',');
                let (_, base) = self.tyopd(l);
                let mut k = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    if l.is(b'!') {
                        break;
                    }
                    let (it, o) = self.tyopd(l);
                    let w = it.bits();
                    let is_struct = !first && matches!(*cur, Ty::Struct(..));
                    if is_struct {
                        let Opd::K(V::I(E::C(_, v))) = o else { panic!("struct gep") };
                        k += cur.field_off(v as usize) as i64;
                        cur = cur.elem(v as usize);
                        continue;
                    }
                    let sz = if first {
                        cur.size() as i64
                    } else {
                        let e = cur.elem(0);
                        let s = e.size() as i64;
                        cur = e;
                        s
                    };
                    first = false;
                    match o {
                        Opd::K(V::I(E::C(_, v))) => k = k.wrapping_add(crate::expr::sx(v, w).wrapping_mul(sz)),
                        o => terms.push((o, w, sz)),
                    }
                }
                Ins::Gep(d, base, k, terms)
            }
            "phi" => {
                let t = self.m.ty(l);
                let mut v = vec![];
                loop {
                    l.want(b'[');
                    let o = self.opd(l, &t);
                    l.want(b',');
                    let Tok::L(n) = l.next() else { panic!() };
                    let b = *self.blocks.get(&unquote(n)).unwrap_or_else(|| panic!("phi block {} in {}", n, text));
                    l.want(b']');
                    v.push((b, o));
                    if !l.eat(b',') || !l.is(b'[') {
                        break;
                    }
                }
                return Parsed::Phi(d, v);
            }
            "br" => {
                if l.isw("label") {
                    Ins::Br(self.label(l))
                } else {
                    let (_, c) = self.tyopd(l);
                    l.want(b',');
                    let a = self.label(l);
                    l.want(b',');
                    let b = self.label(l);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(l);
                l.want(b',');
                let dflt = self.label(l);
                l.want(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let (_, c) = self.m.tyconst(l);
                    l.want(b',');
                    let b = self.label(l);
                    cases.push((kint(&c), b));
                }
                Ins::Switch(v, dflt, cases, t.bits())
            }
            "ret" => {
                if l.isw("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tyopd(l);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Unsup("resume".into()),
            "landingpad" => Ins::Unsup("landingpad".into()),
            "fence" => Ins::Nop,
            "extractvalue" => {
                let (_, a) = self.tyopd(l);
                Ins::ExtractValue(d, a, idxs(l))
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(l);
                l.want(b',');
                let (_, b) = self.tyopd(l);
                Ins::InsertValue(d, a, b, idxs(l))
            }
            "extractelement" => {
                let (_, a) = self.tyopd(l);
                l.want(b',');
                let (_, i) = self.tyopd(l);
                Ins::ExtractElement(d, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyopd(l);
                l.want(b',');
                let (_, v) = self.tyopd(l);
                l.want(b',');
                let (_, i) = self.tyopd(l);
                Ins::InsertElement(d, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(l);
                l.want(b',');
                let (_, b) = self.tyopd(l);
                l.want(b',');
                let (mt, m) = self.m.tyconst(l);
                let Ty::Vec(n, _) = *mt else { panic!() };
                let idx = match m {
                    K::Agg(v) => v.iter().map(|(_, k)| kint(k) as u32).collect(),
                    _ => vec![0; n as usize],
                };
                Ins::Shuffle(d, a, b, idx)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") {
                    l.next();
                }
                // fast-math flags, calling convention, return attributes
                loop {
                    match l.t {
                        Tok::W("fastcc" | "coldcc" | "ccc" | "nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "arcp" | "afn") => {
                            l.next();
                        }
                        Tok::W("cc") => {
                            l.next();
                            l.next();
                        }
                        Tok::W(w) if w == "preserve_mostcc" || w == "preserve_allcc" => {
                            l.next();
                        }
                        _ => {
                            let before = l.i;
                            self.attrs(l);
                            if l.i == before {
                                break;
                            }
                        }
                    }
                }
                let ret = self.m.ty(l);
                if l.is(b'(') {
                    l.skip_paren(); // function type of a variadic callee
                }
                let callee = match l.t {
                    Tok::G(n) => {
                        l.next();
                        let n = unquote(n);
                        Callee::Direct(n)
                    }
                    Tok::L(_) => Callee::Indirect(self.opd(l, &Rc::new(Ty::Ptr))),
                    Tok::W("asm") => {
                        l.next();
                        while let Tok::W(_) = l.t {
                            l.next();
                        }
                        let Tok::S(s) = l.next() else { panic!("asm {}", text) };
                        l.want(b',');
                        l.next();
                        Callee::Asm(s.to_string())
                    }
                    _ => {
                        let k = self.m.konst(l, &Rc::new(Ty::Ptr));
                        Callee::Indirect(Opd::K(V::I(E::C(64, kint(&k) as u64))))
                    }
                };
                let callee = match callee {
                    Callee::Direct(n) => match self.m.names.get(&n).map(|i| &self.m.globs[*i as usize - 1].kind) {
                        Some(Kind::Alias { .. }) => {
                            Callee::Indirect(Opd::K(V::I(E::C(64, self.m.gaddr(&n)))))
                        }
                        _ => Callee::Direct(n),
                    },
                    c => c,
                };
                l.want(b'(');
                let mut args = vec![];
                let mut argtys = vec![];
                while !l.eat(b')') {
                    let t = self.m.ty(l);
                    if *t == Ty::Other {
                        // metadata argument
                        let mut depth = 0;
                        while !(depth == 0 && (l.is(b',') || l.is(b')'))) {
                            if l.is(b'(') || l.is(b'{') {
                                depth += 1;
                            }
                            if l.is(b')') || l.is(b'}') {
                                depth -= 1;
                            }
                            l.next();
                        }
                    } else {
                        self.attrs(l);
                        let o = self.opd(l, &t);
                        args.push(o);
                        argtys.push(t);
                    }
                    l.eat(b',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !l.isw("to") {
                        if l.next() == Tok::End {
                            panic!("invoke {}", text);
                        }
                    }
                    l.next();
                    normal = Some(self.label(l));
                }
                Ins::Call(Box::new(Call { dst, ret, callee, args, argtys, normal }))
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let Tok::W(o) = l.next() else { panic!() };
                let (_, p) = self.tyopd(l);
                l.want(b',');
                let (t, v) = self.tyopd(l);
                Ins::Rmw(d, o.to_string(), p, v, t)
            }
            "cmpxchg" => {
                while matches!(l.t, Tok::W("weak" | "volatile")) {
                    l.next();
                }
                let (_, p) = self.tyopd(l);
                l.want(b',');
                let (t, c) = self.tyopd(l);
                l.want(b',');
                let (_, n) = self.tyopd(l);
                Ins::CmpXchg(d, p, c, n, t)
            }
            _ => Ins::Unsup(text.trim().to_string()),
        };
        Parsed::I(i)
    }
}
enum Parsed {
    Phi(u32, Vec<(u32, Opd)>),
    I(Ins),
}
fn idxs(l: &mut Lex) -> Vec<u32> {
    let mut v = vec![];
    while l.eat(b',') {
        match l.t {
            Tok::W(w) if w.parse::<u32>().is_ok() => {
                v.push(w.parse().unwrap());
                l.next();
            }
            _ => break,
        }
    }
    v
}
pub fn kint(k: &K) -> u128 {
    match k {
        K::Int(v) => *v,
        K::Zero => 0,
        _ => panic!("kint {:?}", k),
    }
}
