//! Hash-consed bit-vector expressions with a local simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// An expression: a constant of at most 64 bits, or a node of the arena.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E {
    C(u8, u64),
    N(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Sym,    // a = C(_, index)
    Wide,   // constant of more than 64 bits: a = low, b = high
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat, // a = high part, b = low part
    Extract, // b = C(_, low bit)
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Tab, // b = C(_, table id); a = index (64 bit); value = table[index] (8 bit)
    Fp(Fp), // IEEE 754 arithmetic on the bits of 32 or 64-bit numbers
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fp {
    Add,
    Sub,
    Mul,
    Div,
    Lt,
    Le,
    Eq,
    Uno,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    Min,
    Max,
    FromU,
    FromS,
    ToU, // truncated and saturated, 0 for NaN
    ToS,
    Conv,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub const Z0: E = E::C(0, 0);
pub const T: E = E::C(1, 1);
pub const F: E = E::C(1, 0);

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, u32>,
    /// set of symbols an expression depends on (index into `sets`)
    pub sup: Vec<u32>,
    pub sets: Vec<Rc<Vec<u32>>>,
    setmap: HashMap<Rc<Vec<u32>>, u32>,
    union_cache: FxMap<(u32, u32), u32>,
    pub tables: Vec<Rc<Vec<u8>>>,
    tabmap: HashMap<Rc<Vec<u8>>, u32>,
    /// value tables of nodes depending on one 8-bit symbol
    vtab: FxMap<u32, Rc<[u64; 256]>>,
}

pub fn mask(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w == 0 || w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn fold_fp(k: Fp, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    macro_rules! calc {
        ($f:ident, $x:expr, $y:expr) => {{
            let (x, y): ($f, $f) = ($x, $y);
            match k {
                Fp::Add => (x + y).to_bits() as u128,
                Fp::Sub => (x - y).to_bits() as u128,
                Fp::Mul => (x * y).to_bits() as u128,
                Fp::Div => (x / y).to_bits() as u128,
                Fp::Lt => (x < y) as u128,
                Fp::Le => (x <= y) as u128,
                Fp::Eq => (x == y) as u128,
                Fp::Uno => (x.is_nan() || y.is_nan()) as u128,
                Fp::Floor => x.floor().to_bits() as u128,
                Fp::Ceil => x.ceil().to_bits() as u128,
                Fp::Trunc => x.trunc().to_bits() as u128,
                Fp::Round => x.round().to_bits() as u128,
                Fp::RoundEven => x.round_ties_even().to_bits() as u128,
                Fp::Min => x.min(y).to_bits() as u128,
                Fp::Max => x.max(y).to_bits() as u128,
                Fp::ToU => (x as u128).min(mask128(w)),
                Fp::ToS => {
                    let h = 1i128 << (w - 1);
                    (x as i128).clamp(-h, h - 1) as u128
                }
                Fp::Conv if w == 32 => (x as f32).to_bits() as u128,
                Fp::Conv => (x as f64).to_bits() as u128,
                Fp::FromU | Fp::FromS => unreachable!(),
            }
        }};
    }
    let r = match (k, aw, w) {
        (Fp::FromU, _, 32) => (a as f32).to_bits() as u128,
        (Fp::FromU, ..) => (a as f64).to_bits() as u128,
        (Fp::FromS, _, 32) => (sx128(a, aw) as f32).to_bits() as u128,
        (Fp::FromS, ..) => (sx128(a, aw) as f64).to_bits() as u128,
        (_, 32, _) => calc!(f32, f32::from_bits(a as u32), f32::from_bits(b as u32)),
        _ => calc!(f64, f64::from_bits(a as u64), f64::from_bits(b as u64)),
    };
    r & mask128(w)
}
/// Concrete semantics, shared by the constant folder and the model evaluator.
pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    let am = mask128(aw);
    let (a, b) = (a & am, b & am);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx128(a, aw), sx128(b, aw));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    !0
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx128(a, aw), sx128(b, aw));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= aw as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= aw as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx128(a, aw);
            (if b >= aw as u128 { x >> (aw - 1).min(127) } else { x >> b }) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx128(a, aw) < sx128(b, aw)) as u128,
        Op::Sle => (sx128(a, aw) <= sx128(b, aw)) as u128,
        Op::Fp(k) => return fold_fp(k, w, aw, a, b),
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    /// Floating-point operation with a result of w bits; `b` repeats `a` where there is one operand.
    pub fn fp(&mut self, k: Fp, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            let v = fold(Op::Fp(k), w, self.w(a), x, y);
            return self.cst(w, v);
        }
        self.mk(Op::Fp(k), w, a, b, Z0)
    }
    pub fn new() -> Self {
        let mut s = Self::default();
        s.sets.push(Rc::new(vec![]));
        s.setmap.insert(s.sets[0].clone(), 0);
        s
    }
    pub fn w(&self, e: E) -> u32 {
        match e {
            E::C(w, _) => w as u32,
            E::N(n) => self.nodes[n as usize].w as u32,
        }
    }
    pub fn node(&self, e: E) -> Option<Node> {
        match e {
            E::N(n) => Some(self.nodes[n as usize]),
            _ => None,
        }
    }
    pub fn supp(&self, e: E) -> u32 {
        match e {
            E::C(..) => 0,
            E::N(n) => self.sup[n as usize],
        }
    }
    pub fn supp_set(&self, e: E) -> Rc<Vec<u32>> {
        self.sets[self.supp(e) as usize].clone()
    }
    fn intern_set(&mut self, v: Vec<u32>) -> u32 {
        let r = Rc::new(v);
        if let Some(i) = self.setmap.get(&r) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.setmap.insert(r, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(x) = self.union_cache.get(&k) {
            return *x;
        }
        let mut v: Vec<u32> = self.sets[a as usize].iter().chain(self.sets[b as usize].iter()).cloned().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.intern_set(v);
        self.union_cache.insert(k, r);
        r
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(i) = self.map.get(&n) {
            return E::N(*i);
        }
        let i = self.nodes.len() as u32;
        let s = match op {
            Op::Sym => {
                let E::C(_, k) = a else { unreachable!() };
                self.intern_set(vec![k as u32])
            }
            Op::Wide => 0,
            _ => {
                let x = self.union(self.supp(a), self.supp(b));
                self.union(x, self.supp(c))
            }
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.map.insert(n, i);
        E::N(i)
    }
    pub fn sym(&mut self, k: u32, w: u32) -> E {
        // the width is part of the identity: symbols of different widths at one index are distinct nodes
        self.mk(Op::Sym, w, E::C(64, k as u64), Z0, Z0)
    }
    pub fn cst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask128(w);
        if w <= 64 {
            E::C(w as u8, v as u64)
        } else {
            self.mk(Op::Wide, w, E::C(64, v as u64), E::C(64, (v >> 64) as u64), Z0)
        }
    }
    pub fn as_c(&self, e: E) -> Option<u128> {
        match e {
            E::C(_, v) => Some(v as u128),
            E::N(n) => {
                let n = &self.nodes[n as usize];
                if n.op == Op::Wide {
                    let (E::C(_, l), E::C(_, h)) = (n.a, n.b) else { unreachable!() };
                    Some((h as u128) << 64 | l as u128)
                } else {
                    None
                }
            }
        }
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        self.bin(Op::Xor, a, T)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let aw = self.w(a);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { aw };
        debug_assert_eq!(aw, self.w(b), "{:?}", op);
        if let (E::C(_, x), E::C(_, y)) = (a, b) {
            return E::C(w as u8, fold(op, w, aw, x as u128, y as u128) as u64);
        }
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, aw, x, y);
            return self.cst(w, v);
        }
        // commutative: constant to the right, otherwise ordered
        let (a, b, ca, cb) = if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ca.is_some() || (cb.is_none() && b < a))
        {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let m = mask128(aw);
        // a function of a table lookup is a lookup in another table
        if aw == 8 && (ca.is_some() || cb.is_some()) {
            let (x, left) = if cb.is_some() { (a, true) } else { (b, false) };
            if let Some(n) = self.node(x) {
                if n.op == Op::Tab {
                    let E::C(_, t) = n.b else { unreachable!() };
                    let k = ca.or(cb).unwrap();
                    let t: Vec<u8> = self.tables[t as usize]
                        .iter()
                        .map(|&v| if left { fold(op, w, 8, v as u128, k) } else { fold(op, w, 8, k, v as u128) } as u8)
                        .collect();
                    if !t.is_empty() && t.iter().all(|x| *x == t[0]) {
                        return self.cst(w, t[0] as u128);
                    }
                    if !cmp && !(matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && (k == 0 || !left)) {
                        let t = self.table(t);
                        return self.tab(t, n.a);
                    }
                }
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(y), Some(n)) = (cb, self.node(a)) {
                    if n.op == Op::Add {
                        if let Some(x) = self.as_c(n.b) {
                            let k = self.cst(aw, x.wrapping_add(y));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                    if n.op == Op::Ite {
                        if let (Some(_), Some(_)) = (self.as_c(n.b), self.as_c(n.c)) {
                            let t = self.bin(Op::Add, n.b, b);
                            let f = self.bin(Op::Add, n.c, b);
                            return self.ite(n.a, t, f);
                        }
                    }
                }
                // (x + c) + y -> (x + y) + c
                if cb.is_none() {
                    if let Some(n) = self.node(a) {
                        if n.op == Op::Add && self.as_c(n.b).is_some() {
                            let s = self.bin(Op::Add, n.a, b);
                            return self.bin(Op::Add, s, n.b);
                        }
                    }
                    if let Some(n) = self.node(b) {
                        if n.op == Op::Add && self.as_c(n.b).is_some() {
                            let s = self.bin(Op::Add, a, n.a);
                            return self.bin(Op::Add, s, n.b);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(aw, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(aw, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                // (x + c) - x, (x + c) - (x + d), x - (x + c)
                let (xa, ka) = self.split_add(a);
                let (xb, kb) = self.split_add(b);
                if xa == xb {
                    return self.cst(aw, ka.wrapping_sub(kb));
                }
                if kb != 0 {
                    let d = self.bin(Op::Sub, xa, xb);
                    let k = self.cst(aw, ka.wrapping_sub(kb));
                    return self.bin(Op::Add, d, k);
                }
                // (x + y) - x -> y
                if let Some(n) = self.node(xa) {
                    if n.op == Op::Add {
                        let k = self.cst(aw, ka);
                        if n.a == xb {
                            return self.bin(Op::Add, n.b, k);
                        }
                        if n.b == xb {
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(aw, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) && aw > 1 {
                    return a;
                }
                if let (Op::UDiv, Some(y)) = (op, cb) {
                    if y.is_power_of_two() {
                        let k = self.cst(aw, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                    if y > 0 && self.ub(a, 12) < y {
                        return self.cst(aw, 0);
                    }
                    // (x * ky + z) / y  ->  x * k + z / y
                    if let Some((x, k, z)) = self.multiple(a, y) {
                        let k = self.cst(aw, k);
                        let x = self.bin(Op::Mul, x, k);
                        let yc = self.cst(aw, y);
                        let z = self.bin(Op::UDiv, z, yc);
                        return self.bin(Op::Add, x, z);
                    }
                    // zext(x) / c  -> zext(x / c)
                    if let Some(n) = self.node(a) {
                        if let (Op::UDiv, Some(x)) = (n.op, self.as_c(n.b)) {
                            if x > 0 && y > 0 {
                                if x * y > m {
                                    return self.cst(aw, 0);
                                }
                                let k = self.cst(aw, x * y);
                                return self.bin(Op::UDiv, n.a, k);
                            }
                        }
                        if n.op == Op::ZExt {
                            let iw = self.w(n.a);
                            if y > mask128(iw) {
                                return self.cst(aw, 0);
                            }
                            let k = self.cst(iw, y);
                            let d = self.bin(Op::UDiv, n.a, k);
                            return self.zext(d, aw);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(aw, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                    if y > 0 && self.ub(a, 12) < y {
                        return a;
                    }
                    if let Some((_, _, z)) = self.multiple(a, y) {
                        let yc = self.cst(aw, y);
                        return self.bin(Op::URem, z, yc);
                    }
                    if let Some(n) = self.node(a) {
                        if n.op == Op::ZExt {
                            let iw = self.w(n.a);
                            if y > mask128(iw) {
                                return a;
                            }
                            let k = self.cst(iw, y);
                            let d = self.bin(Op::URem, n.a, k);
                            return self.zext(d, aw);
                        }
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if let Some(n) = self.node(a) {
                        match n.op {
                            Op::And => {
                                if let Some(x) = self.as_c(n.b) {
                                    let k = self.cst(aw, x & y);
                                    return self.bin(Op::And, n.a, k);
                                }
                            }
                            Op::ZExt => {
                                let iw = self.w(n.a);
                                let k = self.cst(iw, y);
                                let r = self.bin(Op::And, n.a, k);
                                return self.zext(r, aw);
                            }
                            Op::Concat => {
                                let lw = self.w(n.b);
                                let hw = self.w(n.a);
                                let kl = self.cst(lw, y);
                                let kh = self.cst(hw, y >> lw);
                                let h = self.bin(Op::And, n.a, kh);
                                let l = self.bin(Op::And, n.b, kl);
                                return self.concat(h, l);
                            }
                            Op::Ite if self.as_c(n.b).is_some() && self.as_c(n.c).is_some() => {
                                let t = self.bin(op, n.b, b);
                                let f = self.bin(op, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                            _ => {}
                        }
                    }
                    // low-bit mask -> zext(extract)
                    if (y + 1).is_power_of_two() && y != m {
                        let k = (y + 1).trailing_zeros();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, aw);
                    }
                } else if aw == 1 && self.is_neg(a, b) {
                    return F;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                } else {
                    if aw == 1 && self.is_neg(a, b) {
                        return T;
                    }
                    // or of disjoint parts -> concat
                    if let Some(r) = self.or_concat(a, b, aw) {
                        return r;
                    }
                }
                if let (Some(y), Some(n)) = (cb, self.node(a)) {
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let hi = self.cst(aw - iw, y >> iw);
                        let kl = self.cst(iw, y);
                        let l = self.bin(Op::Or, n.a, kl);
                        return self.concat(hi, l);
                    }
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let hw = self.w(n.a);
                        let kl = self.cst(lw, y);
                        let kh = self.cst(hw, y >> lw);
                        let h = self.bin(Op::Or, n.a, kh);
                        let l = self.bin(Op::Or, n.b, kl);
                        return self.concat(h, l);
                    }
                    if n.op == Op::Ite && self.as_c(n.b).is_some() && self.as_c(n.c).is_some() {
                        let t = self.bin(op, n.b, b);
                        let f = self.bin(op, n.c, b);
                        return self.ite(n.a, t, f);
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(aw, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if let Some(n) = self.node(a) {
                        match n.op {
                            Op::Xor => {
                                if let Some(x) = self.as_c(n.b) {
                                    let k = self.cst(aw, x ^ y);
                                    return self.bin(Op::Xor, n.a, k);
                                }
                            }
                            Op::ZExt if y <= mask128(self.w(n.a)) => {
                                let iw = self.w(n.a);
                                let k = self.cst(iw, y);
                                let r = self.bin(Op::Xor, n.a, k);
                                return self.zext(r, aw);
                            }
                            // not(a < b) -> b <= a
                            Op::Ult if aw == 1 => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule if aw == 1 => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt if aw == 1 => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle if aw == 1 => return self.bin(Op::Slt, n.b, n.a),
                            Op::Ite if self.as_c(n.b).is_some() && self.as_c(n.c).is_some() => {
                                let t = self.bin(op, n.b, b);
                                let f = self.bin(op, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl | Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= aw as u128 {
                        return self.cst(aw, 0);
                    }
                    let k = k as u32;
                    if op == Op::LShr {
                        let x = self.extract(a, k, aw - k);
                        return self.zext(x, aw);
                    } else {
                        let x = self.extract(a, 0, aw - k);
                        let z = self.cst(k, 0);
                        return self.concat(x, z);
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k.min(aw as u128 - 1)) as u32;
                    let x = self.extract(a, k, aw - k);
                    return self.sext(x, aw);
                }
            }
            Op::Eq => {
                if a == b {
                    return T;
                }
                if aw == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    if aw <= 64 && aw > 1 {
                        if self.ub(a, 12) < y {
                            return F;
                        }
                        if let Some(x) = self.untrunc(a) {
                            let k = self.cst(self.w(x), y);
                            return self.bin(op, x, k);
                        }
                        if let Some((x, c)) = self.udiv_by(a) {
                            if y * c > m {
                                return F;
                            }
                            let lo = self.cst(aw, y * c);
                            let l = self.bin(Op::Ule, lo, x);
                            if (y + 1) * c > m {
                                return l;
                            }
                            let hi = self.cst(aw, (y + 1) * c);
                            let h = self.bin(Op::Ult, x, hi);
                            return self.and1(l, h);
                        }
                    }
                }
                if let (Some(y), Some(n)) = (cb, self.node(a)) {
                    match n.op {
                        Op::Add => {
                            if let Some(x) = self.as_c(n.b) {
                                let k = self.cst(aw, y.wrapping_sub(x));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_c(n.b) {
                                let k = self.cst(aw, y ^ x);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if y > mask128(iw) {
                                return F;
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let k = self.cst(iw, y);
                            let back = sx128(y & mask128(iw), iw) as u128 & m;
                            if back != y {
                                return F;
                            }
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.cst(lw, y);
                            let kh = self.cst(hw, y >> lw);
                            let h = self.bin(Op::Eq, n.a, kh);
                            let l = self.bin(Op::Eq, n.b, kl);
                            return self.and1(h, l);
                        }
                        Op::Ite => {
                            let (tc, fc) = (self.as_c(n.b), self.as_c(n.c));
                            if tc.is_some() || fc.is_some() {
                                let t = self.bin(Op::Eq, n.b, b);
                                let f = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else if let (Some(x), Some(y)) = (self.node(a), self.node(b)) {
                    if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                        return self.bin(Op::Eq, x.a, y.a);
                    }
                    if x.op == Op::Concat && y.op == Op::Concat && self.w(x.b) == self.w(y.b) {
                        let h = self.bin(Op::Eq, x.a, y.a);
                        let l = self.bin(Op::Eq, x.b, y.b);
                        return self.and1(h, l);
                    }
                    let (xa, ka) = self.split_add(a);
                    let (xb, kb) = self.split_add(b);
                    if xa == xb {
                        return if ka == kb { T } else { F };
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return F;
                }
                if let (Some(y), Some(x)) = (cb, self.untrunc(a)) {
                    let k = self.cst(self.w(x), y);
                    return self.bin(op, x, k);
                }
                if let (Some(x), Some(y)) = (ca, self.untrunc(b)) {
                    let k = self.cst(self.w(y), x);
                    return self.bin(op, k, y);
                }
                if let Some(y) = cb {
                    if self.ub(a, 12) < y {
                        return T;
                    }
                    if let Some((x, c)) = self.udiv_by(a) {
                        // x / c < y
                        if y * c > m {
                            return T;
                        }
                        let k = self.cst(aw, y * c);
                        return self.bin(Op::Ult, x, k);
                    }
                }
                if let Some(y) = ca {
                    if self.ub(b, 12) <= y {
                        return F;
                    }
                    if let Some((x, c)) = self.udiv_by(b) {
                        // y < x / c
                        if (y + 1) * c > m {
                            return F;
                        }
                        let k = self.cst(aw, (y + 1) * c);
                        return self.bin(Op::Ule, k, x);
                    }
                }
                if let (Some(y), Some(n)) = (cb, self.node(a)) {
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if y > mask128(iw) {
                            return T;
                        }
                        let k = self.cst(iw, y);
                        return self.bin(Op::Ult, n.a, k);
                    }
                    if n.op == Op::Ite && (self.as_c(n.b).is_some() || self.as_c(n.c).is_some()) {
                        let t = self.bin(op, n.b, b);
                        let f = self.bin(op, n.c, b);
                        return self.ite(n.a, t, f);
                    }
                    if y == 1 {
                        let z = self.cst(aw, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                }
                if let (Some(x), Some(n)) = (ca, self.node(b)) {
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        if x >= mask128(iw) {
                            return F;
                        }
                        let k = self.cst(iw, x);
                        return self.bin(Op::Ult, k, n.a);
                    }
                    if n.op == Op::Ite && (self.as_c(n.b).is_some() || self.as_c(n.c).is_some()) {
                        let t = self.bin(op, a, n.b);
                        let f = self.bin(op, a, n.c);
                        return self.ite(n.a, t, f);
                    }
                }
                if let (Some(x), Some(y)) = (self.node(a), self.node(b)) {
                    if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                        return self.bin(Op::Ult, x.a, y.a);
                    }
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return T;
                }
                if let Some(y) = cb {
                    let k = self.cst(aw, y + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(x) = ca {
                    let k = self.cst(aw, x - 1);
                    return self.bin(Op::Ult, k, b);
                }
                if let (Some(x), Some(y)) = (self.node(a), self.node(b)) {
                    if x.op == Op::ZExt && y.op == Op::ZExt && self.w(x.a) == self.w(y.a) {
                        return self.bin(Op::Ule, x.a, y.a);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return if op == Op::Slt { F } else { T };
                }
                // both zero-extended: unsigned comparison
                let za = self.nonneg(a, aw);
                let zb = self.nonneg(b, aw);
                if za && zb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if za && cb.map_or(false, |y| y >> (aw - 1) == 1) {
                    return F;
                }
                if zb && ca.map_or(false, |x| x >> (aw - 1) == 1) {
                    return T;
                }
                if let (Some(_), Some(n)) = (cb, self.node(a)) {
                    if n.op == Op::Ite && (self.as_c(n.b).is_some() && self.as_c(n.c).is_some()) {
                        let t = self.bin(op, n.b, b);
                        let f = self.bin(op, n.c, b);
                        return self.ite(n.a, t, f);
                    }
                    if n.op == Op::SExt {
                        let iw = self.w(n.a);
                        let y = cb.unwrap();
                        let k = self.cst(iw, y);
                        if sx128(y & mask128(iw), iw) as u128 & m == y {
                            return self.bin(op, n.a, k);
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, Z0)
    }
    /// x where e is a truncation of the quotient or remainder x that loses nothing.
    fn untrunc(&self, e: E) -> Option<E> {
        let n = self.node(e)?;
        if n.op != Op::Extract || n.b != E::C(64, 0) || self.w(n.a) > 64 {
            return None;
        }
        let x = self.node(n.a)?;
        if matches!(x.op, Op::UDiv | Op::URem) && self.ub(n.a, 12) <= mask128(self.w(e)) {
            return Some(n.a);
        }
        None
    }
    /// x, k and z where e = x * (k * y) + z, without overflow.
    fn multiple(&mut self, e: E, y: u128) -> Option<(E, u128, E)> {
        let w = self.w(e);
        let m = mask128(w);
        if y < 2 || !matches!(self.node(e)?.op, Op::Add | Op::Mul) || self.ub_sum(e) > m {
            return None;
        }
        let mut terms = vec![];
        self.addends(e, &mut terms);
        for i in 0..terms.len() {
            let p = terms[i];
            let (x, k) = match (self.as_c(p), self.node(p)) {
                (Some(c), _) if c >= y => {
                    let (q, r) = (self.cst(w, c / y), self.cst(w, c % y));
                    terms[i] = r;
                    (q, 1)
                }
                (None, Some(n)) if n.op == Op::Mul => match self.as_c(n.b) {
                    Some(c) if c > 0 && c % y == 0 && self.ub(n.a, 12).checked_mul(c).map_or(false, |x| x <= m) => {
                        terms[i] = self.cst(w, 0);
                        (n.a, c / y)
                    }
                    _ => continue,
                },
                _ => continue,
            };
            let mut z = self.cst(w, 0);
            for t in terms {
                z = self.bin(Op::Add, z, t);
            }
            return Some((x, k, z));
        }
        None
    }
    fn addends(&self, e: E, out: &mut Vec<E>) {
        match self.node(e) {
            Some(n) if n.op == Op::Add && out.len() < 8 => {
                self.addends(n.a, out);
                self.addends(n.b, out);
            }
            _ => out.push(e),
        }
    }
    /// An upper bound of the sum of the addends (saturated).
    fn ub_sum(&self, e: E) -> u128 {
        match self.node(e) {
            Some(n) if n.op == Op::Add => self.ub_sum(n.a).saturating_add(self.ub_sum(n.b)),
            _ => self.ub(e, 12),
        }
    }
    /// x and c where e = x / c.
    fn udiv_by(&self, e: E) -> Option<(E, u128)> {
        let n = self.node(e)?;
        if n.op != Op::UDiv || self.w(e) > 64 {
            return None;
        }
        match self.as_c(n.b) {
            Some(c) if c > 0 => Some((n.a, c)),
            _ => None,
        }
    }
    /// An upper bound of the value.
    fn ub(&self, e: E, depth: u32) -> u128 {
        if let Some(c) = self.as_c(e) {
            return c;
        }
        let m = mask128(self.w(e));
        let Some(n) = self.node(e) else { return m };
        if depth == 0 {
            return m;
        }
        let d = depth - 1;
        match n.op {
            Op::ZExt => self.ub(n.a, d),
            Op::UDiv => match self.as_c(n.b) {
                Some(y) if y > 0 => self.ub(n.a, d) / y,
                _ => m,
            },
            Op::URem => match self.as_c(n.b) {
                Some(y) if y > 0 => self.ub(n.a, d).min(y - 1),
                _ => m,
            },
            Op::And => match self.as_c(n.b) {
                Some(y) => y.min(self.ub(n.a, d)),
                None => m,
            },
            Op::Add => match self.ub(n.a, d).checked_add(self.ub(n.b, d)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::Mul => match self.ub(n.a, d).checked_mul(self.ub(n.b, d)) {
                Some(x) if x <= m => x,
                _ => m,
            },
            Op::Concat => {
                let lw = self.w(n.b);
                if self.w(e) > 64 {
                    return m;
                }
                let h = self.ub(n.a, d);
                h << lw | if h == 0 || self.as_c(n.b).is_some() { self.ub(n.b, d) } else { mask128(lw) }
            }
            Op::Ite => self.ub(n.b, d).max(self.ub(n.c, d)),
            // the low bits of something small
            Op::Extract if n.b == E::C(64, 0) => self.ub(n.a, d).min(m),
            _ => m,
        }
    }
    fn nonneg(&self, e: E, w: u32) -> bool {
        if let Some(c) = self.as_c(e) {
            return c >> (w - 1) == 0;
        }
        match self.node(e) {
            Some(n) if n.op == Op::ZExt => true,
            Some(n) if n.op == Op::Concat => match self.as_c(n.a) {
                Some(h) => {
                    let hw = self.w(n.a);
                    h >> (hw - 1) == 0
                }
                None => false,
            },
            Some(n) if n.op == Op::Ite => self.nonneg(n.b, w) && self.nonneg(n.c, w),
            _ => false,
        }
    }
    fn split_add(&self, e: E) -> (E, u128) {
        if let Some(n) = self.node(e) {
            if n.op == Op::Add {
                if let Some(k) = self.as_c(n.b) {
                    return (n.a, k);
                }
            }
        }
        (e, 0)
    }
    fn is_neg(&mut self, a: E, b: E) -> bool {
        if let Some(n) = self.node(a) {
            if n.op == Op::Xor && n.b == T && n.a == b {
                return true;
            }
        }
        if let Some(n) = self.node(b) {
            if n.op == Op::Xor && n.b == T && n.a == a {
                return true;
            }
        }
        let x = self.node(a);
        if let Some(n) = x {
            let neg = match n.op {
                Op::Ult => Some((Op::Ule, n.b, n.a)),
                Op::Ule => Some((Op::Ult, n.b, n.a)),
                Op::Slt => Some((Op::Sle, n.b, n.a)),
                Op::Sle => Some((Op::Slt, n.b, n.a)),
                _ => None,
            };
            if let Some((o, p, q)) = neg {
                return self.bin(o, p, q) == b;
            }
        }
        false
    }
    /// x | y where x = concat(h, 0_k) and y = zext of at most k bits.
    fn or_concat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (na, nb) = (self.node(a)?, self.node(b)?);
        for (x, y) in [(na, nb), (nb, na)] {
            if x.op == Op::Concat && self.as_c(x.b) == Some(0) {
                let k = self.w(x.b);
                if y.op == Op::ZExt {
                    let iw = self.w(y.a);
                    if iw <= k {
                        let l = self.zext(y.a, k);
                        return Some(self.concat(x.a, l));
                    }
                }
                if y.op == Op::Concat && self.as_c(y.a) == Some(0) && self.w(y.b) <= k {
                    let l = self.zext(y.b, k);
                    return Some(self.concat(x.a, l));
                }
            }
            // concat(0, m) with zext... : zext(concat(h,0_k)) | zext(y)
            if x.op == Op::ZExt && y.op == Op::ZExt {
                let (wx, wy) = (self.w(x.a), self.w(y.a));
                if wx > wy || (wx == wy) {
                    let e = if wx == wy { y.a } else { self.zext(y.a, wx) };
                    if wx < w {
                        let r = self.bin(Op::Or, x.a, e);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.as_c(h), self.as_c(l)) {
            return self.cst(w, x << lw | y);
        }
        if self.as_c(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Some(x), Some(y)) = (self.node(h), self.node(l)) {
            // both halves chosen by the same condition
            if x.op == Op::Ite && y.op == Op::Ite && x.a == y.a && hw <= 64 && lw <= 64 {
                let t = self.concat(x.b, y.b);
                let f = self.concat(x.c, y.c);
                return self.ite(x.a, t, f);
            }
            if x.op == Op::Extract && y.op == Op::Extract && x.a == y.a {
                let (E::C(_, xo), E::C(_, yo)) = (x.b, y.b) else { unreachable!() };
                if xo == yo + lw as u64 {
                    return self.extract(x.a, yo as u32, w);
                }
            }
        }
        // x ++ (y ++ z) with x,y adjacent extracts or constants
        if let Some(y) = self.node(l) {
            if y.op == Op::Concat {
                let merge = match (self.node(h), self.node(y.a)) {
                    (Some(p), Some(q)) => {
                        p.op == Op::Extract && q.op == Op::Extract && p.a == q.a && {
                            let (E::C(_, po), E::C(_, qo)) = (p.b, q.b) else { unreachable!() };
                            po == qo + self.w(y.a) as u64
                        }
                    }
                    (None, None) => true,
                    _ => self.as_c(h).is_some() && self.as_c(y.a).is_some(),
                };
                if merge {
                    let h2 = self.concat(h, y.a);
                    return self.concat(h2, y.b);
                }
            }
        }
        // (x ++ y) ++ z : right-associate, so merging sees neighbours
        if let Some(x) = self.node(h) {
            if x.op == Op::Concat {
                let l2 = self.concat(x.b, l);
                return self.concat(x.a, l2);
            }
            if x.op == Op::ZExt {
                let inner = self.concat(x.a, l);
                return self.zext(inner, w);
            }
        }
        self.mk(Op::Concat, w, h, l, Z0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(c) = self.as_c(a) {
            return self.cst(w, c >> lo);
        }
        let n = self.node(a).unwrap();
        match n.op {
            Op::Extract => {
                let E::C(_, o) = n.b else { unreachable!() };
                return self.extract(n.a, o as u32 + lo, w);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.as_c(n.b).is_some() || self.as_c(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, E::C(64, lo as u64), Z0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_c(a) {
            return self.cst(w, c);
        }
        let n = self.node(a).unwrap();
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.as_c(n.b).is_some() && self.as_c(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::ZExt, w, a, Z0, Z0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(c) = self.as_c(a) {
            return self.cst(w, sx128(c, aw) as u128);
        }
        let n = self.node(a).unwrap();
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::SExt => return self.sext(n.a, w),
            Op::Ite if self.as_c(n.b).is_some() && self.as_c(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::SExt, w, a, Z0, Z0)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if c == T || t == f {
            return t;
        }
        if c == F {
            return f;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        if w == 1 {
            match (t, f) {
                (T, F) => return c,
                (F, T) => return self.not(c),
                (T, _) => return self.or1(c, f),
                (_, F) => return self.and1(c, t),
                (F, _) => {
                    let n = self.not(c);
                    return self.and1(n, f);
                }
                (_, T) => {
                    let n = self.not(c);
                    return self.or1(n, t);
                }
                _ => {}
            }
        }
        if let Some(n) = self.node(c) {
            if n.op == Op::Xor && n.b == T {
                return self.ite(n.a, f, t);
            }
        }
        if let Some(n) = self.node(t) {
            if n.op == Op::Ite && n.a == c {
                return self.ite(c, n.b, f);
            }
        }
        if let Some(n) = self.node(f) {
            if n.op == Op::Ite && n.a == c {
                return self.ite(c, t, n.c);
            }
        }
        self.mk(Op::Ite, w, c, t, f)
    }
    pub fn table(&mut self, t: Vec<u8>) -> u32 {
        let r = Rc::new(t);
        if let Some(i) = self.tabmap.get(&r) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(r.clone());
        self.tabmap.insert(r, i);
        i
    }
    pub fn tab(&mut self, tid: u32, idx: E) -> E {
        if let Some(i) = self.as_c(idx) {
            return E::C(8, self.tables[tid as usize].get(i as usize).copied().unwrap_or(0) as u64);
        }
        self.mk(Op::Tab, 8, idx, E::C(32, tid as u64), Z0)
    }

    /// Evaluates under a model (symbol index -> value).
    pub fn eval(&self, e: E, model: &[u64], memo: &mut FxMap<u32, u128>) -> u128 {
        let id = match e {
            E::C(_, v) => return v as u128,
            E::N(n) => n,
        };
        if let Some(v) = memo.get(&id) {
            return *v;
        }
        let n = self.nodes[id as usize];
        let w = n.w as u32;
        let v = match n.op {
            Op::Sym => {
                let E::C(_, k) = n.a else { unreachable!() };
                model.get(k as usize).copied().unwrap_or(0) as u128 & mask128(w)
            }
            Op::Wide => self.as_c(e).unwrap(),
            Op::Concat => {
                let lw = self.w(n.b);
                self.eval(n.a, model, memo) << lw | self.eval(n.b, model, memo)
            }
            Op::Extract => {
                let E::C(_, o) = n.b else { unreachable!() };
                (self.eval(n.a, model, memo) >> o) & mask128(w)
            }
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => {
                let aw = self.w(n.a);
                sx128(self.eval(n.a, model, memo), aw) as u128 & mask128(w)
            }
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Tab => {
                let E::C(_, t) = n.b else { unreachable!() };
                let i = self.eval(n.a, model, memo);
                self.tables[t as usize].get(i as usize).copied().unwrap_or(0) as u128
            }
            op => {
                let a = self.eval(n.a, model, memo);
                let b = self.eval(n.b, model, memo);
                fold(op, w, self.w(n.a), a, b)
            }
        };
        memo.insert(id, v);
        v
    }

    /// If `e` depends on exactly one symbol and that symbol is 8 bits wide: its index and
    /// the values of `e` for each of its 256 values.
    pub fn value_table(&mut self, e: E) -> Option<(u32, Rc<[u64; 256]>)> {
        let E::N(id) = e else { return None };
        let s = self.sets[self.sup[id as usize] as usize].clone();
        if s.len() != 1 || self.nodes[id as usize].w > 64 {
            return None;
        }
        self.vt(id).map(|t| (s[0], t))
    }
    fn vt(&mut self, id: u32) -> Option<Rc<[u64; 256]>> {
        if let Some(t) = self.vtab.get(&id) {
            return Some(t.clone());
        }
        let n = self.nodes[id as usize];
        if n.w > 64 {
            return None;
        }
        let w = n.w as u32;
        let mut out = [0u64; 256];
        if n.op == Op::Sym {
            if n.w != 8 {
                return None;
            }
            for (i, o) in out.iter_mut().enumerate() {
                *o = i as u64;
            }
        } else {
            let get = |s: &mut Self, e: E| -> Option<Rc<[u64; 256]>> {
                match e {
                    E::C(_, v) => Some(Rc::new([v; 256])),
                    E::N(k) => s.vt(k),
                }
            };
            match n.op {
                Op::Wide | Op::Sym => return None,
                Op::Concat => {
                    let lw = self.w(n.b);
                    let a = get(self, n.a)?;
                    let b = get(self, n.b)?;
                    for i in 0..256 {
                        out[i] = a[i] << lw | b[i];
                    }
                }
                Op::Extract => {
                    let a = get(self, n.a)?;
                    let E::C(_, o) = n.b else { unreachable!() };
                    for i in 0..256 {
                        out[i] = (a[i] >> o) & mask(w);
                    }
                }
                Op::ZExt => return get(self, n.a),
                Op::SExt => {
                    let aw = self.w(n.a);
                    let a = get(self, n.a)?;
                    for i in 0..256 {
                        out[i] = sx(a[i], aw) as u64 & mask(w);
                    }
                }
                Op::Ite => {
                    let c = get(self, n.a)?;
                    let a = get(self, n.b)?;
                    let b = get(self, n.c)?;
                    for i in 0..256 {
                        out[i] = if c[i] == 1 { a[i] } else { b[i] };
                    }
                }
                Op::Tab => {
                    let a = get(self, n.a)?;
                    let E::C(_, t) = n.b else { unreachable!() };
                    let t = self.tables[t as usize].clone();
                    for i in 0..256 {
                        out[i] = t.get(a[i] as usize).copied().unwrap_or(0) as u64;
                    }
                }
                op => {
                    let a = get(self, n.a)?;
                    let b = get(self, n.b)?;
                    let aw = self.w(n.a);
                    for i in 0..256 {
                        out[i] = fold(op, w, aw, a[i] as u128, b[i] as u128) as u64;
                    }
                }
            }
        }
        let r = Rc::new(out);
        if self.vtab.len() > 20_000 {
            self.vtab.clear();
        }
        self.vtab.insert(id, r.clone());
        Some(r)
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        match e {
            E::C(w, v) => format!("{}:{}", v, w),
            E::N(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::Sym {
                    let E::C(_, k) = n.a else { unreachable!() };
                    return format!("s{}", k);
                }
                if depth == 0 {
                    return format!("#{}", i);
                }
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] {
                    if x != Z0 {
                        s.push(' ');
                        s += &self.show(x, depth - 1);
                    }
                }
                s.push(')');
                s
            }
        }
    }
}
