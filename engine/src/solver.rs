//! Z3 back end (libz3 through its C API).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

extern "C" fn on_err(_: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    /// for queries about floating-point numbers, once there are any
    sf: Option<P>,
    floats: bool,
    timeout: u32,
    bv: FxMap<u32, P>,
    bo: FxMap<u32, P>,
    syms: HashMap<(u32, u32), P>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hits: u64,
    pub time: f64,
    pub max_time: f64,
    trace: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if std::env::var_os("RSX_Z3_DEFAULT").is_some() {
                Z3_mk_solver(c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Self::set_up(c, s, timeout_ms);
            Solver {
                c,
                s,
                sf: None,
                floats: false,
                timeout: timeout_ms,
                bv: Default::default(),
                bo: Default::default(),
                syms: Default::default(),
                cache: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                hits: 0,
                time: 0.0,
                max_time: 0.0,
                trace: std::env::var("RSX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9),
            }
        }
    }
    unsafe fn set_up(c: P, s: P, timeout_ms: u32) {
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, w: u32, v: u64) -> P {
        self.keep(Z3_mk_unsigned_int64(self.c, v, Z3_mk_bv_sort(self.c, w)))
    }
    unsafe fn symc(&mut self, k: u32, w: u32) -> P {
        if let Some(p) = self.syms.get(&(k, w)) {
            return *p;
        }
        let n = CString::new(format!("s{}_{}", k, w)).unwrap();
        let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w));
        self.keep(p);
        self.syms.insert((k, w), p);
        p
    }
    /// Decision tree over the bits of `idx`.
    unsafe fn tree(&mut self, idx: P, bits: u32, vals: &[u64], w: u32) -> P {
        if vals.iter().all(|v| *v == vals[0]) {
            return self.num(w, vals[0]);
        }
        let h = vals.len() / 2;
        let hi = self.tree(idx, bits - 1, &vals[h..], w);
        let lo = self.tree(idx, bits - 1, &vals[..h], w);
        let b = self.keep(Z3_mk_extract(self.c, bits - 1, bits - 1, idx));
        let one = self.num(1, 1);
        let c = self.keep(Z3_mk_eq(self.c, b, one));
        self.keep(Z3_mk_ite(self.c, c, hi, lo))
    }
    unsafe fn fsort(&self, w: u32) -> P {
        if w == 32 {
            Z3_mk_fpa_sort_32(self.c)
        } else {
            Z3_mk_fpa_sort_64(self.c)
        }
    }
    unsafe fn fpv(&mut self, ar: &mut Arena, e: E) -> P {
        // the number itself where the bits come from another operation
        if let E::N(id) = e {
            let n = ar.nodes[id as usize];
            if let Op::Fp(k) = n.op {
                if let Some(t) = self.fp_term(ar, k, n) {
                    return t;
                }
            }
        }
        let w = ar.w(e);
        let b = self.bv(ar, e);
        let s = self.keep(self.fsort(w));
        self.keep(Z3_mk_fpa_to_fp_bv(self.c, b, s))
    }
    unsafe fn fp_term(&mut self, ar: &mut Arena, k: Fp, n: Node) -> Option<P> {
        let c = self.c;
        let w = n.w as u32;
        let rne = self.keep(Z3_mk_fpa_rne(c));
        let p = match k {
            Fp::FromU | Fp::FromS => {
                let a = self.bv(ar, n.a);
                let s = self.keep(self.fsort(w));
                if k == Fp::FromU {
                    Z3_mk_fpa_to_fp_unsigned(c, rne, a, s)
                } else {
                    Z3_mk_fpa_to_fp_signed(c, rne, a, s)
                }
            }
            Fp::Lt | Fp::Le | Fp::Eq | Fp::Uno | Fp::ToU | Fp::ToS => return None,
            _ => {
                let a = self.fpv(ar, n.a);
                match k {
                    Fp::Conv => {
                        let s = self.keep(self.fsort(w));
                        Z3_mk_fpa_to_fp_float(c, rne, a, s)
                    }
                    Fp::Floor | Fp::Ceil | Fp::Trunc | Fp::Round | Fp::RoundEven => {
                        let rm = self.keep(match k {
                            Fp::Floor => Z3_mk_fpa_rtn(c),
                            Fp::Ceil => Z3_mk_fpa_rtp(c),
                            Fp::Trunc => Z3_mk_fpa_rtz(c),
                            Fp::Round => Z3_mk_fpa_rna(c),
                            _ => rne,
                        });
                        Z3_mk_fpa_round_to_integral(c, rm, a)
                    }
                    _ => {
                        let b = self.fpv(ar, n.b);
                        match k {
                            Fp::Add => Z3_mk_fpa_add(c, rne, a, b),
                            Fp::Sub => Z3_mk_fpa_sub(c, rne, a, b),
                            Fp::Mul => Z3_mk_fpa_mul(c, rne, a, b),
                            Fp::Div => Z3_mk_fpa_div(c, rne, a, b),
                            Fp::Min => Z3_mk_fpa_min(c, a, b),
                            _ => Z3_mk_fpa_max(c, a, b),
                        }
                    }
                }
            }
        };
        Some(self.keep(p))
    }
    unsafe fn fp_bv(&mut self, ar: &mut Arena, k: Fp, n: Node) -> P {
        let c = self.c;
        let w = n.w as u32;
        if let Some(t) = self.fp_term(ar, k, n) {
            return Z3_mk_fpa_to_ieee_bv(c, t);
        }
        let a = self.fpv(ar, n.a);
        let aw = ar.w(n.a);
        if k == Fp::ToU || k == Fp::ToS {
            let s = k == Fp::ToS;
            let pow = |e: u32| if aw == 32 { (2f32.powi(e as i32)).to_bits() as u64 } else { 2f64.powi(e as i32).to_bits() };
            let top = if s { w - 1 } else { w };
            let fs = self.keep(self.fsort(aw));
            let num = |z: &Self, v: u64| {
                let b = z.num(aw, v);
                z.keep(Z3_mk_fpa_to_fp_bv(z.c, b, fs))
            };
            let hi = num(self, pow(top));
            let zero = self.num(w, 0);
            let max = self.num(w, mask(top));
            let rtz = self.keep(Z3_mk_fpa_rtz(c));
            let conv = self.keep(if s { Z3_mk_fpa_to_sbv(c, rtz, a, w) } else { Z3_mk_fpa_to_ubv(c, rtz, a, w) });
            let (lowc, lowv) = if s {
                let sign = 1u64 << (aw - 1);
                let lo = num(self, pow(top) | sign);
                (self.keep(Z3_mk_fpa_leq(c, a, lo)), self.num(w, 1 << (w - 1)))
            } else {
                let z = num(self, 0);
                (self.keep(Z3_mk_fpa_leq(c, a, z)), zero)
            };
            let x = self.keep(Z3_mk_ite(c, lowc, lowv, conv));
            let big = self.keep(Z3_mk_fpa_leq(c, hi, a));
            let x = self.keep(Z3_mk_ite(c, big, max, x));
            let nan = self.keep(Z3_mk_fpa_is_nan(c, a));
            return Z3_mk_ite(c, nan, zero, x);
        }
        let b = self.fpv(ar, n.b);
        let q = match k {
            Fp::Lt => Z3_mk_fpa_lt(c, a, b),
            Fp::Le => Z3_mk_fpa_leq(c, a, b),
            Fp::Eq => Z3_mk_fpa_eq(c, a, b),
            _ => {
                let x = [self.keep(Z3_mk_fpa_is_nan(c, a)), self.keep(Z3_mk_fpa_is_nan(c, b))];
                Z3_mk_or(c, 2, x.as_ptr())
            }
        };
        self.keep(q);
        let one = self.num(1, 1);
        let z = self.num(1, 0);
        Z3_mk_ite(c, q, one, z)
    }
    unsafe fn bv(&mut self, ar: &mut Arena, e: E) -> P {
        let id = match e {
            E::C(w, v) => return self.num(w as u32, v),
            E::N(i) => i,
        };
        if let Some(p) = self.bv.get(&id) {
            return *p;
        }
        let n = ar.nodes[id as usize];
        let c = self.c;
        let w = n.w as u32;
        let p = match n.op {
            Op::Sym => {
                let E::C(_, k) = n.a else { unreachable!() };
                self.symc(k as u32, w)
            }
            Op::Wide => {
                let (E::C(_, l), E::C(_, h)) = (n.a, n.b) else { unreachable!() };
                let h = self.num(w - 64, h);
                let l = self.num(64, l);
                Z3_mk_concat(c, h, l)
            }
            Op::Concat => {
                let a = self.bv(ar, n.a);
                let b = self.bv(ar, n.b);
                Z3_mk_concat(c, a, b)
            }
            Op::Extract => {
                let E::C(_, lo) = n.b else { unreachable!() };
                let a = self.bv(ar, n.a);
                Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, a)
            }
            Op::ZExt => {
                let aw = ar.w(n.a);
                let a = self.bv(ar, n.a);
                Z3_mk_zero_ext(c, w - aw, a)
            }
            Op::SExt => {
                let aw = ar.w(n.a);
                let a = self.bv(ar, n.a);
                Z3_mk_sign_ext(c, w - aw, a)
            }
            Op::Ite => {
                let q = self.bool(ar, n.a);
                let a = self.bv(ar, n.b);
                let b = self.bv(ar, n.c);
                Z3_mk_ite(c, q, a, b)
            }
            Op::Tab => {
                let E::C(_, t) = n.b else { unreachable!() };
                let tab = ar.tables[t as usize].clone();
                if let Some((k, vt)) = ar.value_table(n.a) {
                    let vals: Vec<u64> =
                        vt.iter().map(|i| tab.get(*i as usize).copied().unwrap_or(0) as u64).collect();
                    let s = self.symc(k, 8);
                    self.tree(s, 8, &vals, 8)
                } else {
                    let n2 = tab.len().max(2).next_power_of_two();
                    let bits = n2.trailing_zeros();
                    let mut vals: Vec<u64> = tab.iter().map(|b| *b as u64).collect();
                    vals.resize(n2, 0);
                    let ix = ar.extract(n.a, 0, bits);
                    let i = self.bv(ar, ix);
                    self.tree(i, bits, &vals, 8)
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let q = self.bool(ar, e);
                let one = self.num(1, 1);
                let z = self.num(1, 0);
                Z3_mk_ite(c, q, one, z)
            }
            Op::Fp(k) => {
                self.floats = true;
                self.fp_bv(ar, k, n)
            }
            op => {
                let a = self.bv(ar, n.a);
                let b = self.bv(ar, n.b);
                match op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    _ => unreachable!(),
                }
            }
        };
        self.keep(p);
        self.bv.insert(id, p);
        p
    }
    unsafe fn bool(&mut self, ar: &mut Arena, e: E) -> P {
        let id = match e {
            E::C(_, v) => {
                let t = self.keep(Z3_mk_true(self.c));
                return if v == 1 { t } else { self.keep(Z3_mk_not(self.c, t)) };
            }
            E::N(i) => i,
        };
        if let Some(p) = self.bo.get(&id) {
            return *p;
        }
        let n = ar.nodes[id as usize];
        let c = self.c;
        let p = match n.op {
            Op::And | Op::Or => {
                let x = [self.bool(ar, n.a), self.bool(ar, n.b)];
                if n.op == Op::And {
                    Z3_mk_and(c, 2, x.as_ptr())
                } else {
                    Z3_mk_or(c, 2, x.as_ptr())
                }
            }
            Op::Xor => {
                let a = self.bool(ar, n.a);
                if n.b == T {
                    Z3_mk_not(c, a)
                } else {
                    let b = self.bool(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
            }
            Op::Ite => {
                let q = self.bool(ar, n.a);
                let a = self.bool(ar, n.b);
                let b = self.bool(ar, n.c);
                Z3_mk_ite(c, q, a, b)
            }
            Op::Eq if ar.w(n.a) == 1 => {
                let a = self.bool(ar, n.a);
                let b = self.bool(ar, n.b);
                Z3_mk_eq(c, a, b)
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.bv(ar, n.a);
                let b = self.bv(ar, n.b);
                match n.op {
                    Op::Eq => Z3_mk_eq(c, a, b),
                    Op::Ult => Z3_mk_bvult(c, a, b),
                    Op::Ule => Z3_mk_bvule(c, a, b),
                    Op::Slt => Z3_mk_bvslt(c, a, b),
                    _ => Z3_mk_bvsle(c, a, b),
                }
            }
            _ => {
                let a = self.bv(ar, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, a, one)
            }
        };
        self.keep(p);
        self.bo.insert(id, p);
        p
    }

    /// Decides the conjunction of `cs`; a model gives values for the symbols occurring in it.
    pub fn check(&mut self, ar: &mut Arena, mut cs: Vec<E>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut syms: Vec<u32> = cs.iter().flat_map(|e| ar.supp_set(*e).iter().cloned().collect::<Vec<_>>()).collect();
        syms.sort_unstable();
        syms.dedup();
        let r = unsafe {
            let bs: Vec<P> = cs.iter().map(|e| self.bool(ar, *e)).collect();
            if self.floats && self.sf.is_none() {
                let l = CString::new("QF_BVFP").unwrap();
                let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Self::set_up(self.c, s, self.timeout);
                self.sf = Some(s);
            }
            let solver = self.sf.unwrap_or(self.s);
            Z3_solver_push(self.c, solver);
            for b in bs {
                Z3_solver_assert(self.c, solver, b);
            }
            let r = match Z3_solver_check(self.c, solver) {
                1 => {
                    let m = Z3_solver_get_model(self.c, solver);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    let all: Vec<((u32, u32), P)> = self
                        .syms
                        .iter()
                        .filter(|((k, _), _)| syms.binary_search(k).is_ok())
                        .map(|(a, b)| (*a, *b))
                        .collect();
                    for ((k, _), p) in all {
                        let mut v = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.c, m, p, false, &mut v) && Z3_get_numeral_uint64(self.c, v, &mut u) {
                            out.push((k, u));
                        }
                    }
                    // unconstrained symbols of the query default to 0
                    for k in &syms {
                        if !out.iter().any(|(a, _)| a == k) {
                            out.push((*k, 0));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(Rc::new(out))
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, solver, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.trace {
            eprintln!("-- {:.2}s {}", dt, if matches!(r, Res::Sat(_)) { "sat" } else { "unsat or unknown" });
            for e in &cs {
                eprintln!("   {}", ar.show(*e, 9));
            }
        }
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.cache.insert(cs, r.clone());
        r
    }
}
