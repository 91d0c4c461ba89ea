//! Symbolic execution of LLVM IR: states, memory, instruction semantics, path forking.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const STACK0: u32 = 0x0100_0000;
const HEAP0: u32 = 0x0200_0000;

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Box<FxMap<u32, u32>>>,
    ro: bool,
}
impl Obj {
    fn new(n: u64) -> Obj {
        Obj { data: vec![0; n as usize], sym: None, ro: false }
    }
    fn size(&self) -> u64 {
        self.data.len() as u64
    }
    fn byte(&self, i: u64) -> E {
        if let Some(s) = &self.sym {
            if let Some(n) = s.get(&(i as u32)) {
                return E::N(*n);
            }
        }
        E::C(8, self.data[i as usize] as u64)
    }
    fn set(&mut self, i: u64, e: E) {
        match e {
            E::C(_, v) => {
                self.data[i as usize] = v as u8;
                if let Some(s) = &mut self.sym {
                    s.remove(&(i as u32));
                }
            }
            E::N(n) => {
                self.sym.get_or_insert_with(Default::default).insert(i as u32, n);
            }
        }
    }
    fn concrete(&self, a: u64, n: u64) -> bool {
        match &self.sym {
            None => true,
            Some(s) => {
                if s.is_empty() {
                    true
                } else if (s.len() as u64) < n {
                    !s.keys().any(|k| (*k as u64) >= a && (*k as u64) < a + n)
                } else {
                    (a..a + n).all(|i| !s.contains_key(&(i as u32)))
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    blk: u32,
    idx: u32,
    prev: u32,
    regs: Vec<V>,
    stack_base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Tape {
    Sym(u32),
    Const(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    globals: FxMap<u32, Rc<Obj>>,
    pc: Vec<E>,
    dom: Vec<[u64; 4]>,
    wide: Vec<bool>, // symbol is wider than 8 bits
    coupled: Vec<bool>,
    model: Vec<u64>,
    subst: FxMap<u32, E>,
    sha: Vec<Rc<(Vec<E>, Vec<E>)>>,
    tape: Vec<Tape>,
    obs: Vec<Rc<Vec<E>>>,
    expect_panic: bool,
    env: u32,            // 2: fixed random bytes, 4: fixed clock, 8 and up: the bit to invert and one
    since: u32,          // bytes drawn when it was set
    drawn: Rc<Vec<E>>,   // random bytes drawn so far
    clocks: u32,         // clock readings so far
    clock: Option<(E, E, E)>, // the next reading, its step and nanoseconds, where the harness sets them
    digest_syms: Option<(u32, u32)>, // next token: bytes [a,b) become fresh symbols
    steps: u64,
    forks: u32,
    tokens: u32,
    freed: u32,
}

pub struct Child {
    cons: Option<E>,
    act: Act,
}
pub enum Act {
    Again,
    Subst(E, E),
    Jump(u32),
    Choose(Option<u32>, u64),
}
pub enum Stop {
    Fork(Vec<Child>),
    End(&'static str),
    Viol(String, String, Option<Vec<(u32, u64)>>), // kind, detail, model overrides
    Err(String),
    Dead,
}
type R<X> = Result<X, Stop>;

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_solver: u64,
    pub dom_decided: u64,
    pub labels: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<String>,
    pub errs: Vec<String>,
    pub nerrs: u64,
    pub viols: Vec<Viol>,
    pub nviols: u64,
    pub samples: Vec<Sample>,
    pub sha_sym: u64,
    pub sha_conc: u64,
    pub sha_eqs: u64,
    pub max_syms: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub qtime: f64,
    pub qmax: f64,
    pub cache_hits: u64,
    pub pending: u64,
}
#[derive(Clone)]
pub struct Viol {
    pub kind: String,
    pub detail: String,
    pub tape: Vec<u64>,
    pub stack: Vec<String>,
}
#[derive(Clone)]
pub struct Sample {
    pub tape: Vec<u64>,
    pub obs: Vec<Vec<u8>>,
    pub end: String,
    pub usable: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Calloc,
    Malloc,
    CRealloc,
    Free,
    PosixMemalign,
    Nop,
    Zero,
    Ident,
    Assume,
    Ov(Op, bool),
    Sat(Op, bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fsh(bool),
    MinMax(Pred),
    Abs,
    Cmp3(bool),
    IsConst,
    Fp1(Fp),
    Fp2(Fp),
    Fabs,
    Copysign,
    Reduce(Op),
    ReduceMM(Pred),
    Ptrmask,
    Panic,
    Abort,
    Trap,
    Sha1,
    RtEnv,
    RtNDrawn,
    RtDrawn,
    RtNClock,
    RtSetClock,
    Getrandom,
    ClockGettime,
    Syscall,
    MoveMask,
    RtU8,
    RtU64,
    RtBytes,
    RtChoose,
    RtAssume,
    RtAssert,
    RtAssertEq,
    RtExpectPanic,
    RtObserve,
    RtReach,
    RtDigestSyms,
    RtConcrete,
}
enum Target {
    F(&'static Func),
    B(Bi, String),
    Unk(String),
}
const NO_ANSWER: &str = "solver gave no answer";

pub struct Engine {
    pub m: Module,
    pub ar: Arena,
    pub sol: Solver,
    targets: FxMap<usize, Rc<Target>>,
    ftargets: FxMap<u32, Rc<Target>>,
    gcache: FxMap<u32, Rc<Obj>>,
    pub st: Stats,
    pub max_steps: u64,
    pub keep_samples: usize,
    /// Start, and the milliseconds after it at which to stop.
    pub deadline: Option<(Instant, &'static AtomicU64)>,
    tabcache: FxMap<(u32, u32), u32>,
    pub trace: bool,
    sample_seen: u64,
}

fn bit(d: &[u64; 4], i: usize) -> bool {
    d[i >> 6] >> (i & 63) & 1 == 1
}
fn full_dom() -> [u64; 4] {
    [!0; 4]
}

fn builtin(n: &str) -> Option<Bi> {
    let int_ov = |p: &str| n.starts_with(p);
    Some(match n {
        "memcpy" | "memmove" => Bi::Memcpy,
        "floor" | "floorf" => Bi::Fp1(Fp::Floor),
        "ceil" | "ceilf" => Bi::Fp1(Fp::Ceil),
        "trunc" | "truncf" => Bi::Fp1(Fp::Trunc),
        "round" | "roundf" => Bi::Fp1(Fp::Round),
        "rint" | "rintf" | "roundeven" | "roundevenf" => Bi::Fp1(Fp::RoundEven),
        "memset" => Bi::Memset,
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::CRealloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "abort" => Bi::Abort,
        "getrandom" => Bi::Getrandom,
        "clock_gettime" => Bi::ClockGettime,
        "syscall" => Bi::Syscall,
        "__cxa_thread_atexit_impl" => Bi::Zero,
        "dlsym" => Bi::Zero,
        "pthread_atfork" => Bi::Zero,
        "rsx_u8" => Bi::RtU8,
        "rsx_u64" => Bi::RtU64,
        "rsx_bytes" => Bi::RtBytes,
        "rsx_choose" => Bi::RtChoose,
        "rsx_assume" => Bi::RtAssume,
        "rsx_assert" => Bi::RtAssert,
        "rsx_assert_eq" => Bi::RtAssertEq,
        "rsx_expect_panic" => Bi::RtExpectPanic,
        "rsx_observe" => Bi::RtObserve,
        "rsx_reach" => Bi::RtReach,
        "rsx_digest_syms" => Bi::RtDigestSyms,
        "rsx_arm_env" => Bi::RtEnv,
        "rsx_ndrawn" => Bi::RtNDrawn,
        "rsx_drawn" => Bi::RtDrawn,
        "rsx_nclock" => Bi::RtNClock,
        "rsx_set_clock" => Bi::RtSetClock,
        "rsx_native" => Bi::Zero,
        "rsx_concrete" => Bi::RtConcrete,
        "rsx_sha1_compress" => Bi::Sha1,
        _ if n.starts_with("llvm.") => {
            if n.starts_with("llvm.memcpy.") || n.starts_with("llvm.memmove.") || n.starts_with("llvm.memcpy.inline") {
                Bi::Memcpy
            } else if n.starts_with("llvm.memset.") {
                Bi::Memset
            } else if n.starts_with("llvm.lifetime.")
                || n.starts_with("llvm.experimental.noalias")
                || n.starts_with("llvm.dbg.")
                || n.starts_with("llvm.invariant.")
                || n == "llvm.donothing"
                || n.starts_with("llvm.prefetch")
                || n.starts_with("llvm.x86.sse2.pause")
                || n.starts_with("llvm.fake.use")
            {
                Bi::Nop
            } else if n == "llvm.assume" {
                Bi::Assume
            } else if n.starts_with("llvm.expect.")
                || n.starts_with("llvm.threadlocal.address")
                || n.starts_with("llvm.launder.")
                || n.starts_with("llvm.strip.")
                || n.starts_with("llvm.ssa.copy")
            {
                Bi::Ident
            } else if int_ov("llvm.uadd.with.overflow") {
                Bi::Ov(Op::Add, false)
            } else if int_ov("llvm.sadd.with.overflow") {
                Bi::Ov(Op::Add, true)
            } else if int_ov("llvm.usub.with.overflow") {
                Bi::Ov(Op::Sub, false)
            } else if int_ov("llvm.ssub.with.overflow") {
                Bi::Ov(Op::Sub, true)
            } else if int_ov("llvm.umul.with.overflow") {
                Bi::Ov(Op::Mul, false)
            } else if int_ov("llvm.smul.with.overflow") {
                Bi::Ov(Op::Mul, true)
            } else if int_ov("llvm.uadd.sat") {
                Bi::Sat(Op::Add, false)
            } else if int_ov("llvm.sadd.sat") {
                Bi::Sat(Op::Add, true)
            } else if int_ov("llvm.usub.sat") {
                Bi::Sat(Op::Sub, false)
            } else if int_ov("llvm.ssub.sat") {
                Bi::Sat(Op::Sub, true)
            } else if int_ov("llvm.ctlz.") {
                Bi::Ctlz
            } else if int_ov("llvm.cttz.") {
                Bi::Cttz
            } else if int_ov("llvm.ctpop.") {
                Bi::Ctpop
            } else if int_ov("llvm.bswap.") {
                Bi::Bswap
            } else if int_ov("llvm.bitreverse.") {
                Bi::Bitrev
            } else if int_ov("llvm.fshl.") {
                Bi::Fsh(true)
            } else if int_ov("llvm.fshr.") {
                Bi::Fsh(false)
            } else if int_ov("llvm.umin.") {
                Bi::MinMax(Pred::Ult)
            } else if int_ov("llvm.umax.") {
                Bi::MinMax(Pred::Ugt)
            } else if int_ov("llvm.smin.") {
                Bi::MinMax(Pred::Slt)
            } else if int_ov("llvm.smax.") {
                Bi::MinMax(Pred::Sgt)
            } else if int_ov("llvm.abs.") {
                Bi::Abs
            } else if int_ov("llvm.ucmp.") {
                Bi::Cmp3(false)
            } else if int_ov("llvm.scmp.") {
                Bi::Cmp3(true)
            } else if n.starts_with("llvm.fpto") && n.contains(".sat.i") && (n.ends_with(".f64") || n.ends_with(".f32")) && !n.contains(".i128") {
                Bi::Fp1(if n.starts_with("llvm.fptoui") { Fp::ToU } else { Fp::ToS })
            } else if n.ends_with(".f64") || n.ends_with(".f32") {
                match n[5..].split('.').next().unwrap() {
                    "floor" => Bi::Fp1(Fp::Floor),
                    "ceil" => Bi::Fp1(Fp::Ceil),
                    "trunc" => Bi::Fp1(Fp::Trunc),
                    "round" => Bi::Fp1(Fp::Round),
                    "rint" | "nearbyint" | "roundeven" => Bi::Fp1(Fp::RoundEven),
                    "minnum" | "minimumnum" => Bi::Fp2(Fp::Min),
                    "maxnum" | "maximumnum" => Bi::Fp2(Fp::Max),
                    "fabs" => Bi::Fabs,
                    "copysign" => Bi::Copysign,
                    _ => return None,
                }
            } else if int_ov("llvm.is.constant") {
                Bi::IsConst
            } else if n == "llvm.trap" || n == "llvm.debugtrap" {
                Bi::Trap
            } else if int_ov("llvm.vector.reduce.add") {
                Bi::Reduce(Op::Add)
            } else if int_ov("llvm.vector.reduce.or") {
                Bi::Reduce(Op::Or)
            } else if int_ov("llvm.vector.reduce.and") {
                Bi::Reduce(Op::And)
            } else if int_ov("llvm.vector.reduce.xor") {
                Bi::Reduce(Op::Xor)
            } else if int_ov("llvm.vector.reduce.mul") {
                Bi::Reduce(Op::Mul)
            } else if int_ov("llvm.vector.reduce.umax") {
                Bi::ReduceMM(Pred::Ugt)
            } else if int_ov("llvm.vector.reduce.umin") {
                Bi::ReduceMM(Pred::Ult)
            } else if int_ov("llvm.ptrmask") {
                Bi::Ptrmask
            } else if n == "llvm.x86.sse2.pmovmskb.128" {
                Bi::MoveMask
            } else {
                return None;
            }
        }
        _ if n.starts_with("_R") || n.starts_with("_ZN") || n.starts_with("__r") => {
            if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") || n == "__rdl_alloc" || n == "__rust_alloc" {
                Bi::Alloc
            } else if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") || n == "__rust_alloc_zeroed" {
                Bi::AllocZ
            } else if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") || n == "__rust_dealloc" {
                Bi::Dealloc
            } else if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") || n == "__rust_realloc" {
                Bi::Realloc
            } else if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
                Bi::Nop
            } else if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("9panicking11begin_panic") {
                Bi::Panic
            } else if n.contains("4core9panicking14panic_nounwind") || n.contains("4core9panicking19panic_cannot_unwind") {
                Bi::Abort
            } else if n.contains("3std7process5abort") || n.contains("18handle_alloc_error") {
                Bi::Abort
            } else if n.contains("4sha18compress8compress") || n.contains("5sha_18compress8compress") {
                Bi::Sha1
            } else {
                return None;
            }
        }
        _ => return None,
    })
}

fn sha1_compress(st: &mut [u32; 5], blk: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
    }
    for i in 16..80 {
        w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
    }
    let (mut a, mut b, mut c, mut d, mut e) = (st[0], st[1], st[2], st[3], st[4]);
    for (i, wi) in w.iter().enumerate() {
        let (f, k) = match i {
            0..=19 => ((b & c) | (!b & d), 0x5a827999),
            20..=39 => (b ^ c ^ d, 0x6ed9eba1),
            40..=59 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
            _ => (b ^ c ^ d, 0xca62c1d6u32),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = t;
    }
    for (s, v) in st.iter_mut().zip([a, b, c, d, e]) {
        *s = s.wrapping_add(v);
    }
}

enum Off {
    C(u64),
    S(E),
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32) -> Engine {
        Engine {
            m,
            ar: Arena::new(),
            sol: Solver::new(timeout_ms),
            targets: Default::default(),
            ftargets: Default::default(),
            gcache: Default::default(),
            st: Default::default(),
            max_steps: 200_000_000,
            keep_samples: 20,
            deadline: None,
            tabcache: Default::default(),
            trace: false,
            sample_seen: 0,
        }
    }

    pub fn start(&mut self, name: &str, arg: Option<u64>) -> State {
        let id = *self.m.names.get(name).unwrap_or_else(|| panic!("no function {}", name));
        let f = self.func(id).expect("entry body");
        self.st.funcs.insert(f.name.clone());
        let mut regs = vec![V::I(Z0); f.nregs];
        if let Some(a) = arg {
            regs[0] = V::I(E::C(32, a));
        }
        State {
            frames: vec![Rc::new(Frame { f, blk: 0, idx: 0, prev: 0, regs, stack_base: 0, dst: None, normal: None })],
            stack: vec![],
            heap: vec![],
            globals: Default::default(),
            pc: vec![],
            dom: vec![],
            wide: vec![],
            coupled: vec![],
            model: vec![],
            subst: Default::default(),
            sha: vec![],
            tape: vec![],
            obs: vec![],
            expect_panic: false,
            env: 0,
            since: 0,
            drawn: Rc::new(vec![]),
            clocks: 0,
            clock: None,
            digest_syms: None,
            steps: 0,
            forks: 0,
            tokens: 0,
            freed: 0,
        }
    }
    fn func(&self, id: u32) -> Option<&'static Func> {
        let f = self.m.func(id)?;
        // functions stay in the module's cache for the life of the process
        Some(unsafe { &*Rc::as_ptr(&f) })
    }
    fn target_by_name(&mut self, n: &str) -> Rc<Target> {
        if let Some(b) = builtin(n) {
            return Rc::new(Target::B(b, n.to_string()));
        }
        if let Some(id) = self.m.names.get(n).cloned() {
            if let Some(f) = self.func(id) {
                self.st.funcs.insert(f.name.clone());
                return Rc::new(Target::F(f));
            }
        }
        Rc::new(Target::Unk(n.to_string()))
    }

    // ---------------------------------------------------------------- values

    fn use_e(&mut self, s: &State, e: E) -> E {
        if let E::N(n) = e {
            if !s.subst.is_empty() {
                if let Some(c) = s.subst.get(&n) {
                    return *c;
                }
            }
        }
        e
    }
    fn val(&mut self, s: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => {
                let fr = s.frames.last().unwrap();
                match &fr.regs[*r as usize] {
                    V::I(E::N(n)) => {
                        let n = *n;
                        V::I(self.use_e(s, E::N(n)))
                    }
                    v => v.clone(),
                }
            }
            Opd::K(v) => v.clone(),
            Opd::W(w, v) => V::I(self.ar.cst(*w, *v)),
        }
    }
    fn ve(&mut self, s: &State, o: &Opd) -> E {
        match o {
            Opd::R(r) => {
                let fr = s.frames.last().unwrap();
                match &fr.regs[*r as usize] {
                    V::I(E::C(w, v)) => E::C(*w, *v),
                    V::I(E::N(n)) => {
                        let n = *n;
                        self.use_e(s, E::N(n))
                    }
                    _ => panic!("aggregate where scalar expected in {}", fr.f.name),
                }
            }
            Opd::K(V::I(e)) => *e,
            Opd::K(_) => panic!("aggregate constant"),
            Opd::W(w, v) => self.ar.cst(*w, *v),
        }
    }
    fn set(&self, s: &mut State, r: u32, v: V) {
        if r != u32::MAX {
            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
            fr.regs[r as usize] = v;
        }
    }

    // ---------------------------------------------------------------- feasibility

    fn eval(&mut self, s: &State, e: E) -> u128 {
        if let E::C(_, v) = e {
            return v as u128;
        }
        let mut memo = FxMap::default();
        self.ar.eval(e, &s.model, &mut memo)
    }
    fn dom_expr(&mut self, s: &State, k: u32) -> Option<E> {
        if s.wide[k as usize] {
            return None;
        }
        let d = s.dom[k as usize];
        if d == full_dom() {
            return None;
        }
        let sy = self.ar.sym(k, 8);
        // a contiguous range is two comparisons, otherwise a table
        let members: Vec<u64> = (0..256).filter(|i| bit(&d, *i)).map(|i| i as u64).collect();
        let (lo, hi) = (members[0], *members.last().unwrap());
        if hi - lo + 1 == members.len() as u64 {
            let a = self.ar.bin(Op::Ule, E::C(8, lo), sy);
            let b = self.ar.bin(Op::Ule, sy, E::C(8, hi));
            return Some(self.ar.and1(a, b));
        }
        let t: Vec<u8> = (0..256).map(|i| bit(&d, i) as u8).collect();
        let t = self.ar.table(t);
        let ix = self.ar.zext(sy, 64);
        let x = self.ar.tab(t, ix);
        Some(self.ar.eq(x, E::C(8, 1)))
    }
    /// Path constraints connected to `e`, with `e`.
    fn slice(&mut self, s: &State, es: &[E]) -> Vec<E> {
        let mut out: Vec<E> = es.to_vec();
        let mut syms: BTreeSet<u32> = BTreeSet::new();
        for e in es {
            syms.extend(self.ar.supp_set(*e).iter());
        }
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut changed = false;
            for (i, c) in s.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let ss = self.ar.supp_set(*c);
                if ss.iter().any(|k| syms.contains(k)) {
                    used[i] = true;
                    out.push(*c);
                    for k in ss.iter() {
                        if syms.insert(*k) {
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for k in syms {
            if let Some(d) = self.dom_expr(s, k) {
                out.push(d);
            }
        }
        out
    }
    fn solve(&mut self, s: &State, es: &[E]) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        let q = self.slice(s, es);
        match self.sol.check(&mut self.ar, q) {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Err(NO_ANSWER.into())),
        }
    }
    /// Truth of a 1-bit expression over the domain of its only symbol.
    fn dom_truth(&mut self, s: &State, e: E) -> Option<(u32, bool, bool)> {
        let (k, t) = self.ar.value_table(e)?;
        let d = s.dom[k as usize];
        let (mut any_t, mut any_f) = (false, false);
        for i in 0..256 {
            if bit(&d, i) {
                if t[i] != 0 {
                    any_t = true
                } else {
                    any_f = true
                }
            }
        }
        Some((k, any_t, any_f))
    }
    /// Is `e` (1 bit) necessarily true / false / open on this path?
    fn query(&mut self, s: &State, e: E) -> R<Option<bool>> {
        if let E::C(_, v) = e {
            return Ok(Some(v == 1));
        }
        if let Some((k, t, f)) = self.dom_truth(s, e) {
            if !t || !f {
                self.st.dom_decided += 1;
                return Ok(Some(t));
            }
            if !s.coupled[k as usize] {
                self.st.dom_decided += 1;
                return Ok(None);
            }
        }
        let b = self.eval(s, e) == 1;
        let other = if b { self.ar.not(e) } else { e };
        Ok(match self.solve(s, &[other])? {
            None => Some(b),
            Some(_) => None,
        })
    }
    fn decide(&mut self, s: &mut State, e: E) -> R<bool> {
        let e = self.use_e(s, e);
        if let E::C(_, v) = e {
            return Ok(v == 1);
        }
        match self.query(s, e)? {
            Some(b) => {
                if let E::N(n) = e {
                    s.subst.insert(n, E::C(1, b as u64));
                }
                Ok(b)
            }
            None => {
                let n = self.ar.not(e);
                Err(Stop::Fork(vec![
                    Child { cons: Some(e), act: Act::Subst(e, T) },
                    Child { cons: Some(n), act: Act::Subst(e, F) },
                ]))
            }
        }
    }
    /// Value of `e` on this path, forking over its values when there are several.
    fn conc(&mut self, s: &mut State, e: E) -> R<u64> {
        let e = self.use_e(s, e);
        if let Some(v) = self.ar.as_c(e) {
            return Ok(v as u64);
        }
        let w = self.ar.w(e);
        if w == 1 {
            return self.decide(s, e).map(|b| b as u64);
        }
        if let Some((k, t)) = self.ar.value_table(e) {
            let d = s.dom[k as usize];
            let mut vals: Vec<u64> = (0..256).filter(|i| bit(&d, *i)).map(|i| t[i]).collect();
            vals.sort_unstable();
            vals.dedup();
            if vals.len() == 1 {
                if let E::N(n) = e {
                    s.subst.insert(n, E::C(w as u8, vals[0]));
                }
                return Ok(vals[0]);
            }
            if !s.coupled[k as usize] {
                let mut ch = vec![];
                for v in vals {
                    let c = self.ar.eq(e, E::C(w as u8, v));
                    ch.push(Child { cons: Some(c), act: Act::Subst(e, E::C(w as u8, v)) });
                }
                return Err(Stop::Fork(ch));
            }
        }
        let mut vals = vec![];
        let mut blocked = vec![];
        loop {
            let v = if vals.is_empty() {
                self.eval(s, e) as u64
            } else {
                match self.solve(s, &blocked)? {
                    None => break,
                    Some(m) => {
                        let mut mm = s.model.clone();
                        for (k, v) in m.iter() {
                            mm[*k as usize] = *v;
                        }
                        let mut memo = FxMap::default();
                        self.ar.eval(e, &mm, &mut memo) as u64
                    }
                }
            };
            vals.push(v);
            let c = self.ar.eq(e, E::C(w as u8, v));
            let n = self.ar.not(c);
            blocked.push(n);
            if vals.len() > 400 {
                return Err(Stop::Err(format!("more than 400 values for {}", self.ar.show(e, 3))));
            }
        }
        if vals.len() == 1 {
            if let E::N(n) = e {
                s.subst.insert(n, E::C(w as u8, vals[0]));
            }
            return Ok(vals[0]);
        }
        let mut ch = vec![];
        for v in vals {
            let c = self.ar.eq(e, E::C(w as u8, v));
            ch.push(Child { cons: Some(c), act: Act::Subst(e, E::C(w as u8, v)) });
        }
        Err(Stop::Fork(ch))
    }
    /// Adds a constraint known to be feasible, keeping the witness in step.
    fn constrain(&mut self, s: &mut State, e: E) -> R<()> {
        if let E::C(_, v) = e {
            return if v == 1 { Ok(()) } else { Err(Stop::Dead) };
        }
        if let Some(n) = self.ar.node(e) {
            if n.op == Op::And {
                self.constrain(s, n.a)?;
                return self.constrain(s, n.b);
            }
        }
        if let Some((k, t)) = self.ar.value_table(e) {
            let d = &mut s.dom[k as usize];
            for i in 0..256 {
                if t[i] == 0 {
                    d[i >> 6] &= !(1 << (i & 63));
                }
            }
            if *d == [0; 4] {
                return Err(Stop::Dead);
            }
            let d = *d;
            if !bit(&d, s.model[k as usize] as usize) {
                if !s.coupled[k as usize] {
                    let v = (0..256).find(|i| bit(&d, *i)).unwrap();
                    s.model[k as usize] = v as u64;
                } else {
                    match self.solve(s, &[e])? {
                        None => return Err(Stop::Dead),
                        Some(m) => {
                            for (k, v) in m.iter() {
                                s.model[*k as usize] = *v;
                            }
                        }
                    }
                }
            }
            // a symbol with one value left
            let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
            if cnt == 1 {
                let v = (0..256).find(|i| bit(&d, *i)).unwrap();
                let E::N(n) = self.ar.sym(k, 8) else { unreachable!() };
                s.subst.insert(n, E::C(8, v as u64));
            }
            return Ok(());
        }
        if self.eval(s, e) != 1 {
            match self.solve(s, &[e])? {
                None => return Err(Stop::Dead),
                Some(m) => {
                    for (k, v) in m.iter() {
                        s.model[*k as usize] = *v;
                    }
                }
            }
        }
        let ss = self.ar.supp_set(e);
        for k in ss.iter() {
            s.coupled[*k as usize] = true;
        }
        s.pc.push(e);
        Ok(())
    }

    // ---------------------------------------------------------------- memory

    fn obj(&mut self, s: &State, id: u32) -> Option<Rc<Obj>> {
        if id >= HEAP0 {
            return s.heap.get((id - HEAP0) as usize)?.clone();
        }
        if id >= STACK0 {
            return s.stack.get((id - STACK0) as usize).cloned();
        }
        if let Some(o) = s.globals.get(&id) {
            return Some(o.clone());
        }
        if let Some(o) = self.gcache.get(&id) {
            return Some(o.clone());
        }
        let (b, ro) = self.m.init(id)?;
        let o = Rc::new(Obj { data: b, sym: None, ro });
        self.gcache.insert(id, o.clone());
        Some(o)
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= HEAP0 {
            return s.heap.get_mut((id - HEAP0) as usize)?.as_mut().map(Rc::make_mut);
        }
        if id >= STACK0 {
            return s.stack.get_mut((id - STACK0) as usize).map(Rc::make_mut);
        }
        if !s.globals.contains_key(&id) {
            let o = self.obj(s, id)?;
            s.globals.insert(id, o);
        }
        s.globals.get_mut(&id).map(Rc::make_mut)
    }
    fn where_is(&self, a: u64) -> String {
        let id = (a >> 32) as u32;
        if id >= HEAP0 {
            format!("heap object {} offset {}", id - HEAP0, (a as u32) as i64 - BASE as i64)
        } else if id >= STACK0 {
            format!("stack object {} offset {}", id - STACK0, (a as u32) as i64 - BASE as i64)
        } else if let Some(g) = self.m.glob(id) {
            format!("global {} offset {}", g.name, (a as u32) as i64 - BASE as i64)
        } else {
            format!("address {:#x}", a)
        }
    }
    fn check(&mut self, s: &State, a: u64, n: u64, write: bool) -> R<(u32, u64)> {
        let id = (a >> 32) as u32;
        let off = (a & 0xffff_ffff).wrapping_sub(BASE);
        match self.obj(s, id) {
            Some(o) if off <= o.size() && n <= o.size() - off => {
                if write && o.ro {
                    return Err(Stop::Viol("memory".into(), format!("write to constant {}", self.where_is(a)), None));
                }
                Ok((id, off))
            }
            _ => Err(Stop::Viol(
                "memory".into(),
                format!("{} of {} bytes outside a live object: {}", if write { "write" } else { "read" }, n, self.where_is(a)),
                None,
            )),
        }
    }
    /// Resolves an address to one object; forks when it may point to several.
    fn resolve(&mut self, s: &mut State, a: E, n: u64, write: bool) -> R<(u32, Off)> {
        let a = self.use_e(s, a);
        if let E::C(_, v) = a {
            let (id, off) = self.check(s, v, n, write)?;
            return Ok((id, Off::C(off)));
        }
        if write {
            let v = self.conc(s, a)?;
            let (id, off) = self.check(s, v, n, write)?;
            return Ok((id, Off::C(off)));
        }
        // single symbol: look at all its values
        let w = self.eval(s, a) as u64;
        let (id, _) = self.check(s, w, n, write)?;
        let o = self.obj(s, id).unwrap();
        let lo = addr_of(id);
        let max = o.size() - n;
        let d = self.ar.bin(Op::Sub, a, E::C(64, lo));
        let inb = self.ar.bin(Op::Ule, d, E::C(64, max));
        match self.query(s, inb)? {
            Some(true) => Ok((id, Off::S(d))),
            _ => {
                // another value leads out of this object: split
                let nb = self.ar.not(inb);
                Err(Stop::Fork(vec![
                    Child { cons: Some(inb), act: Act::Again },
                    Child { cons: Some(nb), act: Act::Again },
                ]))
            }
        }
    }
    fn tab_of(&mut self, id: u32, o: &Rc<Obj>) -> u32 {
        // constant globals keep their table
        if id < STACK0 && o.ro {
            if let Some(t) = self.tabcache.get(&(id, 0)) {
                return *t;
            }
            let t = self.ar.table(o.data.clone());
            self.tabcache.insert((id, 0), t);
            return t;
        }
        self.ar.table(o.data.clone())
    }
    /// Bytes at an address.
    fn read_bytes(&mut self, s: &mut State, a: E, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.resolve(s, a, n, false)?;
        let o = self.obj(s, id).unwrap();
        match off {
            Off::C(off) => Ok((off..off + n).map(|i| o.byte(i)).collect()),
            Off::S(d) => {
                if n > 32 || o.size() > 1 << 16 || !o.concrete(0, o.size()) {
                    let v = self.conc(s, d)?;
                    return Ok((v..v + n).map(|i| o.byte(i)).collect());
                }
                let t = self.tab_of(id, &o);
                let mut out = vec![];
                for k in 0..n {
                    let ix = self.ar.bin(Op::Add, d, E::C(64, k));
                    out.push(self.ar.tab(t, ix));
                }
                Ok(out)
            }
        }
    }
    fn write_bytes(&mut self, s: &mut State, a: E, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.resolve(s, a, b.len() as u64, true)?;
        let Off::C(off) = off else { unreachable!() };
        let o = self.obj_mut(s, id).unwrap();
        for (i, e) in b.iter().enumerate() {
            o.set(off + i as u64, *e);
        }
        Ok(())
    }
    fn join(&mut self, b: &[E], w: u32) -> E {
        // little endian
        let n = b.len();
        if n <= 8 && b.iter().all(|e| matches!(e, E::C(..))) {
            let mut v = 0u64;
            for (i, e) in b.iter().enumerate() {
                let E::C(_, x) = e else { unreachable!() };
                v |= x << (8 * i);
            }
            return E::C(w as u8, v & mask(w));
        }
        let mut e = b[n - 1];
        for i in (0..n - 1).rev() {
            e = self.ar.concat(e, b[i]);
        }
        if self.ar.w(e) != w {
            e = self.ar.extract(e, 0, w);
        }
        e
    }
    fn load(&mut self, s: &mut State, t: &Ty, a: E) -> R<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = t.bits();
                let n = (w as u64 + 7) / 8;
                if let E::C(_, addr) = a {
                    let (id, off) = self.check(s, addr, n, false)?;
                    let r: &Obj = if id >= HEAP0 {
                        s.heap[(id - HEAP0) as usize].as_ref().unwrap()
                    } else if id >= STACK0 {
                        &s.stack[(id - STACK0) as usize]
                    } else if let Some(o) = s.globals.get(&id) {
                        o
                    } else {
                        &self.gcache[&id]
                    };
                    if n <= 8 && r.concrete(off, n) {
                        let mut v = 0u64;
                        for i in 0..n {
                            v |= (r.data[(off + i) as usize] as u64) << (8 * i);
                        }
                        return Ok(V::I(E::C(w as u8, v & mask(w))));
                    }
                    let b: Vec<E> = (off..off + n).map(|i| r.byte(i)).collect();
                    return Ok(V::I(self.join(&b, w)));
                }
                let b = self.read_bytes(s, a, n)?;
                Ok(V::I(self.join(&b, w)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    let o = self.ar.bin(Op::Add, a, E::C(64, t.field_off(i)));
                    v.push(self.load(s, ft, o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                if let (Ty::Vec(..), Ty::Int(w)) = (t, &**et) {
                    if *w % 8 != 0 {
                        return Err(Stop::Err(format!("load of {:?}", t)));
                    }
                }
                let mut v = vec![];
                for i in 0..*n {
                    let o = self.ar.bin(Op::Add, a, E::C(64, et.size() * i));
                    v.push(self.load(s, et, o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load of {:?}", t))),
        }
    }
    fn bytes_of(&mut self, e: E, n: u64) -> Vec<E> {
        let w = self.ar.w(e);
        let e = if (w as u64) < 8 * n { self.ar.zext(e, 8 * n as u32) } else { e };
        if n == 1 {
            return vec![e];
        }
        (0..n).map(|i| self.ar.extract(e, 8 * i as u32, 8)).collect()
    }
    fn store(&mut self, s: &mut State, t: &Ty, a: E, v: &V) -> R<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let n = (t.bits() as u64 + 7) / 8;
                let e = self.use_e(s, v.e());
                if let (E::C(_, addr), E::C(_, x)) = (a, e) {
                    if n <= 8 {
                        let (id, off) = self.check(s, addr, n, true)?;
                        let o = self.obj_mut(s, id).unwrap();
                        for i in 0..n {
                            o.data[(off + i) as usize] = (x >> (8 * i)) as u8;
                        }
                        if let Some(m) = &mut o.sym {
                            for i in 0..n {
                                m.remove(&((off + i) as u32));
                            }
                        }
                        return Ok(());
                    }
                }
                let b = self.bytes_of(e, n);
                self.write_bytes(s, a, &b)
            }
            Ty::Struct(f, _) => {
                let V::A(vs) = v else { return Err(Stop::Err("store agg".into())) };
                for (i, ft) in f.iter().enumerate() {
                    let o = self.ar.bin(Op::Add, a, E::C(64, t.field_off(i)));
                    self.store(s, ft, o, &vs[i])?;
                }
                Ok(())
            }
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                let V::A(vs) = v else { return Err(Stop::Err("store agg".into())) };
                for i in 0..*n {
                    let o = self.ar.bin(Op::Add, a, E::C(64, et.size() * i));
                    self.store(s, et, o, &vs[i as usize])?;
                }
                Ok(())
            }
            _ => Err(Stop::Err(format!("store of {:?}", t))),
        }
    }
    fn alloc(&mut self, s: &mut State, n: u64) -> R<E> {
        if n > 1 << 24 {
            return Err(Stop::Err(format!("allocation of {} bytes", n)));
        }
        let mut o = Obj::new(n);
        // fresh memory is not zero in general
        for b in o.data.iter_mut() {
            *b = 0xa5;
        }
        s.heap.push(Some(Rc::new(o)));
        Ok(E::C(64, addr_of(HEAP0 + s.heap.len() as u32 - 1)))
    }
    fn free(&mut self, s: &mut State, a: u64, size: Option<u64>) -> R<()> {
        let id = (a >> 32) as u32;
        if id < HEAP0 || (a & 0xffff_ffff) != BASE || s.heap.get((id - HEAP0) as usize).map_or(true, |o| o.is_none()) {
            return Err(Stop::Viol("memory".into(), format!("free of {}", self.where_is(a)), None));
        }
        if let Some(n) = size {
            let real = s.heap[(id - HEAP0) as usize].as_ref().unwrap().size();
            if real != n {
                return Err(Stop::Viol("memory".into(), format!("dealloc with size {} of object of {}", n, real), None));
            }
        }
        s.heap[(id - HEAP0) as usize] = None;
        s.freed += 1;
        Ok(())
    }

    // ---------------------------------------------------------------- symbols

    /// Depends on a symbol of more than a byte: better a path each way than a term with both.
    fn wide_dep(&self, s: &State, e: E) -> bool {
        self.ar.supp_set(e).iter().any(|k| s.wide[*k as usize])
    }
    fn new_sym(&mut self, s: &mut State, w: u32) -> E {
        let k = s.dom.len() as u32;
        s.dom.push(full_dom());
        s.wide.push(w > 8);
        s.coupled.push(false);
        s.model.push(if w == 8 { b'a' as u64 } else { 1 });
        self.st.max_syms = self.st.max_syms.max(k as u64 + 1);
        self.ar.sym(k, w)
    }

    // ---------------------------------------------------------------- SHA-1

    fn simp_byte(&mut self, s: &State, e: E) -> E {
        let e = self.use_e(s, e);
        if let Some((k, t)) = self.ar.value_table(e) {
            let d = s.dom[k as usize];
            let mut v = None;
            for i in 0..256 {
                if bit(&d, i) {
                    match v {
                        None => v = Some(t[i]),
                        Some(x) if x == t[i] => {}
                        _ => return e,
                    }
                }
            }
            if let Some(x) = v {
                return E::C(8, x);
            }
        }
        e
    }
    fn sha_block(&mut self, s: &mut State, inp: Vec<E>) -> R<Vec<E>> {
        let inp: Vec<E> = inp.into_iter().map(|e| self.simp_byte(s, e)).collect();
        let conc = inp.iter().all(|e| matches!(e, E::C(..)));
        let log = s.sha.clone();
        for l in log.iter() {
            if l.0 == inp {
                return Ok(l.1.clone());
            }
        }
        for l in log.iter() {
            let lconc = l.0.iter().all(|e| matches!(e, E::C(..)));
            if conc && lconc {
                continue;
            }
            // equality of the two inputs on this path
            let mut diff = vec![];
            let mut never = false;
            for (x, y) in l.0.iter().zip(inp.iter()) {
                if x == y {
                    continue;
                }
                let q = self.ar.eq(*x, *y);
                if q == F {
                    never = true;
                    break;
                }
                if let Some((_, t, _)) = self.dom_truth(s, q) {
                    if !t {
                        never = true;
                        break;
                    }
                }
                diff.push(q);
            }
            if never {
                continue;
            }
            self.st.sha_eqs += 1;
            let mut all = T;
            for d in diff {
                all = self.ar.and1(all, d);
            }
            if self.decide(s, all)? {
                return Ok(l.1.clone());
            }
        }
        let out: Vec<E> = if conc {
            self.st.sha_conc += 1;
            let b: Vec<u8> = inp.iter().map(|e| if let E::C(_, v) = e { *v as u8 } else { 0 }).collect();
            let mut st = [0u32; 5];
            for i in 0..5 {
                st[i] = u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
            }
            sha1_compress(&mut st, &b[20..84]);
            st.iter().flat_map(|w| w.to_le_bytes()).map(|b| E::C(8, b as u64)).collect()
        } else {
            self.st.sha_sym += 1;
            s.tokens += 1;
            // a digest nobody has seen yet
            let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
            let mut blk = [0u8; 64];
            blk[..8].copy_from_slice(b"rsxtoken");
            blk[8..12].copy_from_slice(&s.tokens.to_le_bytes());
            sha1_compress(&mut st, &blk);
            st.iter().flat_map(|w| w.to_le_bytes()).map(|b| E::C(8, b as u64)).collect()
        };
        s.sha.push(Rc::new((inp, out.clone())));
        Ok(out)
    }

    // ---------------------------------------------------------------- assertions

    fn check_assert(&mut self, s: &mut State, e: E, id: u64, what: &str) -> R<()> {
        self.st.asserts += 1;
        let e = self.use_e(s, e);
        if let E::C(_, v) = e {
            if v == 1 {
                self.st.asserts_trivial += 1;
                return Ok(());
            }
            return Err(Stop::Viol("assert".into(), format!("{} {}", what, id), Some(vec![])));
        }
        self.st.asserts_solver += 1;
        let n = self.ar.not(e);
        match self.solve(s, &[n])? {
            None => Ok(()),
            Some(m) => Err(Stop::Viol("assert".into(), format!("{} {}", what, id), Some(m.to_vec()))),
        }
    }

    // ---------------------------------------------------------------- integer helpers

    fn binv(&mut self, op: Op, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && self.ar.as_c(*y) == Some(0) {
                    return Err(Stop::Viol("ub".into(), "division by zero".into(), None));
                }
                Ok(V::I(self.ar.bin(op, *x, *y)))
            }
            (V::A(x), V::A(y)) => {
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.binv(op, p, q)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Err(Stop::Err("vector op".into())),
        }
    }
    fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.ar.eq(a, b),
            Pred::Ne => {
                let e = self.ar.eq(a, b);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, a, b),
            Pred::Ule => self.ar.bin(Op::Ule, a, b),
            Pred::Ugt => self.ar.bin(Op::Ult, b, a),
            Pred::Uge => self.ar.bin(Op::Ule, b, a),
            Pred::Slt => self.ar.bin(Op::Slt, a, b),
            Pred::Sle => self.ar.bin(Op::Sle, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a),
            Pred::Sge => self.ar.bin(Op::Sle, b, a),
        }
    }
    fn icmpv(&mut self, p: Pred, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => Ok(V::I(self.icmp(p, *x, *y))),
            (V::A(x), V::A(y)) => {
                let mut o = vec![];
                for (u, v) in x.iter().zip(y.iter()) {
                    o.push(self.icmpv(p, u, v)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Err(Stop::Err("vector icmp".into())),
        }
    }
    fn castv(&mut self, c: Cast, a: &V, w: u32) -> V {
        match a {
            V::I(e) => V::I(match c {
                Cast::Zext => self.ar.zext(*e, w),
                Cast::Sext => self.ar.sext(*e, w),
                Cast::Trunc => self.ar.extract(*e, 0, w),
            }),
            V::A(v) => V::A(Rc::new(v.iter().map(|x| self.castv(c, x, w)).collect())),
        }
    }
    /// All bits of a scalar or vector, lowest element first.
    fn flat(&mut self, v: &V) -> E {
        match v {
            V::I(e) => *e,
            V::A(x) => {
                let mut e: Option<E> = None;
                for k in x.iter() {
                    let b = self.flat(k);
                    e = Some(match e {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                e.unwrap()
            }
        }
    }
    fn unflat(&mut self, e: E, t: &Ty) -> R<V> {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut o = vec![];
                for i in 0..*n {
                    o.push(V::I(self.ar.extract(e, i as u32 * w, w)));
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Ok(V::I(e)),
        }
    }
    fn ov(&mut self, op: Op, signed: bool, a: E, b: E) -> (E, E) {
        let w = self.ar.w(a);
        let r = self.ar.bin(op, a, b);
        if w <= 64 && op != Op::Mul {
            let o = match (op, signed) {
                (Op::Add, false) => self.ar.bin(Op::Ult, r, a),
                (Op::Sub, false) => self.ar.bin(Op::Ult, a, b),
                (Op::Add, true) => {
                    let z = E::C(w as u8, 0);
                    let bn = self.ar.bin(Op::Slt, b, z);
                    let lt = self.ar.bin(Op::Slt, r, a);
                    self.ar.bin(Op::Xor, bn, lt)
                }
                _ => {
                    let z = E::C(w as u8, 0);
                    let bp = self.ar.bin(Op::Slt, z, b);
                    let lt = self.ar.bin(Op::Slt, r, a);
                    self.ar.bin(Op::Xor, bp, lt)
                }
            };
            return (r, o);
        }
        if let (Some(x), Some(y)) = (self.ar.as_c(a), self.ar.as_c(b)) {
            let m = mask128(w);
            let sxt = |v: u128| if w == 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
            let o = if signed {
                let (x, y) = (sxt(x), sxt(y));
                let r = match op {
                    Op::Add => x.checked_add(y),
                    Op::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                r.map_or(true, |r| sxt(r as u128 & m) != r)
            } else {
                let r = match op {
                    Op::Add => x.checked_add(y),
                    Op::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                r.map_or(true, |r| r & m != r)
            };
            return (r, E::C(1, o as u64));
        }
        if w <= 64 && op == Op::Mul {
            let (x, y) = if signed {
                (self.ar.sext(a, 2 * w), self.ar.sext(b, 2 * w))
            } else {
                // x * c overflows iff x > max / c
                if let E::C(_, c) = b {
                    if c != 0 {
                        let lim = E::C(w as u8, mask(w) / c);
                        let o = self.ar.bin(Op::Ult, lim, a);
                        return (r, o);
                    }
                }
                (self.ar.zext(a, 2 * w), self.ar.zext(b, 2 * w))
            };
            let p = self.ar.bin(Op::Mul, x, y);
            let back = if signed { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
            let q = self.ar.eq(p, back);
            let o = self.ar.not(q);
            return (r, o);
        }
        // wide additions
        let (x, y) = (a, b);
        let o = match op {
            Op::Add => self.ar.bin(Op::Ult, r, x),
            _ => self.ar.bin(Op::Ult, x, y),
        };
        (r, o)
    }

    // ---------------------------------------------------------------- running

    /// Runs a state until it forks or ends.
    fn over(&self) -> bool {
        self.deadline.map_or(false, |(t, d)| t.elapsed().as_millis() as u64 > d.load(Ordering::Relaxed))
    }
    pub fn run(&mut self, mut s: State, out: &mut Vec<State>) {
        let mut asked = self.sol.queries;
        loop {
            let r = self.step(&mut s);
            match r {
                Ok(()) => {
                    s.steps += 1;
                    if s.steps & 0xfff == 0 || self.sol.queries != asked {
                        asked = self.sol.queries;
                        if s.steps > self.max_steps {
                            self.finish(&s, Stop::Err("step limit".into()));
                            return;
                        }
                        if self.over() {
                            self.st.pending += 1;
                            return;
                        }
                    }
                }
                Err(Stop::Fork(ch)) => {
                    self.st.forks += 1;
                    let n = ch.len();
                    let mut it: Vec<State> = vec![];
                    let mut s0 = Some(s);
                    for (i, c) in ch.into_iter().enumerate() {
                        let mut t = if i + 1 == n { s0.take().unwrap() } else { s0.as_ref().unwrap().clone() };
                        t.forks += 1;
                        if let Some(e) = c.cons {
                            match self.constrain(&mut t, e) {
                                Ok(()) => {}
                                Err(Stop::Dead) => continue,
                                Err(x) => {
                                    self.finish(&t, x);
                                    continue;
                                }
                            }
                        }
                        match c.act {
                            Act::Again => {}
                            Act::Subst(e, v) => {
                                if let E::N(k) = e {
                                    t.subst.insert(k, v);
                                }
                            }
                            Act::Jump(b) => self.jump(&mut t, b),
                            Act::Choose(d, v) => {
                                t.tape.push(Tape::Const(v));
                                if let Some(d) = d {
                                    self.set(&mut t, d, V::I(E::C(32, v)));
                                }
                                let fr = Rc::make_mut(t.frames.last_mut().unwrap());
                                fr.idx += 1;
                            }
                        }
                        it.push(t);
                    }
                    it.reverse();
                    out.append(&mut it);
                    return;
                }
                Err(x) => {
                    self.finish(&s, x);
                    return;
                }
            }
        }
    }
    fn tape_of(&self, s: &State, over: &[(u32, u64)]) -> Vec<u64> {
        let mut m = s.model.clone();
        for (k, v) in over {
            if (*k as usize) < m.len() {
                m[*k as usize] = *v;
            }
        }
        s.tape
            .iter()
            .map(|t| match t {
                Tape::Sym(k) => m[*k as usize],
                Tape::Const(v) => *v,
            })
            .collect()
    }
    fn finish(&mut self, s: &State, x: Stop) {
        self.st.steps += s.steps;
        let stack = || s.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect::<Vec<_>>();
        match x {
            Stop::Dead => {}
            Stop::End(why) => {
                *self.st.ends.entry(why.to_string()).or_default() += 1;
                if why == "assume" {
                    return;
                }
                self.st.paths += 1;
                // reservoir of sample paths, for replay against the compiled code
                self.sample_seen += 1;
                let slot = if self.st.samples.len() < self.keep_samples {
                    self.st.samples.push(Sample { tape: vec![], obs: vec![], end: String::new(), usable: false });
                    Some(self.st.samples.len() - 1)
                } else {
                    let h = self.sample_seen.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
                    let k = (h % self.sample_seen) as usize;
                    if k < self.keep_samples {
                        Some(k)
                    } else {
                        None
                    }
                };
                if let Some(k) = slot {
                    let mut memo = FxMap::default();
                    let obs = s
                        .obs
                        .iter()
                        .map(|b| b.iter().map(|e| self.ar.eval(*e, &s.model, &mut memo) as u8).collect())
                        .collect();
                    self.st.samples[k] =
                        Sample { tape: self.tape_of(s, &[]), obs, end: why.to_string(), usable: s.tokens == 0 };
                }
            }
            Stop::Viol(kind, detail, over) => {
                self.st.paths += 1;
                self.st.nviols += 1;
                if self.st.viols.len() < 40 {
                    let v = Viol { kind, detail, tape: self.tape_of(s, &over.unwrap_or_default()), stack: stack() };
                    self.st.viols.push(v);
                }
            }
            Stop::Err(m) => {
                if m == NO_ANSWER {
                    // not decided, as when the time is up
                    self.st.pending += 1;
                } else {
                    self.st.nerrs += 1;
                }
                if self.st.errs.len() < 10 {
                    self.st.errs.push(format!("{} in {:?}", m, stack()));
                }
            }
            Stop::Fork(_) => unreachable!(),
        }
    }
    fn jump(&mut self, s: &mut State, b: u32) {
        let fr = s.frames.last().unwrap();
        let f = fr.f;
        let cur = fr.blk;
        let blk = &f.blocks[b as usize];
        let mut vals = vec![];
        for (d, ins) in &blk.phis {
            let o = ins.iter().find(|(p, _)| *p == cur).map(|(_, o)| o);
            match o {
                Some(o) => {
                    let v = self.val(s, o);
                    vals.push((*d, v));
                }
                None => panic!("phi without edge {} -> {} in {}", cur, b, f.name),
            }
        }
        let fr = Rc::make_mut(s.frames.last_mut().unwrap());
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.prev = cur;
        fr.blk = b;
        fr.idx = 0;
    }
    fn ret(&mut self, s: &mut State, v: Option<V>) -> R<()> {
        let fr = s.frames.pop().unwrap();
        s.stack.truncate(fr.stack_base);
        if s.frames.is_empty() {
            return Err(Stop::End("returned"));
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(s, d, v);
        }
        match fr.normal {
            Some(b) => self.jump(s, b),
            None => Rc::make_mut(s.frames.last_mut().unwrap()).idx += 1,
        }
        Ok(())
    }
    fn advance(&mut self, s: &mut State) {
        Rc::make_mut(s.frames.last_mut().unwrap()).idx += 1;
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let fr = s.frames.last().unwrap();
        let f: &'static Func = fr.f;
        let ins = &f.blocks[fr.blk as usize].ins[fr.idx as usize];
        if self.trace {
            eprintln!("{}{}:{}:{} {:?}", " ".repeat(s.frames.len()), &f.name, fr.blk, fr.idx, ins);
        }
        match ins {
            Ins::Bin(op, d, a, b) => {
                let x = self.val(s, a);
                let y = self.val(s, b);
                let v = if let (V::I(E::C(w, p)), V::I(E::C(_, q))) = (&x, &y) {
                    if *q == 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        return Err(Stop::Viol("ub".into(), "division by zero".into(), None));
                    }
                    let m = mask(*w as u32);
                    V::I(match op {
                        Op::Add => E::C(*w, p.wrapping_add(*q) & m),
                        Op::Sub => E::C(*w, p.wrapping_sub(*q) & m),
                        Op::And => E::C(*w, p & q),
                        Op::Or => E::C(*w, p | q),
                        Op::Xor => E::C(*w, p ^ q),
                        _ => E::C(*w, fold(*op, *w as u32, *w as u32, *p as u128, *q as u128) as u64),
                    })
                } else {
                    self.binv(*op, &x, &y)?
                };
                self.set(s, *d, v);
            }
            Ins::Icmp(p, d, a, b) => {
                let x = self.val(s, a);
                let y = self.val(s, b);
                let v = self.icmpv(*p, &x, &y)?;
                self.set(s, *d, v);
            }
            Ins::Fp(k, d, a, b, w, neg) => {
                let x = self.val(s, a).e();
                let y = b.as_ref().map_or(x, |b| self.val(s, b).e());
                let mut r = self.ar.fp(*k, *w, x, y);
                if *neg {
                    r = self.ar.not(r);
                }
                self.set(s, *d, V::I(r));
            }
            Ins::Fneg(d, a) => {
                let x = self.val(s, a).e();
                let w = self.ar.w(x);
                let m = self.ar.cst(w, 1 << (w - 1));
                let r = self.ar.bin(Op::Xor, x, m);
                self.set(s, *d, V::I(r));
            }
            Ins::Fcmp2(k, neg, d, a, b) => {
                let x = self.val(s, a).e();
                let y = self.val(s, b).e();
                let p = self.ar.fp(*k, 1, x, y);
                let q = self.ar.fp(*k, 1, y, x);
                let mut r = self.ar.or1(p, q);
                if *neg {
                    r = self.ar.not(r);
                }
                self.set(s, *d, V::I(r));
            }
            Ins::Cast(c, d, a, w) => {
                let x = self.val(s, a);
                let v = self.castv(*c, &x, *w);
                self.set(s, *d, v);
            }
            Ins::Select(d, c, a, b, ptr) => {
                let c = self.val(s, c);
                match c {
                    V::I(c) => {
                        let v = match c {
                            E::C(_, v) => self.val(s, if v == 1 { a } else { b }),
                            _ => {
                                let x = self.val(s, a);
                                let y = self.val(s, b);
                                match (&x, &y) {
                                    (V::I(p), V::I(q)) if !*ptr && !self.wide_dep(s, c) => V::I(self.ar.ite(c, *p, *q)),
                                    _ => {
                                        let r = self.decide(s, c)?;
                                        if r {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                }
                            }
                        };
                        self.set(s, *d, v);
                    }
                    V::A(cs) => {
                        let (V::A(x), V::A(y)) = (self.val(s, a), self.val(s, b)) else {
                            return Err(Stop::Err("select".into()));
                        };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            o.push(V::I(self.ar.ite(cs[i].e(), x[i].e(), y[i].e())));
                        }
                        self.set(s, *d, V::A(Rc::new(o)));
                    }
                }
            }
            Ins::Alloca(d, n) => {
                let mut o = Obj::new(*n);
                for b in o.data.iter_mut() {
                    *b = 0x5a;
                }
                s.stack.push(Rc::new(o));
                let id = STACK0 + s.stack.len() as u32 - 1;
                self.set(s, *d, V::I(E::C(64, addr_of(id))));
            }
            Ins::Load(d, t, p) => {
                let a = self.ve(s, p);
                let v = self.load(s, t, a)?;
                self.set(s, *d, v);
            }
            Ins::Store(v, t, p) => {
                let a = self.ve(s, p);
                let v = self.val(s, v);
                self.store(s, t, a, &v)?;
            }
            Ins::Gep(d, base, k, terms) => {
                let mut a = self.ve(s, base);
                if *k != 0 {
                    a = self.ar.bin(Op::Add, a, E::C(64, *k as u64));
                }
                for (o, w, sz) in terms {
                    let i = self.ve(s, o);
                    let i = if *w < 64 { self.ar.sext(i, 64) } else { i };
                    let m = self.ar.bin(Op::Mul, i, E::C(64, *sz as u64));
                    a = self.ar.bin(Op::Add, a, m);
                }
                self.set(s, *d, V::I(a));
            }
            Ins::Copy(d, a) => {
                let v = self.val(s, a);
                self.set(s, *d, v);
            }
            Ins::BitCastVec(d, a, _ft, t) => {
                let v = self.val(s, a);
                let e = self.flat(&v);
                let v = self.unflat(e, t)?;
                self.set(s, *d, v);
            }
            Ins::ExtractValue(d, a, ix) => {
                let mut v = self.val(s, a);
                for i in ix {
                    let V::A(x) = &v else { return Err(Stop::Err("extractvalue".into())) };
                    v = x[*i as usize].clone();
                }
                self.set(s, *d, v);
            }
            Ins::InsertValue(d, a, b, ix) => {
                let v = self.val(s, a);
                let b = self.val(s, b);
                fn ins(v: V, ix: &[u32], b: V) -> V {
                    if ix.is_empty() {
                        return b;
                    }
                    let V::A(mut x) = v else { panic!("insertvalue") };
                    let m = Rc::make_mut(&mut x);
                    m[ix[0] as usize] = ins(m[ix[0] as usize].clone(), &ix[1..], b);
                    V::A(x)
                }
                let v = ins(v, ix, b);
                self.set(s, *d, v);
            }
            Ins::ExtractElement(d, a, i) => {
                let v = self.val(s, a);
                let i = self.ve(s, i);
                let i = self.conc(s, i)?;
                let V::A(x) = v else { return Err(Stop::Err("extractelement".into())) };
                self.set(s, *d, x[i as usize].clone());
            }
            Ins::InsertElement(d, a, b, i) => {
                let v = self.val(s, a);
                let b = self.val(s, b);
                let i = self.ve(s, i);
                let i = self.conc(s, i)?;
                let V::A(mut x) = v else { return Err(Stop::Err("insertelement".into())) };
                Rc::make_mut(&mut x)[i as usize] = b;
                self.set(s, *d, V::A(x));
            }
            Ins::Shuffle(d, a, b, ix) => {
                let (V::A(x), V::A(y)) = (self.val(s, a), self.val(s, b)) else {
                    return Err(Stop::Err("shuffle".into()));
                };
                let n = x.len();
                let o = ix.iter().map(|i| if (*i as usize) < n { x[*i as usize].clone() } else { y[*i as usize - n].clone() });
                let v = V::A(Rc::new(o.collect()));
                self.set(s, *d, v);
            }
            Ins::Rmw(d, op, p, v, t) => {
                let a = self.ve(s, p);
                let v = self.val(s, v);
                let old = self.load(s, t, a)?;
                let (x, y) = (old.e(), v.e());
                let n = match op.as_str() {
                    "xchg" => y,
                    "add" => self.ar.bin(Op::Add, x, y),
                    "sub" => self.ar.bin(Op::Sub, x, y),
                    "and" => self.ar.bin(Op::And, x, y),
                    "or" => self.ar.bin(Op::Or, x, y),
                    "xor" => self.ar.bin(Op::Xor, x, y),
                    "nand" => {
                        let e = self.ar.bin(Op::And, x, y);
                        let w = self.ar.w(e);
                        let ones = self.ar.cst(w, u128::MAX >> (128 - w));
                        self.ar.bin(Op::Xor, e, ones)
                    }
                    "umax" | "umin" | "max" | "min" => {
                        let lt = self.icmp(if op.starts_with('u') { Pred::Ult } else { Pred::Slt }, x, y);
                        if op.ends_with("max") {
                            self.ar.ite(lt, y, x)
                        } else {
                            self.ar.ite(lt, x, y)
                        }
                    }
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(s, t, a, &V::I(n))?;
                self.set(s, *d, old);
            }
            Ins::CmpXchg(d, p, c, n, t) => {
                let a = self.ve(s, p);
                let c = self.val(s, c);
                let n = self.val(s, n);
                let old = self.load(s, t, a)?;
                let q = self.icmp(Pred::Eq, old.e(), c.e());
                let ok = self.decide(s, q)?;
                if ok {
                    self.store(s, t, a, &n)?;
                }
                self.set(s, *d, V::A(Rc::new(vec![old, V::I(E::C(1, ok as u64))])));
            }
            Ins::Nop => {}
            Ins::Br(b) => {
                self.jump(s, *b);
                return Ok(());
            }
            Ins::CondBr(c, a, b) => {
                let c = self.ve(s, c);
                let r = self.decide(s, c)?;
                self.jump(s, if r { *a } else { *b });
                return Ok(());
            }
            Ins::Switch(v, dflt, cases, w) => {
                let e = self.ve(s, v);
                if let Some(x) = self.ar.as_c(e) {
                    let b = cases.iter().find(|(k, _)| *k == x).map_or(*dflt, |(_, b)| *b);
                    self.jump(s, b);
                    return Ok(());
                }
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = T;
                for (k, b) in cases {
                    let c = self.ar.cst(*w, *k);
                    let q = self.ar.eq(e, c);
                    let nq = self.ar.not(q);
                    none = self.ar.and1(none, nq);
                    match groups.iter_mut().find(|(t, _)| t == b) {
                        Some(g) => g.1 = self.ar.or1(g.1, q),
                        None => groups.push((*b, q)),
                    }
                }
                match groups.iter_mut().find(|(t, _)| t == dflt) {
                    Some(g) => g.1 = self.ar.or1(g.1, none),
                    None => groups.push((*dflt, none)),
                }
                let mut feas = vec![];
                for (b, q) in groups {
                    match self.query(s, q)? {
                        Some(true) => {
                            feas = vec![(b, q)];
                            break;
                        }
                        Some(false) => {}
                        None => feas.push((b, q)),
                    }
                }
                if feas.len() == 1 {
                    self.jump(s, feas[0].0);
                    return Ok(());
                }
                return Err(Stop::Fork(
                    feas.into_iter().map(|(b, q)| Child { cons: Some(q), act: Act::Jump(b) }).collect(),
                ));
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.val(s, o));
                return self.ret(s, v);
            }
            Ins::Unreachable => {
                return Err(Stop::Viol("ub".into(), "unreachable code reached".into(), None));
            }
            Ins::Unsup(t) => return Err(Stop::Err(format!("unsupported: {}", t))),
            Ins::Call(c) => return self.call(s, c),
        }
        self.advance(s);
        Ok(())
    }

    fn call(&mut self, s: &mut State, c: &'static Call) -> R<()> {
        let key = c as *const Call as usize;
        let target = match &c.callee {
            Callee::Direct(n) => match self.targets.get(&key) {
                Some(t) => t.clone(),
                None => {
                    let t = self.target_by_name(n);
                    self.targets.insert(key, t.clone());
                    t
                }
            },
            Callee::Asm(_) => {
                let v = self.zero_of(&c.ret);
                if let (Some(d), Some(v)) = (c.dst, v) {
                    self.set(s, d, v);
                }
                return self.cont(s, c);
            }
            Callee::Indirect(o) => {
                let a = self.ve(s, o);
                let a = self.conc(s, a)?;
                let id = (a >> 32) as u32;
                if a != addr_of(id) {
                    return Err(Stop::Viol("memory".into(), format!("call of {}", self.where_is(a)), None));
                }
                match self.ftargets.get(&id) {
                    Some(t) => t.clone(),
                    None => {
                        let Some(g) = self.m.glob(id) else {
                            return Err(Stop::Viol("memory".into(), format!("call of {}", self.where_is(a)), None));
                        };
                        let n = g.name.clone();
                        let t = self.target_by_name(&n);
                        self.ftargets.insert(id, t.clone());
                        t
                    }
                }
            }
        };
        match &*target {
            Target::F(f) => {
                if s.frames.len() > 400 {
                    return Err(Stop::Err("call depth".into()));
                }
                let mut regs = Vec::with_capacity(f.nregs);
                for a in c.args.iter().take(f.nparams) {
                    regs.push(self.val(s, a));
                }
                regs.resize(f.nregs, V::I(Z0));
                s.frames.push(Rc::new(Frame {
                    f,
                    blk: 0,
                    idx: 0,
                    prev: 0,
                    regs,
                    stack_base: s.stack.len(),
                    dst: c.dst,
                    normal: c.normal,
                }));
                Ok(())
            }
            Target::Unk(n) => Err(Stop::Err(format!("call of external {}", n))),
            Target::B(b, n) => {
                let mut args = Vec::with_capacity(c.args.len());
                for a in &c.args {
                    args.push(self.val(s, a));
                }
                let v = self.builtin_call(s, *b, n, &args, c)?;
                if let (Some(d), Some(v)) = (c.dst, v) {
                    self.set(s, d, v);
                }
                self.cont(s, c)
            }
        }
    }
    fn cont(&mut self, s: &mut State, c: &Call) -> R<()> {
        match c.normal {
            Some(b) => self.jump(s, b),
            None => self.advance(s),
        }
        Ok(())
    }
    fn zero_of(&mut self, t: &Ty) -> Option<V> {
        Some(match t {
            Ty::Void => return None,
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => V::I(self.ar.cst(t.bits(), 0)),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|t| self.zero_of(t).unwrap()).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero_of(t).unwrap()).collect())),
            Ty::Other => return None,
        })
    }

    fn map_v(&mut self, v: &V, f: &mut dyn FnMut(&mut Self, E) -> R<E>) -> R<V> {
        match v {
            V::I(e) => Ok(V::I(f(self, *e)?)),
            V::A(x) => {
                let mut o = vec![];
                for k in x.iter() {
                    o.push(self.map_v(k, f)?);
                }
                Ok(V::A(Rc::new(o)))
            }
        }
    }
    fn map2_v(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, E, E) -> E) -> R<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => Ok(V::I(f(self, *x, *y))),
            (V::A(x), V::A(y)) => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.map2_v(p, q, f)?);
                }
                Ok(V::A(Rc::new(o)))
            }
            _ => Err(Stop::Err("vector intrinsic".into())),
        }
    }

    fn funnel(&mut self, left: bool, x: E, y: E, n: E) -> Result<E, Stop> {
        let w = self.ar.w(x);
        let cc = self.ar.concat(x, y);
        if let Some(k) = self.ar.as_c(n) {
            let k = (k % w as u128) as u32;
            return Ok(if left { self.ar.extract(cc, w - k, w) } else { self.ar.extract(cc, k, w) });
        }
        if w > 64 || !w.is_power_of_two() {
            return Err(Stop::Err("symbolic funnel shift".into()));
        }
        let m = self.ar.cst(w, w as u128 - 1);
        let n = self.ar.bin(Op::And, n, m);
        let n = self.ar.zext(n, 2 * w);
        Ok(if left {
            let r = self.ar.bin(Op::Shl, cc, n);
            self.ar.extract(r, w, w)
        } else {
            let r = self.ar.bin(Op::LShr, cc, n);
            self.ar.extract(r, 0, w)
        })
    }
    fn builtin_call(&mut self, s: &mut State, b: Bi, name: &str, a: &[V], c: &Call) -> R<Option<V>> {
        let rw = match &*c.ret {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        Ok(Some(match b {
            Bi::Nop => return Ok(None),
            Bi::Zero => {
                return Ok(self.zero_of(&c.ret));
            }
            Bi::Ident => a[0].clone(),
            Bi::Assume => {
                // a violated assumption of the compiler is undefined behaviour
                if let V::I(e) = a[0] {
                    if self.query(s, e)? != Some(true) {
                        let b = self.decide(s, e)?;
                        if !b {
                            return Err(Stop::Viol("ub".into(), "llvm.assume of a false condition".into(), None));
                        }
                    }
                }
                return Ok(None);
            }
            Bi::Memcpy => {
                let n = self.conc(s, a[2].e())?;
                if n > 0 {
                    // resolve the destination first: nothing may fork after the write
                    let d = self.conc(s, a[0].e())?;
                    let src = self.use_e(s, a[1].e());
                    let bytes = self.read_bytes(s, src, n)?;
                    self.write_bytes(s, E::C(64, d), &bytes)?;
                }
                a[0].clone()
            }
            Bi::Memset => {
                let n = self.conc(s, a[2].e())?;
                if n > 0 {
                    let d = self.conc(s, a[0].e())?;
                    let v = a[1].e();
                    let v = if self.ar.w(v) > 8 { self.ar.extract(v, 0, 8) } else { v };
                    let bytes = vec![v; n as usize];
                    self.write_bytes(s, E::C(64, d), &bytes)?;
                }
                a[0].clone()
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc(s, a[2].e())?;
                if n == 0 {
                    return Ok(Some(V::I(E::C(rw as u8, 0))));
                }
                let x = self.read_bytes(s, a[0].e(), n)?;
                let y = self.read_bytes(s, a[1].e(), n)?;
                let mut r = E::C(32, 0);
                if b == Bi::Bcmp {
                    let mut ne = F;
                    for (p, q) in x.iter().zip(y.iter()) {
                        let e = self.ar.eq(*p, *q);
                        let e = self.ar.not(e);
                        ne = self.ar.or1(ne, e);
                    }
                    let _ = &mut r;
                    V::I(self.ar.zext(ne, rw))
                } else {
                    for (p, q) in x.iter().zip(y.iter()).rev() {
                        let e = self.ar.eq(*p, *q);
                        let lt = self.ar.bin(Op::Ult, *p, *q);
                        let d = self.ar.ite(lt, E::C(32, 0xffff_ffff), E::C(32, 1));
                        r = self.ar.ite(e, r, d);
                    }
                    V::I(r)
                }
            }
            Bi::Strlen => {
                let p = self.conc(s, a[0].e())?;
                let mut n = 0;
                loop {
                    let b = self.read_bytes(s, E::C(64, p + n), 1)?[0];
                    let z = self.ar.eq(b, E::C(8, 0));
                    if self.decide(s, z)? {
                        break;
                    }
                    n += 1;
                }
                V::I(E::C(64, n))
            }
            Bi::Alloc => {
                let n = self.conc(s, a[0].e())?;
                V::I(self.alloc(s, n)?)
            }
            Bi::AllocZ => {
                let n = self.conc(s, a[0].e())?;
                let p = self.alloc(s, n)?;
                let z = vec![E::C(8, 0); n as usize];
                self.write_bytes(s, p, &z)?;
                V::I(p)
            }
            Bi::Malloc => {
                let n = self.conc(s, a[0].e())?;
                V::I(self.alloc(s, n)?)
            }
            Bi::Calloc => {
                let n = self.conc(s, a[0].e())? * self.conc(s, a[1].e())?;
                let p = self.alloc(s, n)?;
                let z = vec![E::C(8, 0); n as usize];
                self.write_bytes(s, p, &z)?;
                V::I(p)
            }
            Bi::PosixMemalign => {
                let n = self.conc(s, a[2].e())?;
                let p = self.alloc(s, n)?;
                self.store(s, &Ty::Ptr, a[0].e(), &V::I(p))?;
                V::I(E::C(32, 0))
            }
            Bi::Dealloc => {
                let p = self.conc(s, a[0].e())?;
                let n = self.conc(s, a[1].e())?;
                self.free(s, p, Some(n))?;
                return Ok(None);
            }
            Bi::Free => {
                let p = self.conc(s, a[0].e())?;
                if p != 0 {
                    self.free(s, p, None)?;
                }
                return Ok(None);
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.conc(s, a[0].e())?;
                let n = self.conc(s, if b == Bi::Realloc { a[3].e() } else { a[1].e() })?;
                let old = if b == Bi::Realloc { Some(self.conc(s, a[1].e())?) } else { None };
                let q = self.alloc(s, n)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    let os = self.obj(s, id).map_or(0, |o| o.size());
                    let bytes = self.read_bytes(s, E::C(64, p), os.min(n))?;
                    self.write_bytes(s, q, &bytes)?;
                    self.free(s, p, old)?;
                }
                V::I(q)
            }
            Bi::Ov(op, sg) => {
                let (r, o) = self.ov(op, sg, a[0].e(), a[1].e());
                V::A(Rc::new(vec![V::I(r), V::I(o)]))
            }
            Bi::Sat(op, sg) => self.map2_v(&a[0], &a[1], &mut |z, x, y| {
                let w = z.ar.w(x);
                let (r, o) = z.ov(op, sg, x, y);
                let lim = match (op, sg) {
                    (Op::Add, false) => z.ar.cst(w, !0),
                    (_, false) => z.ar.cst(w, 0),
                    _ => {
                        let neg = z.ar.cst(w, 1u128 << (w - 1));
                        let pos = z.ar.cst(w, (1u128 << (w - 1)) - 1);
                        let zero = z.ar.cst(w, 0);
                        let c = z.ar.bin(Op::Slt, x, zero);
                        z.ar.ite(c, neg, pos)
                    }
                };
                z.ar.ite(o, lim, r)
            })?,
            Bi::Ctlz | Bi::Cttz | Bi::Ctpop | Bi::Bswap | Bi::Bitrev => self.map_v(&a[0], &mut |z, e| {
                let w = z.ar.w(e);
                if let Some(v) = z.ar.as_c(e) {
                    let r: u128 = match b {
                        Bi::Ctlz => (v.leading_zeros() - (128 - w)) as u128,
                        Bi::Cttz => (v.trailing_zeros().min(w)) as u128,
                        Bi::Ctpop => v.count_ones() as u128,
                        Bi::Bitrev => v.reverse_bits() >> (128 - w),
                        _ => v.swap_bytes() >> (128 - w),
                    };
                    return Ok(z.ar.cst(w, r));
                }
                Ok(match b {
                    Bi::Bswap => {
                        let mut r = z.ar.extract(e, 0, 8);
                        for i in 1..w / 8 {
                            let x = z.ar.extract(e, 8 * i, 8);
                            r = z.ar.concat(r, x);
                        }
                        r
                    }
                    Bi::Bitrev => {
                        let mut r = z.ar.extract(e, 0, 1);
                        for i in 1..w {
                            let x = z.ar.extract(e, i, 1);
                            r = z.ar.concat(r, x);
                        }
                        r
                    }
                    Bi::Ctpop => {
                        let mut r = z.ar.cst(w, 0);
                        for i in 0..w {
                            let x = z.ar.extract(e, i, 1);
                            let x = z.ar.zext(x, w);
                            r = z.ar.bin(Op::Add, r, x);
                        }
                        r
                    }
                    _ => {
                        // scan from the far end so the nearest bit decides
                        let mut r = z.ar.cst(w, w as u128);
                        for k in (0..w).rev() {
                            let i = if b == Bi::Cttz { k } else { w - 1 - k };
                            let x = z.ar.extract(e, i, 1);
                            let v = z.ar.cst(w, k as u128);
                            r = z.ar.ite(x, v, r);
                        }
                        r
                    }
                })
            })?,
            Bi::Fsh(left) => {
                if let (V::A(x), V::A(y), V::A(n)) = (&a[0], &a[1], &a[2]) {
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(V::I(self.funnel(left, x[i].e(), y[i].e(), n[i].e())?));
                    }
                    V::A(o.into())
                } else {
                    V::I(self.funnel(left, a[0].e(), a[1].e(), a[2].e())?)
                }
            }
            Bi::MinMax(p) if matches!((&a[0], &a[1]), (V::I(_), V::I(_))) => {
                let (x, y) = (a[0].e(), a[1].e());
                let c = self.icmp(p, x, y);
                if self.wide_dep(s, c) {
                    V::I(if self.decide(s, c)? { x } else { y })
                } else {
                    V::I(self.ar.ite(c, x, y))
                }
            }
            Bi::MinMax(p) => self.map2_v(&a[0], &a[1], &mut |z, x, y| {
                let c = z.icmp(p, x, y);
                z.ar.ite(c, x, y)
            })?,
            Bi::Abs => self.map_v(&a[0], &mut |z, e| {
                let w = z.ar.w(e);
                let zero = z.ar.cst(w, 0);
                let c = z.ar.bin(Op::Slt, e, zero);
                let n = z.ar.bin(Op::Sub, zero, e);
                Ok(z.ar.ite(c, n, e))
            })?,
            Bi::Cmp3(sg) => {
                let (x, y) = (a[0].e(), a[1].e());
                let op = if sg { Op::Slt } else { Op::Ult };
                let lt = self.ar.bin(op, x, y);
                let gt = self.ar.bin(op, y, x);
                let one = self.ar.cst(rw, 1);
                let zero = self.ar.cst(rw, 0);
                let m1 = self.ar.cst(rw, !0);
                let r = self.ar.ite(gt, one, zero);
                V::I(self.ar.ite(lt, m1, r))
            }
            Bi::IsConst => V::I(F),
            Bi::Fp1(k) => V::I(self.ar.fp(k, rw, a[0].e(), a[0].e())),
            Bi::Fp2(k) => V::I(self.ar.fp(k, rw, a[0].e(), a[1].e())),
            Bi::Fabs => {
                let m = self.ar.cst(rw, mask(rw - 1) as u128);
                V::I(self.ar.bin(Op::And, a[0].e(), m))
            }
            Bi::Copysign => {
                let m = self.ar.cst(rw, mask(rw - 1) as u128);
                let n = self.ar.cst(rw, 1 << (rw - 1));
                let x = self.ar.bin(Op::And, a[0].e(), m);
                let y = self.ar.bin(Op::And, a[1].e(), n);
                V::I(self.ar.bin(Op::Or, x, y))
            }
            Bi::Ptrmask => V::I(self.ar.bin(Op::And, a[0].e(), a[1].e())),
            Bi::Reduce(op) => {
                let V::A(v) = &a[0] else { return Err(Stop::Err("reduce".into())) };
                let mut r = v[0].e();
                for x in &v[1..] {
                    r = self.ar.bin(op, r, x.e());
                }
                V::I(r)
            }
            Bi::ReduceMM(p) => {
                let V::A(v) = &a[0] else { return Err(Stop::Err("reduce".into())) };
                let mut r = v[0].e();
                for x in &v[1..] {
                    let c = self.icmp(p, r, x.e());
                    r = self.ar.ite(c, r, x.e());
                }
                V::I(r)
            }
            Bi::MoveMask => {
                let V::A(v) = &a[0] else { return Err(Stop::Err("movmsk".into())) };
                let v = v.clone();
                let mut r: Option<E> = None;
                for x in v.iter() {
                    let b = self.ar.extract(x.e(), 7, 1);
                    r = Some(match r {
                        None => b,
                        Some(lo) => self.ar.concat(b, lo),
                    });
                }
                V::I(self.ar.zext(r.unwrap(), 32))
            }
            Bi::Panic => {
                if s.expect_panic {
                    return Err(Stop::End("panicked as expected"));
                }
                return Err(Stop::Viol("panic".into(), "panic".into(), None));
            }
            Bi::Abort => return Err(Stop::Viol("abort".into(), name.to_string(), None)),
            Bi::Trap => return Err(Stop::Viol("ub".into(), "trap".into(), None)),
            Bi::Sha1 => {
                let st = self.conc(s, a[0].e())?;
                let bl = self.conc(s, a[1].e())?;
                let n = self.conc(s, a[2].e())?;
                let mut cur = self.read_bytes(s, E::C(64, st), 20)?;
                let saved = s.clone();
                for i in 0..n {
                    let blk = self.read_bytes(s, E::C(64, bl + 64 * i), 64)?;
                    // last block of HMAC's outer hash
                    let outer = blk[20] == E::C(8, 0x80) && blk[62] == E::C(8, 2) && blk[63] == E::C(8, 0xa0);
                    let mut inp = cur.clone();
                    inp.extend(blk);
                    let known = s.sha.len();
                    match self.sha_block(s, inp) {
                        Ok(o) => cur = o,
                        Err(e) => {
                            *s = saved;
                            return Err(e);
                        }
                    }
                    if outer && s.sha.len() > known {
                        if let Some((lo, hi)) = s.digest_syms.take() {
                            // this digest is left open: any value (used to explore signature encoding)
                            for i in lo as usize..hi as usize {
                                cur[(i & !3) + 3 - (i & 3)] = self.new_sym(s, 8);
                            }
                            s.tokens += 1;
                            let inp = s.sha[known].0.clone();
                            s.sha[known] = Rc::new((inp, cur.clone()));
                        }
                    }
                }
                self.write_bytes(s, E::C(64, st), &cur)?;
                return Ok(None);
            }
            Bi::Syscall => {
                let k = self.conc(s, a[0].e())?;
                if k != 318 {
                    return Err(Stop::Err(format!("syscall {}", k)));
                }
                return self.builtin_call(s, Bi::Getrandom, name, &a[1..], c);
            }
            Bi::Getrandom => {
                let p = self.conc(s, a[0].e())?;
                let n = self.conc(s, a[1].e())?;
                for i in 0..n {
                    let e = if s.env & 2 != 0 {
                        // ... of which one may be inverted
                        let k = s.drawn.len() as u64 - s.since as u64;
                        let flip = (s.env >> 8).wrapping_sub(1) as u64;
                        let m = if s.env >> 8 != 0 && flip >> 3 == k { 1 << (flip & 7) } else { 0 };
                        E::C(8, ((k * 37 + 11) ^ m) & 255)
                    } else {
                        let e = self.new_sym(s, 8);
                        s.tape.push(Tape::Sym(s.dom.len() as u32 - 1));
                        e
                    };
                    Rc::make_mut(&mut s.drawn).push(e);
                    self.write_bytes(s, E::C(64, p + i), &[e])?;
                }
                V::I(E::C(64, n))
            }
            Bi::ClockGettime => {
                let p = self.conc(s, a[1].e())?;
                s.clocks += 1;
                let sec = if let Some((c, d, n)) = s.clock {
                    s.clock = Some((self.ar.bin(Op::Add, c, d), d, n));
                    c
                } else if s.env & 4 != 0 {
                    E::C(64, 1_600_000_000 + s.clocks as u64)
                } else {
                    let e = self.new_sym(s, 64);
                    s.tape.push(Tape::Sym(s.dom.len() as u32 - 1));
                    e
                };
                let b = self.bytes_of(sec, 8);
                self.write_bytes(s, E::C(64, p), &b)?;
                let ns = s.clock.map_or(E::C(64, 123_456_789), |c| c.2);
                let ns = self.bytes_of(ns, 8);
                self.write_bytes(s, E::C(64, p + 8), &ns)?;
                V::I(E::C(32, 0))
            }
            Bi::RtU8 => {
                let e = self.new_sym(s, 8);
                s.tape.push(Tape::Sym(s.dom.len() as u32 - 1));
                V::I(if rw == 8 { e } else { self.ar.zext(e, rw) })
            }
            Bi::RtU64 => {
                let e = self.new_sym(s, 64);
                s.tape.push(Tape::Sym(s.dom.len() as u32 - 1));
                V::I(e)
            }
            Bi::RtBytes => {
                let p = self.conc(s, a[0].e())?;
                let n = self.conc(s, a[1].e())?;
                for i in 0..n {
                    let e = self.new_sym(s, 8);
                    s.tape.push(Tape::Sym(s.dom.len() as u32 - 1));
                    self.write_bytes(s, E::C(64, p + i), &[e])?;
                }
                return Ok(None);
            }
            Bi::RtChoose => {
                let n = self.conc(s, a[0].e())?;
                if n == 1 {
                    s.tape.push(Tape::Const(0));
                    return Ok(Some(V::I(E::C(32, 0))));
                }
                if n == 0 {
                    return Err(Stop::End("assume"));
                }
                return Err(Stop::Fork((0..n).map(|v| Child { cons: None, act: Act::Choose(c.dst, v) }).collect()));
            }
            Bi::RtAssume => {
                let e = a[0].e();
                let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                let e = self.use_e(s, e);
                match self.query(s, e)? {
                    Some(true) => {}
                    Some(false) => return Err(Stop::End("assume")),
                    None => {
                        self.constrain(s, e)?;
                        if let E::N(n) = e {
                            s.subst.insert(n, T);
                        }
                    }
                }
                return Ok(None);
            }
            Bi::RtAssert => {
                let e = a[0].e();
                let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                let id = self.conc(s, a[1].e())?;
                self.check_assert(s, e, id, "assertion")?;
                return Ok(None);
            }
            Bi::RtAssertEq => {
                let (pa, la) = (self.conc(s, a[0].e())?, self.conc(s, a[1].e())?);
                let (pb, lb) = (self.conc(s, a[2].e())?, self.conc(s, a[3].e())?);
                let id = self.conc(s, a[4].e())?;
                if la != lb {
                    self.check_assert(s, F, id, "equality (length)")?;
                }
                let x = self.read_bytes(s, E::C(64, pa), la)?;
                let y = self.read_bytes(s, E::C(64, pb), lb)?;
                let mut all = T;
                for (p, q) in x.iter().zip(y.iter()) {
                    if p != q {
                        let e = self.ar.eq(*p, *q);
                        all = self.ar.and1(all, e);
                    }
                }
                self.check_assert(s, all, id, "equality")?;
                return Ok(None);
            }
            Bi::RtEnv => {
                s.env = self.conc(s, a[0].e())? as u32;
                s.since = s.drawn.len() as u32;
                return Ok(None);
            }
            Bi::RtNDrawn => V::I(E::C(32, s.drawn.len() as u64)),
            Bi::RtSetClock => {
                s.clock = Some((a[0].e(), a[1].e(), a[2].e()));
                return Ok(None);
            }
            Bi::RtNClock => V::I(E::C(32, s.clocks as u64)),
            Bi::RtDrawn => {
                let i = self.conc(s, a[0].e())? as usize;
                let Some(e) = s.drawn.get(i).copied() else { return Err(Stop::Err("drawn".into())) };
                V::I(if rw == 8 { e } else { self.ar.zext(e, rw) })
            }
            Bi::RtExpectPanic => {
                s.expect_panic = self.conc(s, a[0].e())? != 0;
                return Ok(None);
            }
            Bi::RtObserve => {
                let (p, n) = (self.conc(s, a[0].e())?, self.conc(s, a[1].e())?);
                let b = self.read_bytes(s, E::C(64, p), n)?;
                s.obs.push(Rc::new(b));
                return Ok(None);
            }
            Bi::RtReach => {
                let id = self.conc(s, a[0].e())?;
                *self.st.labels.entry(id as u32).or_default() += 1;
                return Ok(None);
            }
            Bi::RtDigestSyms => {
                let lo = self.conc(s, a[0].e())?;
                let hi = self.conc(s, a[1].e())?;
                s.digest_syms = Some((lo as u32, hi as u32));
                return Ok(None);
            }
            Bi::RtConcrete => {
                // forks until the value is concrete
                let v = self.conc(s, a[0].e())?;
                V::I(E::C(64, v))
            }
        }))
    }
}
