//! rsx: decides the assertions of a harness function over all values of its symbolic inputs.
//!
//! usage: rsx FILE.ll --entry NAME [--arg N] --out OUT.json [options]
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn dump(e: &Engine, path: &str, wall: f64) {
    let s = &e.st;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_trivial\":{},\"asserts_solver\":{},\"dom_decided\":{},\"sha_sym\":{},\"sha_conc\":{},\"sha_eqs\":{},\"max_syms\":{},\"nerrs\":{},\"nviols\":{},\"pending\":{},\"wall\":{:.3},",
        s.paths, s.forks, s.steps, s.asserts, s.asserts_trivial, s.asserts_solver, s.dom_decided, s.sha_sym, s.sha_conc, s.sha_eqs, s.max_syms, s.nerrs, s.nviols, s.pending, wall
    );
    let q = &e.sol;
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.4},\"solver_max_s\":{:.4},\"nodes\":{},",
        q.queries, q.sat, q.unsat, q.unknown, q.hits, q.time, q.max_time, e.ar.nodes.len()
    );
    let _ = write!(
        o,
        "\"ends\":{{{}}},",
        s.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        "\"labels\":{{{}}},",
        s.labels.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, "\"funcs\":[{}],", s.funcs.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errs\":[{}],", s.errs.iter().map(|k| js(k)).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        "\"viols\":[{}],",
        s.viols
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"detail\":{},\"tape\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.detail),
                nums(&v.tape),
                v.stack.iter().map(|k| js(k)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        "\"samples\":[{}]}}",
        s.samples
            .iter()
            .map(|v| format!(
                "{{\"tape\":{},\"obs\":[{}],\"end\":{},\"usable\":{}}}",
                nums(&v.tape),
                v.obs.iter().map(|b| js(&hex(b))).collect::<Vec<_>>().join(","),
                js(&v.end),
                v.usable
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    std::fs::write(path, o).expect("write");
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let num = |n: &str, d: u64| opt(n).map_or(d, |v| v.parse().unwrap());
    let ll = &a[1];
    let entry = opt("--entry").expect("--entry");
    let out = opt("--out").expect("--out");
    let jobs = num("--jobs", 8) as usize;
    let limit = num("--time", 600);
    let maxv = num("--max-viols", 12);
    let t0 = Instant::now();
    let m = ir::Module::load(ll);
    let mut e = Engine::new(m, num("--z3-timeout", 20000) as u32);
    e.trace = a.iter().any(|x| x == "--trace");
    e.keep_samples = num("--samples", 6) as usize;
    e.max_steps = num("--max-steps", 100_000_000);
    // ends early a while after the first violation
    let grace = Duration::from_secs(num("--grace", 1 << 20));
    let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
    assert!(shared as isize != -1);
    let next: &'static AtomicU64 = unsafe { &*(shared as *const AtomicU64) };
    let viols: &'static AtomicU64 = unsafe { &*(shared.add(64) as *const AtomicU64) };
    let until: &'static AtomicU64 = unsafe { &*(shared.add(128) as *const AtomicU64) };
    until.store(limit * 1000, Ordering::SeqCst);
    let over = move || t0.elapsed().as_millis() as u64 > until.load(Ordering::Relaxed);
    let found = move || {
        until.fetch_min((t0.elapsed() + grace).as_millis() as u64, Ordering::SeqCst);
    };
    e.deadline = Some((t0, until));
    let root = e.start(&entry, opt("--arg").map(|v| v.parse().unwrap()));
    let mut frontier: VecDeque<State> = VecDeque::new();
    frontier.push_back(root);
    let want = if jobs <= 1 { 1 } else { jobs * 32 };
    let mut rounds = 0;
    while !frontier.is_empty() && frontier.len() < want && rounds < 4000 && jobs > 1 {
        let s = frontier.pop_front().unwrap();
        let mut o = vec![];
        e.run(s, &mut o);
        frontier.extend(o);
        rounds += 1;
        if e.st.nviols > 0 {
            found();
        }
        if over() {
            break;
        }
    }
    let frontier: Vec<State> = frontier.into();
    viols.store(e.st.nviols, Ordering::SeqCst);
    let work = |e: &mut Engine| {
        loop {
            let i = next.fetch_add(1, Ordering::SeqCst) as usize;
            if i >= frontier.len() {
                break;
            }
            let mut stack = vec![frontier[i].clone()];
            let mut seen = e.st.nviols;
            while let Some(s) = stack.pop() {
                if over() || viols.load(Ordering::SeqCst) > maxv {
                    e.st.pending += stack.len() as u64 + 1;
                    break;
                }
                let mut o = vec![];
                e.run(s, &mut o);
                stack.extend(o);
                if e.st.nviols > seen {
                    found();
                    viols.fetch_add(e.st.nviols - seen, Ordering::SeqCst);
                    seen = e.st.nviols;
                }
            }
        }
    };
    let n = if frontier.is_empty() { 0 } else { jobs };
    if n <= 1 {
        work(&mut e);
        dump(&e, &format!("{}.0", out), t0.elapsed().as_secs_f64());
    } else {
        let root_stats = std::mem::take(&mut e.st);
        let funcs = root_stats.funcs.clone();
        let mut pids = vec![];
        for k in 0..n {
            let p = unsafe { fork() };
            if p == 0 {
                e.st.funcs = funcs.clone();
                if k == 0 {
                    e.st = root_stats.clone();
                } else {
                    // counted once, in the first worker
                    e.sol.queries = 0;
                    e.sol.sat = 0;
                    e.sol.unsat = 0;
                    e.sol.unknown = 0;
                    e.sol.hits = 0;
                    e.sol.time = 0.0;
                }
                work(&mut e);
                dump(&e, &format!("{}.{}", out, k), t0.elapsed().as_secs_f64());
                unsafe { _exit(0) };
            }
            pids.push(p);
        }
        let mut bad = false;
        for p in pids {
            let mut st = 0;
            unsafe { waitpid(p, &mut st, 0) };
            if st != 0 {
                bad = true;
                eprintln!("worker {} ended with status {:#x}", p, st);
            }
        }
        if bad {
            std::process::exit(3);
        }
    }
}

fn main() {
    // deep recursion in the simplifier and evaluator
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
