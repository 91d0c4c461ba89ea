//! What a user-defined signature algorithm sees.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::Serializer;
use oauth::signature_method::SignatureMethod;
use oauth::{Credentials, Request};

/// One call on the serializer.
#[derive(Clone)]
enum Op {
    Par(It),
    O(usize),
}
struct Ops(Vec<Op>);
impl Request for Ops {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        for o in &self.0 {
            match o {
                Op::O(k) => oauth_call(*k, &mut s),
                Op::Par(i) if i.enc => s.serialize_parameter_encoded(&i.name, &*i.val),
                Op::Par(i) => s.serialize_parameter(&i.name, &*i.val),
            }
        }
        s.end()
    }
}
fn ops(items: &[It]) -> Vec<Op> {
    let mut v = vec![];
    let mut k = 0;
    for i in items {
        while k < 8 && OAUTH[k].as_bytes() < i.name.as_bytes() {
            v.push(Op::O(k));
            k += 1;
        }
        v.push(Op::Par(i.clone()));
    }
    v.extend((k..8).map(Op::O));
    v
}
/// The calls and the pairs sent, for a request made of `ops`. Generated values are given.
fn want(s: &Scn, ops: &[Op], hooks: bool, un: bool, ut: bool, nonce: Option<&[u8]>, ts: Option<&[u8]>) -> (Vec<u8>, Vec<P>) {
    let l = Log::new(true, true, true);
    match &s.token {
        None => l.ev("with", &[s.cs.as_bytes()]),
        Some((_, t)) => l.ev("with", &[s.cs.as_bytes(), t.as_bytes()]),
    }
    l.ev("method", &[s.method.as_bytes()]);
    l.ev("uri", &[&enc(&s.uri)]);
    let mut sent: Vec<P> = vec![];
    for o in ops {
        let (x, hook) = match o {
            Op::Par(i) => (Some(i.p()), ""),
            Op::O(k) => {
                let n = OAUTH[*k];
                (
                    match k {
                        0 => s.callback.as_ref().map(|v| p(n, v)),
                        1 => Some(p(n, &s.ck)),
                        2 if un => Some(match nonce {
                            Some(v) => pe(n, v),
                            None => p(n, s.nonce.as_ref().unwrap()),
                        }),
                        3 => Some(pe(n, "X-LOG")),
                        4 if ut => Some(match ts {
                            Some(v) => pe(n, v),
                            None => p(n, s.ts.unwrap().to_string()),
                        }),
                        5 => s.token.as_ref().map(|t| p(n, &t.0)),
                        6 => s.verifier.as_ref().map(|v| p(n, v)),
                        7 if s.version => Some(pe(n, "1.0")),
                        _ => None,
                    },
                    &n[6..],
                )
            }
        };
        let Some(x) = x else { continue };
        if !sent.is_empty() {
            l.ev("delim", &[]);
        }
        match (hooks, hook) {
            (true, "signature_method" | "version") => l.ev(hook, &[]),
            (true, h) if h != "" => l.ev(h, &[&enc(&x.val)]),
            _ => l.ev("param", &[&x.name, &enc(&x.val)]),
        }
        sent.push(x);
    }
    l.ev("end", &[]);
    (l.take(), sent)
}
fn header(v: &[P]) -> Vec<u8> {
    let mut o = b"OAuth ".to_vec();
    for x in v {
        if x.name.starts_with(b"oauth_") && OAUTH.iter().any(|n| n.as_bytes() == x.name) {
            o.extend(&x.name);
            o.extend(b"=\"");
            o.extend(&x.val);
            o.extend(b"\",");
        }
    }
    o.extend(b"oauth_signature=\"sig%2F\"");
    o
}
fn form(v: &[P]) -> Vec<u8> {
    let mut v = v.to_vec();
    v.push(pe("oauth_signature", "sig%2F"));
    urlencoded(&v)
}
fn run<SM: SignatureMethod + Clone>(s: &Scn, ops: &[Op], sm: SM, log: &Log, mode: u32) {
    let b = s.builder(sm);
    let r = Ops(ops.to_vec());
    let out = match mode {
        0 => b.into_authorization_with_buf(String::new(), &s.method, &s.uri, &r),
        1 => b.into_form_with_buf(String::new(), &s.method, &s.uri, &r),
        _ => b.into_query(&s.method, s.uri.clone(), &r),
    };
    judge(s, ops, log, mode, out.as_bytes());
}
fn judge(s: &Scn, ops: &[Op], log: &Log, mode: u32, out: &[u8]) {
    let pairs = match mode {
        0 => parse_header(out),
        1 => parse_form(out),
        _ => parse_form(&out[s.uri.len() + 1..]),
    };
    // generated values: whatever is sent
    let gen = |set: bool, n: &str| if set { None } else { one(&pairs, n) };
    let (nonce, ts) = (gen(s.nonce.is_some(), "oauth_nonce"), gen(s.ts.is_some(), "oauth_timestamp"));
    if let Some(n) = nonce {
        for &b in n {
            sx::assert(sx::is_unreserved(b), 5);
        }
    }
    // a value that should be there but is not shows up as a difference
    let missing: &[u8] = b"(missing)";
    let some = |set: bool, x| if set { None } else { Some(x) };
    let (calls, sent) = want(
        s,
        ops,
        log.hooks,
        log.use_nonce,
        log.use_timestamp,
        some(s.nonce.is_some(), nonce.unwrap_or(missing)),
        some(s.ts.is_some(), ts.unwrap_or(missing)),
    );
    sx::observe(out);
    sx::eq(log.take(), &calls, 1);
    match mode {
        0 => sx::eq(out, header(&sent), 2),
        1 => sx::eq(out, form(&sent), 3),
        _ => {
            let mut q = s.uri.clone().into_bytes();
            q.push(b'?');
            q.extend(form(&sent));
            sx::eq(out, &q, 4)
        }
    }
    sx::reach(1);
}
fn any_log() -> Log {
    Log::new(sx::flag(), sx::flag(), sx::flag())
}
/// Requests of every kind, all kinds of algorithm.
/// bounds: any single part of the request arbitrary text, every combination of optional parts, arbitrary parameter names, parts two at a time; hooks overridden or not; all answers of use_nonce and use_timestamp; three outputs
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c19_requests(_t: u32) {
    let s = Scn::any();
    let mut s = s;
    // sorted, as a request should be
    sort_items(&mut s.params);
    let l = any_log();
    run(&s, &ops(&s.params), l.clone(), &l, sx::choose(3));
}
fn sort_items(v: &mut [It]) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && v[j].name.as_bytes() < v[j - 1].name.as_bytes() {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
}
/// An algorithm that implements only the required methods.
/// bounds: any single part of the request arbitrary text, every combination of optional parts
/// variants: dbg rel alloc
#[no_mangle]
pub extern "C" fn c19_bare(_t: u32) {
    let s = match sx::choose(4) {
        0 => Scn::focused(),
        1 => Scn::combos(),
        2 => Scn::urls(),
        _ => Scn::many(0),
    };
    let b = Bare::default();
    let l = Log { log: b.0.clone(), hooks: false, use_nonce: true, use_timestamp: true, tag: b'0' };
    run(&s, &ops(&s.params), b, &l, sx::choose(3));
}
/// Requests that leave out or repeat anything: delimiters go between, and only between.
/// bounds: every ascending sequence in which each of the eight OAuth parameters and four others occur or do not (thorough: also repetitions), optional parts set or not
#[no_mangle]
pub extern "C" fn c19_sequences(t: u32) {
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.params = vec![];
    let mut v = vec![];
    let add = |v: &mut Vec<Op>, o: Op| {
        for _ in 0..sx::choose(2 + t) {
            v.push(o.clone());
        }
    };
    add(&mut v, Op::Par(it("", "")));
    add(&mut v, Op::Par(it("a", &sx::small("", ""))));
    for k in 0..4 {
        add(&mut v, Op::O(k));
    }
    add(&mut v, Op::Par(ite("oauth_t", "%25")));
    for k in 4..8 {
        if k == 5 && t > 0 {
            continue;
        }
        add(&mut v, Op::O(k));
    }
    v.push(Op::Par(it("z", "/")));
    if sx::flag() {
        v.pop();
    }
    let l = Log::new(sx::flag(), true, true);
    run(&s, &v, l.clone(), &l, sx::choose(2));
}
/// Generated nonces and timestamps: what is fed is what is sent, and nothing is when not used.
/// bounds: fixed clock and randomness, nonce and timestamp given or not, hooks overridden or not, all answers of use_nonce and use_timestamp, three outputs
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c19_generated(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    if sx::flag() {
        s.nonce = None;
    }
    if sx::flag() {
        s.ts = None;
    }
    let l = any_log();
    run(&s, &ops(&s.params), l.clone(), &l, sx::choose(3));
}
/// Low-level serializer in configurations without a clock: neither is needed when not used.
/// bounds: one arbitrary ASCII character; nonce and timestamp absent where not used
/// variants: alloc none alloc-rel none-rel
#[no_mangle]
pub extern "C" fn c19_low_level(_t: u32) {
    let mut s = Scn::full();
    s.ck = sx::small("", "%");
    let l = any_log();
    if !l.use_nonce && sx::flag() {
        s.nonce = None;
    }
    if !l.use_timestamp && sx::flag() {
        s.ts = None;
    }
    let o: Options = s.options();
    let mode = sx::choose(3);
    let (c, t) = (Credentials::new(&*s.ck, &*s.cs), s.tok());
    let sm = l.clone();
    let a = match mode {
        0 => Authorizer::authorization_with_buf(String::new(), &s.method, &s.uri, c, t, &o, sm),
        1 => Authorizer::form_with_buf(String::new(), &s.method, &s.uri, c, t, &o, sm),
        _ => Authorizer::query(&s.method, s.uri.clone(), c, t, &o, sm),
    };
    let v = ops(&s.params);
    let out = Ops(v.clone()).serialize(a);
    // nothing is generated here
    if s.nonce.is_none() {
        s.nonce = Some(String::new());
    }
    if s.ts.is_none() {
        s.ts = Some(1);
    }
    judge(&s, &v, &l, mode, out.as_bytes());
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c19_again(_t: u32) {
    for s in Scn::sequence() {
        let l = Log::new(true, true, true);
        run(&s, &ops(&s.params), l.clone(), &l, sx::choose(3));
    }
}
