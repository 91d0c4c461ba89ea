//! Histories of setter calls and authorizations.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use std::num::NonZeroU64;

const CLOCK: u64 = 1700000123;
fn lk(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn nz(t: u64) -> NonZeroU64 {
    NonZeroU64::new(t).unwrap()
}
fn blank() -> Scn {
    let mut s = Scn::minimal();
    s.nonce = None;
    s.ts = None;
    s.params = vec![it("a", "1"), it("oauth_m", "x y"), it("z", "")];
    s
}
/// Completes the state by what was generated for this output, then compares with what a fresh
/// builder with these values has to send.
fn compare(s: &Scn, sm: &str, mode: u32, got: &[u8]) {
    sx::observe(got);
    let mut s = s.clone();
    if s.nonce.is_none() {
        let v = if mode == 0 {
            parse_header(got)
        } else if mode == 1 {
            parse_form(got)
        } else {
            parse_form(&got[s.uri.len() + 1..])
        };
        let n = decode(one(&v, "oauth_nonce").unwrap());
        sx::assert(!n.is_empty(), 1);
        s.nonce = Some(sx::raw(n));
    }
    if s.ts.is_none() {
        s.ts = Some(CLOCK);
    }
    let r = s.req(sm);
    match mode {
        0 => sx::eq(got, r.header(), 2),
        1 => sx::eq(got, r.form(), 3),
        _ => sx::eq(got, r.query(), 4),
    }
}
fn output<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, s: &Scn, sm: &str, mode: u32) {
    let got = match mode {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
    };
    compare(s, sm, mode, got.as_bytes());
}
const OPS: u32 = 16;
/// One setter call on builder, options and the model, or an authorization.
fn op<SM: SignatureMethod + Clone>(
    b: &mut Builder<'static, SM, &'static str, &'static str>,
    o: &mut Options<'static>,
    s: &mut Scn,
    sm: &str,
    k: u32,
    v: &'static str,
    n: u64,
) {
    match k {
        0 => {
            b.token(Credentials::new(v, "tsec"));
            s.token = Some((v.into(), "tsec".into()));
        }
        1 => {
            b.token(Some(Credentials::new("tid", v)));
            s.token = Some(("tid".into(), v.into()));
        }
        2 => {
            b.token(None);
            s.token = None;
        }
        3 => {
            b.callback(v);
            o.callback(v);
            s.callback = Some(v.into());
        }
        4 => {
            b.callback(None);
            o.callback(None);
            s.callback = None;
        }
        5 => {
            b.verifier(Some(v));
            o.verifier(Some(v));
            s.verifier = Some(v.into());
        }
        6 => {
            b.verifier(None);
            o.verifier(None);
            s.verifier = None;
        }
        7 => {
            b.nonce(v);
            o.nonce(v);
            s.nonce = Some(v.into());
        }
        8 => {
            b.nonce(None);
            o.nonce(None);
            s.nonce = None;
        }
        9 => {
            b.timestamp(nz(n));
            o.timestamp(nz(n));
            s.ts = Some(n);
        }
        10 => {
            b.timestamp(None);
            o.timestamp(None);
            s.ts = None;
        }
        11 => {
            b.version(true);
            o.version(true);
            s.version = true;
        }
        12 => {
            b.version(false);
            o.version(false);
            s.version = false;
        }
        13 => {
            // a copy is independent of its origin
            let c = b.clone();
            b.callback("disturbed").verifier("disturbed").version(true).token(Credentials::new("x", "y"));
            *b = c;
        }
        14 => output(b, s, sm, 0),
        _ => output(b, s, sm, 1 + n as u32 % 2),
    }
}
fn run<SM: SignatureMethod + Clone>(sm: SM, name: &str, k: u32, pick: impl Fn(u32) -> u32) {
    let mut s = blank();
    let client = Credentials::new("ck", "cs");
    let mut b = if sx::flag() {
        Builder::new(client, sm.clone())
    } else {
        s.token = Some(("t0".into(), "s0".into()));
        Builder::with_token(Token::from_parts("ck", "cs", "t0", "s0"), sm.clone())
    };
    let mut o = Options::new();
    for i in 0..k {
        let v = ["v ", "w", "x%", "y/", "z", "u"][i as usize];
        let k = pick(i);
        // an arbitrary character in each value that is set
        let v = if [0, 1, 3, 5, 7].contains(&k) { lk(v.to_string() + &sx::unreserved(1)) } else { v };
        op(&mut b, &mut o, &mut s, name, k, v, 10 + i as u64);
    }
    let tok = s.tok();
    match sx::choose(4) {
        0 => {
            let a = Authorizer::authorization(&s.method, &s.uri, s.client(), tok, &o, sm);
            compare(&s, name, 0, s.items().serialize(a).as_bytes());
        }
        1 => compare(&s, name, 1, b.into_form(&s.method, &s.uri, &s.items()).as_bytes()),
        2 => output(&b, &s, name, 0),
        _ => output(&b, &s, name, 2),
    }
    sx::reach(1);
}
/// Every sequence of operations.
/// bounds: sequences of 3 (thorough: 5) operations out of 16 (set and unset each option, copy, authorize in 3 modes), two constructors, then one of four outputs; each value set ends in an arbitrary unreserved character
#[no_mangle]
pub extern "C" fn c11_sequences(t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(CLOCK, 0);
    run(Rec, "X-REC", 3 + t * 2, |_| sx::choose(OPS));
}
/// Longer sequences on one option each: setting and unsetting it again and again.
/// bounds: sequences of 6 operations on token, callback, verifier, nonce, timestamp or version and authorizing
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c11_one_option(_t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(CLOCK, 0);
    let w = sx::choose(6);
    let own: &[u32] = [&[0, 1, 2, 14][..], &[3, 4, 14], &[5, 6, 14], &[7, 8, 14], &[9, 10, 14], &[11, 12, 14]][w as usize];
    run(Rec, "X-REC", if w == 0 { 4 } else { 5 }, |_| own[sx::choose(own.len() as u32) as usize]);
}
/// Arbitrary values, under the built-in signature methods.
/// bounds: two setter calls with arbitrary text of the shapes in sx::text, arbitrary timestamps, authorizing in between
#[no_mangle]
pub extern "C" fn c11_values(_t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(CLOCK, 0);
    if sx::flag() {
        values(oauth::HMAC_SHA1, "HMAC-SHA1");
    } else {
        values(oauth::PLAINTEXT, "PLAINTEXT");
    }
}
fn values<SM: SignatureMethod + Clone>(sm: SM, name: &str) {
    let mut s = blank();
    s.nonce = Some("n".into());
    let mut b = Builder::new(Credentials::new("ck", "cs"), sm);
    b.nonce("n");
    let mut o = Options::new();
    let k = [0, 1, 3, 5, 7, 9][sx::choose(6) as usize];
    for i in 0..2 {
        let (v, n) = match (i, k) {
            (1, 9) => ("", any_ts()),
            (1, _) => (lk(sx::text()), 1),
            _ => ("first", 77),
        };
        op(&mut b, &mut o, &mut s, name, k, v, n);
        if i == 0 && sx::flag() {
            output(&b, &s, name, 0);
        }
    }
    output(&b, &s, name, sx::choose(3));
    sx::reach(1);
}
/// Authorizing again gives the same text.
/// bounds: any single part arbitrary text; up to 3 authorizations in any of 3 modes
#[no_mangle]
pub extern "C" fn c11_repeat(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::focused();
    if sx::flag() {
        repeat(&s, s.builder(oauth::HMAC_SHA1));
    } else {
        repeat(&s, s.builder(oauth::PLAINTEXT));
    }
}
fn repeat<SM: SignatureMethod + Clone>(s: &Scn, b: Builder<'_, SM, &str, &str>) {
    let m = sx::choose(3);
    let go = |b: &Builder<'_, SM, &str, &str>, m| match m {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
    };
    let first = go(&b, m);
    go(&b, sx::choose(3));
    sx::eq(&go(&b, m), &first, 5);
    let last = match m {
        0 => b.into_authorization(&s.method, &s.uri, &s.items()),
        1 => b.into_form(&s.method, &s.uri, &s.items()),
        _ => b.into_query(&s.method, s.uri.clone(), &s.items()),
    };
    sx::observe(&last);
    sx::eq(&last, &first, 6);
    sx::reach(1);
}
/// One builder, different requests.
/// bounds: three authorizations of two requests that differ in method, URI or parameters; any of 3 modes each
#[no_mangle]
pub extern "C" fn c11_requests(_t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let old = s.clone();
    let b = old.builder(oauth::HMAC_SHA1);
    for i in 0..3 {
        if i == 1 {
            match sx::choose(4) {
                0 => s.method = sx::ascii(3),
                1 => {
                    s.uri = sx::small("http://example.com/", "");
                    no_question(&s.uri);
                }
                2 => s.params = vec![it("a", &sx::ascii(1)), it("z", "2")],
                _ => s.params = vec![],
            }
        } else {
            s = old.clone();
        }
        let r = s.req("HMAC-SHA1");
        let (got, want) = match sx::choose(3) {
            0 => (b.authorize(&s.method, &s.uri, &s.items()), r.header()),
            1 => (b.to_form(&s.method, &s.uri, &s.items()), r.form()),
            _ => (b.to_query(&s.method, s.uri.clone(), &s.items()), r.query()),
        };
        sx::observe(&got);
        sx::eq(&got, want, 7);
    }
    sx::reach(1);
}

/// A builder used many times, and others beside it: nothing wears out.
/// bounds: 48 (thorough: 600) authorizations of one builder by turns with two others, header, form and query; one arbitrary ASCII character in a secret
/// variants: dbg rel alloc
#[no_mangle]
pub extern "C" fn c11_many(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    s.cs = sx::small("c", "");
    let mut o = s.clone();
    o.token = None;
    o.nonce = Some("other".into());
    macro_rules! go {
        ($sm:expr, $name:expr) => {{
            let (b, c) = (s.builder($sm), o.builder($sm));
            let (r, q) = (s.req($name), o.req($name));
            let want = [[r.header(), r.form(), r.query()], [q.header(), q.form(), q.query()]];
            for i in 0..(if t > 0 { 600 } else { 48 }) {
                let (b, s, w) = if i % 4 == 3 { (&c, &o, 1) } else { (&b, &s, 0) };
                let m = i % 5 % 3;
                let got = match m {
                    0 => b.authorize_with_buf(String::new(), &s.method, &s.uri, &s.items()),
                    1 => b.to_form_with_buf(String::new(), &s.method, &s.uri, &s.items()),
                    _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
                };
                sx::eq(&got, &want[w][m], 8);
            }
        }};
    }
    if sx::flag() {
        go!(oauth::HMAC_SHA1, "HMAC-SHA1");
    } else {
        go!(Rec, "X-REC");
    }
    sx::reach(1);
}
