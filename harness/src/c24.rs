//! Two runs with different secrets.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::{Plaintext, SignatureMethod};
use oauth::Request;

fn send<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, mode: u32) -> String {
    let b = s.builder(sm.clone());
    let o = s.options();
    let (c, t) = (s.client(), s.tok());
    match mode {
        0 => b.authorize_with_buf(String::new(), &s.method, &s.uri, &s.items()),
        1 => b.into_form_with_buf(String::new(), &s.method, &s.uri, &s.items()),
        2 => b.to_query(&s.method, s.uri.clone(), &s.items()),
        _ => s.items().serialize(Authorizer::authorization_with_buf(String::new(), &s.method, &s.uri, c, t, &o, sm)),
    }
}
/// The output cut around the value of oauth_signature.
fn around<'a>(s: &Scn, mode: u32, got: &'a str) -> (&'a [u8], &'a [u8]) {
    const N: &[u8] = b"oauth_signature=";
    let g = got.as_bytes();
    let start = if mode == 2 { s.uri.len() + 1 } else { 0 };
    let mut i = start;
    loop {
        if i + N.len() > g.len() {
            sx::assert(false, 1);
        }
        if &g[i..i + N.len()] == N && (i == start || matches!(g[i - 1], b'&' | b',' | b' ')) {
            break;
        }
        i += 1;
    }
    let b = i + N.len();
    let mut e = b;
    while e < g.len() && g[e] != b'&' && g[e] != b',' {
        e += 1;
    }
    (&g[..b], &g[e..])
}
/// The same request again with other secrets.
fn check<SM: SignatureMethod + Clone>(s: &Scn, cs: String, ts: String, sm: SM) {
    let mut o = s.clone();
    o.cs = cs;
    if let Some(t) = &mut o.token {
        t.1 = ts;
    }
    let mode = sx::choose(4);
    let (a, b) = (send(s, sm.clone(), mode), send(&o, sm, mode));
    sx::observe(&a);
    sx::observe(&b);
    let (x, y) = (around(s, mode, &a), around(&o, mode, &b));
    sx::eq(x.0, y.0, 2);
    sx::eq(x.1, y.1, 3);
    // the token is there or not
    let v = match mode {
        0 | 3 => parse_header(a.as_bytes()),
        1 => parse_form(a.as_bytes()),
        _ => parse_form(&a.as_bytes()[s.uri.len() + 1..]),
    };
    let t = one(&v, "oauth_token");
    sx::assert(t.is_some() == s.token.is_some(), 4);
    if let Some(t) = t {
        sx::eq(t, enc(&s.token.as_ref().unwrap().0), 5);
    }
    sx::reach(1);
}
fn secrets(s: &mut Scn) -> (String, String) {
    match sx::choose(6) {
        0 => {
            s.cs = sx::text();
            (sx::short_text(), "ts".into())
        }
        1 => {
            if let Some(t) = &mut s.token {
                t.1 = sx::text();
            }
            (s.cs.clone(), sx::short_text())
        }
        2 => {
            // one empty, the other not
            s.cs = String::new();
            (sx::ascii(1), sx::ascii(1))
        }
        3 => {
            if let Some(t) = &mut s.token {
                t.1 = String::new();
            }
            (sx::ascii(1), sx::ascii(1))
        }
        4 => {
            // swapped
            s.cs = sx::ascii(1);
            let r = s.cs.clone();
            if let Some(t) = &mut s.token {
                t.1 = sx::ascii(1);
                return (t.1.clone(), r);
            }
            (sx::ascii(1), String::new())
        }
        _ => {
            // equal to something public
            let t = s.token.as_ref().map_or(String::new(), |t| t.0.clone());
            (s.ck.clone(), t)
        }
    }
}
fn with(s: &Scn, cs: String, ts: String) {
    match sx::choose(3) {
        0 => check(s, cs, ts, oauth::HmacSha1::new()),
        1 => check(s, cs, ts, Plaintext::<String>::with_buf()),
        _ => {
            // the signature is the base string: it depends on no secret
            let mut o = s.clone();
            o.cs = cs.clone();
            if let Some(t) = &mut o.token {
                t.1 = ts.clone();
            }
            sx::eq(send(s, Rec, 1), send(&o, Rec, 1), 6);
            check(s, cs, ts, Rec)
        }
    }
}
/// Pairs of secrets of every kind.
/// bounds: pairs of client or token secrets of the shapes in sx::text, pairs of single arbitrary ASCII characters in both, empty, swapped, equal to identifiers; with and without token and optional parts; header, form, query; HMAC-SHA1, PLAINTEXT, one that signs with the base string
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c24_secrets(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    let (c, t) = secrets(&mut s);
    with(&s, c, t);
}
/// Requests of every kind under different secrets.
/// bounds: every combination of optional parts with 7 parameter lists, or any part of the request arbitrary text; secrets empty, fixed or long against one arbitrary ASCII character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c24_requests(_t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(4) {
        0 => Scn::combos(),
        1 => Scn::focused(),
        2 => Scn::urls(),
        _ => Scn::names(),
    };
    let (c, t) = match sx::choose(4) {
        0 => (String::new(), String::new()),
        1 => (sx::ascii(1), "ts".into()),
        2 => ("&".repeat(70), sx::ascii(1)),
        _ => ("cs".into(), "%".repeat(70)),
    };
    with(&s, c, t);
}
/// Long secrets, long requests.
/// bounds: one secret of 7 to 4096 bytes (thorough: 65536) with one arbitrary ASCII character against a short one; one part of the request long or many parameters, secrets one arbitrary ASCII character against a long one
#[no_mangle]
pub extern "C" fn c24_long(t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    match sx::choose(3) {
        0 => {
            s.cs = sx::long_text(1 + t);
            with(&s, "x".into(), "y".into());
        }
        1 => {
            s.token = Some(("tk".into(), sx::long_text(1 + t)));
            with(&s, "cs".into(), "y".into());
        }
        _ => {
            s = Scn::long_by(t, || sx::long_of([64, 600, 4096][sx::choose(3) as usize], 1));
            with(&s, sx::ascii(1), "t".repeat(5000));
        }
    }
}
/// Empty identifiers: it is having a token that counts.
/// bounds: identifiers and secrets of up to 1 arbitrary ASCII character
/// variants: dbg rel alloc none
#[no_mangle]
pub extern "C" fn c24_empty(_t: u32) {
    let mut s = Scn::full();
    let any = || {
        let n = sx::choose(2) as usize;
        sx::ascii(n)
    };
    s.token = if sx::flag() { Some((any(), any())) } else { None };
    s.ck = any();
    s.cs = any();
    with(&s, any(), any());
}
/// Generated nonces and timestamps: with the same random bytes and clock reading they are the same
/// whatever the secrets.
/// bounds: all values of the drawn bytes; secrets of one arbitrary ASCII character or empty
/// variants: alloc
#[no_mangle]
pub extern "C" fn c24_generated(_t: u32) {
    sx::arm_env(false, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.nonce = None;
    let mut o = s.clone();
    let n = sx::choose(2) as usize;
    o.cs = sx::ascii(n);
    if let Some(t) = &mut o.token {
        t.1 = sx::ascii(n);
    }
    let mode = sx::choose(4);
    if mode == 3 {
        return;
    }
    let a = send(&s, Plaintext::<String>::with_buf(), mode);
    let d = sx::ndrawn();
    let b = send(&o, Plaintext::<String>::with_buf(), mode);
    sx::assert(sx::ndrawn() == 2 * d, 7);
    for i in 0..d {
        sx::assume(sx::drawn(i) == sx::drawn(d + i));
    }
    let (x, y) = (around(&s, mode, &a), around(&o, mode, &b));
    sx::eq(x.0, y.0, 2);
    sx::eq(x.1, y.1, 3);
    sx::reach(1);
}
/// What a signature algorithm of the user's own is told.
/// bounds: as c24_secrets; algorithms that override all or none of the optional methods
#[no_mangle]
pub extern "C" fn c24_custom(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    let (cs, ts) = secrets(&mut s);
    let mut o = s.clone();
    o.cs = cs;
    if let Some(t) = &mut o.token {
        t.1 = ts;
    }
    let l = Log::new(sx::flag(), sx::flag(), sx::flag());
    let mode = sx::choose(4);
    // the secrets are handed over once, first
    let mut cut = |s: &Scn| {
        let a = send(s, l.clone(), mode);
        let g = l.take();
        let mut w = vec![];
        w.extend(b"0with ");
        w.extend(s.cs.bytes());
        if let Some(t) = &s.token {
            w.push(b' ');
            w.extend(t.1.bytes());
        }
        w.push(b'\n');
        sx::assert(g.len() > w.len(), 8);
        sx::eq(&g[..w.len()], &w, 9);
        (a, g[w.len()..].to_vec())
    };
    let (a, b) = (cut(&s), cut(&o));
    sx::eq(a.0, b.0, 10);
    sx::eq(a.1, b.1, 11);
    sx::reach(1);
}
