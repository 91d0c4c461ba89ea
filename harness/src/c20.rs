//! Misuse panics (in debug builds), everything else does not.
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::serializer::Serializer;
use oauth::signature_method::SignatureMethod;
use oauth::Request;
use std::fmt::{self, Display, Write};

/// The harness and the crate under test are compiled with the same setting.
const DEBUG: bool = cfg!(debug_assertions);
/// The order of parameters is only checked where there is an allocator.
const ORDER: bool = DEBUG && cfg!(feature = "alloc");

/// A caller's own type for URIs and buffers, displayed in pieces.
#[derive(Clone, Default)]
struct Cut(Vec<String>);
impl Display for Cut {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for s in &self.0 {
            f.write_str(s)?;
        }
        Ok(())
    }
}
impl Write for Cut {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.into());
        Ok(())
    }
}
fn cut(s: &str, every: usize) -> Cut {
    let mut v = vec![];
    let mut b = 0;
    for i in 1..=s.len() {
        if i == s.len() || s.is_char_boundary(i) && i - b >= every {
            v.push(s[b..i].to_string());
            b = i;
        }
    }
    Cut(v)
}
fn valid(s: &str) {
    sx::observe(s);
    sx::assert(sx::utf8_ok(s.as_bytes()), 1);
    sx::assert(!s.is_empty(), 2);
}
/// One signed request through some entry point.
fn sign<SM: SignatureMethod + Clone, R: Request>(s: &Scn, sm: SM, r: &R, k: u32) -> String {
    let o = s.options();
    let b = s.builder(sm.clone());
    let (m, u) = (&*s.method, &*s.uri);
    match k {
        0 => b.authorize_with_buf(String::new(), m, u, r),
        #[cfg(feature = "alloc")]
        1 => b.to_form_with_buf(String::new(), m, u, r),
        2 => b.to_query(m, u.to_string(), r),
        3 => b.into_query(m, cut(u, 1), r).to_string(),
        4 => b.authorize_with_buf(Cut::default(), m, cut(u, 1), r).to_string(),
        5 => r.serialize(Authorizer::form_with_buf(String::new(), m, cut(u, 3), s.client(), s.tok(), &o, sm)),
        6 => r.serialize(Authorizer::query(m, u.to_string(), s.client(), s.tok(), &o, sm)),
        7 => r.serialize(Authorizer::authorization_with_buf(String::new(), m, u, s.client(), s.tok(), &o, sm)),
        8 => b.post_query(u.to_string(), r),
        9 => b.into_form_with_buf(String::new(), m, u, r),
        10 => b.into_authorization_with_buf(String::new(), m, u, r),
        #[cfg(feature = "alloc")]
        11 => b.authorize(m, u, r),
        #[cfg(feature = "alloc")]
        12 => b.to_form(m, cut(u, 2), r),
        #[cfg(feature = "alloc")]
        13 => b.get(u, r),
        #[cfg(feature = "alloc")]
        14 => b.put_form(u, r),
        #[cfg(feature = "std")]
        15 => match s.tok() {
            Some(t) => oauth::authorize(m, cut(u, 1), r, &oauth::Token::new(s.client(), t), sm),
            None => b.post(cut(u, 1), r),
        },
        #[cfg(feature = "std")]
        16 if s.token.is_some() => oauth::get(u, r, &oauth::Token::new(s.client(), s.tok().unwrap()), sm),
        _ => b.get_query(u.to_string(), r),
    }
}
const ENTRIES: u32 = if cfg!(feature = "alloc") { 18 } else { 11 };
fn has(s: &str, c: u8) -> bool {
    let mut any = false;
    for b in s.bytes() {
        any |= b == c;
    }
    any
}
/// Runs `f`, which panics if and only if `bad`.
fn panics(bad: bool, f: impl FnOnce() -> String) {
    sx::reach(1);
    if bad {
        sx::expect_panic(true);
        f();
        sx::expect_panic(false);
        sx::assert(false, 3);
    } else {
        valid(&f());
    }
}
/// A question mark anywhere in the URI.
/// bounds: URIs of up to 3 arbitrary ASCII characters, one arbitrary character at the beginning, in the middle or at the end of a longer one or after 600 bytes; all kinds of entry point; URIs as text and displayed in pieces
/// variants: dbg rel alloc alloc-rel none none-rel
#[no_mangle]
pub extern "C" fn c20_question(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.uri = match sx::choose(8) {
        0 => String::new(),
        1 => sx::ascii(1),
        2 => sx::ascii(2),
        3 => sx::ascii(3),
        4 => sx::small("", "http://example.com/"),
        5 => sx::small("http://example.com/a", "b\u{e9}"),
        6 => {
            let mut v = "http://ex\u{2202}".to_string();
            v.push_str(&sx::any_chars(1));
            v
        }
        _ => {
            let mut v = "/".repeat(600);
            v.push_str(&sx::ascii(1));
            v
        }
    };
    let k = sx::choose(ENTRIES);
    let bad = has(&s.uri, b'?') && DEBUG;
    panics(bad, || sign(&s, oauth::HMAC_SHA1, &s.items(), k));
}
/// A question mark anywhere else is fine.
/// bounds: each other part of the request of one arbitrary ASCII character; all kinds of entry point
/// variants: dbg alloc none
#[no_mangle]
pub extern "C" fn c20_elsewhere(_t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let t = sx::small("?", "");
    match sx::choose(8) {
        0 => s.method = t,
        1 => s.ck = t,
        2 => s.cs = t,
        3 => s.token = Some((t.clone(), t)),
        4 => s.callback = Some(t),
        5 => s.verifier = Some(t),
        6 => s.nonce = Some(t),
        _ => s.params[0].val = t,
    }
    let k = sx::choose(ENTRIES);
    panics(false, || sign(&s, oauth::HMAC_SHA1, &s.items(), k));
}
/// Calls made on the serializer as given.
struct Seq(Vec<It>);
impl Request for Seq {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        for i in &self.0 {
            match OAUTH.iter().position(|n| i.val == "(oauth)" && *n == i.name) {
                Some(k) => oauth_call(k, &mut s),
                None if i.enc => s.serialize_parameter_encoded(&i.name, &*i.val),
                None => s.serialize_parameter(&i.name, &*i.val),
            }
        }
        s.end()
    }
}
fn misordered(v: &[It]) -> bool {
    (1..v.len()).any(|i| v[i].name.as_bytes() < v[i - 1].name.as_bytes())
}
fn any_item(t: u32) -> It {
    match sx::choose(6) {
        0 => it("", "x"),
        1 => It { name: sx::ascii(1), val: "v".into(), enc: sx::flag() },
        2 => It { name: sx::ascii(2), val: "".into(), enc: false },
        3 => it(&sx::small("oauth_t", if t > 0 { "" } else { "ken" }), "v"),
        4 => It { name: format!("k{}", sx::any_chars(1)), val: "v".into(), enc: true },
        _ => it(OAUTH[if t > 0 { sx::choose(8) } else { 1 + 2 * sx::choose(4) } as usize], "(oauth)"),
    }
}
/// Parameters in any order.
/// bounds: up to 3 (thorough: 4) calls; names arbitrary ASCII of up to 2 characters, one arbitrary character, around the oauth_* names, or oauth_* parameters; header, form and query
/// variants: dbg rel alloc none
#[no_mangle]
pub extern "C" fn c20_order(t: u32) {
    let mut v = vec![];
    for _ in 0..sx::choose(4 + t) {
        v.push(any_item(t));
    }
    let s = Scn::full();
    let k = sx::choose(3);
    let bad = ORDER && misordered(&v);
    panics(bad, || sign(&s, oauth::signature_method::Plaintext::<String>::with_buf(), &Seq(v), k));
}

/// Names that begin alike.
/// bounds: two names that differ in one arbitrary character after 15 to 4096 equal ones, or of which one is the beginning of the other; after OAuth parameters or not
/// variants: dbg rel none
#[no_mangle]
pub extern "C" fn c20_alike(_t: u32) {
    let n = [15, 16, 31, 32, 63, 64, 127, 255, 256, 1023, 4096][sx::choose(11) as usize];
    let name = || {
        let mut v = "z".repeat(n);
        v.push_str(&match sx::choose(3) {
            0 => String::new(),
            1 => sx::ascii(1),
            _ => sx::any_chars(1),
        });
        v
    };
    let mut v = vec![it(&name(), "v"), it(&name(), "v")];
    if sx::flag() {
        v.insert(0, it("oauth_token", "(oauth)"));
    }
    let bad = ORDER && misordered(&v);
    panics(bad, || sign(&Scn::full(), oauth::signature_method::Plaintext::<String>::with_buf(), &Seq(v), 2));
}
/// One place out of order among many.
/// bounds: up to 130 parameters, any one of 6 places changed to a name of one arbitrary ASCII character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c20_place(_t: u32) {
    let n = [3usize, 33, 130][sx::choose(3) as usize];
    let mut v: Vec<It> = (0..n).map(|i| it(&format!("{}", 1000 + i), "")).collect();
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose(5) as usize];
    v[at].name = format!("{}{}", &v[at].name[..3], sx::ascii(1));
    let bad = ORDER && misordered(&v);
    let k = sx::choose(3);
    panics(bad, || sign(&Scn::full(), oauth::signature_method::Plaintext::<String>::with_buf(), &Seq(v), k));
}
/// Arbitrary characters everywhere, also in parameter names and already encoded values.
/// bounds: each part of the request two (thorough: three) arbitrary characters of any kind in turn, values displayed character by character; header, form and query; HMAC-SHA1 and PLAINTEXT
/// variants: dbg rel none none-rel
#[no_mangle]
pub extern "C" fn c20_characters(t: u32) {
    let mut s = Scn::full();
    let x = sx::any_chars(2 + t as usize);
    match sx::choose(12) {
        0 => s.method = x,
        1 => s.ck = x,
        2 => s.cs = x,
        3 => s.token.as_mut().unwrap().0 = x,
        4 => s.token.as_mut().unwrap().1 = x,
        5 => s.callback = Some(x),
        6 => s.verifier = Some(x),
        7 => s.nonce = Some(x),
        8 => s.params = vec![it("a", &x)],
        9 => s.params = vec![ite("a", &x)],
        10 => s.params = vec![it(&x, "v")],
        _ => {
            s.uri = x;
            no_question(&s.uri);
        }
    }
    let seq = Seq(s.params.clone());
    // sorted whatever the name is
    struct Sorted(Seq, bool);
    impl Request for Sorted {
        fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
            for k in 0..8 {
                oauth_call(k, &mut s);
            }
            for i in &(self.0).0 {
                if self.1 {
                    let p = cut(&i.val, 1);
                    if i.enc {
                        s.serialize_parameter_encoded(&i.name, p)
                    } else {
                        s.serialize_parameter(&i.name, p)
                    }
                } else {
                    s.serialize_parameter(&i.name, &*i.val)
                }
            }
            s.end()
        }
    }
    // a name after all others
    let seq = Seq(seq.0.into_iter().map(|i| It { name: format!("p{}", i.name), ..i }).collect());
    let r = Sorted(seq, sx::flag());
    let k = sx::choose(3);
    sx::reach(1);
    if sx::flag() {
        valid(&sign(&s, oauth::HMAC_SHA1, &r, k));
    } else {
        valid(&sign(&s, oauth::signature_method::Plaintext::<String>::with_buf(), &r, k));
    }
}
/// Long inputs.
/// bounds: one part of the request 100 to 70000 bytes long around one arbitrary ASCII character, 300 parameters; header, form and query
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c20_long(_t: u32) {
    let mut s = Scn::full();
    let n = [100, 255, 256, 4096, 65535, 65536, 70000][sx::choose(7) as usize];
    let mut x = if sx::flag() { "%".repeat(n) } else { "y".repeat(n) };
    x.push_str(&sx::ascii(1));
    match sx::choose(10) {
        0 => s.method = x,
        1 => s.ck = x,
        2 => s.cs = x,
        3 => s.token.as_mut().unwrap().0 = x,
        4 => s.token.as_mut().unwrap().1 = x,
        5 => s.callback = Some(x),
        6 => s.params = vec![it("a", &x)],
        7 => s.params = vec![it(&"n".repeat(n), "v")],
        8 => s.params = (0..300).map(|i| it(if i == 299 { "b" } else { "a" }, &x[..i.min(99)])).collect(),
        _ => {
            s.uri = x;
            no_question(&s.uri);
        }
    }
    let k = sx::choose(3);
    sx::reach(1);
    valid(&sign(&s, oauth::signature_method::Plaintext::<String>::with_buf(), &s.items(), k));
}
/// Generated nonces and timestamps, whatever the system provides.
/// bounds: none on the clock (seconds of any 64-bit value up to the platform's limits, before and after the epoch)
/// variants: dbg rel
#[no_mangle]
#[cfg(feature = "std")]
pub extern "C" fn c20_system(_t: u32) {
    sx::arm_env(true, false);
    let mut s = Scn::minimal();
    s.nonce = None;
    s.ts = None;
    let k = sx::choose(3);
    sx::reach(1);
    valid(&sign(&s, Rec, &s.items(), k));
}
/// Generated nonces, whatever randomness the system provides.
/// bounds: none on the random bytes
/// variants: alloc none-rel
#[no_mangle]
pub extern "C" fn c20_random(_t: u32) {
    sx::arm_env(false, true);
    let mut s = Scn::minimal();
    s.nonce = None;
    let k = sx::choose(3);
    sx::reach(1);
    valid(&sign(&s, Rec, &s.items(), k));
}
/// Lists and unsigned serialization.
/// bounds: up to 3 entries, names and values up to one arbitrary character each or fixed; constructing, extending, iterating, form, query, debug output
/// variants: dbg rel
#[no_mangle]
#[cfg(feature = "alloc")]
pub extern "C" fn c20_lists(_t: u32) {
    sx::arm_env(true, true);
    let mut v: Vec<(String, String)> = vec![];
    let n = sx::choose(4);
    for i in 0..n {
        let c = if i == 1 { sx::any_chars(1) } else { sx::ascii(1) };
        v.push(match sx::choose(3) {
            0 => (c, "".into()),
            1 => ("a".into(), c),
            _ => ("".into(), "%".into()),
        });
    }
    sx::reach(1);
    let l = match sx::choose(3) {
        0 => oauth::ParameterList::new(v),
        1 => {
            let mut l = oauth::ParameterList::default();
            l.extend(v);
            l
        }
        _ => match oauth::ParameterList::from_sorted(v) {
            Some(l) => l,
            None => return,
        },
    };
    valid(&format!("{}?", oauth::to_form(&l)));
    valid(&oauth::to_query("u".into(), &l));
    valid(&oauth::get("u", &l, &oauth::Token::from_parts("a", "b", "c", "d"), oauth::PLAINTEXT));
}
