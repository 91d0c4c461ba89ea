//! Every entry point against the plain call.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, Request, Token};
use std::fmt::{self, Display, Write};

const CLOCK: u64 = 1700000123;
/// A text buffer of the caller's own.
#[derive(Clone, Default)]
struct Own(Vec<u8>);
impl Write for Own {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.extend(s.as_bytes());
        Ok(())
    }
}
impl Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // in two pieces, cut between characters
        let s = std::str::from_utf8(&self.0).unwrap();
        let m = (0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap();
        f.write_str(&s[..m])?;
        f.write_str(&s[m..])?;
        sx::plain(f)
    }
}
fn own(s: &str) -> Own {
    Own(s.as_bytes().to_vec())
}
fn text(o: Own) -> String {
    sx::raw(o.0)
}
const SHORT: [&str; 9] = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "CONNECT", "PATCH", "TRACE"];

/// The plain call.
fn plain<SM: SignatureMethod + Clone>(s: &Scn, sm: &SM, method: &str, mode: u32) -> String {
    let b = s.builder(sm.clone());
    match mode {
        0 => b.authorize(method, &s.uri, &s.items()),
        1 => b.to_form(method, &s.uri, &s.items()),
        _ => b.to_query(method, s.uri.clone(), &s.items()),
    }
}
fn check(got: &str, pre: &str, want: &str) {
    sx::observe(got);
    sx::assert(got.len() >= pre.len(), 1);
    sx::eq(&got.as_bytes()[..pre.len()], pre, 2);
    sx::eq(&got.as_bytes()[pre.len()..], want, 3);
    sx::reach(1);
}
/// Any of the builder's and the serializer's entry points.
fn any_entry<SM: SignatureMethod + Clone>(s: &Scn, sm: SM) {
    let b = s.builder(sm.clone());
    let r = s.items();
    let u = &s.uri;
    let m = &*s.method;
    let k = sx::choose(42);
    match k {
        0..=8 => {
            let got = match k {
                0 => b.get(u, &r),
                1 => b.put(u, &r),
                2 => b.post(u, &r),
                3 => b.delete(u, &r),
                4 => b.options(u, &r),
                5 => b.head(u, &r),
                6 => b.connect(u, &r),
                7 => b.patch(u, &r),
                _ => b.trace(u, &r),
            };
            check(&got, "", &plain(s, &sm, SHORT[k as usize], 0));
        }
        9..=17 => {
            let u = u.clone();
            let got = match k - 9 {
                0 => b.get_query(u, &r),
                1 => b.put_query(u, &r),
                2 => b.post_query(u, &r),
                3 => b.delete_query(u, &r),
                4 => b.options_query(u, &r),
                5 => b.head_query(u, &r),
                6 => b.connect_query(u, &r),
                7 => b.patch_query(u, &r),
                _ => b.trace_query(u, &r),
            };
            check(&got, "", &plain(s, &sm, SHORT[k as usize - 9], 2));
        }
        18 => check(&b.put_form(u, &r), "", &plain(s, &sm, "PUT", 1)),
        19 => check(&b.post_form(u, &r), "", &plain(s, &sm, "POST", 1)),
        20 => check(&b.options_form(u, &r), "", &plain(s, &sm, "OPTIONS", 1)),
        21 => check(&b.patch_form(u, &r), "", &plain(s, &sm, "PATCH", 1)),
        22 => check(&b.into_authorization(m, u, &r), "", &plain(s, &sm, m, 0)),
        23 => check(&b.into_form(m, u, &r), "", &plain(s, &sm, m, 1)),
        24 => check(&b.into_query(m, u.clone(), &r), "", &plain(s, &sm, m, 2)),
        25 => check(&b.authorize_with_buf("pre?fix ".to_string(), m, u, &r), "pre?fix ", &plain(s, &sm, m, 0)),
        26 => check(&b.to_form_with_buf("é=".to_string(), m, u, &r), "é=", &plain(s, &sm, m, 1)),
        27 => check(&b.into_authorization_with_buf("Authorization: ".to_string(), m, u, &r), "Authorization: ", &plain(s, &sm, m, 0)),
        28 => check(&b.into_form_with_buf("x".to_string(), m, u, &r), "x", &plain(s, &sm, m, 1)),
        29 => check(&text(b.authorize_with_buf(own("ab"), m, u, &r)), "ab", &plain(s, &sm, m, 0)),
        30 => check(&text(b.to_form_with_buf(own(""), m, u, &r)), "", &plain(s, &sm, m, 1)),
        31 => check(&text(b.to_query(m, own(u), &r)), "", &plain(s, &sm, m, 2)),
        32 => check(&text(b.into_query(m, own(u), &r)), "", &plain(s, &sm, m, 2)),
        33 => check(&text(b.get_query(own(u), &r)), "", &plain(s, &sm, "GET", 2)),
        34 => {
            // the URI as something that is merely displayed
            check(&b.authorize(m, own(u), &r), "", &plain(s, &sm, m, 0))
        }
        35 => check(&b.to_form(m, &own(u), &r), "", &plain(s, &sm, m, 1)),
        36 => {
            let o = s.options();
            let a = Authorizer::authorization(m, u, s.client(), s.tok(), &o, sm.clone());
            check(&r.serialize(a), "", &plain(s, &sm, m, 0));
        }
        37 => {
            let o = s.options();
            let a = Authorizer::form(m, u, s.client(), s.tok(), &o, sm.clone());
            check(&r.serialize(a), "", &plain(s, &sm, m, 1));
        }
        38 => {
            let o = s.options();
            let a = Authorizer::query(m, u.clone(), s.client(), s.tok(), &o, sm.clone());
            check(&r.serialize(a), "", &plain(s, &sm, m, 2));
        }
        39 => {
            let o = s.options();
            let a = Authorizer::authorization_with_buf(own("p"), m, u, s.client(), s.tok(), &o, sm.clone());
            check(&text(r.serialize(a)), "p", &plain(s, &sm, m, 0));
        }
        40 => {
            let o = s.options();
            let a = Authorizer::form_with_buf("q&".to_string(), m, u, s.client(), s.tok(), &o, sm.clone());
            check(&r.serialize(a), "q&", &plain(s, &sm, m, 1));
        }
        _ => {
            // a buffer lent to the call
            let mut o = String::from("lent ");
            b.authorize_with_buf(&mut o, m, u, &r);
            check(&o, "lent ", &plain(s, &sm, m, 0));
        }
    }
}
/// Builder and serializer entry points, fixed nonce and timestamp.
/// bounds: 42 ways to call, any single part of the request arbitrary text of the shapes in sx::text
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c12_builder(_t: u32) {
    sx::arm_env(true, true);
    any_entry(&if sx::flag() { Scn::focused() } else { Scn::urls() }, Rec);
}
/// Long parts, many parameters.
/// bounds: 42 ways to call, one part of 64, 600 or 4096 bytes with one arbitrary ASCII character, up to 260 parameters
#[no_mangle]
pub extern "C" fn c12_long(t: u32) {
    sx::arm_env(true, true);
    let s = if sx::flag() {
        Scn::long_by(0, || sx::long_of([64, 600, 4096][sx::choose(3) as usize], 1 + 3 * t))
    } else {
        Scn::many(t)
    };
    any_entry(&s, Rec);
}
/// The same with every combination of optional parts, under each built-in method.
/// bounds: 42 ways to call, 16 combinations of optional parts, 7 parameter lists
#[no_mangle]
pub extern "C" fn c12_combos(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::combos();
    if sx::flag() {
        any_entry(&s, oauth::HMAC_SHA1);
    } else {
        any_entry(&s, oauth::PLAINTEXT);
    }
}
/// Free functions, which generate nonce and timestamp themselves.
/// bounds: 10 functions, four forms of token, any single part arbitrary text
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c12_free(_t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(CLOCK, 0);
    let mut s = Scn::full();
    s.callback = None;
    s.verifier = None;
    s.version = false;
    match sx::choose(7) {
        0 => s.ck = sx::text(),
        1 => s.cs = sx::text(),
        2 => s.token = Some((sx::text(), "ts".into())),
        3 => s.token = Some(("tk".into(), sx::text())),
        4 => {
            s.uri = sx::text();
            no_question(&s.uri);
        }
        5 => s.method = sx::text(),
        _ => s.params[1].val = sx::text(),
    }
    let (tk, ts) = s.token.clone().unwrap();
    match sx::choose(4) {
        0 => free(s.clone(), Token::from_parts(&*s.ck, &*s.cs, &*tk, &*ts), oauth::HMAC_SHA1),
        1 => free(s.clone(), Token::from_parts(s.ck.clone(), s.cs.clone(), &*tk, &*ts), Rec),
        2 => free(s.clone(), Token::from_parts(&*s.ck, &*s.cs, tk, ts), oauth::PLAINTEXT),
        _ => free(s.clone(), Token::from_parts(s.ck.clone(), s.cs.clone(), tk, ts), Rec),
    }
}
fn free<C: AsRef<str>, T: AsRef<str>, SM: SignatureMethod + Clone>(mut s: Scn, t: Token<C, T>, sm: SM) {
    let u = s.uri.clone();
    let it = s.params.clone();
    let r = Items(&it);
    let k = sx::choose(11);
    let m = sm.clone();
    let got = match k {
        0 => oauth::get(&u, &r, &t, m),
        1 => oauth::put(&u, &r, &t, m),
        2 => oauth::post(&u, &r, &t, m),
        3 => oauth::delete(&u, &r, &t, m),
        4 => oauth::options(&u, &r, &t, m),
        5 => oauth::head(&u, &r, &t, m),
        6 => oauth::connect(&u, &r, &t, m),
        7 => oauth::patch(&u, &r, &t, m),
        8 => oauth::trace(&u, &r, &t, m),
        9 => oauth::authorize(&s.method, &u, &r, &t, m),
        _ => oauth::authorize(&s.method, own(&u), &r, &t, m),
    };
    if k < 9 {
        s.method = SHORT[k as usize].into();
    }
    let v = parse_header(got.as_bytes());
    let n = one(&v, "oauth_nonce");
    sx::assert(n.is_some(), 4);
    s.nonce = Some(sx::raw(decode(n.unwrap())));
    s.ts = Some(CLOCK);
    check(&got, "", &plain(&s, &sm, &s.method, 0));
}
/// A builder made from a token, setting the token later, options in any order.
/// bounds: the four strings with arbitrary text in turn, 3 output modes
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c12_with_token(_t: u32) {
    sx::arm_env(true, true);
    let mut f = ["ck".to_string(), "cs".into(), "tk".into(), "ts".into()];
    f[sx::choose(4) as usize] = sx::text();
    let [a, b, c, d] = &f;
    let mut s = Scn::minimal();
    s.ck = a.clone();
    s.cs = b.clone();
    s.token = Some((c.clone(), d.clone()));
    let go = |mut x: Builder<'_, _, String, &str>, m: u32| {
        x.nonce("nn").timestamp(std::num::NonZeroU64::new(1234567890).unwrap());
        match m {
            0 => x.authorize("GET", &s.uri, &()),
            1 => x.to_form("GET", &s.uri, &()),
            _ => x.to_query("GET", s.uri.clone(), &()),
        }
    };
    let m = sx::choose(3);
    let client = Credentials::new(a.clone(), b.clone());
    let tok = Credentials::new(&**c, &**d);
    let x = match sx::choose(4) {
        0 => Builder::with_token(Token::from_parts(a.clone(), b.clone(), &**c, &**d), Rec),
        1 => Builder::with_token(Token::new(client, tok), Rec),
        2 => {
            let mut x = Builder::new(client, Rec);
            x.token(tok);
            x
        }
        _ => {
            let mut x = Builder::with_token(Token::new(client, Credentials::new("p", "q")), Rec);
            x.token(Some(tok));
            x
        }
    };
    check(&go(x, m), "", &plain(&s, &Rec, "GET", m));
}
