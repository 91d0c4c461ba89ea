//! The same request in every configuration.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::{Plaintext, SignatureMethod};
use oauth::Request;
use std::fmt::{self, Display, Write};

/// A buffer of the caller's own.
#[derive(Clone, Default)]
struct Fixed(Vec<u8>);
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl Display for Fixed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // safe: only whole strings were written
        f.write_str(unsafe { std::str::from_utf8_unchecked(&self.0) })
    }
}
fn fixed(s: &str) -> Fixed {
    let mut f = Fixed::default();
    f.write_str(s).unwrap();
    f
}
fn check<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, name: &str) {
    let b = s.builder(sm.clone());
    let r = s.req(name);
    let (m, u, i) = (&*s.method, &*s.uri, s.items());
    let k = sx::choose(8);
    let got: Vec<u8> = match k {
        0 => b.authorize_with_buf(String::new(), m, u, &i).into_bytes(),
        1 => b.into_form_with_buf(String::new(), m, u, &i).into_bytes(),
        2 => b.to_query(m, s.uri.clone(), &i).into_bytes(),
        3 => {
            let f = b.into_authorization_with_buf(Fixed::default(), m, u, &i);
            f.0
        }
        4 => {
            let o = s.options();
            let f = i.serialize(Authorizer::form_with_buf(Fixed::default(), m, u, s.client(), s.tok(), &o, sm));
            f.0
        }
        5 => {
            let f = b.into_query(m, fixed(u), &i);
            f.0
        }
        6 => {
            let o = s.options();
            i.serialize(Authorizer::query(m, s.uri.clone(), s.client(), s.tok(), &o, sm)).into_bytes()
        }
        _ => b.get_query(s.uri.clone(), &i).into_bytes(),
    };
    sx::observe(&got);
    let want = match k {
        0 | 3 => r.header(),
        1 | 4 => r.form(),
        2 | 5 | 6 => r.query(),
        _ => Req { method: "GET", ..r }.query(),
    };
    sx::eq(got, want, 1);
    sx::reach(1);
}
fn with(s: &Scn) {
    match sx::choose(4) {
        0 => check(s, oauth::HmacSha1::new(), "HMAC-SHA1"),
        1 => check(s, Plaintext::<String>::with_buf(), "PLAINTEXT"),
        2 => check(s, Plaintext::<Fixed>::default(), "PLAINTEXT"),
        _ => check(s, Rec, "X-REC"),
    }
}
/// One part of the request arbitrary.
/// bounds: any single part arbitrary text of the shapes in sx::text; HMAC-SHA1, PLAINTEXT, one that signs with the base string; header, form, query through buffers of two kinds
/// variants: dbg rel alloc alloc-rel none none-rel
#[no_mangle]
pub extern "C" fn c25_focused(_t: u32) {
    sx::arm_env(true, true);
    with(&if sx::flag() { Scn::focused() } else { Scn::urls() });
}
/// Every combination of optional parts, names around the oauth_* ones.
/// bounds: all combinations with 7 parameter lists; arbitrary names of up to 2 characters and around each oauth_* name
/// variants: dbg rel alloc alloc-rel none none-rel
#[no_mangle]
pub extern "C" fn c25_combos(_t: u32) {
    sx::arm_env(true, true);
    with(&if sx::flag() { Scn::combos() } else { Scn::names() });
}
/// Two parts at a time.
/// bounds: pairs of parts with one arbitrary ASCII character each
/// variants: dbg rel alloc alloc-rel none none-rel
#[no_mangle]
pub extern "C" fn c25_more(_t: u32) {
    sx::arm_env(true, true);
    with(&Scn::pairs());
}
/// Long parts.
/// bounds: one part of 7 to 1024 fixed bytes (thorough: 65536) with one arbitrary ASCII character, or up to 260 (thorough: 1030) parameters
/// variants: alloc-rel none
#[no_mangle]
pub extern "C" fn c25_long(t: u32) {
    sx::arm_env(true, true);
    with(&Scn::big(2 * t));
}
/// Given nonce and timestamp: the environment is not asked for others.
/// bounds: arbitrary nonce text and any of the timestamps of scn::any_ts, all values of the random source and the clock
/// variants: alloc alloc-rel none none-rel
#[no_mangle]
pub extern "C" fn c25_given(_t: u32) {
    sx::arm_env(false, false);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.nonce = Some(sx::short_text());
    s.ts = Some(any_ts());
    with(&s);
    sx::assert(sx::ndrawn() == 0 && sx::nclock() == 0, 2);
}
