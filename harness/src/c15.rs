//! Debug output and secrets.
use crate::sx;
use oauth1_request as oauth;
use oauth::{Builder, Credentials, Token};
use std::borrow::Cow;
use std::fmt::Debug;
use std::rc::Rc;

fn form<T: Debug>(t: &T, k: u32) -> String {
    match k {
        0 => format!("{:?}", t),
        1 => format!("{:#?}", t),
        2 => format!("{:x?}", t),
        3 => format!("{:60?}", t),
        4 => format!("{:+#.1?}", t),
        _ => format!("{:?}", Some(&t)),
    }
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    if n.len() > h.len() {
        return false;
    }
    let mut any = false;
    for i in 0..=h.len() - n.len() {
        let mut all = true;
        for k in 0..n.len() {
            all &= h[i + k] == n[k];
        }
        any |= all;
    }
    any
}
/// Both values print the same and show the identifiers.
fn same<T: Debug, U: Debug>(a: &T, b: &U, ids: &[&str]) {
    // with a precision, text may be cut short
    let k = sx::choose(6);
    let (x, y) = (form(a, k), form(b, k));
    sx::observe(&x);
    sx::eq(&x, &y, 1);
    if k != 4 {
        for i in ids {
            sx::assert(contains(x.as_bytes(), i.as_bytes()), 2);
        }
    }
    sx::reach(1);
}
fn id() -> String {
    format!("Iq{}7", sx::raw(sx::unreserved(1).into_bytes()))
}
/// A secret of some shape.
fn sec() -> String {
    match sx::choose(4) {
        0 => String::new(),
        1 => sx::any_chars(1),
        2 => {
            let mut s = sx::ascii(1);
            s.push_str("S2\u{e9}");
            s.push_str(&sx::ascii(1));
            s
        }
        _ => "<hidden>".into(),
    }
}
/// Text types a user may hold credentials in.
#[derive(Clone, Debug)]
struct Secret(String);
impl AsRef<str> for Secret {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
/// Credentials.
/// bounds: pairs of secrets empty, one arbitrary character, two arbitrary ASCII characters in fixed text, or fixed; five types of text; six formats
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c15_credentials(_t: u32) {
    let i = id();
    let (a, b) = (sec(), sec());
    let (x, y) = (Credentials::new(i.clone(), a), Credentials::new(i.clone(), b));
    match sx::choose(7) {
        0 => same(&x, &y, &[&i]),
        1 => same(&x.as_ref(), &y.as_ref(), &[&i]),
        2 => same(&x.map(Secret), &y.map(Secret), &[&i]),
        3 => same(&x.map(Rc::<str>::from), &y.map(Rc::<str>::from), &[&i]),
        4 => same(&x.as_ref().map(Cow::Borrowed), &y.as_ref().map(Cow::Borrowed), &[&i]),
        5 => same(&&x, &&y, &[&i]),
        _ => same(&[x.clone()], &[y], &[&i]),
    }
}
/// Tokens.
/// bounds: as c15_credentials for both secrets
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c15_token(_t: u32) {
    let (i, j) = (id(), "Tk.1".to_string());
    let (a, b) = (sec(), sec());
    let (x, y) = if sx::flag() {
        (Token::from_parts(&*i, &*a, &*j, "same"), Token::from_parts(&*i, &*b, &*j, "same"))
    } else {
        (Token::from_parts(&*i, "same", &*j, &*a), Token::from_parts(&*i, "same", &*j, &*b))
    };
    match sx::choose(4) {
        0 => same(&x, &y, &[&i, &j]),
        1 => same(&x.map_client(String::from), &y.map_client(String::from), &[&i, &j]),
        2 => same(&x.map(|s| Secret(s.into())), &y.map(|s| Secret(s.into())), &[&i, &j]),
        _ => same(&x.as_ref(), &y.as_ref(), &[&i, &j]),
    }
}
/// Builders.
/// bounds: as c15_credentials for both secrets, with and without token and options, three signature methods
/// variants: dbg rel
#[no_mangle]
#[cfg(feature = "std")]
pub extern "C" fn c15_builder(_t: u32) {
    let (i, j) = (id(), "Tk.1".to_string());
    let (a, b) = (sec(), sec());
    match sx::choose(3) {
        0 => builder(&i, &j, &a, &b, oauth::HMAC_SHA1),
        1 => builder(&i, &j, &a, &b, oauth::PLAINTEXT),
        _ => builder(&i, &j, &a, &b, either::Either::<oauth::signature_method::HmacSha1, oauth::signature_method::Plaintext>::Left(oauth::HMAC_SHA1)),
    }
}
#[cfg(feature = "std")]
fn builder<SM: oauth::signature_method::SignatureMethod + Clone + Debug>(i: &str, j: &str, a: &str, b: &str, sm: SM) {
    let make = |cs: &str, ts: Option<&str>, o: bool| {
        let mut x = Builder::new(Credentials::new(i.to_string(), cs.to_string()), sm.clone());
        if let Some(ts) = ts {
            x.token(Credentials::new(j.to_string(), ts.to_string()));
        }
        if o {
            x.callback("cb").verifier("v").nonce("n").timestamp(std::num::NonZeroU64::new(1).unwrap()).version(true);
        }
        x
    };
    let o = sx::flag();
    match sx::choose(3) {
        0 => same(&make(a, None, o), &make(b, None, o), &[i]),
        1 => same(&make(a, Some("ts"), o), &make(b, Some("ts"), o), &[i, j]),
        _ => same(&make("cs", Some(a), o), &make("cs", Some(b), o), &[i, j]),
    }
}
/// Identifiers that need escaping, and other configurations.
/// bounds: identifiers of one arbitrary ASCII character; secrets as above
/// variants: alloc none
#[no_mangle]
pub extern "C" fn c15_bare(_t: u32) {
    let i = sx::ascii(1);
    let (a, b) = (sec(), sec());
    let (x, y) = (Credentials::new(&*i, &*a), Credentials::new(&*i, &*b));
    match sx::choose(3) {
        0 => same(&x, &y, &[]),
        1 => same(&Token::new(x, Credentials::new("t", "s")), &Token::new(y, Credentials::new("t", "s")), &["t"]),
        _ => {
            let mut p = Builder::<_, &str, &str>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
            let mut q = p.clone();
            p.token(x);
            q.token(y);
            same(&p, &q, &["c"])
        }
    }
}
