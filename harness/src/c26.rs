//! Failing writes.
#![allow(dead_code)]
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::serializer::{Serializer, Urlencoder};
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use oauth::Request;
use std::cell::RefCell;
use std::fmt::{self, Display, Write};

/// When a write fails: the k-th does, or those for which there is no space; later ones succeed.
#[derive(Clone, Debug, Default)]
struct Fault {
    space: bool,
    k: u64,
    n: u64,
}
impl Fault {
    fn any() -> Fault {
        Fault { space: sx::flag(), k: sx::u64(), n: 0 }
    }
    fn never() -> Fault {
        Fault { space: false, k: !0, n: 0 }
    }
    fn write(&mut self, len: usize) -> fmt::Result {
        if self.space {
            if len as u64 > self.k - self.n {
                sx::expect_panic(true);
                return Err(fmt::Error);
            }
            self.n += len as u64;
        } else {
            self.n += 1;
            if self.n - 1 == self.k {
                sx::expect_panic(true);
                return Err(fmt::Error);
            }
        }
        Ok(())
    }
}
/// A buffer that may report errors.
#[derive(Clone)]
struct Sink(Vec<u8>, Fault);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1.write(s.len())?;
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl Display for Sink {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // safe: only whole strings were written
        f.write_str(unsafe { std::str::from_utf8_unchecked(&self.0) })
    }
}
fn sink(s: &str, f: Fault) -> Sink {
    Sink(s.as_bytes().to_vec(), f)
}
/// Text in pieces, which may report an error in between.
struct Bad<'a>(&'a [&'a str], RefCell<Fault>, bool);
impl<'a> Display for Bad<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in self.0 {
            self.1.borrow_mut().write(p.len())?;
            if self.2 {
                f.write_str(p)?;
            } else {
                p.chars().try_for_each(|c| f.write_char(c))?;
            }
        }
        Ok(())
    }
}
fn bad(v: &'static [&'static str]) -> Bad<'static> {
    Bad(v, RefCell::new(Fault::any()), sx::flag())
}
/// Everything that writes into a buffer of the caller's.
fn check<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, name: &str, f: Fault) {
    let b = s.builder(sm.clone());
    let r = s.req(name);
    let (m, u, i) = (&*s.method, &*s.uri, s.items());
    let k = sx::choose(6);
    let o = s.options();
    let got = match k {
        0 => b.authorize_with_buf(sink("", f), m, u, &i),
        1 => b.into_authorization_with_buf(sink("", f), m, u, &i),
        2 => b.into_form_with_buf(sink("", f), m, u, &i),
        3 => i.serialize(Authorizer::form_with_buf(sink("", f), m, u, s.client(), s.tok(), &o, sm)),
        4 => b.to_query(m, sink(u, f), &i),
        _ => b.into_query(m, sink(u, f), &i),
    };
    let want = match k {
        0 | 1 => r.header(),
        2 | 3 => r.form(),
        _ => r.query(),
    };
    sx::observe(&got.0);
    sx::eq(got.0, want, 1);
    sx::reach(1);
}
fn with(s: &Scn, f: Fault) {
    sx::arm_env(true, true);
    match sx::choose(3) {
        0 => check(s, oauth::HmacSha1::new(), "HMAC-SHA1", f),
        1 => check(s, Plaintext::<String>::with_buf(), "PLAINTEXT", f),
        _ => check(s, Rec, "X-REC", f),
    }
}
/// The caller's buffer reports an error at any of its writes, or when it is full: no output is returned.
/// bounds: the failing write any, the capacity any (64 bits each); full and minimal requests, fixed texts; 6 calls, 3 signature methods
/// variants: dbg rel none none-rel
/// labels: 1
#[no_mangle]
pub extern "C" fn c26_output(_t: u32) {
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    if sx::flag() {
        s.params = vec![ite("a", "%20"), it("b", ""), it("oauth_d", "a \u{e9}\u{20ac}%"), it("z", "~")];
    }
    with(&s, Fault::any());
}
/// The same with every combination of optional parts.
/// bounds: as c26_output; 2^4 combinations of optional parts with 7 parameter lists
/// tier: thorough
#[no_mangle]
pub extern "C" fn c26_combos(_t: u32) {
    with(&Scn::combos(), Fault::any());
}
/// One part arbitrary text while the buffer fails.
/// bounds: the failing write or capacity any; parts of the request in turn any text of the shapes in sx::text
#[no_mangle]
pub extern "C" fn c26_text(_t: u32) {
    let s = Scn::focused();
    with(&s, Fault { space: false, k: sx::u64(), n: 0 });
}
/// Unsigned output into a buffer that reports errors.
/// bounds: the failing write or capacity any (64 bits); up to 3 parameters with an arbitrary ASCII character, encoded by the crate or the caller
/// variants: dbg none
/// labels: 1
#[no_mangle]
pub extern "C" fn c26_unsigned(_t: u32) {
    let l = [it("a", &sx::ascii(1)), ite("b", "%41%20"), it("c", "x y")];
    let l = &l[..sx::choose(4) as usize];
    let all: Vec<P> = l.iter().map(It::p).collect();
    let f = Fault::any();
    if sx::flag() {
        let got = Items(l).serialize(Urlencoder::form_with_buf(sink("", f)));
        sx::eq(got.0, urlencoded(&all), 2);
    } else {
        let got = Items(l).serialize(Urlencoder::query(sink("u", f)));
        let mut want = b"u".to_vec();
        if !l.is_empty() {
            want.push(b'?');
            want.extend(urlencoded(&all));
        }
        sx::eq(got.0, want, 3);
    }
    sx::reach(1);
}
/// A request one of whose values reports an error.
struct One<'a>(&'a str, &'a Bad<'a>, bool);
impl<'a> Request for One<'a> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        s.serialize_parameter("a", 1);
        if self.2 {
            s.serialize_parameter_encoded(self.0, self.1);
        } else {
            s.serialize_parameter(self.0, self.1);
        }
        (0..8).for_each(|k| oauth_call(k, &mut s));
        s.serialize_parameter("z", "2");
        s.end()
    }
}
const TEXT: [&[&str]; 4] = [&["a"], &["a", "b c", "", "d"], &["", "\u{e9}~", "%"], &[""]];
/// A value whose Display reports an error, at any of its writes, in any of the passes over it: no output is returned.
/// bounds: the failing write any (64 bits), or from the point on where a number of bytes is exceeded; values in up to 4 pieces; signed header, form and query with HMAC-SHA1, form and query with PLAINTEXT, unsigned form and query, the recorder
/// variants: dbg rel
/// labels: 1 2 3 4 5
#[cfg(feature = "full")]
#[no_mangle]
pub extern "C" fn c26_value(_t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let v = bad(TEXT[sx::choose(4) as usize]);
    let r = One("b", &v, sx::flag());
    let t = v.0.concat();
    let (m, u) = ("GET", "http://e/");
    s.uri = u.into();
    s.params = vec![it("a", "1"), if r.2 { ite("b", &t) } else { it("b", &t) }, it("z", "2")];
    match sx::choose(5) {
        0 => {
            let b = s.builder(oauth::HMAC_SHA1);
            let want = s.req("HMAC-SHA1");
            match sx::choose(3) {
                0 => sx::eq(b.authorize(m, u, &r), want.header(), 4),
                1 => sx::eq(b.to_form(m, u, &r), want.form(), 5),
                _ => sx::eq(b.to_query(m, u.to_string(), &r), want.query(), 6),
            }
            sx::reach(1);
        }
        1 => {
            let b = s.builder(oauth::PLAINTEXT);
            let want = s.req("PLAINTEXT");
            if sx::flag() {
                sx::eq(b.to_form(m, u, &r), want.form(), 7)
            } else {
                sx::eq(b.to_query(m, u.to_string(), &r), want.query(), 8)
            }
            sx::reach(2);
        }
        2 => {
            let all: Vec<P> = s.params.iter().map(It::p).collect();
            let want = urlencoded(&all);
            if sx::flag() {
                sx::eq(oauth::to_form(&r), want, 9)
            } else {
                let got = oauth::to_query(u.to_string(), &r);
                sx::eq(&got.as_bytes()[u.len() + 1..], want, 10)
            }
            sx::reach(3);
        }
        3 => {
            let mut c = oauth::serializer::Recorder::new();
            if r.2 {
                c.serialize_parameter_encoded("b", &v);
            } else {
                c.serialize_parameter("b", &v);
            }
            use oauth::serializer::recorder::Record;
            let want = if r.2 { Record::ParameterEncoded("b", t) } else { Record::Parameter("b", t) };
            let got = c.end();
            // compared elsewhere
            sx::assert(got.len() == 1 && got[0] == want, 11);
            sx::reach(4);
        }
        _ => {
            // the URI
            s.uri = t.clone();
            let b = s.builder(oauth::HMAC_SHA1);
            let want = s.req("HMAC-SHA1");
            if sx::flag() {
                sx::eq(b.authorize(m, &v, &s.items()), want.header(), 12)
            } else {
                sx::eq(b.to_form(m, &v, &s.items()), want.form(), 13)
            }
            sx::reach(5);
        }
    }
}

thread_local!(static KEY: RefCell<Fault> = RefCell::new(Fault::never()));
/// A key buffer that reports errors.
struct KeyBuf(Sink);
impl Default for KeyBuf {
    fn default() -> KeyBuf {
        KeyBuf(sink("", KEY.with(|f| f.borrow().clone())))
    }
}
impl Write for KeyBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write_str(s)
    }
}
impl Display for KeyBuf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
/// A signature whose Display reports errors.
#[derive(Clone)]
struct Ends(Fault);
struct EndsSign(Fault);
impl SignatureMethod for Ends {
    type Sign = EndsSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> EndsSign {
        EndsSign(self.0)
    }
}
impl Sign for EndsSign {
    type Signature = Bad<'static>;
    fn get_signature_method_name(&self) -> &'static str {
        "X-END"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> Bad<'static> {
        Bad(&["ab", "", "c"], RefCell::new(self.0), true)
    }
}
fn three<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, name: &str, sig: &[u8]) {
    let (b, r) = (s.builder(sm), s.req(name));
    let (m, u, i) = (&*s.method, &*s.uri, s.items());
    match sx::choose(3) {
        0 => sx::eq(b.authorize_with_buf(String::new(), m, u, &i), r.header_with(sig), 14),
        1 => sx::eq(b.into_form_with_buf(String::new(), m, u, &i), r.form_with(sig), 15),
        _ => {
            let got = b.to_query(m, s.uri.clone(), &i);
            sx::eq(&got.as_bytes()[s.uri.len() + 1..], r.form_with(sig), 16)
        }
    }
}
/// A key buffer, or a signature's Display, that reports an error.
/// bounds: the failing write or capacity any (64 bits); secrets of up to 3 characters, one of them arbitrary ASCII
/// variants: dbg rel none
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c26_signature(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    if sx::flag() {
        s.cs = sx::small("c", "%");
        let f = Fault::any();
        KEY.with(|k| *k.borrow_mut() = f);
        three(&s, Plaintext::<KeyBuf>::with_buf(), "PLAINTEXT", &s.req("PLAINTEXT").key());
        sx::reach(1);
    } else {
        three(&s, Ends(Fault::any()), "X-END", b"abc");
        sx::reach(2);
    }
}

thread_local!(static SINK: RefCell<Sink> = RefCell::new(sink("", Fault::never())));
/// A signature algorithm that copies what it is given into a buffer that may be full.
#[derive(Clone)]
struct Copies;
#[derive(Clone)]
struct CopiesSign;
fn copy(v: impl Display) {
    SINK.with(|s| {
        let mut s = s.borrow_mut();
        // whether the buffer reported an error is what write! has to say
        struct Tell<'a>(&'a mut Sink, bool);
        impl<'a> Write for Tell<'a> {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                let f = &self.0 .1;
                let full = if f.space { s.len() as u64 > f.k - f.n } else { f.n == f.k };
                if full {
                    self.1 = true;
                    self.0 .1 = Fault::never();
                    return Err(fmt::Error);
                }
                self.0.write_str(s)
            }
        }
        let mut t = Tell(&mut s, false);
        let r = write!(t, "{}", v);
        let failed = t.1;
        sx::assert(r.is_err() == failed, 20);
        if failed {
            sx::reach(2);
        }
    })
}
impl SignatureMethod for Copies {
    type Sign = CopiesSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> CopiesSign {
        CopiesSign
    }
}
impl Sign for CopiesSign {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "X-COPY"
    }
    fn request_method(&mut self, m: &str) {
        copy(m);
    }
    fn uri<T: Display>(&mut self, u: T) {
        copy(u);
    }
    fn parameter<V: Display>(&mut self, _: &str, v: V) {
        copy(v);
    }
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str {
        "x"
    }
}
/// What is handed to a signature algorithm of the user's passes on the errors of the buffer it is written to.
/// bounds: the failing write or capacity any (64 bits); values, credentials and URI with characters of every kind in every position of 4 texts, encoded by the crate or the caller; one part any text of the shapes in sx::text
/// variants: dbg rel
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c26_passes(_t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(5) {
        0 => Scn::focused(),
        n => {
            let t = ["a b", "%", "\u{e9}x/y\u{20ac}", "--  --"][n as usize - 1];
            let mut s = Scn::full();
            s.params = vec![it("a", t), ite("b", t)];
            s.callback = Some(t.into());
            s.uri = t.into();
            s
        }
    };
    SINK.with(|k| *k.borrow_mut() = sink("", Fault::any()));
    let b = s.builder(Copies);
    let got = b.authorize_with_buf(String::new(), &s.method, &s.uri, &s.items());
    sx::eq(got, s.req("X-COPY").header_with(b"x"), 21);
    sx::reach(1);
}
