//! Requests without a signature.
use crate::oracle::*;
use crate::scn::*;
use crate::sx::{self, Pieces};
use oauth1_request as oauth;
use oauth::serializer::{Serializer, Urlencoder};
#[cfg(feature = "alloc")]
use oauth::ParameterList;
use oauth::Request;
use std::fmt::{self, Write};

#[derive(Clone, Default)]
struct Own(Vec<u8>);
impl Write for Own {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.extend(s.as_bytes());
        Ok(())
    }
}
fn own(s: &str) -> Own {
    Own(s.as_bytes().to_vec())
}
/// A request that makes exactly the calls it was given, in that order.
struct Calls<'a>(&'a [Call]);
#[derive(Clone)]
enum Call {
    It(It),
    Oauth(usize),
}
impl Request for Calls<'_> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        for c in self.0 {
            match c {
                Call::Oauth(k) => oauth_call(*k, &mut s),
                Call::It(i) if i.enc => s.serialize_parameter_encoded(&i.name, &*i.val),
                Call::It(i) => s.serialize_parameter(&i.name, &*i.val),
            }
        }
        s.end()
    }
}
/// Every way to serialize without a signature.
fn check<R: Request>(r: &R, items: &[P]) {
    let body = urlencoded(items);
    let n = if cfg!(feature = "alloc") { 10 } else { 6 };
    let uri = if sx::flag() { String::from("http://example.com/r#x") } else { sx::short_text() };
    let mut pre: &[u8] = b"";
    let mut query = false;
    let got: Vec<u8> = match sx::choose(n) {
        0 => r.serialize(Urlencoder::form_with_buf(Own::default())).0,
        1 => {
            pre = uri.as_bytes();
            r.serialize(Urlencoder::form_with_buf(own(&uri))).0
        }
        2 => {
            query = true;
            r.serialize(Urlencoder::query(own(&uri))).0
        }
        3 => {
            query = true;
            r.serialize(Urlencoder::query(uri.clone())).into_bytes()
        }
        4 => {
            // a buffer lent to the call
            query = true;
            let mut o = own(&uri);
            r.serialize(Urlencoder::query(&mut o));
            o.0
        }
        5 => {
            // the copied serializer goes on alone
            let u = Urlencoder::query(own(&uri));
            let v = u.clone();
            let a = r.serialize(u).0;
            sx::eq(r.serialize(v).0, &a, 3);
            query = true;
            a
        }
        #[cfg(feature = "alloc")]
        6 => r.serialize(Urlencoder::form()).into_bytes(),
        #[cfg(feature = "alloc")]
        7 => oauth::to_form(r).into_bytes(),
        #[cfg(feature = "alloc")]
        8 => oauth::to_form(&r).into_bytes(),
        #[cfg(feature = "alloc")]
        _ => {
            query = true;
            oauth::to_query(uri.clone(), r).into_bytes()
        }
        #[cfg(not(feature = "alloc"))]
        _ => unreachable!(),
    };
    sx::observe(&got);
    let mut want = pre.to_vec();
    if query {
        want = uri.as_bytes().to_vec();
        if !items.is_empty() {
            want.push(b'?');
        }
    }
    want.extend(&body);
    sx::eq(got, want, if query { 2 } else { 1 });
    sx::reach(1);
}
fn value() -> It {
    let name = match sx::choose(4) {
        0 => sx::unreserved(1),
        1 => "oauth_m".into(),
        2 => String::new(),
        _ => sx::unreserved(5),
    };
    if sx::flag() {
        It { name, val: encoded_text(), enc: true }
    } else {
        It { name, val: sx::text(), enc: false }
    }
}
/// One parameter.
/// bounds: names empty or of one or five arbitrary unreserved characters; plain values of the shapes in sx::text, pre-encoded values of the shapes in scn::encoded_text; URIs of the shapes in sx::text; every form and query entry point
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c23_one(_t: u32) {
    let i = value();
    check(&Items(&[i.clone()]), &[i.p()]);
}
/// Sequences of plain, pre-encoded and oauth_* calls, in any order.
/// bounds: up to 3 (thorough: 4) calls: plain or pre-encoded parameter with one arbitrary character, empty values, any of the 8 oauth_* calls or all of them
/// variants: dbg rel alloc none none-rel
#[no_mangle]
pub extern "C" fn c23_calls(t: u32) {
    let mut calls = vec![];
    let mut items = vec![];
    for _ in 0..sx::choose(4 + t) {
        match sx::choose(6) {
            0 => calls.push(Call::It(it(["a", ""][sx::choose(2) as usize], ""))),
            1 => calls.push(Call::It(ite("b", ""))),
            2 => calls.push(Call::It(It { name: "c".into(), val: sx::ascii(1), enc: false })),
            3 => calls.push(Call::It(It { name: sx::unreserved(1), val: "%26".into(), enc: true })),
            4 => calls.push(Call::Oauth(sx::choose(8) as usize)),
            _ => calls.extend((0..8).map(Call::Oauth)),
        }
    }
    for c in &calls {
        if let Call::It(i) = c {
            items.push(i.p());
        }
    }
    check(&Calls(&calls), &items);
}
/// The crate's own requests: none, empty and filled lists, by value and by reference.
/// bounds: up to 2 (thorough: 3) list entries with values of up to 1 arbitrary ASCII character
/// variants: dbg rel alloc
#[no_mangle]
#[cfg(feature = "alloc")]
pub extern "C" fn c23_requests(t: u32) {
    let n = sx::choose(3 + t);
    if n == 0 {
        match sx::choose(5) {
            0 => check(&(), &[]),
            1 => check(&&(), &[]),
            2 => check(&Some(()), &[]),
            3 => check(&None::<()>, &[]),
            _ => check(&ParameterList::<String, String>::default(), &[]),
        }
    } else {
        let l: Vec<(String, String)> = (0..n)
            .map(|i| {
                let v = sx::choose(2) as usize;
                (["oauth_c", "oauth_z", "p"][i as usize].to_string(), sx::ascii(v))
            })
            .collect();
        let items: Vec<P> = l.iter().map(|(a, b)| p(a, b)).collect();
        let sorted = l.clone();
        let l = ParameterList::new(l);
        match sx::choose(4) {
            0 => check(&l, &items),
            1 => check(&Some(&l), &items),
            2 => check(&oauth::request::AssertSorted::new(sorted.iter().map(|(a, b)| (a, b))), &items),
            _ => check(&&mut { l }, &items),
        }
    }
}
/// Values written in pieces, and long ones.
/// bounds: values of up to 3 pieces of up to 2 arbitrary characters; one value of 7 to 4096 bytes (thorough: 65536)
#[no_mangle]
pub extern "C" fn c23_pieces(t: u32) {
    struct R(Pieces, bool);
    impl Request for R {
        fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
            if self.1 {
                s.serialize_parameter_encoded("k", &self.0);
            } else {
                s.serialize_parameter("k", &self.0);
            }
            s.serialize_parameter("l", 'é');
            s.end()
        }
    }
    let v = match sx::choose(4) {
        0 => vec![sx::any_chars(1), sx::ascii(1)],
        1 => vec![],
        2 => vec![sx::ascii(1), String::new(), sx::ascii(1)],
        _ => vec![sx::long_text(t)],
    };
    let enc = sx::flag();
    let w = v.concat();
    let i = if enc { pe("k", &w) } else { p("k", &w) };
    check(&R(Pieces(v), enc), &[i, p("l", "é")]);
}
/// Long names and values, many parameters.
/// bounds: one part of 7 to 4096 bytes (thorough: 65536), or up to 260 (thorough: 1030) parameters; one arbitrary ASCII character
/// variants: rel none
#[no_mangle]
pub extern "C" fn c23_big(t: u32) {
    let s = if sx::flag() {
        Scn::many(1 + t)
    } else {
        let mut s = Scn::full();
        s.params = vec![if sx::flag() { it(&long_name(1 + t), "/") } else { it("n", &sx::long_text(1 + t)) }, ite("z", "%20")];
        s
    };
    let v: Vec<P> = s.params.iter().map(It::p).collect();
    check(&Calls(&s.params.iter().cloned().map(Call::It).collect::<Vec<_>>()), &v);
}
/// Serializers copied half way: both go on to what was fed to each.
/// bounds: up to 3 calls before the copy is made and up to 2 after, one arbitrary ASCII character; finished one after the other or by turns; form and query
/// variants: dbg rel none
#[no_mangle]
pub extern "C" fn c23_copied(_t: u32) {
    let query = sx::flag();
    let mut a = if query { Urlencoder::query(own("u")) } else { Urlencoder::form_with_buf(own("u")) };
    let mut x = vec![];
    let put = |s: &mut Urlencoder<Own>, v: &mut Vec<P>, i: It| {
        if i.enc {
            s.serialize_parameter_encoded(&i.name, &*i.val);
        } else {
            s.serialize_parameter(&i.name, &*i.val);
        }
        v.push(i.p());
    };
    for i in 0..sx::choose(4) {
        put(&mut a, &mut x, [it("a", "1"), ite("", "%20"), it("oauth_c", "")][i as usize].clone());
    }
    let (mut b, mut y) = (a.clone(), x.clone());
    let turns = sx::flag();
    let v = it("k", &sx::ascii(1));
    for i in 0..sx::choose(3) {
        if turns {
            put(&mut a, &mut x, ite("m", "n"));
        }
        put(&mut b, &mut y, if i == 0 { v.clone() } else { it("é", "") });
    }
    if !turns && sx::flag() {
        put(&mut a, &mut x, ite("m", "n"));
    }
    let want = |v: &[P]| {
        let mut w = b"u".to_vec();
        if query && !v.is_empty() {
            w.push(b'?');
        }
        w.extend(urlencoded(v));
        w
    };
    let got = b.end().0;
    sx::observe(&got);
    sx::eq(got, want(&y), 6);
    sx::eq(a.end().0, want(&x), 7);
    sx::reach(1);
}
/// The unsigned pairs are the signed form without its oauth_* pairs.
/// bounds: requests of up to 2 parameters, any two parts one arbitrary ASCII character each, every combination of optional parts
#[no_mangle]
#[cfg(feature = "alloc")]
pub extern "C" fn c23_signed(_t: u32) {
    let s = if sx::flag() { Scn::pairs() } else { Scn::combos() };
    let f = s.builder(Rec).to_form(&s.method, &s.uri, &s.items());
    let mut v = parse_form(f.as_bytes());
    const ALL: [&[u8]; 9] = [
        b"oauth_callback",
        b"oauth_consumer_key",
        b"oauth_nonce",
        b"oauth_signature",
        b"oauth_signature_method",
        b"oauth_timestamp",
        b"oauth_token",
        b"oauth_verifier",
        b"oauth_version",
    ];
    v.retain(|x| !ALL.contains(&&*x.name));
    let got = oauth::to_form(&s.items());
    sx::observe(&got);
    sx::eq(got, urlencoded(&v), 1);
    sx::reach(1);
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests of up to 3 parameters that differ in one value or in their number
#[no_mangle]
pub extern "C" fn c23_sequence(_t: u32) {
    let a = vec![it("a", "1"), it("z", "2")];
    let b = match sx::choose(4) {
        0 => vec![it("a", &sx::ascii(1)), it("z", "2")],
        1 => vec![],
        2 => vec![it("a", "1")],
        _ => vec![it("a", "1"), ite("b", "%20"), it("z", &sx::ascii(1))],
    };
    let alternate = sx::flag();
    let mut q = sx::flag();
    let l = if sx::flag() { vec![&a, &b, &a] } else { vec![&b, &a] };
    for v in l {
        let want = urlencoded(&v.iter().map(It::p).collect::<Vec<_>>());
        if q {
            let mut w = b"u".to_vec();
            if !v.is_empty() {
                w.push(b'?');
            }
            w.extend(&want);
            sx::eq(Items(v).serialize(Urlencoder::query(own("u"))).0, w, 4);
            q = false;
        } else {
            let got = Items(v).serialize(Urlencoder::form_with_buf(String::new()));
            sx::observe(&got);
            sx::eq(got, want, 5);
            q = alternate;
        }
    }
    sx::reach(1);
}
