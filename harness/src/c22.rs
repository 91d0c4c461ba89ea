//! The recording serializer.
use crate::scn::*;
use crate::sx::{self, Pieces};
use oauth1_request as oauth;
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt};
use oauth::{ParameterList, Request};
use std::borrow::Cow;
use std::fmt::Display;

/// A history as text: kind, name, value.
fn put(o: &mut Vec<u8>, kind: u8, k: &[u8], v: &[u8]) {
    o.push(kind);
    o.extend((k.len() as u32).to_be_bytes());
    o.extend(k);
    o.extend((v.len() as u32).to_be_bytes());
    o.extend(v);
}
fn text<K: AsRef<str>, V: Display>(h: &[Record<K, V>]) -> Vec<u8> {
    let mut o = vec![];
    for r in h {
        match r {
            Record::Parameter(k, v) => put(&mut o, b'p', k.as_ref().as_bytes(), show(v).as_bytes()),
            Record::ParameterEncoded(k, v) => put(&mut o, b'e', k.as_ref().as_bytes(), show(v).as_bytes()),
            Record::Callback => put(&mut o, b'0', b"", b""),
            Record::ConsumerKey => put(&mut o, b'1', b"", b""),
            Record::Nonce => put(&mut o, b'2', b"", b""),
            Record::SignatureMethod => put(&mut o, b'3', b"", b""),
            Record::Timestamp => put(&mut o, b'4', b"", b""),
            Record::Token => put(&mut o, b'5', b"", b""),
            Record::Verifier => put(&mut o, b'6', b"", b""),
            Record::Version => put(&mut o, b'7', b"", b""),
        }
    }
    o
}
/// A value in several pieces, some of them empty.
fn pieces(s: &str) -> Pieces {
    match sx::choose(5) {
        0 => Pieces(vec![s.into()]),
        1 => Pieces(vec!["".into(), s.into(), "".into()]),
        2 => Pieces(vec![s.into(), "tail".into()]),
        3 => {
            let m = (0..=s.len() / 2).rev().find(|&i| s.is_char_boundary(i)).unwrap();
            Pieces(vec![s[..m].into(), s[m..].into()])
        }
        _ => Pieces(vec![]),
    }
}
/// Performs one operation, notes it.
fn op(r: &mut Recorder, o: &mut Vec<u8>, any: bool) {
    let k = sx::choose(if any { 13 } else { 11 });
    match k {
        0..=7 => {
            oauth_call(k as usize, r);
            put(o, b'0' + k as u8, b"", b"");
        }
        8 => {
            r.serialize_parameter("plain", "a b");
            put(o, b'p', b"plain", b"a b");
        }
        9 => {
            r.serialize_parameter_encoded("enc", "a%20b");
            put(o, b'e', b"enc", b"a%20b");
        }
        10 => {
            r.serialize_oauth_parameters();
            for i in 0..8 {
                put(o, b'0' + i, b"", b"");
            }
        }
        _ => {
            // arbitrary name and value
            let name = sx::text();
            let v = pieces(if sx::flag() { "x" } else { &name });
            let w = v.0.concat();
            if k == 11 {
                r.serialize_parameter(&name, v);
                put(o, b'p', name.as_bytes(), w.as_bytes());
            } else {
                r.serialize_parameter_encoded(&name, &v);
                put(o, b'e', name.as_bytes(), w.as_bytes());
            }
        }
    }
}
/// Histories of operations.
/// bounds: up to 2 (thorough: 3) operations of every kind (and one more on a copy), the first one with an arbitrary name and a value in up to 3 pieces; copies taken half way; looked at before the end
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c22_history(t: u32) {
    let mut r = if sx::flag() { Recorder::new() } else { Recorder::default() };
    let mut o = vec![];
    for i in 0..sx::choose(3 + t) {
        op(&mut r, &mut o, i == 0);
        sx::eq(text(r.history()), &o, 1);
    }
    if sx::flag() {
        let (mut c, mut p) = (r.clone(), o.clone());
        sx::assert(c == r, 2);
        op(&mut c, &mut p, false);
        sx::assert(c != r, 3);
        sx::eq(text(&c.end()), p, 4);
    }
    let got = text(&r.end());
    sx::observe(&got);
    sx::eq(got, o, 5);
    sx::reach(1);
}
/// Values of every usual type.
/// bounds: one operation; text of the shapes in sx::text, any character, any number of up to 8 bits and fixed larger ones
#[no_mangle]
pub extern "C" fn c22_values(_t: u32) {
    let enc = sx::flag();
    let name = if sx::flag() { sx::small("n", "") } else { String::new() };
    let mut r = Recorder::new();
    macro_rules! v {
        ($v:expr) => {
            if enc {
                r.serialize_parameter_encoded(&name, $v)
            } else {
                r.serialize_parameter(&name, $v)
            }
        };
    }
    let want = match sx::choose(7) {
        0 => {
            let s = sx::text();
            v!(&*s);
            s
        }
        1 => {
            let s = sx::text();
            v!(s.clone());
            s
        }
        2 => {
            let s = sx::text();
            v!(Cow::Borrowed(&*s));
            s
        }
        3 => {
            let s = sx::any_chars(1);
            v!(s.chars().next().unwrap());
            s
        }
        4 => {
            let b = sx::u8();
            v!(b as i8 as i64);
            // two's complement, written out
            let n = if b >= 0x80 { 256 - b as u32 } else { b as u32 };
            let mut o = vec![];
            if b >= 0x80 {
                o.push(b'-');
            }
            if n >= 100 {
                o.push(b'0' + (n / 100) as u8);
            }
            if n >= 10 {
                o.push(b'0' + (n / 10 % 10) as u8);
            }
            o.push(b'0' + (n % 10) as u8);
            sx::raw(o)
        }
        5 => {
            v!(u64::MAX);
            "18446744073709551615".into()
        }
        _ => {
            let b = sx::flag();
            v!(b);
            (if b { "true" } else { "false" }).into()
        }
    };
    let mut o = vec![];
    put(&mut o, if enc { b'e' } else { b'p' }, name.as_bytes(), want.as_bytes());
    let h = text(&r.end());
    sx::observe(&h);
    sx::eq(h, o, 1);
    sx::reach(1);
}
/// Requests replayed: the recording is the calls they make.
/// bounds: the empty request, lists of up to 2 parameters with one arbitrary unreserved character in the name
#[no_mangle]
pub extern "C" fn c22_requests(_t: u32) {
    if sx::flag() {
        let h = ().serialize(Recorder::new());
        sx::assert(h == <Record>::OAUTH_PARAMETERS, 1);
        sx::assert(h[..] == Record::<&str, u32>::OAUTH_PARAMETERS, 2);
        let mut o = vec![];
        for i in 0..8 {
            put(&mut o, b'0' + i, b"", b"");
        }
        sx::eq(text(&h), &o, 3);
        sx::eq(text(&Record::<String, char>::OAUTH_PARAMETERS), o, 4);
    } else {
        let mut l = vec![];
        for _ in 0..sx::choose(3) {
            let n = if sx::flag() { sx::unreserved(1) } else { "oauth_d".into() };
            l.push((n, "v w".to_string()));
        }
        let l = ParameterList::new(l);
        let mut o = vec![];
        let mut k = 0;
        for (n, v) in l.iter() {
            while k < 8 && OAUTH[k].as_bytes() < n.as_bytes() {
                put(&mut o, b'0' + k as u8, b"", b"");
                k += 1;
            }
            put(&mut o, b'p', n.as_bytes(), v.as_bytes());
        }
        while k < 8 {
            put(&mut o, b'0' + k as u8, b"", b"");
            k += 1;
        }
        let h = l.serialize(Recorder::new());
        sx::eq(text(&h), o, 5);
    }
    sx::reach(1);
}

fn rec<K, V>(op: u32, k: K, v: V) -> Record<K, V> {
    match op {
        0 => Record::Parameter(k, v),
        1 => Record::ParameterEncoded(k, v),
        2 => Record::Callback,
        3 => Record::ConsumerKey,
        4 => Record::Nonce,
        5 => Record::SignatureMethod,
        6 => Record::Timestamp,
        7 => Record::Token,
        8 => Record::Verifier,
        _ => Record::Version,
    }
}
/// Equal or not, and that is what was wanted, both ways round.
fn equal<K: AsRef<str>, V: Display, L: AsRef<str>, W: Display>(a: &Record<K, V>, b: &Record<L, W>, want: bool) {
    let (x, y) = (a == b, b == a);
    sx::observe([x as u8, y as u8]);
    sx::assert(x == want, 1);
    sx::assert(y == want, 2);
    sx::assert((a != b) != want, 3);
    sx::reach(if want { 1 } else { 2 });
}
/// Every pair of operations.
/// bounds: all 100 pairs; names and values equal, or different in one arbitrary ASCII character
/// labels: 1 2
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c22_kinds(_t: u32) {
    let (i, j) = (sx::choose(10), sx::choose(10));
    let (a, b) = (sx::ascii(1), sx::ascii(1));
    let (same, which) = (a == b, sx::choose(2));
    let want = i == j && (i > 1 || same);
    if which == 0 {
        equal(&rec(i, &*a, "v"), &rec(j, b, "v".to_string()), want);
    } else {
        equal(&rec(i, "k", a), &rec(j, String::from("k"), &*b), want);
    }
}
/// Names.
/// bounds: pairs of names of up to 2 ASCII characters; held as str, String, Cow, Box
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c22_names(_t: u32) {
    let e = sx::choose(2);
    let (n, m) = (sx::choose(3) as usize, sx::choose(3) as usize);
    let (a, b) = (sx::ascii(n), sx::ascii(m));
    let want = a == b;
    match sx::choose(4) {
        0 => equal(&rec(e, &*a, 1), &rec(e, &b, "1"), want),
        1 => equal(&rec(e, a, 1), &rec(e, Cow::Borrowed(&*b), '1'), want),
        2 => equal(&rec(e, a.into_boxed_str(), 1), &rec(e, b, 1u64), want),
        _ => equal(&rec(e, Cow::<str>::Owned(a), true), &rec(e, &*b, "true"), want),
    }
}
/// Values in pieces.
/// bounds: pairs of values of up to 3 pieces, each piece up to 1 (thorough: 2) arbitrary ASCII characters
/// labels: 1 2
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c22_pieces(t: u32) {
    let one = || {
        let n = sx::choose(4);
        Pieces(
            (0..n)
                .map(|_| {
                    let n = sx::choose(2 + t) as usize;
                    sx::ascii(n)
                })
                .collect(),
        )
    };
    let e = sx::choose(2);
    let (a, b) = (one(), one());
    let want = a.0.concat() == b.0.concat();
    equal(&rec(e, "k", a), &rec(e, "k", b), want);
}
/// Names and values with long common parts.
/// bounds: pairs that share 7 to 4096 bytes (6, thorough: 14 lengths) and differ in one arbitrary ASCII character, in length or not at all; values in pieces as well
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c22_alike(t: u32) {
    let e = sx::choose(2);
    let (a, b) = sx::alike(t);
    let want = a == b;
    match sx::choose(3) {
        0 => equal(&rec(e, &*a, 1), &rec(e, &*b, 1), want),
        1 => equal(&rec(e, "k", &a), &rec(e, "k", &*b), want),
        _ => {
            let a = pieces(&a);
            let want = a.0.concat() == b;
            equal(&rec(e, "k", a), &rec(e, "k", b), want)
        }
    }
}
/// Values of several types against text.
/// bounds: text of the shapes in sx::text and one that differs in one character, every character against text, numbers against text, text against values in pieces
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c22_types(_t: u32) {
    let e = sx::choose(2);
    match sx::choose(5) {
        0 => {
            // a value against a recording of itself or of something else
            let a = sx::text();
            let b = if sx::flag() { a.clone() } else { format!("{}x", a) };
            let mut r = Recorder::new();
            if e == 0 {
                r.serialize_parameter("k", &b);
            } else {
                r.serialize_parameter_encoded("k", &b);
            }
            let want = a == b;
            equal(&rec(e, "k", a), &r.end()[0], want);
        }
        1 => {
            let (a, b) = (sx::any_chars(1), sx::any_chars(1));
            let want = a == b;
            equal(&rec(e, "k", a.chars().next().unwrap()), &rec(e, "k", b), want);
        }
        2 => {
            let (n, b) = (sx::u8(), sx::ascii(2));
            let d = b.as_bytes();
            let want = if d[0] == b'0' {
                false
            } else {
                (n >= 10) & (n < 100) & (d[0] == b'0'.wrapping_add(n / 10)) & (d[1] == b'0' + n % 10)
            };
            equal(&rec(e, "k", n), &rec(e, "k", b), want);
        }
        3 => {
            let a = sx::text();
            let b = pieces(&a);
            let want = a == b.0.concat();
            equal(&rec(e, "k", a), &rec(e, "k", b), want);
        }
        _ => {
            // same characters, cut elsewhere between name and value
            let a = sx::small("x", "y");
            let (x, y) = (&a[..1], &a[1..]);
            equal(&rec(e, x, y), &rec(e, &a[..2], &a[2..]), false);
        }
    }
}
