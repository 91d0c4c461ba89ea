//! Percent encoding.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use crate::sx::Pieces;
use oauth1_request as oauth;
use oauth::request::AssertSorted;
use oauth::serializer::{Serializer, Urlencoder};
use std::fmt;

fn joined(p: &Pieces) -> String {
    p.0.concat()
}
fn piece() -> String {
    match sx::choose(4) {
        0 => String::new(),
        1 => sx::ascii(1),
        2 => sx::any_chars(1),
        _ => sx::small("a&", "%z"),
    }
}
fn pieces(max: u32) -> Pieces {
    let n = sx::choose(max + 1);
    Pieces((0..n).map(|_| piece()).collect())
}
/// Sends one value in every place a value can take, and checks single and double encoding.
fn everywhere<D: fmt::Display + Clone>(v: &D, text: &str) {
    let e = enc(text);
    match sx::choose(4) {
        0 => {
            // unsigned form
            let got = oauth::to_form(&AssertSorted::new([("k", v)].iter().copied()));
            sx::observe(&got);
            sx::eq(&got, [b"k=", &*e].concat(), 1);
            sx::eq(decode(&got.as_bytes()[2..]), text, 2);
        }
        1 => {
            // signed form: once on the wire, twice in the base string
            let s = Scn::minimal();
            let got = s.builder(Rec).to_form("GET", "http://h/", &AssertSorted::new([("k", v)].iter().copied()));
            sx::observe(&got);
            let p = parse_form(got.as_bytes());
            sx::eq(one(&p, "k").unwrap_or(b"none"), &e, 3);
            let base = decode(one(&p, "oauth_signature").unwrap_or(b"none"));
            let b = [&b"GET&http%3A%2F%2Fh%2F&k%3D"[..], &enc(&e), b"%26oauth_consumer"].concat();
            sx::assert(base.len() > b.len(), 4);
            sx::eq(&base[..b.len()], &b, 5);
        }
        2 => {
            // the URI is encoded once
            let s = Scn::minimal();
            for b in text.bytes() {
                sx::assume(b != b'?');
            }
            let got = s.builder(Rec).authorize("GET", v, &());
            sx::observe(&got);
            let p = parse_header(got.as_bytes());
            let base = decode(one(&p, "oauth_signature").unwrap_or(b"none"));
            let b = [b"GET&", &*e, b"&oauth_consumer"].concat();
            sx::assert(base.len() > b.len(), 6);
            sx::eq(&base[..b.len()], &b, 7);
        }
        _ => {
            // declared as already encoded: verbatim on the wire, once in the base string
            let mut u = Urlencoder::form();
            u.serialize_parameter_encoded("k", v);
            let got = u.end();
            sx::observe(&got);
            sx::eq(&got, [b"k=", text.as_bytes()].concat(), 8);
            let s = Scn::minimal();
            let o = s.options();
            let mut a = oauth::serializer::Authorizer::form("GET", "u", s.client(), None, &o, Rec);
            a.serialize_parameter_encoded("k", v);
            let got = a.end();
            let b = [b"k=", text.as_bytes(), b"&oauth_signature=", &*enc(["GET&u&k%3D".as_bytes(), &e].concat())].concat();
            sx::eq(&got, b, 9);
        }
    }
    sx::reach(1);
}
/// A value in pieces.
/// bounds: 0 to 2 (thorough: 3) pieces, each empty, one ASCII character, one arbitrary character, or an ASCII character between reserved ones
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c07_pieces(t: u32) {
    sx::arm_env(true, true);
    let p = pieces(2 + t);
    let s = joined(&p);
    everywhere(&Sh(&p), &s);
}
#[derive(Clone)]
struct Sh<'a>(&'a Pieces);
impl fmt::Display for Sh<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
/// Runs of arbitrary characters.
/// bounds: strings of 1 to 3 (thorough: 4) arbitrary ASCII characters, 1 or 2 arbitrary Unicode characters
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c07_runs(t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(5 + t) {
        0 => sx::ascii(1),
        1 => sx::ascii(2),
        2 => sx::ascii(3),
        3 => sx::any_chars(1),
        4 => sx::any_chars(2),
        _ => sx::ascii(4),
    };
    everywhere(&&*s, &s);
}
/// One arbitrary byte at every place in longer text.
/// bounds: texts of 1 to 40 (thorough: 1 to 70) characters of three kinds, one arbitrary ASCII character anywhere
#[no_mangle]
pub extern "C" fn c07_positions(t: u32) {
    sx::arm_env(true, true);
    let n = 1 + sx::choose(if t > 0 { 70 } else { 40 }) as usize;
    let at = match sx::choose(4) {
        0 => 0,
        1 => n / 2,
        2 => n - 1,
        _ => n * 3 / 4,
    };
    let mut v = vec![];
    let kind = sx::choose(3);
    for i in 0..n {
        if i == at {
            v.extend(sx::ascii(1).into_bytes());
        } else {
            match kind {
                0 => v.push(b'a' + (i % 26) as u8),
                1 => v.extend_from_slice(["\u{e9}", "x", "\u{20ac}"][i % 3].as_bytes()),
                _ => v.push(b"% &=+/"[i % 6]),
            }
        }
    }
    let s = sx::raw(v);
    everywhere(&&*s, &s);
}
/// Long runs of plain, reserved or multi-byte characters before and after an arbitrary one.
/// bounds: texts of 7 to 4096 (thorough: 65536) fixed bytes, 14 (thorough: 20) lengths around powers of two, one arbitrary ASCII character at the end, before the last or at the start
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c07_long(t: u32) {
    sx::arm_env(true, true);
    let s = sx::long_text(1 + t);
    everywhere(&&*s, &s);
}
struct Odd<'a>(&'a str, u32);
impl fmt::Display for Odd<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write;
        match self.1 {
            0 => {
                for c in self.0.chars() {
                    f.write_char(c)?;
                }
                Ok(())
            }
            1 => write!(f, "<{}|{}>", self.0, self.0.len()),
            2 => write!(f, "{:?}", 7u8),
            3 => f.pad(self.0),
            4 => write!(f, "{:>6}", self.0),
            5 => {
                f.write_str(self.0)?;
                sx::plain(f)
            }
            _ => {
                f.write_str("")?;
                f.write_str(self.0)?;
                f.write_str("")
            }
        }
    }
}
/// Ways of writing: characters, format strings, padding, empty writes; by what the formatter says.
/// bounds: 7 ways of writing a text of one ASCII, one arbitrary or two ASCII characters
#[no_mangle]
pub extern "C" fn c07_ways(_t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(3) {
        0 => sx::ascii(1),
        1 => sx::any_chars(1),
        _ => sx::ascii(2),
    };
    let w = sx::choose(7);
    let n = s.chars().count();
    let want = match w {
        1 => format!("<{}|{}>", s, s.len()),
        2 => "7".into(),
        4 => format!("{}{}", " ".repeat(6 - n), s),
        _ => s.clone(),
    };
    everywhere(&&Odd(&s, w), &want);
}
/// Numbers, booleans and characters as values.
/// bounds: every u8 and i8, both booleans, every ASCII and every two-byte character, floats of 3 values
#[no_mangle]
pub extern "C" fn c07_types(_t: u32) {
    sx::arm_env(true, true);
    match sx::choose(5) {
        0 => {
            let v = sx::u8();
            everywhere(&v, &v.to_string());
        }
        1 => {
            let v = sx::u8() as i8;
            everywhere(&v, &v.to_string());
        }
        2 => {
            let v = sx::flag();
            everywhere(&v, if v { "true" } else { "false" });
        }
        3 => {
            let s = sx::ascii(1);
            let c = s.as_bytes()[0] as char;
            everywhere(&c, &s);
        }
        _ => {
            let v = [-1i64, i64::MIN, i64::MAX][sx::choose(3) as usize];
            everywhere(&v, ["-1", "-9223372036854775808", "9223372036854775807"][if v == -1 { 0 } else if v < 0 { 1 } else { 2 }]);
        }
    }
}
/// OAuth parameter values and request method.
/// bounds: each of consumer key, token, callback, verifier, nonce, method: two arbitrary characters
#[no_mangle]
pub extern "C" fn c07_oauth(_t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let v = if sx::flag() { sx::any_chars(2) } else { sx::ascii(3) };
    let k = sx::choose(6);
    match k {
        0 => s.ck = v.clone(),
        1 => s.token = Some((v.clone(), "ts".into())),
        2 => s.callback = Some(v.clone()),
        3 => s.verifier = Some(v.clone()),
        4 => s.nonce = Some(v.clone()),
        _ => s.method = v.clone(),
    }
    let got = s.builder(Rec).authorize(&s.method, &s.uri, &s.items());
    sx::observe(&got);
    let p = parse_header(got.as_bytes());
    let e = enc(&v);
    let base = decode(one(&p, "oauth_signature").unwrap_or(b"none"));
    if k == 5 {
        sx::assert(base.len() > e.len(), 1);
        sx::eq(&base[..e.len()], &e, 2);
    } else {
        let name = ["oauth_consumer_key", "oauth_token", "oauth_callback", "oauth_verifier", "oauth_nonce"][k as usize];
        sx::eq(one(&p, name).unwrap_or(b"none"), &e, 3);
        sx::eq(decode(&e), &v, 4);
        sx::eq(&got, s.req("X-REC").header(), 5);
    }
    sx::reach(1);
}
