//! Derived requests.
use crate::ser::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::Request;
use std::fmt::{self, Display, Formatter};

fn check<R: Request>(r: &R, items: &[It]) {
    // what a serializer sees
    let t = trace(&r.serialize(Ser::new()));
    sx::observe(&t);
    sx::eq(&t, expected(items), 1);
    // and what is sent
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.params = items.to_vec();
    if sx::flag() {
        let got = s.builder(Rec).to_form("POST", "http://h/", r);
        s.method = "POST".into();
        s.uri = "http://h/".into();
        sx::observe(&got);
        sx::eq(&got, s.req("X-REC").form(), 2);
    } else {
        sx::eq(oauth::to_form(r), crate::oracle::urlencoded(&items.iter().map(It::p).collect::<Vec<_>>()), 3);
    }
    sx::reach(1);
}
fn v() -> String {
    if sx::flag() {
        sx::ascii(1)
    } else {
        sx::small("x", "")
    }
}
/// One arbitrary ASCII character.
fn v1() -> String {
    sx::ascii(1)
}

#[derive(Request)]
struct Plain<'a> {
    z: &'a str,
    a: u8,
    oauth: char,
    oauth_: &'a str,
    b2: bool,
    b10: String,
    #[allow(non_snake_case)]
    B: &'a str,
    _u: &'a str,
}
/// Field order, several types.
/// bounds: each text field one arbitrary ASCII character in turn, every u8, both booleans
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_plain(_t: u32) {
    let mut f: Vec<String> = ["zv", "o", "b", "B", "u"].iter().map(|x| x.to_string()).collect();
    let k = sx::choose(6) as usize;
    let mut a = 7;
    if k < 5 {
        f[k] = v();
    } else {
        a = sx::u8();
    }
    let b2 = sx::flag();
    let r = Plain { z: &f[0], a, oauth: 'é', oauth_: &f[1], b2, b10: f[2].clone(), B: &f[3], _u: &f[4] };
    check(
        &r,
        &[
            it("B", &f[3]),
            it("_u", &f[4]),
            it("a", &a.to_string()),
            it("b10", &f[2]),
            it("b2", if b2 { "true" } else { "false" }),
            it("oauth", "é"),
            it("oauth_", &f[1]),
            it("z", &f[0]),
        ],
    );
}

#[derive(Request)]
struct Renamed<'a> {
    #[oauth1(rename = "zz-last")]
    a: &'a str,
    #[oauth1(rename = "0first")]
    y: &'a str,
    #[oauth1(rename = "oauth_noncf")]
    m: &'a str,
    #[oauth1(rename = "oauth_cq")]
    n: &'a str,
    #[oauth1(rename = "~")]
    o: &'a str,
    #[oauth1(rename = "type")]
    kind: &'a str,
    #[oauth1(rename = "a")]
    zz: &'a str,
    #[oauth1(rename = "A.b")]
    dot: &'a str,
}
/// Renamed fields sort by their new names.
/// bounds: one arbitrary ASCII character in each field in turn
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_renamed(_t: u32) {
    let mut f: Vec<String> = (0..8).map(|i| format!("v{}", i)).collect();
    let k = sx::choose(8) as usize;
    f[k] = v();
    let r = Renamed { a: &f[0], y: &f[1], m: &f[2], n: &f[3], o: &f[4], kind: &f[5], zz: &f[6], dot: &f[7] };
    check(
        &r,
        &[
            it("0first", &f[1]),
            it("A.b", &f[7]),
            it("a", &f[6]),
            it("oauth_cq", &f[3]),
            it("oauth_noncf", &f[2]),
            it("type", &f[5]),
            it("zz-last", &f[0]),
            it("~", &f[4]),
        ],
    );
}

type Opt<T> = Option<T>;
/// A type that is called `Option` and is not one.
mod fake {
    use std::fmt;
    pub struct Option<T>(pub T);
    impl<T: fmt::Display> fmt::Display for Option<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "[{}]", self.0)
        }
    }
}
#[derive(Request)]
struct Options<'a> {
    a: Option<&'a str>,
    #[oauth1(option = true)]
    b: std::option::Option<u8>,
    #[oauth1(option = true)]
    c: Opt<&'a str>,
    #[oauth1(option = false)]
    d: fake::Option<&'a str>,
    #[oauth1(option = true)]
    e: ::core::option::Option<String>,
    #[oauth1(rename = "oauth_y")]
    f: Option<&'a str>,
    g: &'a str,
    #[oauth1(encoded)]
    h: Option<&'a str>,
}
/// Optional fields.
/// bounds: every combination of present and absent fields; one of them with an arbitrary ASCII character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_options(_t: u32) {
    let s = v1();
    let w = sx::choose(4);
    let x = |k: u32, d: &'static str| if k == w { s.clone() } else { d.to_string() };
    let (a, c, d, e, f, h) = (x(0, "av"), "cv".to_string(), x(1, "dv"), x(2, "ev"), "fv".to_string(), x(3, "hv"));
    let m = sx::choose(64);
    let on = |k: u32| m >> k & 1 == 1;
    let n = if on(1) { Some(sx::u8()) } else { None };
    let r = Options {
        a: if on(0) { Some(&a) } else { None },
        b: n,
        c: if on(2) { Some(&c) } else { None },
        d: fake::Option(&d),
        e: if on(3) { Some(e.clone()) } else { None },
        f: if on(4) { Some(&f) } else { None },
        g: "",
        h: if on(5) { Some(&h) } else { None },
    };
    let mut v = vec![];
    if on(0) {
        v.push(it("a", &a));
    }
    if let Some(n) = n {
        v.push(it("b", &n.to_string()));
    }
    if on(2) {
        v.push(it("c", &c));
    }
    v.push(it("d", &format!("[{}]", d)));
    if on(3) {
        v.push(it("e", &e));
    }
    v.push(it("g", ""));
    if on(5) {
        v.push(ite("h", &h));
    }
    if on(4) {
        v.push(it("oauth_y", &f));
    }
    check(&r, &v);
}

struct NoDisplay;
fn hex(v: &u8, f: &mut Formatter<'_>) -> fmt::Result {
    fmt::LowerHex::fmt(v, f)
}
fn twice<T: Display + ?Sized>(v: &T, f: &mut Formatter<'_>) -> fmt::Result {
    v.fmt(f)?;
    f.write_str("/")?;
    v.fmt(f)
}
fn big(v: &u8) -> bool {
    *v > 99
}
fn starts_x(v: &&str) -> bool {
    v.as_bytes().first() == Some(&b'x')
}
fn nodisp(_: &NoDisplay, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str("no display")
}
#[derive(Request)]
struct Attrs<'a> {
    #[oauth1(skip)]
    #[allow(dead_code)]
    skipped: NoDisplay,
    #[oauth1(skip_if = big)]
    a: u8,
    #[oauth1(skip_if = str::is_empty)]
    b: &'a str,
    #[oauth1(encoded)]
    c: &'a str,
    #[oauth1(fmt = hex)]
    d: u8,
    #[oauth1(fmt = twice, skip_if = starts_x, rename = "oauth_m")]
    e: &'a str,
    #[oauth1(encoded, fmt = twice)]
    f: &'a str,
    #[oauth1(fmt = nodisp)]
    g: NoDisplay,
}
/// Skipping, skip predicates, formatting functions, encoded values.
/// bounds: every u8 for the numeric fields, texts empty or with one arbitrary ASCII character in turn
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_attrs(_t: u32) {
    let mut f: Vec<String> = ["b v", "c%20", "e v", "f%2Fv"].iter().map(|x| x.to_string()).collect();
    let (mut a, mut d) = (1, 255);
    let k = sx::choose(7) as usize;
    match k {
        0..=3 => f[k] = v(),
        4 => a = sx::u8(),
        5 => d = sx::u8(),
        _ => f[0].clear(),
    }
    let r = Attrs { skipped: NoDisplay, a, b: &f[0], c: &f[1], d, e: &f[2], f: &f[3], g: NoDisplay };
    let mut v = vec![];
    if a <= 99 {
        v.push(it("a", &a.to_string()));
    }
    if !f[0].is_empty() {
        v.push(it("b", &f[0]));
    }
    v.push(ite("c", &f[1]));
    v.push(it("d", &format!("{:x}", d)));
    v.push(ite("f", &format!("{}/{}", f[3], f[3])));
    v.push(it("g", "no display"));
    if f[2].as_bytes().first() != Some(&b'x') {
        v.push(it("oauth_m", &format!("{}/{}", f[2], f[2])));
    }
    check(&r, &v);
}

#[derive(Request)]
struct Combined<'a> {
    // predicates and formats see the unwrapped value
    #[oauth1(skip_if = big, fmt = hex)]
    z: Option<u8>,
    #[oauth1(rename = "oauth_verifiez")]
    #[oauth1(option = true, skip_if = starts_x)]
    #[oauth1(encoded)]
    b: Opt<&'a str>,
    #[oauth1(skip_if = Option::is_none, fmt = fmt::Debug::fmt, option = false)]
    c: Option<u8>,
    #[oauth1(skip)]
    #[allow(dead_code)]
    d: Option<NoDisplay>,
    #[oauth1(skip_if = Vec::is_empty, fmt = list)]
    e: Vec<&'a str>,
}
fn list(v: &Vec<&str>, f: &mut Formatter<'_>) -> fmt::Result {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            f.write_str(",")?;
        }
        f.write_str(x)?;
    }
    Ok(())
}
/// Attributes together.
/// bounds: every u8, every combination of presence, texts with one arbitrary ASCII character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_combined(_t: u32) {
    let s = v();
    let z = if sx::flag() { Some(sx::u8()) } else { None };
    let b = if sx::flag() { Some(&*s) } else { None };
    let c = if sx::flag() { Some(9) } else { None };
    let e = match sx::choose(3) {
        0 => vec![],
        1 => vec![&*s],
        _ => vec!["q", &*s],
    };
    let r = Combined { z, b, c, d: None, e: e.clone() };
    let mut v = vec![];
    if c.is_some() {
        v.push(it("c", "Some(9)"));
    }
    if !e.is_empty() {
        v.push(it("e", &e.join(",")));
    }
    if let Some(b) = b {
        if !b.starts_with('x') {
            v.push(ite("oauth_verifiez", b));
        }
    }
    if let Some(z) = z {
        if z <= 99 {
            v.push(it("z", &format!("{:x}", z)));
        }
    }
    check(&r, &v);
}

#[derive(Request)]
struct Raw<'a> {
    r#type: &'a str,
    r#ref: Option<&'a str>,
    #[oauth1(rename = "self")]
    r#in: &'a str,
    r#abstract: u8,
}
#[derive(Request)]
struct Hygiene<'a> {
    serializer: &'a str,
    helper: &'a str,
    #[oauth1(skip_if = starts_x)]
    value: Option<&'a str>,
    #[oauth1(fmt = twice)]
    tmp: &'a str,
    fmt: &'a str,
    this: &'a str,
    _s: &'a str,
}
macro_rules! made {
    ($n:ident { $($f:ident: $t:ty),* }) => {
        #[derive(Request)]
        struct $n<'a> { $($f: $t,)* last: &'a str }
    };
}
made!(Made { x: Option<u8>, y: &'a str });
/// Raw identifiers, field names used inside the generated code, structs made by macros.
/// bounds: one arbitrary ASCII character in one field
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_names(_t: u32) {
    let s = v();
    match sx::choose(3) {
        0 => {
            let rf = if sx::flag() { Some(&*s) } else { None };
            let r = Raw { r#type: &s, r#ref: rf, r#in: "i", r#abstract: 1 };
            let mut v = vec![it("abstract", "1")];
            if let Some(x) = rf {
                v.push(it("ref", x));
            }
            v.push(it("self", "i"));
            v.push(it("type", &s));
            check(&r, &v);
        }
        1 => {
            let val = if sx::flag() { Some(&*s) } else { None };
            let r = Hygiene { serializer: "1", helper: "2", value: val, tmp: &s, fmt: "5", this: "6", _s: "7" };
            let mut v = vec![it("_s", "7"), it("fmt", "5"), it("helper", "2"), it("serializer", "1"), it("this", "6"), it("tmp", &format!("{}/{}", s, s))];
            if let Some(x) = val {
                if !x.starts_with('x') {
                    v.push(it("value", x));
                }
            }
            check(&r, &v);
        }
        _ => {
            let x = if sx::flag() { Some(3) } else { None };
            let r = Made { x, y: &s, last: "l" };
            let mut v = vec![it("last", "l")];
            if x.is_some() {
                v.push(it("x", "3"));
            }
            v.push(it("y", &s));
            check(&r, &v);
        }
    }
}

#[derive(Request)]
struct Generic<'a, T, U: Clone, const N: usize>
where
    T: 'a,
{
    b: &'a T,
    #[oauth1(rename = "oauth_token_secret")]
    a: Option<U>,
}
#[derive(Request)]
struct Empty {}
#[derive(Request)]
#[oauth1(crate = oauth1_request)]
struct WithCrate {
    zzz: u8,
}
#[derive(Request)]
struct AllSkipped {
    #[oauth1(skip)]
    #[allow(dead_code)]
    a: u8,
}
#[derive(Request)]
struct Around<'a> {
    #[oauth1(rename = "oauth_callbacj")]
    a: &'a str,
    #[oauth1(rename = "oauth_callback0")]
    b: &'a str,
    #[oauth1(rename = "oauth_consumer_key_")]
    c: Option<&'a str>,
    #[oauth1(rename = "oauth_nonc")]
    d: &'a str,
    #[oauth1(rename = "oauth_signature_methoe")]
    e: &'a str,
    #[oauth1(rename = "oauth_timestamp.")]
    f: Option<&'a str>,
    #[oauth1(rename = "oauth_tokem")]
    g: &'a str,
    #[oauth1(rename = "oauth_verifier-")]
    h: &'a str,
    #[oauth1(rename = "oauth_versioo")]
    i: &'a str,
}
/// Generic, empty and fully skipped structs; names between all the oauth_* names.
/// bounds: values with one arbitrary ASCII character; every combination of the optional fields
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_shapes(_t: u32) {
    match sx::choose(5) {
        0 => {
            let (s, n) = (v(), sx::u8());
            let a = if sx::flag() { Some(n) } else { None };
            let r = Generic::<String, u8, 3> { b: &s, a };
            let mut v = vec![it("b", &s)];
            if a.is_some() {
                v.push(it("oauth_token_secret", &n.to_string()));
            }
            check(&r, &v);
        }
        1 => check(&Empty {}, &[]),
        2 => {
            let n = sx::u8();
            check(&WithCrate { zzz: n }, &[it("zzz", &n.to_string())]);
        }
        3 => check(&AllSkipped { a: 1 }, &[]),
        _ => {
            let s = v();
            let c = if sx::flag() { Some(&*s) } else { None };
            let f = if sx::flag() { Some("f v") } else { None };
            let r = Around { a: "1", b: "2", c, d: &s, e: "5", f, g: "7", h: "8", i: "9" };
            let mut v = vec![it("oauth_callbacj", "1"), it("oauth_callback0", "2")];
            if let Some(c) = c {
                v.push(it("oauth_consumer_key_", c));
            }
            v.push(it("oauth_nonc", &s));
            v.push(it("oauth_signature_methoe", "5"));
            if let Some(f) = f {
                v.push(it("oauth_timestamp.", f));
            }
            v.extend([it("oauth_tokem", "7"), it("oauth_verifier-", "8"), it("oauth_versioo", "9")]);
            check(&r, &v);
        }
    }
}

#[derive(Request)]
struct Matrix<'a> {
    #[oauth1(option = false)]
    m00: &'a str,
    #[oauth1(rename = "A98")]
    m01: &'a str,
    #[oauth1(skip_if = starts_x)]
    m02: &'a str,
    #[oauth1(skip_if = starts_x, option = false, rename = "oauth_n96")]
    m03: &'a str,
    #[oauth1(fmt = twice_str)]
    m04: &'a str,
    #[oauth1(fmt = twice_str)]
    #[oauth1(rename = "oauth_v94")]
    m05: &'a str,
    #[oauth1(option = false, fmt = twice_str, skip_if = starts_x)]
    m06: &'a str,
    #[oauth1(skip_if = starts_x, fmt = twice_str, rename = "z92")]
    m07: &'a str,
    #[oauth1(encoded)]
    m08: &'a str,
    #[oauth1(option = false)]
    #[oauth1(encoded)]
    #[oauth1(rename = "A90")]
    m09: &'a str,
    #[oauth1(encoded, skip_if = starts_x)]
    m10: &'a str,
    #[oauth1(skip_if = starts_x, encoded, rename = "oauth_n88")]
    m11: &'a str,
    #[oauth1(encoded, option = false, fmt = twice_str)]
    m12: &'a str,
    #[oauth1(fmt = twice_str)]
    #[oauth1(encoded)]
    #[oauth1(rename = "oauth_v86")]
    m13: &'a str,
    #[oauth1(encoded, fmt = twice_str, skip_if = starts_x)]
    m14: &'a str,
    #[oauth1(skip_if = starts_x, fmt = twice_str, option = false, encoded, rename = "z84")]
    m15: &'a str,
    m16: Option<&'a str>,
    #[oauth1(rename = "A82")]
    m17: Option<&'a str>,
    #[oauth1(skip_if = starts_x)]
    m18: Option<&'a str>,
    #[oauth1(skip_if = starts_x, rename = "oauth_n80")]
    m19: Option<&'a str>,
    #[oauth1(fmt = twice_str)]
    m20: Option<&'a str>,
    #[oauth1(fmt = twice_str)]
    #[oauth1(rename = "oauth_v78")]
    m21: Option<&'a str>,
    #[oauth1(fmt = twice_str, skip_if = starts_x)]
    m22: Option<&'a str>,
    #[oauth1(skip_if = starts_x, fmt = twice_str, rename = "z76")]
    m23: Option<&'a str>,
    #[oauth1(encoded)]
    m24: Option<&'a str>,
    #[oauth1(encoded)]
    #[oauth1(rename = "A74")]
    m25: Option<&'a str>,
    #[oauth1(encoded, skip_if = starts_x)]
    m26: Option<&'a str>,
    #[oauth1(skip_if = starts_x, encoded, rename = "oauth_n72")]
    m27: Option<&'a str>,
    #[oauth1(encoded, fmt = twice_str)]
    m28: Option<&'a str>,
    #[oauth1(fmt = twice_str)]
    #[oauth1(encoded)]
    #[oauth1(rename = "oauth_v70")]
    m29: Option<&'a str>,
    #[oauth1(encoded, fmt = twice_str, skip_if = starts_x)]
    m30: Option<&'a str>,
    #[oauth1(skip_if = starts_x, fmt = twice_str, encoded, rename = "z68")]
    m31: Option<&'a str>,
    #[oauth1(option = true)]
    m32: Opt<&'a str>,
    #[oauth1(option = true)]
    #[oauth1(rename = "A66")]
    m33: Opt<&'a str>,
    #[oauth1(option = true, skip_if = starts_x)]
    m34: Opt<&'a str>,
    #[oauth1(skip_if = starts_x, option = true, rename = "oauth_n64")]
    m35: Opt<&'a str>,
    #[oauth1(option = true, fmt = twice_str)]
    m36: Opt<&'a str>,
    #[oauth1(fmt = twice_str)]
    #[oauth1(option = true)]
    #[oauth1(rename = "oauth_v62")]
    m37: Opt<&'a str>,
    #[oauth1(option = true, fmt = twice_str, skip_if = starts_x)]
    m38: Opt<&'a str>,
    #[oauth1(skip_if = starts_x, fmt = twice_str, option = true, rename = "z60")]
    m39: Opt<&'a str>,
    #[oauth1(encoded, option = true)]
    m40: Opt<&'a str>,
    #[oauth1(option = true)]
    #[oauth1(encoded)]
    #[oauth1(rename = "A58")]
    m41: Opt<&'a str>,
    #[oauth1(encoded, option = true, skip_if = starts_x)]
    m42: Opt<&'a str>,
    #[oauth1(skip_if = starts_x, option = true, encoded, rename = "oauth_n56")]
    m43: Opt<&'a str>,
    #[oauth1(encoded, option = true, fmt = twice_str)]
    m44: Opt<&'a str>,
    #[oauth1(fmt = twice_str)]
    #[oauth1(option = true)]
    #[oauth1(encoded)]
    #[oauth1(rename = "oauth_v54")]
    m45: Opt<&'a str>,
    #[oauth1(encoded, option = true, fmt = twice_str, skip_if = starts_x)]
    m46: Opt<&'a str>,
    #[oauth1(skip_if = starts_x, fmt = twice_str, option = true, encoded, rename = "z52")]
    m47: Opt<&'a str>,
}
fn twice_str(v: &&str, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str(v)?;
    f.write_str("%")?;
    f.write_str(v)
}
/// Every combination of the attributes and of ways to be optional.
/// bounds: 48 fields: optional or not (in two ways), encoded, custom format, skip predicate, renamed; one field at a time with one arbitrary ASCII character or absent
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c10_matrix(_t: u32) {
    // (name, optional, encoded, format, skip predicate)
    const M: [(&str, bool, bool, bool, bool); 48] = [
        ("m00", false, false, false, false),
        ("A98", false, false, false, false),
        ("m02", false, false, false, true),
        ("oauth_n96", false, false, false, true),
        ("m04", false, false, true, false),
        ("oauth_v94", false, false, true, false),
        ("m06", false, false, true, true),
        ("z92", false, false, true, true),
        ("m08", false, true, false, false),
        ("A90", false, true, false, false),
        ("m10", false, true, false, true),
        ("oauth_n88", false, true, false, true),
        ("m12", false, true, true, false),
        ("oauth_v86", false, true, true, false),
        ("m14", false, true, true, true),
        ("z84", false, true, true, true),
        ("m16", true, false, false, false),
        ("A82", true, false, false, false),
        ("m18", true, false, false, true),
        ("oauth_n80", true, false, false, true),
        ("m20", true, false, true, false),
        ("oauth_v78", true, false, true, false),
        ("m22", true, false, true, true),
        ("z76", true, false, true, true),
        ("m24", true, true, false, false),
        ("A74", true, true, false, false),
        ("m26", true, true, false, true),
        ("oauth_n72", true, true, false, true),
        ("m28", true, true, true, false),
        ("oauth_v70", true, true, true, false),
        ("m30", true, true, true, true),
        ("z68", true, true, true, true),
        ("m32", true, false, false, false),
        ("A66", true, false, false, false),
        ("m34", true, false, false, true),
        ("oauth_n64", true, false, false, true),
        ("m36", true, false, true, false),
        ("oauth_v62", true, false, true, false),
        ("m38", true, false, true, true),
        ("z60", true, false, true, true),
        ("m40", true, true, false, false),
        ("A58", true, true, false, false),
        ("m42", true, true, false, true),
        ("oauth_n56", true, true, false, true),
        ("m44", true, true, true, false),
        ("oauth_v54", true, true, true, false),
        ("m46", true, true, true, true),
        ("z52", true, true, true, true),
    ];
    let at = sx::choose(48) as usize;
    let gone = M[at].1 && sx::flag();
    let s = sx::ascii(1);
    let rest = if sx::flag() { "v /" } else { "x" };
    let t = |k: usize| if k == at { &*s } else { rest };
    let o = |k: usize| if k == at && gone { None } else { Some(t(k)) };
    let r = Matrix {
        m00: t(0),
        m01: t(1),
        m02: t(2),
        m03: t(3),
        m04: t(4),
        m05: t(5),
        m06: t(6),
        m07: t(7),
        m08: t(8),
        m09: t(9),
        m10: t(10),
        m11: t(11),
        m12: t(12),
        m13: t(13),
        m14: t(14),
        m15: t(15),
        m16: o(16),
        m17: o(17),
        m18: o(18),
        m19: o(19),
        m20: o(20),
        m21: o(21),
        m22: o(22),
        m23: o(23),
        m24: o(24),
        m25: o(25),
        m26: o(26),
        m27: o(27),
        m28: o(28),
        m29: o(29),
        m30: o(30),
        m31: o(31),
        m32: o(32),
        m33: o(33),
        m34: o(34),
        m35: o(35),
        m36: o(36),
        m37: o(37),
        m38: o(38),
        m39: o(39),
        m40: o(40),
        m41: o(41),
        m42: o(42),
        m43: o(43),
        m44: o(44),
        m45: o(45),
        m46: o(46),
        m47: o(47),
    };
    let mut w = vec![];
    for (k, m) in M.iter().enumerate() {
        let v = t(k);
        if k == at && gone || m.4 && v.starts_with('x') {
            continue;
        }
        let v = if m.3 { format!("{}%{}", v, v) } else { v.to_string() };
        w.push(It { name: m.0.into(), val: v, enc: m.2 });
    }
    w.sort_by(|a, b| a.name.cmp(&b.name));
    // the serializer's view; the rest follows from C09
    let t = trace(&r.serialize(Ser::new()));
    sx::observe(&t);
    sx::eq(&t, expected(&w), 1);
    sx::reach(1);
}
