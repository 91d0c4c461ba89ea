//! Scenarios: everything a caller chooses for one request.
#![allow(dead_code)]
use crate::oracle::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::Serializer;
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::{Builder, Credentials, Request};
use std::cell::RefCell;
use std::fmt::{Display, Write};
use std::num::NonZeroU64;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct It {
    pub name: String,
    pub val: String,
    /// The value is declared as already encoded.
    pub enc: bool,
}
pub fn it(name: &str, val: &str) -> It {
    It { name: name.into(), val: val.into(), enc: false }
}
pub fn ite(name: &str, val: &str) -> It {
    It { name: name.into(), val: val.into(), enc: true }
}
impl It {
    pub fn p(&self) -> P {
        if self.enc {
            pe(&self.name, &self.val)
        } else {
            p(&self.name, &self.val)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub method: String,
    pub uri: String,
    pub ck: String,
    pub cs: String,
    pub token: Option<(String, String)>,
    pub callback: Option<String>,
    pub verifier: Option<String>,
    pub nonce: Option<String>,
    pub ts: Option<u64>,
    pub version: bool,
    pub params: Vec<It>,
}

pub const OAUTH: [&str; 8] = [
    "oauth_callback",
    "oauth_consumer_key",
    "oauth_nonce",
    "oauth_signature_method",
    "oauth_timestamp",
    "oauth_token",
    "oauth_verifier",
    "oauth_version",
];

impl Scn {
    pub fn full() -> Scn {
        Scn {
            method: "GET".into(),
            uri: "http://example.com/r".into(),
            ck: "ck".into(),
            cs: "cs".into(),
            token: Some(("tk".into(), "ts".into())),
            callback: Some("http://cb/".into()),
            verifier: Some("vf".into()),
            nonce: Some("nn".into()),
            ts: Some(1234567890),
            version: true,
            params: vec![it("a", "1"), it("z", "2")],
        }
    }
    pub fn minimal() -> Scn {
        Scn { token: None, callback: None, verifier: None, version: false, params: vec![], ..Scn::full() }
    }
    pub fn req<'a>(&'a self, sm: &'a str) -> Req<'a> {
        Req {
            method: &self.method,
            uri: &self.uri,
            ck: &self.ck,
            cs: &self.cs,
            token: self.token.as_ref().map(|(a, b)| (&**a, &**b)),
            callback: self.callback.as_deref(),
            verifier: self.verifier.as_deref(),
            nonce: self.nonce.as_deref(),
            timestamp: self.ts.map(|t| t.to_string()),
            version: self.version,
            sigmethod: sm,
            params: self.params.iter().map(It::p).collect(),
        }
    }
    pub fn client(&self) -> Credentials<&str> {
        Credentials::new(&self.ck, &self.cs)
    }
    pub fn tok(&self) -> Option<Credentials<&str>> {
        self.token.as_ref().map(|(a, b)| Credentials::new(&**a, &**b))
    }
    pub fn builder<SM: SignatureMethod>(&self, sm: SM) -> Builder<'_, SM, &str, &str> {
        let mut b = Builder::new(self.client(), sm);
        b.token(self.tok());
        if let Some(x) = &self.callback {
            b.callback(&**x);
        }
        if let Some(x) = &self.verifier {
            b.verifier(&**x);
        }
        if let Some(x) = &self.nonce {
            b.nonce(&**x);
        }
        if let Some(x) = self.ts {
            b.timestamp(NonZeroU64::new(x).unwrap());
        }
        b.version(self.version);
        b
    }
    pub fn options(&self) -> oauth::serializer::auth::Options<'_> {
        let mut o = oauth::serializer::auth::Options::new();
        if let Some(x) = &self.callback {
            o.callback(&**x);
        }
        if let Some(x) = &self.verifier {
            o.verifier(&**x);
        }
        if let Some(x) = &self.nonce {
            o.nonce(&**x);
        }
        if let Some(x) = self.ts {
            o.timestamp(NonZeroU64::new(x).unwrap());
        }
        o.version(self.version);
        o
    }
    pub fn items(&self) -> Items<'_> {
        Items(&self.params)
    }

    /// Any of the smaller kinds.
    pub fn any() -> Scn {
        match sx::choose(5) {
            0 => Scn::focused(),
            1 => Scn::combos(),
            2 => Scn::pairs(),
            3 => Scn::names(),
            _ => Scn::urls(),
        }
    }
    /// Any of the bigger kinds.
    pub fn big(level: u32) -> Scn {
        if sx::flag() {
            Scn::long(level)
        } else {
            Scn::many(level)
        }
    }
    /// Everything fixed but one part, which is arbitrary text of several shapes.
    pub fn focused() -> Scn {
        Scn::focused_by(sx::text)
    }
    pub fn focused_by(text: impl Fn() -> String) -> Scn {
        let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
        let n = if s.token.is_some() { 13 } else { 6 };
        match sx::choose(n) {
            0 => s.ck = text(),
            1 => s.cs = text(),
            2 => s.nonce = Some(text()),
            3 => {
                s.uri = text();
                no_question(&s.uri);
            }
            4 => s.method = text(),
            5 => {
                s.ts = Some(any_ts());
            }
            6 => s.token = Some((text(), "ts".into())),
            7 => s.token = Some(("tk".into(), text())),
            8 => s.callback = Some(text()),
            9 => s.verifier = Some(text()),
            10 => s.params[0].val = text(),
            11 => s.params[1].val = text(),
            _ => {
                // already encoded values: any unreserved text, an escape of any byte
                s.params[1] = ite("z", &encoded_text());
            }
        }
        s
    }
    /// Fixed values, every combination of the optional parts.
    pub fn combos() -> Scn {
        let mut s = Scn::full();
        if sx::flag() {
            s.token = None;
        }
        if sx::flag() {
            s.callback = None;
        }
        if sx::flag() {
            s.verifier = None;
        }
        s.version = sx::flag();
        s.params = match sx::choose(7) {
            0 => vec![],
            1 => vec![it("a", "b c")],
            2 => vec![it("z", "b c")],
            3 => vec![it("a", ""), it("oauth_d", "%"), it("z", "")],
            4 => vec![ite("a", "%20"), it("oauth_nonc", "1"), it("oauth_noncf", "2"), ite("zz", "%25")],
            5 => vec![it("a", "1"), it("a", "2"), it("a1", "0"), it("oauth_zz", "/"), it("x", "+")],
            _ => vec![it("", "e"), it("A", "1"), it("_", "2"), it("~", "3")],
        };
        s
    }
    /// Several parts with one arbitrary ASCII character each, two of them at a time.
    pub fn pairs() -> Scn {
        let mut s = Scn::full();
        // i < j, without a path for the other pairs
        let (mut i, mut j) = (0, sx::choose(36));
        while j >= 8 - i {
            j -= 8 - i;
            i += 1;
        }
        for k in [i, i + 1 + j] {
            let t = sx::small("p", "q");
            match k {
                0 => s.ck = t,
                1 => s.cs = t,
                2 => s.token.as_mut().unwrap().0 = t,
                3 => s.token.as_mut().unwrap().1 = t,
                4 => s.callback = Some(t),
                5 => s.verifier = Some(t),
                6 => s.nonce = Some(t),
                7 => s.params[0].val = t,
                _ => s.params[1].val = t,
            }
        }
        s
    }
    /// One part long.
    pub fn long(level: u32) -> Scn {
        Scn::long_by(level, || sx::long_text(level))
    }
    pub fn long_by(level: u32, text: impl Fn() -> String) -> Scn {
        let mut s = Scn::full();
        match sx::choose(12) {
            9 => s.method = text(),
            10 => s.params[1].name = long_name(level),
            11 => {
                let mut v = "%2F".repeat([8, 22, 90, 342, 1366, 21900][sx::choose(4 + level.min(2)) as usize]);
                v.push_str(&sx::unreserved(1));
                s.params[1] = ite("z", &v);
            }
            0 => s.ck = text(),
            1 => s.cs = text(),
            2 => s.nonce = Some(text()),
            3 => {
                s.uri = text();
                no_question(&s.uri);
            }
            4 => s.params[0].val = text(),
            5 => s.token = Some((text(), "ts".into())),
            6 => s.token = Some(("tk".into(), text())),
            7 => s.callback = Some(text()),
            _ => s.verifier = Some(text()),
        }
        s
    }
    /// Request parameter names: arbitrary unreserved text around the oauth_* names.
    pub fn names() -> Scn {
        let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
        s.params = vec![It { name: any_name(), val: "v%201".into(), enc: sx::flag() }];
        s
    }
    /// URIs and methods as they occur, with one arbitrary ASCII character.
    pub fn urls() -> Scn {
        let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
        match sx::choose(14) {
            0 => s.uri = sx::small("http://example.com:80/", ""),
            1 => s.uri = sx::small("https://example.com:443/", "/"),
            2 => s.uri = sx::small("HTTP://EXAMPLE.com/", ""),
            3 => s.uri = sx::small("http://example.com:80", ""),
            4 => s.uri = sx::small("http://example.com", ""),
            5 => s.uri = sx::small("http://example.com/a/../b/./", "//"),
            6 => s.uri = sx::small("http://user:pw@[::1]:8080/", "#frag"),
            7 => s.uri = sx::small("//example.com/%7e%2f", "%41"),
            8 => s.uri = sx::small("/", "/"),
            9 => s.uri = sx::small("http://example.com/;p=1&", "=%"),
            10 => s.method = sx::small("ge", ""),
            11 => s.method = sx::small("PoS", ""),
            12 => s.method = sx::unreserved(7),
            _ => s.method = sx::small(" GET", " "),
        }
        no_question(&s.uri);
        s
    }
    /// A request like this one but for one part, which is arbitrary text of the same length, left out
    /// or longer.
    pub fn vary(&self) -> Scn {
        let mut s = self.clone();
        let mut t = s.token.clone().unwrap_or(("tk".into(), "ts".into()));
        let new = |x: &str| if sx::flag() { sx::ascii(x.len().min(3)) } else { format!("{} and more", x) };
        match sx::choose(16) {
            0 => s.method = new(&s.method),
            1 => {
                s.uri = sx::small("http://example.com/", "");
                no_question(&s.uri);
            }
            2 => s.ck = new(&s.ck),
            3 => s.cs = new(&s.cs),
            4 => {
                t.0 = new(&t.0);
                s.token = Some(t);
            }
            5 => {
                t.1 = new(&t.1);
                s.token = Some(t);
            }
            6 => s.token = None,
            7 => s.callback = Some(new("http://cb/")),
            8 => s.callback = None,
            9 => s.verifier = Some(new("vf")),
            10 => s.verifier = None,
            11 => s.nonce = Some(new("nn")),
            12 => s.ts = Some(any_ts()),
            13 => s.version = !s.version,
            14 => s.params = vec![it("a", &new("1")), it("z", "2")],
            _ => s.params = vec![ite("a", "1"), it("b", ""), it("z", "2")],
        }
        s
    }
    /// A request, another one, and the first or the second once more.
    pub fn sequence() -> Vec<Scn> {
        let a = if sx::flag() { Scn::full() } else { Scn::minimal() };
        let b = a.vary();
        match sx::choose(3) {
            0 => vec![a, b],
            1 => vec![a.clone(), b, a],
            _ => vec![b, a],
        }
    }
    /// Many parameters.
    pub fn many(level: u32) -> Scn {
        let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
        let n = [9, 33, 260, 5, 17, 65, 129, 520, 1030][sx::choose([3, 7, 9][level as usize]) as usize];
        let first = sx::flag();
        s.params = (0..n)
            .map(|i| {
                let p = format!("{}{:04}", if first { "n" } else { "p" }, i - i % 3 / 2);
                if i % 4 == 2 {
                    ite(&p, &"%20x"[..i % 3 / 2 * 4])
                } else {
                    it(&p, ["x y", "", "1"][i % 3])
                }
            })
            .collect();
        let k = [0, n / 2, n - 1][sx::choose(3) as usize];
        s.params[k].val = if s.params[k].enc { sx::unreserved(1) } else { sx::ascii(1) };
        // equal names follow each other in the order of their values
        let t = s.params[k].clone();
        for i in 1..n {
            if s.params[i].name == t.name {
                s.params[i] = t.clone();
            } else if s.params[i].name == s.params[i - 1].name {
                s.params[i].val = s.params[i - 1].val.clone();
                s.params[i].enc = s.params[i - 1].enc;
            }
        }
        if n > k && s.params[0].name == t.name {
            s.params[0] = t;
        }
        s
    }
}
pub fn no_question(s: &str) {
    for b in s.bytes() {
        sx::assume(b != b'?');
    }
}
/// A name of many characters.
pub fn long_name(level: u32) -> String {
    let n = [15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 4096, 65536][sx::choose([10, 12, 13][level as usize]) as usize];
    let mut v = "z".repeat(n);
    v.push_str(&sx::unreserved(1));
    if sx::flag() {
        v.push('-');
    }
    v
}
pub fn any_name() -> String {
    let n = match sx::choose(7) {
        5 => String::new(),
        6 => {
            let n = sx::unreserved([3, 4, 6, 11][sx::choose(4) as usize]);
            for o in OAUTH {
                if o.len() == n.len() {
                    let mut other = false;
                    for (a, b) in o.bytes().zip(n.bytes()) {
                        other |= a != b;
                    }
                    sx::assume(other);
                }
            }
            n
        }
        0 => sx::unreserved(1),
        1 => sx::unreserved(2),
        2 => {
            let mut v = b"oauth_".to_vec();
            v.extend(sx::unreserved(1).into_bytes());
            sx::raw(v)
        }
        3 => {
            // an OAuth parameter's name with another last character
            let o = OAUTH[sx::choose(8) as usize];
            let mut v = o[..o.len() - 1].as_bytes().to_vec();
            let b = sx::unreserved(1).into_bytes()[0];
            sx::assume(b != o.as_bytes()[o.len() - 1]);
            v.push(b);
            sx::raw(v)
        }
        _ => {
            // ... or with one more
            let o = OAUTH[sx::choose(8) as usize];
            let mut v = o.as_bytes().to_vec();
            v.extend(sx::unreserved(1).into_bytes());
            sx::raw(v)
        }
    };
    n
}
pub fn encoded_text() -> String {
    let mut v = vec![];
    match sx::choose(4) {
        0 => {}
        1 => v.extend(sx::unreserved(2).into_bytes()),
        2 => {
            v.extend(sx::unreserved(1).into_bytes());
            esc(&mut v);
        }
        _ => {
            v.extend(b"x");
            esc(&mut v);
            v.extend(b"%2Fy");
        }
    }
    sx::raw(v)
}
fn esc(v: &mut Vec<u8>) {
    v.push(b'%');
    for _ in 0..2 {
        let b = sx::u8();
        sx::assume((b >= b'0') & (b <= b'9') | (b >= b'A') & (b <= b'F'));
        v.push(b);
    }
}
pub fn any_ts() -> u64 {
    match sx::choose(8) {
        6 => 9_999_999_999,
        7 => 4_294_967_295,
        0 => 1,
        1 => u64::MAX,
        2 => 9,
        3 => 1_000_000_000,
        4 => {
            let b = sx::u8();
            sx::assume(b != 0);
            b as u64
        }
        _ => {
            let b = sx::u8();
            0x1_0000_0000 + b as u64
        }
    }
}

/// Parameters with per-parameter choice of encoding, in the order given, oauth_* ones at their
/// sorted place.
pub struct Items<'a>(pub &'a [It]);
impl<'a> Request for Items<'a> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut k = 0;
        for i in self.0 {
            while k < 8 && OAUTH[k].as_bytes() < i.name.as_bytes() {
                oauth_call(k, &mut s);
                k += 1;
            }
            if i.enc {
                s.serialize_parameter_encoded(&i.name, &*i.val);
            } else {
                s.serialize_parameter(&i.name, &*i.val);
            }
        }
        while k < 8 {
            oauth_call(k, &mut s);
            k += 1;
        }
        s.end()
    }
}
pub fn oauth_call<S: Serializer>(k: usize, s: &mut S) {
    match k {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        _ => s.serialize_oauth_version(),
    }
}

/// A signature method whose signature is the base string itself.
#[derive(Clone)]
pub struct Rec;
#[derive(Clone)]
pub struct RecSign(Vec<u8>, String);
impl SignatureMethod for Rec {
    type Sign = RecSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> RecSign {
        RecSign(vec![], String::new())
    }
}
/// A signature that is displayed as the formatter says.
pub struct Sig(pub String);
impl Display for Sig {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)?;
        sx::plain(f)
    }
}
impl Sign for RecSign {
    type Signature = Sig;
    fn get_signature_method_name(&self) -> &'static str {
        "X-REC"
    }
    fn request_method(&mut self, m: &str) {
        enc_into(&mut self.0, m.as_bytes());
        self.0.push(b'&');
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.1.clear();
        write!(self.1, "{}", u).unwrap();
        self.0.extend(self.1.as_bytes());
        self.0.push(b'&');
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.1.clear();
        write!(self.1, "{}", v).unwrap();
        self.0.extend(k.as_bytes());
        self.0.extend(b"%3D");
        self.0.extend(self.1.as_bytes());
    }
    fn delimiter(&mut self) {
        self.0.extend(b"%26");
    }
    fn end(self) -> Sig {
        Sig(sx::raw(enc(&self.0)))
    }
}

/// What a user-defined signature algorithm sees, call by call.
#[derive(Clone, Default)]
pub struct Log {
    pub log: Rc<RefCell<Vec<u8>>>,
    /// Which optional hooks the algorithm overrides (otherwise it keeps the defaults).
    pub hooks: bool,
    pub use_nonce: bool,
    pub use_timestamp: bool,
    pub tag: u8,
}
impl Log {
    pub fn new(hooks: bool, use_nonce: bool, use_timestamp: bool) -> Log {
        Log { log: Default::default(), hooks, use_nonce, use_timestamp, tag: b'0' }
    }
    pub fn ev(&self, t: &str, parts: &[&[u8]]) {
        let mut l = self.log.borrow_mut();
        l.push(self.tag);
        l.extend(t.as_bytes());
        for p in parts {
            l.push(b' ');
            l.extend(*p);
        }
        l.push(b'\n');
    }
    fn evd(&self, t: &str, v: impl Display) {
        let v = show(v);
        self.ev(t, &[v.as_bytes()]);
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
}
pub fn show(v: impl Display) -> String {
    let mut s = String::new();
    write!(s, "{}", v).unwrap();
    s
}
pub struct LogSign(pub Log);
impl SignatureMethod for Log {
    type Sign = LogSign;
    fn sign_with(self, c: &str, t: Option<&str>) -> LogSign {
        match t {
            None => self.ev("with", &[c.as_bytes()]),
            Some(t) => self.ev("with", &[c.as_bytes(), t.as_bytes()]),
        }
        LogSign(self)
    }
}
macro_rules! hook {
    ($($n:ident $s:expr;)*) => {$(
        fn $n<V: Display>(&mut self, v: V) {
            if self.0.hooks {
                self.0.evd(stringify!($n), v);
            } else {
                self.parameter($s, v);
            }
        }
    )*};
}
impl Sign for LogSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        if self.0.tag == b'1' {
            "X-LOG1"
        } else {
            "X-LOG"
        }
    }
    fn request_method(&mut self, m: &str) {
        self.0.ev("method", &[m.as_bytes()]);
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.0.evd("uri", u);
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        let v = show(v);
        self.0.ev("param", &[k.as_bytes(), v.as_bytes()]);
    }
    fn delimiter(&mut self) {
        self.0.ev("delim", &[]);
    }
    fn end(self) -> String {
        self.0.ev("end", &[]);
        "sig%2F".into()
    }
    hook! {
        callback "oauth_callback";
        consumer_key "oauth_consumer_key";
        nonce "oauth_nonce";
        token "oauth_token";
        verifier "oauth_verifier";
    }
    fn signature_method(&mut self) {
        if self.0.hooks {
            self.0.ev("signature_method", &[]);
        } else {
            let n = self.get_signature_method_name();
            self.parameter("oauth_signature_method", n);
        }
    }
    fn timestamp(&mut self, v: u64) {
        if self.0.hooks {
            self.0.evd("timestamp", v);
        } else {
            self.parameter("oauth_timestamp", v);
        }
    }
    fn version(&mut self) {
        if self.0.hooks {
            self.0.ev("version", &[]);
        } else {
            self.parameter("oauth_version", "1.0");
        }
    }
    fn use_nonce(&self) -> bool {
        self.0.use_nonce
    }
    fn use_timestamp(&self) -> bool {
        self.0.use_timestamp
    }
}
/// A signature method that implements only what it must (every optional method is the default).
#[derive(Clone, Default)]
pub struct Bare(pub Rc<RefCell<Vec<u8>>>);
pub struct BareSign(LogSign);
impl SignatureMethod for Bare {
    type Sign = BareSign;
    fn sign_with(self, c: &str, t: Option<&str>) -> BareSign {
        BareSign(Log { log: self.0, hooks: false, use_nonce: true, use_timestamp: true, tag: b'0' }.sign_with(c, t))
    }
}
impl Sign for BareSign {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str {
        "X-LOG"
    }
    fn request_method(&mut self, m: &str) {
        self.0.request_method(m)
    }
    fn uri<T: Display>(&mut self, u: T) {
        self.0.uri(u)
    }
    fn parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.parameter(k, v)
    }
    fn delimiter(&mut self) {
        self.0.delimiter()
    }
    fn end(self) -> String {
        self.0.end()
    }
}
