//! Credentials and serde.
use crate::sx;
use oauth1_request::Credentials;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::forward_to_deserialize_any;
use std::fmt;

const A: &[u8] = b"oauth_token";
const B: &[u8] = b"oauth_token_secret";

/// An error with its text.
#[derive(Debug)]
struct Fail(String);
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Fail {}
impl de::Error for Fail {
    fn custom<T: fmt::Display>(m: T) -> Fail {
        Fail(m.to_string())
    }
}
impl ser::Error for Fail {
    fn custom<T: fmt::Display>(m: T) -> Fail {
        Fail(m.to_string())
    }
}
/// A format: how keys and values reach the implementation.
#[derive(Clone, Copy)]
enum Way {
    Str,
    Borrowed,
    Owned,
    Bytes,
    BorrowedBytes,
    ByteBuf,
}
const WAYS: [Way; 6] = [Way::Str, Way::Borrowed, Way::Owned, Way::Bytes, Way::BorrowedBytes, Way::ByteBuf];
struct Key<'de>(&'de [u8], Way);
fn text(b: &[u8]) -> &str {
    // keys handed over as text are valid UTF-8
    unsafe { std::str::from_utf8_unchecked(b) }
}
impl<'de> Deserializer<'de> for Key<'de> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        match self.1 {
            Way::Str => v.visit_str(text(self.0)),
            Way::Borrowed => v.visit_borrowed_str(text(self.0)),
            Way::Owned => v.visit_string(text(self.0).to_string()),
            Way::Bytes => v.visit_bytes(self.0),
            Way::BorrowedBytes => v.visit_borrowed_bytes(self.0),
            Way::ByteBuf => v.visit_byte_buf(self.0.to_vec()),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
#[derive(Clone)]
enum Val {
    Text(String),
    Num(u64),
    Nothing,
}
struct ValDe<'de>(&'de Val);
impl<'de> Deserializer<'de> for ValDe<'de> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        match self.0 {
            Val::Text(t) => v.visit_borrowed_str(t),
            Val::Num(n) => v.visit_u64(*n),
            Val::Nothing => v.visit_unit(),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
thread_local!(static FAILED: std::cell::Cell<bool> = std::cell::Cell::new(false));
struct Map<'de> {
    e: &'de [(Vec<u8>, Val)],
    i: usize,
    way: Way,
    /// The format leaves out what the type does not ask for.
    only: Option<&'static [&'static str]>,
    pending: bool,
    hint: bool,
    /// The step of the format that fails, counting down.
    fail: u64,
}
impl<'de> Map<'de> {
    fn step(&mut self) -> Result<(), Fail> {
        if self.fail == 0 {
            FAILED.with(|f| f.set(true));
            return Err(Fail("format".into()));
        }
        self.fail -= 1;
        Ok(())
    }
    fn new(e: &'de [(Vec<u8>, Val)], way: Way) -> Map<'de> {
        Map { e, i: 0, way, only: None, pending: false, hint: true, fail: !0 }
    }
}
impl<'de> MapAccess<'de> for Map<'de> {
    type Error = Fail;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Fail> {
        self.step()?;
        // every value is taken before the next key
        sx::assert(!self.pending, 10);
        if let Some(f) = self.only {
            while self.i < self.e.len() && !f.iter().any(|f| f.as_bytes() == &self.e[self.i].0[..]) {
                self.i += 1;
            }
        }
        if self.i == self.e.len() {
            return Ok(None);
        }
        self.pending = true;
        s.deserialize(Key(&self.e[self.i].0, self.way)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Fail> {
        self.step()?;
        sx::assert(self.pending, 11);
        self.pending = false;
        self.i += 1;
        s.deserialize(ValDe(&self.e[self.i - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        if self.hint {
            Some(self.e.len() - self.i)
        } else {
            None
        }
    }
}
struct MapDe<'de>(Map<'de>, bool);
impl<'de> Deserializer<'de> for MapDe<'de> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        v.visit_map(self.0)
    }
    fn deserialize_struct<V: Visitor<'de>>(mut self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Fail> {
        if self.1 {
            self.0.only = Some(f);
        }
        v.visit_map(self.0)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map enum identifier ignored_any
    }
}
fn count(e: &[(Vec<u8>, Val)], k: &[u8]) -> (usize, usize) {
    let (mut n, mut at) = (0, 0);
    for (i, x) in e.iter().enumerate() {
        if x.0.len() == k.len() && x.0 == k {
            n += 1;
            at = i;
        }
    }
    (n, at)
}
/// The text names the field (and not just a longer name).
fn names(m: &[u8], k: &[u8]) -> bool {
    let part = |b: Option<&u8>| b.map_or(false, |b| b.is_ascii_alphanumeric() || *b == b'_');
    (0..=m.len().saturating_sub(k.len())).any(|i| {
        m[i..].starts_with(k) && !part(m.get(i + k.len())) && (i == 0 || !part(m.get(i - 1)))
    })
}
fn judge<T: AsRef<str>>(e: &[(Vec<u8>, Val)], r: Result<Credentials<T>, String>) {
    let ((na, a), (nb, b)) = (count(e, A), count(e, B));
    sx::reach(1);
    match r {
        Ok(c) => {
            sx::assert(na == 1 && nb == 1, 1);
            if na == 1 && nb == 1 {
                if let (Val::Text(x), Val::Text(y)) = (&e[a].1, &e[b].1) {
                    sx::eq(c.identifier.as_ref(), x, 2);
                    sx::eq(c.secret.as_ref(), y, 3);
                }
            }
            sx::observe(c.identifier.as_ref());
        }
        Err(m) => {
            sx::observe(&m);
            sx::assert(na != 1 || nb != 1, 4);
            sx::assert(na != 1 && names(m.as_bytes(), A) || nb != 1 && names(m.as_bytes(), B), 5);
        }
    }
}
fn run(e: &[(Vec<u8>, Val)], way: Way, hint: bool, filter: bool) {
    let mut m = Map::new(e, way);
    m.hint = hint;
    judge(e, Credentials::<String>::deserialize(MapDe(m, filter)).map_err(|e| e.to_string()))
}
/// Any key at all of a length around the two names, all bytes arbitrary.
fn any_key(lens: &[usize], ascii: bool) -> Vec<u8> {
    let n = lens[sx::choose(lens.len() as u32) as usize];
    let mut v = vec![0; n];
    for b in v.iter_mut() {
        *b = sx::u8();
        if ascii {
            sx::assume(*b < 0x80);
        }
    }
    v
}
/// One, two or three entries with arbitrary keys.
/// bounds: up to 3 entries; keys of 0, 1, 10, 11, 12, 17, 18 and 19 arbitrary bytes (ASCII where handed over as text; thorough: every length up to 24); values one arbitrary ASCII character; keys handed over in all 6 ways
#[no_mangle]
pub extern "C" fn c17_keys(t: u32) {
    let all: Vec<usize> = (0..25).collect();
    let lens: &[usize] = if t > 0 { &all } else { &[0, 1, 10, 11, 12, 17, 18, 19] };
    let w = sx::choose(6);
    let n = sx::choose(4);
    let mut e = vec![];
    for i in 0..n {
        e.push((any_key(lens, w < 3), Val::Text(sx::small(["p", "q", "r"][i as usize], ""))));
    }
    run(&e, WAYS[w as usize], sx::flag(), false);
}
/// Histories of the two names and others: order, repetition, omission; other entries have any value.
/// bounds: up to 4 entries (thorough: 5), each one of the names or of five similar ones; values of other entries text, number or nothing
#[no_mangle]
pub extern "C" fn c17_histories(t: u32) {
    let w = sx::choose(2) * 3;
    let n = sx::choose(5 + t);
    let mut e = vec![];
    for i in 0..n {
        let k = sx::choose(5);
        let text = Val::Text(sx::small(["p", "q", "r", "s", "t"][i as usize], "/"));
        let any = [Val::Num(7), Val::Nothing, text.clone()][i as usize % 3].clone();
        e.push(match k {
            0 => (A.to_vec(), text),
            1 => (B.to_vec(), text),
            2 => (b"oauth_callback_confirmed".to_vec(), any),
            3 => (b"oauth_token_".to_vec(), any),
            _ => (b"Oauth_token".to_vec(), any),
        });
    }
    run(&e, WAYS[w as usize], true, sx::flag());
}
macro_rules! no {
    ($($n:ident $($t:ty),*;)*) => {$(
        fn $n(self, $(_: $t),*) -> Result<Self::Ok, Fail> {
            Err(Fail(stringify!($n).into()))
        }
    )*};
}
/// A format for which only structs of text exist.
struct Write<'a>(&'a mut Vec<(String, String)>, &'a mut usize);
struct Inner(String);
macro_rules! rest {
    () => {
        type SerializeSeq = ser::Impossible<Self::Ok, Fail>;
        type SerializeTuple = ser::Impossible<Self::Ok, Fail>;
        type SerializeTupleStruct = ser::Impossible<Self::Ok, Fail>;
        type SerializeTupleVariant = ser::Impossible<Self::Ok, Fail>;
        type SerializeMap = ser::Impossible<Self::Ok, Fail>;
        type SerializeStructVariant = ser::Impossible<Self::Ok, Fail>;
        no! {
            serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64;
            serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64;
            serialize_char char; serialize_bytes &[u8]; serialize_none; serialize_unit; serialize_unit_struct &'static str;
            serialize_unit_variant &'static str, u32, &'static str;
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Fail> { Err(Fail("some".into())) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Fail> { Err(Fail("newtype".into())) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Fail> { Err(Fail("variant".into())) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> { Err(Fail("seq".into())) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail("tuple".into())) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> { Err(Fail("tuple".into())) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Fail> { Err(Fail("variant".into())) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> { Err(Fail("map".into())) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Fail> { Err(Fail("variant".into())) }
    };
}
impl ser::Serializer for Inner {
    type Ok = String;
    type Error = Fail;
    type SerializeStruct = ser::Impossible<String, Fail>;
    fn serialize_str(self, v: &str) -> Result<String, Fail> {
        Ok(self.0 + v)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        Err(Fail("struct".into()))
    }
    rest!();
}
impl<'a> ser::Serializer for Write<'a> {
    type Ok = ();
    type Error = Fail;
    type SerializeStruct = Self;
    fn serialize_str(self, _: &str) -> Result<(), Fail> {
        Err(Fail("str".into()))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Fail> {
        *self.1 = n;
        Ok(self)
    }
    rest!();
}
impl<'a> ser::SerializeStruct for Write<'a> {
    type Ok = ();
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        let v = v.serialize(Inner(String::new()))?;
        self.0.push((k.into(), v));
        Ok(())
    }
    fn end(self) -> Result<(), Fail> {
        Ok(())
    }
}
/// Round trip through a minimal format, any kind of text.
/// bounds: identifier and secret arbitrary text of five shapes each, types String, &str, Box<str> and references
#[no_mangle]
pub extern "C" fn c17_round_trip(_t: u32) {
    let (i, s) = if sx::flag() { (sx::short_text(), sx::small("<", ">")) } else { (sx::small("\"", "\\"), sx::short_text()) };
    let mut e = vec![];
    let mut n = 0;
    let c = Credentials::new(&*i, &*s);
    let r = match sx::choose(3) {
        0 => c.serialize(Write(&mut e, &mut n)),
        1 => c.map(String::from).serialize(Write(&mut e, &mut n)),
        _ => (&c.map(Box::<str>::from)).serialize(Write(&mut e, &mut n)),
    };
    sx::assert(r.is_ok(), 1);
    sx::assert(n == e.len(), 2);
    let f: Vec<_> = e.into_iter().map(|(k, v)| (k.into_bytes(), Val::Text(v))).collect();
    let way = WAYS[sx::choose(6) as usize];
    macro_rules! back {
        ($t:ty) => {
            match Credentials::<$t>::deserialize(MapDe(Map::new(&f, way), sx::flag())) {
                Ok(c) => {
                    let c = c.as_ref();
                    sx::eq(c.identifier, &i, 3);
                    sx::eq(c.secret, &s, 4);
                    sx::observe(c.identifier);
                }
                Err(_) => sx::assert(false, 5),
            }
        };
    }
    match sx::choose(3) {
        0 => back!(String),
        1 => back!(&str),
        _ => back!(Box<str>),
    }
    sx::reach(1);
}
#[derive(serde::Serialize, serde::Deserialize)]
struct Response {
    pre: u32,
    #[serde(flatten)]
    credentials: Credentials<String>,
    oauth_callback_confirmed: bool,
}
/// Formats in use: JSON and URL-encoded, alone or as part of a response.
/// bounds: identifier and secret arbitrary text of five shapes, one at a time
#[no_mangle]
pub extern "C" fn c17_formats(_t: u32) {
    let (i, s) = if sx::flag() { (sx::short_text(), "s\"\\".to_string()) } else { ("i&=".to_string(), sx::short_text()) };
    let c = Credentials::new(i.clone(), s.clone());
    let r = match sx::choose(6) {
        0 => serde_json::to_string(&c).and_then(|t| serde_json::from_str(&t)).map_err(|e| e.to_string()),
        1 => serde_json::to_vec(&c.as_ref()).and_then(|t| serde_json::from_slice(&t)).map_err(|e| e.to_string()),
        2 => serde_json::to_value(&c).and_then(serde_json::from_value).map_err(|e| e.to_string()),
        3 => serde_urlencoded::to_string(&c).map_err(|e| e.to_string()).and_then(|t| serde_urlencoded::from_str(&t).map_err(|e| e.to_string())),
        4 => {
            let r = Response { pre: 1, credentials: c, oauth_callback_confirmed: true };
            serde_json::to_string(&r).and_then(|t| serde_json::from_str::<Response>(&t)).map(|r| r.credentials).map_err(|e| e.to_string())
        }
        _ => {
            let r = Response { pre: 1, credentials: c, oauth_callback_confirmed: false };
            match serde_urlencoded::to_string(&r) {
                Ok(t) => {
                    // numbers do not survive flattening in this format: only the credentials
                    serde_urlencoded::from_str::<Credentials>(&t).map_err(|e| e.to_string())
                }
                Err(e) => Err(e.to_string()),
            }
        }
    };
    match r {
        Ok(c) => {
            sx::eq(&c.identifier, &i, 1);
            sx::eq(&c.secret, &s, 2);
            sx::observe(&c.identifier);
        }
        Err(_) => sx::assert(false, 3),
    }
    sx::reach(1);
}
/// JSON maps with omissions, repetitions and other entries.
/// bounds: 12 documents, one arbitrary ASCII letter in keys
#[no_mangle]
pub extern "C" fn c17_json(_t: u32) {
    const DOCS: [(&str, bool); 12] = [
        (r#"{"oauth_token":"a","oauth_token_secret":"b"}"#, true),
        (r#"{"oauth_token_secret":"b","oauth_token":"a"}"#, true),
        (r#"{"x":{"oauth_token":[1,{}]},"oauth_token_secret":"b","y":null,"oauth_token":"a","z":1.5}"#, true),
        (r#"{"oauth_token":"a","oauth_token_secret":"b","oauth_token":"a"}"#, false),
        (r#"{"oauth_token":"a","oauth_token_secret":"b","oauth_token_secret":"b"}"#, false),
        (r#"{"oauth_token":"a"}"#, false),
        (r#"{"oauth_token_secret":"b"}"#, false),
        (r#"{}"#, false),
        (r#"{"oauth_token":"a","oauth_token":"a"}"#, false),
        (r#"{"oauth\u005ftoken":"a","oauth_token\u005fsecret":"b"}"#, true),
        (r#"{"identifier":"a","secret":"b"}"#, false),
        (r#" { "oauth_token" : "a" , "?" : "c", "oauth_token_secret" : "b" } "#, true),
    ];
    let (d, ok) = DOCS[sx::choose(12) as usize];
    let mut d = d.as_bytes().to_vec();
    for b in d.iter_mut() {
        if *b == b'?' {
            *b = sx::u8();
            sx::assume((*b >= b'a') & (*b <= b'z'));
        }
    }
    let d = sx::raw(d);
    let r = match sx::choose(2) {
        0 => serde_json::from_str::<Credentials>(&d),
        _ => serde_json::from_slice::<Credentials>(d.as_bytes()),
    };
    match r {
        Ok(c) => {
            sx::assert(ok, 1);
            sx::eq(c.identifier, "a", 2);
            sx::eq(c.secret, "b", 3);
        }
        Err(e) => {
            sx::assert(!ok, 4);
            let e = e.to_string();
            sx::assert(names(e.as_bytes(), A) || names(e.as_bytes(), B), 5);
        }
    }
    sx::reach(1);
}

/// A format whose calls fail.
struct Breaks(u64);
impl Breaks {
    fn step(&mut self) -> Result<(), Fail> {
        self.0 = self.0.wrapping_sub(1);
        if self.0 == !0 {
            FAILED.with(|f| f.set(true));
            return Err(Fail("format".into()));
        }
        Ok(())
    }
}
impl ser::Serializer for Breaks {
    type Ok = u64;
    type Error = Fail;
    type SerializeStruct = Self;
    fn serialize_str(self, _: &str) -> Result<u64, Fail> {
        Err(Fail("str".into()))
    }
    fn serialize_struct(mut self, _: &'static str, _: usize) -> Result<Self, Fail> {
        self.step()?;
        Ok(self)
    }
    rest!();
}
impl ser::SerializeStruct for Breaks {
    type Ok = u64;
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Fail> {
        self.step()?;
        v.serialize(Inner(String::new()))?;
        Ok(())
    }
    fn end(mut self) -> Result<u64, Fail> {
        self.step()?;
        Ok(7)
    }
}
/// The format itself reports an error, at any of its steps: it is returned, and never taken for the end of the map or a missing value.
/// bounds: the failing step any (64 bits); maps of up to 4 entries, each one of the two names or another, their values text; serializing with a format any of whose calls fails
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c17_errors(_t: u32) {
    FAILED.with(|f| f.set(false));
    if sx::flag() {
        let mut e = vec![];
        for i in 0..sx::choose(5) {
            let k: &[u8] = [A, B, b"other"][sx::choose(3) as usize];
            e.push((k.to_vec(), Val::Text(["p", "q", "r", "s"][i as usize].into())));
        }
        let mut m = Map::new(&e, if sx::flag() { Way::Str } else { Way::Bytes });
        m.fail = sx::u64();
        m.hint = sx::flag();
        let r = Credentials::<String>::deserialize(MapDe(m, false)).map_err(|e| e.to_string());
        if FAILED.with(|f| f.get()) {
            sx::eq(r.err().unwrap_or_default(), "format", 20);
            sx::reach(1);
        } else {
            judge(&e, r);
        }
    } else {
        let r = Credentials::new("i", "s").serialize(Breaks(sx::u64()));
        match r {
            Ok(n) => sx::assert(n == 7 && !FAILED.with(|f| f.get()), 21),
            Err(e) => sx::assert(FAILED.with(|f| f.get()) && e.0 == "format", 22),
        }
        sx::reach(2);
    }
}
