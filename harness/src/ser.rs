#![allow(dead_code)]
use crate::scn::*;
use oauth1_request::serializer::Serializer;
use std::fmt::Display;

/// A user-defined serializer.
pub struct Ser(pub Vec<(String, Option<String>)>, pub Vec<bool>);
impl Ser {
    pub fn new() -> Ser {
        Ser(vec![], vec![])
    }
    fn o(&mut self, k: usize) {
        self.0.push((OAUTH[k].into(), None));
        self.1.push(false);
    }
}
impl Serializer for Ser {
    type Output = (Vec<(String, Option<String>)>, Vec<bool>);
    fn serialize_parameter<V: Display>(&mut self, k: &str, v: V) {
        self.0.push((k.into(), Some(show(v))));
        self.1.push(false);
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, k: &str, v: V) {
        self.0.push((k.into(), Some(show(v))));
        self.1.push(true);
    }
    fn serialize_oauth_callback(&mut self) {
        self.o(0)
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.o(1)
    }
    fn serialize_oauth_nonce(&mut self) {
        self.o(2)
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.o(3)
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.o(4)
    }
    fn serialize_oauth_token(&mut self) {
        self.o(5)
    }
    fn serialize_oauth_verifier(&mut self) {
        self.o(6)
    }
    fn serialize_oauth_version(&mut self) {
        self.o(7)
    }
    fn end(self) -> Self::Output {
        (self.0, self.1)
    }
}
pub fn line(o: &mut Vec<u8>, n: &[u8], v: Option<&[u8]>, e: bool) {
    o.extend(n);
    match v {
        None => o.extend(b" (oauth)"),
        Some(v) => {
            o.push(if e { b'~' } else { b'=' });
            o.extend(v);
        }
    }
    o.push(b'\n');
}
pub fn trace(x: &(Vec<(String, Option<String>)>, Vec<bool>)) -> Vec<u8> {
    let mut o = vec![];
    for (i, (n, v)) in x.0.iter().enumerate() {
        line(&mut o, n.as_bytes(), v.as_ref().map(|v| v.as_bytes()), x.1[i]);
    }
    o
}
/// The expected calls for sorted items.
pub fn expected(items: &[It]) -> Vec<u8> {
    let mut o = vec![];
    let mut k = 0;
    for i in items {
        while k < 8 && OAUTH[k].as_bytes() < i.name.as_bytes() {
            line(&mut o, OAUTH[k].as_bytes(), None, false);
            k += 1;
        }
        line(&mut o, i.name.as_bytes(), Some(i.val.as_bytes()), i.enc);
    }
    while k < 8 {
        line(&mut o, OAUTH[k].as_bytes(), None, false);
        k += 1;
    }
    o
}
