//! What RFC 5849 prescribes, written from the RFC, independently of the crate under test.
#![allow(dead_code)]
use crate::sx;

const HEX: &[u8; 16] = b"0123456789ABCDEF";

pub fn enc_into(o: &mut Vec<u8>, s: &[u8]) {
    for &b in s {
        if sx::is_unreserved(b) {
            o.push(b);
        } else {
            o.push(b'%');
            o.push(HEX[(b >> 4) as usize]);
            o.push(HEX[(b & 15) as usize]);
        }
    }
}
pub fn enc(s: impl AsRef<[u8]>) -> Vec<u8> {
    let mut o = vec![];
    enc_into(&mut o, s.as_ref());
    o
}

pub fn sha1_hmac(key: &[u8], msg: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = [0u8; 64];
    let mut o = [0u8; 64];
    for n in 0..64 {
        i[n] = k[n] ^ 0x36;
        o[n] = k[n] ^ 0x5c;
    }
    let inner = sha1(&[&i, msg]);
    sha1(&[&o, &inner])
}
pub fn sha1(parts: &[&[u8]]) -> [u8; 20] {
    let mut m: Vec<u8> = parts.concat();
    let bits = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(bits.to_be_bytes());
    let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    sx::sha1_compress(&mut st, &m);
    let mut out = [0; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&st[i].to_be_bytes());
    }
    out
}
pub fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        o.push(A[(n >> 18) as usize & 63]);
        o.push(A[(n >> 12) as usize & 63]);
        o.push(if c.len() > 1 { A[(n >> 6) as usize & 63] } else { b'=' });
        o.push(if c.len() > 2 { A[n as usize & 63] } else { b'=' });
    }
    o
}

/// A parameter as it appears on the wire: name, percent-encoded value.
#[derive(Clone, Debug)]
pub struct P {
    pub name: Vec<u8>,
    pub val: Vec<u8>,
}
pub fn p(name: impl AsRef<[u8]>, raw: impl AsRef<[u8]>) -> P {
    P { name: name.as_ref().to_vec(), val: enc(raw) }
}
pub fn pe(name: impl AsRef<[u8]>, encoded: impl AsRef<[u8]>) -> P {
    P { name: name.as_ref().to_vec(), val: encoded.as_ref().to_vec() }
}

/// Everything that determines one signed request.
#[derive(Clone, Default)]
pub struct Req<'a> {
    pub method: &'a str,
    pub uri: &'a str,
    pub ck: &'a str,
    pub cs: &'a str,
    pub token: Option<(&'a str, &'a str)>,
    pub callback: Option<&'a str>,
    pub verifier: Option<&'a str>,
    pub nonce: Option<&'a str>,
    pub timestamp: Option<String>,
    pub version: bool,
    pub sigmethod: &'a str,
    pub params: Vec<P>,
}

impl<'a> Req<'a> {
    /// The oauth_* parameters, in ascending order of names, without the signature.
    pub fn oauth(&self) -> Vec<P> {
        let mut v = vec![];
        if let Some(c) = self.callback {
            v.push(p("oauth_callback", c));
        }
        v.push(p("oauth_consumer_key", self.ck));
        if let Some(n) = self.nonce {
            v.push(p("oauth_nonce", n));
        }
        v.push(p("oauth_signature_method", self.sigmethod));
        if let Some(t) = &self.timestamp {
            v.push(p("oauth_timestamp", t));
        }
        if let Some((t, _)) = self.token {
            v.push(p("oauth_token", t));
        }
        if let Some(x) = self.verifier {
            v.push(p("oauth_verifier", x));
        }
        if self.version {
            v.push(p("oauth_version", "1.0"));
        }
        v
    }
    /// All parameters, ordered by name and then by encoded value (RFC 5849 section 3.4.1.3.2).
    pub fn all_sorted(&self) -> Vec<P> {
        let mut v = self.params.clone();
        v.extend(self.oauth());
        // insertion sort: few elements, comparisons mostly concrete
        for i in 1..v.len() {
            let mut j = i;
            while j > 0 && (&v[j].name, &v[j].val) < (&v[j - 1].name, &v[j - 1].val) {
                v.swap(j, j - 1);
                j -= 1;
            }
        }
        v
    }
    pub fn base_string(&self) -> Vec<u8> {
        let mut o = vec![];
        enc_into(&mut o, self.method.as_bytes());
        o.push(b'&');
        enc_into(&mut o, self.uri.as_bytes());
        o.push(b'&');
        let norm = urlencoded(&self.all_sorted());
        enc_into(&mut o, &norm);
        o
    }
    pub fn key(&self) -> Vec<u8> {
        let mut k = enc(self.cs);
        k.push(b'&');
        if let Some((_, ts)) = self.token {
            k.extend(enc(ts));
        }
        k
    }
    /// The signature a verifier computes (decoded).
    pub fn signature(&self) -> Vec<u8> {
        match self.sigmethod {
            "PLAINTEXT" => self.key(),
            "HMAC-SHA1" => base64(&sha1_hmac(&self.key(), &self.base_string())),
            "X-REC" => self.base_string(),
            _ => panic!(),
        }
    }
    pub fn header(&self) -> Vec<u8> {
        self.header_with(&self.signature())
    }
    pub fn header_with(&self, sig: &[u8]) -> Vec<u8> {
        let mut o = b"OAuth ".to_vec();
        for x in self.oauth() {
            o.extend(&x.name);
            o.extend(b"=\"");
            o.extend(&x.val);
            o.extend(b"\",");
        }
        o.extend(b"oauth_signature=\"");
        enc_into(&mut o, sig);
        o.push(b'"');
        o
    }
    pub fn form(&self) -> Vec<u8> {
        self.form_with(&self.signature())
    }
    pub fn form_with(&self, sig: &[u8]) -> Vec<u8> {
        let mut v = self.all_sorted();
        v.push(p("oauth_signature", sig));
        urlencoded(&v)
    }
    pub fn query(&self) -> Vec<u8> {
        let mut o = self.uri.as_bytes().to_vec();
        o.push(b'?');
        o.extend(self.form());
        o
    }
}
pub fn urlencoded(v: &[P]) -> Vec<u8> {
    let mut o = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(b'&');
        }
        o.extend(&x.name);
        o.push(b'=');
        o.extend(&x.val);
    }
    o
}

pub fn decode(s: &[u8]) -> Vec<u8> {
    fn hex(b: u8) -> u8 {
        // upper case only
        let d = b.wrapping_sub(b'0');
        let a = b.wrapping_sub(b'A');
        let ok = (d < 10) | (a < 6);
        sx::assert(ok, 901);
        if d < 10 {
            d
        } else {
            a.wrapping_add(10)
        }
    }
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            sx::assert(i + 2 < s.len(), 902);
            o.push(hex(s[i + 1]) << 4 | hex(s[i + 2]));
            i += 3;
        } else {
            sx::assert(sx::is_unreserved(s[i]), 903);
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
pub fn split(s: &[u8], at: u8) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut b = 0;
    for i in 0..s.len() {
        if s[i] == at {
            v.push(&s[b..i]);
            b = i + 1;
        }
    }
    v.push(&s[b..]);
    v
}
/// The name=value pairs of an Authorization header, values still encoded.
pub fn parse_header(h: &[u8]) -> Vec<P> {
    sx::assert(h.len() > 6 && &h[..6] == b"OAuth ", 904);
    let mut v = vec![];
    for part in split(&h[6..], b',') {
        // an item without `=` or quotes is malformed
        let e = part.iter().position(|&b| b == b'=');
        sx::assert(e.is_some(), 905);
        let e = e.unwrap();
        let val = &part[e + 1..];
        sx::assert(val.len() >= 2 && val[0] == b'"' && val[val.len() - 1] == b'"', 906);
        v.push(P { name: part[..e].to_vec(), val: val[1..val.len() - 1].to_vec() });
    }
    v
}
/// The name=value pairs of a form body or query string, values still encoded.
pub fn parse_form(h: &[u8]) -> Vec<P> {
    let mut v = vec![];
    for part in split(h, b'&') {
        let e = part.iter().position(|&b| b == b'=');
        sx::assert(e.is_some(), 907);
        let e = e.unwrap();
        v.push(P { name: part[..e].to_vec(), val: part[e + 1..].to_vec() });
    }
    v
}
/// The one value with that name.
pub fn one<'a>(v: &'a [P], name: &str) -> Option<&'a [u8]> {
    let mut r = None;
    for x in v {
        if x.name == name.as_bytes() {
            sx::assert(r.is_none(), 908);
            r = Some(&*x.val);
        }
    }
    r
}
pub fn sort(v: &mut [P]) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && (&v[j].name, &v[j].val) < (&v[j - 1].name, &v[j - 1].val) {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
}
/// Base string from encoded pairs, as a verifier builds it.
pub fn base_of(method: &str, uri: &str, mut v: Vec<P>) -> Vec<u8> {
    sort(&mut v);
    let mut o = enc(method);
    o.push(b'&');
    o.extend(enc(uri));
    o.push(b'&');
    o.extend(enc(urlencoded(&v)));
    o
}
pub fn key_of(cs: &str, ts: Option<&str>) -> Vec<u8> {
    let mut k = enc(cs);
    k.push(b'&');
    if let Some(t) = ts {
        k.extend(enc(t));
    }
    k
}
