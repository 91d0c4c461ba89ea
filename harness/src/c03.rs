//! PLAINTEXT signatures.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::signature_method::{Plaintext, Sign, SignatureMethod};
use std::fmt;

/// A buffer that keeps the pieces it was given and displays them one by one.
#[derive(Default, Clone)]
pub struct Chunky(Vec<String>);
impl fmt::Write for Chunky {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.into());
        Ok(())
    }
}
impl fmt::Display for Chunky {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}
/// A fixed-size buffer.
#[derive(Clone)]
pub struct Fixed([u8; 256], usize);
impl Default for Fixed {
    fn default() -> Self {
        Fixed([0; 256], 0)
    }
}
impl fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let e = self.1 + s.len();
        if e > self.0.len() {
            return Err(fmt::Error);
        }
        self.0[self.1..e].copy_from_slice(s.as_bytes());
        self.1 = e;
        Ok(())
    }
}
impl fmt::Display for Fixed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&sx::raw(self.0[..self.1].to_vec()))
    }
}

fn secrets() -> Scn {
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    match sx::choose(3) {
        0 => s.cs = sx::text(),
        1 => {
            sx::assume(s.token.is_some());
            s.token = Some(("tk".into(), sx::text()));
        }
        _ => {
            s.cs = sx::small("", "");
            if s.token.is_some() {
                s.token = Some(("tk".into(), sx::small("%", "&")));
            }
        }
    }
    s
}
fn check<SM: SignatureMethod + Clone>(s: &Scn, sm: SM) {
    let b = s.builder(sm);
    let want = s.req("PLAINTEXT").key();
    let pairs = match sx::choose(3) {
        0 => {
            let h = b.authorize(&s.method, &s.uri, &s.items());
            sx::observe(&h);
            parse_header(h.as_bytes())
        }
        1 => {
            let h = b.to_form(&s.method, &s.uri, &s.items());
            sx::observe(&h);
            parse_form(h.as_bytes())
        }
        _ => {
            let h = b.to_query(&s.method, s.uri.clone(), &s.items());
            sx::observe(&h);
            sx::assert(h.len() > s.uri.len(), 1);
            parse_form(&h.as_bytes()[s.uri.len() + 1..])
        }
    };
    let sig = one(&pairs, "oauth_signature").unwrap_or(b"none");
    sx::eq(sig, enc(&want), 2);
    sx::eq(decode(sig), &want, 3);
    sx::eq(one(&pairs, "oauth_signature_method").unwrap_or(b"none"), "PLAINTEXT", 4);
    sx::reach(1);
}
/// What a server decodes from header, form and query is the key text.
/// bounds: each secret in turn any text of the shapes in sx::text (up to 2 characters of any kind, or 8 fixed characters around one), both secrets one arbitrary ASCII character; with and without token
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c03_string(_t: u32) {
    sx::arm_env(true, true);
    check(&secrets(), oauth::PLAINTEXT);
}
/// The same with a user-supplied buffer that keeps pieces apart.
/// bounds: as c03_string
#[no_mangle]
pub extern "C" fn c03_chunky(_t: u32) {
    sx::arm_env(true, true);
    check(&secrets(), Plaintext::<Chunky>::with_buf());
}
/// The same with a fixed-size buffer.
/// bounds: as c03_string
#[no_mangle]
pub extern "C" fn c03_fixed(_t: u32) {
    sx::arm_env(true, true);
    check(&secrets(), Plaintext::<Fixed>::default());
}
/// Long secrets.
/// bounds: one secret of 7 to 4096 (thorough: 65536) fixed bytes with one arbitrary ASCII character near its end
#[no_mangle]
pub extern "C" fn c03_long(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    if sx::flag() {
        s.cs = sx::long_text(1 + t);
    } else {
        s.token = Some(("tk".into(), sx::long_text(1 + t)));
    }
    check(&s, oauth::PLAINTEXT);
}
/// The signature does not depend on what is fed to the algorithm.
/// bounds: secrets of one arbitrary ASCII character, with and without token
#[no_mangle]
pub extern "C" fn c03_sign(_t: u32) {
    sx::arm_env(true, true);
    let cs = sx::small("", "x");
    let ts = if sx::flag() { Some(sx::small("y", "")) } else { None };
    let mut g = oauth::PLAINTEXT.sign_with(&cs, ts.as_deref());
    sx::eq(g.get_signature_method_name(), "PLAINTEXT", 5);
    if sx::flag() {
        g.request_method("POST");
        g.uri("u%2F");
        g.parameter("a", "b");
        g.delimiter();
        g.consumer_key("k");
        g.delimiter();
        g.nonce("n");
        g.delimiter();
        g.signature_method();
        g.delimiter();
        g.timestamp(3);
        g.delimiter();
        g.version();
    }
    sx::assert(g.use_nonce() && g.use_timestamp(), 7);
    let got = show(g.end());
    sx::observe(&got);
    sx::eq(got, enc(key_of(&cs, ts.as_deref())), 6);
    sx::reach(1);
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c03_sequence(_t: u32) {
    sx::arm_env(true, true);
    for s in Scn::sequence() {
        check(&s, oauth::PLAINTEXT);
    }
}
