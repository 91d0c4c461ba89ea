//! Authorization header.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;

/// Checks the header by what it contains, not by the order of its optional parts.
fn check(s: &Scn, sm: &str, h: &[u8]) {
    sx::observe(h);
    let pairs = parse_header(h);
    let req = s.req(sm);
    let mut want = req.oauth();
    want.push(p("oauth_signature", req.signature()));
    sx::assert(pairs.len() == want.len(), 1);
    for w in &want {
        let name = std::str::from_utf8(&w.name).unwrap();
        let v = one(&pairs, name);
        sx::assert(v.is_some(), 2);
        let v = v.unwrap();
        // decodes to the supplied string; decode() insists on unreserved or %XX
        sx::eq(decode(v), decode(&w.val), 3);
        sx::eq(v, &w.val, 4);
    }
    sx::eq(&pairs[pairs.len() - 1].name, "oauth_signature", 5);
    sx::reach(1);
}
/// Header under HMAC-SHA1 for any single part of the request arbitrary, any two parts, and every combination of optional parts.
/// bounds: texts of the shapes in sx::text; two parts with one arbitrary ASCII character each; 16 combinations of token, callback, verifier, version
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c04_hmac(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::any();
    let h = s.builder(oauth::HMAC_SHA1).authorize(&s.method, &s.uri, &s.items());
    check(&s, "HMAC-SHA1", h.as_bytes());
}
/// Header under PLAINTEXT.
/// bounds: as c04_hmac
#[no_mangle]
pub extern "C" fn c04_plaintext(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::any();
    let h = s.builder(oauth::PLAINTEXT).authorize(&s.method, &s.uri, &s.items());
    check(&s, "PLAINTEXT", h.as_bytes());
}
/// Long values.
/// bounds: one part (names and values encoded beforehand included) of 7 to 4096 (thorough: 65536) fixed bytes with one arbitrary ASCII character, or up to 260 (thorough: 1030) parameters
#[no_mangle]
pub extern "C" fn c04_long(t: u32) {
    sx::arm_env(true, true);
    let s = Scn::big(1 + t);
    let h = s.builder(oauth::HMAC_SHA1).authorize(&s.method, &s.uri, &s.items());
    check(&s, "HMAC-SHA1", h.as_bytes());
}
/// Longer arbitrary text in each transmitted value.
/// bounds: 3 (thorough: 4) arbitrary ASCII characters, or 2 arbitrary characters
#[no_mangle]
pub extern "C" fn c04_deep(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let x = if sx::flag() { sx::ascii(3 + t as usize) } else { sx::any_chars(2) };
    match sx::choose(5) {
        0 => s.ck = x,
        1 => s.token.as_mut().unwrap().0 = x,
        2 => s.callback = Some(x),
        3 => s.verifier = Some(x),
        _ => s.nonce = Some(x),
    }
    let h = s.builder(oauth::HMAC_SHA1).authorize(&s.method, &s.uri, &s.items());
    check(&s, "HMAC-SHA1", h.as_bytes());
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c04_sequence(_t: u32) {
    sx::arm_env(true, true);
    let p = sx::flag();
    for s in Scn::sequence() {
        if p {
            let h = s.builder(oauth::PLAINTEXT).authorize(&s.method, &s.uri, &s.items());
            check(&s, "PLAINTEXT", h.as_bytes());
        } else {
            let h = s.builder(oauth::HMAC_SHA1).authorize(&s.method, &s.uri, &s.items());
            check(&s, "HMAC-SHA1", h.as_bytes());
        }
    }
}
