//! Signature base string.
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;

fn check(s: &Scn) {
    let b = s.builder(Rec);
    let got = b.authorize(&s.method, &s.uri, &s.items());
    sx::observe(&got);
    sx::eq(&got, s.req("X-REC").header(), 1);
    sx::reach(1);
}
/// The base string as a recording signature algorithm receives it.
/// bounds: any single part of the request arbitrary text of the shapes in sx::text, every combination of optional parts with 7 parameter lists, pairs of parts with one arbitrary ASCII character each, arbitrary names around the oauth_* names
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c01_rec(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::any();
    check(&s);
}
/// Long parts.
/// bounds: one part (names and values encoded beforehand included) of 7 to 4096 (thorough: 65536) fixed bytes with one arbitrary ASCII character, or up to 260 (thorough: 1030) parameters
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c01_rec_long(t: u32) {
    sx::arm_env(true, true);
    check(&Scn::big(1 + t));
}
/// The base string as HMAC-SHA1 receives it: equal digests, equal inputs.
/// bounds: as c01_rec
#[no_mangle]
pub extern "C" fn c01_hmac(t: u32) {
    sx::arm_env(true, true);
    check_hmac(&match sx::choose(5) {
        0 => Scn::focused(),
        1 => Scn::combos(),
        2 => {
            let s = Scn::pairs();
            sx::assume(t > 0 || s.cs == "cs");
            s
        }
        3 => Scn::urls(),
        _ => Scn::names(),
    });
}
/// ... with long parts and many parameters.
/// bounds: as c01_rec_long
#[no_mangle]
pub extern "C" fn c01_hmac_long(t: u32) {
    sx::arm_env(true, true);
    check_hmac(&Scn::big(t));
}
fn check_hmac(s: &Scn) {
    let b = s.builder(oauth::HMAC_SHA1);
    let got = b.authorize(&s.method, &s.uri, &s.items());
    sx::observe(&got);
    sx::eq(&got, s.req("HMAC-SHA1").header(), 1);
    sx::reach(1);
}
/// Sorted lists: several parameters with arbitrary names and values.
/// bounds: 1 or 2 (thorough: 3) parameters, names one arbitrary unreserved character or fixed, values one arbitrary ASCII character
#[no_mangle]
pub extern "C" fn c01_list(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    let n = if t > 0 { sx::choose(3) + 1 } else { sx::choose(2) + 1 };
    s.params.clear();
    for _ in 0..n {
        let name = match sx::choose(3) {
            0 => sx::unreserved(1),
            1 => "p".to_string(),
            _ => "oauth_b".to_string(),
        };
        let val = sx::ascii(1);
        s.params.push(It { name, val, enc: false });
    }
    let l: Vec<(String, String)> = s.params.iter().map(|i| (i.name.clone(), i.val.clone())).collect();
    let l = oauth::ParameterList::new(l);
    let got = s.builder(Rec).authorize(&s.method, &s.uri, &l);
    sx::observe(&got);
    sx::eq(&got, s.req("X-REC").header(), 2);
    sx::reach(1);
}
/// Signed forms and queries are signed over the same base string.
/// bounds: any single part arbitrary text of the shapes in sx::text, every combination of optional parts; form and query
#[no_mangle]
pub extern "C" fn c01_form(t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(4) {
        0 => Scn::focused(),
        1 => Scn::combos(),
        2 => Scn::urls(),
        _ => Scn::many(t),
    };
    let want = s.req("X-REC");
    if sx::flag() {
        let got = s.builder(Rec).to_form(&s.method, &s.uri, &s.items());
        sx::observe(&got);
        let p = crate::oracle::parse_form(got.as_bytes());
        sx::eq(crate::oracle::one(&p, "oauth_signature").unwrap_or(b"none"), crate::oracle::enc(want.base_string()), 3);
    } else {
        let got = s.builder(Rec).to_query(&s.method, s.uri.clone(), &s.items());
        sx::observe(&got);
        sx::assert(got.len() > s.uri.len(), 4);
        let p = crate::oracle::parse_form(&got.as_bytes()[s.uri.len() + 1..]);
        sx::eq(crate::oracle::one(&p, "oauth_signature").unwrap_or(b"none"), crate::oracle::enc(want.base_string()), 5);
    }
    sx::reach(1);
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out); recording algorithm and HMAC-SHA1
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c01_sequence(_t: u32) {
    sx::arm_env(true, true);
    let h = sx::flag();
    for s in Scn::sequence() {
        if h {
            check_hmac(&s);
        } else {
            check(&s);
        }
    }
}
