//! Signed form bodies and queries.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::signature_method::SignatureMethod;

fn check<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, name: &str) {
    let b = s.builder(sm);
    let want = s.req(name);
    if sx::flag() {
        let got = b.to_form(&s.method, &s.uri, &s.items());
        sx::observe(&got);
        sx::eq(&got, want.form(), 1);
    } else {
        let got = b.to_query(&s.method, s.uri.clone(), &s.items());
        sx::observe(&got);
        sx::eq(&got, want.query(), 2);
    }
    sx::reach(1);
}
fn any() -> Scn {
    Scn::any()
}
/// Form and query under HMAC-SHA1.
/// bounds: any single part of the request arbitrary text of the shapes in sx::text, any two parts one arbitrary ASCII character each, every combination of optional parts with 7 parameter lists, arbitrary parameter names around the oauth_* names, 14 kinds of URI and method
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c05_hmac(_t: u32) {
    sx::arm_env(true, true);
    check(&any(), oauth::HMAC_SHA1, "HMAC-SHA1");
}
/// Form and query under PLAINTEXT.
/// bounds: as c05_hmac
#[no_mangle]
pub extern "C" fn c05_plaintext(_t: u32) {
    sx::arm_env(true, true);
    check(&any(), oauth::PLAINTEXT, "PLAINTEXT");
}
/// Parameter lists (values always encoded by the crate).
/// bounds: up to 2 (thorough: 3) parameters, names one arbitrary unreserved character or fixed, values up to 1 arbitrary ASCII character
#[no_mangle]
pub extern "C" fn c05_list(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::full();
    s.params.clear();
    for _ in 0..sx::choose(3 + t) {
        let name = match sx::choose(3) {
            0 => sx::unreserved(1),
            1 => "p".to_string(),
            _ => "oauth_b".to_string(),
        };
        let n = sx::choose(2) as usize;
        s.params.push(It { name, val: sx::ascii(n), enc: false });
    }
    let l: Vec<(String, String)> = s.params.iter().map(|i| (i.name.clone(), i.val.clone())).collect();
    let l = oauth::ParameterList::new(l);
    let b = s.builder(Rec);
    let r = s.req("X-REC");
    if sx::flag() {
        let got = b.to_form(&s.method, &s.uri, &l);
        sx::observe(&got);
        sx::eq(&got, r.form(), 3);
    } else {
        let got = b.to_query(&s.method, s.uri.clone(), &l);
        sx::observe(&got);
        sx::eq(&got, r.query(), 4);
    }
    sx::reach(1);
}
/// Long values and many parameters.
/// bounds: one part of 7 to 4096 (thorough: 65536) fixed bytes with one arbitrary ASCII character, or up to 260 (thorough: 1030) parameters
#[no_mangle]
pub extern "C" fn c05_long(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::big(1 + t);
    if sx::flag() {
        s.token = None;
    }
    check(&s, oauth::HMAC_SHA1, "HMAC-SHA1");
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c05_sequence(_t: u32) {
    sx::arm_env(true, true);
    for s in Scn::sequence() {
        check(&s, oauth::HMAC_SHA1, "HMAC-SHA1");
    }
}
