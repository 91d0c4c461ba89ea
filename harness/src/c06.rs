//! A server can verify what is sent.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::serializer::Serializer;
use oauth::signature_method::SignatureMethod;

/// The verifier: knows method, URI, request parameters (for headers), secrets and what was sent.
fn verify(method: &str, uri: &str, sent: &[P], others: &[P], cs: &str, ts: Option<&str>) {
    let mut all = vec![];
    let mut sig = None;
    for x in sent {
        if x.name == b"oauth_signature" {
            sx::assert(sig.is_none(), 1);
            sig = Some(decode(&x.val));
        } else {
            // decode, then encode again as the RFC prescribes
            all.push(P { name: x.name.clone(), val: enc(decode(&x.val)) });
        }
    }
    all.extend(others.iter().cloned());
    let sm = decode(one(sent, "oauth_signature_method").unwrap_or(b"none"));
    let want = if sm == b"HMAC-SHA1" {
        base64(&sha1_hmac(&key_of(cs, ts), &base_of(method, uri, all)))
    } else if sm == b"PLAINTEXT" {
        key_of(cs, ts)
    } else {
        base_of(method, uri, all)
    };
    sx::assert(sig.is_some(), 2);
    sx::eq(sig.unwrap(), want, 3);
}
/// A server re-encodes what it decodes, so values given as already encoded have to be encoded the
/// way the RFC prescribes.
fn canonical(s: &Scn) {
    for i in &s.params {
        if i.enc {
            let e = enc(decode(i.val.as_bytes()));
            sx::assume(e.len() == i.val.len());
            for (a, b) in e.iter().zip(i.val.bytes()) {
                sx::assume(*a == b);
            }
        }
    }
}
fn send<SM: SignatureMethod + Clone>(s: &Scn, sm: SM) {
    let b = s.builder(sm);
    let ts = s.token.as_ref().map(|t| &*t.1);
    let params: Vec<P> = s.params.iter().map(It::p).collect();
    match sx::choose(3) {
        0 => {
            let h = b.authorize(&s.method, &s.uri, &s.items());
            sx::observe(&h);
            verify(&s.method, &s.uri, &parse_header(h.as_bytes()), &params, &s.cs, ts);
        }
        1 => {
            let h = b.to_form(&s.method, &s.uri, &s.items());
            sx::observe(&h);
            verify(&s.method, &s.uri, &parse_form(h.as_bytes()), &[], &s.cs, ts);
        }
        _ => {
            let h = b.to_query(&s.method, s.uri.clone(), &s.items());
            sx::observe(&h);
            let n = s.uri.len();
            sx::assert(h.len() > n, 4);
            sx::eq(&h.as_bytes()[..n], &s.uri, 5);
            sx::eq(&h.as_bytes()[n..n + 1], "?", 6);
            verify(&s.method, &s.uri, &parse_form(&h.as_bytes()[n + 1..]), &[], &s.cs, ts);
        }
    }
    sx::reach(1);
}
/// Header, form and query under HMAC-SHA1.
/// bounds: any single part of the request arbitrary text of the shapes in sx::text, any two parts one arbitrary ASCII character each, every combination of optional parts with 7 parameter lists, arbitrary names, 14 kinds of URI and method
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c06_hmac(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::any();
    canonical(&s);
    send(&s, oauth::HMAC_SHA1);
}
/// The same under PLAINTEXT.
/// bounds: as c06_hmac
#[no_mangle]
pub extern "C" fn c06_plaintext(_t: u32) {
    sx::arm_env(true, true);
    let s = Scn::any();
    canonical(&s);
    send(&s, oauth::PLAINTEXT);
}
/// Generated nonce and timestamp: what is sent is what was signed.
/// bounds: clock symbolic over 16-second ranges at 5 places (before the epoch, at it, 2001, 2038, 2106) and stepping between readings; fixed random bytes; 4 requests
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c06_generated(_t: u32) {
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    sx::arm_env(true, true);
    let base = [0u64.wrapping_sub(20), 0, 999_999_992, 2_147_483_640, 4_294_967_290][sx::choose(5) as usize];
    let b = sx::u8();
    sx::assume(b < 16);
    sx::set_clock(base.wrapping_add(b as u64), [0, 1, 86400][sx::choose(3) as usize]);
    if sx::flag() {
        s.nonce = None;
    }
    s.ts = None;
    if sx::flag() {
        send(&s, oauth::HMAC_SHA1);
    } else {
        send(&s, Rec);
    }
}
/// Lists with equal names: the server re-sorts by encoded value.
/// bounds: 2 (thorough: 3) parameters with the same or arbitrary one-character names, values one arbitrary character each
#[no_mangle]
pub extern "C" fn c06_list(t: u32) {
    sx::arm_env(true, true);
    let mut s = Scn::minimal();
    for _ in 0..2 + t {
        let name = if sx::flag() { "p".to_string() } else { sx::unreserved(1) };
        let val = if sx::flag() { sx::ascii(1) } else { sx::any_chars(1) };
        s.params.push(It { name, val, enc: false });
    }
    let l: Vec<(String, String)> = s.params.iter().map(|i| (i.name.clone(), i.val.clone())).collect();
    let l = oauth::ParameterList::new(l);
    let params: Vec<P> = s.params.iter().map(It::p).collect();
    let b = s.builder(Rec);
    if sx::flag() {
        let h = b.authorize("POST", "http://h/", &l);
        sx::observe(&h);
        verify("POST", "http://h/", &parse_header(h.as_bytes()), &params, &s.cs, None);
    } else {
        let h = b.to_form("POST", "http://h/", &l);
        sx::observe(&h);
        verify("POST", "http://h/", &parse_form(h.as_bytes()), &[], &s.cs, None);
    }
    sx::reach(1);
}
/// Longer values.
/// bounds: one part (names and values encoded beforehand included) of 7 to 4096 (thorough: 65536) fixed bytes with one arbitrary ASCII character, or up to 260 (thorough: 1030) parameters
#[no_mangle]
pub extern "C" fn c06_long(t: u32) {
    sx::arm_env(true, true);
    let s = Scn::big(1 + t);
    send(&s, oauth::HMAC_SHA1);
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c06_sequence(_t: u32) {
    sx::arm_env(true, true);
    for s in Scn::sequence() {
        send(&s, oauth::HMAC_SHA1);
    }
}
/// The calls from one place to another.
fn calls<S: Serializer>(s: &mut S, items: &[It], from: usize, to: usize) {
    let mut k = 0;
    let mut i = 0;
    for n in 0..to {
        let oauth = i == items.len() || k < 8 && OAUTH[k].as_bytes() < items[i].name.as_bytes();
        if n >= from {
            match oauth {
                true => oauth_call(k, s),
                _ if items[i].enc => s.serialize_parameter_encoded(&items[i].name, &*items[i].val),
                _ => s.serialize_parameter(&items[i].name, &*items[i].val),
            }
        }
        if oauth {
            k += 1;
        } else {
            i += 1;
        }
    }
}
fn copied<SM: SignatureMethod + Clone>(s: &Scn, t: &Scn, sm: SM, name: &str)
where
    SM::Sign: Clone,
{
    let o = s.options();
    let all = s.params.len() + 8;
    let at = sx::choose(all as u32 + 1) as usize;
    let mode = sx::choose(3);
    let want = |x: &Scn| {
        let r = x.req(name);
        match mode {
            0 => r.header(),
            1 => r.form(),
            _ => r.query(),
        }
    };
    macro_rules! both {
        ($a:expr) => {{
            let mut a = $a;
            calls(&mut a, &s.params, 0, at);
            let mut b = a.clone();
            if sx::flag() {
                // one after the other
                calls(&mut b, &t.params, at, all);
                let b = b.end();
                calls(&mut a, &s.params, at, all);
                (a.end(), b)
            } else {
                // by turns
                for i in at..all {
                    calls(&mut a, &s.params, i, i + 1);
                    calls(&mut b, &t.params, i, i + 1);
                }
                (a.end(), b.end())
            }
        }};
    }
    let (a, b) = match mode {
        0 => both!(Authorizer::authorization(&s.method, &s.uri, s.client(), s.tok(), &o, sm)),
        1 => both!(Authorizer::form(&s.method, &s.uri, s.client(), s.tok(), &o, sm)),
        _ => both!(Authorizer::query(&s.method, s.uri.clone(), s.client(), s.tok(), &o, sm)),
    };
    sx::observe(&a);
    sx::observe(&b);
    sx::eq(a, want(s), 10);
    // what had been fed before the copy was made is in it
    let n = (0..s.params.len()).filter(|&i| s.params[..i + 1].iter().zip(0..).all(|(p, j)| place(p, j) < at)).count();
    let mut t = t.clone();
    t.params[..n].clone_from_slice(&s.params[..n]);
    sx::eq(b, want(&t), 11);
    sx::reach(1);
}
/// The number of calls before the j-th parameter.
fn place(p: &It, j: usize) -> usize {
    j + OAUTH.iter().filter(|k| k.as_bytes() < p.name.as_bytes()).count()
}
/// Serializers copied half way: both go on to what was fed to each.
/// bounds: copied after any number of calls, finished one after the other or by turns; parameters before, between and after the oauth_* ones, one arbitrary ASCII character; all or no optional parts; header, form and query under three signature methods
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c06_copied(_t: u32) {
    sx::arm_env(true, true);
    let mut s = if sx::flag() { Scn::full() } else { Scn::minimal() };
    s.params = vec![it("a", "1"), ite("oauth_p", "%2F"), it("z", "2")];
    let mut t = s.clone();
    t.params[sx::choose(3) as usize].val = sx::unreserved(1);
    match sx::choose(3) {
        0 => copied(&s, &t, Rec, "X-REC"),
        1 => copied(&s, &t, oauth::HMAC_SHA1, "HMAC-SHA1"),
        _ => copied(&s, &t, oauth::PLAINTEXT, "PLAINTEXT"),
    }
}
