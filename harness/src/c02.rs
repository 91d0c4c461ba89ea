//! HMAC-SHA1 signatures.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};

fn run(cs: &str, ts: Option<&str>) {
    let mut g = oauth::HMAC_SHA1.sign_with(cs, ts);
    g.request_method("GET");
    g.uri("u");
    g.parameter("a", "b");
    let got = show(g.end());
    sx::observe(&got);
    let want = enc(base64(&sha1_hmac(&key_of(cs, ts), b"GET&u&a%3Db")));
    sx::eq(&got, &want, 1);
    sx::reach(1);
}
fn fill(n: usize, at: usize) -> String {
    let mut v = vec![b'k'; n];
    if at < n {
        let b = sx::u8();
        sx::assume(b < 0x80);
        v[at] = b;
    }
    sx::raw(v)
}
/// Every key length around the block size, with an arbitrary character at an edge.
/// bounds: client secrets of every length up to 69 (thorough: 139), one arbitrary ASCII character at either end or none; no token, empty or fixed token secret
#[no_mangle]
pub extern "C" fn c02_len(t: u32) {
    sx::arm_env(true, true);
    let max = if t > 0 { 140 } else { 70 };
    let n = sx::choose(max) as usize;
    let at = match sx::choose(3) {
        0 => 0,
        1 => n.wrapping_sub(1),
        _ => usize::MAX,
    };
    let cs = fill(n, at);
    match sx::choose(3) {
        0 => run(&cs, None),
        1 => run(&cs, Some("")),
        _ => run(&cs, Some("tt%")),
    }
}
/// The same for the token secret.
/// bounds: token secrets of every length up to 69 (thorough: 139) with one arbitrary ASCII character at either end, client secret empty, short or 57 (thorough: 0 to 65) long
#[no_mangle]
pub extern "C" fn c02_token_len(t: u32) {
    sx::arm_env(true, true);
    let max = if t > 0 { 140 } else { 70 };
    let n = sx::choose(max) as usize;
    let cs = match sx::choose(3) {
        0 => String::new(),
        1 => "c\u{e9}".into(),
        _ => "k".repeat(if t > 0 { sx::choose(66) as usize } else { 57 }),
    };
    let ts = fill(n, if sx::flag() { 0 } else { n.wrapping_sub(1) });
    run(&cs, Some(&ts));
}
/// Both secrets arbitrary text of several shapes.
/// bounds: secrets of the shapes in sx::text, also at each of 16 offsets around the block boundary
#[no_mangle]
pub extern "C" fn c02_text(_t: u32) {
    sx::arm_env(true, true);
    let cs = sx::text();
    match sx::choose(3) {
        0 => run(&cs, None),
        1 => run(&cs, Some(&sx::text())),
        _ => {
            // escapes straddling the block boundary
            let n = 50 + sx::choose(16) as usize;
            let mut v = "s".repeat(n);
            v.push_str(&cs);
            run("x", Some(&v));
        }
    }
}
/// The signature text for every digest.
/// bounds: every value of each 3-byte group of the digest (SHA-1's output taken as arbitrary)
/// random-replay: 500
#[no_mangle]
pub extern "C" fn c02_digest(_t: u32) {
    sx::arm_env(true, true);
    let w = sx::choose(7);
    sx::digest_syms(3 * w, if w == 6 { 20 } else { 3 * w + 3 });
    // varied when a digest found by the solver is looked for natively
    let n = [sx::u8(), sx::u8()].iter().map(|b| (b'a' + (b >> 4)) as char).collect::<String>();
    let mut g = oauth::HMAC_SHA1.sign_with("c", Some("t"));
    g.request_method("GET");
    g.uri("u");
    g.parameter("a", &n);
    let got = show(g.end());
    let d = sha1_hmac(&key_of("c", Some("t")), format!("GET&u&a%3D{}", n).as_bytes());
    sx::eq(&got, enc(base64(&d)), 2);
    sx::reach(1);
}
/// Whole requests.
/// bounds: every combination of optional parts, pairs of parts with one arbitrary ASCII character, one part of 7 to 4096 (thorough: 65536) bytes, up to 260 (thorough: 1030) parameters; short and 72-byte client secrets
#[no_mangle]
pub extern "C" fn c02_request(t: u32) {
    sx::arm_env(true, true);
    let mut s = match sx::choose(3) {
        0 => Scn::combos(),
        1 => Scn::pairs(),
        _ => Scn::big(1 + t),
    };
    if sx::flag() {
        s.cs = "secret".repeat(12);
    }
    request(&s);
}
fn request(s: &Scn) {
    let b = s.builder(oauth::HmacSha1::new());
    let got = b.authorize(&s.method, &s.uri, &s.items());
    sx::observe(&got);
    let p = parse_header(got.as_bytes());
    sx::eq(one(&p, "oauth_signature").unwrap_or(b"none"), enc(s.req("HMAC-SHA1").signature()), 3);
    sx::eq(one(&p, "oauth_signature_method").unwrap_or(b"none"), "HMAC-SHA1", 4);
    sx::reach(1);
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
#[no_mangle]
pub extern "C" fn c02_sequence(_t: u32) {
    sx::arm_env(true, true);
    for s in Scn::sequence() {
        run(&s.cs, s.token.as_ref().map(|t| &*t.1));
        request(&s);
    }
}
