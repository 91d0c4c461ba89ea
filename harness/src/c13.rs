//! Generated nonces.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::signature_method::SignatureMethod;
use oauth::Builder;

fn send<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, s: &Scn, mode: u32) -> String {
    match mode {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
    }
}
/// The nonce as transmitted; it needs no encoding.
fn nonce_of(s: &Scn, mode: u32, got: &str) -> Vec<u8> {
    let g = got.as_bytes();
    let v = match mode {
        0 => parse_header(g),
        1 => parse_form(g),
        _ => parse_form(&g[s.uri.len() + 1..]),
    };
    let n = one(&v, "oauth_nonce");
    sx::assert(n.is_some(), 1);
    let n = n.unwrap();
    sx::assert(!n.is_empty(), 2);
    for &b in n {
        sx::assert(sx::is_unreserved(b), 3);
    }
    n.to_vec()
}
/// ... and it is the one that was signed.
fn consistent(s: &Scn, sm: &str, mode: u32, got: &str, n: &[u8]) {
    let mut s = s.clone();
    s.nonce = Some(sx::raw(n.to_vec()));
    let r = s.req(sm);
    match mode {
        0 => sx::eq(got, r.header(), 4),
        1 => sx::eq(got, r.form(), 5),
        _ => sx::eq(got, r.query(), 6),
    }
}
fn scn() -> Scn {
    let mut s = Scn::minimal();
    s.nonce = None;
    s
}
/// Every value the random source can give: the nonce is non-empty, safe, signed as sent.
/// bounds: all values of the drawn bytes, one authorization, 3 output modes
/// variants: alloc alloc-rel
#[no_mangle]
pub extern "C" fn c13_form(_t: u32) {
    sx::arm_env(false, true);
    let s = scn();
    let mode = sx::choose(3);
    let got = send(&s.builder(Rec), &s, mode);
    let n = nonce_of(&s, mode, &got);
    sx::assert(sx::ndrawn() >= 8, 7);
    consistent(&s, "X-REC", mode, &got, &n);
    sx::reach(1);
}
/// Which bits of a draw can be seen to change the nonce, from one draw and its neighbours.
fn used(b: &Builder<'_, oauth::signature_method::Plaintext, &str, &str>, s: &Scn) -> Vec<u8> {
    let at = |bit| {
        sx::arm_flip(bit);
        let d = sx::ndrawn();
        let v = nonce_of(s, 0, &send(b, s, 0));
        (v, sx::ndrawn() - d)
    };
    let base = at(None);
    let mut ret = vec![0; base.1];
    for k in 0..base.1.min(64) * 8 {
        let x = at(Some(k));
        if x.1 == base.1 && x.0 != base.0 {
            ret[k / 8] |= 1 << (k % 8);
        }
    }
    ret
}
/// Two authorizations: new randomness each time, and nonces that are equal only if all the drawn
/// bits that can be seen to matter are, which are at least 64.
/// bounds: all pairs of values of the drawn bytes, one builder used twice, copied in between or not
/// variants: alloc alloc-rel
#[no_mangle]
pub extern "C" fn c13_injective(_t: u32) {
    sx::arm_env(false, true);
    let s = scn();
    let b = s.builder(oauth::PLAINTEXT);
    let mask = used(&b, &s);
    sx::assert(mask.iter().map(|m| m.count_ones()).sum::<u32>() >= 64, 9);
    sx::arm_env(false, true);
    let d0 = sx::ndrawn();
    let n1 = nonce_of(&s, 0, &send(&b, &s, 0));
    let d1 = sx::ndrawn() - d0;
    sx::assert(d1 >= 8, 7);
    let n2 = match sx::choose(3) {
        0 => nonce_of(&s, 0, &send(&b, &s, 0)),
        1 => nonce_of(&s, 0, &send(&b.clone(), &s, 0)),
        _ => {
            let mut c = b.clone();
            c.nonce("x").nonce(None);
            nonce_of(&s, 0, &send(&c, &s, 0))
        }
    };
    let d2 = sx::ndrawn() - d0 - d1;
    sx::assert(d2 >= 8, 8);
    sx::reach(1);
    if n1.len() != n2.len() || d1 != d2 {
        return;
    }
    for i in 0..n1.len() {
        sx::assume(n1[i] == n2[i]);
    }
    for i in 0..d1 {
        let (x, y) = (sx::drawn(d0 + i), sx::drawn(d0 + d1 + i));
        if let Some(m) = mask.get(i) {
            sx::assert((x ^ y) & m == 0, 13);
        }
    }
}
/// Many authorizations: each draws, and all nonces differ.
/// bounds: one fixed sequence of random bytes; 60 (thorough: 400) authorizations over modes, copies and builders
/// variants: alloc alloc-rel
#[no_mangle]
pub extern "C" fn c13_many(t: u32) {
    sx::arm_env(true, true);
    let s = scn();
    let b = s.builder(oauth::PLAINTEXT);
    let mut all: Vec<Vec<u8>> = vec![];
    for i in 0..(if t > 0 { 400 } else { 60 }) {
        let (d, m) = (sx::ndrawn(), i % 3);
        let g = match i % 4 {
            0 | 1 => send(&b, &s, m),
            2 => send(&b.clone(), &s, m),
            _ => send(&s.builder(oauth::PLAINTEXT), &s, m),
        };
        sx::assert(sx::ndrawn() - d >= 8, 14);
        let n = nonce_of(&s, m, &g);
        sx::observe(&n);
        for o in &all {
            sx::assert(*o != n, 15);
        }
        all.push(n);
    }
    sx::reach(1);
}
/// A nonce given by the caller is used as it is and nothing random shows up.
/// bounds: arbitrary text of the shapes in sx::text, all values of the random source, 3 output modes
/// variants: alloc dbg
#[no_mangle]
pub extern "C" fn c13_given(_t: u32) {
    sx::arm_env(cfg!(feature = "std"), true);
    let mut s = scn();
    let t = sx::text();
    s.nonce = Some(t.clone());
    let mode = sx::choose(3);
    let b = s.builder(Rec);
    if sx::flag() {
        // after a generated one
        let mut c = b.clone();
        c.nonce(None);
        send(&c, &s, mode);
    }
    let got = send(&b, &s, mode);
    sx::observe(&got);
    consistent(&s, "X-REC", mode, &got, t.as_bytes());
    sx::reach(1);
}
/// With the standard library's generator: seeded by the operating system, new nonces every time.
/// bounds: one fixed seed, sequences of 40 (thorough: 300) authorizations over modes, copies and builders
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c13_std(t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(1700000000, 0);
    let s = scn();
    let b = s.builder(oauth::PLAINTEXT);
    let mode = sx::choose(3);
    let mut all: Vec<Vec<u8>> = vec![];
    for i in 0..(if t > 0 { 100 } else { 14 }) {
        for k in 0..3 {
            let g = match k {
                0 => send(&b, &s, mode),
                1 => send(&b.clone(), &s, mode),
                _ => {
                    let mut x = s.builder(oauth::PLAINTEXT);
                    if i % 2 == 0 {
                        x.nonce("a").nonce(None);
                    }
                    send(&x, &s, mode)
                }
            };
            let n = nonce_of(&s, mode, &g);
            sx::observe(&n);
            consistent(&s, "PLAINTEXT", mode, &g, &n);
            // 64 bits take 11 characters of 6; a leading zero or two may be left out
            sx::assert(n.len() >= 9, 10);
            for o in &all {
                sx::assert(*o != n, 11);
            }
            all.push(n);
        }
    }
    sx::assert(sx::ndrawn() >= 8, 12);
    sx::reach(1);
}
