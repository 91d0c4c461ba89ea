//! RSA-SHA1 signatures.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::signature_method::{rsa_sha1_06 as r06, rsa_sha1_09 as r09, Sign, SignatureMethod};

#[path = "keys.rs"]
mod keys;
use keys::*;

/// Little-endian 32-bit limbs.
fn limbs(b: &[u8]) -> Vec<u32> {
    let mut v = vec![];
    let mut i = b.len();
    while i > 0 {
        let lo = i.saturating_sub(4);
        v.push(b[lo..i].iter().fold(0u32, |a, &x| a << 8 | x as u32));
        i = lo;
    }
    v
}
/// a = (2a + carry) mod n, a < n.
fn less(a: &[u32], b: &[u32]) -> bool {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
fn sub(a: &mut [u32], b: &[u32]) {
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let t = a[i] as i64 - b[i] as i64 + borrow;
        a[i] = t as u32;
        borrow = t >> 32;
    }
}
/// Montgomery product.
fn mont(a: &[u32], b: &[u32], n: &[u32], n0: u32) -> Vec<u32> {
    let k = n.len();
    let mut t = vec![0u32; k + 2];
    for i in 0..k {
        let mut c = 0u64;
        for j in 0..k {
            c += t[j] as u64 + a[j] as u64 * b[i] as u64;
            t[j] = c as u32;
            c >>= 32;
        }
        c += t[k] as u64;
        t[k] = c as u32;
        t[k + 1] = (c >> 32) as u32;
        let m = t[0].wrapping_mul(n0);
        let mut c = (t[0] as u64 + m as u64 * n[0] as u64) >> 32;
        for j in 1..k {
            c += t[j] as u64 + m as u64 * n[j] as u64;
            t[j - 1] = c as u32;
            c >>= 32;
        }
        c += t[k] as u64;
        t[k - 1] = c as u32;
        t[k] = t[k + 1].wrapping_add((c >> 32) as u32);
    }
    let mut r = t[..k].to_vec();
    if t[k] != 0 || !less(&r, n) {
        sub(&mut r, n);
    }
    r
}
/// b^65537 mod n, big-endian.
fn modpow(b: &[u8], n: &[u8]) -> Vec<u8> {
    let len = n.len();
    let n = limbs(n);
    let k = n.len();
    let mut inv = 1u32;
    for _ in 0..5 {
        inv = inv.wrapping_mul(2u32.wrapping_sub(n[0].wrapping_mul(inv)));
    }
    let n0 = inv.wrapping_neg();
    // 2^(32k) mod n by doubling from 2^(32k-1) mod n (the keys' moduli have their top bits set)
    let mut r = vec![0u32; k];
    let bits = 32 * k - n[k - 1].leading_zeros() as usize;
    r[(bits - 1) / 32] = 1 << ((bits - 1) % 32);
    for _ in bits - 1..32 * k {
        let mut c = 0;
        for x in r.iter_mut() {
            let t = *x >> 31;
            *x = *x << 1 | c;
            c = t;
        }
        if c != 0 || !less(&r, &n) {
            sub(&mut r, &n);
        }
    }
    // x -> x * 2^(32k): multiply r by itself until it is 2^(64k)... one squaring does it
    let r1 = r;
    let mut r2 = r1.clone();
    for _ in 0..32 * k {
        let mut c = 0;
        for x in r2.iter_mut() {
            let t = *x >> 31;
            *x = *x << 1 | c;
            c = t;
        }
        if c != 0 || !less(&r2, &n) {
            sub(&mut r2, &n);
        }
    }
    let base = mont(&limbs(b), &r2, &n, n0);
    let mut acc = base.clone();
    for _ in 0..16 {
        acc = mont(&acc, &acc, &n, n0);
    }
    acc = mont(&acc, &base, &n, n0);
    let mut one = vec![0u32; k];
    one[0] = 1;
    let acc = mont(&acc, &one, &n, n0);
    let mut o = vec![];
    for l in acc.iter().rev() {
        o.extend(l.to_be_bytes());
    }
    o.split_off(o.len() - len)
}
/// The one signature of the message is the number below n whose public-key operation gives the
/// encoded message (RSASSA-PKCS1-v1_5 with SHA-1, RFC 8017 sections 8.2.2 and 9.2).
fn verify(k: &Key, msg: &[u8], sig: &[u8]) {
    const INFO: [u8; 15] = [0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14];
    let mut em = vec![0xff; k.n.len()];
    let l = em.len();
    em[0] = 0;
    em[1] = 1;
    em[l - 36] = 0;
    em[l - 35..l - 20].copy_from_slice(&INFO);
    em[l - 20..].copy_from_slice(&sha1(&[msg]));
    sx::assert(sig.len() == l && sig < k.n, 10);
    sx::eq(modpow(sig, k.n), &em, 11);
}
/// Base64, decoded; whatever is not Base64 gives something that encodes differently.
fn unbase64(t: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut n = 0u32;
    let mut b = 0;
    for &c in t {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        n = n << 6 | v as u32;
        b += 6;
        if b >= 8 {
            b -= 8;
            o.push((n >> b) as u8);
        }
    }
    o
}
fn k06(k: &Key) -> r06::RsaPrivateKey {
    use r06::DecodePrivateKey;
    r06::RsaPrivateKey::from_pkcs8_der(k.der).unwrap()
}
fn k09(k: &Key) -> r09::RsaPrivateKey {
    use r09::DecodePrivateKey;
    r09::RsaPrivateKey::from_pkcs8_der(k.der).unwrap()
}
fn check<SM: SignatureMethod + Clone>(s: &Scn, k: &Key, sm: SM) {
    check_mode(s, k, sm, sx::choose(3))
}
fn check_mode<SM: SignatureMethod + Clone>(s: &Scn, k: &Key, sm: SM, mode: u32) {
    let b = s.builder(sm);
    let r = s.req("RSA-SHA1");
    let got = match mode {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
    };
    sx::observe(&got);
    let pairs = match mode {
        0 => parse_header(got.as_bytes()),
        1 => parse_form(got.as_bytes()),
        _ => parse_form(&got.as_bytes()[s.uri.len() + 1..]),
    };
    let sig = unbase64(&decode(one(&pairs, "oauth_signature").unwrap_or(b"")));
    verify(k, &r.base_string(), &sig);
    let sig = base64(&sig);
    let mut want = vec![];
    if mode == 0 {
        want = r.header_with(&sig);
    } else {
        if mode == 2 {
            want.extend(s.uri.bytes());
            want.push(b'?');
        }
        want.extend(r.form_with(&sig));
    }
    sx::eq(&got, &want, 1);
    sx::reach(1);
}
/// Both crates' keys, made ready before anything is chosen.
fn both(all: bool, scn: impl FnOnce() -> (bool, Scn)) {
    let (a, b) = (r06::RsaSha1::new(k06(&K512)), r09::RsaSha1::new(k09(&K512)));
    let (some, s) = scn();
    // (one output each where the whole would take too long)
    let mode = |d| if all || !some { sx::choose(3) } else { d };
    if sx::flag() {
        check_mode(&s, &K512, &a, mode(0));
    } else {
        check_mode(&s, &K512, &b, mode(1));
    }
}
/// Requests of every kind; the secrets play no role.
/// bounds: any single part of the request (secrets included) arbitrary text, every combination of optional parts; header, form and query; 512-bit key
/// variants: rsa
#[no_mangle]
pub extern "C" fn c21_request(t: u32) {
    both(t > 0, || match sx::choose(4) {
        0 => (true, Scn::focused_by(if t > 0 { sx::text } else { sx::short_text })),
        1 => (false, Scn::combos()),
        2 => (true, Scn::many(t)),
        _ => (true, Scn::urls()),
    });
}
/// Long parts, parameter names; thorough: two parts at a time.
/// bounds: one part of 56 to 600 bytes (thorough: 65536); arbitrary names around the oauth_* names; thorough: pairs of parts with one arbitrary ASCII character each
/// variants: rsa-rel
#[no_mangle]
pub extern "C" fn c21_more(t: u32) {
    both(t > 0, || (t == 0, match sx::choose(if t > 0 { 3 } else { 2 }) {
        0 => {
            let mut s = Scn::full();
            s.params.clear();
            s.params.push(It { name: any_name(), val: "v 1".into(), enc: false });
            s
        }
        1 if t == 0 => {
            let mut s = Scn::full();
            let mut v = "\u{20ac} ".repeat([14, 17, 150][sx::choose(3) as usize]);
            v.push_str(&sx::ascii(1));
            match sx::choose(4) {
                0 => s.ck = v,
                1 => {
                    s.uri = v;
                    no_question(&s.uri);
                }
                2 => s.token = Some((v, "ts".into())),
                _ => s.params[0].val = v,
            }
            s
        }
        1 => Scn::big(2),
        _ => Scn::pairs(),
    }));
}
/// Every way to hold a key, keys of several sizes.
/// bounds: three keys (signatures of 64, 65 and 66 bytes); by value, by reference, converted, borrowed from the key, cloned; one arbitrary ASCII character in the request
/// variants: rsa
#[no_mangle]
pub extern "C" fn c21_keys(_t: u32) {
    let k = match sx::choose(3) {
        0 => K512,
        1 => K520,
        _ => K528,
    };
    let mut s = Scn::full();
    s.params[0].val = sx::small("", "");
    macro_rules! all {
        ($m:ident, $key:ident) => {
            match sx::choose(6) {
                0 => check(&s, &k, $m::RsaSha1::new($key(&k))),
                1 => check(&s, &k, &$m::RsaSha1::new($key(&k)).clone()),
                2 => check(&s, &k, $m::RsaSha1::from($key(&k))),
                3 => {
                    let key = $key(&k);
                    let m: &$m::RsaSha1 = key.as_ref();
                    check(&s, &k, m)
                }
                4 => {
                    let key = $key(&k);
                    let m: &$m::RsaSha1 = key.as_ref();
                    check(&s, &k, m.clone())
                }
                _ => {
                    // the algorithm itself, copied half way
                    let v = sx::small("v", "");
                    let mut g = $m::RsaSha1::new($key(&k)).sign_with("x", Some("y"));
                    g.request_method(&v);
                    g.uri("u%2F");
                    g.parameter("a", &v);
                    let mut h = g.clone();
                    g.delimiter();
                    h.delimiter();
                    g.signature_method();
                    h.signature_method();
                    let mut base = enc(&v);
                    base.extend(b"&u%2F&a%3D");
                    base.extend(v.bytes());
                    base.extend(b"%26oauth_signature_method%3DRSA-SHA1");
                    let got = show(g.end());
                    sx::observe(&got);
                    let sig = unbase64(&decode(got.as_bytes()));
                    verify(&k, &base, &sig);
                    sx::eq(&got, enc(base64(&sig)), 2);
                    sx::eq(show(h.end()), &got, 3);
                    sx::reach(1);
                }
            }
        };
    }
    if sx::flag() {
        all!(r06, k06)
    } else {
        all!(r09, k09)
    }
}
/// Requests one after the other: what an earlier one held plays no role in a later one.
/// bounds: two or three requests that differ in one part (arbitrary text of up to 3 characters, longer, left out)
/// variants: rsa
#[no_mangle]
pub extern "C" fn c21_sequence(_t: u32) {
    let (a, b) = (r06::RsaSha1::new(k06(&K512)), r09::RsaSha1::new(k09(&K512)));
    let w = sx::flag();
    let x = Scn::full();
    let y = Scn { method: sx::ascii(1), cs: "other".into(), ..Scn::minimal() };
    for s in [&x, &y, &x] {
        if w {
            check_mode(s, &K512, &a, 0);
        } else {
            check_mode(s, &K512, &b, 1);
        }
    }
}
