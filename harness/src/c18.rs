//! A signature method chosen at run time.
use crate::scn::*;
use crate::sx;
use either::Either;
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};

fn out<SM: SignatureMethod + Clone>(s: &Scn, sm: SM, mode: u32) -> String {
    let b = s.builder(sm);
    match mode {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        2 => b.to_query(&s.method, s.uri.clone(), &s.items()),
        3 => b.into_authorization(&s.method, &s.uri, &s.items()),
        _ => b.into_form(&s.method, &s.uri, &s.items()),
    }
}
fn same(a: &[u8], b: &[u8], id: u32) {
    sx::observe(a);
    sx::eq(a, b, id);
    sx::reach(1);
}
fn any() -> Scn {
    Scn::any()
}
/// Built-in methods.
/// bounds: any single part of the request arbitrary text, every combination of optional parts, arbitrary parameter names; both alternatives, nested choices
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c18_builtin(_t: u32) {
    sx::arm_env(true, true);
    let s = if sx::flag() { any() } else { Scn::many(0) };
    let mode = sx::choose(3);
    let (h, p) = (oauth::HMAC_SHA1, oauth::PLAINTEXT);
    let (x, y) = match sx::choose(6) {
        0 => (out(&s, Either::<_, oauth::signature_method::Plaintext>::Left(h), mode), out(&s, h, mode)),
        1 => (out(&s, Either::<oauth::signature_method::HmacSha1, _>::Right(p), mode), out(&s, p, mode)),
        2 => (out(&s, Either::<_, oauth::signature_method::HmacSha1>::Left(p), mode), out(&s, p, mode)),
        3 => (out(&s, Either::<Rec, _>::Right(h), mode), out(&s, h, mode)),
        4 => (out(&s, Either::<Either<Rec, oauth::signature_method::Plaintext>, Rec>::Left(Either::Right(p)), mode), out(&s, p, mode)),
        _ => (out(&s, Either::<Rec, Either<oauth::signature_method::HmacSha1, Rec>>::Right(Either::Left(h)), mode), out(&s, h, mode)),
    };
    same(x.as_bytes(), y.as_bytes(), 1);
}
fn log(hooks: bool, n: bool, t: bool, tag: u8) -> Log {
    let mut l = Log::new(hooks, n, t);
    l.tag = tag;
    l
}
/// User-defined methods: output and the calls they receive.
/// bounds: all 8 kinds of method (hooks overridden or not, nonce and timestamp used or not), the other alternative of another kind; requests as in c18_builtin
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c18_custom(_t: u32) {
    sx::arm_env(true, true);
    let s = match sx::choose(3) {
        0 => Scn::combos(),
        1 => {
            let mut s = Scn::full();
            match sx::choose(6) {
                0 => s.callback = Some(sx::text()),
                1 => s.verifier = Some(sx::text()),
                2 => s.ck = sx::text(),
                3 => s.token = Some((sx::text(), sx::ascii(1))),
                4 => s.nonce = Some(sx::text()),
                _ => s.params[0].val = sx::text(),
            }
            s
        }
        _ => {
            let mut s = Scn::full();
            s.ts = Some(any_ts());
            s.method = sx::ascii(1);
            let n = sx::choose(2) as usize;
            s.cs = sx::ascii(1 - n);
            s.token = Some(("tk".into(), sx::ascii(n)));
            s
        }
    };
    let mode = sx::choose(5);
    let (a, b, c) = (sx::flag(), sx::flag(), sx::flag());
    let direct = log(a, b, c, b'0');
    let chosen = log(a, b, c, b'0');
    let other = log(!a, !b, !c, b'1');
    let d = out(&s, direct.clone(), mode);
    let e = match sx::choose(3) {
        0 => out(&s, Either::<Log, Log>::Left(chosen.clone()), mode),
        1 => out(&s, Either::<Log, Bare>::Left(chosen.clone()), mode),
        _ => out(&s, Either::<Rec, Log>::Right(chosen.clone()), mode),
    };
    sx::eq(other.take(), b"", 2);
    sx::eq(&e, &d, 3);
    same(&chosen.take(), &direct.take(), 4);
}
/// The algorithm's own interface, call by call.
/// bounds: every method of the interface, alone, with one arbitrary ASCII character; both alternatives; hooks overridden or not; all answers of use_nonce and use_timestamp
#[no_mangle]
pub extern "C" fn c18_sign(_t: u32) {
    let (h, n, t) = (sx::flag(), sx::flag(), sx::flag());
    let d = log(h, n, t, b'0');
    let e = log(h, n, t, b'0');
    let v = sx::small("a", "%");
    let tok = [None, Some("ts"), Some("")][sx::choose(3) as usize];
    let v = if tok.is_none() && sx::flag() { String::new() } else { v };
    let mut x = d.clone().sign_with(&v, tok);
    let mut y = if sx::flag() {
        Either::<Log, Rec>::Left(e.clone()).sign_with(&v, tok)
    } else {
        // the other alternative, with the result turned around
        match Either::<Rec, Log>::Right(e.clone()).sign_with(&v, tok) {
            Either::Right(r) => Either::Left(r),
            Either::Left(_) => {
                sx::assert(false, 5);
                return;
            }
        }
    };
    sx::assert(x.use_nonce() == y.use_nonce(), 6);
    sx::assert(x.use_timestamp() == y.use_timestamp(), 7);
    sx::eq(x.get_signature_method_name(), y.get_signature_method_name(), 8);
    for _ in 0..2 {
        macro_rules! both {
            ($($m:ident($($a:expr),*)),*; $k:expr) => {{
                let mut i = 0;
                let k = $k;
                $(if i == k { x.$m($($a),*); y.$m($($a),*); } i += 1;)*
                let _ = i;
            }};
        }
        both!(request_method(&v), uri(&v), parameter("k", &v), delimiter(), callback(&v), consumer_key(&v), nonce(&v),
              signature_method(), timestamp(7), token(&v), verifier(&v), version(); sx::choose(12));
    }
    let (a, b) = (x.end(), y.end());
    sx::eq(show(b), show(a), 9);
    same(&e.take(), &d.take(), 10);
}
