//! Conversions of credentials and tokens.
use crate::sx;
use oauth1_request as oauth;
use oauth::{Credentials, Token};
use std::borrow::Cow;
use std::cell::RefCell;
use std::rc::Rc;

/// Text that knows how it was mapped.
#[derive(Clone, Debug)]
struct Txt(String, u32);
impl AsRef<str> for Txt {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
fn t(k: u32) -> String {
    // four different lengths and an arbitrary character, so that no two parts can be confused
    let mut s = ["c", "cs", "tok", "toks"][k as usize].to_string();
    s.push_str(&sx::any_chars(1));
    s
}
fn creds<T: AsRef<str>>(c: &Credentials<T>, i: &str, s: &str) {
    sx::eq(c.identifier(), i, 1);
    sx::eq(c.secret(), s, 2);
    sx::eq(c.identifier.as_ref(), i, 3);
    sx::eq(c.secret.as_ref(), s, 4);
    let r = c.as_ref();
    sx::eq(r.identifier, i, 5);
    sx::eq(r.secret, s, 6);
    let r: Credentials<&str> = c.into();
    sx::eq(r.identifier, i, 7);
    sx::eq(r.secret, s, 8);
}
fn token<C: AsRef<str>, T: AsRef<str>>(k: &Token<C, T>, p: &[String; 4]) {
    creds(&k.client, &p[0], &p[1]);
    creds(&k.token, &p[2], &p[3]);
    creds(&k.client(), &p[0], &p[1]);
    creds(&k.token(), &p[2], &p[3]);
    let r = k.as_ref();
    creds(&r.client, &p[0], &p[1]);
    creds(&r.token, &p[2], &p[3]);
    let r: Token<&str> = k.into();
    creds(&r.client, &p[0], &p[1]);
    creds(&r.token, &p[2], &p[3]);
}
/// Credentials: constructors, accessors, references, maps.
/// bounds: every part fixed text of its own followed by one arbitrary character
/// variants: dbg rel none
#[no_mangle]
pub extern "C" fn c16_credentials(_t: u32) {
    let (i, s) = (t(0), t(3));
    let c = if sx::flag() {
        Credentials::new(i.clone(), s.clone())
    } else {
        Credentials { identifier: i.clone(), secret: s.clone() }
    };
    creds(&c, &i, &s);
    creds(&c.clone(), &i, &s);
    match sx::choose(4) {
        0 => creds(&c.map(Rc::<str>::from), &i, &s),
        1 => creds(&c.map(Cow::<str>::Owned), &i, &s),
        2 => creds(&c.as_ref().map(String::from).map(Box::<str>::from), &i, &s),
        _ => {
            let calls = RefCell::new(vec![]);
            let m = c.as_ref().map(|x| {
                calls.borrow_mut().push(x.to_string());
                format!("{}!{}", x, x.len())
            });
            let v = calls.into_inner();
            sx::assert(v.len() == 2, 9);
            creds(&m, &format!("{}!{}", i, i.len()), &format!("{}!{}", s, s.len()));
            creds(&c, &i, &s);
        }
    }
    sx::reach(1);
}
/// Tokens: constructors and accessors.
/// bounds: every part fixed text of its own followed by one arbitrary character
/// variants: dbg rel none
#[no_mangle]
pub extern "C" fn c16_token(_t: u32) {
    let mut p = ["c".to_string(), "cs".into(), "tok".into(), "toks".into()];
    p[sx::choose(4) as usize] = t(sx::choose(4));
    let [a, b, c, d] = p.clone();
    match sx::choose(5) {
        0 => token(&Token::from_parts(a, b, c, d), &p),
        1 => token(&Token::new(Credentials::new(a, b), Credentials::new(&*c, &*d)), &p),
        2 => {
            let (x, y) = (Credentials::new(a, b), Credentials::new(Rc::<str>::from(c), Rc::<str>::from(d)));
            token(&Token::from_ref(&x, &y), &p)
        }
        3 => token(&Token { client: Credentials::new(&*a, &*b), token: Credentials::new(c, d) }, &p),
        _ => {
            let k = Token::from_parts(&*a, &*b, &*c, &*d);
            let k2 = k;
            token(&k.clone(), &p);
            token(&k2, &p)
        }
    }
    sx::reach(1);
}
/// Sequences of maps: each part that is to be mapped is mapped exactly once each time.
/// bounds: 3 (thorough: 5) maps out of client, token, both, identity through references; every part fixed text followed by one arbitrary character in one of them
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c16_maps(n: u32) {
    let mut p = ["c".to_string(), "cs".into(), "tok".into(), "toks".into()];
    let w = sx::choose(4);
    p[w as usize] = t(w);
    let mut k = Token::from_parts(Txt(p[0].clone(), 0), Txt(p[1].clone(), 0), Txt(p[2].clone(), 0), Txt(p[3].clone(), 0));
    let mut count = [0u32; 4];
    for i in 0..3 + 2 * n {
        let m = char::from(b'A' + i as u8);
        let mut calls = 0;
        let mut f = |x: Txt| {
            calls += 1;
            Txt(format!("{}{}", x.0, m), x.1 + 1)
        };
        let hit: &[usize] = match sx::choose(6) {
            0 => {
                k = k.map_client(&mut f);
                &[0, 1]
            }
            1 => {
                k = k.map_token(&mut f);
                &[2, 3]
            }
            2 => {
                k = k.map(&mut f);
                &[0, 1, 2, 3]
            }
            3 => {
                k.client = k.client.map(&mut f);
                &[0, 1]
            }
            4 => {
                let Token { client, token } = k;
                k = Token::new(client, token.map(&mut f));
                &[2, 3]
            }
            _ => {
                let c = [k.client.identifier.1, k.client.secret.1, k.token.identifier.1, k.token.secret.1];
                let o: Token<String> = k.as_ref().map(String::from);
                let mut it = c.iter();
                // in declaration order or not, count again below
                k = o.map(|s| Txt(s, *it.next().unwrap()));
                k.client.identifier.1 = c[0];
                k.client.secret.1 = c[1];
                k.token.identifier.1 = c[2];
                k.token.secret.1 = c[3];
                &[]
            }
        };
        sx::assert(calls == hit.len(), 10);
        for &h in hit {
            p[h].push(m);
            count[h] += 1;
        }
    }
    sx::observe(k.client.identifier.as_ref());
    token(&k, &p);
    let got = [k.client.identifier.1, k.client.secret.1, k.token.identifier.1, k.token.secret.1];
    for i in 0..4 {
        sx::assert(got[i] == count[i], 11);
    }
    sx::reach(1);
}
