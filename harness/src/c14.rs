//! Timestamps.
use crate::oracle::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::serializer::auth::Authorizer;
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::{Builder, Request};
use std::cell::Cell;
use std::fmt::Display;
use std::rc::Rc;

fn send<SM: SignatureMethod + Clone>(b: &Builder<'_, SM, &str, &str>, s: &Scn, mode: u32) -> String {
    match mode {
        0 => b.authorize(&s.method, &s.uri, &s.items()),
        1 => b.to_form(&s.method, &s.uri, &s.items()),
        _ => b.to_query(&s.method, s.uri.clone(), &s.items()),
    }
}
fn stamp(s: &Scn, mode: u32, got: &str) -> Vec<u8> {
    let g = got.as_bytes();
    let v = match mode {
        0 => parse_header(g),
        1 => parse_form(g),
        _ => parse_form(&g[s.uri.len() + 1..]),
    };
    let n = one(&v, "oauth_timestamp");
    sx::assert(n.is_some(), 1);
    n.unwrap().to_vec()
}
fn signed(s: &Scn, mode: u32, ts: u64, got: &str) {
    let mut s = s.clone();
    s.ts = Some(ts);
    let r = s.req("X-REC");
    match mode {
        0 => sx::eq(got, r.header(), 2),
        1 => sx::eq(got, r.form(), 3),
        _ => sx::eq(got, r.query(), 4),
    }
}
/// Decimal digits of `t` are `d`, no leading zero.
fn digits(d: &[u8], t: u64, id: u32) {
    sx::assert(!d.is_empty() && d.len() <= 20, id);
    sx::assert(d[0] != b'0', id);
    let mut v = 0u64;
    for &b in d {
        sx::assert((b >= b'0') & (b <= b'9'), id);
        v = v.wrapping_mul(10).wrapping_add((b & 15) as u64);
    }
    sx::assert(v == t, id);
}
fn scn() -> Scn {
    let mut s = Scn::minimal();
    s.ts = None;
    s
}
fn nsec() -> u64 {
    [0, 1, 499_999_999, 500_000_000, 999_999_999][sx::choose(5) as usize]
}
/// A signature method that keeps the timestamp it is given.
#[derive(Clone)]
struct Keep(Rc<Cell<u64>>, Rc<Cell<u32>>);
struct KeepSign(Keep);
impl SignatureMethod for Keep {
    type Sign = KeepSign;
    fn sign_with(self, _: &str, _: Option<&str>) -> KeepSign {
        KeepSign(self)
    }
}
impl Sign for KeepSign {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str {
        "K"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, k: &str, _: V) {
        if k == "oauth_timestamp" {
            self.0 .1.set(100);
        }
    }
    fn delimiter(&mut self) {}
    fn timestamp(&mut self, v: u64) {
        self.0 .0.set(v);
        self.0 .1.set(self.0 .1.get() + 1);
    }
    fn end(self) -> &'static str {
        "s"
    }
}
fn keep() -> Keep {
    Keep(Rc::new(Cell::new(0)), Rc::new(Cell::new(0)))
}
/// What is sent and what is given to the signature algorithm.
fn kept(s: &Scn, k: &Keep, mode: u32, ts: u64, got: &str) {
    sx::observe(got);
    sx::assert(k.1.get() == 1, 6);
    sx::assert(k.0.get() == ts, 7);
    let mut s = s.clone();
    s.ts = Some(ts);
    let mut r = s.req("K");
    r.sigmethod = "K";
    match mode {
        0 => sx::eq(got, r.header_with(b"s"), 2),
        1 => sx::eq(got, r.form_with(b"s"), 3),
        _ => {
            let mut w = format!("{}?", s.uri).into_bytes();
            w.extend(r.form_with(b"s"));
            sx::eq(got, w, 4)
        }
    }
}
/// Clock readings near the epoch and present-day ones, digit by digit.
/// bounds: 256 readings from -128 on, 256 from 1_700_000_000 on and 256 around each of 2^31 and 2^32, 3 output modes
#[no_mangle]
pub extern "C" fn c14_digits(_t: u32) {
    sx::arm_env(true, true);
    let b = sx::u8() as u64;
    let base = [0, 1_700_000_128, 1 << 31, 1 << 32][sx::choose(4) as usize];
    let c = b.wrapping_add(base).wrapping_sub(128);
    sx::set_clock_ns(c, 0, nsec());
    let want = if (c as i64) > 0 { c } else { 1 };
    let s = scn();
    let mode = sx::choose(3);
    let got = send(&s.builder(Rec), &s, mode);
    digits(&stamp(&s, mode, &got), want, 5);
    sx::reach(1);
}
/// The clock is read anew for each authorization.
/// bounds: two readings apart by 0 to 255 seconds forward or backward, one builder, 3 output modes
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c14_again(_t: u32) {
    sx::arm_env(true, true);
    let s = scn();
    let mut b = s.builder(Rec);
    let mode = sx::choose(3);
    let d = sx::u8() as u64;
    sx::set_clock(1_700_000_000, 0);
    signed(&s, mode, 1_700_000_000, &send(&b, &s, mode));
    if sx::flag() {
        b.timestamp(std::num::NonZeroU64::new(5).unwrap());
        signed(&s, mode, 5, &send(&b, &s, mode));
        b.timestamp(None);
    }
    let c = if sx::flag() { 1_700_000_000 + d } else { 1_700_000_000 - d };
    sx::set_clock(c, 0);
    let got = send(&b, &s, mode);
    sx::observe(&got);
    signed(&s, mode, c, &got);
    sx::reach(1);
}
/// Timestamps given by the caller, digit by digit.
/// bounds: 256 values at each of 0, 2^32, 2^63 and below 2^64
#[no_mangle]
pub extern "C" fn c14_given_digits(_t: u32) {
    sx::arm_env(true, true);
    let mut s = scn();
    let t = (sx::u8() as u64).wrapping_add([0, 1 << 32, 1 << 63, u64::MAX - 255][sx::choose(4) as usize]);
    sx::assume(t != 0);
    s.ts = Some(t);
    let got = oauth::Builder::clone(&s.builder(oauth::PLAINTEXT)).authorize(&s.method, &s.uri, &());
    digits(&stamp(&s, 0, &got), t, 5);
    sx::reach(1);
}
/// Every clock reading.
/// bounds: all 2^64 values of the seconds (before and after the epoch), five values of the nanoseconds
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c14_clock(_t: u32) {
    sx::arm_env(true, true);
    let c = sx::u64();
    sx::set_clock_ns(c, 0, nsec());
    let want = if (c as i64) > 0 { c } else { 1 };
    let s = scn();
    let k = keep();
    let got = s.builder(k.clone()).authorize(&s.method, &s.uri, &());
    kept(&s, &k, 0, want, &got);
    sx::reach(1);
}
/// Timestamps given by the caller, whatever the clock says.
/// bounds: every non-zero 64-bit value (compared with the same decimal conversion), header, form, query and the low-level serializer
/// variants: dbg rel alloc
#[no_mangle]
pub extern "C" fn c14_given(_t: u32) {
    sx::arm_env(true, true);
    sx::set_clock(sx::choose(2) as u64 * 1_700_000_000, 0);
    let mut s = scn();
    let t = sx::u64();
    sx::assume(t != 0);
    s.ts = Some(t);
    let mode = sx::choose(4);
    let k = keep();
    let got = if mode == 3 {
        let o = s.options();
        s.items().serialize(Authorizer::authorization(&*s.method, &s.uri, s.client(), s.tok(), &o, k.clone()))
    } else {
        send(&s.builder(k.clone()), &s, mode)
    };
    kept(&s, &k, mode % 3, t, &got);
    sx::reach(1);
}
