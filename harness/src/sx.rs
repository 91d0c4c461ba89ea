//! Symbolic inputs and assertions.
#![allow(dead_code)]
use std::fmt;

mod ffi {
    extern "C" {
        pub fn rsx_u8() -> u8;
        pub fn rsx_u64() -> u64;
        pub fn rsx_bytes(p: *mut u8, n: usize);
        pub fn rsx_choose(n: u32) -> u32;
        pub fn rsx_assume(c: u8);
        pub fn rsx_assert(c: u8, id: u32);
        pub fn rsx_assert_eq(a: *const u8, na: usize, b: *const u8, nb: usize, id: u32);
        pub fn rsx_expect_panic(n: u32);
        pub fn rsx_panicked();
        pub fn rsx_observe(p: *const u8, n: usize);
        pub fn rsx_reach(id: u32);
        pub fn rsx_digest_syms(a: u32, b: u32);
        pub fn rsx_arm_env(n: u32);
        pub fn rsx_native() -> u32;
        pub fn rsx_ndrawn() -> u32;
        pub fn rsx_drawn(i: u32) -> u8;
        pub fn rsx_nclock() -> u32;
        pub fn rsx_set_clock(base: u64, step: u64, nsec: u64);
        pub fn rsx_concrete(v: u64) -> u64;
        pub fn rsx_sha1_compress(st: *mut u32, p: *const u8, n: usize);
    }
}

pub fn u8() -> u8 {
    unsafe { ffi::rsx_u8() }
}
pub fn u64() -> u64 {
    unsafe { ffi::rsx_u64() }
}
/// One of `0..n`, every value explored.
pub fn choose(n: u32) -> u32 {
    unsafe { ffi::rsx_choose(n) }
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { ffi::rsx_assume(c as u8) }
}
pub fn assert(c: bool, id: u32) {
    unsafe { ffi::rsx_assert(c as u8, id) }
}
pub fn eq(got: impl AsRef<[u8]>, want: impl AsRef<[u8]>, id: u32) {
    let (a, b) = (got.as_ref(), want.as_ref());
    unsafe { ffi::rsx_assert_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), id) }
}
pub fn observe(b: impl AsRef<[u8]>) {
    let b = b.as_ref();
    unsafe { ffi::rsx_observe(b.as_ptr(), b.len()) }
}
pub fn reach(id: u32) {
    unsafe { ffi::rsx_reach(id) }
}
/// From here on a panic is the right outcome of this path.
pub fn expect_panic(on: bool) {
    unsafe { ffi::rsx_expect_panic(on as u32) }
}
pub fn digest_syms(a: u32, b: u32) {
    unsafe { ffi::rsx_digest_syms(a, b) }
}
/// From here on random bytes and clock readings are inputs: symbolic, or fixed where asked.
pub fn arm_env(fixed_random: bool, fixed_clock: bool) {
    unsafe { ffi::rsx_arm_env(1 | (fixed_random as u32) << 1 | (fixed_clock as u32) << 2) }
}
/// From here on the random bytes are fixed, starting over, but for one bit that is inverted.
pub fn arm_flip(bit: Option<usize>) {
    unsafe { ffi::rsx_arm_env(7 | (bit.map_or(0, |k| k as u32 + 1) << 8)) }
}
/// Random bytes drawn from the operating system so far.
pub fn ndrawn() -> usize {
    unsafe { ffi::rsx_ndrawn() as usize }
}
pub fn drawn(i: usize) -> u8 {
    unsafe { ffi::rsx_drawn(i as u32) }
}
/// Clock readings so far.
pub fn nclock() -> usize {
    unsafe { ffi::rsx_nclock() as usize }
}
/// The next clock reading (seconds since the epoch) and the difference to the one after it.
pub fn set_clock(base: u64, step: u64) {
    set_clock_ns(base, step, 123456789)
}
pub fn set_clock_ns(base: u64, step: u64, nsec: u64) {
    unsafe { ffi::rsx_set_clock(base, step, nsec) }
}
pub fn concrete(v: usize) -> usize {
    unsafe { ffi::rsx_concrete(v as u64) as usize }
}
pub fn panicked() {
    unsafe { ffi::rsx_panicked() }
}
pub fn native() -> bool {
    unsafe { ffi::rsx_native() != 0 }
}
pub fn sha1_compress(st: &mut [u32; 5], blocks: &[u8]) {
    assert!(blocks.len() % 64 == 0);
    unsafe { ffi::rsx_sha1_compress(st.as_mut_ptr(), blocks.as_ptr(), blocks.len() / 64) }
}

pub fn raw(v: Vec<u8>) -> String {
    // callers build valid UTF-8 only
    unsafe { String::from_utf8_unchecked(v) }
}

/// `n` arbitrary ASCII characters.
pub fn ascii(n: usize) -> String {
    let mut v = vec![0; n];
    for b in v.iter_mut() {
        *b = u8();
        assume(*b < 0x80);
    }
    raw(v)
}
/// `n` arbitrary unreserved URI characters (letters, digits, `-`, `.`, `_`, `~`).
pub fn unreserved(n: usize) -> String {
    let mut v = vec![0; n];
    for b in v.iter_mut() {
        *b = u8();
        assume(is_unreserved(*b));
    }
    raw(v)
}
pub fn is_unreserved(b: u8) -> bool {
    // no short-circuit: one condition, no path per alternative
    (b >= b'a') & (b <= b'z')
        | (b >= b'A') & (b <= b'Z')
        | (b >= b'0') & (b <= b'9')
        | (b == b'-')
        | (b == b'.')
        | (b == b'_')
        | (b == b'~')
}
/// Any one Unicode character, UTF-8 encoded.
pub fn any_char(v: &mut Vec<u8>) {
    match choose(6) {
        0 => {
            let b = u8();
            assume(b < 0x80);
            v.push(b);
        }
        1 => {
            let b = u8();
            assume((b >= 0xc2) & (b <= 0xdf));
            v.push(b);
            cont(v);
        }
        2 => {
            // U+0800..U+0FFF
            v.push(0xe0);
            let b = u8();
            assume((b >= 0xa0) & (b <= 0xbf));
            v.push(b);
            cont(v);
        }
        3 => {
            // U+1000..U+FFFF without surrogates, U+D000 block apart
            let b = u8();
            assume((b >= 0xe1) & (b <= 0xef) & (b != 0xed));
            v.push(b);
            cont(v);
            cont(v);
        }
        4 => {
            v.push(0xed);
            let b = u8();
            assume((b >= 0x80) & (b <= 0x9f));
            v.push(b);
            cont(v);
        }
        _ => match choose(3) {
            0 => {
                v.push(0xf0);
                let b = u8();
                assume((b >= 0x90) & (b <= 0xbf));
                v.push(b);
                cont(v);
                cont(v);
            }
            1 => {
                let b = u8();
                assume((b >= 0xf1) & (b <= 0xf3));
                v.push(b);
                cont(v);
                cont(v);
                cont(v);
            }
            _ => {
                v.push(0xf4);
                let b = u8();
                assume((b >= 0x80) & (b <= 0x8f));
                v.push(b);
                cont(v);
                cont(v);
            }
        },
    }
}
fn cont(v: &mut Vec<u8>) {
    let b = u8();
    assume((b >= 0x80) & (b <= 0xbf));
    v.push(b);
}
pub fn any_chars(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        any_char(&mut v);
    }
    raw(v)
}
/// A string of some shape: empty, one character of any kind, a few ASCII characters, an ASCII
/// character in the middle of text that needs encoding, unreserved text of up to 12 characters.
pub fn text() -> String {
    match choose(3) {
        0 => short_text(),
        1 => ascii(3),
        _ => unreserved([3, 4, 5, 6, 8, 12][choose(6) as usize]),
    }
}
/// ... without the longest arbitrary ones.
pub fn short_text() -> String {
    match choose(5) {
        0 => String::new(),
        1 => any_chars(1),
        2 => ascii(2),
        3 => {
            let mut v = b"x&=% ".to_vec();
            v.extend(ascii(1).into_bytes());
            v.extend("\u{e9}\u{1f600}z".bytes());
            raw(v)
        }
        _ => {
            let mut v = ascii(1).into_bytes();
            any_char(&mut v);
            raw(v)
        }
    }
}
/// Long fixed text with one arbitrary ASCII character somewhere, lengths around buffer sizes.
/// level 0: 6 lengths, 1: 14, 2: 20.
pub fn long_text(level: u32) -> String {
    const PRE: [usize; 20] = [7, 64, 255, 600, 1024, 4096, 16, 31, 32, 63, 127, 128, 256, 511, 15, 257, 1023, 2100, 8192, 65536];
    long_of(PRE[choose([6, 14, 20][level as usize]) as usize], 4)
}
/// Two texts with long common parts that differ in one arbitrary ASCII character, or in length.
pub fn alike(level: u32) -> (String, String) {
    const PRE: [usize; 14] = [7, 64, 255, 600, 1024, 4096, 15, 31, 32, 63, 127, 128, 256, 2100];
    let n = PRE[choose([6, 14, 14][level as usize]) as usize];
    let c = if n > 600 || flag() { "a".repeat(n) } else { "\u{20ac}".repeat(n / 3 + 1) };
    match choose(4) {
        0 => (format!("{}{}", c, ascii(1)), format!("{}{}", c, ascii(1))),
        1 => (format!("{}{}", c, ascii(1)), c),
        2 => (format!("{}{}2", c, ascii(1)), format!("{}{}1", c, ascii(1))),
        _ => (format!("{}{}", ascii(1), c), format!("{}{}", ascii(1), c)),
    }
}
/// Fixed text of about n bytes with one arbitrary ASCII character, in one of `kinds` shapes.
pub fn long_of(n: usize, kinds: u32) -> String {
    let mut v = vec![b'a'; n];
    match choose(kinds) {
        0 => {}
        1 => v[n - 1] = b' ',
        2 => {
            // multi-byte characters up to the symbolic one
            v.clear();
            while v.len() < n {
                v.extend("\u{20ac}".bytes());
            }
        }
        _ => {
            // ... the symbolic one first
            let mut w = ascii(1).into_bytes();
            w.extend(v);
            w.extend(b"/");
            return raw(w);
        }
    }
    v.extend(ascii(1).into_bytes());
    if flag() {
        v.extend(b"b");
    }
    raw(v)
}
pub fn utf8_ok(b: &[u8]) -> bool {
    // own validation, one byte class at a time
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = if c < 0x80 {
            (0, 0, 0)
        } else if (c >= 0xc2) & (c <= 0xdf) {
            (1, 0x80, 0xbf)
        } else if c == 0xe0 {
            (2, 0xa0, 0xbf)
        } else if c == 0xed {
            (2, 0x80, 0x9f)
        } else if (c >= 0xe1) & (c <= 0xef) {
            (2, 0x80, 0xbf)
        } else if c == 0xf0 {
            (3, 0x90, 0xbf)
        } else if (c >= 0xf1) & (c <= 0xf3) {
            (3, 0x80, 0xbf)
        } else if c == 0xf4 {
            (3, 0x80, 0x8f)
        } else {
            return false;
        };
        if n > 0 {
            if i + n >= b.len() {
                return false;
            }
            if !((b[i + 1] >= lo) & (b[i + 1] <= hi)) {
                return false;
            }
            for k in 2..=n {
                if !((b[i + k] >= 0x80) & (b[i + k] <= 0xbf)) {
                    return false;
                }
            }
        }
        i += n + 1;
    }
    true
}
/// One symbolic ASCII character between fixed ones.
pub fn small(pre: &str, post: &str) -> String {
    let mut v = pre.as_bytes().to_vec();
    v.extend(ascii(1).into_bytes());
    v.extend(post.bytes());
    raw(v)
}

/// Text emitted in pieces.
pub struct Pieces(pub Vec<String>);
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for p in &self.0 {
            f.write_str(p)?;
        }
        plain(f)
    }
}
/// Text is asked for as by to_string: nothing was said about how to format it.
pub fn plain(f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if f.alternate() || f.sign_plus() || f.sign_aware_zero_pad() || f.width().is_some() || f.precision().is_some() {
        f.write_str("(formatted)")?;
    }
    Ok(())
}
