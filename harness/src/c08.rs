//! Parameter lists.
use crate::oracle::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::ParameterList;

type Pair = (String, String);

fn name() -> String {
    match sx::choose(4) {
        0 => sx::unreserved(1),
        1 => "p".into(),
        2 => String::new(),
        _ => "pp".into(),
    }
}
fn value() -> String {
    match sx::choose(4) {
        0 => String::new(),
        1 => sx::ascii(1),
        2 => sx::any_chars(1),
        _ => sx::small("x", ""),
    }
}
fn list(n: usize) -> Vec<Pair> {
    (0..n).map(|_| (name(), value())).collect()
}
fn sorted(l: &[Pair]) -> Vec<P> {
    let mut v: Vec<P> = l.iter().map(|(a, b)| p(a, b)).collect();
    sort(&mut v);
    v
}
fn text(v: &[P]) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        o.extend(&x.name);
        o.push(b'\n');
        o.extend(&x.val);
        o.push(b'\n');
    }
    o
}
fn text_of<'a>(l: impl Iterator<Item = &'a Pair>) -> Vec<u8> {
    text(&l.map(|(a, b)| p(a, b)).collect::<Vec<_>>())
}
/// Entries as the list shows them, as it serializes them, and as it gives them back.
fn same(l: ParameterList<String, String>, put: &[Pair]) {
    let want = sorted(put);
    let w = text(&want);
    sx::eq(text_of(l.iter()), &w, 1);
    match sx::choose(3) {
        0 => sx::eq(text_of(l.as_ref().iter()), &w, 2),
        1 => {
            let f = oauth::to_form(&l);
            sx::observe(&f);
            sx::eq(f, urlencoded(&want), 3);
        }
        _ => sx::eq(text_of(l.into_inner().iter()), &w, 4),
    }
    sx::reach(1);
}
/// Construction from an unsorted collection.
/// bounds: up to 2 (thorough: 3) entries, names empty, one arbitrary unreserved character or fixed, values empty, one ASCII, one arbitrary character, or a fixed and an ASCII character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c08_new(t: u32) {
    let l = list(sx::choose(3 + t) as usize);
    match sx::choose(3) {
        0 => same(ParameterList::new(l.clone()), &l),
        1 => same(ParameterList::from(l.clone()), &l),
        _ => same(l.iter().cloned().collect(), &l),
    }
}
/// Three entries of the same name.
/// bounds: 3 (thorough: 4) values of up to 1 arbitrary ASCII character
#[no_mangle]
pub extern "C" fn c08_same_name(t: u32) {
    let l: Vec<Pair> = (0..3 + t)
        .map(|_| {
            let n = sx::choose(2) as usize;
            ("n".to_string(), sx::ascii(n))
        })
        .collect();
    same(ParameterList::new(l.clone()), &l);
}
/// Names of any characters: the order is that of the bytes.
/// bounds: 2 entries, each named by one arbitrary character, alone or after a fixed one, constructed from unsorted or claimed to be sorted, or one extended by the other
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c08_names(_t: u32) {
    let pre = if sx::flag() { "\u{e9}" } else { "" };
    let l: Vec<Pair> = (0..2).map(|i| (format!("{}{}", pre, sx::any_chars(1)), i.to_string())).collect();
    match sx::choose(3) {
        0 => same(ParameterList::new(l.clone()), &l),
        1 => {
            let is = l[0].0.as_bytes() <= l[1].0.as_bytes();
            sx::assert(ParameterList::from_sorted(&l[..]).is_some() == is, 5);
            sx::reach(2);
        }
        _ => {
            let mut x = ParameterList::new(l[..1].to_vec());
            x.extend(Some(l[1].clone()));
            same(x, &l)
        }
    }
}
/// Claimed to be sorted: accepted if and only if it is.
/// bounds: up to 2 (thorough: 3) entries as c08_new, or 3 of one name with one ASCII character each
/// labels: 1 2 3
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c08_from_sorted(t: u32) {
    let l = if sx::flag() {
        list(sx::choose(3 + t) as usize)
    } else {
        (0..3).map(|_| ("n".to_string(), sx::ascii(1))).collect()
    };
    let mut is = true;
    let e: Vec<P> = l.iter().map(|(a, b)| p(a, b)).collect();
    for i in 1..e.len() {
        if (&e[i].name, &e[i].val) < (&e[i - 1].name, &e[i - 1].val) {
            is = false;
        }
    }
    match ParameterList::from_sorted(l.clone()) {
        Some(r) => {
            sx::assert(is, 5);
            same(r, &l);
            sx::reach(2);
        }
        None => {
            sx::assert(!is, 6);
            sx::reach(3);
        }
    }
}
/// Histories of constructing, extending and defaulting.
/// bounds: up to 2 (thorough: 3) steps of up to 2 entries each, names one of 3 or one arbitrary unreserved character, values up to 1 ASCII character
#[no_mangle]
pub extern "C" fn c08_history(t: u32) {
    fn part(n: u32, t: u32) -> Vec<Pair> {
        let n = sx::choose(n + 1);
        (0..n)
            .map(|i| {
                let name = match sx::choose(if i == 0 || t > 0 { 3 } else { 2 }) {
                    0 => "b".into(),
                    1 => ["c", "a"][i as usize % 2].into(),
                    _ => sx::unreserved(1),
                };
                (name, if i == 1 && sx::flag() { sx::ascii(1) } else { "v".into() })
            })
            .collect()
    }
    let mut all: Vec<Pair> = vec![];
    let mut l: ParameterList<String, String> = match sx::choose(3) {
        0 => Default::default(),
        1 => {
            let p = part(2, t);
            all.extend(p.clone());
            ParameterList::new(p)
        }
        _ => {
            // sorted by construction
            all = vec![("a".into(), "1".into()), ("b".into(), "".into())];
            ParameterList::from_sorted(all.clone()).unwrap()
        }
    };
    for _ in 0..1 + t {
        let p = part(2, t);
        all.extend(p.clone());
        l.extend(p);
        // sorted in between as well
        sx::eq(text_of(l.iter()), text(&sorted(&all)), 7);
    }
    same(l, &all);
}
/// Many entries (beyond what small sorts handle), in several initial orders.
/// bounds: 21, 33 or 60 (thorough: also 130) entries in 4 orders, one with an arbitrary one-character name and one with an arbitrary ASCII value
#[no_mangle]
pub extern "C" fn c08_many(t: u32) {
    let n = [21usize, 33, 60, 130][sx::choose(3 + t) as usize];
    let order = sx::choose(4);
    let mut l: Vec<Pair> = (0..n)
        .map(|i| {
            let k = match order {
                0 => i,
                1 => n - 1 - i,
                2 => (i * 7) % n,
                _ => i % 5,
            };
            (format!("k{:03}", k), format!("{}", (i * 31) % 17))
        })
        .collect();
    let at = [0, n / 2, n - 1][sx::choose(3) as usize];
    if sx::flag() {
        l[at].0 = sx::small("k0", "0");
        for b in l[at].0.bytes() {
            sx::assume(sx::is_unreserved(b));
        }
    } else {
        l[at].1 = sx::ascii(1);
    }
    if sx::flag() {
        same(ParameterList::new(l.clone()), &l);
    } else {
        let k = n / 3;
        let mut x = ParameterList::new(l[..k].to_vec());
        x.extend(l[k..].iter().cloned());
        same(x, &l);
    }
}
/// Claimed to be sorted: one entry anywhere in a longer list decides.
/// bounds: lists of 3 to 130 (thorough: 520) entries, sorted but for one of 7 places with one arbitrary character in its name or value; also with all names equal
/// labels: 1 2 3
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c08_from_sorted_long(t: u32) {
    let n = [3usize, 9, 17, 33, 65, 130, 260, 520][sx::choose(6 + t * 2) as usize];
    let equal = sx::flag();
    let mut l: Vec<Pair> = (0..n)
        .map(|i| {
            let d = format!("{}", 1000 + i);
            if equal {
                ("n".into(), d)
            } else {
                (d, "v".into())
            }
        })
        .collect();
    let at = [0, 1, n / 3, n / 2, n - 1 - n / 4, n - 2, n - 1][sx::choose(7) as usize];
    let x = if equal { &mut l[at].1 } else { &mut l[at].0 };
    x.pop();
    x.push_str(&if equal { sx::ascii(1) } else { sx::unreserved(1) });
    let mut is = true;
    let e: Vec<P> = l.iter().map(|(a, b)| p(a, b)).collect();
    for i in 1..e.len() {
        if (&e[i].name, &e[i].val) < (&e[i - 1].name, &e[i - 1].val) {
            is = false;
        }
    }
    match ParameterList::from_sorted(l.clone()) {
        Some(r) => {
            sx::assert(is, 5);
            same(r, &l);
            sx::reach(2);
        }
        None => {
            sx::assert(!is, 6);
            sx::reach(3);
        }
    }
}
/// Entries with long common parts, in names or values.
/// bounds: 2 entries whose names or values share 7 to 4096 bytes (6, thorough: 14 lengths) and differ in one arbitrary ASCII character or in length; values in two pieces as well
/// labels: 1 2
#[no_mangle]
pub extern "C" fn c08_alike(t: u32) {
    let (a, b) = sx::alike(t);
    let l = match sx::choose(3) {
        0 => vec![("n".to_string(), a), ("n".to_string(), b)],
        1 => {
            for n in [&a, &b] {
                n.bytes().for_each(|c| if c < 128 { sx::assume(sx::is_unreserved(c)) });
            }
            vec![(a, "2".to_string()), (b, "1".to_string())]
        }
        _ => {
            use sx::Pieces;
            let x = a.chars().next().unwrap().len_utf8();
            let l = ParameterList::new([
                ("n", Pieces(vec![a[..x].into(), a[x..].into()])),
                ("n", Pieces(vec![b.clone()])),
            ]);
            let want = sorted(&[("n".into(), a.clone()), ("n".into(), b.clone())]);
            sx::eq(oauth::to_form(&l), urlencoded(&want), 13);
            return sx::reach(1);
        }
    };
    if sx::flag() {
        same(ParameterList::new(l.clone()), &l);
    } else {
        let (a, b) = (p(&l[0].0, &l[0].1), p(&l[1].0, &l[1].1));
        let is = (&a.name, &a.val) <= (&b.name, &b.val);
        sx::assert(ParameterList::from_sorted(&l[..]).is_some() == is, 14);
        sx::reach(2);
    }
}
/// Other element and container types: arrays, slices, references to pairs, numbers as values, values whose text comes in pieces.
/// bounds: 2 or 3 entries, values any u8 or any ASCII character
#[no_mangle]
pub extern "C" fn c08_types(_t: u32) {
    match sx::choose(5) {
        0 => {
            let (a, b) = (sx::u8(), sx::u8());
            let l = ParameterList::new([("n", a), ("n", b)]);
            let want = sorted(&[("n".into(), a.to_string()), ("n".into(), b.to_string())]);
            sx::eq(oauth::to_form(&l), urlencoded(&want), 8);
        }
        1 => {
            let (a, b) = (sx::ascii(1), sx::ascii(1));
            let prs = [(&*a, "1"), (&*b, "2")];
            for x in [&a, &b] {
                sx::assume(sx::is_unreserved(x.as_bytes()[0]));
            }
            let mut refs = [&prs[0], &prs[1], &prs[0]];
            let l = ParameterList::<_, _, _, _>::new(&mut refs[..]);
            let want = sorted(&[(a.clone(), "1".into()), (b.clone(), "2".into()), (a.clone(), "1".into())]);
            sx::eq(oauth::to_form(&l), urlencoded(&want), 9);
        }
        2 => {
            use sx::Pieces;
            let (a, b) = (sx::ascii(1), sx::ascii(1));
            let x = ParameterList::new([
                ("n", Pieces(vec![a.clone(), "z".into()])),
                ("n", Pieces(vec!["".into(), a.clone(), b.clone()])),
                ("n", Pieces(vec![])),
            ]);
            let want = sorted(&[("n".into(), format!("{}z", a)), ("n".into(), format!("{}{}", a, b)), ("n".into(), "".into())]);
            sx::eq(oauth::to_form(&x), urlencoded(&want), 10);
        }
        3 => {
            let (a, b) = (sx::any_chars(1), sx::any_chars(1));
            let l: ParameterList<&str, &str> = [("n", &*a), ("n", &*b)].iter().copied().collect();
            let want = sorted(&[("n".into(), a.clone()), ("n".into(), b.clone())]);
            sx::eq(oauth::to_form(&l), urlencoded(&want), 11);
        }
        _ => {
            use std::borrow::Cow;
            let a = sx::ascii(1);
            let l = ParameterList::from_sorted([(Cow::Borrowed("n"), &*a), (Cow::Borrowed("n"), "b")]);
            sx::assert(l.is_some() == (enc(&a) <= b"b".to_vec()), 12);
        }
    }
    sx::reach(1);
}
