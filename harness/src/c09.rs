//! What request types feed to a serializer.
use crate::oracle::*;
use crate::ser::*;
use crate::scn::*;
use crate::sx;
use oauth1_request as oauth;
use oauth::request::AssertSorted;
use oauth::{ParameterList, Request};
use std::collections::BTreeMap;

fn is_sorted(v: &[It]) -> bool {
    let mut ok = true;
    for i in 1..v.len() {
        let (a, b) = (&v[i - 1], &v[i]);
        if (a.name.as_bytes(), enc(&a.val)) > (b.name.as_bytes(), enc(&b.val)) {
            ok = false;
        }
    }
    ok
}
fn check<R: Request + ?Sized>(r: &R, want: &[u8]) {
    let t = trace(&r.serialize(Ser::new()));
    sx::observe(&t);
    sx::eq(&t, want, 1);
    sx::reach(1);
}
/// The same request through every wrapper.
fn wrapped<R: Request>(mut r: R, want: &[u8]) {
    match sx::choose(8) {
        0 => check(&r, want),
        1 => check(&&r, want),
        2 => check(&&mut r, want),
        3 => check(&&&r, want),
        4 => check(&Some(r), want),
        5 => check(&Some(&r), want),
        6 => check(&&Some(&mut &r), want),
        _ => check(&Some(Some(r)), want),
    }
}
/// An iterator that says nothing about its length.
#[derive(Clone)]
struct FromFn<F>(F);
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        (self.0)()
    }
}
fn as_all(items: &[It], want: &[u8]) {
    let pairs: Vec<(&str, &str)> = items.iter().map(|i| (&*i.name, &*i.val)).collect();
    match sx::choose(8) {
        // iterators that do not know how many there are, or not exactly
        5 => wrapped(AssertSorted::new(pairs.iter().copied().filter(|x| x.0 != "\n")), want),
        6 => {
            let m = pairs.len() / 2;
            wrapped(AssertSorted::new(pairs[..m].iter().copied().chain(pairs[m..].iter().flat_map(|x| Some(*x)))), want)
        }
        7 => {
            let (mut i, p) = (0, pairs.clone());
            wrapped(
                AssertSorted::new(FromFn(move || {
                    i += 1;
                    p.get(i - 1).copied()
                })),
                want,
            )
        }
        0 => wrapped(AssertSorted::new(pairs.iter().copied()), want),
        1 => wrapped(AssertSorted::new(pairs.clone()), want),
        2 => wrapped(ParameterList::from_sorted(&pairs[..]).unwrap(), want),
        3 => wrapped(ParameterList::new(pairs.clone()), want),
        _ => {
            let l = ParameterList::new(pairs.clone());
            wrapped(AssertSorted::new(l.iter().collect::<Vec<_>>().iter().map(|x| (&x.0, &x.1))), want)
        }
    }
}
/// One parameter anywhere around the oauth_* names.
/// bounds: names of up to 11 arbitrary unreserved characters, oauth_ and one, an oauth_* name with another or an additional last character
/// variants: dbg rel
#[no_mangle]
pub extern "C" fn c09_one(_t: u32) {
    let items = [it(&any_name(), "v")];
    as_all(&items, &expected(&items));
}
/// Two (thorough: three) parameters.
/// bounds: names arbitrary of 1 character, fixed ones on either side of and between the oauth_* names, values one arbitrary ASCII character
#[no_mangle]
pub extern "C" fn c09_some(t: u32) {
    let mut v = vec![];
    for _ in 0..2 + t {
        let n = match sx::choose(5) {
            0 => sx::unreserved(1),
            1 => "oauth_".into(),
            2 => "oauth_noncf".into(),
            3 => "oauth_z".into(),
            _ => "oauth".into(),
        };
        let val = if sx::flag() { sx::ascii(1) } else { String::new() };
        v.push(it(&n, &val));
    }
    sx::assume(is_sorted(&v));
    as_all(&v, &expected(&v));
}
/// No parameters: the empty request, the absent one, empty lists.
/// bounds: none (all forms enumerated)
#[no_mangle]
pub extern "C" fn c09_empty(_t: u32) {
    let want = expected(&[]);
    match sx::choose(7) {
        0 => wrapped((), &want),
        1 => wrapped(None::<()>, &want),
        2 => wrapped(None::<ParameterList<&str, &str>>, &want),
        3 => wrapped(ParameterList::<String, String>::default(), &want),
        4 => wrapped(Some(None::<&()>), &want),
        5 => wrapped(AssertSorted::new(&BTreeMap::<&str, &str>::new()), &want),
        _ => as_all(&[], &want),
    }
}
/// Maps.
/// bounds: 2 keys of one arbitrary unreserved character each and one fixed
#[no_mangle]
pub extern "C" fn c09_map(_t: u32) {
    let (a, b) = (sx::unreserved(1), sx::unreserved(1));
    let mut m = BTreeMap::new();
    m.insert(a.clone(), "1");
    m.insert(b.clone(), "2");
    m.insert("oauth_p".into(), "3");
    let mut items = vec![it(&a, "1"), it("oauth_p", "3")];
    if a == b {
        items[0].val = "2".into();
    } else {
        items.push(it(&b, "2"));
    }
    let mut v: Vec<It> = vec![];
    for i in items {
        let at = v.iter().position(|x| x.name.as_bytes() > i.name.as_bytes()).unwrap_or(v.len());
        v.insert(at, i);
    }
    let want = expected(&v);
    if sx::flag() {
        check(&AssertSorted::new(&m), &want);
    } else {
        wrapped(AssertSorted::new(m.iter().map(|(a, b)| (a, b))), &want);
    }
}
/// A parameter named like an OAuth parameter still leaves the sequence sorted and complete.
/// bounds: each of the 8 names, alone or after another parameter
#[no_mangle]
pub extern "C" fn c09_clash(_t: u32) {
    let k = sx::choose(8) as usize;
    let mut v = vec![];
    if sx::flag() {
        v.push(it("a", "1"));
    }
    v.push(it(OAUTH[k], "x"));
    if sx::flag() {
        v.push(it("z", &sx::ascii(1)));
    }
    let pairs: Vec<(&str, &str)> = v.iter().map(|i| (&*i.name, &*i.val)).collect();
    let (t, _) = if sx::flag() {
        AssertSorted::new(pairs.iter().copied()).serialize(Ser::new())
    } else {
        ParameterList::new(pairs.clone()).serialize(Ser::new())
    };
    let mut own = 0;
    let mut auth = 0;
    for i in 0..t.len() {
        if i > 0 {
            sx::assert(t[i - 1].0.as_bytes() <= t[i].0.as_bytes(), 2);
        }
        match &t[i].1 {
            None => {
                sx::eq(&t[i].0, OAUTH[auth], 3);
                auth += 1;
            }
            Some(x) => {
                sx::eq(&t[i].0, &v[own].name, 4);
                sx::eq(x, &v[own].val, 5);
                own += 1;
            }
        }
    }
    sx::assert(own == v.len() && auth == 8, 6);
    sx::reach(1);
}
