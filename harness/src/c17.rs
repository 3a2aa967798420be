use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Document, Id};

const DOCS: &[&[u8]] = &[
    b"{}",
    b"[]",
    b"a: 1\n",
    b"- 1\n",
    b"{a: 1, b: 2}",
    b"[1, 2]",
    b"a: 1\nb:\n  c: d\na: 3\n",
    b"- 1\n- - x\n  - y\n-\n",
    b"a: 1\nb: 2\n'c': 3\nd:\n",
    b"[1, [], {a: b}, 4,]",
    b"a: 1\nb: 2\nc: 3\nd: 4\ne: 5\n",
    b"- 1\n- 2\n- 3\n- 4\n- 5\n",
];

/// The entry an iterator gave.
type Item = (Vec<u8>, Id);

/// Any number of steps, small ones and ones near the largest.
#[inline(never)]
fn steps() -> usize {
    byte() as i8 as isize as usize
}

#[inline(never)]
fn equal(got: Option<Item>, want: Option<&Item>, what: &str) {
    match (&got, want) {
        (None, None) => {}
        (Some(a), Some(b)) => check!(a.1 == b.1 && same(&a.0, &b.0), what),
        _ => fail(what),
    }
}

/// Any interleaving of `n` calls on an iterator over the list.
#[inline(never)]
fn drive<I>(mut it: I, conv: fn(I::Item) -> Item, list: &[Item], n: usize)
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    let (mut lo, mut hi) = (0, list.len());
    for _ in 0..n {
        check!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "an iterator's length isn't that of what is left");
        match choose(4) {
            0 => {
                let want = if lo < hi { Some(&list[lo]) } else { None };
                equal(it.next().map(conv), want, "next gives another entry");
                lo = (lo + 1).min(hi);
            }
            1 => {
                let want = if lo < hi { Some(&list[hi - 1]) } else { None };
                equal(it.next_back().map(conv), want, "next_back gives another entry");
                hi = hi.saturating_sub(1).max(lo);
            }
            2 => {
                let k = steps();
                if k < hi - lo {
                    let mut i = lo;
                    while i - lo != k {
                        i += 1;
                    }
                    equal(it.nth(i - lo).map(conv), Some(&list[i]), "nth gives another entry");
                    lo = i + 1;
                } else {
                    equal(it.nth(k).map(conv), None, "nth gives an entry past the end");
                    lo = hi;
                }
            }
            _ => {
                let k = steps();
                if k < hi - lo {
                    let mut i = hi - 1;
                    while hi - 1 - i != k {
                        i -= 1;
                    }
                    equal(it.nth_back(hi - 1 - i).map(conv), Some(&list[i]), "nth_back gives another entry");
                    hi = i;
                } else {
                    equal(it.nth_back(k).map(conv), None, "nth_back gives an entry past the end");
                    hi = lo;
                }
            }
        }
    }
    check!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "an iterator's length isn't that of what is left");
    // what is left, in one of several ways
    match choose(4) {
        0 => {
            for x in list[lo..hi].iter() {
                equal(it.next().map(conv), Some(x), "the rest of an iterator differs");
            }
            check!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "an iterator goes on past its end");
        }
        1 => {
            let mut i = hi;
            for x in it.rev() {
                check!(i > lo, "a reversed iterator goes on past its end");
                i -= 1;
                equal(Some(conv(x)), Some(&list[i]), "the rest of a reversed iterator differs");
            }
            check!(i == lo, "a reversed iterator ends early");
        }
        2 => check!(it.count() == hi - lo, "count isn't the number of entries left"),
        _ => equal(it.last().map(conv), list[lo..hi].last(), "last isn't the last entry"),
    }
    reach(1);
}

/// The container's entries, as `get` gives them and as they are known to be.
#[inline(never)]
fn entries(d: &Document, id: Id) -> Vec<Item> {
    let v = d.value(id);
    let mut o = Vec::new();
    if let Some(s) = v.as_sequence() {
        for i in 0..s.len() {
            let Some(v) = s.get(i) else { fail("get doesn't find an item") };
            o.push((Vec::new(), v.id()));
        }
        check!(s.get(s.len()).is_none(), "get finds an item past the end");
    } else if let Some(m) = v.as_mapping() {
        // keys which occur twice can't be told apart with get
        let mut n = 0;
        for (k, v) in m.iter() {
            n += 1;
            o.push((k.to_vec(), v.id()));
            if let Some(x) = m.get(std::str::from_utf8(k).unwrap_or("")) {
                let first = o.iter().find(|e| same(&e.0, k)).unwrap().1;
                check!(x.id() == first, "get gives another entry than the iterator");
            } else {
                fail("get doesn't find an entry");
            }
        }
        check!(n == m.len(), "a mapping's length differs from its iterator");
    }
    o
}

pub fn run() {
    let deep = tier() == 1;
    let b = DOCS[choose(DOCS.len() as u32) as usize];
    note("document", b);
    let Ok(mut d) = yaml::from_slice(b) else { fail("the document is rejected") };
    let id = d.as_ref().id();
    // also after an edit
    match choose(3) {
        0 => {}
        1 => {
            let mut v = d.as_mut();
            if let Some(mut m) = v.as_mapping_mut() {
                m.remove("b");
                m.insert_u8("z", 1);
            } else if let Some(mut s) = v.as_sequence_mut() {
                s.remove(1);
                s.push_u8(1);
            }
        }
        _ => {
            assume(deep);
            let mut v = d.as_mut();
            if let Some(mut m) = v.as_mapping_mut() {
                m.remove("a");
            } else if let Some(mut s) = v.as_sequence_mut() {
                s.remove(0);
            }
        }
    }
    let list = entries(&d, id);
    let v = d.value(id);
    let own = choose(2) == 1;
    let n = choose(if deep { 6 } else if own { 4 } else { 5 }) as usize;
    if let Some(m) = v.as_mapping() {
        if own {
            drive(m.into_iter(), |(k, v)| (k.to_vec(), v.id()), &list, n)
        } else {
            drive(m.iter(), |(k, v)| (k.to_vec(), v.id()), &list, n)
        }
    } else if let Some(s) = v.as_sequence() {
        if own {
            drive(s.into_iter(), |v| (Vec::new(), v.id()), &list, n)
        } else {
            drive(s.iter(), |v| (Vec::new(), v.id()), &list, n)
        }
    }
}
