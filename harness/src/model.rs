//! What containers hold, as plain lists of keys and dumped values (see `places::dump`).
#![allow(dead_code)]
use crate::hooks::*;
use crate::places::{dump, walk};
use crate::util::*;
use nondestructive::yaml::{self, Document, Id};

/// A string of up to `n` unconstrained bytes.
#[inline(never)]
pub fn text(n: usize) -> String {
    match String::from_utf8(bytes(choose(n as u32 + 1) as usize)) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// How a string is dumped.
#[inline(never)]
pub fn quoted(s: &str) -> Vec<u8> {
    let mut v = vec![b'"'];
    v.extend_from_slice(s.as_bytes());
    v.push(b'"');
    v
}

#[inline(never)]
pub fn dumped(d: &Document, id: Id) -> Vec<u8> {
    let mut o = Vec::new();
    dump(d, id, None, &mut o);
    o
}

/// What the document reads as apart from the container.
#[inline(never)]
pub fn outside(d: &Document, way: &str) -> Vec<u8> {
    let mut o = Vec::new();
    dump(d, d.as_ref().id(), Some(walk(d, way)), &mut o);
    o
}

pub type Entries = Vec<(Vec<u8>, Vec<u8>)>;

#[inline(never)]
pub fn find(m: &Entries, key: &[u8]) -> Option<usize> {
    (0..m.len()).find(|i| same(&m[*i].0, key))
}

/// The mapping there has exactly these entries.
#[inline(never)]
pub fn is_mapping(d: &Document, way: &str, m: &Entries, probe: &str) {
    let v = d.value(walk(d, way));
    let Some(x) = v.as_mapping() else { fail("the mapping isn't one any more") };
    check!(x.len() == m.len() && x.is_empty() == m.is_empty(), "a mapping has another length");
    let mut n = 0;
    for (k, v) in x.iter() {
        check!(n < m.len(), "a mapping yields more entries than it has");
        check!(same(k, &m[n].0), "a mapping has another key");
        check!(same(&dumped(d, v.id()), &m[n].1), "an entry has another value");
        n += 1;
    }
    check!(n == m.len(), "a mapping yields fewer entries than it has");
    for i in 0..m.len() {
        let Ok(k) = std::str::from_utf8(&m[i].0) else { continue };
        let want = find(m, &m[i].0).unwrap();
        match x.get(k) {
            Some(v) => check!(same(&dumped(d, v.id()), &m[want].1), "get finds another entry"),
            None => fail("get doesn't find an entry"),
        }
    }
    let got = x.get(probe).is_some();
    check!(got == find(m, probe.as_bytes()).is_some(), "get finds a key that isn't there, or doesn't find one that is");
}

/// The sequence there has exactly these items.
#[inline(never)]
pub fn is_sequence(d: &Document, way: &str, m: &[Vec<u8>]) {
    let v = d.value(walk(d, way));
    let Some(x) = v.as_sequence() else { fail("the sequence isn't one any more") };
    check!(x.len() == m.len() && x.is_empty() == m.is_empty(), "a sequence has another length");
    let mut n = 0;
    for v in x.iter() {
        check!(n < m.len(), "a sequence yields more items than it has");
        check!(same(&dumped(d, v.id()), &m[n]), "an item is another value");
        n += 1;
    }
    check!(n == m.len(), "a sequence yields fewer items than it has");
    for i in 0..m.len() {
        match x.get(i) {
            Some(v) => check!(same(&dumped(d, v.id()), &m[i]), "get finds another item"),
            None => fail("get doesn't find an item"),
        }
    }
    check!(x.get(m.len()).is_none(), "get finds an item past the end");
    check!(x.first().map(|v| v.id()) == x.get(0).map(|v| v.id()), "first isn't the first item");
    let last = if m.is_empty() { None } else { x.get(m.len() - 1).map(|v| v.id()) };
    check!(x.last().map(|v| v.id()) == last, "last isn't the last item");
}

#[inline(never)]
pub fn reread(d: &Document) -> Document {
    let out = write(d);
    note("written", &out);
    observe_bytes(&out);
    match yaml::from_slice(&out) {
        Ok(e) => e,
        Err(_) => fail("the written document is rejected"),
    }
}
