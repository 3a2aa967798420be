//! Places in documents where a value is set, inserted or pushed.
#![allow(dead_code)]
use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Id, MappingMut, SequenceMut, ValueMut};

/// Documents and where in them a value is set (or inserted, or pushed).
pub const DOCS: &[&[u8]] = &[
    b"x",
    b"a: x\nb: y\n",
    b"k:\n- x\n- y\n",
    b"{a: x, b: [y]}",
    b"a:\nb: y\n",
    b"- - # c\n  - y\n",
    // inserted under a new key
    b"m:\n  b: y\nc: z\n",
    b"[{b: y}, z]",
    b"m: {}\n",
    // inserted under an existing one
    b"m:\n    n: [x]\n    b: y\n",
    // pushed
    b"  - x\n  - y",
    b"k: [x, y]\nb: z",
    b"k: [ ]\n",
    // into a container that is made first
    b"k: x\nb: y\n",
];
pub const INSERTS: std::ops::Range<usize> = 6..10;
pub const PUSHES: std::ops::Range<usize> = 10..13;

/// The value that is set; for inserts and pushes the container before and the new value after.
#[inline(never)]
pub fn place(d: &Document, at: usize, before: bool) -> Id {
    let root = d.as_ref().id();
    let id = match at {
        0 => Some(root),
        1 | 3 | 4 => entry(d, root, "a"),
        2 => entry(d, root, "k").and_then(|id| item(d, id, 0)),
        5 => item(d, root, 0).and_then(|id| item(d, id, 0)),
        6 | 8 | 9 => entry(d, root, "m").and_then(|id| if before { Some(id) } else { entry(d, id, "n") }),
        7 => item(d, root, 0).and_then(|id| if before { Some(id) } else { entry(d, id, "n") }),
        10 => {
            if before {
                Some(root)
            } else {
                item(d, root, 2)
            }
        }
        11 | 12 => entry(d, root, "k").and_then(|id| if before { Some(id) } else { item(d, id, if at == 11 { 2 } else { 0 }) }),
        _ => entry(d, root, "k").and_then(|id| if before { Some(id) } else { entry(d, id, "n") }),
    };
    id.unwrap_or_else(|| fail("the value isn't where it was put"))
}

pub enum Target<'a> {
    Set(ValueMut<'a>),
    Insert(MappingMut<'a>),
    Push(SequenceMut<'a>),
}

#[inline(never)]
pub fn target(d: &mut Document, at: usize) -> Target<'_> {
    let id = place(d, at, true);
    let v = d.value_mut(id);
    if INSERTS.contains(&at) || at == 13 {
        Target::Insert(v.make_mapping())
    } else if PUSHES.contains(&at) {
        Target::Push(v.into_sequence_mut().unwrap_or_else(|| fail("a sequence is missing")))
    } else {
        Target::Set(v)
    }
}

#[inline(never)]
pub fn base(at: usize) -> Document {
    note("document", DOCS[at]);
    match yaml::from_slice(DOCS[at]) {
        Ok(d) => d,
        Err(_) => fail("the document is rejected"),
    }
}


/// Everything the document reads as, apart from the value `skip` (with its key).
#[inline(never)]
pub fn dump(d: &Document, id: Id, skip: Option<Id>, out: &mut Vec<u8>) {
    if Some(id) == skip {
        out.push(b'!');
        return;
    }
    let v = d.value(id);
    match v.as_any() {
        Any::Mapping(m) => {
            out.push(b'{');
            for (k, v) in m {
                if Some(v.id()) == skip {
                    continue;
                }
                out.extend_from_slice(k);
                out.push(b':');
                dump(d, v.id(), skip, out);
            }
            out.push(b'}');
        }
        Any::Sequence(s) => {
            out.push(b'[');
            for v in s {
                if Some(v.id()) == skip {
                    continue;
                }
                dump(d, v.id(), skip, out);
                out.push(b',');
            }
            out.push(b']');
        }
        Any::Null => out.push(b'~'),
        Any::Bool(b) => out.extend_from_slice(if b { b"true" } else { b"false" }),
        Any::Number(n) => out.extend_from_slice(n.as_raw()),
        Any::String(_) => {
            out.push(b'"');
            // the decoded text
            if let Some(s) = v.as_bstr() {
                out.extend_from_slice(s);
            }
            out.push(b'"');
        }
        _ => fail("unknown type"),
    }
}

/// What is dumped in place of the value the operation at that place gives: an entry or item
/// that wasn't there before is left out, one that was is marked.
#[inline(never)]
pub fn around(d: &Document, at: usize, before: bool) -> Vec<u8> {
    let skip = if at == 13 {
        entry(d, d.as_ref().id(), "k")
    } else if before && at != 9 && (INSERTS.contains(&at) || PUSHES.contains(&at)) {
        None
    } else {
        Some(place(d, at, false))
    };
    let mut o = Vec::new();
    dump(d, d.as_ref().id(), skip, &mut o);
    o
}

/// The value on the way from the root: a letter names an entry, a digit an item.
#[inline(never)]
pub fn walk(d: &Document, way: &str) -> Id {
    let mut id = d.as_ref().id();
    for i in 0..way.len() {
        let b = way.as_bytes()[i];
        let next = if b.is_ascii_digit() { item(d, id, (b - b'0') as usize) } else { entry(d, id, &way[i..i + 1]) };
        id = next.unwrap_or_else(|| fail("a value isn't where it was"));
    }
    id
}
