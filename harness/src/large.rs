//! Large documents (see `Gen::large`), and edits of any value in them.
#![allow(dead_code)]
use crate::gen::*;
use crate::hooks::*;
use crate::model::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Id};

/// One of the large documents, what it denotes, and its text.
#[inline(never)]
pub fn document(seeds: u32, left: usize, wide: usize) -> (Document, T, Vec<u8>) {
    let mut g = Gen::large(choose(seeds) as usize, left, wide);
    let t = g.document();
    note("input", &g.out);
    let Ok(d) = yaml::from_slice(&g.out) else { fail("the document is rejected") };
    (d, t, g.out)
}

/// Where a value is: the entry or item to take in each container on the way.
pub type Path = Vec<usize>;

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Map,
    Seq,
    Scalar,
    /// Not inside of a flow collection.
    BlockScalar,
    /// Anything which isn't inside of a flow collection.
    Block,
    Any,
}

#[inline(never)]
fn collect(t: &T, flow: bool, want: Want, at: &mut Path, out: &mut Vec<Path>) {
    let scalar = !matches!(t.kind, Kind::Map | Kind::Seq);
    let ok = match want {
        Want::Map => t.kind == Kind::Map,
        Want::Seq => t.kind == Kind::Seq,
        Want::Scalar => scalar,
        Want::BlockScalar => scalar && !flow,
        Want::Block => !flow,
        Want::Any => true,
    };
    if ok {
        out.push(at.clone());
    }
    for i in 0..t.kids.len() {
        at.push(i);
        collect(&t.kids[i], flow || t.flow, want, at, out);
        at.pop();
    }
}

/// One of the values of that kind.
#[inline(never)]
pub fn pick(t: &T, want: Want) -> Path {
    let mut out = Vec::new();
    collect(t, false, want, &mut Vec::new(), &mut out);
    assume(!out.is_empty());
    out.swap_remove(choose(out.len() as u32) as usize)
}

#[inline(never)]
pub fn all(t: &T) -> Vec<Path> {
    let mut out = Vec::new();
    collect(t, false, Want::Any, &mut Vec::new(), &mut out);
    out
}

#[inline(never)]
pub fn find<'a>(t: &'a mut T, at: &[usize]) -> &'a mut T {
    let mut t = t;
    for i in at {
        t = &mut t.kids[*i];
    }
    t
}

#[inline(never)]
pub fn id(d: &Document, at: &[usize]) -> Id {
    let mut id = d.as_ref().id();
    for i in at {
        let next = match d.value(id).into_any() {
            Any::Mapping(m) => m.into_iter().nth(*i).map(|(_, v)| v.id()),
            Any::Sequence(s) => s.into_iter().nth(*i).map(|v| v.id()),
            _ => None,
        };
        id = next.unwrap_or_else(|| fail("a value isn't where it was"));
    }
    id
}

/// How the tree is dumped (see `places::dump`).
#[inline(never)]
pub fn dump(t: &T, o: &mut Vec<u8>) {
    match t.kind {
        Kind::Null => o.push(b'~'),
        Kind::True => o.extend_from_slice(b"true"),
        Kind::False => o.extend_from_slice(b"false"),
        Kind::Number => o.extend_from_slice(&t.text),
        Kind::Str => o.extend_from_slice(&[b"\"", &t.text[..], b"\""].concat()),
        Kind::Map => {
            o.push(b'{');
            for i in 0..t.kids.len() {
                o.extend_from_slice(&t.keys[i]);
                o.push(b':');
                dump(&t.kids[i], o);
            }
            o.push(b'}');
        }
        Kind::Seq => {
            o.push(b'[');
            for k in &t.kids {
                dump(k, o);
                o.push(b',');
            }
            o.push(b']');
        }
    }
}

#[inline(never)]
fn is(d: &Document, want: &[u8], what: &str) {
    let got = dumped(d, d.as_ref().id());
    note("reads as", &got);
    check!(same(&got, want), what);
}

/// The document reads as that tree, also when it is written and read again.
#[inline(never)]
pub fn reads(d: &Document, t: &T, again: bool) {
    let mut want = Vec::new();
    dump(t, &mut want);
    note("expected", &want);
    is(d, &want, "a large document reads as another tree after an edit");
    if again {
        is(&reread(d), &want, "a large document reads back as another tree after an edit");
    }
}

/// The last scalar in the child before the `k`th takes the comment which was behind a removed one
/// (a block scalar takes everything indented under its key or dash).
#[inline(never)]
fn takes_comment(d: &Document, t: &T, src: &[u8], at: &[usize], k: usize) -> bool {
    let mut want = Vec::new();
    let mut t = t.clone();
    let c = find(&mut t, at);
    if k == 0 || c.flow || k > c.kids.len() {
        return false;
    }
    let mut l = &mut c.kids[k - 1];
    while !l.kids.is_empty() {
        let n = l.kids.len() - 1;
        l = &mut l.kids[n];
    }
    if l.kind != Kind::Str || !matches!(src.get(l.start), Some(b'|' | b'>')) {
        return false;
    }
    let end = l.text.last() == Some(&b'\n');
    if end {
        l.text.pop();
    }
    l.text.extend_from_slice(b" # a comment");
    if end {
        l.text.push(b'\n');
    }
    dump(&t, &mut want);
    same(&dumped(d, d.as_ref().id()), &want)
}

/// `reads`, after the `k`th value of the container there was removed.
#[inline(never)]
pub fn reads_without(d: &Document, t: &T, again: bool, src: &[u8], at: &[usize], k: usize, label: &str) {
    reads(d, t, false);
    if again {
        if takes_comment(&reread(d), t, src, at, k) {
            fail(label);
        }
        reads(d, t, true);
    }
}

#[inline(never)]
pub fn leaf(kind: Kind, text: &[u8]) -> T {
    T { kind, text: text.to_vec(), start: 0, end: 0, raw: 0, flow: false, quoted: false, keys: Vec::new(), kids: Vec::new() }
}

/// A short string with an unconstrained letter.
#[inline(never)]
pub fn word() -> String {
    let b = byte();
    assume(b >= b'p' && b <= b'z');
    let mut s = String::from("w");
    s.push(b as char);
    s
}
