use crate::hooks::*;
use crate::model::*;
use crate::places::walk;
use crate::util::*;
use nondestructive::yaml::{self, Block, Chomp, Document, Null, Separator};

/// A document, where the sequence is in it, its items, and whether it is a block sequence.
struct Base(&'static [u8], &'static str, &'static [&'static str], bool);

const BASES: &[Base] = &[
    Base(b"- 1\n- x\n", "", &["1", "\"x\""], true),
    Base(b"[1, x]\n", "", &["1", "\"x\""], false),
    Base(b"k:\n  - 1 # c\n\n  # d\n  - {x: y}\nl: z\n", "k", &["1", "{x:\"y\"}"], true),
    Base(b"k: [ 1 , x, ] # c\nl: z\n", "k", &["1", "\"x\""], false),
    Base(b"k:\n- 1\n- x\nl: z\n", "k", &["1", "\"x\""], true),
    Base(b"- - x\n  - 'q'\n- z\n", "0", &["\"x\"", "\"q\""], true),
    Base(b"-   - x\n    -\n- z", "0", &["\"x\"", "~"], true),
    Base(b"[[x, \"y\"], z]", "0", &["\"x\"", "\"y\""], false),
    Base(b"k:\n      - |\n        x\n        y\n      - >-\n       z\nl: m\n", "k", &["\"x\ny\n\"", "\"z\""], true),
    Base(b"- k:\n    - a: b\n      c: d\n    - z", "0k", &["{a:\"b\"c:\"d\"}", "\"z\""], true),
    Base(b"k: []\nl: z\n", "k", &[], false),
    Base(b"- x\r\n-\r\n  - y\r\n- z\r\n", "", &["\"x\"", "[\"y\",]", "\"z\""], true),
    Base(b"- 1\n- {}\n-\n- []\n- ''\n- x\n", "", &["1", "{}", "~", "[]", "\"\"", "\"x\""], true),
    Base(b"{k: [[], 2, ~, {}, {c: {}}, [[x]]]}", "k", &["[]", "2", "~", "{}", "{c:{}}", "[[\"x\",],]"], false),
    Base(b"[x,\n  {c: d}\n,]", "", &["\"x\"", "{c:\"d\"}"], false),
];

/// Perform one operation on the document and on the list.
#[inline(never)]
fn step(d: &mut Document, b: &Base, m: &mut Vec<Vec<u8>>, free: bool, all: bool) {
    let id = walk(d, b.1);
    let Some(mut x) = d.value_mut(id).into_sequence_mut() else { fail("the sequence isn't one any more") };
    match choose(if !all { 3 } else if b.3 { 12 } else { 9 }) {
        0 => {
            x.clear();
            m.clear();
        }
        1 => {
            // any index
            let i = if free { byte() as usize } else { choose(6) as usize };
            let had = x.remove(i);
            check!(had == (i < m.len()), "remove doesn't tell whether there was an item");
            if had {
                let mut n = 0;
                while n != i {
                    n += 1;
                }
                m.remove(n);
            }
        }
        2 => {
            let s = text(if free { 2 } else { 0 });
            x.push_string(&s);
            m.push(quoted(&s));
        }
        3 => {
            x.push_u64(12);
            m.push(b"12".to_vec());
        }
        4 => {
            let y = choose(2) == 1;
            x.push_bool(y);
            m.push(if y { b"true".to_vec() } else { b"false".to_vec() });
        }
        5 => {
            x.push(Separator::Auto).set_null(if choose(2) == 1 { Null::Tilde } else { Null::Keyword });
            m.push(b"~".to_vec());
        }
        6 => {
            x.push(Separator::Custom("  ")).set_i8(-3);
            m.push(b"-3".to_vec());
        }
        7 => {
            let i = if free { byte() as usize } else { choose(4) as usize };
            let got = x.get_mut(i);
            check!(got.is_some() == (i < m.len()), "get_mut doesn't find an item, or finds one that isn't there");
            if let Some(mut v) = got {
                let mut n = 0;
                while n != i {
                    n += 1;
                }
                v.set_string("w");
                m[n] = quoted("w");
            }
        }
        8 => {
            let i = choose(4) as usize;
            let got = x.get_into_mut(i);
            check!(got.is_some() == (i < m.len()), "get_into_mut doesn't find an item, or finds one that isn't there");
            if let Some(v) = got {
                if let Some(mut s) = v.into_mapping_mut() {
                    s.insert_u8("zz", 9);
                    let v = &mut m[i];
                    if !v.ends_with(b"zz:9}") {
                        v.pop();
                        v.extend_from_slice(b"zz:9}");
                    }
                }
            }
        }
        9 => {
            let clip = b.0.ends_with(b"\n") && choose(2) == 1;
            x.push_block(["l", "m: n"], Block::Literal(if clip { Chomp::Clip } else { Chomp::Strip }));
            m.push(quoted(if clip { "l\nm: n\n" } else { "l\nm: n" }));
        }
        10 => {
            let mut v = x.push(Separator::Auto).make_mapping();
            v.insert_str("p", "q");
            v.insert_str("r", "s");
            m.push(b"{p:\"q\"r:\"s\"}".to_vec());
        }
        _ => {
            let mut v = x.push(Separator::Auto).make_sequence();
            v.push_string("p");
            v.push_u8(1);
            m.push(b"[\"p\",1,]".to_vec());
        }
    }
}

/// An edit of any sequence of a large document.
#[inline(never)]
fn large(deep: bool) {
    use crate::gen::Kind;
    use crate::large;
    let (mut d, mut t, src) = large::document(if deep { 24 } else { 8 }, if deep { 40 } else { 25 }, 0);
    let at = large::pick(&t, large::Want::Seq);
    let id = large::id(&d, &at);
    let n = large::find(&mut t, &at);
    let Some(mut m) = d.value_mut(id).into_sequence_mut() else { fail("a sequence isn't one") };
    let old = n.kids.len();
    let k = choose(old as u32 + 1) as usize;
    let op = choose(4);
    let removed = (op == 0 || op == 2) && k < old;
    match op {
        0 => {
            check!(m.remove(k) == (k < old), "remove doesn't tell whether there was an item");
            if k < old {
                n.kids.remove(k);
            }
        }
        1 => {
            assume(k == 0);
            let w = large::word();
            m.push_string(&w);
            n.kids.push(large::leaf(Kind::Str, w.as_bytes()));
        }
        2 => {
            assume(k < old && old > 1);
            m.push_i16(-12345);
            m.remove(k);
            m.push_bool(false);
            n.kids.remove(k);
            n.kids.push(large::leaf(Kind::Number, b"-12345"));
            n.kids.push(large::leaf(Kind::False, b"false"));
        }
        _ => {
            assume(k == 0);
            m.clear();
            n.kids.clear();
        }
    }
    let again = n.flow || !n.kids.is_empty();
    if removed {
        large::reads_without(&d, &t, again, &src, &at, k, "KF-C14-1 a comment behind a removed item becomes a part of the block scalar in front of it");
    } else {
        large::reads(&d, &t, again);
    }
    reach(4);
}

/// A block scalar, and the item behind it, which has a comment, is removed.
#[inline(never)]
fn commented() {
    let w = crate::large::word();
    let value: &[u8] = [&b" b"[..], b" 'b'", b""][choose(3) as usize];
    let after: &[u8] = [&b""[..], b"- d\n"][choose(2) as usize];
    let src = [b"- |-\n  ", w.as_bytes(), b"\n-", value, b" # c\n", after].concat();
    note("input", &src);
    let Ok(mut d) = yaml::from_slice(&src) else { fail("the document is rejected") };
    let Some(mut m) = d.as_mut().into_sequence_mut() else { fail("a sequence isn't one") };
    check!(m.remove(1), "remove doesn't tell whether there was an item");
    let first = |d: &Document, t: &[u8]| match d.as_ref().as_sequence() {
        Some(s) => s.into_iter().next().map(|v| same(v.as_str().unwrap_or("").as_bytes(), t)).unwrap_or(false),
        None => false,
    };
    check!(first(&d, w.as_bytes()), "a removal changes what is in front of it");
    let e = reread(&d);
    if first(&e, &[w.as_bytes(), b" # c"].concat()) {
        fail("KF-C14-1 a comment behind a removed item becomes a part of the block scalar in front of it");
    }
    check!(first(&e, w.as_bytes()), "a removal changes what is in front of it when it is read back");
}

pub fn run() {
    let deep = tier() == 1;
    match choose(3) {
        0 => {}
        1 => return large(deep),
        _ => return commented(),
    }
    let b = &BASES[choose(BASES.len() as u32) as usize];
    let free = choose(2) == 1;
    // every operation in the places marked with a 1, removals, pushes of a string and `clear` in the others
    let plan: &[u8] = match (deep, free) {
        (false, true) => [b"01", b"10"][choose(2) as usize],
        (false, false) => [&b"010"[..], b"11"][choose(2) as usize],
        (true, true) => [b"011", b"110"][choose(2) as usize],
        (true, false) => [b"01101", b"11010"][choose(2) as usize],
    };
    note("document", b.0);
    let Ok(mut d) = yaml::from_slice(b.0) else { fail("the document is rejected") };
    let mut m: Vec<Vec<u8>> = b.2.iter().map(|v| v.as_bytes().to_vec()).collect();
    is_sequence(&d, b.1, &m);
    let others = outside(&d, b.1);
    for p in plan {
        step(&mut d, b, &mut m, free && (deep || *p == b'1'), *p == b'1');
        is_sequence(&d, b.1, &m);
        check!(same(&outside(&d, b.1), &others), "an edit of a sequence changes something outside of it");
    }
    reach(1);
    if m.is_empty() && b.3 {
        return;
    }
    let e = reread(&d);
    is_sequence(&e, b.1, &m);
    check!(same(&outside(&e, b.1), &others), "an edit of a sequence changes something outside of it when it is read back");
    reach(if b.3 { 2 } else { 3 });
}
