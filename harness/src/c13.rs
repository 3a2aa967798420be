use crate::hooks::*;
use crate::model::*;
use crate::places::walk;
use crate::util::*;
use nondestructive::yaml::{self, Block, Chomp, Document, Null, Separator};

/// A document, where the mapping is in it, its entries, and whether it is a block mapping.
struct Base(&'static [u8], &'static str, &'static [(&'static str, &'static str)], bool);

const BASES: &[Base] = &[
    Base(b"a: 1\nb: x\n", "", &[("a", "1"), ("b", "\"x\"")], true),
    Base(b"{a: 1, b: x}\n", "", &[("a", "1"), ("b", "\"x\"")], false),
    Base(b"k: # c\n  a: 1\n\n  # d\n  b: [x, y]\nl: z\n", "k", &[("a", "1"), ("b", "[\"x\",\"y\",]")], true),
    Base(b"k: { a: 1 , b: x, } # c\nl: z\n", "k", &[("a", "1"), ("b", "\"x\"")], false),
    Base(b"- a:\n    x: y\n  b: 'q'\n- z\n", "0", &[("a", "{x:\"y\"}"), ("b", "\"q\"")], true),
    Base(b"[{\"a\": 'x', b: }, z]", "0", &[("a", "\"x\""), ("b", "~")], false),
    Base(b"a: 1\na: 2\nb:", "", &[("a", "1"), ("a", "2"), ("b", "~")], true),
    Base(b"k:\n      a: |\n        x\n        y\n      b: >-\n       z\nl: m\n", "k", &[("a", "\"x\ny\n\""), ("b", "\"z\"")], true),
    Base(b"  - - a: b\n  - z", "00", &[("a", "\"b\"")], true),
    Base(b"k: {}\nl: z\n", "k", &[], false),
    Base(b"a:\r\n  c: d\r\nb: e\r\n", "", &[("a", "{c:\"d\"}"), ("b", "\"e\"")], true),
    Base(b"c: {}\nd: 5\na: []\nb:\nab: ''\ne: f\n", "", &[("c", "{}"), ("d", "5"), ("a", "[]"), ("b", "~"), ("ab", "\"\""), ("e", "\"f\"")], true),
    Base(b"[{c: {}, \"a\": 5, a: [], b: , ab: {c: [x]}}]", "0", &[("c", "{}"), ("a", "5"), ("a", "[]"), ("b", "~"), ("ab", "{c:[\"x\",]}")], false),
    Base(b"{a: {c: d,\n  }\n,}", "", &[("a", "{c:\"d\"}")], false),
];

#[inline(never)]
fn key(free: bool) -> String {
    if free {
        let b = byte();
        assume(b >= b'a' && b <= b'z');
        String::from(b as char)
    } else {
        String::from(["a", "b", "n", "ab"][choose(4) as usize])
    }
}

#[inline(never)]
fn put(m: &mut Entries, k: &str, v: Vec<u8>) {
    match find(m, k.as_bytes()) {
        Some(i) => m[i].1 = v,
        None => m.push((k.as_bytes().to_vec(), v)),
    }
}

/// Perform one operation on the document and on the list.
#[inline(never)]
fn step(d: &mut Document, b: &Base, m: &mut Entries, free: bool, all: bool) -> String {
    let id = walk(d, b.1);
    let Some(mut x) = d.value_mut(id).into_mapping_mut() else { fail("the mapping isn't one any more") };
    let op = choose(if !all { 3 } else if b.3 { 12 } else { 9 });
    if op == 0 {
        x.clear();
        m.clear();
        return String::from("a");
    }
    let k = key(free);
    match op {
        1 => {
            let had = x.remove(&k);
            let i = find(m, k.as_bytes());
            check!(had == i.is_some(), "remove doesn't tell whether there was an entry");
            if let Some(i) = i {
                m.remove(i);
            }
        }
        2 => {
            let s = text(free as usize);
            x.insert_str(&k, &s);
            put(m, &k, quoted(&s));
        }
        3 => {
            x.insert_u16(&k, 12);
            put(m, &k, b"12".to_vec());
        }
        4 => {
            let y = choose(2) == 1;
            x.insert_bool(&k, y);
            put(m, &k, if y { b"true".to_vec() } else { b"false".to_vec() });
        }
        5 => {
            x.insert(&k, Separator::Auto).set_null(Null::Keyword);
            put(m, &k, b"~".to_vec());
        }
        6 => {
            x.insert(&k, Separator::Custom("  ")).set_i8(-3);
            put(m, &k, b"-3".to_vec());
        }
        7 => {
            let got = x.get_mut(&k);
            let i = find(m, k.as_bytes());
            check!(got.is_some() == i.is_some(), "get_mut doesn't find an entry, or finds one that isn't there");
            if let Some(mut v) = got {
                v.set_string("w");
            }
            if let Some(i) = i {
                m[i].1 = quoted("w");
            }
        }
        8 => {
            // into the value that is there already
            let got = x.get_into_mut(&k);
            let i = find(m, k.as_bytes());
            check!(got.is_some() == i.is_some(), "get_into_mut doesn't find an entry, or finds one that isn't there");
            if let Some(v) = got {
                if let Some(mut s) = v.into_sequence_mut() {
                    s.push_u8(9);
                    let v = &mut m[i.unwrap()].1;
                    v.pop();
                    v.extend_from_slice(b"9,]");
                }
            }
        }
        9 => {
            x.insert_block(&k, ["l", "m: n"], if b.0.ends_with(b"\n") && choose(2) == 1 { Block::Literal(Chomp::Clip) } else { Block::Literal(Chomp::Strip) });
            // dumped below
            let Some(id) = entry(d, walk(d, b.1), &k) else { fail("a block isn't there after it was inserted") };
            let v = dumped(d, id);
            check!(same(&v, b"\"l\nm: n\n\"") || same(&v, b"\"l\nm: n\""), "a block reads as something else");
            put(m, &k, v);
        }
        10 => {
            let mut v = x.insert(&k, Separator::Auto).make_mapping();
            v.clear();
            v.insert_str("p", "q");
            put(m, &k, b"{p:\"q\"}".to_vec());
        }
        _ => {
            let mut v = x.insert(&k, Separator::Auto).make_sequence();
            v.clear();
            v.push_string("p");
            v.push_u8(1);
            put(m, &k, b"[\"p\",1,]".to_vec());
        }
    }
    k
}

/// An edit of any mapping of a large document.
#[inline(never)]
fn large(deep: bool) {
    use crate::gen::Kind;
    use crate::large;
    let (mut d, mut t, src) = large::document(if deep { 24 } else { 8 }, if deep { 40 } else { 25 }, 0);
    let at = large::pick(&t, large::Want::Map);
    let id = large::id(&d, &at);
    let n = large::find(&mut t, &at);
    let Some(mut m) = d.value_mut(id).into_mapping_mut() else { fail("a mapping isn't one") };
    let old = n.keys.len();
    // up to two of them
    let k = choose(old as u32 + 1) as usize;
    let key = if k < old { String::from_utf8(n.keys[k].clone()).unwrap() } else { String::from("a new key") };
    let op = choose(4);
    let removed = (op == 0 || op == 2) && k < old;
    match op {
        0 => {
            check!(m.remove(&key) == (k < old), "remove doesn't tell whether there was an entry");
            if k < old {
                n.keys.remove(k);
                n.kids.remove(k);
            }
        }
        1 => {
            let w = large::word();
            m.insert_str(&key, &w);
            let x = large::leaf(Kind::Str, w.as_bytes());
            if k < old {
                n.kids[k] = x;
            } else {
                n.keys.push(key.into_bytes());
                n.kids.push(x);
            }
        }
        2 => {
            // remove one, insert it at the end
            assume(k < old && old > 1);
            m.remove(&key);
            m.insert_i16(&key, -12345);
            let key = n.keys.remove(k);
            n.kids.remove(k);
            n.keys.push(key);
            n.kids.push(large::leaf(Kind::Number, b"-12345"));
        }
        _ => {
            assume(k == old);
            m.clear();
            n.keys.clear();
            n.kids.clear();
        }
    }
    let again = n.flow || !n.kids.is_empty();
    if removed {
        large::reads_without(&d, &t, again, &src, &at, k, "KF-C13-1 a comment behind a removed entry becomes a part of the block scalar in front of it");
    } else {
        large::reads(&d, &t, again);
    }
    reach(4);
}

/// A block scalar, and the entry behind it, which has a comment, is removed.
#[inline(never)]
fn commented() {
    let w = crate::large::word();
    let value: &[u8] = [&b" b"[..], b" 'b'", b""][choose(3) as usize];
    let after: &[u8] = [&b""[..], b"z: d\n"][choose(2) as usize];
    let src = [b"x: |-\n  ", w.as_bytes(), b"\ny:", value, b" # c\n", after].concat();
    note("input", &src);
    let Ok(mut d) = yaml::from_slice(&src) else { fail("the document is rejected") };
    let Some(mut m) = d.as_mut().into_mapping_mut() else { fail("a mapping isn't one") };
    check!(m.remove("y"), "remove doesn't tell whether there was an entry");
    let first = |d: &Document, t: &[u8]| match d.as_ref().as_mapping() {
        Some(s) => s.into_iter().next().map(|v| same(v.1.as_str().unwrap_or("").as_bytes(), t)).unwrap_or(false),
        None => false,
    };
    check!(first(&d, w.as_bytes()), "a removal changes what is in front of it");
    let e = reread(&d);
    if first(&e, &[w.as_bytes(), b" # c"].concat()) {
        fail("KF-C13-1 a comment behind a removed entry becomes a part of the block scalar in front of it");
    }
    check!(first(&e, w.as_bytes()), "a removal changes what is in front of it when it is read back");
}

pub fn run() {
    let deep = tier() == 1;
    match choose(3) {
        0 => {}
        1 => return large(deep),
        _ => return commented(),
    }
    let b = &BASES[choose(BASES.len() as u32) as usize];
    let free = choose(2) == 1;
    // every operation in the places marked with a 1, removals, insertions and `clear` in the others
    let plan: &[u8] = match (deep, free) {
        (false, true) => [b"01", b"10"][choose(2) as usize],
        (false, false) => b"010",
        (true, true) => [b"011", b"110"][choose(2) as usize],
        (true, false) => [b"0101", b"0110"][choose(2) as usize],
    };
    note("document", b.0);
    let Ok(mut d) = yaml::from_slice(b.0) else { fail("the document is rejected") };
    let mut m: Entries = b.2.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    is_mapping(&d, b.1, &m, "c");
    let others = outside(&d, b.1);
    for p in plan {
        let k = step(&mut d, b, &mut m, free && (deep || *p == b'1'), *p == b'1');
        note("key", k.as_bytes());
        is_mapping(&d, b.1, &m, &k);
        check!(same(&outside(&d, b.1), &others), "an edit of a mapping changes something outside of it");
    }
    reach(1);
    if m.is_empty() && b.3 {
        return;
    }
    let e = reread(&d);
    is_mapping(&e, b.1, &m, "a");
    check!(same(&outside(&e, b.1), &others), "an edit of a mapping changes something outside of it when it is read back");
    reach(if b.3 { 2 } else { 3 });
}
