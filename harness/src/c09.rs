use crate::gen::*;
use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Document, Id, Null, StringKind};

pub struct Leaf {
    id: Id,
    start: usize,
    end: usize,
    /// The mapping entry which it is the value of.
    entry: Option<(Id, Vec<u8>)>,
}

/// The scalars in the order in which they are written.
#[inline(never)]
pub fn leaves(d: &Document, id: Id, t: &T, entry: Option<(Id, Vec<u8>)>, out: &mut Vec<Leaf>) {
    let mut ids = Vec::new();
    match t.kind {
        Kind::Map => {
            for (_, v) in d.value(id).as_mapping().unwrap_or_else(|| fail("a mapping is missing")).iter() {
                ids.push(v.id());
            }
        }
        Kind::Seq => {
            for v in d.value(id).as_sequence().unwrap_or_else(|| fail("a sequence is missing")).iter() {
                ids.push(v.id());
            }
        }
        _ => {
            out.push(Leaf { id, start: t.start, end: t.end, entry });
            return;
        }
    }
    check!(ids.len() == t.kids.len(), "a container has another number of entries");
    for i in 0..ids.len() {
        // the first entry with that key
        let mut e = None;
        if t.kind == Kind::Map {
            let mut first = true;
            for k in &t.keys[..i] {
                first &= !same(k, &t.keys[i]);
            }
            if first {
                e = Some((id, t.keys[i].clone()));
            }
        }
        leaves(d, ids[i], &t.kids[i], e, out);
    }
}

/// The text with those parts replaced, an omitted one separated from what's in front of it.
#[inline(never)]
fn splice(src: &[u8], parts: &[(usize, usize, &[u8])]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut at = 0;
    for (start, end, text) in parts {
        out.extend_from_slice(&src[at..*start]);
        if start == end {
            out.push(b' ');
        }
        out.extend_from_slice(text);
        at = *end;
    }
    out.extend_from_slice(&src[at..]);
    out
}

#[inline(never)]
fn written(d: &Document, want: &[u8]) {
    let got = write(d);
    note("written", &got);
    note("expected", want);
    observe_bytes(&got);
    check!(same(&got, want), "something else than the scalar's own text changed");
    check!(same(d.to_string().as_bytes(), &got), "Display and write_to differ");
}

#[inline(never)]
fn text(n: usize) -> String {
    let v = bytes(choose(n as u32 + 1) as usize);
    for b in &v {
        assume(*b < 0x80);
    }
    String::from_utf8(v).unwrap_or_default()
}

/// Replace a scalar by something else; its new text when that is fixed.
#[inline(never)]
fn set(d: &mut Document, l: &Leaf) -> Option<&'static [u8]> {
    if let (Some((m, k)), true) = (&l.entry, choose(2) == 1) {
        let k = std::str::from_utf8(k).unwrap_or_default();
        let mut v = d.value_mut(*m);
        let Some(mut m) = v.as_mapping_mut() else { fail("a mapping is missing") };
        reach(2);
        match choose(4) {
            0 => {
                m.insert_bool(k, true);
                return Some(b"true");
            }
            1 => {
                let s = text(1);
                m.insert_str(k, &s);
                return None;
            }
            2 => {
                m.insert_i64(k, -20);
                return Some(b"-20");
            }
            _ => {
                m.insert(k, yaml::Separator::Auto).set_bool(false);
                return Some(b"false");
            }
        }
    }
    let mut v = d.value_mut(l.id);
    reach(1);
    match choose(10) {
        0 => v.set_bool(false),
        1 => v.set_null(Null::Tilde),
        2 => v.set_null(Null::Keyword),
        3 => v.set_i8(byte() as i8),
        4 => {
            let s = text(1);
            v.set_string(&s)
        }
        5 => {
            let s = text(1);
            v.set_string_with(&s, StringKind::Single)
        }
        6 => {
            let s = text(1);
            v.set_string_with(&s, StringKind::Double)
        }
        7 => v.set_u64(u64::MAX),
        8 => v.set_f64(1.5),
        _ => {
            // twice
            v.set_string("first");
            v.set_u8(7);
            return Some(b"7");
        }
    }
    None
}

/// Any scalar of a large document, or all of them.
#[inline(never)]
fn large(deep: bool) {
    let (mut d, t, src) = crate::large::document(if deep { 24 } else { 8 }, if deep { 40 } else { 25 }, 0);
    let mut all = Vec::new();
    leaves(&d, d.as_ref().id(), &t, None, &mut all);
    assume(!all.is_empty());
    let w = crate::large::word();
    reach(4);
    let op = choose(4);
    if op == 3 {
        let mut parts = Vec::new();
        for l in all.iter().rev() {
            d.value_mut(l.id).set_string(&w);
        }
        for l in &all {
            parts.push((l.start, l.end, w.as_bytes()));
        }
        written(&d, &splice(&src, &parts));
        return;
    }
    let l = &all[choose(all.len() as u32) as usize];
    let mut want = w.as_bytes().to_vec();
    match (op, &l.entry) {
        (0, _) => d.value_mut(l.id).set_string(&w),
        (1, Some((m, k))) => {
            let mut v = d.value_mut(*m);
            let Some(mut m) = v.as_mapping_mut() else { fail("a mapping is missing") };
            m.insert_str(std::str::from_utf8(k).unwrap_or_default(), &w)
        }
        _ => {
            d.value_mut(l.id).set_i64(i64::MIN);
            want = b"-9223372036854775808".to_vec();
        }
    }
    written(&d, &splice(&src, &[(l.start, l.end, &want)]));
}

pub fn run() {
    let deep = tier() == 1;
    let mode = choose(4);
    if mode == 3 {
        return large(deep);
    }
    let style = choose(STYLES.len() as u32) as usize;
    let two = mode == 2;
    let mut g = match mode {
        // fixed values replaced by unconstrained ones, and the other way round
        0 => Gen::new(if deep { 3 } else { 2 }, style, 0),
        1 => Gen::new(if deep { 3 } else { 2 }, style, 1),
        _ => Gen::new(if deep { 4 } else { 3 }, style, 0),
    };
    g.blocks = true;
    let t = g.document();
    let src = &g.out;
    note("input", src);
    let Ok(mut d) = yaml::from_slice(src) else { fail("the document is rejected") };
    let mut all = Vec::new();
    leaves(&d, d.as_ref().id(), &t, None, &mut all);
    if all.is_empty() {
        return;
    }
    if two {
        // all but one of them, in some order
        let n = all.len();
        let first = choose(n as u32) as usize;
        let step = if n > 2 && choose(2) == 1 { n - 1 } else { 1 };
        let rest = if n > 1 { n - choose(2) as usize } else { 1 };
        let mut values: Vec<Option<&[u8]>> = vec![None; n];
        let mut at = first;
        for i in 0..rest {
            let mut v = d.value_mut(all[at].id);
            values[at] = Some(match i {
                0 => {
                    v.set_string("a new text");
                    b"a new text"
                }
                1 => {
                    v.set_u16(1000);
                    b"1000"
                }
                2 => {
                    v.set_null(Null::Tilde);
                    b"~"
                }
                _ => {
                    v.set_string("# it");
                    b"'# it'"
                }
            });
            at = (at + step) % n;
        }
        let mut parts = Vec::new();
        for i in 0..n {
            if let Some(v) = values[i] {
                parts.push((all[i].start, all[i].end, v));
            }
        }
        reach(3);
        written(&d, &splice(src, &parts));
        return;
    }
    let l = &all[choose(all.len() as u32) as usize];
    let want = if mode == 0 {
        set(&mut d, l)
    } else {
        d.value_mut(l.id).set_string("new text");
        Some(&b"new text"[..])
    };
    let id = match &l.entry {
        // inserting may make another value
        Some((m, k)) => entry(&d, *m, std::str::from_utf8(k).unwrap_or_default()).unwrap_or_else(|| fail("the entry is gone")),
        None => l.id,
    };
    let text = d.value(id).to_string();
    if let Some(w) = want {
        check!(same(text.as_bytes(), w), "a value is written as something else");
    }
    check!(!text.is_empty(), "a value is written as nothing");
    written(&d, &splice(src, &[(l.start, l.end, text.as_bytes())]));
}
