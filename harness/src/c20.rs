use crate::gen::*;
use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Id};

#[inline(never)]
fn shown(s: &str, want: &[u8]) {
    note("shown", s.as_bytes());
    note("expected", want);
    check!(same(s.as_bytes(), want), "a part isn't displayed as its source text");
}

#[inline(never)]
fn parts(d: &Document, id: Id, t: &T, src: &[u8]) {
    let v = d.value(id);
    let want = &src[t.start..t.end];
    shown(&v.to_string(), want);
    match v.as_any() {
        Any::String(s) => check!(same(s.as_raw(), &src[t.raw..t.end]), "String::as_raw isn't the source text"),
        Any::Number(n) => check!(same(n.as_raw(), want), "Number::as_raw isn't the source text"),
        _ => {}
    }
    if let Some(m) = v.as_mapping() {
        reach(1);
        shown(&m.to_string(), want);
        let ids: Vec<Id> = m.iter().map(|(_, v)| v.id()).collect();
        check!(ids.len() == t.kids.len(), "a mapping has another number of entries");
        for i in 0..ids.len() {
            parts(d, ids[i], &t.kids[i], src);
        }
    } else if let Some(s) = v.as_sequence() {
        reach(2);
        shown(&s.to_string(), want);
        let ids: Vec<Id> = s.iter().map(|v| v.id()).collect();
        check!(ids.len() == t.kids.len(), "a sequence has another number of items");
        for i in 0..ids.len() {
            parts(d, ids[i], &t.kids[i], src);
        }
    } else {
        reach(if want.is_empty() { 3 } else { 4 });
    }
}

/// A quoted scalar with unconstrained content, which may have escapes, next to other things.
#[inline(never)]
fn quoted() {
    let q = [b'"', b'\''][choose(2) as usize];
    let n = if tier() == 0 { 3 } else { 5 };
    let mut t = vec![q];
    t.extend_from_slice(&bytes(choose(n + 1) as usize));
    t.push(q);
    // the scalar ends where it is meant to
    let mut i = 1;
    while i < t.len() - 1 {
        assume(t[i] != 0);
        if q == b'"' && t[i] == b'\\' {
            i += 1;
        } else if t[i] == q {
            i += 1;
            assume(q == b'\'' && t[i] == q && i < t.len() - 1);
        }
        i += 1;
    }
    assume(i == t.len() - 1 && std::str::from_utf8(&t).is_ok());
    let at = choose(4) as usize;
    let mut src = [&b""[..], b"a:  ", b"- ", b"[ "][at].to_vec();
    src.extend_from_slice(&t);
    src.extend_from_slice([&b""[..], b" # c\nb: d", b"\n- d", b" , 'd']"][at]);
    note("input", &src);
    let Ok(d) = yaml::from_slice(&src) else { return };
    let root = d.as_ref().id();
    let id = match at {
        0 => Some(root),
        1 => entry(&d, root, "a"),
        _ => item(&d, root, 0),
    };
    let Some(id) = id else { fail("the scalar is missing") };
    let v = d.value(id);
    shown(&v.to_string(), &t);
    match v.as_any() {
        Any::String(s) => check!(same(s.as_raw(), &t), "String::as_raw isn't the source text"),
        _ => fail("a quoted scalar isn't a string"),
    }
    reach(5);
}

pub fn run() {
    if choose(2) == 1 {
        return quoted();
    }
    let deep = tier() == 1;
    let style = choose(STYLES.len() as u32) as usize;
    let mut g = match choose(4) {
        3 => Gen::large(choose(if deep { 32 } else { 8 }) as usize, if deep { 40 } else { 25 }, 1),
        // a single scalar
        2 => Gen::new(0, style, 3),
        0 => Gen::new(if deep { 4 } else { 3 }, style, 0),
        _ => Gen::new(2, style, if deep { 2 } else { 1 }),
    };
    g.blocks = true;
    let t = g.document();
    note("input", &g.out);
    let Ok(d) = yaml::from_slice(&g.out) else { fail("the document is rejected") };
    parts(&d, d.as_ref().id(), &t, &g.out);
}
