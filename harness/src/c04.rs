use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Value};

use crate::class::*;

#[inline(never)]
fn views(v: &Value<'_>) -> K {
    let (b, s, n, m, q) = (v.as_bool(), v.as_bstr(), v.as_number().is_some(), v.as_mapping().is_some(), v.as_sequence().is_some());
    let cnt = b.is_some() as u32 + s.is_some() as u32 + n as u32 + m as u32 + q as u32;
    let k = match v.as_any() {
        Any::Null => {
            check!(cnt == 0, "a null has another typed view");
            K::Null
        }
        Any::Bool(x) => {
            check!(cnt == 1 && b == Some(x), "as_any and as_bool differ");
            if x {
                K::True
            } else {
                K::False
            }
        }
        Any::Number(_) => {
            check!(cnt == 1 && n, "as_any and as_number differ");
            K::Number
        }
        Any::String(x) => {
            check!(cnt == 1 && s.is_some(), "as_any and as_str differ");
            check!(same(&x, s.unwrap()), "as_any and as_bstr give different strings");
            check!(v.as_str().map(|s| s.as_bytes()) == std::str::from_utf8(s.unwrap()).ok().map(|s| s.as_bytes()), "as_str and as_bstr differ");
            K::Str
        }
        _ => fail("a scalar reads as a container"),
    };
    // every accessor applies only to its own type
    if k != K::Number {
        check!(
            v.as_u64().is_none() && v.as_i8().is_none() && v.as_i128().is_none(),
            "a value which isn't a number has an integer"
        );
    }
    if k != K::Str {
        check!(v.as_str().is_none(), "a value which isn't a string has a str");
    }
    k
}

#[inline(never)]
fn judge(v: &Value<'_>, t: &[u8]) {
    let k = views(v);
    let want = classify(t);
    observe(want as u64);
    check!(k == want, "a plain scalar reads as the wrong type");
    match k {
        K::Str => {
            check!(same(v.as_bstr().unwrap(), t), "a plain string isn't its own text");
            reach(1)
        }
        K::Number => {
            check!(same(v.as_number().unwrap().as_raw(), t), "a number isn't its own text");
            reach(2)
        }
        K::Null => reach(3),
        K::True => reach(4),
        K::False => reach(5),
    }
}

const CTX: &[(&[u8], &[u8], bool)] = &[
    (b"", b"", false),
    (b"k: ", b"\n", false),
    (b"- ", b"\n", false),
    (b"[", b"]", true),
    (b"{k: ", b"}", true),
    (b"k: ", b"", false),
    (b"[a, ", b",b]", true),
    (b"k:\n  ", b"\n", false),
    (b"{j: i, k:", b", l: m}", true),
    (b"- a\n- ", b"\n- b", false),
    (b"a: b\nk:\t", b"\r\nc: d\n", false),
    (b" ", b" \n", false),
    (b"k: ", b" # c: d\n", false),
    (b"- ", b"\t#x\n", false),
    (b"[", b" # c, ]\n]", true),
    (b"{k: ", b"  }", true),
];

#[inline(never)]
fn find<'a>(d: &'a Document, c: usize) -> Value<'a> {
    let r = d.as_ref().id();
    let id = match c {
        0 | 11 => Some(r),
        1 | 4 | 5 | 7 | 8 | 10 | 12 | 15 => entry(d, r, "k"),
        _ => item(d, r, if c == 6 || c == 9 { 1 } else { 0 }),
    };
    match id {
        Some(id) => d.value(id),
        None => fail("the value is missing"),
    }
}

/// Where a value is omitted: (text, number of values to look at).
const OMIT: &[&[u8]] = &[b"k:?", b"k:?\nl: m", b"{k:?}", b"{k:?,l: m}", b"- a\n-", b"-\n- b", b"- a\n-?\n- b", b"l: m\nk:?\n", b"- k:?\n  l: m\n", b"", b"?"];

#[inline(never)]
fn omitted(t: &[u8]) {
    let ws = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0c);
    let v = tmpl(t);
    for i in 0..t.len() {
        if t[i] == b'?' {
            assume(ws(v[i]));
        }
    }
    note("input", &v);
    let Ok(d) = yaml::from_slice(&v) else { fail("an omitted value is rejected") };
    let mut r = d.as_ref().id();
    if t.starts_with(b"- k") {
        r = match item(&d, r, 0) {
            Some(v) => v,
            None => fail("the item is missing"),
        };
    }
    let id = if t.len() < 2 {
        Some(r)
    } else if d.value(r).as_mapping().is_some() {
        entry(&d, r, "k")
    } else {
        item(&d, r, if t.starts_with(b"-\n") { 0 } else { 1 })
    };
    let v = match id {
        Some(id) => d.value(id),
        None => fail("the value is missing"),
    };
    check!(views(&v) == K::Null, "an omitted value isn't null");
    reach(6);
}

pub fn run() {
    let c = choose(CTX.len() as u32 + 1) as usize;
    if c == CTX.len() {
        return omitted(OMIT[choose(OMIT.len() as u32) as usize]);
    }
    let (pre, post, flow) = CTX[c];
    let max = if tier() == 0 { 4 } else { 6 };
    let mut n = 1 + choose(max) as usize;
    let mut t;
    if tier() == 0 && n == 4 && choose(2) == 1 {
        // longer texts around the keywords
        let w: &[u8] = [&b"fals?"[..], b"??lse", b"tru??", b"?null", b"nul??", b"-1.?e?", b"12?.?3", b"?1e?2"][choose(8) as usize];
        t = tmpl(w);
        n = t.len();
    } else {
        t = bytes(n);
    }
    assume(plain(&t, flow));
    let mut v = pre.to_vec();
    v.append(&mut t.clone());
    v.extend_from_slice(post);
    note("input", &v);
    let Ok(d) = yaml::from_slice(&v) else { fail("a plain scalar is rejected") };
    judge(&find(&d, c), &t);
    t.clear();
}
