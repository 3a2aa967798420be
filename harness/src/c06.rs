use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, ErrorKind};

/// What a quoted text means.
pub enum Decoded {
    Is(Vec<u8>),
    /// `known`: the escape `\\` occurs, which the library decodes as `"` (see KNOWN_FINDINGS.txt).
    Bad(Bad),
    /// The text ends early or never.
    Other,
}

#[derive(PartialEq, Clone, Copy)]
pub enum Bad {
    Escape,
    Hex,
    Unicode,
}

#[inline(never)]
fn hex(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a') as u32 + 10),
        b'A'..=b'F' => Some((b - b'A') as u32 + 10),
        _ => None,
    }
}

#[inline(never)]
fn utf8(c: u32, out: &mut Vec<u8>) {
    if c < 0x80 {
        out.push(c as u8);
    } else if c < 0x800 {
        out.push(0xc0 | (c >> 6) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    } else {
        out.push(0xe0 | (c >> 12) as u8);
        out.push(0x80 | ((c >> 6) & 0x3f) as u8);
        out.push(0x80 | (c & 0x3f) as u8);
    }
}

/// Decode the content of a double-quoted scalar; sets `known` when it has an escaped backslash, which
/// stands for `backslash`.
#[inline(never)]
pub fn double(t: &[u8], backslash: u8, known: &mut bool) -> Decoded {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let b = t[i];
        i += 1;
        if b == b'"' {
            return Decoded::Other;
        }
        if b != b'\\' {
            out.push(b);
            continue;
        }
        if i == t.len() {
            // the closing quote is escaped
            return Decoded::Other;
        }
        let b = t[i];
        i += 1;
        out.push(match b {
            b'0' => 0,
            b'a' => 7,
            b'b' => 8,
            b't' => 9,
            b'n' => 10,
            b'v' => 11,
            b'f' => 12,
            b'r' => 13,
            b'e' => 27,
            b'"' => b'"',
            b'\\' => {
                *known = true;
                backslash
            }
            b'x' | b'u' => {
                let (n, bad) = if b == b'x' { (2, Bad::Hex) } else { (4, Bad::Unicode) };
                let mut c = 0;
                for _ in 0..n {
                    let Some(h) = t.get(i).and_then(|b| hex(*b)) else { return Decoded::Bad(bad) };
                    c = c << 4 | h;
                    i += 1;
                }
                if c >= 0xd800 && c < 0xe000 {
                    return Decoded::Bad(bad);
                }
                utf8(c, &mut out);
                continue;
            }
            _ => return Decoded::Bad(Bad::Escape),
        });
    }
    Decoded::Is(out)
}

#[inline(never)]
fn single(t: &[u8]) -> Decoded {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'\'' {
            if i + 1 >= t.len() || t[i + 1] != b'\'' {
                return Decoded::Other;
            }
            i += 1;
        }
        out.push(t[i]);
        i += 1;
    }
    Decoded::Is(out)
}

const BEFORE: &[&[u8]] = &[b"", b"k: ", b"a: b\nk:\n    ", b"- x\n- ", b"[x, ", b"{k: ", b"a: {k: [", b"", b"a: b\n", b"{", b"{x: y, ", b"- ", b"- \"p\\tq\"\n- 'u''w'\n- ", b"[\"p\\tq\", 'u''w', "];
const AFTER: &[&[u8]] = &[b"", b"\nz: y\n", b" # c\n", b"\n- y\n", b", z]", b"}", b", y]}\n", b": v\n", b": v\nz: y\n", b": v}", b": v}", b": v\n", b"\n- 'r''s'\n- \"\\x41\"\n", b", 'r''s', \"\\x41\" ]\n"];
/// Where the scalar is the key of an entry whose value is `v`.
const KEYS: usize = 7;
/// Where there are other quoted scalars with escapes around it.
const AMONG: usize = 12;

/// Contents with more structure than a few arbitrary bytes.
const TEMPLATES: &[&[u8]] = &[
    b"\\x??", b"\\u????", b"\\x4?\\x?1", b"\\u00??", b"\\ud???", b"a\\?b", b"\\?\\?", b"\\\\\\?", b"''?''", b"?''?", b"\\u?fff?", b"\\\"?\\\"", b"\\x?", b"\\u???",
    b"\xe2\x82?\\t?",
];

#[inline(never)]
fn check(v: &yaml::Document, id: yaml::Id, want: &[u8], pinned: &[u8]) {
    let v = v.value(id);
    let Some(got) = v.as_bstr() else { fail("a quoted scalar isn't a string") };
    observe_bytes(got);
    note("content", got);
    if !same(got, want) {
        if same(got, pinned) {
            fail("KF-C06-1 the escape for a backslash decodes to something else");
        }
        fail("a quoted scalar reads as another content");
    }
    check!(v.as_bool().is_none() && v.as_number().is_none(), "a quoted scalar has another type");
    let s = v.as_str().map(|s| s.as_bytes());
    check!(s.is_some() == std::str::from_utf8(want).is_ok(), "as_str is there for bytes which aren't UTF-8, or isn't for UTF-8");
    match v.into_any() {
        yaml::Any::String(s) => check!(same(&s, want), "as_any gives another content"),
        _ => fail("as_any isn't a string"),
    }
}

pub fn run() {
    let at = choose(BEFORE.len() as u32) as usize;
    let q = if choose(2) == 0 { b'"' } else { b'\'' };
    let root = at == 0;
    let t = if choose(2) == 0 {
        let n = if tier() == 0 { if root { 5 } else { 3 } } else if root { 7 } else { 5 };
        bytes(choose(n + 1) as usize)
    } else {
        tmpl(TEMPLATES[choose(TEMPLATES.len() as u32) as usize])
    };
    for b in &t {
        assume(*b != 0);
    }
    let mut known = false;
    let want = if q == b'"' { double(&t, b'\\', &mut known) } else { single(&t) };
    if let Decoded::Other = want {
        assume(false);
    }
    let mut v = BEFORE[at].to_vec();
    v.push(q);
    v.extend_from_slice(&t);
    v.push(q);
    v.extend_from_slice(AFTER[at]);
    note("input", &v);
    let d = match (yaml::from_slice(&v), &want) {
        (Ok(d), Decoded::Is(_)) => d,
        (Err(e), Decoded::Bad(b)) => {
            let k = match e.kind() {
                ErrorKind::BadEscape => Bad::Escape,
                ErrorKind::BadHexEscape => Bad::Hex,
                ErrorKind::BadUnicodeEscape => Bad::Unicode,
                _ => fail("a bad escape is another error"),
            };
            check!(k == *b, "a bad escape is another kind of error");
            let s = e.span();
            let p = BEFORE[at].len() + 1;
            check!(s.start >= p && s.end <= p + t.len() + 2 && s.start < s.end, "the span isn't on the escape");
            check!(v[s.start] == b'\\', "the span doesn't start at the escape");
            reach(1);
            return;
        }
        (Ok(_), _) => fail("a bad escape is accepted"),
        (Err(_), _) => fail("a quoted scalar is rejected"),
    };
    let Decoded::Is(want) = want else { unreachable!() };
    // what the escape for a backslash decodes to in this library
    let mut pinned = want.clone();
    if known {
        if let Decoded::Is(p) = double(&t, b'"', &mut known) {
            pinned = p;
        }
    }
    let root = d.as_ref().id();
    if at >= KEYS && at < AMONG {
        let mut id = root;
        if at == 11 {
            id = item(&d, id, 0).unwrap_or_else(|| fail("the item is missing"));
        }
        let Some(m) = d.value(id).as_mapping() else { fail("a quoted key isn't a key") };
        let plain = same(&want, b"a") && at == 8 || same(&want, b"x") && at == 10 || same(&want, b"z") && at == 8;
        if plain {
            // another entry has the same key
            return;
        }
        reach(2);
        // found by its decoded text, and iterated with it
        let mut found = false;
        for (k, v) in &m {
            observe_bytes(k);
            if v.as_str() == Some("v") {
                found = true;
                if !same(k, &want) {
                    if same(k, &pinned) {
                        fail("KF-C06-1 the escape for a backslash decodes to something else");
                    }
                    fail("a quoted key has another text");
                }
            }
        }
        check!(found, "the entry with the quoted key is missing");
        let Ok(k) = std::str::from_utf8(&want) else { return };
        check!(m.get(k).and_then(|v| v.as_str().map(|s| s == "v")) == Some(true), "a quoted key isn't found");
        return;
    }
    reach(3);
    let id = match at {
        0 => Some(root),
        1 | 2 | 5 => entry(&d, root, "k"),
        3 | 4 => item(&d, root, 1),
        AMONG.. => item(&d, root, 2),
        _ => entry(&d, root, "a").and_then(|id| entry(&d, id, "k")).and_then(|id| item(&d, id, 0)),
    };
    check!(id.is_some(), "the quoted scalar isn't where it is written");
    check(&d, id.unwrap(), &want, &pinned);
    // what follows is still there
    match at {
        1 => check!(entry(&d, root, "z").is_some(), "what follows is missing"),
        AMONG.. => {
            let others: [(usize, &[u8]); 4] = [(0, b"p\tq"), (1, b"u'w"), (3, b"r's"), (4, b"A")];
            for (i, t) in others {
                let Some(id) = item(&d, root, i) else { fail("a neighbour is missing") };
                check!(same(&d.value(id).as_bstr().map(|s| s.to_vec()).unwrap_or_default(), t), "a quoted scalar changes what its neighbours read as");
            }
            check!(item(&d, root, 5).is_none(), "a quoted scalar is read twice");
        }
        3 | 4 => check!(item(&d, root, 2).is_some(), "what follows is missing"),
        _ => {}
    }
}
