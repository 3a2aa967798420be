use crate::hooks::*;
use crate::places::*;
use crate::util::*;
use nondestructive::yaml::{self, Document, StringKind};

/// Strings with holes, of the kinds which need care when they are written.
const STRINGS: &[&[u8]] = &[
    b"tru?", b"?rue", b"fals?", b"nul?", b"~?", b"1?2", b"-?", b"-?1", b"?-", b"1.?", b"1e?", b"-1e-?",
    b"\\x?", b"a\\?", b"a'?", b"'?'", b"\"?\"", b"a: ?", b"a:?b", b"?: a", b"a #?", b"a?#", b"- ?", b"{?}", b"[?", b"a,?",
    b"a\n?", b"\n ?a", b"?\n\n", b"\ta?", b"a? ", b"|?", b">?", b"|\n?", b"---?", b"...?", b"%?", b"&?", b"*?a", b"!?", b"@?", b"`?", b"? ",
    b"\r?\n", b"a\r?", b"\xc2?a", b"\xe2\x80?", b"\xf0\x9f\x98?", b"\0?", b"a\0?", b"\x1b[?", b"key: [?]",
];

/// A string of up to `n` unconstrained bytes, or one of those above.
#[inline(never)]
fn text(n: usize, holes: bool) -> String {
    let v = if holes && choose(2) == 1 {
        tmpl(STRINGS[choose(STRINGS.len() as u32) as usize])
    } else {
        bytes(choose(n as u32 + 1) as usize)
    };
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

#[inline(never)]
fn look(d: &Document, at: usize, s: &str, rest: &[u8], when: &str) {
    let v = d.value(place(d, at, false));
    let Some(got) = v.as_str() else { fail(if when == "now" { "a string isn't there after it was set" } else { "a string isn't one any more when it is read back" }) };
    check!(same(got.as_bytes(), s.as_bytes()), "a string reads as another one");
    check!(v.as_number().is_none() && v.as_bool().is_none() && v.as_mapping().is_none() && v.as_sequence().is_none(), "a string has another type as well");
    check!(same(&around(d, at, false), rest), "something else than the string has changed");
}

pub fn run() {
    let at = choose(DOCS.len() as u32) as usize;
    let deep = tier() == 1;
    let mode = choose(3);
    let n = match (deep, at) {
        (false, 0 | 1 | 2 | 3) => 3,
        (false, _) => 2,
        (true, 0 | 1 | 2 | 3) => 4,
        (true, _) => 3,
    };
    let s = text(n, true);
    note("string", s.as_bytes());
    let mut d = base(at);
    let rest = around(&d, at, true);
    match (target(&mut d, at), mode) {
        (Target::Set(mut v), 0) => v.set_string(&s),
        (Target::Insert(mut m), 0) => m.insert_str("n", &s),
        (Target::Push(mut q), 0) => q.push_string(&s),
        (t, k) => {
            let kind = if k == 1 { StringKind::Single } else { StringKind::Double };
            match t {
                Target::Set(mut v) => v.set_string_with(&s, kind),
                Target::Insert(mut m) => m.insert("n", yaml::Separator::Auto).set_string_with(&s, kind),
                Target::Push(mut q) => q.push(yaml::Separator::Auto).set_string_with(&s, kind),
            }
        }
    }
    look(&d, at, &s, &rest, "now");
    let out = write(&d);
    note("written", &out);
    observe_bytes(&out);
    let Ok(e) = yaml::from_slice(&out) else { fail("the written document is rejected") };
    look(&e, at, &s, &rest, "later");
    reach(1 + mode as u32);
}
