use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Document, Id};

/// In front of the block, the indentation of its container, and what follows it.
struct Place {
    before: &'static [u8],
    indent: usize,
    after: &'static [u8],
}

const PLACES: &[Place] = &[
    Place { before: b"", indent: 0, after: b"" },
    Place { before: b"a: ", indent: 0, after: b"" },
    Place { before: b"a: ", indent: 0, after: b"b: y\n" },
    Place { before: b"x: w\na:  ", indent: 0, after: b"\"b\": y\nc: z\n" },
    Place { before: b"x:\n  a:\n    ", indent: 2, after: b"  b: y\nc: z" },
    Place { before: b"x:\n   a: ", indent: 3, after: b"c: z\n" },
    Place { before: b"- ", indent: 0, after: b"- y\n" },
    Place { before: b"x:\n- w\n- ", indent: 0, after: b"- y\nc: z\n" },
    Place { before: b"- a: ", indent: 2, after: b"  b: y\n- z\n" },
    Place { before: b"- - ", indent: 2, after: b"- z\n" },
    Place { before: b"\n - a: ", indent: 3, after: b" - z\n" },
];

#[inline(never)]
fn text_is(d: &Document, id: Option<Id>, t: &str) -> bool {
    match id {
        Some(id) => d.value(id).as_str() == Some(t),
        None => false,
    }
}

#[inline(never)]
fn len(d: &Document, id: Id) -> usize {
    match d.value(id).into_any() {
        yaml::Any::Mapping(m) => m.len(),
        yaml::Any::Sequence(s) => s.len(),
        _ => fail("a container is something else"),
    }
}

/// The block's value, after making sure that everything around it is there.
#[inline(never)]
fn find(d: &Document, at: usize) -> Option<Id> {
    let root = d.as_ref().id();
    let ok;
    let id = match at {
        0 => {
            ok = true;
            Some(root)
        }
        1 => {
            ok = len(d, root) == 1;
            entry(d, root, "a")
        }
        2 => {
            ok = len(d, root) == 2 && text_is(d, entry(d, root, "b"), "y");
            entry(d, root, "a")
        }
        3 => {
            ok = len(d, root) == 4
                && text_is(d, entry(d, root, "x"), "w")
                && text_is(d, entry(d, root, "b"), "y")
                && text_is(d, entry(d, root, "c"), "z");
            entry(d, root, "a")
        }
        4 => {
            let x = entry(d, root, "x")?;
            ok = len(d, root) == 2 && len(d, x) == 2 && text_is(d, entry(d, x, "b"), "y") && text_is(d, entry(d, root, "c"), "z");
            entry(d, x, "a")
        }
        5 => {
            let x = entry(d, root, "x")?;
            ok = len(d, root) == 2 && len(d, x) == 1 && text_is(d, entry(d, root, "c"), "z");
            entry(d, x, "a")
        }
        6 => {
            ok = len(d, root) == 2 && text_is(d, item(d, root, 1), "y");
            item(d, root, 0)
        }
        7 => {
            let x = entry(d, root, "x")?;
            ok = len(d, root) == 2
                && len(d, x) == 3
                && text_is(d, item(d, x, 0), "w")
                && text_is(d, item(d, x, 2), "y")
                && text_is(d, entry(d, root, "c"), "z");
            item(d, x, 1)
        }
        8 => {
            let x = item(d, root, 0)?;
            ok = len(d, root) == 2 && len(d, x) == 2 && text_is(d, entry(d, x, "b"), "y") && text_is(d, item(d, root, 1), "z");
            entry(d, x, "a")
        }
        9 => {
            let x = item(d, root, 0)?;
            ok = len(d, root) == 2 && len(d, x) == 1 && text_is(d, item(d, root, 1), "z");
            item(d, x, 0)
        }
        _ => {
            let x = item(d, root, 0)?;
            ok = len(d, root) == 2 && len(d, x) == 1 && text_is(d, item(d, root, 1), "z");
            entry(d, x, "a")
        }
    };
    if !ok {
        return None;
    }
    id
}

/// A line without whitespace around it, which isn't a comment.
#[inline(never)]
fn line(n: usize) -> Vec<u8> {
    let t = bytes(n);
    let g = |b: u8| b > 0x20 && b < 0x7f;
    assume(g(t[0]) && t[0] != b'#' && g(t[n - 1]));
    for b in &t {
        assume(*b != b'\n');
    }
    t
}

pub fn run() {
    let at = choose(PLACES.len() as u32) as usize;
    let p = &PLACES[at];
    let folded = choose(2) == 1;
    let chomp = choose(3);
    let deep = tier() == 1;

    // how it is laid out
    let lines = choose(4) as usize;
    let extra = [1, 2, 4][choose(3) as usize];
    let trail = if deep { choose(8) as usize } else { [0, 1, 2, 3, 7][choose(5) as usize] };
    let mut header: &[u8] = b"";
    let mut eol: &[u8] = b"\n";
    let mut blank: &[u8] = b"";
    // comments which follow it (not when its blank lines are kept)
    let mut comment: &[u8] = b"";
    match choose(if lines == 2 || deep { 8 } else { 1 }) {
        1 => header = b" ",
        2 => header = b" # c",
        3 => header = b"\t #",
        4 => eol = b"\r\n",
        5 => blank = b" ",
        6 => comment = b"# c",
        7 => comment = b"  # c",
        _ => {}
    }
    if !comment.is_empty() {
        assume(chomp != 2 && trail > 0);
    }
    assume(trail > 0 || p.after.is_empty());

    let mut v = p.before.to_vec();
    v.push(if folded { b'>' } else { b'|' });
    match chomp {
        1 => v.push(b'-'),
        2 => v.push(b'+'),
        _ => {}
    }
    v.extend_from_slice(header);
    v.extend_from_slice(eol);
    let mut want = Vec::new();
    for i in 0..lines {
        let t = line(match i {
            0 => {
                if deep {
                    4
                } else {
                    3
                }
            }
            1 => 2,
            _ => 1,
        });
        for _ in 0..p.indent + extra {
            v.push(b' ');
        }
        v.extend_from_slice(&t);
        want.extend_from_slice(&t);
        if i + 1 == lines {
            break;
        }
        let gap = if deep { 1 + choose(7) as usize } else { [1, 2, 3, 6][choose(4) as usize] };
        for n in 0..gap {
            if n > 0 {
                v.extend_from_slice(blank);
            }
            v.extend_from_slice(eol);
            if !folded {
                want.push(b'\n');
            }
        }
        if folded {
            want.push(b' ');
        }
    }
    for n in if lines == 0 { 1 } else { 0 }..trail {
        if n > 0 {
            v.extend_from_slice(blank);
        }
        v.extend_from_slice(eol);
        match chomp {
            2 => want.push(b'\n'),
            0 if n == 0 => want.push(b'\n'),
            _ => {}
        }
    }
    if !comment.is_empty() {
        v.extend_from_slice(comment);
        v.extend_from_slice(eol);
    }
    if p.after.is_empty() && comment.is_empty() && choose(2) == 1 {
        // spaces in front of the end of the input
        let n = [1, p.indent + extra, p.indent + extra + 1][choose(3) as usize];
        for _ in 0..n {
            v.push(b' ');
        }
    }
    v.extend_from_slice(p.after);
    note("input", &v);
    note("expected", &want);
    let Ok(d) = yaml::from_slice(&v) else { fail("a block scalar is rejected") };
    let Some(id) = find(&d, at) else { fail("the block scalar, or something around it, is missing") };
    let v = d.value(id);
    let Some(got) = v.as_bstr() else { fail("a block scalar isn't a string") };
    note("got", got);
    observe_bytes(got);
    if lines == 0 {
        // only what's around it matters
        reach(3);
        return;
    }
    reach(1 + folded as u32);
    check!(same(got, &want), "a block scalar reads as another text");
    check!(
        v.as_str().map(|s| s.as_bytes()) == std::str::from_utf8(&want).ok().map(|s| s.as_bytes()),
        "as_str and as_bstr differ"
    );
}
