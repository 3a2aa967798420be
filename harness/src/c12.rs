use crate::hooks::*;
use crate::places::{dump, walk};
use crate::util::*;
use nondestructive::yaml::{self, Block, Chomp, Document, Id, Separator};

/// A document, the way from its root to a value (a letter for an entry, a digit for an item) and what
/// is done there: `=` set, `+` insert, `-` push, `M` and `S` make a mapping or sequence first.
/// `k`: also with a kept final line break (nothing else follows that would count as one).
struct Place(&'static [u8], &'static str, u8, bool);

/// A comment follows the value.
const COMMENTED: &[u8] = b"a: x # c\nb: y\n";

const PLACES: &[Place] = &[
    Place(b"x\n", "", b'=', true),
    Place(b"a: x\nb: y\n", "a", b'=', true),
    Place(b"a: x\nb: y\n", "b", b'=', true),
    Place(b"k:\n- x\n- y\n", "k0", b'=', true),
    Place(b"k:\n- x\n- y\nl: z\n", "k1", b'=', true),
    Place(b"- - x\n  - y\n- z\n", "00", b'=', true),
    Place(b"- - x\n  - y\n- z\n", "01", b'=', true),
    Place(b"a:\nb: y\n", "a", b'=', true),
    Place(b"a:\n   b:\n     c: x\n     d: y\n   e: z\nf: w\n", "abc", b'=', true),
    Place(b"a:\n   b:\n     c: x\n     d: y\n   e: z\nf: w\n", "abd", b'=', true),
    Place(b"- a: x\n  b: y\n- c\n", "0a", b'=', true),
    Place(b"- a: x\n  b: y\n- c\n", "0b", b'=', true),
    Place(b"-   a: x\n    b: y\n- z\n", "0b", b'=', true),
    Place(b"a: x\n\n# comment\nb: y\n", "a", b'=', false),
    Place(COMMENTED, "a", b'=', true),
    Place(b"# comment\n\na: 'x'\nb: \"y\"\n", "b", b'=', true),
    Place(b"a: |\n  o\n  p\nb: y\n", "a", b'=', true),
    Place(b"a: >-\n   o\nb: y\n", "b", b'=', true),
    Place(b"a: [x, y]\nb: {c: z}\n", "a", b'=', true),
    Place(b"a:\n  c: d\nb: y\n", "a", b'=', true),
    Place(b"-\n- y\n", "0", b'=', true),
    Place(b"m:\n  b: y\nc: z\n", "m", b'+', true),
    Place(b"m:\n      b: y\nc: z\n", "m", b'+', true),
    Place(b"b: y\nc: z\n", "", b'+', true),
    Place(b"- b: y\n- z\n", "0", b'+', true),
    Place(b"m:\n    n: x\n    b: y\nc: z\n", "m", b'+', true),
    Place(b"- - n: x\n    b: y\n- z\n", "00", b'+', true),
    Place(b"- x\n- y\n", "", b'-', true),
    Place(b"k:\n    - x\nb: z\n", "k", b'-', true),
    Place(b"k:\n- x\nb: z\n", "k", b'-', true),
    Place(b"- - x\n- y\n", "0", b'-', true),
    Place(b"k: x\nb: y\n", "k", b'M', true),
    Place(b"k: x\nb: y\n", "k", b'S', true),
    Place(b"- x\n- y\n", "0", b'M', true),
    Place(b"- a:\n    c: x\n  b: y\n", "0ac", b'S', true),
];

/// The value which is there after the operation.
#[inline(never)]
fn there(d: &Document, p: &Place) -> Id {
    let id = walk(d, p.1);
    let id = match p.2 {
        b'=' => Some(id),
        b'+' | b'M' => entry(d, id, "n"),
        _ => d.value(id).as_sequence().and_then(|s| s.last().map(|v| v.id())),
    };
    id.unwrap_or_else(|| fail("the block isn't where it was put"))
}

/// What the document reads as, apart from the block.
#[inline(never)]
fn rest(d: &Document, p: &Place, before: bool) -> Vec<u8> {
    let skip = match p.2 {
        b'=' => Some(walk(d, p.1)),
        b'M' | b'S' => Some(walk(d, p.1)),
        b'+' if before => entry(d, walk(d, p.1), "n"),
        b'-' if before => None,
        _ => Some(there(d, p)),
    };
    let mut o = Vec::new();
    dump(d, d.as_ref().id(), skip, &mut o);
    o
}

/// A line of up to `n` unconstrained bytes.
#[inline(never)]
fn line(n: usize) -> String {
    let v = bytes(choose(n as u32 + 1) as usize);
    let Ok(s) = String::from_utf8(v) else {
        assume(false);
        unreachable!()
    };
    for i in 0..s.len() {
        assume(s.as_bytes()[i] != b'\n');
    }
    s
}

#[inline(never)]
fn fine(s: &str) -> bool {
    !s.is_empty() && s.as_bytes()[0] != b'#' && s.trim().len() == s.len()
}

#[inline(never)]
fn look(d: &Document, p: &Place, want: &[u8], others: &[u8]) {
    let v = d.value(there(d, p));
    let Some(got) = v.as_str() else { fail("a block isn't a string") };
    note("reads as", got.as_bytes());
    check!(same(got.as_bytes(), want), "a block reads as another string");
    check!(same(&rest(d, p, false), others), "something else than the block has changed");
}

#[inline(never)]
fn d_str<'a>(d: &'a Document, p: &Place) -> &'a [u8] {
    d.value(there(d, p)).as_str().map_or(b"", |s| s.as_bytes())
}

/// In place of any value of a large document without comments.
#[inline(never)]
fn large(deep: bool) {
    use crate::gen::{Gen, Kind};
    use crate::large;
    let n = choose(if deep { 20 } else { 14 }) as usize;
    // the layouts without comments behind values
    let mut g = Gen::large(n / 2 * 4 + 1 + n % 2, if deep { 40 } else { 25 }, 0);
    let mut t = g.document();
    note("input", &g.out);
    let Ok(mut d) = yaml::from_slice(&g.out) else { fail("the document is rejected") };
    let at = large::pick(&t, large::Want::Block);
    let id = large::id(&d, &at);
    let w = large::word();
    let (chomp, end) = [(Chomp::Strip, ""), (Chomp::Clip, "\n")][choose(2) as usize];
    let folded = choose(2) == 1;
    let block = if folded { Block::Folded(chomp) } else { Block::Literal(chomp) };
    d.value_mut(id).set_block([&w[..], "- a: [", "l"], block);
    let sep = if folded { " " } else { "\n" };
    *large::find(&mut t, &at) = large::leaf(Kind::Str, [&w[..], sep, "- a: [", sep, "l", end].concat().as_bytes());
    large::reads(&d, &t, true);
    reach(4);
}

pub fn run() {
    let deep = tier() == 1;
    if choose(2) == 1 {
        return large(deep);
    }
    let p = &PLACES[choose(PLACES.len() as u32) as usize];
    let chomp = [Chomp::Clip, Chomp::Keep, Chomp::Strip][choose(3) as usize];
    let folded = choose(2) == 1;
    // 1 to 3 lines, of which one is unconstrained
    let n = 1 + choose(3) as usize;
    let at = choose(n as u32) as usize;
    let max = if deep { 3 } else { 2 };
    let mut lines = Vec::new();
    for i in 0..n {
        lines.push(if i == at {
            line(max)
        } else if deep && choose(2) == 1 {
            line(1)
        } else {
            String::from(["k: v", "- i", "l"][i])
        });
    }
    let mut want = Vec::new();
    for i in 0..n {
        if i > 0 {
            want.push(if folded { b' ' } else { b'\n' });
        }
        want.extend_from_slice(lines[i].as_bytes());
    }
    if !matches!(chomp, Chomp::Strip) {
        want.push(b'\n');
    }
    note("document", p.0);
    note("at", p.1.as_bytes());
    note("block", &want);
    let Ok(mut d) = yaml::from_slice(p.0) else { fail("the document is rejected") };
    let others = rest(&d, p, true);
    let block = if folded { Block::Folded(chomp) } else { Block::Literal(chomp) };
    let id = walk(&d, p.1);
    let mut v = d.value_mut(id);
    let short = p.2 != b'=' && choose(2) == 1;
    match p.2 {
        b'=' => v.set_block(&lines, block),
        b'+' | b'M' => {
            let mut m = v.make_mapping();
            if short {
                m.insert_block("n", &lines, block)
            } else {
                m.insert("n", Separator::Auto).set_block(&lines, block)
            }
        }
        _ => {
            let mut s = v.make_sequence();
            if short {
                s.push_block(&lines, block)
            } else {
                s.push(Separator::Auto).set_block(&lines, block)
            }
        }
    }
    look(&d, p, &want, &others);
    reach(1);
    for l in &lines {
        assume(fine(l));
    }
    assume(p.3 || !matches!(chomp, Chomp::Keep));
    let out = write(&d);
    note("written", &out);
    observe_bytes(&out);
    let Ok(e) = yaml::from_slice(&out) else { fail("the written document is rejected") };
    if p.0 == COMMENTED {
        // the comment is in the last line now
        let mut longer = want.clone();
        if matches!(chomp, Chomp::Strip) {
            longer.extend_from_slice(b" # c");
        } else {
            longer.pop();
            longer.extend_from_slice(b" # c\n");
        }
        if same(d_str(&e, p), &longer) {
            fail("KF-C12-1 a comment behind the value that is replaced becomes a part of the block");
        }
    }
    look(&e, p, &want, &others);
    reach(if folded { 3 } else { 2 });
}
