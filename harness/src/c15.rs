use crate::hooks::*;
use crate::model::*;
use crate::places::{dump, walk};
use crate::util::*;
use nondestructive::yaml::{self, Document, Separator, ValueMut};

/// Documents, and the way to the value that is turned into a container. `>` stands for a step of
/// indentation, of a width that varies.
const PLACES: &[(&str, &str)] = &[
    ("x\n", ""),
    ("", ""),
    ("\n# c\n>x", ""),
    ("a: x\nb: y\n", "a"),
    ("a: x\nb: y\n", "b"),
    ("a: x\nb: y", "b"),
    (">a: x\n>b: y\n", "a"),
    (">a: x\n>b: y\n", "b"),
    ("a:\nb: y\n", "a"),
    ("a:\n\n# c\nb: y\n", "a"),
    ("- x\n- y\n", "0"),
    ("- x\n- y\n", "1"),
    (">- x\n>- y\n", "0"),
    (">- x\n>- y\n", "1"),
    ("-\n- y\n", "0"),
    ("- x\n-", "1"),
    ("a:\n>b: x\n>c: y\nd: z\n", "ab"),
    ("a:\n>b: x\n>c: y\nd: z\n", "ac"),
    ("a:\n>b: x\n>c: y\nd: z\n", "a"),
    ("a:\n>b: x\n>c: y\nd: z\n", "d"),
    ("a:\n>b:\n>>c: x\n>d: y\ne: z\n", "abc"),
    ("a:\n>b:\n>>c: x\n>d: y\ne: z\n", "ad"),
    ("a:\n- x\n- y\nb: z\n", "a0"),
    ("a:\n- x\n- y\nb: z\n", "a1"),
    ("a:\n- x\n- y\nb: z\n", "a"),
    ("a:\n>- x\n>- y\nb: z\n", "a0"),
    ("a:\n>- x\n>- y\nb: z\n", "a1"),
    ("a:\n>- x\n>- y\nb: z\n", "a"),
    ("- a: x\n  b: y\n- z\n", "0a"),
    ("- a: x\n  b: y\n- z\n", "0b"),
    ("- a: x\n  b: y\n- z\n", "0"),
    ("->a: x\n >b: y\n- z\n", "0a"),
    ("->a: x\n >b: y\n- z\n", "0b"),
    ("->- x\n >- y\n- z\n", "00"),
    ("->- x\n >- y\n- z\n", "01"),
    ("->- x\n >- y\n- z\n", "0"),
    ("-\n>- x\n>- y\n- z\n", "01"),
    ("- a:\n  >- x\n  >- y\n  b: z\n", "0a1"),
    ("a: |\n>x\n>y\nb: z\n", "a"),
    ("a: |\n>x\n>y\nb: z\n", "b"),
    ("a: {x: y}\nb: [z]\n", "b"),
    ("a: {}\nb: y\n", "a"),
    ("a: []\nb: y\n", "a"),
    ("a: y\nb: {x: y}\n", "b"),
    ("- { }\n- y\n", "0"),
    ("- y\n- [ ]", "1"),
    ("a:\r\n>b: x\r\nc: y\r\n", "ab"),
    ("a:\r\n>b: x\r\nc: y\r\n", "c"),
];

/// What is put there.
enum Plan {
    Scalar,
    Short,
    Map(Vec<Plan>),
    Seq(Vec<Plan>),
}

/// A container of up to `left` further values.
#[inline(never)]
fn plan(left: &mut usize, top: bool) -> Plan {
    let kind = if top {
        1 + choose(2)
    } else if *left == 0 {
        choose(2) * 3
    } else {
        choose(4)
    };
    if kind == 0 {
        return Plan::Scalar;
    }
    if kind == 3 {
        return Plan::Short;
    }
    let mut v = Vec::new();
    loop {
        *left -= 1;
        v.push(plan(left, false));
        if *left == 0 || choose(2) == 0 {
            break;
        }
    }
    if kind == 1 {
        Plan::Map(v)
    } else {
        Plan::Seq(v)
    }
}

const KEYS: [&str; 5] = ["p", "q", "r", "s", "t"];

/// Make it; what is there already is kept when it's of the same kind.
#[inline(never)]
fn build(mut v: ValueMut<'_>, p: &Plan, s: &str, old: &[u8], out: &mut Vec<u8>) {
    match p {
        Plan::Scalar | Plan::Short => {
            v.set_string(s);
            out.extend_from_slice(&quoted(s));
        }
        Plan::Map(c) => {
            let mut m = v.make_mapping();
            out.push(b'{');
            if old.first() == Some(&b'{') {
                out.extend_from_slice(&old[1..old.len() - 1]);
            } else {
                check!(m.as_ref().is_empty(), "a new mapping isn't empty");
            }
            for i in 0..c.len() {
                out.extend_from_slice(KEYS[i].as_bytes());
                out.push(b':');
                if let Plan::Short = c[i] {
                    m.insert_str(KEYS[i], s);
                    out.extend_from_slice(&quoted(s));
                } else {
                    build(m.insert(KEYS[i], Separator::Auto), &c[i], s, b"", out);
                }
            }
            out.push(b'}');
        }
        Plan::Seq(c) => {
            let mut m = v.make_sequence();
            out.push(b'[');
            if old.first() == Some(&b'[') {
                out.extend_from_slice(&old[1..old.len() - 1]);
            } else {
                check!(m.as_ref().is_empty(), "a new sequence isn't empty");
            }
            for c in c {
                if let Plan::Short = c {
                    m.push_string(s);
                    out.extend_from_slice(&quoted(s));
                } else {
                    build(m.push(Separator::Auto), c, s, b"", out);
                }
                out.push(b',');
            }
            out.push(b']');
        }
    }
}

/// The expected dump: that of the document with the value replaced.
#[inline(never)]
fn look(d: &Document, way: &str, want: &[u8], others: &[u8]) {
    let mut o = Vec::new();
    dump(d, walk(d, way), None, &mut o);
    note("reads as", &o);
    check!(same(&o, want), "what was built reads as another tree");
    check!(same(&outside(d, way), others), "something outside of what was built has changed");
}

/// In place of any value of a large document.
#[inline(never)]
fn large(deep: bool) {
    use crate::gen::{Kind, T};
    use crate::large;
    let (mut d, mut t, _) = large::document(if deep { 24 } else { 16 }, if deep { 40 } else { 25 }, 0);
    let at = large::pick(&t, large::Want::Block);
    let id = large::id(&d, &at);
    let w = large::word();
    let n = large::find(&mut t, &at);
    let kind = [Kind::Map, Kind::Seq][choose(2) as usize];
    let flow = n.flow && n.kind == kind;
    if n.kind != kind {
        *n = T { flow: false, kind, ..large::leaf(kind, b"") };
    }
    let s = large::leaf(Kind::Str, w.as_bytes());
    let mut v = d.value_mut(id);
    if kind == Kind::Map {
        let mut m = v.make_mapping();
        if !flow {
            let mut x = m.insert("in", Separator::Auto).make_sequence();
            x.push_string(&w);
            x.push(Separator::Auto).make_mapping().insert_str("deep", &w);
            let inner = T { keys: vec![b"deep".to_vec()], kids: vec![s.clone()], ..large::leaf(Kind::Map, b"") };
            n.keys.push(b"in".to_vec());
            n.kids.push(T { kids: vec![s.clone(), inner], ..large::leaf(Kind::Seq, b"") });
        }
        m.insert_str("end", &w);
        n.keys.push(b"end".to_vec());
        n.kids.push(s);
    } else {
        let mut m = v.make_sequence();
        if !flow {
            let mut x = m.push(Separator::Auto).make_mapping();
            x.insert("in", Separator::Auto).make_sequence().push_string(&w);
            x.insert_bool("end", true);
            let inner = T { kids: vec![s.clone()], ..large::leaf(Kind::Seq, b"") };
            n.kids.push(T { keys: vec![b"in".to_vec(), b"end".to_vec()], kids: vec![inner, large::leaf(Kind::True, b"")], ..large::leaf(Kind::Map, b"") });
        }
        m.push_string(&w);
        n.kids.push(s);
    }
    large::reads(&d, &t, true);
    reach(4);
}

pub fn run() {
    let deep = tier() == 1;
    if choose(2) == 1 {
        return large(deep);
    }
    let (t, way) = PLACES[choose(PLACES.len() as u32) as usize];
    let widths: &[usize] = if !t.contains('>') { &[0] } else if deep { &[1, 2, 3, 4, 7] } else { &[1, 2, 4] };
    let w = widths[choose(widths.len() as u32) as usize];
    let mut src = Vec::new();
    for b in t.bytes() {
        if b == b'>' {
            for _ in 0..w {
                src.push(b' ');
            }
        } else {
            src.push(b);
        }
    }
    note("document", &src);
    note("at", way.as_bytes());
    let free = choose(2) == 1;
    let mut left = match (deep, free) {
        (false, false) => 3,
        (false, true) => 1,
        (true, false) => 4,
        (true, true) => 2,
    };
    let p = plan(&mut left, true);
    let s = if free { text(if deep { 2 } else { 1 }) } else { String::from("k") };
    let Ok(mut d) = yaml::from_slice(&src) else { fail("the document is rejected") };
    let id = walk(&d, way);
    let others = outside(&d, way);
    let old = dumped(&d, id);
    let same_kind = matches!((&p, old.first()), (Plan::Map(_), Some(b'{')) | (Plan::Seq(_), Some(b'[')));
    if let (true, true, Plan::Seq(c) | Plan::Map(c)) = (same_kind, t.contains(['{', '[']), &p) {
        // stays a flow collection
        assume(c.iter().all(|p| matches!(p, Plan::Scalar | Plan::Short)));
    }
    if same_kind {
        let before = write(&d);
        match p {
            Plan::Map(_) => drop(d.value_mut(id).make_mapping()),
            _ => drop(d.value_mut(id).make_sequence()),
        }
        check!(same(&write(&d), &before), "making a container out of one changes it");
        reach(1);
    }
    let mut want = Vec::new();
    build(d.value_mut(id), &p, &s, &old, &mut want);
    look(&d, way, &want, &others);
    let e = reread(&d);
    look(&e, way, &want, &others);
    reach(if free { 3 } else { 2 });
}
