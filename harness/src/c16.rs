use crate::hooks::*;
use crate::model::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Id, Null, Separator};

const DOCS: &[&[u8]] = &[
    b"a: x\nb:\n  - y\n  - a: z\n",
    b"{a: [x, {b: y}], b: }",
    b"- [x]\n- a: y\n  b: ~\n",
    b"x",
    b"[[], {}, 'x']\n",
    b"b:\n  a: |\n    x\n  b:\n    b: 5\na: \"q\"\n",
    b"  - - - x\n  - y",
];

/// What a value is known to be; entries and items are places in the arena.
#[derive(Clone)]
enum N {
    Scalar(Vec<u8>),
    Map(Vec<(&'static str, usize)>),
    Seq(Vec<usize>),
}

/// Every value there ever was: its id, and whether it is still in the document.
#[derive(Clone)]
struct Tree {
    nodes: Vec<(Id, N, bool)>,
}

impl Tree {
    /// Record a value that was read; gives its place.
    #[inline(never)]
    fn read(&mut self, d: &Document, id: Id) -> usize {
        let v = d.value(id);
        let n = self.nodes.len();
        self.nodes.push((id, N::Scalar(Vec::new()), true));
        let x = match v.as_any() {
            Any::Mapping(m) => {
                check!(m.id() == id, "a mapping has another id than its value");
                let mut l = Vec::new();
                for (k, v) in m.iter() {
                    l.push((name(k), self.read(d, v.id())));
                }
                N::Map(l)
            }
            Any::Sequence(s) => {
                check!(s.id() == id, "a sequence has another id than its value");
                let mut l = Vec::new();
                for v in s.iter() {
                    l.push(self.read(d, v.id()));
                }
                N::Seq(l)
            }
            _ => N::Scalar(dumped(d, id)),
        };
        self.nodes[n].1 = x;
        n
    }

    /// The value and everything in it isn't in the document any more.
    #[inline(never)]
    fn gone(&mut self, n: usize) {
        self.nodes[n].2 = false;
        self.inside(n);
    }

    #[inline(never)]
    fn inside(&mut self, n: usize) {
        match self.nodes[n].1.clone() {
            N::Scalar(_) => {}
            N::Map(l) => {
                for (_, i) in l {
                    self.gone(i);
                }
            }
            N::Seq(l) => {
                for i in l {
                    self.gone(i);
                }
            }
        }
    }

    #[inline(never)]
    fn become_(&mut self, n: usize, x: N) {
        self.inside(n);
        self.nodes[n].1 = x;
    }

    /// How the value is dumped.
    #[inline(never)]
    fn dump(&self, n: usize, o: &mut Vec<u8>) {
        match &self.nodes[n].1 {
            N::Scalar(t) => o.extend_from_slice(t),
            N::Map(l) => {
                o.push(b'{');
                for (k, i) in l {
                    o.extend_from_slice(k.as_bytes());
                    o.push(b':');
                    self.dump(*i, o);
                }
                o.push(b'}');
            }
            N::Seq(l) => {
                o.push(b'[');
                for i in l {
                    self.dump(*i, o);
                    o.push(b',');
                }
                o.push(b']');
            }
        }
    }

    /// Every id names the value it was taken from.
    #[inline(never)]
    fn verify(&self, d: &Document) {
        check!(d.as_ref().id() == self.nodes[0].0, "the root has another id");
        for (i, (id, x, alive)) in self.nodes.iter().enumerate() {
            if !*alive {
                continue;
            }
            let v = d.value(*id);
            check!(v.id() == *id, "a value has another id than the one it was found by");
            let mut want = Vec::new();
            self.dump(i, &mut want);
            check!(same(&dumped(d, *id), &want), "an id names another value");
            match x {
                N::Scalar(_) => check!(v.as_mapping().is_none() && v.as_sequence().is_none(), "a scalar is a container"),
                N::Map(l) => {
                    let Some(m) = v.as_mapping() else { fail("a mapping isn't one any more") };
                    check!(m.id() == *id, "a mapping has another id than its value");
                    for (got, (_, j)) in m.iter().zip(l) {
                        check!(got.1.id() == self.nodes[*j].0, "an entry has another id than before");
                    }
                }
                N::Seq(l) => {
                    let Some(m) = v.as_sequence() else { fail("a sequence isn't one any more") };
                    check!(m.id() == *id, "a sequence has another id than its value");
                    for (got, j) in m.iter().zip(l) {
                        check!(got.id() == self.nodes[*j].0, "an item has another id than before");
                    }
                }
            }
        }
    }
}

#[inline(never)]
fn name(k: &[u8]) -> &'static str {
    match k {
        b"a" => "a",
        b"b" => "b",
        _ => fail("a key is another one"),
    }
}

/// A string with an unconstrained letter, and how it is dumped.
#[inline(never)]
fn any() -> (String, Vec<u8>) {
    let b = byte();
    assume(b >= b'p' && b <= b'z');
    let s = String::from(b as char);
    let q = quoted(&s);
    (s, q)
}

/// One edit of any value through its id.
#[inline(never)]
fn step(d: &mut Document, t: &mut Tree, deep: bool) {
    let alive: Vec<usize> = (0..t.nodes.len()).filter(|i| t.nodes[*i].2).collect();
    let n = alive[choose(alive.len() as u32) as usize];
    let id = t.nodes[n].0;
    let kind = t.nodes[n].1.clone();
    let mut v = d.value_mut(id);
    let own = match kind {
        N::Scalar(_) => 0,
        _ => 5,
    };
    match choose(5 + own) {
        0 => {
            let (s, q) = any();
            v.set_string(&s);
            t.become_(n, N::Scalar(q));
        }
        1 => {
            if choose(2) == 0 {
                v.set_u8(7);
                t.become_(n, N::Scalar(b"7".to_vec()));
            } else {
                v.set_block(["l", "m"], yaml::Block::Literal(yaml::Chomp::Strip));
                t.become_(n, N::Scalar(b"\"l\nm\"".to_vec()));
            }
        }
        2 => {
            v.set_null(if choose(2) == 0 { Null::Empty } else { Null::Tilde });
            t.become_(n, N::Scalar(b"~".to_vec()));
        }
        3 => {
            let m = v.make_mapping();
            let m = m.into_ref();
            check!(m.id() == id, "make_mapping gives the value another id");
            if !matches!(kind, N::Map(_)) {
                t.become_(n, N::Map(Vec::new()));
            }
        }
        4 => {
            let m = v.make_sequence();
            let m = m.into_ref();
            check!(m.id() == id, "make_sequence gives the value another id");
            if !matches!(kind, N::Seq(_)) {
                t.become_(n, N::Seq(Vec::new()));
            }
        }
        op => match kind {
            N::Scalar(_) => unreachable!(),
            N::Map(mut l) => {
                let Some(mut m) = v.into_mapping_mut() else { fail("a mapping isn't one any more") };
                let k = ["a", "b"][choose(2) as usize];
                let at = l.iter().position(|(x, _)| *x == k);
                match op {
                    5 | 6 => {
                        let (s, q) = any();
                        if op == 5 {
                            m.insert_str(k, &s);
                        } else {
                            m.insert(k, Separator::Auto).set_string(&s);
                        }
                        match at {
                            Some(i) => t.become_(l[i].1, N::Scalar(q)),
                            None => {
                                let Some(new) = entry(d, id, k) else { fail("an inserted entry isn't there") };
                                t.nodes.push((new, N::Scalar(q), true));
                                l.push((k, t.nodes.len() - 1));
                                t.nodes[n].1 = N::Map(l);
                            }
                        }
                    }
                    7 => {
                        check!(m.remove(k) == at.is_some(), "remove doesn't tell whether there was an entry");
                        if let Some(i) = at {
                            t.gone(l[i].1);
                            l.remove(i);
                            t.nodes[n].1 = N::Map(l);
                        }
                    }
                    8 => {
                        m.clear();
                        t.become_(n, N::Map(Vec::new()));
                    }
                    _ => {
                        let got = m.get_mut(k).map(|v| v.into_ref().id());
                        check!(got == at.map(|i| t.nodes[l[i].1].0), "get_mut gives another value");
                        if !deep {
                            return;
                        }
                        // a mapping in a mapping, with an entry
                        let mut x = m.insert(k, Separator::Auto).make_mapping();
                        x.insert_bool("a", true);
                        if let Some(i) = at {
                            let j = l[i].1;
                            if d.value(t.nodes[j].0).as_mapping().is_none() {
                                fail("make_mapping doesn't make a mapping");
                            }
                            // `insert` makes it a null first
                            t.inside(j);
                            let Some(new) = entry(d, t.nodes[j].0, "a") else { fail("an inserted entry isn't there") };
                            t.nodes.push((new, N::Scalar(b"true".to_vec()), true));
                            let e = t.nodes.len() - 1;
                            t.nodes[j].1 = N::Map(vec![("a", e)]);
                        } else {
                            let Some(new) = entry(d, id, k) else { fail("an inserted entry isn't there") };
                            let j = t.read(d, new);
                            let mut o = Vec::new();
                            t.dump(j, &mut o);
                            check!(same(&o, b"{a:true}"), "a new mapping holds something else");
                            l.push((k, j));
                            t.nodes[n].1 = N::Map(l);
                        }
                    }
                }
            }
            N::Seq(mut l) => {
                let Some(mut s) = v.into_sequence_mut() else { fail("a sequence isn't one any more") };
                match op {
                    5 => {
                        let (x, q) = any();
                        s.push_string(&x);
                        let Some(new) = item(d, id, l.len()) else { fail("a pushed item isn't there") };
                        t.nodes.push((new, N::Scalar(q), true));
                        l.push(t.nodes.len() - 1);
                        t.nodes[n].1 = N::Seq(l);
                    }
                    6 => {
                        let mut x = s.push(Separator::Auto).make_sequence();
                        x.push_u8(1);
                        let Some(new) = item(d, id, l.len()) else { fail("a pushed item isn't there") };
                        let j = t.read(d, new);
                        let mut o = Vec::new();
                        t.dump(j, &mut o);
                        check!(same(&o, b"[1,]"), "a new sequence holds something else");
                        l.push(j);
                        t.nodes[n].1 = N::Seq(l);
                    }
                    7 => {
                        let i = choose(3) as usize;
                        check!(s.remove(i) == (i < l.len()), "remove doesn't tell whether there was an item");
                        if i < l.len() {
                            t.gone(l[i]);
                            l.remove(i);
                            t.nodes[n].1 = N::Seq(l);
                        }
                    }
                    8 => {
                        s.clear();
                        t.become_(n, N::Seq(Vec::new()));
                    }
                    _ => {
                        let i = choose(3) as usize;
                        let got = s.get_mut(i).map(|v| v.into_ref().id());
                        check!(got == l.get(i).map(|i| t.nodes[*i].0), "get_mut gives another value");
                    }
                }
            }
        },
    }
}

/// The ids of everything in a large document, across an edit of any value in it.
#[inline(never)]
fn large(deep: bool) {
    use crate::gen::{Kind, T};
    use crate::large;
    let (mut d, mut t, src) = large::document(if deep { 24 } else { 16 }, if deep { 40 } else { 25 }, 0);
    let e = d.clone();
    let mut ids = Vec::new();
    for at in large::all(&t) {
        ids.push((large::id(&d, &at), at));
    }
    let at = ids[choose(ids.len() as u32) as usize].1.clone();
    let id = large::id(&d, &at);
    let w = large::word();
    let n = large::find(&mut t, &at);
    // what is found elsewhere afterwards: those behind the `k`th child
    let mut cut = None;
    match (choose(3), n.kind) {
        (0, Kind::Map) if !n.kids.is_empty() => {
            let k = choose(n.kids.len() as u32) as usize;
            let key = String::from_utf8(n.keys.remove(k)).unwrap();
            n.kids.remove(k);
            let Some(mut m) = d.value_mut(id).into_mapping_mut() else { fail("a mapping isn't one") };
            check!(m.remove(&key), "remove doesn't find an entry");
            cut = Some(k);
        }
        (0, Kind::Seq) if !n.kids.is_empty() => {
            let k = choose(n.kids.len() as u32) as usize;
            n.kids.remove(k);
            let Some(mut m) = d.value_mut(id).into_sequence_mut() else { fail("a sequence isn't one") };
            check!(m.remove(k), "remove doesn't find an item");
            cut = Some(k);
        }
        (1, k) if k != Kind::Seq => {
            let mut m = d.value_mut(id).make_sequence();
            m.push_string(&w);
            *n = T { kids: vec![large::leaf(Kind::Str, w.as_bytes())], ..large::leaf(Kind::Seq, b"") };
        }
        (1, _) => {
            let mut m = d.value_mut(id).make_mapping();
            m.insert_str("new", &w);
            *n = T { keys: vec![b"new".to_vec()], kids: vec![large::leaf(Kind::Str, w.as_bytes())], ..large::leaf(Kind::Map, b"") };
        }
        _ => {
            d.value_mut(id).set_string(&w);
            *n = large::leaf(Kind::Str, w.as_bytes());
        }
    }
    large::reads(&d, &t, false);
    for (old, way) in &ids {
        let mut way = way.clone();
        if way.len() > at.len() && way[..at.len()] == at[..] {
            let i = way[at.len()];
            match cut {
                Some(k) if i > k => way[at.len()] = i - 1,
                Some(k) if i < k => {}
                // gone
                _ => continue,
            }
        }
        check!(large::id(&d, &way) == *old, "a value has another id than before");
        let mut want = Vec::new();
        large::dump(large::find(&mut t, &way), &mut want);
        check!(same(&dumped(&d, *old), &want), "an id names another value");
    }
    check!(same(&write(&e), &src), "an edit of the original changes how its clone is written");
    reach(5);
}

pub fn run() {
    let deep = tier() == 1;
    if choose(2) == 1 {
        return large(deep);
    }
    let n = choose(DOCS.len() as u32) as usize;
    let doc = DOCS[n];
    note("document", doc);
    let Ok(mut d) = yaml::from_slice(doc) else { fail("the document is rejected") };
    let mut t = Tree { nodes: Vec::new() };
    let root = d.as_ref().id();
    t.read(&d, root);
    t.verify(&d);
    reach(1);
    // edits before the document is cloned, and after it of the original or the clone
    let before = if deep { choose(if matches!(n, 3 | 6) { 3 } else { 2 }) } else { 0 };
    for _ in 0..before {
        step(&mut d, &mut t, deep);
        t.verify(&d);
    }
    if !deep && choose(2) == 1 {
        step(&mut d, &mut t, deep);
        t.verify(&d);
        step(&mut d, &mut t, deep);
        t.verify(&d);
        reach(2);
        return;
    }
    let (mut e, mut u) = (d.clone(), t.clone());
    u.verify(&e);
    let text = write(&d);
    check!(same(&write(&e), &text), "a clone is written differently");
    if choose(2) == 0 {
        step(&mut d, &mut t, deep);
        t.verify(&d);
        u.verify(&e);
        check!(same(&write(&e), &text), "an edit of the original changes how its clone is written");
        reach(3);
    } else {
        step(&mut e, &mut u, deep);
        u.verify(&e);
        t.verify(&d);
        check!(same(&write(&d), &text), "an edit of a clone changes how the original is written");
        reach(4);
    }
}
