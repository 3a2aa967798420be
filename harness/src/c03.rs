use crate::gen::Gen;
use crate::hooks::*;
use crate::shapes::*;
use crate::util::*;
use nondestructive::yaml::{self, Block, Chomp, Document, Null, Separator, StringKind};

#[inline(never)]
fn both(d: &Document) {
    let a = d.to_string();
    let b = write(d);
    note("Display", a.as_bytes());
    note("write_to", &b);
    observe_bytes(&b);
    check!(same(a.as_bytes(), &b), "Display and write_to differ");
}

/// A symbolic string of up to `n` bytes.
#[inline(never)]
fn text(n: usize) -> String {
    let v = bytes(choose(n as u32 + 1) as usize);
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

const DOCS: &[&[u8]] = &[
    b"",
    b"a: b\nc:\n- d\n",
    b"a:\n  - b\n  -\n  - c: d\nb:\n",
    b"{a: [b, c,], d: {}} ",
    b"- [ ]\n- {e: f , }\n",
    b"x: |\n  y\nz: 'q'\n",
];

/// Any value of the document, named by walking from the root.
#[inline(never)]
fn pick(d: &Document) -> yaml::Id {
    let mut id = d.as_ref().id();
    loop {
        let n = match d.value(id).into_any() {
            yaml::Any::Mapping(m) => m.len(),
            yaml::Any::Sequence(s) => s.len(),
            _ => 0,
        };
        let k = choose(n as u32 + 1) as usize;
        if k == n {
            return id;
        }
        id = match d.value(id).into_any() {
            yaml::Any::Mapping(m) => m.into_iter().nth(k).unwrap().1.id(),
            yaml::Any::Sequence(s) => s.into_iter().nth(k).unwrap().id(),
            _ => unreachable!(),
        };
    }
}

#[inline(never)]
fn edit(d: &mut Document, big: usize) {
    let id = pick(d);
    let kinds = [StringKind::Bare, StringKind::Single, StringKind::Double];
    let chomps = [Chomp::Clip, Chomp::Keep, Chomp::Strip];
    match choose(14) {
        0 => {
            let s = text(big);
            d.value_mut(id).set_string_with(&s, kinds[choose(3) as usize].clone())
        }
        1 => {
            let s = text(big);
            d.value_mut(id).set_string(&s)
        }
        2 => d.value_mut(id).set_null([Null::Empty, Null::Keyword, Null::Tilde][choose(3) as usize].clone()),
        3 => d.value_mut(id).set_bool(choose(2) == 1),
        4 => d.value_mut(id).set_i8(byte() as i8),
        5 => {
            let s = text(1);
            let c = chomps[choose(3) as usize];
            let b = if choose(2) == 0 { Block::Literal(c) } else { Block::Folded(c) };
            d.value_mut(id).set_block([s.as_str(), "l"], b)
        }
        6 => {
            let _ = d.value_mut(id).make_mapping();
        }
        7 => {
            let _ = d.value_mut(id).make_sequence();
        }
        8 | 9 | 10 => {
            let mut m = d.value_mut(id).make_mapping();
            match choose(4) {
                0 => {
                    let k = text(1);
                    let v = text(1);
                    m.insert_str(&k, &v)
                }
                1 => {
                    let s = text(1);
                    m.insert("k", if choose(2) == 0 { Separator::Auto } else { Separator::Custom(&s) }).set_bool(true)
                }
                2 => m.clear(),
                _ => {
                    m.remove("a");
                    m.insert_u8("n", 7);
                    m.insert_block("m", ["x", "y"], Block::Folded(Chomp::Keep));
                }
            }
        }
        _ => {
            let mut s = d.value_mut(id).make_sequence();
            match choose(4) {
                0 => {
                    let v = text(2);
                    s.push_string(&v)
                }
                1 => {
                    let p = text(1);
                    s.push(if choose(2) == 0 { Separator::Auto } else { Separator::Custom(&p) }).set_bool(true)
                }
                2 => s.clear(),
                _ => {
                    s.remove(0);
                    s.push_i8(-7);
                    s.push_block(["x", "y"], Block::Literal(Chomp::Strip));
                }
            }
        }
    }
}

pub fn run() {
    match choose(4) {
        3 => {
            let deep = tier() == 1;
            let mut g = Gen::large(choose(if deep { 32 } else { 8 }) as usize, if deep { 40 } else { 25 }, 1);
            g.document();
            parsed(&g.out);
        }
        0 => {
            let n = if tier() == 0 { 4 } else { 5 };
            let v = bytes(choose(n + 1) as usize);
            parsed(&v);
        }
        1 => {
            let v = tmpl(SHAPES[choose(SHAPES.len() as u32) as usize]);
            parsed(&v);
        }
        _ => {
            let v = DOCS[choose(DOCS.len() as u32) as usize];
            note("input", v);
            let Ok(mut d) = yaml::from_slice(v) else { fail("base document rejected") };
            edit(&mut d, if tier() == 0 { 2 } else { 3 });
            if tier() == 1 && choose(2) == 1 {
                edit(&mut d, 1);
            }
            reach(2);
            both(&d);
        }
    }
}

#[inline(never)]
fn parsed(v: &[u8]) {
    assume(std::str::from_utf8(v).is_ok());
    note("input", v);
    if let Ok(d) = yaml::from_slice(v) {
        reach(1);
        both(&d);
    }
}
