//! Documents generated from a sequence of choices, together with the tree they denote and where in the
//! text each of its nodes is. At most one scalar or key has unconstrained bytes.
#![allow(dead_code)]
use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Document, Id};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Null,
    True,
    False,
    Number,
    Str,
    Map,
    Seq,
}

#[derive(Clone)]
pub struct T {
    pub kind: Kind,
    /// The decoded text of a scalar.
    pub text: Vec<u8>,
    /// What it occupies in the input; nothing if omitted.
    pub start: usize,
    pub end: usize,
    /// Where the text of a scalar starts (for a block scalar, behind its indicators).
    pub raw: usize,
    pub flow: bool,
    /// Not a plain scalar.
    pub quoted: bool,
    pub keys: Vec<Vec<u8>>,
    pub kids: Vec<T>,
}

#[derive(Clone, Copy)]
pub struct Style {
    pub head: &'static [u8],
    /// Indentation of the root.
    pub root: usize,
    /// Indentation of nested block containers.
    pub step: usize,
    /// Indentation of block sequences in mappings.
    pub seq: usize,
    /// Whitespace after `:` and `-`.
    pub gap: &'static [u8],
    /// Containers start on the line of the sequence item they are in.
    pub compact: bool,
    /// How lines end, in turn.
    pub eol: [&'static [u8]; 2],
    /// How keys are quoted, in turn.
    pub key: [u8; 2],
    pub quote: u8,
    /// Around the items of flow containers.
    pub open: &'static [u8],
    pub sep: &'static [u8],
    pub close: &'static [u8],
    /// After the colon in flow mappings.
    pub colon: &'static [u8],
    /// Whether the last line ends in a line break.
    pub tail: bool,
}

const S0: Style = Style {
    head: b"",
    root: 0,
    step: 2,
    seq: 0,
    gap: b" ",
    compact: true,
    eol: [b"\n", b"\n"],
    key: [b' ', b' '],
    quote: b'"',
    open: b"",
    sep: b", ",
    close: b"",
    colon: b": ",
    tail: true,
};

pub const STYLES: &[Style] = &[
    S0,
    Style { seq: 2, eol: [b"\n\n", b"\n"], key: [b'"', b'"'], quote: b'\'', open: b" ", sep: b" , ", close: b" ", ..S0 },
    Style { step: 4, seq: 4, compact: false, eol: [b" # c\n", b"\n"], key: [b' ', b'\''], sep: b",", tail: false, ..S0 },
    Style { head: b"# h: x\n\n", step: 1, seq: 1, gap: b"  ", eol: [b"\n", b"\n# c\n"], quote: b'\'', open: b"\n ", sep: b",\n\n ", close: b"\n ", ..S0 },
    Style { head: b"---\n", root: 1, gap: b"   ", eol: [b"\n \n", b"\n"], key: [b'\'', b'"'], colon: b":  ", close: b", ", ..S0 },
    Style { head: b"%A b\n---\n", seq: 3, step: 3, compact: false, eol: [b"\r\n", b"\r\n"], key: [b'"', b' '], tail: false, close: b" ,", ..S0 },
    Style { step: 4, seq: 0, gap: b"\t", compact: false, eol: [b"\n    # c: d\n", b" \n"], quote: b'\'', sep: b" ,  ", ..S0 },
    Style { head: b"\n", root: 3, step: 1, seq: 0, eol: [b"  # - c\n\n", b"\n"], key: [b' ', b'\''], open: b" #c\n", sep: b", #,\n", close: b" #]\n", colon: b":\n", ..S0 },
];

/// Of the large documents.
pub const LARGE: &[Style] = &[
    Style { seq: 2, eol: [b"\n\n\n\n\n", b" # a comment\n"], key: [b' ', b'"'], quote: b'\'', sep: b",\n\n   ", ..S0 },
    Style { step: 19, seq: 21, compact: false, key: [b'\'', b' '], colon: b":   ", open: b"    ", ..S0 },
    Style { head: b"%YAML 1.2\n%TAG ! x\n# c\n---\n\n", root: 5, step: 3, gap: b"        ", eol: [b"\r\n", b"\n"], close: b" , ", ..S0 },
    Style { step: 1, seq: 0, eol: [b"\n", b"\n      # - c: d\n\n"], key: [b' ', b' '], quote: b'"', close: b"\n\n  ", ..S0 },
];

pub struct Gen {
    pub out: Vec<u8>,
    st: Style,
    /// Nodes that may still be made.
    left: usize,
    lines: usize,
    keys: usize,
    scalars: usize,
    /// Whether a key or a scalar with unconstrained bytes may still be made.
    hot: bool,
    /// Number of unconstrained bytes in it.
    pub wide: usize,
    /// Whether there are block scalars.
    pub blocks: bool,
    /// Whether a key may be one that was there already.
    pub again: bool,
    /// The state of a fixed sequence that takes the choices, if any.
    fixed: Option<u32>,
}

#[derive(Clone, Copy, PartialEq)]
enum In {
    Root,
    Map,
    Item,
}

pub fn classify(t: &[u8]) -> Kind {
    use crate::class::{classify, K};
    match classify(t) {
        K::Null => Kind::Null,
        K::True => Kind::True,
        K::False => Kind::False,
        K::Number => Kind::Number,
        K::Str => Kind::Str,
    }
}

impl Gen {
    pub fn new(left: usize, style: usize, wide: usize) -> Self {
        Gen { out: Vec::new(), st: STYLES[style], left, lines: 0, keys: 0, scalars: 0, hot: wide > 0, wide, blocks: false, again: false, fixed: None }
    }

    /// A large document: its layout is fixed by the seed, and it has one scalar or key with unconstrained
    /// bytes. It nests deeper, has more entries, longer words and a wider indentation than the others.
    pub fn large(seed: usize, left: usize, wide: usize) -> Self {
        let mut g = Gen::new(left, 0, wide);
        g.st = LARGE[seed % LARGE.len()];
        g.blocks = true;
        g.fixed = Some(0x9e37_79b9u32.wrapping_mul(seed as u32 + 1));
        g
    }

    fn choose(&mut self, n: u32) -> u32 {
        match &mut self.fixed {
            None => choose(n),
            Some(x) => {
                *x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (*x >> 16) % n
            }
        }
    }

    fn put(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }

    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(b' ');
        }
    }

    #[inline(never)]
    fn eol(&mut self) {
        let e = self.st.eol[self.lines % 2];
        self.lines += 1;
        self.put(e);
    }

    /// The bytes of a scalar or key.
    #[inline(never)]
    fn word(&mut self, hot: bool, q: u8, flow: bool, key: bool) -> Vec<u8> {
        if !hot && self.fixed.is_some() {
            return self.long(q, key);
        }
        if !hot {
            return if key { vec![b'k', b'0' + self.keys as u8] } else { vec![b's', b'0' + self.scalars as u8] };
        }
        let t = bytes(1 + choose(self.wide as u32) as usize);
        match q {
            b'"' => {
                for b in &t {
                    assume(*b != b'"' && *b != b'\\' && *b != 0 && *b < 0x80);
                }
            }
            b'\'' => {
                for b in &t {
                    assume(*b != b'\'' && *b < 0x80);
                }
            }
            _ => {
                assume(crate::class::plain(&t, flow));
                for b in &t {
                    assume(*b < 0x80 && (!key || !matches!(*b, b':' | b'?')));
                }
            }
        }
        t
    }

    /// A word of a large document.
    #[inline(never)]
    fn long(&mut self, q: u8, key: bool) -> Vec<u8> {
        let n = if key { self.keys } else { self.scalars };
        let n = [b'0' + (n / 10) as u8, b'0' + (n % 10) as u8];
        if key {
            return match self.choose(3) {
                0 => [&b"k"[..], &n].concat(),
                1 => [b"a key of which only some bytes in its middle; ".as_slice(), &n, b" or so tell it from the others"].concat(),
                _ => [&b"k#"[..], &n, b"-k_x"].concat(),
            };
        }
        match self.choose(6) {
            0 => b"12345678901234567890123".to_vec(),
            1 => b"False".to_vec(),
            2 => [b"some text - in which only ".as_slice(), &n, b" or so differs from the others"].concat(),
            3 if q == b'\'' => [b"it's\\ ".as_slice(), &n, b"''"].concat(),
            3 if q == b'"' => [b"\t ".as_slice(), &n, b"\xc3\xa9\""].concat(),
            _ => [&b"s"[..], &n].concat(),
        }
    }

    #[inline(never)]
    fn quoted(&mut self, t: &[u8], q: u8) {
        if q == b' ' {
            self.put(t);
        } else {
            self.out.push(q);
            for b in t {
                // only the words of large documents have anything to escape
                if self.fixed.is_some() {
                    match (q, b) {
                        (b'"', b'\t') => {
                            self.put(b"\\t");
                            continue;
                        }
                        (b'"', b'"' | b'\\') => self.out.push(b'\\'),
                        (b'\'', b'\'') => self.out.push(b'\''),
                        _ => {}
                    }
                }
                self.out.push(*b);
            }
            self.out.push(q);
        }
    }

    #[inline(never)]
    fn key(&mut self, flow: bool) -> Vec<u8> {
        let q = self.st.key[self.keys % 2];
        let hot = self.hot && if self.fixed.is_some() { self.choose(8) == 1 || self.left < 3 } else { choose(2) == 1 };
        self.hot &= !hot;
        let t = if self.again && self.keys > 0 && self.choose(2) == 1 {
            self.again = false;
            b"k0".to_vec()
        } else {
            self.word(hot, q, flow, true)
        };
        self.keys += 1;
        self.quoted(&t, q);
        t
    }

    #[inline(never)]
    fn scalar(&mut self, quote: bool, flow: bool) -> T {
        let q = if quote { self.st.quote } else { b' ' };
        let hot = self.hot && if self.fixed.is_some() { self.choose(8) == 1 || self.left < 3 } else { choose(2) == 1 };
        self.hot &= !hot;
        let t = self.word(hot, q, flow, false);
        self.scalars += 1;
        let start = self.out.len();
        self.quoted(&t, q);
        let kind = if quote { Kind::Str } else { classify(&t) };
        T { kind, text: t, start, end: self.out.len(), raw: start, flow, quoted: quote, keys: Vec::new(), kids: Vec::new() }
    }

    fn omitted(&self) -> T {
        let at = self.out.len();
        T { kind: Kind::Null, text: Vec::new(), start: at, end: at, raw: at, flow: false, quoted: false, keys: Vec::new(), kids: Vec::new() }
    }

    /// A block scalar in a container of that indentation.
    #[inline(never)]
    fn block_scalar(&mut self, indent: usize) -> T {
        let start = self.out.len();
        let literal = self.scalars % 2 == 0;
        self.put(if literal { b"|-" } else { b">-" });
        let raw = self.out.len();
        let t = self.word(false, b' ', false, false);
        self.scalars += 1;
        let mut text = t.clone();
        self.put(if self.st.compact { b"\n" } else { b" # x\n" });
        self.spaces(indent + self.st.step);
        self.put(&t);
        if self.fixed.is_some() {
            for gap in 1..6 {
                for _ in 0..gap {
                    self.put(b"\n");
                    if literal {
                        text.push(b'\n');
                    }
                }
                if !literal {
                    text.push(b' ');
                }
                self.spaces(indent + self.st.step);
                self.put(b"- x: [ # '");
                text.extend_from_slice(b"- x: [ # '");
            }
        }
        text.extend_from_slice(if literal { b"\nl: -" } else { b" l: -" });
        self.put(b"\n");
        self.spaces(indent + self.st.step);
        self.put(b"l: -");
        let end = self.out.len();
        self.put(b"\n");
        T { kind: Kind::Str, text, start, end, raw, flow: false, quoted: true, keys: Vec::new(), kids: Vec::new() }
    }

    /// Another node, if there is still one to make.
    #[inline(never)]
    fn more(&mut self) -> bool {
        self.left > 0 && if self.fixed.is_some() { self.choose(4) > 0 } else { choose(2) == 1 }
    }

    #[inline(never)]
    fn flow(&mut self) -> T {
        // containers only when there is something to put into them
        match if self.left > 0 { self.choose(4) } else { self.choose(2) } {
            0 => self.scalar(false, true),
            1 => self.scalar(true, true),
            2 => self.flow_container(true),
            _ => self.flow_container(false),
        }
    }

    #[inline(never)]
    fn flow_container(&mut self, map: bool) -> T {
        let start = self.out.len();
        let (mut keys, mut kids) = (Vec::new(), Vec::new());
        self.put(if map { b"{" } else { b"[" });
        self.put(self.st.open);
        while self.more() {
            self.left -= 1;
            if !kids.is_empty() {
                self.put(self.st.sep);
            }
            if map {
                let k = self.key(true);
                keys.push(k);
                if self.choose(4) == 3 {
                    self.put(b":");
                    kids.push(self.omitted());
                    continue;
                }
                self.put(self.st.colon);
            }
            kids.push(self.flow());
        }
        let close = self.st.close;
        if !(kids.is_empty() && close.contains(&b',')) {
            self.put(close);
        }
        self.put(if map { b"}" } else { b"]" });
        T { kind: if map { Kind::Map } else { Kind::Seq }, text: Vec::new(), start, end: self.out.len(), raw: start, flow: true, quoted: false, keys, kids }
    }

    /// The entries of a block container whose first one starts here.
    #[inline(never)]
    fn entries(&mut self, map: bool, indent: usize) -> T {
        let start = self.out.len();
        let (mut keys, mut kids) = (Vec::new(), Vec::new());
        loop {
            self.left -= 1;
            if map {
                let k = self.key(false);
                keys.push(k);
                self.put(b":");
            } else {
                self.put(b"-");
            }
            kids.push(self.block(if map { In::Map } else { In::Item }, indent));
            if !self.more() {
                break;
            }
            self.spaces(indent);
        }
        let end = kids[kids.len() - 1].end;
        T { kind: if map { Kind::Map } else { Kind::Seq }, text: Vec::new(), start, end, raw: start, flow: false, quoted: false, keys, kids }
    }

    /// A value in a container of that indentation, including the end of its line.
    #[inline(never)]
    fn block(&mut self, at: In, indent: usize) -> T {
        let gap = if at == In::Root { b"" } else { self.st.gap };
        let mut k = self.choose(if self.blocks { 1 } else { 0 } + if self.left > 0 { 7 } else { 3 });
        if self.fixed.is_some() && (at == In::Root && k < 6 || self.left > 12 && k < 2) {
            k = 6 + k % 2;
        }
        if !self.blocks && k > 2 {
            k += 1;
        }
        match k {
            0 if at != In::Root => {
                let t = self.omitted();
                self.eol();
                t
            }
            1 | 0 => {
                self.put(gap);
                let t = self.scalar(false, false);
                self.eol();
                t
            }
            2 => {
                self.put(gap);
                let t = self.scalar(true, false);
                self.eol();
                t
            }
            3 => {
                self.put(gap);
                self.block_scalar(indent)
            }
            k @ (4 | 5) => {
                self.put(gap);
                let t = self.flow_container(k == 4);
                self.eol();
                t
            }
            k => {
                let map = k == 6;
                let inner = match at {
                    In::Root => indent,
                    In::Item if self.st.compact => {
                        self.put(gap);
                        indent + 1 + gap.len()
                    }
                    _ => {
                        self.eol();
                        let n = indent + if at == In::Map && !map { self.st.seq } else { self.st.step };
                        self.spaces(n);
                        n
                    }
                };
                self.entries(map, inner)
            }
        }
    }

    #[inline(never)]
    pub fn document(&mut self) -> T {
        self.put(self.st.head);
        let n = self.st.root;
        self.spaces(n);
        let t = self.block(In::Root, n);
        if !self.st.tail {
            while matches!(self.out.last(), Some(b'\n' | b'\r')) {
                self.out.pop();
            }
        }
        t
    }
}

#[inline(never)]
fn first(keys: &[Vec<u8>], k: &[u8]) -> Option<usize> {
    for i in 0..keys.len() {
        if same(&keys[i], k) {
            return Some(i);
        }
    }
    None
}

/// That the value and everything in it reads as that tree.
#[inline(never)]
pub fn verify(d: &Document, id: Id, t: &T) {
    let v = d.value(id);
    check!(v.id() == id, "a value has another id");
    match t.kind {
        Kind::Null => check!(matches!(v.as_any(), yaml::Any::Null), "a null reads as something else"),
        Kind::True => check!(v.as_bool() == Some(true), "true reads as something else"),
        Kind::False => check!(v.as_bool() == Some(false), "false reads as something else"),
        Kind::Number => {
            let Some(n) = v.as_number() else { fail("a number reads as something else") };
            check!(same(n.as_raw(), &t.text), "a number reads as another one");
        }
        Kind::Str => {
            let Some(s) = v.as_str() else { fail("a string reads as something else") };
            observe_bytes(s.as_bytes());
            check!(same(s.as_bytes(), &t.text), "a string reads as another one");
        }
        Kind::Map => {
            let Some(m) = v.as_mapping() else { fail("a mapping reads as something else") };
            check!(v.as_sequence().is_none(), "a mapping reads as a sequence, too");
            check!(m.len() == t.kids.len(), "a mapping has another number of entries");
            check!(m.is_empty() == t.kids.is_empty(), "is_empty and len differ");
            let mut ids = Vec::new();
            for (k, v) in &m {
                check!(ids.len() < t.kids.len(), "iteration yields more entries than there are");
                check!(same(k, &t.keys[ids.len()]), "an entry has another key");
                ids.push(v.id());
            }
            check!(ids.len() == t.kids.len(), "iteration yields fewer entries than there are");
            for i in 0..ids.len() {
                let Ok(k) = std::str::from_utf8(&t.keys[i]) else { unreachable!() };
                let want = first(&t.keys, k.as_bytes());
                let Some(v) = m.get(k) else { fail("an entry isn't found by its key") };
                check!(Some(v.id()) == want.map(|i| ids[i]), "a key finds another entry than the first one with it");
                verify(d, ids[i], &t.kids[i]);
            }
            for k in ["k", "k0 ", "k11", ""] {
                check!(m.get(k).is_some() == first(&t.keys, k.as_bytes()).is_some(), "a key which isn't there is found");
            }
        }
        Kind::Seq => {
            let Some(s) = v.as_sequence() else { fail("a sequence reads as something else") };
            check!(v.as_mapping().is_none(), "a sequence reads as a mapping, too");
            check!(s.len() == t.kids.len(), "a sequence has another number of items");
            check!(s.is_empty() == t.kids.is_empty(), "is_empty and len differ");
            let mut ids = Vec::new();
            for v in &s {
                ids.push(v.id());
            }
            check!(ids.len() == t.kids.len(), "iteration yields another number of items than there are");
            for i in 0..ids.len() {
                check!(s.get(i).map(|v| v.id()) == Some(ids[i]), "get and iteration differ");
                verify(d, ids[i], &t.kids[i]);
            }
            check!(s.get(ids.len()).is_none(), "there is an item after the last one");
            check!(s.get(usize::MAX).is_none(), "there is an item after the last one");
            check!(s.first().map(|v| v.id()) == ids.first().copied(), "first isn't the first item");
            check!(s.last().map(|v| v.id()) == ids.last().copied(), "last isn't the last item");
        }
    }
}
