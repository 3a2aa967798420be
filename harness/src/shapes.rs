//! Document shapes with holes: `?` is an unconstrained symbolic byte.
#![allow(dead_code)]

pub const SHAPES: &[&[u8]] = &[
    // block mappings
    b"a:?b\n?c: d?",
    b"?a:?b\n?: d",
    b"a:?\n?b:?c",
    b"a:\n ?b: c\n ?d: e?",
    b"a:\n?b: c\n?d: e",
    b"a: b\r\n?c:?d\r?",
    b"a:\n  b:\n    c: d\n ?e: f\n?g: h?",
    b"a: ?b: c\n?d: e",
    b"'?': a\n\"?\": b\n?c: d",
    b"a: b\n'c?d'?: e\n?f: g",
    b"? a: ? b\n?",
    // block sequences
    b"-?a\n-?b\n?",
    b"- a\n?- b\n ?- c",
    b"a:\n?- b?\n?- c",
    b"a:\n- b\n-?c\n?d: e",
    b"- - a\n ?- b\n-?- c",
    b"- a: b\n ?c: d\n?e: f",
    b"- a:\n  ?- b\n ?c: d\n-?e",
    b"-\n?a: b\n?c: d\n-",
    b"-?\n-?\n?",
    // flow collections
    b"[?a?,?b]",
    b"[a,?b?,c?]?",
    b"[a, [?b?],?c]",
    b"{?a?:?b}",
    b"{a: b?,?c: d?}?",
    b"{a:?,b:?c,?}",
    b"a: [b?,{?c: d}]\n?e: f",
    b"- {a: b}?\n- [c,?d?]",
    b"[\n?a,\n?b\n?]",
    b"{'?':?a, \"b\"?: c}",
    b"['?', \"?\"?]",
    b"{a: {?b: c}?, d:?[]}",
    b"a:?[]\nb: {?}\n?",
    // block scalars
    b"a: |?\n  x?\n ?y\nz: w",
    b"a: >?\n  x\n?\n  y\n?z: w",
    b"a: |-\n  x\n ?y\n?  z\nw: v",
    b"- |+\n ?x\n\n?y\n- z",
    b"|?\n?x\n?y\n",
    b"a:\n  b: >-?\n    x\n   ?y\n  c:?d",
    b"a: |\n?b: c\n?",
    b">?x\n y\n?z",
    // quoted scalars
    b"'a?b?c'?",
    b"\"a?b?c\"?",
    b"k: '?'?\nl:?m",
    b"k: \"\\??\"?\nl: m",
    b"\"\\x??\"?",
    b"\"\\u00??\":?a",
    // comments, headers, markers
    b"%?1\n---?a?",
    b"---?a: b?\n?",
    b"?#c\na: b?#d\n",
    b"a: b #?c?\n?d: e",
    b"# ?\n?#x\na: b?",
    b"- a\n#?\n?- b",
    b"- a #?\n-?b",
    b"[a, #?\n?b]?",
    b"{a: b, #?\n?c: d}",
    b"a:\n  #?\n  b: c\n  # ?\n?d: e",
    // scalars
    b"-?1.?2e?",
    b"a: -?.?e?",
    b"[1?2,?-3?]",
    b"~?:?nul?",
    b"[tru?,?~?]",
    b"a: fals?\n?b:?~",
    b"a:?~\n?b:?NULL\n",
];
