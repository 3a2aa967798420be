//! What plain scalars are.
#![allow(dead_code)]

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Null,
    True,
    False,
    Number,
    Str,
}

#[inline(never)]
fn ieq(t: &[u8], w: &[u8]) -> bool {
    if t.len() != w.len() {
        return false;
    }
    for i in 0..t.len() {
        if t[i] | 0x20 != w[i] {
            return false;
        }
    }
    true
}

/// optional `-`, digits with at most one `.`, at most one `e`/`E` after a digit, at least one digit
#[inline(never)]
pub fn is_number(t: &[u8]) -> bool {
    let mut i = 0;
    if !t.is_empty() && t[0] == b'-' {
        i = 1;
    }
    let (mut dot, mut e, mut digits) = (false, false, 0);
    while i < t.len() {
        match t[i] {
            b'0'..=b'9' => digits += 1,
            b'.' => {
                if dot || e {
                    return false;
                }
                dot = true
            }
            b'e' | b'E' => {
                if e || digits == 0 {
                    return false;
                }
                e = true
            }
            _ => return false,
        }
        i += 1;
    }
    digits > 0
}

#[inline(never)]
pub fn classify(t: &[u8]) -> K {
    if ieq(t, b"null") || (t.len() == 1 && t[0] == b'~') {
        K::Null
    } else if ieq(t, b"true") {
        K::True
    } else if ieq(t, b"false") {
        K::False
    } else if is_number(t) {
        K::Number
    } else {
        K::Str
    }
}

/// Can this text stand as a plain scalar in that context?
#[inline(never)]
pub fn plain(t: &[u8], flow: bool) -> bool {
    let ws = |b: u8| matches!(b, b' ' | b'\t' | b'\r' | b'\n' | 0x0c);
    let n = t.len();
    if ws(t[0]) || ws(t[n - 1]) || t[n - 1] == b':' {
        return false;
    }
    if matches!(t[0], b'"' | b'\'' | b'[' | b'{' | b'>' | b'|' | b'#' | b'%') {
        return false;
    }
    if t[0] == b'-' && (n == 1 || ws(t[1]) || (n > 2 && t[1] == b'-' && t[2] == b'-')) {
        return false;
    }
    for i in 0..n {
        let b = t[i];
        if b == 0 || b == b'\n' {
            return false;
        }
        if flow && matches!(b, b',' | b':' | b']' | b'}') {
            return false;
        }
        if b == b':' && i + 1 < n && ws(t[i + 1]) {
            return false;
        }
        if b == b'#' && i > 0 && ws(t[i - 1]) {
            return false;
        }
    }
    true
}
