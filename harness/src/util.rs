#![allow(dead_code)]
use crate::hooks::*;

/// `n` unconstrained symbolic bytes.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    v
}

/// A template: `?` becomes an unconstrained symbolic byte, anything else stands for itself.
#[inline(never)]
pub fn tmpl(t: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len());
    for b in t {
        v.push(if *b == b'?' { byte() } else { *b });
    }
    v
}

#[inline(never)]
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for b in b {
        observe(*b as u64);
    }
}

#[inline(never)]
pub fn write(d: &nondestructive::yaml::Document) -> Vec<u8> {
    let mut o = Vec::new();
    if d.write_to(&mut o).is_err() {
        fail("write_to failed on a Vec");
    }
    o
}

/// Byte equality without leaving the harness' control (one comparison for each byte).
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    a == b
}

use nondestructive::yaml::{Document, Id};

/// The id of the value at that key.
#[inline(never)]
pub fn entry(d: &Document, id: Id, key: &str) -> Option<Id> {
    let m = d.value(id).as_mapping()?;
    let x = m.get(key).map(|v| v.id());
    x
}

/// The id of that item.
#[inline(never)]
pub fn item(d: &Document, id: Id, i: usize) -> Option<Id> {
    let m = d.value(id).as_sequence()?;
    let x = m.get(i).map(|v| v.id());
    x
}
