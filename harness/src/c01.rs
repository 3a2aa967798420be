use crate::gen::Gen;
use crate::hooks::*;
use crate::shapes::*;
use crate::util::*;
use nondestructive::yaml;

#[inline(never)]
fn roundtrip(v: &[u8]) {
    note("input", v);
    match yaml::from_slice(v) {
        Ok(d) => {
            reach(1);
            let o = write(&d);
            note("written", &o);
            observe_bytes(&o);
            check!(same(&o, v), "write_to differs from the parsed bytes");
        }
        Err(_) => reach(2),
    }
}

pub fn run() {
    let k = choose(3);
    if k == 2 {
        let deep = tier() == 1;
        let mut g = Gen::large(choose(if deep { 48 } else { 12 }) as usize, if deep { 40 } else { 25 }, 1 + deep as usize);
        g.document();
        roundtrip(&g.out);
    } else if k == 0 {
        let n = if tier() == 0 { 5 } else { 6 };
        let v = bytes(choose(n + 1) as usize);
        roundtrip(&v);
    } else {
        let v = tmpl(SHAPES[choose(SHAPES.len() as u32) as usize]);
        roundtrip(&v);
    }
}
