use crate::hooks::*;
use crate::shapes::*;
use crate::util::*;
use nondestructive::yaml;

pub fn run() {
    let v = if choose(2) == 0 {
        let n = if tier() == 0 { 5 } else { 6 };
        bytes(choose(n + 1) as usize)
    } else {
        let t = SHAPES[choose(SHAPES.len() as u32) as usize];
        if tier() == 0 {
            tmpl(t)
        } else {
            // also cut short anywhere
            let n = t.len() - choose(t.len() as u32) as usize;
            tmpl(&t[..n])
        }
    };
    note("input", &v);
    match yaml::from_slice(&v) {
        Ok(_) => reach(1),
        Err(e) => {
            reach(2);
            let s = e.span();
            observe(s.start as u64);
            observe(s.end as u64);
            check!(s.start <= s.end, "error span starts after its end");
            check!(s.end <= v.len(), "error span ends past the input");
        }
    }
}
