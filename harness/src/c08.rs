use crate::gen::*;
use crate::util::*;
use crate::hooks::*;
use nondestructive::yaml;

pub fn run() {
    let deep = tier() == 1;
    // bigger trees with fixed words, smaller ones with unconstrained bytes in one of them
    let mut g = match choose(5) {
        4 => Gen::large(choose(if deep { 32 } else { 8 }) as usize, if deep { 40 } else { 25 }, 1 + deep as usize),
        0 => Gen::new(if deep { 4 } else { 3 }, choose(STYLES.len() as u32) as usize, 0),
        1 => Gen::new(if deep { 5 } else { 4 }, [0, 7][choose(if deep { 1 } else { 2 }) as usize], 0),
        // a key which is there twice
        2 => {
            let mut g = Gen::new(if deep { 4 } else { 3 }, [0, 2, 4][choose(3) as usize], 0);
            g.again = true;
            g
        }
        _ => {
            let wide = if deep { 1 + choose(2) as usize } else { 1 };
            Gen::new(if deep && wide == 1 { 3 } else { 2 }, choose(STYLES.len() as u32) as usize, wide)
        }
    };
    let again = g.again;
    let t = g.document();
    note("input", &g.out);
    let Ok(d) = yaml::from_slice(&g.out) else { fail("the document is rejected") };
    reach(match t.kind {
        Kind::Map => 1,
        Kind::Seq => 2,
        _ => 3,
    });
    verify(&d, d.as_ref().id(), &t);
    // any other key
    if let (true, Some(m)) = (again, d.as_ref().as_mapping()) {
        let probe = [byte(), byte()];
        assume(probe[0] < 0x80 && probe[1] < 0x80);
        let Ok(probe) = std::str::from_utf8(&probe) else { unreachable!() };
        let want = (0..t.keys.len()).find(|i| same(&t.keys[*i], probe.as_bytes()));
        let got = m.get(probe);
        check!(got.is_some() == want.is_some(), "get finds a key that isn't there, or doesn't find one that is");
    }
}
