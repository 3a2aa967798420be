use crate::hooks::*;
use crate::places::*;
use crate::util::*;
use nondestructive::yaml::{self, Any, Document, Null};

/// Look at the value in the edited document and in the one that is read back.
#[inline(never)]
fn twice(d: &Document, at: usize, look: &dyn Fn(&yaml::Value<'_>)) {
    look(&d.value(place(d, at, false)));
    let out = write(d);
    note("written", &out);
    observe_bytes(&out);
    let Ok(e) = yaml::from_slice(&out) else { fail("the written document is rejected") };
    look(&e.value(place(&e, at, false)));
}

macro_rules! integers {
    ($k:expr, $at:expr, $deep:expr; $($n:literal $t:ident $set:ident $insert:ident $push:ident $as:ident $max:expr;)*) => {
        match $k {
            $($n => {
                let x: $t = windows::<{ ($t::BITS / 8) as usize }>($t::MIN < (0 as $t), $max, $at == 0, $deep)
                    .map_or_else(|| { assume(false); unreachable!() }, |b| $t::from_le_bytes(b));
                let mut d = base($at);
                match target(&mut d, $at) {
                    Target::Set(mut v) => v.$set(x),
                    Target::Insert(mut m) => m.$insert("n", x),
                    Target::Push(mut s) => s.$push(x),
                }
                twice(&d, $at, &|v| {
                    let Some(got) = v.$as() else { fail("an integer isn't there with its own type") };
                    check!(got == x, "an integer reads as another one");
                    check!(v.as_i128() == i128::try_from(x).ok(), "an integer differs as an i128");
                    check!(v.as_u128() == u128::try_from(x).ok(), "an integer differs as a u128");
                    check!(v.as_i16() == i16::try_from(x).ok(), "an integer differs as an i16");
                    check!(v.as_u32() == u32::try_from(x).ok(), "an integer differs as a u32");
                    check!(v.as_bool().is_none() && v.as_str().is_none() && v.as_mapping().is_none() && v.as_sequence().is_none(),
                        "an integer has another type as well");
                    check!(matches!(v.as_any(), Any::Number(_)), "as_any isn't a number");
                    reach(1);
                });
            })*
            _ => unreachable!(),
        }
    }
}

/// Little-endian bytes around interesting values: all but one byte fixed, a whole byte unconstrained.
#[inline(never)]
fn windows<const N: usize>(signed: bool, max: u128, all: bool, deep: bool) -> Option<[u8; N]> {
    let mut b = [0u8; N];
    let bits = 8 * N;
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let (v, p) = match choose(if all { 4 } else { 2 }) {
        // the largest and the smallest 256 values
        0 => (max & !0xff, 0),
        1 => (if signed { (max + 1) & mask } else { 0 }, 0),
        // every byte on its own, in front of different ones
        2 => {
            let p = choose(N as u32) as usize;
            let v = [0, mask, 0x0123_4567_89ab_cdef_0123_4567_89ab_cdef & mask][choose(if deep { 3 } else { 2 }) as usize];
            (v, p)
        }
        // around the powers of ten
        _ => {
            let mut t = 10u128;
            for _ in 0..choose(38) {
                t *= 10;
            }
            if t > max {
                return None;
            }
            let t = t.saturating_sub(choose(2) as u128 * 128);
            (if signed && choose(2) == 1 { t.wrapping_neg() & mask } else { t }, 0)
        }
    };
    for i in 0..N {
        b[i] = if i == p { byte() } else { (v >> (8 * i)) as u8 };
    }
    Some(b)
}

pub fn run() {
    let at = choose(DOCS.len() as u32) as usize;
    let deep = tier() == 1;
    let k = choose(12);
    match k {
        10 => {
            let x = byte() & 1 == 1;
            let mut d = base(at);
            match target(&mut d, at) {
                Target::Set(mut v) => v.set_bool(x),
                Target::Insert(mut m) => m.insert_bool("n", x),
                Target::Push(mut s) => s.push_bool(x),
            }
            twice(&d, at, &|v| {
                check!(v.as_bool() == Some(x), "a bool reads as something else");
                check!(
                    v.as_str().is_none() && v.as_number().is_none() && v.as_u8().is_none() && v.as_mapping().is_none() && v.as_sequence().is_none(),
                    "a bool has another type as well"
                );
                check!(matches!(v.as_any(), Any::Bool(b) if b == x), "as_any isn't that bool");
                reach(2);
            });
        }
        11 => {
            let mut d = base(at);
            let kind = [Null::Empty, Null::Tilde, Null::Keyword][choose(3) as usize].clone();
            // an omitted item of a flow sequence can't be written
            assume(!matches!(kind, Null::Empty) || !matches!(at, 11 | 12));
            match target(&mut d, at) {
                Target::Set(mut v) => v.set_null(kind),
                Target::Insert(mut m) => m.insert("n", yaml::Separator::Auto).set_null(kind),
                Target::Push(mut s) => s.push(yaml::Separator::Auto).set_null(kind),
            }
            twice(&d, at, &|v| {
                check!(matches!(v.as_any(), Any::Null), "a null reads as something else");
                check!(
                    v.as_bool().is_none()
                        && v.as_str().is_none()
                        && v.as_number().is_none()
                        && v.as_i32().is_none()
                        && v.as_mapping().is_none()
                        && v.as_sequence().is_none(),
                    "a null has another type as well"
                );
                reach(3);
            });
        }
        k => {
            integers!(k, at, deep;
                0 u8 set_u8 insert_u8 push_u8 as_u8 u8::MAX as u128;
                1 i8 set_i8 insert_i8 push_i8 as_i8 i8::MAX as u128;
                2 u16 set_u16 insert_u16 push_u16 as_u16 u16::MAX as u128;
                3 i16 set_i16 insert_i16 push_i16 as_i16 i16::MAX as u128;
                4 u32 set_u32 insert_u32 push_u32 as_u32 u32::MAX as u128;
                5 i32 set_i32 insert_i32 push_i32 as_i32 i32::MAX as u128;
                6 u64 set_u64 insert_u64 push_u64 as_u64 u64::MAX as u128;
                7 i64 set_i64 insert_i64 push_i64 as_i64 i64::MAX as u128;
                8 u128 set_u128 insert_u128 push_u128 as_u128 u128::MAX as u128;
                9 i128 set_i128 insert_i128 push_i128 as_i128 i128::MAX as u128;
            )
        }
    }
}
