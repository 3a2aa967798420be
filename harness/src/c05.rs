use crate::hooks::*;
use crate::util::*;
use nondestructive::yaml::{self, Value};

/// The magnitude of a run of decimal digits, `None` when it doesn't fit 128 bits.
#[inline(never)]
fn magnitude(mut t: &[u8]) -> Option<u128> {
    const MAX: &[u8] = b"340282366920938463463374607431768211455";
    while let [b'0', r @ ..] = t {
        t = r;
    }
    if t.len() > MAX.len() {
        return None;
    }
    if t.len() == MAX.len() {
        for i in 0..t.len() {
            if t[i] > MAX[i] {
                return None;
            }
            if t[i] < MAX[i] {
                break;
            }
        }
    }
    let mut m = 0u128;
    for b in t {
        m = m.wrapping_mul(10).wrapping_add((*b as char).to_digit(10).unwrap_or_default() as u128);
    }
    Some(m)
}

enum Exact {
    /// Not an optional `-` followed by digits.
    No,
    /// Sign and magnitude (`None`: more than any type holds).
    Int(bool, Option<u128>),
}

#[inline(never)]
fn exact(t: &[u8]) -> Exact {
    let (neg, d) = match t {
        [b'-', d @ ..] => (true, d),
        d => (false, d),
    };
    if d.is_empty() {
        return Exact::No;
    }
    for b in d {
        if !b.is_ascii_digit() {
            return Exact::No;
        }
    }
    Exact::Int(neg, magnitude(d))
}

macro_rules! each {
    ($v:expr, $n:expr, $e:expr; $($f:ident $t:ty, $u:ty, $signed:expr;)*) => {$({
        let want: Option<$t> = match $e {
            Exact::No => None,
            Exact::Int(_, None) => None,
            Exact::Int(neg, Some(m)) => {
                if !neg {
                    if m <= <$t>::MAX as u128 { Some(m as $t) } else { None }
                } else if $signed {
                    // the magnitude of the minimum is one more than the maximum
                    if m <= <$t>::MAX as u128 + 1 { Some((0 as $t).wrapping_sub(m as $t)) } else { None }
                } else {
                    // no unsigned accessor takes a sign
                    None
                }
            }
        };
        let got = $v.$f();
        check!(got.is_some() == want.is_some(), concat!(stringify!($f), " has a value when it shouldn't, or none when it should"));
        check!(got == want, concat!(stringify!($f), " gives another value"));
        if let Some(n) = &$n {
            check!(n.$f() == got, concat!("Number::", stringify!($f), " differs from the value's"));
        }
        if got.is_some() { reach(1) } else { reach(2) }
        let _ = 0 as $u;
    })*}
}

#[inline(never)]
pub fn judge(v: &Value<'_>, t: &[u8]) {
    let number = v.as_number();
    let e = exact(t);
    if let Exact::Int(..) = e {
        check!(number.is_some(), "digits aren't a number");
        reach(3);
    } else if number.is_some() {
        reach(4);
    } else {
        reach(5);
    }
    each!(v, number, e;
        as_u8 u8, u8, false;
        as_i8 i8, u8, true;
        as_u16 u16, u16, false;
        as_i16 i16, u16, true;
        as_u32 u32, u32, false;
        as_i32 i32, u32, true;
        as_u64 u64, u64, false;
        as_i64 i64, u64, true;
        as_u128 u128, u128, false;
        as_i128 i128, u128, true;
    );
}

/// The magnitudes around which the answer changes.
const LIMITS: &[&[u8]] = &[
    b"127", b"128", b"255", b"256", b"32767", b"32768", b"65535", b"65536", b"2147483647", b"2147483648", b"4294967295",
    b"4294967296", b"9223372036854775807", b"9223372036854775808", b"18446744073709551615", b"18446744073709551616",
    b"170141183460469231731687303715884105727", b"340282366920938463463374607431768211455", b"100000000000000000000",
    b"99999999", b"1000000000", b"10000000000000000", b"999999999999999999999999999999999999999",
];

#[inline(never)]
fn digit() -> u8 {
    let b = byte();
    assume(b.is_ascii_digit());
    b
}

#[inline(never)]
fn window() -> Vec<u8> {
    let w = LIMITS[choose(LIMITS.len() as u32) as usize];
    let mut t = Vec::new();
    if choose(2) == 1 {
        t.push(b'-');
    }
    let zeros = [0, 1, 9][choose(3) as usize];
    for _ in 0..zeros {
        t.push(b'0');
    }
    let n = w.len();
    let k = if tier() == 0 { 2 } else { 3 };
    // leading zeros only with varying last digits
    match if zeros > 0 { 0 } else { choose(5) } {
        0 => {
            // the last digits vary
            let k = if n < k { n } else { k };
            t.extend_from_slice(&w[..n - k]);
            for _ in 0..k {
                t.push(digit());
            }
        }
        1 => {
            // the first ones do
            t.push(digit());
            t.push(digit());
            t.extend_from_slice(&w[2..]);
        }
        2 => {
            // one more digit
            t.extend_from_slice(w);
            t.push(digit());
        }
        3 => {
            // a byte that makes it something else, anywhere
            let at = choose(n as u32 + 1) as usize;
            t.extend_from_slice(&w[..at]);
            t.push(byte());
            t.extend_from_slice(&w[at..]);
        }
        _ => {
            // one digit anywhere and the last
            let at = choose(n as u32 - 1) as usize;
            t.extend_from_slice(&w[..at]);
            t.push(digit());
            t.extend_from_slice(&w[at + 1..n - 1]);
            t.push(digit());
        }
    }
    t
}

pub fn run() {
    let short = choose(2) == 0;
    let t = if short { bytes(1 + choose(if tier() == 0 { 4 } else { 5 }) as usize) } else { window() };
    let nested = short && choose(2) == 1;
    let mut v = Vec::new();
    if nested {
        v.extend_from_slice(b"{k: ");
    }
    v.extend_from_slice(&t);
    if nested {
        v.extend_from_slice(b"}");
    }
    note("input", &v);
    let Ok(d) = yaml::from_slice(&v) else { return };
    let mut id = d.as_ref().id();
    if nested {
        id = match entry(&d, id, "k") {
            Some(id) => id,
            None => return,
        };
    }
    // only when the value is just this text
    let v = d.value(id);
    if let Some(n) = v.as_number() {
        assume(same(n.as_raw(), &t));
    } else if !matches!(exact(&t), Exact::No) {
        fail("digits aren't a number");
    }
    judge(&v, &t);
}
