//! Hooks between a harness and whoever runs it.
//!
//! Symbolic build: calls into the engine. Native build (`feature = "native"`): a tape of
//! concrete bytes, one for each `byte()` and `choose()` in call order.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_byte() -> u8;
        fn sym_choose(n: u32) -> u32;
        fn sym_assume(c: bool);
        fn sym_fail(p: *const u8, n: usize);
        fn sym_observe(v: u64);
        fn sym_reach(k: u32);
        fn sym_tier() -> u32;
        fn sym_note(p: *const u8, n: usize);
    }
    #[inline(never)]
    pub fn byte() -> u8 {
        unsafe { sym_byte() }
    }
    #[inline(never)]
    pub fn choose(n: u32) -> u32 {
        unsafe { sym_choose(n) }
    }
    #[inline(never)]
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    #[inline(never)]
    pub fn fail(m: &str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
        loop {}
    }
    #[inline(never)]
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    #[inline(never)]
    pub fn reach(k: u32) {
        unsafe { sym_reach(k) }
    }
    #[inline(never)]
    pub fn tier() -> u32 {
        unsafe { sym_tier() }
    }
    #[inline(never)]
    pub fn note(_: &str, b: &[u8]) {
        unsafe { sym_note(b.as_ptr(), b.len()) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Run {
        pub tape: Vec<u8>,
        pub at: usize,
        pub digest: u64,
        pub reach: u64,
        pub tier: u32,
        pub verbose: bool,
    }
    thread_local!(pub static RUN: RefCell<Run> = RefCell::default());

    pub struct Assume;
    pub struct Fail(pub String);
    pub struct TapeEnd;

    fn next() -> u8 {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            let i = r.at;
            r.at += 1;
            match r.tape.get(i) {
                Some(b) => *b,
                None => {
                    drop(r);
                    std::panic::resume_unwind(Box::new(TapeEnd))
                }
            }
        })
    }
    pub fn byte() -> u8 {
        next()
    }
    pub fn choose(n: u32) -> u32 {
        let v = next() as u32;
        if v >= n {
            std::panic::resume_unwind(Box::new(TapeEnd))
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Assume))
        }
    }
    pub fn fail(m: &str) -> ! {
        std::panic::resume_unwind(Box::new(Fail(m.into())))
    }
    pub fn observe(v: u64) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            for b in v.to_le_bytes() {
                r.digest = (r.digest ^ b as u64).wrapping_mul(0x100000001b3);
            }
        })
    }
    pub fn reach(k: u32) {
        RUN.with(|r| r.borrow_mut().reach |= 1 << k)
    }
    pub fn tier() -> u32 {
        RUN.with(|r| r.borrow().tier)
    }
    pub fn note(what: &str, b: &[u8]) {
        RUN.with(|r| {
            if r.borrow().verbose {
                println!("  {what}: \"{}\"", b.escape_ascii());
            }
        })
    }
    pub fn run(f: fn(), tape: Vec<u8>, tier: u32, verbose: bool) -> (String, u64, u64) {
        RUN.with(|r| {
            *r.borrow_mut() = Run { tape, digest: 0xcbf29ce484222325, tier, verbose, ..Run::default() };
        });
        let r = std::panic::catch_unwind(f);
        let (d, rc, at, len) = RUN.with(|r| {
            let r = r.borrow();
            (r.digest, r.reach, r.at, r.tape.len())
        });
        let s = match r {
            Ok(()) if at != len => "desync: tape not used up".into(),
            Ok(()) => "ok".into(),
            Err(e) => {
                if e.is::<Assume>() {
                    "assume".into()
                } else if let Some(f) = e.downcast_ref::<Fail>() {
                    format!("fail: {}", f.0)
                } else if e.is::<TapeEnd>() {
                    "desync: tape too short".into()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    format!("panic: {}", s.replace('\n', " "))
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    format!("panic: {}", s.replace('\n', " "))
                } else {
                    "panic".into()
                }
            }
        };
        (s, d, rc)
    }
}

pub use imp::*;

#[macro_export]
macro_rules! check {
    ($c:expr, $m:expr) => {
        if !$c {
            $crate::hooks::fail($m)
        }
    };
}
