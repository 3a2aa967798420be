//! Minimal binding to libz3: decides conjunctions of expressions.

#![allow(non_camel_case_types)]
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvugt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvuge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsgt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsge(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_substitute(c: P, a: P, n: c_uint, from: *const P, to: *const P) -> P;
    fn Z3_simplify(c: P, a: P) -> P;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub calls: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub micros: u64,
    pub max_micros: u64,
}

pub struct Z3 {
    c: P,
    s: P,
    bool_c: Vec<P>,
    bv_c: Vec<P>,
    doms: FxMap<(u32, Dom), P>,
    consts: std::cell::RefCell<FxMap<(u128, u32), P>>,
    pub stats: Stats,
    uses: u64,
    slow: u64,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c)
        }
    }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Self::mk_solver(c);
            Z3 { c, s, bool_c: vec![], bv_c: vec![], consts: Default::default(),
            doms: Default::default(), stats: Default::default(), uses: 0, slow: std::env::var("SYMEX_SLOW").ok().and_then(|s| s.parse::<u64>().ok()).map_or(u64::MAX, |ms| ms * 1000) }
        }
    }
    unsafe fn mk_solver(c: P) -> P {
        let s = Z3_mk_simple_solver(c);
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let t = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), 30_000);
        Z3_solver_set_params(c, s, p);
        s
    }
    unsafe fn keep(&self, a: P) -> P {
        if a.is_null() || Z3_get_error_code(self.c) != 0 {
            panic!("z3 term construction failed");
        }
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn bvk(&self, v: u128, w: u32) -> P {
        if let Some(p) = self.consts.borrow().get(&(v, w)) {
            return *p;
        }
        if w <= 64 {
            let p = self.keep(Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w)));
            self.consts.borrow_mut().insert((v, w), p);
            return p;
        }
        let lo = self.bvk(v & mask(64), 64);
        let hi = self.bvk(v >> 64, w - 64);
        self.keep(Z3_mk_concat(self.c, hi, lo))
    }

    fn b(&mut self, ar: &Arena, e: Ex) -> P {
        let i = e as usize;
        if self.bool_c.len() <= i {
            self.bool_c.resize(ar.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bool_c[i].is_null() {
            return self.bool_c[i];
        }
        let n = ar.n[i];
        assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            let t = match n.op {
                Op::K => {
                    if ar.kv(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Bin(BinOp::And) => {
                    let a = [self.b(ar, n.a), self.b(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Bin(BinOp::Or) => {
                    let a = [self.b(ar, n.a), self.b(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Bin(BinOp::Xor) => {
                    if ar.kv(n.b) == Some(1) {
                        let a = self.b(ar, n.a);
                        Z3_mk_not(c, a)
                    } else {
                        let (x, y) = (self.b(ar, n.a), self.b(ar, n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Cmp(p) => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, x, y),
                        Pred::Ne => {
                            let q = self.keep(Z3_mk_eq(c, x, y));
                            Z3_mk_not(c, q)
                        }
                        Pred::Ult => Z3_mk_bvult(c, x, y),
                        Pred::Ule => Z3_mk_bvule(c, x, y),
                        Pred::Ugt => Z3_mk_bvugt(c, x, y),
                        Pred::Uge => Z3_mk_bvuge(c, x, y),
                        Pred::Slt => Z3_mk_bvslt(c, x, y),
                        Pred::Sle => Z3_mk_bvsle(c, x, y),
                        Pred::Sgt => Z3_mk_bvsgt(c, x, y),
                        Pred::Sge => Z3_mk_bvsge(c, x, y),
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.b(ar, n.a), self.b(ar, n.b), self.b(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.v(ar, e);
                    let one = self.bvk(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            };
            self.keep(t)
        };
        self.bool_c[i] = r;
        r
    }

    fn v(&mut self, ar: &Arena, e: Ex) -> P {
        let i = e as usize;
        if self.bv_c.len() <= i {
            self.bv_c.resize(ar.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv_c[i].is_null() {
            return self.bv_c[i];
        }
        let n = ar.n[i];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            let t = match n.op {
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8)),
                Op::K => self.bvk(ar.consts[n.a as usize], w),
                Op::Bin(BinOp::And | BinOp::Or | BinOp::Xor) | Op::Cmp(_) | Op::Ite if w == 1 => {
                    let x = self.b(ar, e);
                    let (o, z) = (self.bvk(1, 1), self.bvk(0, 1));
                    Z3_mk_ite(c, x, o, z)
                }
                Op::Bin(op) => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Op::Ite => {
                    let x = self.b(ar, n.a);
                    let (y, z) = (self.v(ar, n.b), self.v(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Zext => {
                    let x = self.v(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), x)
                }
                Op::Sext => {
                    let x = self.v(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), x)
                }
                Op::Extract => {
                    let x = self.v(ar, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, x)
                }
                Op::Concat => {
                    let (x, y) = (self.v(ar, n.a), self.v(ar, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Tab => {
                    let x = self.v(ar, n.a);
                    let tab = &ar.tabs[n.b as usize];
                    self.mux(x, &tab[..], 7, w)
                }
                Op::Cmp(_) => unreachable!(),
            };
            self.keep(t)
        };
        self.bv_c[i] = r;
        r
    }

    /// Decision tree over the bits of an 8-bit value selecting a table entry.
    unsafe fn mux(&mut self, x: P, t: &[u64], bit: i32, w: u32) -> P {
        if t.iter().all(|v| *v == t[0]) {
            return self.bvk(t[0] as u128, w);
        }
        let h = t.len() / 2;
        if t[..h] == t[h..] {
            return self.mux(x, &t[..h], bit - 1, w);
        }
        let lo = self.mux(x, &t[..h], bit - 1, w);
        let hi = self.mux(x, &t[h..], bit - 1, w);
        let b = self.keep(Z3_mk_extract(self.c, bit as c_uint, bit as c_uint, x));
        let one = self.bvk(1, 1);
        let q = self.keep(Z3_mk_eq(self.c, b, one));
        self.keep(Z3_mk_ite(self.c, q, hi, lo))
    }

    fn dom(&mut self, ar: &mut Arena, var: u32, d: &Dom) -> P {
        if let Some(p) = self.doms.get(&(var, *d)) {
            return *p;
        }
        let ve = ar.var(var);
        let x = self.v(ar, ve);
        let mut parts = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if !dget(d, i as u8) {
                    i += 1;
                    continue;
                }
                let s = i;
                while i < 256 && dget(d, i as u8) {
                    i += 1;
                }
                let e = i - 1;
                let ks = self.bvk(s as u128, 8);
                let ke = self.bvk(e as u128, 8);
                if s == e {
                    parts.push(self.keep(Z3_mk_eq(self.c, x, ks)));
                } else {
                    let a = [self.keep(Z3_mk_bvuge(self.c, x, ks)), self.keep(Z3_mk_bvule(self.c, x, ke))];
                    parts.push(self.keep(Z3_mk_and(self.c, 2, a.as_ptr())));
                }
            }
            let r = if parts.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) };
            let r = self.keep(r);
            self.doms.insert((var, *d), r);
            r
        }
    }

    /// The expression for one value of its only variable, as a term over constants.
    unsafe fn konst(&mut self, ar: &Arena, e: Ex, i: u8, memo: &mut Vec<(Ex, P)>) -> P {
        if let Some((_, p)) = memo.iter().find(|m| m.0 == e) {
            return *p;
        }
        let n = ar.n[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let t = match n.op {
            Op::Var => self.bvk(i as u128, 8),
            Op::K => self.bvk(ar.consts[n.a as usize], w),
            Op::Tab => self.bvk(ar.tabs[n.b as usize][i as usize] as u128, w),
            Op::Ite => {
                let (x, y, z) = (self.konst(ar, n.a, i, memo), self.konst(ar, n.b, i, memo), self.konst(ar, n.c, i, memo));
                let one = self.bvk(1, 1);
                let q = Z3_mk_eq(c, x, one);
                Z3_inc_ref(c, q);
                memo.push((Ex::MAX, q));
                Z3_mk_ite(c, q, y, z)
            }
            Op::Bin(op) => {
                let (x, y) = (self.konst(ar, n.a, i, memo), self.konst(ar, n.b, i, memo));
                match op {
                    BinOp::Add => Z3_mk_bvadd(c, x, y),
                    BinOp::Sub => Z3_mk_bvsub(c, x, y),
                    BinOp::Mul => Z3_mk_bvmul(c, x, y),
                    BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                    BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                    BinOp::URem => Z3_mk_bvurem(c, x, y),
                    BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                    BinOp::Shl => Z3_mk_bvshl(c, x, y),
                    BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                    BinOp::AShr => Z3_mk_bvashr(c, x, y),
                    BinOp::And => Z3_mk_bvand(c, x, y),
                    BinOp::Or => Z3_mk_bvor(c, x, y),
                    BinOp::Xor => Z3_mk_bvxor(c, x, y),
                }
            }
            Op::Cmp(p) => {
                let (x, y) = (self.konst(ar, n.a, i, memo), self.konst(ar, n.b, i, memo));
                let q = match p {
                    Pred::Eq | Pred::Ne => Z3_mk_eq(c, x, y),
                    Pred::Ult => Z3_mk_bvult(c, x, y),
                    Pred::Ule => Z3_mk_bvule(c, x, y),
                    Pred::Ugt => Z3_mk_bvugt(c, x, y),
                    Pred::Uge => Z3_mk_bvuge(c, x, y),
                    Pred::Slt => Z3_mk_bvslt(c, x, y),
                    Pred::Sle => Z3_mk_bvsle(c, x, y),
                    Pred::Sgt => Z3_mk_bvsgt(c, x, y),
                    Pred::Sge => Z3_mk_bvsge(c, x, y),
                };
                Z3_inc_ref(c, q);
                memo.push((Ex::MAX, q));
                let (t, f) = (self.bvk((p != Pred::Ne) as u128, 1), self.bvk((p == Pred::Ne) as u128, 1));
                Z3_mk_ite(c, q, t, f)
            }
            Op::Zext => {
                let x = self.konst(ar, n.a, i, memo);
                Z3_mk_zero_ext(c, w - ar.w(n.a), x)
            }
            Op::Sext => {
                let x = self.konst(ar, n.a, i, memo);
                Z3_mk_sign_ext(c, w - ar.w(n.a), x)
            }
            Op::Extract => {
                let x = self.konst(ar, n.a, i, memo);
                Z3_mk_extract(c, n.b + w - 1, n.b, x)
            }
            Op::Concat => {
                let (x, y) = (self.konst(ar, n.a, i, memo), self.konst(ar, n.b, i, memo));
                Z3_mk_concat(c, x, y)
            }
        };
        Z3_inc_ref(c, t);
        memo.push((e, t));
        t
    }

    /// Does the expression have these values? Decided by the solver for each value of the byte
    /// (the bit-level encoding of wide arithmetic and of large tables is slow).
    unsafe fn each(&mut self, ar: &Arena, e: Ex, values: &mut dyn Iterator<Item = (u8, u128)>) -> bool {
        let t0 = Instant::now();
        let mut refs = vec![];
        let mut eqs = vec![];
        for (i, want) in values {
            let mut memo = vec![];
            let t = self.konst(ar, e, i, &mut memo);
            let k = self.bvk(want, ar.w(e));
            let q = Z3_mk_eq(self.c, t, k);
            Z3_inc_ref(self.c, q);
            eqs.push(q);
            refs.extend(memo);
        }
        let all = Z3_mk_and(self.c, eqs.len() as c_uint, eqs.as_ptr());
        Z3_inc_ref(self.c, all);
        let r = Z3_simplify(self.c, all);
        Z3_inc_ref(self.c, r);
        let ok = Z3_get_bool_value(self.c, r) == 1;
        Z3_dec_ref(self.c, r);
        Z3_dec_ref(self.c, all);
        for p in eqs {
            Z3_dec_ref(self.c, p);
        }
        for (_, p) in refs {
            Z3_dec_ref(self.c, p);
        }
        self.stats.calls += 1;
        self.stats.unsat += 1;
        self.stats.micros += t0.elapsed().as_micros() as u64;
        ok
    }

    /// Does the condition hold for exactly these values of the byte?
    pub fn byte_check(&mut self, ar: &mut Arena, cond: Ex, set: &Dom, over: &Dom) -> bool {
        let mut v = (0..=255u8).filter(|i| dget(over, *i)).map(|i| (i, dget(set, i) as u128));
        unsafe { self.each(ar, cond, &mut v) }
    }

    /// Does the expression have these values?
    pub fn table_check(&mut self, ar: &mut Arena, e: Ex, t: &[u128; 256]) -> bool {
        let mut v = (0..=255u8).map(|i| (i, t[i as usize]));
        unsafe { self.each(ar, e, &mut v) }
    }

    /// Is the conjunction of the conditions satisfiable with the given variable domains?
    pub fn check(&mut self, ar: &mut Arena, conds: &[Ex], doms: &[(u32, Dom)], model: Option<&mut Vec<u8>>) -> Sat {
        let t0 = Instant::now();
        self.uses += 1;
        if self.uses % 20_000 == 0 {
            unsafe {
                Z3_solver_dec_ref(self.c, self.s);
                self.s = Self::mk_solver(self.c);
            }
        }
        unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, d) in doms {
                if *d != FULL {
                    let p = self.dom(ar, *v, d);
                    Z3_solver_assert(self.c, self.s, p);
                }
            }
            for e in conds {
                let p = self.b(ar, *e);
                Z3_solver_assert(self.c, self.s, p);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    self.stats.sat += 1;
                    if let Some(m) = model {
                        let md = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, md);
                        for (v, _) in doms {
                            let ve = ar.var(*v);
                            let x = self.v(ar, ve);
                            let mut o = std::ptr::null_mut();
                            Z3_model_eval(self.c, md, x, true, &mut o);
                            let mut n = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut n);
                            m[*v as usize] = n as u8;
                        }
                        Z3_model_dec_ref(self.c, md);
                    }
                    Sat::Sat
                }
                -1 => {
                    self.stats.unsat += 1;
                    Sat::Unsat
                }
                _ => {
                    self.stats.unknown += 1;
                    Sat::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            let us = t0.elapsed().as_micros() as u64;
            self.stats.calls += 1;
            self.stats.micros += us;
            self.stats.max_micros = self.stats.max_micros.max(us);
            if us > self.slow {
                let c: Vec<String> = conds.iter().map(|e| ar.show(*e)).collect();
                eprintln!("slow {}ms {:?}\n  {}", us / 1000, doms.iter().map(|(v, d)| (*v, dcount(d))).collect::<Vec<_>>(), c.join("\n  "));
            }
            out
        }
    }
}
