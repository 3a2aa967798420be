//! The symbolic interpreter.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Sat, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Box<u128>),
    S(Ex),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub d: Box<[u8]>,
    pub s: Option<Box<[u32]>>, // 0 = concrete, else expr id + 1
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { d: vec![0; n].into(), s: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub body: &'static Body,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub fobj: u32,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

pub struct DNode {
    parent: Option<Rc<DNode>>,
    choice: u32,
}

impl Drop for DNode {
    fn drop(&mut self) {
        // iterative drop to avoid deep recursion
        let mut p = self.parent.take();
        while let Some(n) = p {
            match Rc::try_unwrap(n) {
                Ok(mut n) => p = n.parent.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tape {
    Choice(u32),
    Var(u32),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub doms: Vec<Dom>,
    pub multi: Vec<Ex>,
    pub multi_vars: u128,
    pub model: Vec<u8>,
    pub pinned: Vec<(Ex, u64)>,
    pub hint: Option<(Ex, bool)>,
    pub tape: Vec<Tape>,
    pub dec: Option<Rc<DNode>>,
    pub prefix: Rc<Vec<u32>>,
    pub ppos: usize,
    pub obs: Vec<(Val, u32)>,
    pub reach: u64,
    pub hashes: Vec<Rc<Vec<Ex>>>,
    pub steps: u64,
    pub pending_choice: Option<u32>,
    pub note: Vec<u8>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Infeasible,
    Fail(String),
    Panic(String),
    Mem(String),
    Steps,
    Depth,
    Unsupported(String),
    Unknown(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    Getrandom,
    Zero,
    NegOne,
    Write,
    Abort,
    Panic,
    SymByte,
    SymChoose,
    SymAssume,
    SymFail,
    SymObserve,
    SymReach,
    SymHash,
    SymTier,
    SymNote,
    SymConc,
    MemCpy,
    MemSet,
    Errno,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_depth: usize,
    pub tier: u32,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub steps: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub forks: u64,
    pub model_sat: u64,
    pub dom_queries: u64,
    pub dom_cached: u64,
    pub bounds: u64,
    pub finite: u64,
    pub max_depth: usize,
    pub hash_forks: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub z3: Z3,
    pub cfg: &'static Cfg,
    pub work: Vec<State>,
    pub cnt: Counters,
    bi: Vec<Bi>,
    gslot: Vec<u32>,
    init_heap: Vec<Option<Rc<Obj>>>,
    domq: FxMap<Ex, ()>,
    collapsed: FxMap<Ex, Ex>,
    domshared: Arc<Mutex<HashSet<u128>>>,
    pub seen: Vec<bool>,
    pub fork_sites: HashMap<(usize, u32), u64>,
    pub trace_forks: bool,
}

type R<T> = Result<T, Stop>;

fn kv(v: u128, w: u32) -> Val {
    if w > 64 {
        Val::W(Box::new(v & mask(w)))
    } else {
        Val::C((v & mask(w)) as u64)
    }
}

struct Feas {
    t: Option<Vec<(u32, u8)>>,
    f: Option<Vec<(u32, u8)>>,
}

impl Exec {
    pub fn new(m: &'static Module, cfg: &'static Cfg, domshared: Arc<Mutex<HashSet<u128>>>) -> Exec {
        let mut bi = vec![];
        for f in &m.funcs {
            let n = f.name.as_str();
            let has = |s: &str| n.ends_with(s);
            let b = if has("___rust_alloc") || has("11___rdl_alloc") {
                Bi::Alloc
            } else if has("___rust_alloc_zeroed") || has("18___rdl_alloc_zeroed") {
                Bi::AllocZ
            } else if has("___rust_dealloc") || has("13___rdl_dealloc") {
                Bi::Dealloc
            } else if has("___rust_realloc") || has("13___rdl_realloc") {
                Bi::Realloc
            } else if n.contains("9panicking9panic_fmt")
                || n.contains("9panicking19panic_nounwind_fmt")
                || n.contains("9panicking14panic_nounwind")
                || n.contains("rust_begin_unwind")
                || n.contains("19begin_panic_handler")
                || n.contains("20rust_panic_with_hook")
                || n.contains("18handle_alloc_error")
                || n.contains("8rt_error")
                || n.contains("9panicking18panic_bounds_check")
                || n.contains("9panicking5panic")
                || n.contains("11panic_const")
                || n.contains("18slice_index_fail")
                || n.contains("13unwrap_failed")
                || n.contains("13expect_failed")
                || n.contains("16slice_error_fail")
            {
                Bi::Panic
            } else {
                match n {
                    "malloc" => Bi::Malloc,
                    "calloc" => Bi::Calloc,
                    "free" => Bi::Free,
                    "realloc" => Bi::CRealloc,
                    "posix_memalign" => Bi::Memalign,
                    "bcmp" => Bi::Bcmp,
                    "memcmp" => Bi::Memcmp,
                    "memcpy" | "memmove" => Bi::MemCpy,
                    "memset" => Bi::MemSet,
                    "strlen" => Bi::Strlen,
                    "getrandom" => Bi::Getrandom,
                    "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "getenv" | "pthread_getspecific" => Bi::Zero,
                    "write" | "writev" => Bi::Write,
                    "syscall" => Bi::NegOne,
                    "__errno_location" => Bi::Errno,
                    "abort" => Bi::Abort,
                    "sym_byte" => Bi::SymByte,
                    "sym_choose" => Bi::SymChoose,
                    "sym_assume" => Bi::SymAssume,
                    "sym_fail" => Bi::SymFail,
                    "sym_observe" => Bi::SymObserve,
                    "sym_reach" => Bi::SymReach,
                    "sym_hash128" => Bi::SymHash,
                    "sym_tier" => Bi::SymTier,
                    "sym_note" => Bi::SymNote,
                    "sym_conc" => Bi::SymConc,
                    _ => Bi::None,
                }
            };
            bi.push(b);
        }
        let mut gslot = vec![u32::MAX; m.globals.len()];
        let mut heap = vec![];
        for (i, g) in m.globals.iter().enumerate() {
            if !g.constant && !g.external {
                gslot[i] = heap.len() as u32;
                let mut o = Obj::new(g.size as usize);
                o.d.copy_from_slice(&g.data);
                heap.push(Some(Rc::new(o)));
            }
        }
        let nf = m.funcs.len();
        Exec {
            m,
            ar: Arena::new(),
            z3: Z3::new(),
            cfg,
            work: vec![],
            cnt: Default::default(),
            bi,
            gslot,
            init_heap: heap,
            domq: Default::default(),
            collapsed: Default::default(),
            domshared,
            seen: vec![false; nf],
            fork_sites: HashMap::new(),
            trace_forks: false,
        }
    }

    pub fn start(&mut self, entry: usize, prefix: Vec<u32>) -> State {
        let body: &'static Body = self.m.body(entry);
        self.seen[entry] = true;
        let mut st = State {
            cur: Frame { f: entry, body, pc: 0, regs: vec![Val::C(0); body.nregs as usize], fobj: 0, dst: None, normal: None },
            stack: vec![],
            heap: self.init_heap.clone(),
            free: vec![],
            doms: vec![],
            multi: vec![],
            multi_vars: 0,
            model: vec![],
            pinned: vec![],
            hint: None,
            tape: vec![],
            dec: None,
            prefix: Rc::new(prefix),
            ppos: 0,
            obs: vec![],
            reach: 0,
            hashes: vec![],
            steps: 0,
            pending_choice: None,
            note: vec![],
        };
        if body.frame_size > 0 {
            st.cur.fobj = self.alloc(&mut st, body.frame_size as usize);
        }
        st
    }

    pub fn decisions(st: &State) -> Vec<u32> {
        let mut v = vec![];
        let mut p = st.dec.as_ref();
        while let Some(n) = p {
            v.push(n.choice);
            p = n.parent.as_ref();
        }
        v.reverse();
        v
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, st: &mut State, n: usize) -> u32 {
        let o = Some(Rc::new(Obj::new(n)));
        if let Some(i) = st.free.pop() {
            st.heap[i as usize] = o;
            i
        } else {
            st.heap.push(o);
            st.heap.len() as u32 - 1
        }
    }
    fn addr(slot: u32) -> u64 {
        (HEAP_BASE + slot as u64) << 32
    }
    fn slot_of(&self, addr: u64) -> Option<u32> {
        let id = addr >> 32;
        if id >= HEAP_BASE && id < FUNC_BASE {
            Some((id - HEAP_BASE) as u32)
        } else if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            let s = *self.gslot.get(g)?;
            if s == u32::MAX {
                None
            } else {
                Some(s)
            }
        } else {
            None
        }
    }
    fn bad(&self, st: &State, what: &str, addr: u64, n: usize) -> Stop {
        Stop::Mem(format!("{what} of {n} bytes at {addr:#x} in {}", self.m.funcs[st.cur.f].name))
    }

    /// Borrow `n` bytes for reading: concrete bytes and optional symbolic map.
    fn view<'a>(&'a self, st: &'a State, addr: u64, n: usize) -> R<(&'a [u8], Option<&'a [u32]>)> {
        let off = (addr & 0xffff_ffff) as usize;
        let id = addr >> 32;
        if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            if let Some(gl) = self.m.globals.get(g) {
                if gl.constant {
                    if off + n > gl.data.len() {
                        return Err(self.bad(st, "read", addr, n));
                    }
                    return Ok((&gl.data[off..off + n], None));
                }
            }
        }
        if let Some(s) = self.slot_of(addr) {
            if let Some(Some(o)) = st.heap.get(s as usize) {
                if off + n <= o.d.len() {
                    return Ok((&o.d[off..off + n], o.s.as_ref().map(|s| &s[off..off + n])));
                }
            }
        }
        Err(self.bad(st, "read", addr, n))
    }

    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: usize) -> R<&'a mut Obj> {
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(s) = self.slot_of(addr) {
            if let Some(Some(o)) = st.heap.get(s as usize) {
                if off + n <= o.d.len() {
                    let Some(Some(o)) = st.heap.get_mut(s as usize) else { unreachable!() };
                    return Ok(Rc::make_mut(o));
                }
            }
        }
        Err(self.bad(st, "write", addr, n))
    }

    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (d, s) = self.view(st, addr, n)?;
        let sym = s.map_or(false, |s| s.iter().any(|x| *x != 0));
        if !sym {
            if n <= 8 {
                let mut v = 0u64;
                for i in (0..n).rev() {
                    v = v << 8 | d[i] as u64;
                }
                if w < 64 {
                    v &= (1u64 << w) - 1;
                }
                return Ok(Val::C(v));
            }
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = v << 8 | d[i] as u128;
            }
            return Ok(Val::W(Box::new(v & mask(w))));
        }
        let mut tmp = [0u32; 16];
        let mut cb = [0u8; 16];
        cb[..n].copy_from_slice(d);
        tmp[..n].copy_from_slice(s.unwrap());
        let mut acc: Option<Ex> = None;
        for i in 0..n {
            let e = if tmp[i] == 0 { self.ar.k(cb[i] as u128, 8) } else { self.byte_ex(st, tmp[i] - 1) };
            acc = Some(match acc {
                None => e,
                Some(l) => self.ar.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        if w % 8 != 0 {
            e = self.ar.extract(e, 0, w);
        }
        Ok(self.from_ex(e))
    }

    /// A symbolic byte, made concrete when the path pins its variable.
    fn byte_ex(&mut self, st: &State, e: Ex) -> Ex {
        let n = self.ar.n[e as usize];
        if n.op == Op::Var {
            let d = &st.doms[n.a as usize];
            if dcount(d) == 1 {
                return self.ar.k(dfirst(d) as u128, 8);
            }
        }
        e
    }

    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::C(c) => {
                let o = self.obj_mut(st, addr, n)?;
                let b = c.to_le_bytes();
                if n <= 8 {
                    o.d[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.d[off..off + 8].copy_from_slice(&b);
                    o.d[off + 8..off + n].fill(0);
                }
                if let Some(s) = &mut o.s {
                    s[off..off + n].fill(0);
                }
            }
            Val::W(c) => {
                let o = self.obj_mut(st, addr, n)?;
                let b = c.to_le_bytes();
                o.d[off..off + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut o.s {
                    s[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.ar.zext(e, n as u32 * 8);
                }
                let mut parts = [(0u8, 0u32); 16];
                for i in 0..n {
                    let x = self.ar.extract(e, 8 * i as u32, 8);
                    parts[i] = match self.ar.kv(x) {
                        Some(k) => (k as u8, 0),
                        None => (0, x + 1),
                    };
                }
                let o = self.obj_mut(st, addr, n)?;
                let len = o.d.len();
                let s = o.s.get_or_insert_with(|| vec![0; len].into());
                for i in 0..n {
                    o.d[off + i] = parts[i].0;
                    s[off + i] = parts[i].1;
                }
            }
            Val::A(_) => return Err(Stop::Unsupported("store aggregate as int".into())),
        }
        Ok(())
    }

    fn load_ty(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Vec(n, e) => {
                let w = e.bits();
                if w == 1 && n % 8 == 0 {
                    let x = self.load_int(st, addr, *n)?;
                    return self.vec_bitcast(&x, &Ty::Int(*n), t);
                }
                if w % 8 != 0 {
                    return Err(Stop::Unsupported("bit vector load".into()));
                }
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + (i * w / 8) as u64, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let s = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, addr + i * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, ft) in f.iter().enumerate() {
                    v.push(self.load_ty(st, addr + t.field_off(i), ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Stop::Unsupported(format!("load {t:?}"))),
        }
    }

    fn store_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_int(st, addr, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, addr, 64, v),
            Ty::F32 => self.store_int(st, addr, 32, v),
            Ty::Vec(n, e) => {
                let w = e.bits();
                if w == 1 && n % 8 == 0 {
                    let x = self.vec_bitcast(v, t, &Ty::Int(*n))?;
                    return self.store_int(st, addr, *n, &x);
                }
                if w % 8 != 0 {
                    return Err(Stop::Unsupported("bit vector store".into()));
                }
                let Val::A(v) = v else { return Err(Stop::Unsupported("vector store".into())) };
                for (i, x) in v.iter().enumerate() {
                    self.store_ty(st, addr + (i as u64) * (w / 8) as u64, e, x)?;
                }
                Ok(())
            }
            Ty::Arr(_, e) => {
                let s = e.size();
                let Val::A(v) = v else { return Err(Stop::Unsupported("array store".into())) };
                for (i, x) in v.iter().enumerate() {
                    self.store_ty(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let Val::A(v) = v else { return Err(Stop::Unsupported("struct store".into())) };
                for (i, x) in v.iter().enumerate() {
                    self.store_ty(st, addr + t.field_off(i), &f[i], x)?;
                }
                Ok(())
            }
            _ => Err(Stop::Unsupported(format!("store {t:?}"))),
        }
    }

    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (d, s) = self.view(st, src, n)?;
        let d = d.to_vec();
        let s = s.and_then(|s| if s.iter().any(|x| *x != 0) { Some(s.to_vec()) } else { None });
        let off = (dst & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, dst, n)?;
        o.d[off..off + n].copy_from_slice(&d);
        match s {
            Some(s) => {
                let len = o.d.len();
                let os = o.s.get_or_insert_with(|| vec![0; len].into());
                os[off..off + n].copy_from_slice(&s);
            }
            None => {
                if let Some(os) = &mut o.s {
                    os[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }

    fn bytes_ex(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<Ex>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (d, s) = self.view(st, addr, n)?;
        let d = d.to_vec();
        let s = s.map(|s| s.to_vec());
        let mut v = vec![];
        for i in 0..n {
            let x = s.as_ref().map_or(0, |s| s[i]);
            v.push(if x == 0 { self.ar.k(d[i] as u128, 8) } else { self.byte_ex(st, x - 1) });
        }
        Ok(v)
    }

    // ---------------------------------------------------------------- values

    fn from_ex(&mut self, e: Ex) -> Val {
        let e = self.collapse(e);
        match self.ar.kv(e) {
            Some(v) => kv(v, self.ar.w(e)),
            None => Val::S(e),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(c) => self.ar.k(*c as u128, w),
            Val::W(c) => self.ar.k(**c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expression"),
        }
    }
    fn conc128(v: &Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(*c as u128),
            Val::W(c) => Some(**c),
            _ => None,
        }
    }
    #[inline]
    fn op(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => st.cur.regs[*r as usize].clone(),
            Opd::C(c) => Val::C(*c),
            Opd::W(c) => Val::W(Box::new(*c)),
            Opd::A(v) => Val::A(Rc::new(v.iter().map(|x| self.op(st, x)).collect())),
        }
    }

    /// Reduce an expression under the path's pinned facts.
    fn reduce(&mut self, st: &State, e: Ex) -> Option<u64> {
        if let Some(k) = self.ar.kv(e) {
            return Some(k as u64);
        }
        for (p, v) in st.pinned.iter().rev() {
            if *p == e {
                return Some(*v);
            }
        }
        if let Some(x) = self.ar.single_var(e) {
            let d = st.doms[x as usize];
            if dcount(&d) == 1 {
                let mut m = [0u8; 128];
                m[x as usize] = dfirst(&d);
                return Some(self.ar.eval(e, &m) as u64);
            }
        }
        None
    }

    /// Need a concrete value: fork over all feasible values of the expression.
    fn concretize(&mut self, st: &mut State, v: &Val, what: &str) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(**c as u64),
            Val::A(_) => Err(Stop::Unsupported(format!("concretize aggregate {what}"))),
            Val::S(e) => {
                let e = *e;
                if self.ar.w(e) > 64 {
                    return Err(Stop::Unsupported(format!("concretize {} bits: {what}", self.ar.w(e))));
                }
                if let Some(k) = self.reduce(st, e) {
                    return Ok(k);
                }
                let vals = self.values(st, e, 300, what)?;
                if vals.len() == 1 {
                    st.pinned.push((e, vals[0].0));
                    return Ok(vals[0].0);
                }
                let i = self.fork_n(st, vals.len(), &mut |ex: &mut Exec, s: &mut State, i: usize| {
                    let w = ex.ar.w(e);
                    let k = ex.ar.k(vals[i].0 as u128, w);
                    let c = ex.ar.cmp(Pred::Eq, e, k);
                    ex.patch(s, &vals[i].1);
                    ex.add(s, c);
                    s.pinned.push((e, vals[i].0));
                });
                Ok(vals[i].0)
            }
        }
    }

    /// Feasible values of an expression, each with a model patch.
    fn values(&mut self, st: &mut State, e: Ex, limit: usize, what: &str) -> R<Vec<(u64, Vec<(u32, u8)>)>> {
        let w = self.ar.w(e);
        let mut out: Vec<(u64, Vec<(u32, u8)>)> = vec![];
        if let Some(x) = self.ar.single_var(e) {
            let d = st.doms[x as usize];
            let t = self.ar.table(e, x);
            let mut seen: Vec<u64> = vec![];
            for i in 0..256usize {
                if dget(&d, i as u8) {
                    let v = t[i] as u64;
                    if !seen.contains(&v) {
                        seen.push(v);
                    }
                }
            }
            for v in seen {
                let k = self.ar.k(v as u128, w);
                let c = self.ar.cmp(Pred::Eq, e, k);
                if let Some(p) = self.feasible(st, c)?.t {
                    out.push((v, p));
                }
            }
        } else {
            // solver-driven enumeration
            let mut excl: Vec<Ex> = vec![];
            loop {
                let (mut conds, vars) = self.slice(st, self.ar.vars[e as usize]);
                conds.extend(excl.iter().copied());
                let doms: Vec<(u32, Dom)> = vars.iter().map(|v| (*v, st.doms[*v as usize])).collect();
                let mut m = st.model.clone();
                match self.z3.check(&mut self.ar, &conds, &doms, Some(&mut m)) {
                    Sat::Sat => {
                        let v = self.ar.eval(e, &m) as u64;
                        out.push((v, vars.iter().map(|x| (*x, m[*x as usize])).collect()));
                        let k = self.ar.k(v as u128, w);
                        let c = self.ar.cmp(Pred::Ne, e, k);
                        excl.push(c);
                    }
                    Sat::Unsat => break,
                    Sat::Unknown => return Err(Stop::Unknown(format!("solver timeout in {what}"))),
                }
                if out.len() > limit {
                    return Err(Stop::Unsupported(format!("more than {limit} values for {what} in {}", self.m.funcs[st.cur.f].name)));
                }
            }
            out.sort();
        }
        if out.is_empty() {
            return Err(Stop::Infeasible);
        }
        Ok(out)
    }

    // ---------------------------------------------------------------- path condition

    fn patch(&mut self, st: &mut State, p: &[(u32, u8)]) {
        for (v, x) in p {
            st.model[*v as usize] = *x;
        }
    }

    pub fn add(&mut self, st: &mut State, e: Ex) {
        if let Some(k) = self.ar.kv(e) {
            assert_eq!(k, 1, "adding a false constraint");
            return;
        }
        let n = self.ar.n[e as usize];
        if n.op == Op::Bin(BinOp::And) {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Bin(BinOp::Xor) && self.ar.kv(n.b) == Some(1) {
            let i = self.ar.n[n.a as usize];
            if i.op == Op::Bin(BinOp::Or) {
                let x = self.ar.not(i.a);
                let y = self.ar.not(i.b);
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        if let Some(x) = self.ar.single_var(e) {
            let t = self.ar.truth(e, x);
            st.doms[x as usize] = dand(&st.doms[x as usize], &t);
            debug_assert!(!dempty(&st.doms[x as usize]));
            return;
        }
        st.multi.push(e);
        st.multi_vars |= self.ar.vars[e as usize];
    }

    /// Path constraints connected with the given variables.
    fn slice(&self, st: &State, vars: u128) -> (Vec<Ex>, Vec<u32>) {
        let mut vs = vars;
        let mut used = vec![false; st.multi.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, e) in st.multi.iter().enumerate() {
                let ev = self.ar.vars[*e as usize];
                if !used[i] && ev & vs != 0 {
                    used[i] = true;
                    vs |= ev;
                    out.push(*e);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        (out, (0..128).filter(|i| vs >> i & 1 == 1).collect())
    }

    /// The solver confirms, over all 256 values, that a condition on a single byte holds
    /// for exactly the values in the set the engine works with. Intersections of such sets
    /// then decide conjunctions of conditions on that byte.
    fn dom_verify(&mut self, c: Ex, x: u32, set: &Dom, d: &Dom) -> R<()> {
        self.cnt.dom_queries += 1;
        if self.ar.heavy(c) {
            // wide arithmetic: only over the values the byte can have here
            let mut h = self.ar.canon(c);
            for x in d {
                h = (h ^ *x as u128).wrapping_mul(0x9e3779b97f4a7c15_f39cc0605cedc835);
                h ^= h >> 61;
            }
            if !self.domshared.lock().unwrap().contains(&h) {
                if !self.z3.byte_check(&mut self.ar, c, set, d) {
                    panic!("engine and solver disagree on {}", self.ar.show(c));
                }
                self.domshared.lock().unwrap().insert(h);
            } else {
                self.cnt.dom_cached += 1;
            }
            return Ok(());
        }
        if self.domq.contains_key(&c) {
            self.cnt.dom_cached += 1;
            return Ok(());
        }
        let h = self.ar.canon(c);
        if !self.domshared.lock().unwrap().contains(&h) && self.ar.divides(c) {
            if !self.z3.byte_check(&mut self.ar, c, set, &FULL) {
                panic!("engine and solver disagree on {}", self.ar.show(c));
            }
            self.domshared.lock().unwrap().insert(h);
        } else if !self.domshared.lock().unwrap().contains(&h) {
            let nc = self.ar.not(c);
            for (e, d) in [(c, dandn(&FULL, set)), (nc, *set)] {
                if dempty(&d) {
                    continue;
                }
                match self.z3.check(&mut self.ar, &[e], &[(x, d)], None) {
                    Sat::Unsat => {}
                    Sat::Sat => panic!("engine and solver disagree on {}", self.ar.show(c)),
                    Sat::Unknown => return Err(Stop::Unknown("solver timeout".into())),
                }
            }
            self.domshared.lock().unwrap().insert(h);
        } else {
            self.cnt.dom_cached += 1;
        }
        self.domq.insert(c, ());
        Ok(())
    }

    /// Replace a deep expression over a single byte by its table, once the solver has
    /// confirmed that both agree for all values of the byte.
    fn collapse(&mut self, e: Ex) -> Ex {
        if self.ar.n[e as usize].op != Op::Tab && self.ar.depth[e as usize] > 5 && self.ar.w(e) > 1 && self.ar.w(e) <= 128 {
            if let Some(x) = self.ar.single_var(e) {
                if let Some(r) = self.collapsed.get(&e) {
                    return *r;
                }
                if self.ar.divides(e) {
                    return self.collapse_division(e, x);
                }
            }
        }
        if self.ar.depth[e as usize] < 4 || self.ar.w(e) > 64 || (self.ar.depth[e as usize] < 24 && self.ar.heavy(e)) {
            return e;
        }
        let Some(x) = self.ar.single_var(e) else { return e };
        if let Some(r) = self.collapsed.get(&e) {
            return *r;
        }
        let w = self.ar.w(e);
        let t = self.ar.table(e, x);
        let mut o = Box::new([0u64; 256]);
        for i in 0..256 {
            o[i] = t[i] as u64;
        }
        let r = if w == 1 {
            let t8 = self.ar.tab(x, o, 8);
            let z = self.ar.k(1, 8);
            self.ar.cmp(Pred::Eq, t8, z)
        } else {
            self.ar.tab(x, o, w)
        };
        if r != e {
            let h = self.ar.canon(e) ^ 0x5bd1e995_0000_0000;
            self.cnt.dom_queries += 1;
            if !self.domshared.lock().unwrap().contains(&h) {
                if self.ar.depth[e as usize] < 24 {
                    if !self.z3.table_check(&mut self.ar, e, &t) {
                        panic!("engine and solver disagree on {}", self.ar.show(e));
                    }
                } else {
                    let ne = self.ar.cmp(Pred::Ne, e, r);
                    match self.ar.kv(ne) {
                        Some(0) => {}
                        _ => match self.z3.check(&mut self.ar, &[ne], &[], None) {
                            Sat::Unsat => {}
                            Sat::Sat => panic!("engine and solver disagree on {}", self.ar.show(e)),
                            Sat::Unknown => {
                                // left as it is
                                self.collapsed.insert(e, e);
                                return e;
                            }
                        },
                    }
                }
                self.domshared.lock().unwrap().insert(h);
            } else {
                self.cnt.dom_cached += 1;
            }
        }
        self.collapsed.insert(e, r);
        r
    }

    /// The same for divisions and wide products, which are slow when they pile up: confirmed by the
    /// solver for each value of the byte.
    fn collapse_division(&mut self, e: Ex, x: u32) -> Ex {
        let w = self.ar.w(e);
        let t = self.ar.table(e, x);
        let h = self.ar.canon(e) ^ 0x1b873593_0000_0000;
        self.cnt.dom_queries += 1;
        if !self.domshared.lock().unwrap().contains(&h) {
            if !self.z3.table_check(&mut self.ar, e, &t) {
                panic!("engine and solver disagree on {}", self.ar.show(e));
            }
            self.domshared.lock().unwrap().insert(h);
        } else {
            self.cnt.dom_cached += 1;
        }
        let mut lo = Box::new([0u64; 256]);
        let mut hi = Box::new([0u64; 256]);
        for i in 0..256 {
            lo[i] = t[i] as u64;
            hi[i] = (t[i] >> 64) as u64;
        }
        let r = if w <= 64 {
            self.ar.tab(x, lo, w)
        } else {
            let lo = self.ar.tab(x, lo, 64);
            let hi = self.ar.tab(x, hi, w - 64);
            self.ar.concat(hi, lo)
        };
        self.collapsed.insert(e, r);
        r
    }

    /// Forget all expressions (no state may be alive).
    pub fn reset(&mut self) {
        assert!(self.work.is_empty());
        self.ar = Arena::new();
        let st = self.z3.stats.clone();
        self.z3 = Z3::new();
        self.z3.stats = st;
        self.domq = Default::default();
        self.collapsed = Default::default();
    }

    fn feasible(&mut self, st: &State, c: Ex) -> R<Feas> {
        if let Some(k) = self.ar.kv(c) {
            return Ok(if k == 1 { Feas { t: Some(vec![]), f: None } } else { Feas { t: None, f: Some(vec![]) } });
        }
        let nc = self.ar.not(c);
        if let Some(x) = self.ar.single_var(c) {
            let s = self.ar.truth(c, x);
            let d = st.doms[x as usize];
            self.dom_verify(c, x, &s, &d)?;
            let a = dand(&d, &s);
            let b = dandn(&d, &s);
            if dempty(&a) {
                return Ok(Feas { t: None, f: Some(vec![]) });
            }
            if dempty(&b) {
                return Ok(Feas { t: Some(vec![]), f: None });
            }
            let cur = st.model[x as usize];
            let side = dget(&a, cur);
            let other = if side { b } else { a };
            let oc = if side { nc } else { c };
            let patch = if st.multi_vars >> x & 1 == 0 {
                self.cnt.model_sat += 1;
                Some(vec![(x, dfirst(&other))])
            } else {
                self.find(st, oc, &[(x, other)])?
            };
            return Ok(if side { Feas { t: Some(vec![]), f: patch } } else { Feas { t: patch, f: Some(vec![]) } });
        }
        let side = self.ar.eval(c, &st.model) == 1;
        if let Some(b) = self.bounds_decide(st, c) {
            assert_eq!(b, side, "bounds contradict the path's model");
            self.cnt.bounds += 1;
            return Ok(if side { Feas { t: Some(vec![]), f: None } } else { Feas { t: None, f: Some(vec![]) } });
        }
        let oc = if side { nc } else { c };
        let patch = self.find(st, oc, &[])?;
        Ok(if side { Feas { t: Some(vec![]), f: patch } } else { Feas { t: patch, f: Some(vec![]) } })
    }

    /// Decide a conjunction over few values by going through all of them.
    fn finite(&mut self, conds: &[Ex], doms: &[(u32, Dom)], m: &mut [u8]) -> bool {
        let vals: Vec<(usize, Vec<u8>)> = doms.iter().map(|(v, d)| (*v as usize, (0..=255u8).filter(|i| dget(d, *i)).collect())).collect();
        let mut at = vec![0usize; vals.len()];
        for (v, l) in &vals {
            match l.first() {
                Some(b) => m[*v] = *b,
                None => return false,
            }
        }
        loop {
            if conds.iter().rev().all(|c| self.ar.eval(*c, m) == 1) {
                return true;
            }
            let mut i = 0;
            loop {
                if i == vals.len() {
                    return false;
                }
                at[i] += 1;
                if at[i] < vals[i].1.len() {
                    m[vals[i].0] = vals[i].1[at[i]];
                    break;
                }
                at[i] = 0;
                m[vals[i].0] = vals[i].1[0];
                i += 1;
            }
        }
    }

    /// Integer bounds of some integer congruent to the expression, from the values its bytes
    /// can have.
    fn bounds(&mut self, st: &State, e: Ex) -> Option<(i128, i128)> {
        let n = self.ar.n[e as usize];
        let w = n.w as u32;
        if let Some(k) = self.ar.kv(e) {
            let k = sx128(k, w);
            return Some((k, k));
        }
        if let Some(x) = self.ar.single_var(e) {
            if w == 128 && !matches!(n.op, Op::Zext) && !matches!(n.op, Op::Bin(_)) {
                return None;
            }
            if w < 128 {
                let t = self.ar.table(e, x);
                let d = st.doms[x as usize];
                let (mut lo, mut hi) = (i128::MAX, i128::MIN);
                for i in 0..256usize {
                    if dget(&d, i as u8) {
                        lo = lo.min(t[i] as i128);
                        hi = hi.max(t[i] as i128);
                    }
                }
                return if lo <= hi { Some((lo, hi)) } else { None };
            }
        }
        match n.op {
            Op::Bin(BinOp::Add) => {
                let (a, b) = self.bounds(st, n.a)?;
                let (c, d) = self.bounds(st, n.b)?;
                Some((a.checked_add(c)?, b.checked_add(d)?))
            }
            Op::Bin(BinOp::Mul) => {
                let k = sx128(self.ar.kv(n.b)?, w);
                let (a, b) = self.bounds(st, n.a)?;
                let (p, q) = (a.checked_mul(k)?, b.checked_mul(k)?);
                Some((p.min(q), p.max(q)))
            }
            Op::Concat if self.ar.kv(n.b) == Some(0) => {
                let s = self.ar.w(n.b);
                if s >= 120 {
                    return None;
                }
                let (a, b) = self.bounds(st, n.a)?;
                Some((a.checked_mul(1 << s)?, b.checked_mul(1 << s)?))
            }
            Op::Zext => {
                let iw = self.ar.w(n.a);
                let full = (0, mask(iw) as i128);
                match self.bounds(st, n.a) {
                    Some((a, b)) if a >= 0 && b <= full.1 => Some((a, b)),
                    _ => Some(full),
                }
            }
            _ => None,
        }
    }

    /// The expression as a constant plus one term for each byte it reads (all modulo its
    /// width; a term is given for the values the byte can have).
    fn linear(&mut self, st: &State, e: Ex, k: &mut u128, t: &mut Vec<(u32, Box<[u128; 256]>)>, f: u128) -> bool {
        let n = self.ar.n[e as usize];
        let m = mask(n.w as u32);
        if let Some(v) = self.ar.kv(e) {
            *k = k.wrapping_add(v.wrapping_mul(f)) & m;
            return true;
        }
        if let Some(x) = self.ar.single_var(e) {
            let tab = self.ar.table(e, x);
            let at = match t.iter().position(|(v, _)| *v == x) {
                Some(i) => i,
                None => {
                    t.push((x, Box::new([0; 256])));
                    t.len() - 1
                }
            };
            for i in 0..256 {
                t[at].1[i] = t[at].1[i].wrapping_add(tab[i].wrapping_mul(f)) & m;
            }
            return true;
        }
        match n.op {
            Op::Bin(BinOp::Add) => self.linear(st, n.a, k, t, f) && self.linear(st, n.b, k, t, f),
            Op::Bin(BinOp::Sub) => self.linear(st, n.a, k, t, f) && self.linear(st, n.b, k, t, 0u128.wrapping_sub(f)),
            Op::Bin(BinOp::Mul) => match self.ar.kv(n.b) {
                Some(c) => self.linear(st, n.a, k, t, f.wrapping_mul(c)),
                None => false,
            },
            Op::Ite => match self.bounds_decide(st, n.a) {
                Some(true) => self.linear(st, n.b, k, t, f),
                Some(false) => self.linear(st, n.c, k, t, f),
                None => false,
            },
            _ => false,
        }
    }

    /// Are both always equal, or never? Decided when their difference doesn't depend on any byte.
    fn linear_eq(&mut self, st: &State, a: Ex, b: Ex) -> Option<bool> {
        let (mut k, mut t) = (0u128, vec![]);
        if !self.linear(st, a, &mut k, &mut t, 1) || !self.linear(st, b, &mut k, &mut t, !0) {
            return None;
        }
        let m = mask(self.ar.w(a));
        for (x, tab) in &t {
            let d = st.doms[*x as usize];
            let mut first = None;
            for i in 0..256usize {
                if dget(&d, i as u8) {
                    match first {
                        None => first = Some(tab[i]),
                        Some(v) if v == tab[i] => {}
                        _ => return None,
                    }
                }
            }
            k = k.wrapping_add(first?) & m;
        }
        Some(k & m == 0)
    }

    /// Decide a comparison from the bounds of both sides.
    fn bounds_decide(&mut self, st: &State, c: Ex) -> Option<bool> {
        let n = self.ar.n[c as usize];
        match n.op {
            Op::Bin(BinOp::Xor) if n.w == 1 && self.ar.kv(n.b) == Some(1) => self.bounds_decide(st, n.a).map(|b| !b),
            Op::Cmp(p) => {
                let w = self.ar.w(n.a);
                if matches!(p, Pred::Eq | Pred::Ne) {
                    if let Some(b) = self.linear_eq(st, n.a, n.b) {
                        return Some(b == (p == Pred::Eq));
                    }
                }
                let signed = matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge);
                let mut r = [(0i128, 0i128); 2];
                for (i, e) in [n.a, n.b].into_iter().enumerate() {
                    let (mut lo, mut hi) = self.bounds(st, e)?;
                    if w == 128 {
                        // below zero means the upper half when unsigned
                        if (lo < 0) != (hi < 0) && !signed {
                            return None;
                        }
                    } else {
                        let m = 1i128 << (w - 1);
                        let (min, max) = if signed { (-m, m - 1) } else { (0, m - 1 + m) };
                        if hi < min && w < 127 {
                            lo += m + m;
                            hi += m + m;
                        } else if lo > max && w < 127 {
                            lo -= m + m;
                            hi -= m + m;
                        }
                        if lo < min || hi > max {
                            return None;
                        }
                    }
                    r[i] = (lo, hi);
                }
                let [(a, b), (x, y)] = r;
                if w == 128 && !signed && (a < 0) != (x < 0) {
                    // the negative one is the greater one
                    let gt = a < 0;
                    return Some(match p {
                        Pred::Eq => false,
                        Pred::Ne => true,
                        Pred::Ugt | Pred::Uge => gt,
                        _ => !gt,
                    });
                }
                match p {
                    Pred::Eq if b < x || y < a => Some(false),
                    Pred::Ne if b < x || y < a => Some(true),
                    Pred::Ult | Pred::Slt if b < x => Some(true),
                    Pred::Ult | Pred::Slt if a >= y => Some(false),
                    Pred::Ule | Pred::Sle if b <= x => Some(true),
                    Pred::Ule | Pred::Sle if a > y => Some(false),
                    Pred::Ugt | Pred::Sgt if a > y => Some(true),
                    Pred::Ugt | Pred::Sgt if b <= x => Some(false),
                    Pred::Uge | Pred::Sge if a >= y => Some(true),
                    Pred::Uge | Pred::Sge if b < x => Some(false),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Find a model for the path plus `c` (which the current model falsifies).
    fn find(&mut self, st: &State, c: Ex, narrow: &[(u32, Dom)]) -> R<Option<Vec<(u32, u8)>>> {
        let cv = self.ar.vars[c as usize];
        let mut m = st.model.clone();
        // try patching one variable of the current model
        for x in 0..st.doms.len() as u32 {
            if cv >> x & 1 == 0 {
                continue;
            }
            let mut d = st.doms[x as usize];
            for (v, n) in narrow {
                if *v == x {
                    d = dand(&d, n);
                }
            }
            let keep = m[x as usize];
            let mut tries = 0;
            for i in 0..256usize {
                if !dget(&d, i as u8) {
                    continue;
                }
                tries += 1;
                if tries > 40 {
                    break;
                }
                m[x as usize] = i as u8;
                if self.ar.eval(c, &m) != 1 {
                    continue;
                }
                let mut ok = true;
                for e in &st.multi {
                    if self.ar.vars[*e as usize] >> x & 1 == 1 && self.ar.eval(*e, &m) != 1 {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.cnt.model_sat += 1;
                    return Ok(Some(vec![(x, i as u8)]));
                }
            }
            m[x as usize] = keep;
        }
        let (mut conds, vars) = self.slice(st, cv);
        conds.push(c);
        let doms: Vec<(u32, Dom)> = vars.iter().map(|v| (*v, st.doms[*v as usize])).collect();
        let mut size = 1u64;
        for (_, d) in &doms {
            size = size.saturating_mul(dcount(d) as u64);
        }
        if size <= 20_000 {
            let r = self.finite(&conds, &doms, &mut m);
            self.cnt.finite += 1;
            // the solver confirms a part of these verdicts
            if self.cnt.finite % 256 == 1 {
                match self.z3.check(&mut self.ar, &conds, &doms, None) {
                    Sat::Unknown => {}
                    v => assert_eq!(v == Sat::Sat, r, "engine and solver disagree"),
                }
            }
            return Ok(if r { Some(vars.iter().map(|x| (*x, m[*x as usize])).collect()) } else { None });
        }
        match self.z3.check(&mut self.ar, &conds, &doms, Some(&mut m)) {
            Sat::Sat => Ok(Some(vars.iter().map(|x| (*x, m[*x as usize])).collect())),
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(Stop::Unknown("solver timeout".into())),
        }
    }

    fn record(&mut self, st: &mut State, choice: u32) {
        st.dec = Some(Rc::new(DNode { parent: st.dec.take(), choice }));
    }

    /// n-way fork. All alternatives re-execute the current instruction; the
    /// current state continues with the returned alternative.
    fn fork_n(&mut self, st: &mut State, n: usize, apply: &mut dyn FnMut(&mut Exec, &mut State, usize)) -> usize {
        if n == 1 {
            apply(self, st, 0);
            return 0;
        }
        if self.trace_forks {
            *self.fork_sites.entry((st.cur.f, st.cur.pc)).or_insert(0) += n as u64 - 1;
        }
        assert!(n < 65536);
        let sig = (st.cur.f as u32).wrapping_mul(31).wrapping_add(st.cur.pc).wrapping_mul(31).wrapping_add(n as u32) & 0xffff;
        if st.ppos < st.prefix.len() {
            let d = st.prefix[st.ppos];
            let i = (d & 0xffff) as usize;
            st.ppos += 1;
            assert!(i < n && d >> 16 == sig, "diverging replay");
            self.record(st, i as u32 | sig << 16);
            apply(self, st, i);
            return i;
        }
        self.cnt.forks += n as u64 - 1;
        for i in (1..n).rev() {
            let mut s2 = st.clone();
            self.record(&mut s2, i as u32 | sig << 16);
            apply(self, &mut s2, i);
            self.work.push(s2);
        }
        self.record(st, sig << 16);
        apply(self, st, 0);
        0
    }

    /// Decide a condition, forking when both outcomes are feasible.
    fn branch(&mut self, st: &mut State, v: &Val) -> R<bool> {
        self.cnt.branches += 1;
        let c = match v {
            Val::C(c) => return Ok(*c & 1 == 1),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("branch on aggregate".into())),
        };
        self.cnt.sym_branches += 1;
        if let Some((h, b)) = st.hint.take() {
            if h == c {
                return Ok(b);
            }
        }
        let c0 = c;
        let mut c = c;
        // bytes that are known by now
        if self.ar.single_var(c).is_none() && (0..st.doms.len()).any(|i| self.ar.vars[c as usize] >> i & 1 == 1 && dcount(&st.doms[i]) == 1) {
            if let Some(r) = self.reduce_deep(st, c) {
                assert_eq!(self.ar.eval(r, &st.model), self.ar.eval(c, &st.model), "a reduced condition differs");
                if let Some(k) = self.ar.kv(r) {
                    return Ok(k == 1);
                }
                c = r;
            }
        }
        let f = self.feasible(st, c)?;
        match (f.t, f.f) {
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (None, None) => Err(Stop::Infeasible),
            (Some(pt), Some(pf)) => {
                let i = self.fork_n(st, 2, &mut |ex: &mut Exec, s: &mut State, i: usize| {
                    if i == 0 {
                        ex.patch(s, &pt);
                        ex.add(s, c);
                        s.hint = Some((c0, true));
                    } else {
                        ex.patch(s, &pf);
                        let nc = ex.ar.not(c);
                        ex.add(s, nc);
                        s.hint = Some((c0, false));
                    }
                });
                st.hint = None;
                Ok(i == 0)
            }
        }
    }

    // ---------------------------------------------------------------- running

    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.cur.regs[d as usize] = v;
    }

    fn goto(&mut self, st: &mut State, e: u32) {
        let body = st.cur.body;
        let ed = &body.edges[e as usize];
        match ed.phis.len() {
            0 => {}
            1 => {
                let (d, o) = &ed.phis[0];
                let v = self.op(st, o);
                st.cur.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<Val> = ed.phis.iter().map(|(_, o)| self.op(st, o)).collect();
                for ((d, _), v) in ed.phis.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.pc = body.block_pc[ed.target as usize];
    }

    pub fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = if w >= 64 { !0u64 } else { (1u64 << w) - 1 };
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => apply_bin(op, w, x as u128, y as u128) as u64,
            };
            return Val::C(r & m);
        }
        if let (Some(x), Some(y)) = (Self::conc128(a), Self::conc128(b)) {
            return kv(apply_bin(op, w, x, y), w);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.bin(op, x, y);
        self.from_ex(e)
    }

    pub fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::conc128(a), Self::conc128(b)) {
            return Val::C(apply_cmp(p, w, x, y) as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.cmp(p, x, y);
        self.from_ex(e)
    }

    /// Lengths and positions which depend on several bytes are split into cases instead of
    /// becoming one expression.
    fn position(&self, c: &Val, w: u32) -> bool {
        matches!(c, Val::S(e) if w == 64 && self.ar.tabbed(*e) && self.ar.single_var(*e).is_none())
    }

    fn ite(&mut self, c: &Val, w: u32, a: &Val, b: &Val) -> Val {
        match c {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::S(e) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.ar.ite(*e, x, y);
                self.from_ex(r)
            }
            _ => panic!(),
        }
    }

    fn cast(&mut self, op: CastOp, from: u32, to: u32, a: &Val) -> R<Val> {
        Ok(match op {
            CastOp::Bit => a.clone(),
            CastOp::Trunc => match a {
                Val::C(c) => Val::C(c & mask(to) as u64),
                Val::W(c) => kv(**c, to),
                Val::S(e) => {
                    let r = self.ar.trunc(*e, to);
                    self.from_ex(r)
                }
                _ => return Err(Stop::Unsupported("trunc".into())),
            },
            CastOp::Zext => match a {
                Val::C(c) => kv(*c as u128, to),
                Val::W(c) => kv(**c, to),
                Val::S(e) => {
                    let r = self.ar.zext(*e, to);
                    self.from_ex(r)
                }
                _ => return Err(Stop::Unsupported("zext".into())),
            },
            CastOp::Sext => match a {
                Val::C(c) => kv(sx128(*c as u128, from) as u128, to),
                Val::W(c) => kv(sx128(**c, from) as u128, to),
                Val::S(e) => {
                    let r = self.ar.sext(*e, to);
                    self.from_ex(r)
                }
                _ => return Err(Stop::Unsupported("sext".into())),
            },
            _ => {
                let Some(x) = Self::conc128(a) else { return Err(Stop::Unsupported("symbolic float conversion".into())) };
                let f = |x: u128| if from == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                match op {
                    CastOp::SiToFp => {
                        let v = sx128(x, from);
                        if to == 32 {
                            Val::C((v as f32).to_bits() as u64)
                        } else {
                            Val::C((v as f64).to_bits())
                        }
                    }
                    CastOp::UiToFp => {
                        if to == 32 {
                            Val::C((x as f32).to_bits() as u64)
                        } else {
                            Val::C((x as f64).to_bits())
                        }
                    }
                    CastOp::FpToSi => kv((f(x) as i128) as u128, to),
                    CastOp::FpToUi => kv(f(x) as u128, to),
                    CastOp::FpExt => Val::C((f32::from_bits(x as u32) as f64).to_bits()),
                    CastOp::FpTrunc => Val::C((f64::from_bits(x as u64) as f32).to_bits() as u64),
                    _ => unreachable!(),
                }
            }
        })
    }

    fn symconc(&mut self, st: &mut State, v: &Val, what: &str) -> R<Val> {
        match v {
            Val::S(_) => Ok(Val::C(self.concretize(st, v, what)?)),
            v => Ok(v.clone()),
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        if st.cur.fobj != 0 {
            let s = st.cur.fobj;
            st.heap[s as usize] = None;
            st.free.push(s);
        }
        let Some(p) = st.stack.pop() else { return Err(Stop::Done) };
        let dst = st.cur.dst;
        let normal = st.cur.normal;
        st.cur = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
        if let (Some(d), Some(v)) = (dst, v) {
            st.cur.regs[d as usize] = v;
        }
        match normal {
            Some(e) => self.goto(st, e),
            None => st.cur.pc += 1,
        }
        Ok(())
    }

    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        if let (Some(d), Some(v)) = (dst, v) {
            st.cur.regs[d as usize] = v;
        }
        match normal {
            Some(e) => self.goto(st, e),
            None => st.cur.pc += 1,
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let body = st.cur.body;
        let ins = &body.code[st.cur.pc as usize];
        st.steps += 1;
        self.cnt.steps += 1;
        if st.steps > self.cfg.max_steps {
            return Err(Stop::Steps);
        }
        match ins {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *lanes > 0 { self.lanes2(&x, &y, |e, p, q| e.bin(*op, *w, p, q))? } else { self.bin(*op, *w, &x, &y) };
                self.set(st, *dst, r);
            }
            Inst::Icmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *lanes > 0 { self.lanes2(&x, &y, |e, s, t| e.icmp(*p, *w, s, t))? } else { self.icmp(*p, *w, &x, &y) };
                self.set(st, *dst, r);
            }
            Inst::Copy { dst, a } => {
                let v = self.op(st, a);
                self.set(st, *dst, v);
            }
            Inst::Cast { op, from, to, lanes, dst, a } => {
                let mut x = self.op(st, a);
                if matches!(op, CastOp::SiToFp | CastOp::UiToFp | CastOp::FpToSi | CastOp::FpToUi | CastOp::FpExt | CastOp::FpTrunc) {
                    x = self.symconc(st, &x, "float conversion")?;
                }
                let r = if *lanes > 0 {
                    let Val::A(v) = x else { return Err(Stop::Unsupported("vector cast".into())) };
                    let mut o = vec![];
                    for e in v.iter() {
                        o.push(self.cast(*op, *from, *to, e)?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.cast(*op, *from, *to, &x)?
                };
                self.set(st, *dst, r);
            }
            Inst::VecBitcast { from, to, dst, a } => {
                let x = self.op(st, a);
                let r = self.vec_bitcast(&x, from, to)?;
                self.set(st, *dst, r);
            }
            Inst::Load { ty, dst, p } => {
                let p = self.op(st, p);
                let r = self.load(st, &p, ty)?;
                self.set(st, *dst, r);
            }
            Inst::Store { ty, v, p } => {
                let p = self.op(st, p);
                let v = self.op(st, v);
                let a = self.concretize(st, &p, "store address")?;
                self.store_ty(st, a, ty, &v)?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let mut b = self.op(st, base);
                if *off != 0 {
                    b = self.bin(BinOp::Add, 64, &b, &Val::C(*off));
                }
                for (o, w, scale) in idx.iter() {
                    let i = self.op(st, o);
                    let i = if *w < 64 { self.cast(CastOp::Sext, *w, 64, &i)? } else { i };
                    let s = self.bin(BinOp::Mul, 64, &i, &Val::C(*scale));
                    b = self.bin(BinOp::Add, 64, &b, &s);
                }
                self.set(st, *dst, b);
            }
            Inst::Alloca { dst, off } => {
                let v = Val::C(Self::addr(st.cur.fobj) + *off as u64);
                self.set(st, *dst, v);
            }
            Inst::DynAlloca { .. } => return Err(Stop::Unsupported("dynamic alloca".into())),
            Inst::Select { ty, dst, c, cvec, a, b } => {
                let cv = self.op(st, c);
                let r = if *cvec {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let (Val::A(c), Val::A(x), Val::A(y)) = (cv, x, y) else { return Err(Stop::Unsupported("vector select".into())) };
                    let Ty::Vec(_, e) = ty else { return Err(Stop::Unsupported("vector select".into())) };
                    let w = e.bits();
                    let mut o = vec![];
                    for i in 0..c.len() {
                        o.push(self.ite(&c[i], w, &x[i], &y[i]));
                    }
                    Val::A(Rc::new(o))
                } else {
                    match &cv {
                        Val::C(k) => self.op(st, if *k & 1 == 1 { a } else { b }),
                        Val::S(_) => {
                            let scalar = matches!(ty, Ty::Int(_)) && !self.position(&cv, ty.bits());
                            if scalar {
                                let (x, y) = (self.op(st, a), self.op(st, b));
                                self.ite(&cv, ty.bits(), &x, &y)
                            } else {
                                let t = self.branch(st, &cv)?;
                                self.op(st, if t { a } else { b })
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                };
                self.set(st, *dst, r);
            }
            Inst::Br { e } => {
                self.goto(st, *e);
                return Ok(());
            }
            Inst::CondBr { c, t, f } => {
                let v = self.op(st, c);
                let r = self.branch(st, &v)?;
                self.goto(st, if r { *t } else { *f });
                return Ok(());
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.op(st, v);
                match &x {
                    Val::S(e) => {
                        let e = *e;
                        let w = *w;
                        self.cnt.branches += 1;
                        self.cnt.sym_branches += 1;
                        // group the cases by target edge
                        let mut groups: Vec<(u32, Option<Ex>)> = vec![];
                        let mut none = self.ar.k(1, 1);
                        for (k, ed) in cases.iter() {
                            let kk = self.ar.k(*k, w);
                            let c = self.ar.cmp(Pred::Eq, e, kk);
                            let nc = self.ar.not(c);
                            none = self.ar.and(none, nc);
                            let tgt = &body.edges[*ed as usize];
                            let mut found = false;
                            for g in groups.iter_mut() {
                                let o = &body.edges[g.0 as usize];
                                if o.target == tgt.target && o.phis.is_empty() && tgt.phis.is_empty() {
                                    let u = self.ar.bin(BinOp::Or, g.1.unwrap(), c);
                                    g.1 = Some(u);
                                    found = true;
                                    break;
                                }
                            }
                            if !found {
                                groups.push((*ed, Some(c)));
                            }
                        }
                        let deft = &body.edges[*def as usize];
                        let def_unreach = matches!(body.code[body.block_pc[deft.target as usize] as usize], Inst::Unreachable);
                        if !def_unreach {
                            let mut merged = false;
                            for g in groups.iter_mut() {
                                let o = &body.edges[g.0 as usize];
                                if o.target == deft.target && o.phis.is_empty() && deft.phis.is_empty() {
                                    let u = self.ar.bin(BinOp::Or, g.1.unwrap(), none);
                                    g.1 = Some(u);
                                    merged = true;
                                    break;
                                }
                            }
                            if !merged {
                                groups.push((*def, Some(none)));
                            }
                        }
                        let mut opts: Vec<(u32, Ex, Vec<(u32, u8)>)> = vec![];
                        for (ed, c) in groups {
                            let c = c.unwrap();
                            if let Some(p) = self.feasible(st, c)?.t {
                                opts.push((ed, c, p));
                            }
                        }
                        if opts.is_empty() {
                            return Err(Stop::Infeasible);
                        }
                        // re-executed alternatives find a single feasible option
                        let i = self.fork_n(st, opts.len(), &mut |ex: &mut Exec, s: &mut State, i: usize| {
                            ex.patch(s, &opts[i].2);
                            ex.add(s, opts[i].1);
                        });
                        self.goto(st, opts[i].0);
                        return Ok(());
                    }
                    x => {
                        let k = Self::conc128(x).unwrap();
                        let mut e = *def;
                        for (c, t) in cases.iter() {
                            if *c == k {
                                e = *t;
                                break;
                            }
                        }
                        self.goto(st, e);
                        return Ok(());
                    }
                }
            }
            Inst::Ret { v } => {
                let v = v.as_ref().map(|o| self.op(st, o));
                return self.ret(st, v);
            }
            Inst::Unreachable => return Err(Stop::Mem(format!("unreachable executed in {}", self.m.funcs[st.cur.f].name))),
            Inst::Call { dst, callee, args, rty, normal } => return self.call(st, *dst, callee, args, rty, *normal),
            Inst::ExtractValue { dst, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx.iter() {
                    let Val::A(x) = &v else { return Err(Stop::Unsupported("extractvalue".into())) };
                    let y = x[*i as usize].clone();
                    v = y;
                }
                self.set(st, *dst, v);
            }
            Inst::InsertValue { dst, a, v, idx } => {
                let x = self.op(st, a);
                let y = self.op(st, v);
                fn ins(a: &Val, idx: &[u32], v: Val) -> Val {
                    if idx.is_empty() {
                        return v;
                    }
                    let Val::A(x) = a else { panic!() };
                    let mut n = (**x).clone();
                    n[idx[0] as usize] = ins(&x[idx[0] as usize], &idx[1..], v);
                    Val::A(Rc::new(n))
                }
                let r = ins(&x, idx, y);
                self.set(st, *dst, r);
            }
            Inst::ExtractElem { dst, a, i } => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, "lane")?;
                let Val::A(x) = &v else { return Err(Stop::Unsupported("extractelement".into())) };
                let r = x[i as usize].clone();
                self.set(st, *dst, r);
            }
            Inst::InsertElem { dst, a, v, i } => {
                let x = self.op(st, a);
                let i = self.op(st, i);
                let i = self.concretize(st, &i, "lane")?;
                let y = self.op(st, v);
                let Val::A(x) = &x else { return Err(Stop::Unsupported("insertelement".into())) };
                let mut n = (**x).clone();
                n[i as usize] = y;
                self.set(st, *dst, Val::A(Rc::new(n)));
            }
            Inst::Shuffle { dst, a, b, n, mask } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Unsupported("shuffle".into())) };
                let mut o = vec![];
                for m in mask.iter() {
                    let i = *m as u32;
                    o.push(if i < *n { x[i as usize].clone() } else { y[(i - n) as usize].clone() });
                }
                self.set(st, *dst, Val::A(Rc::new(o)));
            }
            Inst::FBin { op, f64_, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let x = self.concretize(st, &x, "float operand")?;
                let y = self.concretize(st, &y, "float operand")?;
                let r = if *f64_ {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    match op {
                        FOp::Add => p + q,
                        FOp::Sub => p - q,
                        FOp::Mul => p * q,
                        FOp::Div => p / q,
                        FOp::Rem => p % q,
                    }
                    .to_bits()
                } else {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    match op {
                        FOp::Add => p + q,
                        FOp::Sub => p - q,
                        FOp::Mul => p * q,
                        FOp::Div => p / q,
                        FOp::Rem => p % q,
                    }
                    .to_bits() as u64
                };
                self.set(st, *dst, Val::C(r));
            }
            Inst::FNeg { f64_, dst, a } => {
                let x = self.op(st, a);
                let r = self.bin(BinOp::Xor, if *f64_ { 64 } else { 32 }, &x, &Val::C(if *f64_ { 1 << 63 } else { 1 << 31 }));
                self.set(st, *dst, r);
            }
            Inst::Fcmp { p, f64_, dst, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let x = self.concretize(st, &x, "float operand")?;
                let y = self.concretize(st, &y, "float operand")?;
                let f = |v: u64| if *f64_ { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 };
                let (x, y) = (f(x), f(y));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *dst, Val::C(r as u64));
            }
            Inst::AtomicRmw { op, w, dst, p, v } => {
                let p = self.op(st, p);
                let a = self.concretize(st, &p, "atomic address")?;
                let v = self.op(st, v);
                let old = self.load_int(st, a, *w)?;
                let new = match op.as_str() {
                    "add" => self.bin(BinOp::Add, *w, &old, &v),
                    "sub" => self.bin(BinOp::Sub, *w, &old, &v),
                    "and" => self.bin(BinOp::And, *w, &old, &v),
                    "or" => self.bin(BinOp::Or, *w, &old, &v),
                    "xor" => self.bin(BinOp::Xor, *w, &old, &v),
                    "xchg" => v,
                    o => return Err(Stop::Unsupported(format!("atomicrmw {o}"))),
                };
                self.store_int(st, a, *w, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { w, dst, p, cmp, new } => {
                let p = self.op(st, p);
                let a = self.concretize(st, &p, "atomic address")?;
                let c = self.op(st, cmp);
                let n = self.op(st, new);
                let old = self.load_int(st, a, *w)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let t = self.branch(st, &eq)?;
                if t {
                    self.store_int(st, a, *w, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(t as u64)])));
            }
            Inst::Unsupported(s) => return Err(Stop::Unsupported(s.clone())),
        }
        st.cur.pc += 1;
        Ok(())
    }

    fn lanes2(&mut self, x: &Val, y: &Val, f: impl Fn(&mut Exec, &Val, &Val) -> Val) -> R<Val> {
        let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Unsupported("vector op".into())) };
        let mut o = Vec::with_capacity(x.len());
        for i in 0..x.len() {
            o.push(f(self, &x[i], &y[i]));
        }
        Ok(Val::A(Rc::new(o)))
    }

    fn vec_bitcast(&mut self, x: &Val, from: &Ty, to: &Ty) -> R<Val> {
        // flatten to bits, then split
        let total = from.bits();
        let (fe, fl) = match from {
            Ty::Vec(n, e) => (e.bits(), *n),
            t => (t.bits(), 1),
        };
        let (te, tl) = match to {
            Ty::Vec(n, e) => (e.bits(), *n),
            t => (t.bits(), 1),
        };
        let elems: Vec<Val> = match (from, x) {
            (Ty::Vec(..), Val::A(v)) => (**v).clone(),
            (_, v) => vec![v.clone()],
        };
        let _ = fl;
        if total > 128 {
            // only same-granularity splits
            if fe == te {
                return Ok(x.clone());
            }
            return Err(Stop::Unsupported("wide vector bitcast".into()));
        }
        let all = elems.iter().all(|e| Self::conc128(e).is_some());
        let parts: Vec<Val> = if all {
            let mut v = 0u128;
            for (i, e) in elems.iter().enumerate() {
                v |= Self::conc128(e).unwrap() << (i as u32 * fe);
            }
            (0..tl).map(|i| kv(v >> (i * te), te)).collect()
        } else {
            let mut acc: Option<Ex> = None;
            for e in &elems {
                let x = self.ex(e, fe);
                acc = Some(match acc {
                    None => x,
                    Some(l) => self.ar.concat(x, l),
                });
            }
            let a = acc.unwrap();
            let mut o = vec![];
            for i in 0..tl {
                let x = self.ar.extract(a, i * te, te);
                o.push(self.from_ex(x));
            }
            o
        };
        if matches!(to, Ty::Vec(..)) {
            Ok(Val::A(Rc::new(parts)))
        } else {
            Ok(parts.into_iter().next().unwrap())
        }
    }

    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        let Val::S(e) = p else {
            let Val::C(a) = p else { return Err(Stop::Unsupported("load address".into())) };
            return self.load_ty(st, *a, ty);
        };
        let e = *e;
        if let Some(a) = self.reduce(st, e) {
            return self.load_ty(st, a, ty);
        }
        // table lookup driven by one symbolic byte: all concrete results
        if let (Some(x), Ty::Int(w)) = (self.ar.single_var(e), ty) {
            if *w <= 64 {
                let d = st.doms[x as usize];
                let t = self.ar.table(e, x);
                let mut out = Box::new([0u64; 256]);
                let mut ok = true;
                let mut last = None;
                for i in 0..256usize {
                    if !dget(&d, i as u8) {
                        continue;
                    }
                    match self.load_int(st, t[i] as u64, *w) {
                        Ok(Val::C(v)) => {
                            out[i] = v;
                            last = Some(v);
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    // fill the unreachable entries to keep the table compact
                    let mut prev = last.unwrap();
                    for i in 0..256usize {
                        if dget(&d, i as u8) {
                            prev = out[i];
                        } else {
                            out[i] = prev;
                        }
                    }
                    let r = self.ar.tab(x, out, *w);
                    return Ok(self.from_ex(r));
                }
            }
        }
        if std::env::var("SYMEX_ADDR").is_ok() && self.ar.single_var(e).is_none() {
            eprintln!("address over several bytes in {}: depth {}", self.m.funcs[st.cur.f].name, self.ar.depth[e as usize]);
            if self.ar.depth[e as usize] < 8 { eprintln!("   {}", self.ar.show(e)); }
        }
        // split on a single-byte component of the address, if there is one
        if self.ar.single_var(e).is_none() {
            if let Some(a) = self.reduce_deep(st, e) {
                if a != e {
                    let v = self.from_ex(a);
                    return self.load(st, &v, ty);
                }
            }
            if let Some(sub) = self.sub_single(st, e) {
                let v = Val::S(sub);
                self.concretize(st, &v, "address component")?;
                if let Some(a) = self.reduce_deep(st, e) {
                    if a != e {
                        let v = self.from_ex(a);
                        return self.load(st, &v, ty);
                    }
                }
            }
        }
        let a = self.concretize(st, p, "load address")?;
        self.load_ty(st, a, ty)
    }

    /// Pick a single-variable subterm (with few values) of a multi-variable address.
    fn sub_single(&mut self, st: &State, e: Ex) -> Option<Ex> {
        let mut best: Option<(usize, Ex)> = None;
        let mut todo = vec![e];
        let mut seen = HashSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) || self.ar.kv(x).is_some() {
                continue;
            }
            if st.pinned.iter().any(|(p, _)| *p == x) {
                continue;
            }
            if let Some(v) = self.ar.single_var(x) {
                let d = st.doms[v as usize];
                let t = self.ar.table(x, v);
                let mut vals: Vec<u128> = (0..256usize).filter(|i| dget(&d, *i as u8)).map(|i| t[i]).collect();
                vals.sort();
                vals.dedup();
                if best.map_or(true, |(n, _)| vals.len() < n) {
                    best = Some((vals.len(), x));
                }
                continue;
            }
            let n = self.ar.n[x as usize];
            match n.op {
                Op::Var | Op::K | Op::Tab => {}
                Op::Bin(_) | Op::Cmp(_) | Op::Concat => todo.extend([n.a, n.b]),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                Op::Zext | Op::Sext | Op::Extract => todo.push(n.a),
            }
        }
        best.map(|b| b.1)
    }

    /// Rebuild an expression with pinned subterms replaced by their values.
    fn reduce_deep(&mut self, st: &State, e: Ex) -> Option<Ex> {
        self.reduce_deep_in(st, e, &mut Default::default())
    }

    fn reduce_deep_in(&mut self, st: &State, e: Ex, memo: &mut FxMap<Ex, Ex>) -> Option<Ex> {
        if let Some(r) = memo.get(&e) {
            return Some(*r);
        }
        if self.ar.kv(e).is_some() {
            return Some(e);
        }
        let w = self.ar.w(e);
        if w <= 64 {
            if let Some(k) = self.reduce(st, e) {
                return Some(self.ar.k(k as u128, w));
            }
        } else if let Some(x) = self.ar.single_var(e) {
            let d = st.doms[x as usize];
            if dcount(&d) == 1 {
                let mut m = [0u8; 128];
                m[x as usize] = dfirst(&d);
                let k = self.ar.eval(e, &m);
                return Some(self.ar.k(k, w));
            }
        }
        let n = self.ar.n[e as usize];
        let r = match n.op {
            Op::Var | Op::K | Op::Tab => e,
            Op::Bin(op) => {
                let (a, b) = (self.reduce_deep_in(st, n.a, memo)?, self.reduce_deep_in(st, n.b, memo)?);
                self.ar.bin(op, a, b)
            }
            Op::Cmp(p) => {
                let (a, b) = (self.reduce_deep_in(st, n.a, memo)?, self.reduce_deep_in(st, n.b, memo)?);
                self.ar.cmp(p, a, b)
            }
            Op::Concat => {
                let (a, b) = (self.reduce_deep_in(st, n.a, memo)?, self.reduce_deep_in(st, n.b, memo)?);
                self.ar.concat(a, b)
            }
            Op::Ite => {
                let (a, b, c) = (self.reduce_deep_in(st, n.a, memo)?, self.reduce_deep_in(st, n.b, memo)?, self.reduce_deep_in(st, n.c, memo)?);
                self.ar.ite(a, b, c)
            }
            Op::Zext => {
                let a = self.reduce_deep_in(st, n.a, memo)?;
                self.ar.zext(a, n.w as u32)
            }
            Op::Sext => {
                let a = self.reduce_deep_in(st, n.a, memo)?;
                self.ar.sext(a, n.w as u32)
            }
            Op::Extract => {
                let a = self.reduce_deep_in(st, n.a, memo)?;
                self.ar.extract(a, n.b, n.w as u32)
            }
        };
        memo.insert(e, r);
        Some(r)
    }

    // ---------------------------------------------------------------- calls

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Callee, args: &[(Opd, Ty)], rty: &Ty, normal: Option<u32>) -> R<()> {
        let f = match callee {
            Callee::Intr(i, n) => {
                let r = self.intrinsic(st, *i, n, args, rty)?;
                self.finish_call(st, dst, normal, r);
                return Ok(());
            }
            Callee::Func(f) => *f,
            Callee::Ind(o) => {
                let v = self.op(st, o);
                let a = self.concretize(st, &v, "call target")?;
                let id = a >> 32;
                if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.m.funcs.len() {
                    return Err(Stop::Mem(format!("call of {a:#x}")));
                }
                (id - FUNC_BASE) as usize
            }
        };
        if self.bi[f] != Bi::None {
            let r = self.builtin(st, f, args, rty)?;
            self.finish_call(st, dst, normal, r);
            return Ok(());
        }
        if self.m.funcs[f].lines.is_none() {
            return Err(Stop::Unsupported(format!("call of external {}", self.m.funcs[f].name)));
        }
        self.seen[f] = true;
        let body: &'static Body = self.m.body(f);
        let mut regs = vec![Val::C(0); body.nregs as usize];
        for (i, (o, _)) in args.iter().enumerate() {
            if i < self.m.funcs[f].nparams {
                regs[i] = self.op(st, o);
            }
        }
        if st.stack.len() > self.cfg.max_depth {
            return Err(Stop::Depth);
        }
        let fobj = if body.frame_size > 0 { self.alloc(st, body.frame_size as usize) } else { 0 };
        let nf = Frame { f, body, pc: 0, regs, fobj, dst, normal };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        self.cnt.max_depth = self.cnt.max_depth.max(st.stack.len());
        Ok(())
    }

    fn arg_c(&mut self, st: &mut State, args: &[(Opd, Ty)], i: usize, what: &str) -> R<u64> {
        let v = self.op(st, &args[i].0);
        self.concretize(st, &v, what)
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut s = vec![self.m.funcs[st.cur.f].name.clone()];
        for f in st.stack.iter().rev().take(12) {
            s.push(self.m.funcs[f.f].name.clone());
        }
        s.join(" < ")
    }

    fn do_alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 24 {
            return Err(Stop::Steps);
        }
        let s = self.alloc(st, n as usize);
        Ok(Self::addr(s))
    }
    fn do_free(&mut self, st: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        match self.slot_of(p) {
            Some(s) if p & 0xffff_ffff == 0 && matches!(st.heap.get(s as usize), Some(Some(_))) => {
                st.heap[s as usize] = None;
                st.free.push(s);
                Ok(())
            }
            _ => Err(self.bad(st, "free", p, 0)),
        }
    }
    fn do_realloc(&mut self, st: &mut State, p: u64, n: u64) -> R<u64> {
        if p == 0 {
            return self.do_alloc(st, n);
        }
        if n > 1 << 24 {
            return Err(Stop::Steps);
        }
        let s = match self.slot_of(p) {
            Some(s) if p & 0xffff_ffff == 0 && matches!(st.heap.get(s as usize), Some(Some(_))) => s,
            _ => return Err(self.bad(st, "realloc", p, n as usize)),
        };
        let o = st.heap[s as usize].as_ref().unwrap();
        let mut no = Obj::new(n as usize);
        let k = o.d.len().min(n as usize);
        no.d[..k].copy_from_slice(&o.d[..k]);
        if let Some(os) = &o.s {
            let mut ns = vec![0u32; n as usize];
            ns[..k].copy_from_slice(&os[..k]);
            no.s = Some(ns.into());
        }
        st.heap[s as usize] = Some(Rc::new(no));
        Ok(p)
    }

    fn builtin(&mut self, st: &mut State, f: usize, args: &[(Opd, Ty)], rty: &Ty) -> R<Option<Val>> {
        let b = self.bi[f];
        Ok(match b {
            Bi::Alloc | Bi::AllocZ | Bi::Malloc => {
                let n = self.arg_c(st, args, 0, "allocation size")?;
                Some(Val::C(self.do_alloc(st, n)?))
            }
            Bi::Calloc => {
                let n = self.arg_c(st, args, 0, "allocation size")?;
                let m = self.arg_c(st, args, 1, "allocation size")?;
                Some(Val::C(self.do_alloc(st, n * m)?))
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.arg_c(st, args, 0, "free")?;
                self.do_free(st, p)?;
                None
            }
            Bi::Realloc => {
                let p = self.arg_c(st, args, 0, "realloc")?;
                let n = self.arg_c(st, args, 3, "allocation size")?;
                Some(Val::C(self.do_realloc(st, p, n)?))
            }
            Bi::CRealloc => {
                let p = self.arg_c(st, args, 0, "realloc")?;
                let n = self.arg_c(st, args, 1, "allocation size")?;
                Some(Val::C(self.do_realloc(st, p, n)?))
            }
            Bi::Memalign => {
                let out = self.arg_c(st, args, 0, "memalign")?;
                let n = self.arg_c(st, args, 2, "allocation size")?;
                let p = self.do_alloc(st, n)?;
                self.store_int(st, out, 64, &Val::C(p))?;
                Some(Val::C(0))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let p = self.arg_c(st, args, 0, "memcmp")?;
                let q = self.arg_c(st, args, 1, "memcmp")?;
                let n = self.arg_c(st, args, 2, "memcmp length")? as usize;
                let x = self.bytes_ex(st, p, n)?;
                let y = self.bytes_ex(st, q, n)?;
                if b == Bi::Bcmp {
                    let mut acc = self.ar.k(1, 1);
                    for i in 0..n {
                        let c = self.ar.cmp(Pred::Eq, x[i], y[i]);
                        acc = self.ar.and(acc, c);
                        if self.ar.kv(acc) == Some(0) {
                            break;
                        }
                    }
                    let (z, o) = (self.ar.k(0, 32), self.ar.k(1, 32));
                    let r = self.ar.ite(acc, z, o);
                    Some(self.from_ex(r))
                } else {
                    let mut acc = self.ar.k(0, 32);
                    for i in (0..n).rev() {
                        let eq = self.ar.cmp(Pred::Eq, x[i], y[i]);
                        let lt = self.ar.cmp(Pred::Ult, x[i], y[i]);
                        let (m, o) = (self.ar.k(!0, 32), self.ar.k(1, 32));
                        let d = self.ar.ite(lt, m, o);
                        acc = self.ar.ite(eq, acc, d);
                    }
                    Some(self.from_ex(acc))
                }
            }
            Bi::MemCpy => {
                let d = self.arg_c(st, args, 0, "memcpy")?;
                let s = self.arg_c(st, args, 1, "memcpy")?;
                let n = self.arg_c(st, args, 2, "memcpy length")? as usize;
                self.memcpy(st, d, s, n)?;
                Some(Val::C(d))
            }
            Bi::MemSet => {
                let d = self.arg_c(st, args, 0, "memset")?;
                let v = self.op(st, &args[1].0);
                let v = self.cast(CastOp::Trunc, 32, 8, &v)?;
                let n = self.arg_c(st, args, 2, "memset length")?;
                for i in 0..n {
                    self.store_int(st, d + i, 8, &v)?;
                }
                Some(Val::C(d))
            }
            Bi::Strlen => {
                let p = self.arg_c(st, args, 0, "strlen")?;
                let mut n = 0;
                loop {
                    let v = self.load_int(st, p + n, 8)?;
                    let v = self.concretize(st, &v, "strlen")?;
                    if v == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Bi::Getrandom => {
                let p = self.arg_c(st, args, 0, "getrandom")?;
                let n = self.arg_c(st, args, 1, "getrandom")?;
                for i in 0..n {
                    self.store_int(st, p + i, 8, &Val::C((i * 37 + 11) & 0xff))?;
                }
                Some(Val::C(n))
            }
            Bi::Zero => {
                if *rty == Ty::Void {
                    None
                } else {
                    Some(Val::C(0))
                }
            }
            Bi::NegOne => Some(Val::C(!0)),
            Bi::Errno => {
                let p = self.do_alloc(st, 8)?;
                Some(Val::C(p))
            }
            Bi::Write => {
                let n = self.arg_c(st, args, 2, "write")?;
                Some(Val::C(n))
            }
            Bi::Abort => return Err(Stop::Panic(format!("abort: {}", self.backtrace(st)))),
            Bi::Panic => return Err(Stop::Panic(self.backtrace(st))),
            Bi::SymByte => {
                let i = st.doms.len() as u32;
                st.doms.push(FULL);
                // the default model value; harness constraints move it
                st.model.push(b'a');
                st.tape.push(Tape::Var(i));
                let e = self.ar.var(i);
                Some(Val::S(e))
            }
            Bi::SymChoose => {
                let n = self.arg_c(st, args, 0, "choose")?;
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                let i = match st.pending_choice.take() {
                    Some(i) => i,
                    None => {
                        let i = self.fork_n(st, n as usize, &mut |_: &mut Exec, s: &mut State, i: usize| {
                            s.pending_choice = Some(i as u32);
                        });
                        st.pending_choice = None;
                        i as u32
                    }
                };
                st.tape.push(Tape::Choice(i));
                Some(Val::C(i as u64))
            }
            Bi::SymAssume => {
                let v = self.op(st, &args[0].0);
                let w = args[0].1.bits();
                let v = if w > 1 { self.icmp(Pred::Ne, w, &v, &Val::C(0)) } else { v };
                match v {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => None,
                    Val::S(e) => {
                        let f = self.feasible(st, e)?;
                        match f.t {
                            None => return Err(Stop::Infeasible),
                            Some(p) => {
                                self.patch(st, &p);
                                self.add(st, e);
                            }
                        }
                        None
                    }
                    _ => return Err(Stop::Unsupported("assume".into())),
                }
            }
            Bi::SymFail => {
                let p = self.arg_c(st, args, 0, "fail")?;
                let n = self.arg_c(st, args, 1, "fail")? as usize;
                let msg = match self.view(st, p, n) {
                    Ok((d, _)) => String::from_utf8_lossy(d).into_owned(),
                    Err(_) => "?".into(),
                };
                return Err(Stop::Fail(msg));
            }
            Bi::SymNote => {
                let p = self.arg_c(st, args, 0, "note")?;
                let n = self.arg_c(st, args, 1, "note")? as usize;
                let b = self.bytes_ex(st, p, n)?;
                for e in b {
                    let v = self.ar.eval(e, &st.model) as u8;
                    st.note.push(v);
                }
                st.note.push(b'\n');
                None
            }
            Bi::SymObserve => {
                let v = self.op(st, &args[0].0);
                st.obs.push((v, args[0].1.bits()));
                None
            }
            Bi::SymReach => {
                let v = self.arg_c(st, args, 0, "reach")?;
                st.reach |= 1 << (v & 63);
                None
            }
            Bi::SymConc => {
                let v = self.arg_c(st, args, 0, "conc")?;
                Some(Val::C(v))
            }
            Bi::SymTier => Some(Val::C(self.cfg.tier as u64)),
            Bi::SymHash => {
                let p = self.arg_c(st, args, 0, "hash")?;
                let n = self.arg_c(st, args, 1, "hash")? as usize;
                let c = self.bytes_ex(st, p, n)?;
                let hs = st.hashes.clone();
                for (i, h) in hs.iter().enumerate() {
                    if h.len() != c.len() {
                        continue;
                    }
                    let mut acc = self.ar.k(1, 1);
                    for (a, b) in h.iter().zip(&c) {
                        // stored content may have been pinned since
                        let a = self.byte_ex(st, *a);
                        let e = self.ar.cmp(Pred::Eq, a, *b);
                        acc = self.ar.and(acc, e);
                        if self.ar.kv(acc) == Some(0) {
                            break;
                        }
                    }
                    let v = self.from_ex(acc);
                    if let Val::S(_) = v {
                        self.cnt.hash_forks += 1;
                    }
                    if self.branch(st, &v)? {
                        return Ok(Some(Val::C(i as u64)));
                    }
                }
                st.hashes.push(Rc::new(c));
                Some(Val::C(st.hashes.len() as u64 - 1))
            }
            Bi::None => unreachable!(),
        })
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, name: &str, args: &[(Opd, Ty)], rty: &Ty) -> R<Option<Val>> {
        Ok(match i {
            Intr::MemCpy => {
                let d = self.arg_c(st, args, 0, "memcpy destination")?;
                let s = self.arg_c(st, args, 1, "memcpy source")?;
                let n = self.arg_c(st, args, 2, "memcpy length")? as usize;
                self.memcpy(st, d, s, n)?;
                None
            }
            Intr::MemSet => {
                let d = self.arg_c(st, args, 0, "memset")?;
                let v = self.op(st, &args[1].0);
                let n = self.arg_c(st, args, 2, "memset length")? as usize;
                if n == 0 {
                    return Ok(None);
                }
                match &v {
                    Val::C(c) => {
                        let off = (d & 0xffff_ffff) as usize;
                        let o = self.obj_mut(st, d, n)?;
                        o.d[off..off + n].fill(*c as u8);
                        if let Some(s) = &mut o.s {
                            s[off..off + n].fill(0);
                        }
                    }
                    v => {
                        for i in 0..n as u64 {
                            self.store_int(st, d + i, 8, v)?;
                        }
                    }
                }
                None
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                if let Ty::Vec(_, e) = rty {
                    let w = e.bits();
                    return Ok(Some(self.lanes2(&a, &b, |x, p, q| x.minmax(i, w, p, q))?));
                }
                let w = rty.bits();
                let p = minmax_pred(i);
                let c = self.icmp(p, w, &a, &b);
                if self.position(&c, w) {
                    let t = self.branch(st, &c)?;
                    return Ok(Some(if t { a } else { b }));
                }
                Some(self.ite(&c, w, &a, &b))
            }
            Intr::UAddSat | Intr::USubSat => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                if matches!(rty, Ty::Vec(..)) {
                    return Err(Stop::Unsupported(name.into()));
                }
                let w = rty.bits();
                Some(if i == Intr::UAddSat {
                    let s = self.bin(BinOp::Add, w, &a, &b);
                    let o = self.icmp(Pred::Ult, w, &s, &a);
                    self.ite(&o, w, &kv(!0, w), &s)
                } else {
                    let s = self.bin(BinOp::Sub, w, &a, &b);
                    let o = self.icmp(Pred::Ult, w, &a, &b);
                    if self.position(&o, w) {
                        let t = self.branch(st, &o)?;
                        return Ok(Some(if t { kv(0, w) } else { s }));
                    }
                    self.ite(&o, w, &kv(0, w), &s)
                })
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                let w = args[0].1.bits();
                let (r, o) = match i {
                    Intr::UAddO => {
                        let s = self.bin(BinOp::Add, w, &a, &b);
                        let o = self.icmp(Pred::Ult, w, &s, &a);
                        (s, o)
                    }
                    Intr::USubO => {
                        let s = self.bin(BinOp::Sub, w, &a, &b);
                        let o = self.icmp(Pred::Ult, w, &a, &b);
                        (s, o)
                    }
                    Intr::SAddO | Intr::SSubO if Self::conc128(&a).is_none() || Self::conc128(&b).is_none() => {
                        // overflow: the sign of the result differs from what both operands call for
                        let add = i == Intr::SAddO;
                        let s = self.bin(if add { BinOp::Add } else { BinOp::Sub }, w, &a, &b);
                        let p = self.bin(BinOp::Xor, w, &a, if add { &s } else { &b });
                        let q = self.bin(BinOp::Xor, w, if add { &b } else { &a }, &s);
                        let r = self.bin(BinOp::And, w, &p, &q);
                        let o = self.icmp(Pred::Slt, w, &r, &kv(0, w));
                        (s, o)
                    }
                    Intr::UMulO | Intr::SMulO
                        if Self::conc128(&a).is_some() != Self::conc128(&b).is_some()
                            && matches!(Self::conc128(&a).or(Self::conc128(&b)).map(|c| if i == Intr::UMulO { c as i128 } else { sx128(c, w) }), Some(c) if c > 0) =>
                    {
                        // by a positive constant: compare with the largest factor which fits
                        let c = Self::conc128(&a).or(Self::conc128(&b)).unwrap();
                        let f = if Self::conc128(&a).is_some() { &b } else { &a };
                        let s = self.bin(BinOp::Mul, w, &a, &b);
                        let o = if i == Intr::UMulO {
                            self.icmp(Pred::Ugt, w, f, &kv(mask(w) / c, w))
                        } else {
                            let max = (mask(w) >> 1) as i128;
                            let hi = self.icmp(Pred::Sgt, w, f, &kv((max / c as i128) as u128, w));
                            let min = -max - 1;
                            let lo = self.icmp(Pred::Slt, w, f, &kv((min / c as i128) as u128, w));
                            self.bin(BinOp::Or, 1, &hi, &lo)
                        };
                        (s, o)
                    }
                    _ => {
                        let signed = i != Intr::UMulO;
                        let op = match i {
                            Intr::SAddO => BinOp::Add,
                            Intr::SSubO => BinOp::Sub,
                            _ => BinOp::Mul,
                        };
                        if w > 64 {
                            let (Some(x), Some(y)) = (Self::conc128(&a), Self::conc128(&b)) else { return Err(Stop::Unsupported(format!("symbolic {name}"))) };
                            let (r, o) = if signed {
                                let (p, q) = (sx128(x, w), sx128(y, w));
                                match op {
                                    BinOp::Add => p.overflowing_add(q),
                                    BinOp::Sub => p.overflowing_sub(q),
                                    _ => p.overflowing_mul(q),
                                }
                            } else {
                                let (r, o) = x.overflowing_mul(y);
                                (r as i128, o)
                            };
                            (kv(r as u128, w), Val::C(o as u64))
                        } else {
                            let ext = if signed { CastOp::Sext } else { CastOp::Zext };
                            let a2 = self.cast(ext, w, 2 * w, &a)?;
                            let b2 = self.cast(ext, w, 2 * w, &b)?;
                            let r2 = self.bin(op, 2 * w, &a2, &b2);
                            let r = self.bin(op, w, &a, &b);
                            let back = self.cast(ext, w, 2 * w, &r)?;
                            let o = self.icmp(Pred::Ne, 2 * w, &back, &r2);
                            (r, o)
                        }
                    }
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Intr::Cttz | Intr::Ctlz | Intr::Ctpop => {
                let a = self.op(st, &args[0].0);
                let w = rty.bits();
                if let Some(x) = Self::conc128(&a) {
                    let r = match i {
                        Intr::Cttz => (if x == 0 { w } else { x.trailing_zeros() }) as u128,
                        Intr::Ctlz => (x.leading_zeros() - (128 - w)) as u128,
                        _ => x.count_ones() as u128,
                    };
                    return Ok(Some(kv(r, w)));
                }
                let e = self.ex(&a, w);
                let r = match i {
                    Intr::Ctpop => {
                        let mut acc = self.ar.k(0, w);
                        for j in 0..w {
                            let b = self.ar.extract(e, j, 1);
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(BinOp::Add, acc, z);
                        }
                        acc
                    }
                    _ => {
                        let mut acc = self.ar.k(w as u128, w);
                        for j in 0..w {
                            // innermost is the last bit examined
                            let bit = if i == Intr::Cttz { w - 1 - j } else { j };
                            let n = if i == Intr::Cttz { bit } else { w - 1 - bit };
                            let b = self.ar.extract(e, bit, 1);
                            let k = self.ar.k(n as u128, w);
                            acc = self.ar.ite(b, k, acc);
                        }
                        acc
                    }
                };
                Some(self.from_ex(r))
            }
            Intr::Bswap => {
                let a = self.op(st, &args[0].0);
                let w = rty.bits();
                if let Some(x) = Self::conc128(&a) {
                    return Ok(Some(kv(x.swap_bytes() >> (128 - w), w)));
                }
                let e = self.ex(&a, w);
                let mut acc: Option<Ex> = None;
                for j in 0..w / 8 {
                    // byte 0 becomes the most significant
                    let b = self.ar.extract(e, 8 * j, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                Some(self.from_ex(acc.unwrap()))
            }
            Intr::Bitrev => {
                let a = self.op(st, &args[0].0);
                let w = rty.bits();
                let a = self.symconc(st, &a, name)?;
                let x = Self::conc128(&a).unwrap();
                Some(kv(x.reverse_bits() >> (128 - w), w))
            }
            Intr::Fshl | Intr::Fshr => {
                let a = self.op(st, &args[0].0);
                let b = self.op(st, &args[1].0);
                let s = self.op(st, &args[2].0);
                let w = rty.bits();
                let s = (self.concretize(st, &s, "funnel shift")? % w as u64) as u128;
                if s == 0 {
                    return Ok(Some(if i == Intr::Fshl { a } else { b }));
                }
                let (l, r) = if i == Intr::Fshl { (s, w as u128 - s) } else { (w as u128 - s, s) };
                let x = self.bin(BinOp::Shl, w, &a, &kv(l, w));
                let y = self.bin(BinOp::LShr, w, &b, &kv(r, w));
                Some(self.bin(BinOp::Or, w, &x, &y))
            }
            Intr::Abs => {
                let a = self.op(st, &args[0].0);
                let w = rty.bits();
                let n = self.bin(BinOp::Sub, w, &kv(0, w), &a);
                let c = self.icmp(Pred::Slt, w, &a, &kv(0, w));
                Some(self.ite(&c, w, &n, &a))
            }
            Intr::Ucmp | Intr::Scmp => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                let w = args[0].1.bits();
                let rw = rty.bits();
                let (pl, pg) = if i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(pl, w, &a, &b);
                let gt = self.icmp(pg, w, &a, &b);
                let x = self.ite(&gt, rw, &kv(1, rw), &kv(0, rw));
                Some(self.ite(&lt, rw, &kv(!0, rw), &x))
            }
            Intr::IsConst => Some(Val::C(0)),
            Intr::Expect | Intr::Tls => Some(self.op(st, &args[0].0)),
            Intr::Trap => return Err(Stop::Panic(format!("trap: {}", self.backtrace(st)))),
            Intr::Fabs => {
                let a = self.op(st, &args[0].0);
                let w = rty.bits();
                Some(self.bin(BinOp::And, w, &a, &Val::C(mask(w - 1) as u64)))
            }
            Intr::Copysign => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                let w = rty.bits();
                let m = mask(w - 1) as u64;
                let x = self.bin(BinOp::And, w, &a, &Val::C(m));
                let y = self.bin(BinOp::And, w, &b, &Val::C(!m & mask(w) as u64));
                Some(self.bin(BinOp::Or, w, &x, &y))
            }
            Intr::FpToUiSat | Intr::FpToSiSat => {
                let a = self.arg_c(st, args, 0, "float")?;
                let f = if args[0].1 == Ty::F32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) };
                let w = rty.bits();
                let r = if i == Intr::FpToUiSat {
                    (f as u128).min(mask(w))
                } else {
                    let v = f as i128;
                    let hi = (mask(w) >> 1) as i128;
                    v.clamp(-hi - 1, hi) as u128
                };
                Some(kv(r, w))
            }
            Intr::PtrMask => {
                let (a, b) = (self.op(st, &args[0].0), self.op(st, &args[1].0));
                Some(self.bin(BinOp::And, 64, &a, &b))
            }
            Intr::VReduce(k) => {
                let a = self.op(st, &args[0].0);
                let Val::A(v) = a else { return Err(Stop::Unsupported(name.into())) };
                let w = rty.bits();
                let op = [BinOp::Or, BinOp::And, BinOp::Add, BinOp::Xor][k as usize];
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = self.bin(op, w, &acc, x);
                }
                Some(acc)
            }
            Intr::SAddSat | Intr::SSubSat | Intr::ObjSize | Intr::Other => return Err(Stop::Unsupported(format!("intrinsic {name}"))),
        })
    }

    fn minmax(&mut self, i: Intr, w: u32, a: &Val, b: &Val) -> Val {
        let p = minmax_pred(i);
        let c = self.icmp(p, w, a, b);
        self.ite(&c, w, a, b)
    }

    /// Evaluate an observation under the path's model.
    pub fn observe(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (v, _) in &st.obs {
            let x = match v {
                Val::C(c) => *c,
                Val::W(c) => **c as u64,
                Val::S(e) => self.ar.eval(*e, &st.model) as u64,
                Val::A(_) => 0,
            };
            for b in x.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    /// The model satisfies the whole path condition.
    pub fn model_ok(&mut self, st: &State) -> bool {
        for (i, d) in st.doms.iter().enumerate() {
            if !dget(d, st.model[i]) {
                return false;
            }
        }
        for e in &st.multi {
            if self.ar.eval(*e, &st.model) != 1 {
                return false;
            }
        }
        true
    }

    /// Ask the solver for a model of the full path condition.
    pub fn solve_path(&mut self, st: &State) -> (Sat, Vec<u8>) {
        let doms: Vec<(u32, Dom)> = st.doms.iter().enumerate().map(|(i, d)| (i as u32, *d)).collect();
        let mut m = st.model.clone();
        let r = self.z3.check(&mut self.ar, &st.multi.clone(), &doms, Some(&mut m));
        (r, m)
    }

    pub fn tape(&self, st: &State, model: &[u8]) -> Vec<u8> {
        st.tape
            .iter()
            .map(|t| match t {
                Tape::Choice(c) => *c as u8,
                Tape::Var(v) => model[*v as usize],
            })
            .collect()
    }
}

fn minmax_pred(i: Intr) -> Pred {
    match i {
        Intr::UMax => Pred::Ugt,
        Intr::UMin => Pred::Ult,
        Intr::SMax => Pred::Sgt,
        _ => Pred::Slt,
    }
}
