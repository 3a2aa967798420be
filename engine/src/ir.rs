//! Textual LLVM IR reader: turns the module emitted by rustc into a compact
//! pre-decoded program. Function bodies are decoded lazily.

use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
    Label,
    Opaque,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match (n + 7) / 8 {
                1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => (self.store_size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((n + 7) / 8) as u64,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => ((*n as u64) * (t.bits() as u64) + 7) / 8,
            Ty::Struct(..) => self.size(),
            Ty::Void => 0,
            _ => panic!("size of {self:?}"),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    up(o, self.align())
                }
            }
            Ty::Arr(n, t) => n * t.size(),
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => panic!("field_off {self:?}"),
        }
    }
}

fn up(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

/// A constant or register operand.
#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u64),
    W(u128),
    A(Box<[Opd]>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    Bit, // ptrtoint, inttoptr, bitcast of scalars of the same width
    SiToFp,
    UiToFp,
    FpToSi,
    FpToUi,
    FpExt,
    FpTrunc,
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub target: u32, // block
    pub phis: Box<[(u32, Opd)]>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Intr {
    MemCpy,
    MemSet,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    IsConst,
    Expect,
    Tls,
    Trap,
    Fabs,
    Copysign,
    FpToUiSat,
    FpToSiSat,
    PtrMask,
    ObjSize,
    VReduce(u8),
    Other,
}

pub fn intr_of(n: &str) -> Intr {
    let n = n.strip_prefix("llvm.").unwrap_or(n);
    let t: &[(&str, Intr)] = &[
        ("memcpy.", Intr::MemCpy),
        ("memmove.", Intr::MemCpy),
        ("memset.", Intr::MemSet),
        ("umax.", Intr::UMax),
        ("umin.", Intr::UMin),
        ("smax.", Intr::SMax),
        ("smin.", Intr::SMin),
        ("uadd.sat", Intr::UAddSat),
        ("usub.sat", Intr::USubSat),
        ("sadd.sat", Intr::SAddSat),
        ("ssub.sat", Intr::SSubSat),
        ("uadd.with", Intr::UAddO),
        ("usub.with", Intr::USubO),
        ("umul.with", Intr::UMulO),
        ("sadd.with", Intr::SAddO),
        ("ssub.with", Intr::SSubO),
        ("smul.with", Intr::SMulO),
        ("cttz.", Intr::Cttz),
        ("ctlz.", Intr::Ctlz),
        ("ctpop.", Intr::Ctpop),
        ("bswap.", Intr::Bswap),
        ("bitreverse.", Intr::Bitrev),
        ("fshl.", Intr::Fshl),
        ("fshr.", Intr::Fshr),
        ("abs.", Intr::Abs),
        ("ucmp.", Intr::Ucmp),
        ("scmp.", Intr::Scmp),
        ("is.constant", Intr::IsConst),
        ("expect.", Intr::Expect),
        ("threadlocal.address", Intr::Tls),
        ("trap", Intr::Trap),
        ("fabs.", Intr::Fabs),
        ("copysign.", Intr::Copysign),
        ("fptoui.sat", Intr::FpToUiSat),
        ("fptosi.sat", Intr::FpToSiSat),
        ("ptrmask", Intr::PtrMask),
        ("objectsize", Intr::ObjSize),
        ("vector.reduce.or", Intr::VReduce(0)),
        ("vector.reduce.and", Intr::VReduce(1)),
        ("vector.reduce.add", Intr::VReduce(2)),
        ("vector.reduce.xor", Intr::VReduce(3)),
    ];
    for (p, i) in t {
        if n.starts_with(p) {
            return *i;
        }
    }
    Intr::Other
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(usize),
    Intr(Intr, String),
    Ind(Opd),
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: BinOp, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    FBin { op: FOp, f64_: bool, dst: u32, a: Opd, b: Opd },
    FNeg { f64_: bool, dst: u32, a: Opd },
    Fcmp { p: String, f64_: bool, dst: u32, a: Opd, b: Opd },
    Cast { op: CastOp, from: u32, to: u32, lanes: u32, dst: u32, a: Opd },
    VecBitcast { from: Ty, to: Ty, dst: u32, a: Opd },
    Load { ty: Ty, dst: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Box<[(Opd, u32, u64)]> },
    Alloca { dst: u32, off: u32 },
    DynAlloca { dst: u32, size: u64, n: Opd, w: u32 },
    Select { ty: Ty, dst: u32, c: Opd, cvec: bool, a: Opd, b: Opd },
    Br { e: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Box<[(u128, u32)]> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { dst: Option<u32>, callee: Callee, args: Box<[(Opd, Ty)]>, rty: Ty, normal: Option<u32> },
    ExtractValue { dst: u32, a: Opd, idx: Box<[u32]> },
    InsertValue { dst: u32, a: Opd, v: Opd, idx: Box<[u32]> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Box<[i32]> },
    Copy { dst: u32, a: Opd },
    AtomicRmw { op: String, w: u32, dst: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, dst: u32, p: Opd, cmp: Opd, new: Opd },
    Unsupported(String),
}

pub struct Body {
    pub code: Vec<Inst>,
    pub block_pc: Vec<u32>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub frame_size: u32,
}

pub struct Func {
    pub name: String,
    pub id: usize,
    pub nparams: usize,
    pub rty: Ty,
    pub lines: Option<(usize, usize)>, // body line range
    header: usize,
    pub body: OnceLock<Body>,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
    pub size: u64,
    pub external: bool,
    init: Option<usize>,
}

pub struct Module {
    text: Vec<String>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    types: HashMap<String, Ty>,
}

pub const FUNC_BASE: u64 = 0x4000_0000; // object id of function 0
pub const GLOBAL_BASE: u64 = 0x10; // object id of global 0
pub const HEAP_BASE: u64 = 0x0100_0000;

pub fn func_addr(id: usize) -> u64 {
    (FUNC_BASE + id as u64) << 32
}
pub fn global_addr(id: usize) -> u64 {
    (GLOBAL_BASE + id as u64) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    Meta(String),
    P(char),
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    cur: Tok,
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, cur: Tok::Eof };
        l.adv();
        l
    }
    fn ident(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            return r;
        }
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn adv(&mut self) -> Tok {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
        let t = if self.i >= self.s.len() || self.s[self.i] == b';' {
            Tok::Eof
        } else {
            let c = self.s[self.i];
            match c {
                b'%' => {
                    self.i += 1;
                    Tok::Local(self.ident())
                }
                b'@' => {
                    self.i += 1;
                    Tok::Global(self.ident())
                }
                b'!' => {
                    self.i += 1;
                    Tok::Meta(self.ident())
                }
                b'#' => {
                    self.i += 1;
                    let w = self.ident();
                    Tok::Word(format!("#{w}"))
                }
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                    self.i += 2;
                    let mut v = Vec::new();
                    while self.s[self.i] != b'"' {
                        if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' {
                            v.push(b'\\');
                            self.i += 2;
                        } else if self.s[self.i] == b'\\' {
                            let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                            v.push(u8::from_str_radix(h, 16).unwrap());
                            self.i += 3;
                        } else {
                            v.push(self.s[self.i]);
                            self.i += 1;
                        }
                    }
                    self.i += 1;
                    Tok::Str(v)
                }
                b'"' => {
                    let w = self.ident();
                    Tok::Word(format!("\"{w}"))
                }
                b'0'..=b'9' | b'-' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) {
                        self.i += 1;
                    }
                    Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => Tok::Word(self.ident()),
                _ => {
                    self.i += 1;
                    Tok::P(c as char)
                }
            }
        };
        std::mem::replace(&mut self.cur, t)
    }
    fn is_p(&self, c: char) -> bool {
        self.cur == Tok::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c:?} got {:?} in: {}", self.cur, String::from_utf8_lossy(self.s));
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Word(x) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.adv() {
            Tok::Word(w) => w,
            t => panic!("expected word got {t:?} in {}", String::from_utf8_lossy(self.s)),
        }
    }
    fn num(&mut self) -> i128 {
        match self.adv() {
            Tok::Num(w) => w.parse().unwrap(),
            t => panic!("expected num got {t:?} in {}", String::from_utf8_lossy(self.s)),
        }
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.adv() {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::Eof => panic!("eof"),
                    _ => {}
                }
            }
        }
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "opaque" | "half" | "token")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

struct FnCtx {
    regs: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
}

impl Module {
    pub fn parse(src: &str) -> Module {
        let text: Vec<String> = src.lines().map(|s| s.to_string()).collect();
        let mut m = Module { text: vec![], funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), types: HashMap::new() };
        let mut i = 0;
        let mut aliases = Vec::new();
        while i < text.len() {
            let l = &text[i];
            if l.starts_with('%') {
                let mut lx = Lex::new(l);
                let Tok::Local(n) = lx.adv() else { panic!() };
                lx.expect('=');
                lx.word(); // type
                let t = m.ty(&mut lx);
                m.types.insert(n, t);
            } else if l.starts_with('@') {
                let mut lx = Lex::new(l);
                let Tok::Global(n) = lx.adv() else { panic!() };
                lx.expect('=');
                let mut external = false;
                let constant;
                let mut alias = false;
                loop {
                    match lx.adv() {
                        Tok::Word(w) => match w.as_str() {
                            "external" | "extern_weak" => external = true,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "global" => {
                                constant = false;
                                break;
                            }
                            "alias" => {
                                alias = true;
                                constant = true;
                                break;
                            }
                            _ => {
                                if lx.is_p('(') {
                                    lx.skip_parens()
                                }
                            }
                        },
                        t => panic!("global {t:?} {l}"),
                    }
                }
                if alias {
                    aliases.push((n, i));
                } else {
                    let t = m.ty(&mut lx);
                    let size = if t == Ty::Opaque { 0 } else { t.size() };
                    let id = m.globals.len();
                    m.gmap.insert(n.clone(), id);
                    m.globals.push(Global { name: n, data: vec![], constant, size, external, init: if external { None } else { Some(i) } });
                }
            } else if l.starts_with("define") || l.starts_with("declare") {
                let def = l.starts_with("define");
                let (name, nparams, rty) = m.header(l);
                let id = m.funcs.len();
                let lines = if def {
                    let s = i + 1;
                    let mut j = s;
                    while text[j] != "}" {
                        j += 1;
                    }
                    i = j;
                    Some((s, j))
                } else {
                    None
                };
                m.fmap.insert(name.clone(), id);
                let header = lines.map(|(s, _)| s - 1).unwrap_or(0);
                m.funcs.push(Func { name, id, nparams, rty, lines, header, body: OnceLock::new() });
            }
            i += 1;
        }
        m.text = text;
        for (n, i) in aliases {
            let l = m.text[i].clone();
            let mut lx = Lex::new(&l);
            while !lx.eat_w("alias") {
                lx.adv();
            }
            m.ty(&mut lx);
            lx.expect(',');
            m.ty(&mut lx);
            if let Tok::Global(t) = lx.adv() {
                if let Some(f) = m.fmap.get(&t) {
                    let f = *f;
                    m.fmap.insert(n, f);
                } else if let Some(g) = m.gmap.get(&t) {
                    let g = *g;
                    m.gmap.insert(n, g);
                }
            }
        }
        // initialisers
        for g in 0..m.globals.len() {
            let mut data = vec![0u8; m.globals[g].size as usize];
            if let Some(li) = m.globals[g].init {
                let l = m.text[li].clone();
                let mut lx = Lex::new(&l);
                loop {
                    match lx.adv() {
                        Tok::Word(w) if w == "constant" || w == "global" => break,
                        _ => {}
                    }
                }
                let t = m.ty(&mut lx);
                m.init_const(&mut lx, &t, &mut data);
            }
            m.globals[g].data = data;
        }
        m
    }

    fn header(&self, l: &str) -> (String, usize, Ty) {
        let mut lx = Lex::new(l);
        lx.word();
        let rty = self.skip_to_type(&mut lx);
        let Tok::Global(name) = lx.adv() else { panic!("header {l}") };
        lx.expect('(');
        let mut n = 0;
        if !lx.eat(')') {
            loop {
                if lx.is_p('.') || matches!(&lx.cur, Tok::Word(w) if w.starts_with("...")) {
                    break;
                }
                n += 1;
                self.ty(&mut lx);
                // skip attributes and name
                let mut d = 0;
                loop {
                    match &lx.cur {
                        Tok::P(',') if d == 0 => break,
                        Tok::P(')') if d == 0 => break,
                        Tok::P('(') => d += 1,
                        Tok::P(')') => d -= 1,
                        Tok::Eof => panic!("hdr"),
                        _ => {}
                    }
                    lx.adv();
                }
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        (name, n, rty)
    }

    fn params(&self, l: &str) -> Vec<Option<String>> {
        let mut lx = Lex::new(l);
        lx.word();
        self.skip_to_type(&mut lx);
        lx.adv();
        lx.expect('(');
        let mut out = vec![];
        if lx.eat(')') {
            return out;
        }
        loop {
            self.ty(&mut lx);
            let mut d = 0;
            let mut name = None;
            loop {
                match &lx.cur {
                    Tok::P(',') if d == 0 => break,
                    Tok::P(')') if d == 0 => break,
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    Tok::Local(n) if d == 0 => name = Some(n.clone()),
                    _ => {}
                }
                lx.adv();
            }
            out.push(name);
            if lx.eat(')') {
                break;
            }
            lx.expect(',');
        }
        out
    }

    /// Skip linkage/attribute words until a type is found, and parse it.
    fn skip_to_type(&self, lx: &mut Lex) -> Ty {
        loop {
            match &lx.cur {
                Tok::Word(w) if is_ty_word(w) => return self.ty(lx),
                Tok::P('{') | Tok::P('[') | Tok::P('<') | Tok::Local(_) => return self.ty(lx),
                Tok::Word(w) => {
                    let al = w == "align" || w == "cc";
                    lx.adv();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    } else if al {
                        lx.adv();
                    }
                }
                t => panic!("skip_to_type {t:?}: {}", String::from_utf8_lossy(lx.s)),
            }
        }
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = lx.adv();
        match t {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                "opaque" => Ty::Opaque,
                _ if is_ty_word(&w) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {w}: {}", String::from_utf8_lossy(lx.s)),
            },
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Opaque),
            Tok::P('[') => {
                let n = lx.num();
                assert!(lx.eat_w("x"));
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n as u64, Box::new(t))
            }
            Tok::P('{') => {
                let mut f = vec![];
                if !lx.eat('}') {
                    loop {
                        f.push(self.ty(lx));
                        if lx.eat('}') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                Ty::Struct(f, false)
            }
            Tok::P('<') => {
                if lx.eat('{') {
                    let mut f = vec![];
                    if !lx.eat('}') {
                        loop {
                            f.push(self.ty(lx));
                            if lx.eat('}') {
                                break;
                            }
                            lx.expect(',');
                        }
                    }
                    lx.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = lx.num();
                    assert!(lx.eat_w("x"));
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            t => panic!("type tok {t:?} in {}", String::from_utf8_lossy(lx.s)),
        }
    }

    fn gaddr(&self, n: &str) -> u64 {
        if let Some(f) = self.fmap.get(n) {
            return func_addr(*f);
        }
        if let Some(g) = self.gmap.get(n) {
            let g2 = &self.globals[*g];
            if g2.external {
                return 0;
            }
            return global_addr(*g);
        }
        panic!("unknown global {n}")
    }

    fn opd_to_bytes(o: &Opd, t: &Ty, out: &mut [u8]) {
        match (o, t) {
            (Opd::A(v), Ty::Struct(f, _)) => {
                for (i, x) in v.iter().enumerate() {
                    let off = t.field_off(i) as usize;
                    Self::opd_to_bytes(x, &f[i], &mut out[off..]);
                }
            }
            (Opd::A(v), Ty::Arr(_, e)) | (Opd::A(v), Ty::Vec(_, e)) => {
                let s = e.size() as usize;
                for (i, x) in v.iter().enumerate() {
                    Self::opd_to_bytes(x, e, &mut out[i * s..]);
                }
            }
            (Opd::C(c), _) => {
                let n = t.store_size() as usize;
                let b = c.to_le_bytes();
                for i in 0..n.min(8) {
                    out[i] = b[i];
                }
            }
            (Opd::W(c), _) => {
                let n = t.store_size() as usize;
                let b = c.to_le_bytes();
                out[..n].copy_from_slice(&b[..n]);
            }
            _ => panic!("const bytes {o:?} {t:?}"),
        }
    }

    fn init_const(&self, lx: &mut Lex, t: &Ty, out: &mut [u8]) {
        // fast path for byte strings
        if let Tok::Str(s) = &lx.cur {
            out[..s.len()].copy_from_slice(s);
            lx.adv();
            return;
        }
        match &lx.cur {
            Tok::Word(w) if w == "zeroinitializer" || w == "undef" || w == "poison" || w == "null" => {
                lx.adv();
                return;
            }
            _ => {}
        }
        match t {
            Ty::Struct(f, packed) => {
                if *packed {
                    lx.expect('<');
                }
                lx.expect('{');
                for (i, ft) in f.iter().enumerate() {
                    self.ty(lx);
                    let off = t.field_off(i) as usize;
                    self.init_const(lx, ft, &mut out[off..]);
                    if i + 1 < f.len() {
                        lx.expect(',');
                    }
                }
                lx.expect('}');
                if *packed {
                    lx.expect('>');
                }
            }
            Ty::Arr(n, e) => {
                lx.expect('[');
                let s = e.size() as usize;
                for i in 0..*n as usize {
                    self.ty(lx);
                    self.init_const(lx, e, &mut out[i * s..]);
                    if i + 1 < *n as usize {
                        lx.expect(',');
                    }
                }
                lx.expect(']');
            }
            _ => {
                let o = self.value(lx, t, None);
                Self::opd_to_bytes(&o, t, out);
            }
        }
    }

    fn zero_of(t: &Ty) -> Opd {
        match t {
            Ty::Int(n) if *n > 64 => Opd::W(0),
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Opd::C(0),
            Ty::Arr(n, e) => Opd::A((0..*n).map(|_| Self::zero_of(e)).collect()),
            Ty::Vec(n, e) => Opd::A((0..*n).map(|_| Self::zero_of(e)).collect()),
            Ty::Struct(f, _) => Opd::A(f.iter().map(Self::zero_of).collect()),
            _ => Opd::C(0),
        }
    }

    /// Parse a value (after its type).
    fn value(&self, lx: &mut Lex, t: &Ty, cx: Option<&mut FnCtx>) -> Opd {
        let tok = lx.adv();
        if let Ty::F32 | Ty::F64 = t {
            // `+inf`, `-inf`, `+qnan`
            let neg = matches!(&tok, Tok::Num(s) if s == "-") || matches!(tok, Tok::P('-'));
            if neg || matches!(tok, Tok::P('+')) {
                let w = lx.word();
                let v = match w.as_str() {
                    "inf" => f64::INFINITY,
                    "qnan" => f64::NAN,
                    _ => panic!("float {w}"),
                };
                let v = if neg { -v } else { v };
                return Opd::C(if *t == Ty::F64 { v.to_bits() } else { (v as f32).to_bits() as u64 });
            }
        }
        match tok {
            Tok::Local(n) => Opd::Reg(cx.expect("local in const").reg(&n)),
            Tok::Global(n) => Opd::C(self.gaddr(&n)),
            Tok::Num(s) => match t {
                Ty::Int(w) => {
                    let v: i128 = match s.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => s.parse::<u128>().unwrap() as i128,
                    };
                    let mask = if *w >= 128 { !0u128 } else { (1u128 << w) - 1 };
                    let v = v as u128 & mask;
                    if *w > 64 {
                        Opd::W(v)
                    } else {
                        Opd::C(v as u64)
                    }
                }
                Ty::F64 => {
                    if let Some(h) = s.strip_prefix("0x") {
                        Opd::C(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        Opd::C(s.parse::<f64>().unwrap().to_bits())
                    }
                }
                Ty::F32 => {
                    let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                    Opd::C((d as f32).to_bits() as u64)
                }
                _ => panic!("num of {t:?}"),
            },
            Tok::Str(s) => Opd::A(s.iter().map(|b| Opd::C(*b as u64)).collect()),
            Tok::Word(w) => match w.as_str() {
                "true" => Opd::C(1),
                "false" => Opd::C(0),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Self::zero_of(t),
                "splat" => {
                    lx.expect('(');
                    let et = self.ty(lx);
                    let v = self.value(lx, &et, cx);
                    lx.expect(')');
                    let n = match t {
                        Ty::Vec(n, _) => *n as usize,
                        Ty::Arr(n, _) => *n as usize,
                        _ => panic!(),
                    };
                    Opd::A(vec![v; n].into())
                }
                "getelementptr" => {
                    while matches!(&lx.cur, Tok::Word(_)) {
                        lx.adv();
                        if lx.is_p('(') {
                            // inrange(...) or the argument list
                            let save = (lx.i, lx.cur.clone());
                            let _ = save;
                            break;
                        }
                    }
                    // `inrange(..)` form: detect by a number directly after '('
                    lx.expect('(');
                    if matches!(lx.cur, Tok::Num(_)) {
                        while !lx.eat(')') {
                            lx.adv();
                        }
                        lx.expect('(');
                    }
                    let et = self.ty(lx);
                    lx.expect(',');
                    let bt = self.ty(lx);
                    let mut base = match self.value(lx, &bt, None) {
                        Opd::C(c) => c,
                        _ => panic!(),
                    };
                    let mut first = true;
                    let mut curt = et;
                    while lx.eat(',') {
                        let it = self.ty(lx);
                        let iv = match self.value(lx, &it, None) {
                            Opd::C(c) => sx(c, it.bits()),
                            _ => panic!(),
                        };
                        if first {
                            base = base.wrapping_add((iv as u64).wrapping_mul(curt.size()));
                            first = false;
                        } else {
                            match curt.clone() {
                                Ty::Struct(f, _) => {
                                    base = base.wrapping_add(curt.field_off(iv as usize));
                                    curt = f[iv as usize].clone();
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    base = base.wrapping_add((iv as u64).wrapping_mul(e.size()));
                                    curt = *e;
                                }
                                _ => panic!(),
                            }
                        }
                    }
                    lx.expect(')');
                    Opd::C(base)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" => {
                    lx.expect('(');
                    let ft = self.ty(lx);
                    let v = self.value(lx, &ft, None);
                    assert!(lx.eat_w("to"));
                    let tt = self.ty(lx);
                    lx.expect(')');
                    if w == "trunc" {
                        if let Opd::C(c) = v {
                            return Opd::C(c & ((1u64 << tt.bits()) - 1));
                        }
                    }
                    v
                }
                "add" | "sub" | "xor" => {
                    while matches!(&lx.cur, Tok::Word(_)) {
                        lx.adv();
                    }
                    lx.expect('(');
                    let at = self.ty(lx);
                    let a = self.value(lx, &at, None);
                    lx.expect(',');
                    let bt = self.ty(lx);
                    let b = self.value(lx, &bt, None);
                    lx.expect(')');
                    match (a, b) {
                        (Opd::C(a), Opd::C(b)) => Opd::C(match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            _ => a ^ b,
                        }),
                        _ => panic!(),
                    }
                }
                _ => panic!("value word {w} in {}", String::from_utf8_lossy(lx.s)),
            },
            Tok::P('{') => {
                let Ty::Struct(f, _) = t else { panic!() };
                let mut v = vec![];
                for i in 0..f.len() {
                    let et = self.ty(lx);
                    v.push(self.value(lx, &et, None));
                    if i + 1 < f.len() {
                        lx.expect(',');
                    }
                }
                lx.expect('}');
                Opd::A(v.into())
            }
            Tok::P('<') => {
                let st = lx.eat('{');
                let mut v = vec![];
                loop {
                    let et = self.ty(lx);
                    v.push(self.value(lx, &et, None));
                    if !lx.eat(',') {
                        break;
                    }
                }
                if st {
                    lx.expect('}');
                }
                lx.expect('>');
                Opd::A(v.into())
            }
            Tok::P('[') => {
                let mut v = vec![];
                if !lx.eat(']') {
                    loop {
                        let et = self.ty(lx);
                        v.push(self.value(lx, &et, None));
                        if !lx.eat(',') {
                            break;
                        }
                    }
                    lx.expect(']');
                }
                Opd::A(v.into())
            }
            t2 => panic!("value tok {t2:?} ty {t:?} in {}", String::from_utf8_lossy(lx.s)),
        }
    }

    /// Parse `attr* value` after a parameter type.
    fn arg_value(&self, lx: &mut Lex, t: &Ty, cx: &mut FnCtx) -> Opd {
        loop {
            match &lx.cur {
                Tok::Word(w) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "ptrtoaddr" | "zext"
                    ) {
                        break;
                    }
                    let al = w == "align";
                    lx.adv();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    } else if al {
                        lx.adv();
                    }
                }
                _ => break,
            }
        }
        self.value(lx, t, Some(cx))
    }

    pub fn body(&self, f: usize) -> &Body {
        self.funcs[f].body.get_or_init(|| self.parse_body(f))
    }

    fn parse_body(&self, f: usize) -> Body {
        let func = &self.funcs[f];
        let (s, e) = func.lines.expect("body of declaration");
        let mut cx = FnCtx { regs: HashMap::new() };
        let params = self.params(&self.text[func.header]);
        let mut unnamed = 0;
        for p in params {
            match p {
                Some(n) => {
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    cx.reg(&n);
                }
                None => {
                    cx.reg(&format!("{unnamed}"));
                    unnamed += 1;
                }
            }
        }
        // split into blocks
        struct Blk {
            lines: Vec<String>,
        }
        let mut blocks: Vec<Blk> = vec![];
        let mut bmap: HashMap<String, u32> = HashMap::new();
        let mut i = s;
        let lab = |l: &str| -> Option<String> {
            if l.starts_with(' ') || l.is_empty() || l.starts_with(';') {
                return None;
            }
            let l2 = l.split(';').next().unwrap().trim_end();
            if let Some(r) = l2.strip_suffix(':') {
                return Some(r.trim_matches('"').to_string());
            }
            None
        };
        while i < e {
            let l = &self.text[i];
            if l.trim().is_empty() {
                i += 1;
                continue;
            }
            if let Some(n) = lab(l) {
                bmap.insert(n, blocks.len() as u32);
                blocks.push(Blk { lines: vec![] });
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                bmap.insert(format!("{unnamed}"), 0);
                blocks.push(Blk { lines: vec![] });
            }
            // join multi-line instructions (switch, landingpad, invoke)
            let mut line = l.clone();
            if line.contains(" switch ") || line.trim_start().starts_with("switch ") {
                while !self.text[i].trim_start().starts_with(']') && !self.text[i].trim_end().ends_with(']') && !self.text[i].contains("], !") {
                    i += 1;
                    line.push(' ');
                    line.push_str(self.text[i].trim());
                }
            } else if line.contains("invoke ") && !line.contains(" to label ") {
                i += 1;
                line.push(' ');
                line.push_str(self.text[i].trim());
            } else if line.contains(" landingpad ") {
                while i + 1 < e && self.text[i + 1].starts_with("          ") {
                    i += 1;
                }
            }
            blocks.last_mut().unwrap().lines.push(line);
            i += 1;
        }
        // phis per block
        let mut phis: Vec<Vec<(u32, Vec<(u32, Opd)>)>> = vec![vec![]; blocks.len()];
        for (bi, b) in blocks.iter().enumerate() {
            for l in &b.lines {
                if !l.contains("= phi ") {
                    continue;
                }
                let mut lx = Lex::new(l);
                let Tok::Local(d) = lx.adv() else { panic!() };
                let dst = cx.reg(&d);
                lx.expect('=');
                assert!(lx.eat_w("phi"));
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let v = self.value(&mut lx, &t, Some(&mut cx));
                    lx.expect(',');
                    let Tok::Local(p) = lx.adv() else { panic!() };
                    lx.expect(']');
                    inc.push((*bmap.get(&p).unwrap_or_else(|| panic!("block {p} in {}", func.name)), v));
                    if !lx.eat(',') || !lx.is_p('[') {
                        break;
                    }
                }
                phis[bi].push((dst, inc));
            }
        }
        let mut edges: Vec<Edge> = vec![];
        let mut mk_edge = |from: u32, to: &str| -> u32 {
            let t = bmap[to];
            let mut v = vec![];
            for (dst, inc) in &phis[t as usize] {
                let o = inc.iter().find(|(p, _)| *p == from).expect("phi pred").1.clone();
                v.push((*dst, o));
            }
            edges.push(Edge { target: t, phis: v.into() });
            edges.len() as u32 - 1
        };
        let mut code = vec![];
        let mut block_pc = vec![];
        let mut frame = 0u64;
        for (bi, b) in blocks.iter().enumerate() {
            block_pc.push(code.len() as u32);
            for l in &b.lines {
                if l.contains("= phi ") {
                    continue;
                }
                if let Some(ins) = self.inst(l, &mut cx, bi as u32, &mut mk_edge, &mut frame) {
                    code.push(ins);
                }
            }
        }
        Body { code, block_pc, edges, nregs: cx.regs.len() as u32, frame_size: frame as u32 }
    }

    fn label(lx: &mut Lex) -> String {
        assert!(lx.eat_w("label"), "label in {}", String::from_utf8_lossy(lx.s));
        match lx.adv() {
            Tok::Local(n) => n,
            t => panic!("label {t:?}"),
        }
    }

    fn inst(&self, l: &str, cx: &mut FnCtx, bi: u32, mk_edge: &mut dyn FnMut(u32, &str) -> u32, frame: &mut u64) -> Option<Inst> {
        let mut lx = Lex::new(l);
        let mut dst = None;
        if let Tok::Local(n) = &lx.cur {
            let n = n.clone();
            lx.adv();
            lx.expect('=');
            dst = Some(cx.reg(&n));
        }
        let op = lx.word();
        let lanes_of = |t: &Ty| match t {
            Ty::Vec(n, e) => (*n, e.bits()),
            t => (0, t.bits()),
        };
        Some(match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let b = self.value(&mut lx, &t, Some(cx));
                let (lanes, w) = lanes_of(&t);
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { op: o, w, lanes, dst: dst.unwrap(), a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                if !matches!(t, Ty::F32 | Ty::F64) {
                    return Some(Inst::Unsupported(l.trim().to_string()));
                }
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let b = self.value(&mut lx, &t, Some(cx));
                let o = match op.as_str() {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                Inst::FBin { op: o, f64_: t == Ty::F64, dst: dst.unwrap(), a, b }
            }
            "fneg" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                Inst::FNeg { f64_: t == Ty::F64, dst: dst.unwrap(), a }
            }
            "fcmp" => {
                let mut p = lx.word();
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    p = lx.word();
                }
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let b = self.value(&mut lx, &t, Some(cx));
                Inst::Fcmp { p, f64_: t == Ty::F64, dst: dst.unwrap(), a, b }
            }
            "icmp" => {
                let mut p = lx.word();
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    p = lx.word();
                }
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let b = self.value(&mut lx, &t, Some(cx));
                let (lanes, w) = lanes_of(&t);
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {p}"),
                };
                Inst::Icmp { p, w, lanes, dst: dst.unwrap(), a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let ft = self.ty(&mut lx);
                let a = self.value(&mut lx, &ft, Some(cx));
                assert!(lx.eat_w("to"));
                let tt = self.ty(&mut lx);
                let d = dst.unwrap();
                if op == "bitcast" && (matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..))) {
                    return Some(Inst::VecBitcast { from: ft, to: tt, dst: d, a });
                }
                let (lanes, from) = lanes_of(&ft);
                let (_, to) = lanes_of(&tt);
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "sitofp" => CastOp::SiToFp,
                    "uitofp" => CastOp::UiToFp,
                    "fptosi" => CastOp::FpToSi,
                    "fptoui" => CastOp::FpToUi,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if from > to {
                            CastOp::Trunc
                        } else if from < to {
                            CastOp::Zext
                        } else {
                            CastOp::Bit
                        }
                    }
                    _ => CastOp::Bit,
                };
                Inst::Cast { op: o, from, to, lanes, dst: d, a }
            }
            "load" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                lx.expect(',');
                self.ty(&mut lx);
                let p = self.value(&mut lx, &Ty::Ptr, Some(cx));
                Inst::Load { ty: t, dst: dst.unwrap(), p }
            }
            "store" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let t = self.ty(&mut lx);
                let v = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                self.ty(&mut lx);
                let p = self.value(&mut lx, &Ty::Ptr, Some(cx));
                Inst::Store { ty: t, v, p }
            }
            "getelementptr" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    }
                }
                let et = self.ty(&mut lx);
                lx.expect(',');
                let bt = self.ty(&mut lx);
                if matches!(bt, Ty::Vec(..)) {
                    return Some(Inst::Unsupported(l.trim().to_string()));
                }
                let base = self.value(&mut lx, &bt, Some(cx));
                let mut off = 0u64;
                let mut idx = vec![];
                let mut curt = et;
                let mut first = true;
                while lx.eat(',') {
                    if matches!(lx.cur, Tok::Meta(_)) {
                        break;
                    }
                    let it = self.ty(&mut lx);
                    let iv = self.value(&mut lx, &it, Some(cx));
                    let scale;
                    if first {
                        scale = curt.size();
                        first = false;
                    } else {
                        match curt.clone() {
                            Ty::Struct(f, _) => {
                                let Opd::C(k) = iv else { panic!() };
                                off = off.wrapping_add(curt.field_off(k as usize));
                                curt = f[k as usize].clone();
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                curt = *e;
                            }
                            _ => panic!(),
                        }
                    }
                    match iv {
                        Opd::C(c) => off = off.wrapping_add((sx(c, it.bits()) as u64).wrapping_mul(scale)),
                        v => idx.push((v, it.bits(), scale)),
                    }
                }
                Inst::Gep { dst: dst.unwrap(), base, off, idx: idx.into() }
            }
            "alloca" => {
                lx.eat_w("inalloca");
                let t = self.ty(&mut lx);
                let mut n = Opd::C(1);
                let mut w = 64;
                if lx.eat(',') {
                    if let Tok::Word(wd) = &lx.cur {
                        if is_ty_word(wd) {
                            let t = self.ty(&mut lx);
                            w = t.bits();
                            n = self.value(&mut lx, &t, Some(cx));
                        }
                    }
                }
                match n {
                    Opd::C(k) => {
                        *frame = up(*frame, 16);
                        let off = *frame as u32;
                        *frame += (t.size() * k).max(1);
                        Inst::Alloca { dst: dst.unwrap(), off }
                    }
                    n => Inst::DynAlloca { dst: dst.unwrap(), size: t.size(), n, w },
                }
            }
            "select" => {
                while matches!(&lx.cur, Tok::Word(w) if !is_ty_word(w)) {
                    lx.adv();
                }
                let ct = self.ty(&mut lx);
                let c = self.value(&mut lx, &ct, Some(cx));
                lx.expect(',');
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                self.ty(&mut lx);
                let b = self.value(&mut lx, &t, Some(cx));
                Inst::Select { ty: t, dst: dst.unwrap(), c, cvec: matches!(ct, Ty::Vec(..)), a, b }
            }
            "br" => {
                if lx.is_w("label") {
                    let t = Self::label(&mut lx);
                    Inst::Br { e: mk_edge(bi, &t) }
                } else {
                    let ct = self.ty(&mut lx);
                    let c = self.value(&mut lx, &ct, Some(cx));
                    lx.expect(',');
                    let t = Self::label(&mut lx);
                    lx.expect(',');
                    let f = Self::label(&mut lx);
                    Inst::CondBr { c, t: mk_edge(bi, &t), f: mk_edge(bi, &f) }
                }
            }
            "switch" => {
                let t = self.ty(&mut lx);
                let v = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let d = Self::label(&mut lx);
                let def = mk_edge(bi, &d);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.eat(']') {
                    let ct = self.ty(&mut lx);
                    let k = match self.value(&mut lx, &ct, None) {
                        Opd::C(c) => c as u128,
                        Opd::W(w) => w,
                        _ => panic!(),
                    };
                    lx.expect(',');
                    let n = Self::label(&mut lx);
                    cases.push((k, mk_edge(bi, &n)));
                }
                Inst::Switch { w: t.bits(), v, def, cases: cases.into() }
            }
            "ret" => {
                let t = self.ty(&mut lx);
                if t == Ty::Void {
                    Inst::Ret { v: None }
                } else {
                    Inst::Ret { v: Some(self.value(&mut lx, &t, Some(cx))) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.word();
                }
                let rty = self.skip_to_type(&mut lx);
                if lx.is_p('(') {
                    lx.skip_parens(); // explicit function type
                }
                let (callee, name) = match &lx.cur {
                    Tok::Global(n) => {
                        let n = n.clone();
                        lx.adv();
                        if n.starts_with("llvm.") {
                            (Callee::Intr(intr_of(&n), n.clone()), n)
                        } else {
                            let n2 = n.clone();
                            (Callee::Func(*self.fmap.get(&n2).unwrap_or_else(|| panic!("call of unknown {n2}"))), n)
                        }
                    }
                    Tok::Local(n) => {
                        let n = n.clone();
                        lx.adv();
                        (Callee::Ind(Opd::Reg(cx.reg(&n))), String::new())
                    }
                    Tok::Word(w) if w == "asm" => return if dst.is_none() && rty == Ty::Void { None } else { Some(Inst::Unsupported(l.trim().to_string())) },
                    t => panic!("callee {t:?} in {l}"),
                };
                if name.starts_with("llvm.lifetime")
                    || name.starts_with("llvm.experimental.noalias")
                    || name.starts_with("llvm.assume")
                    || name.starts_with("llvm.dbg")
                    || name.starts_with("llvm.x86.sse2.pause")
                    || name.starts_with("llvm.donothing")
                    || name.starts_with("llvm.prefetch")
                {
                    return None;
                }
                lx.expect('(');
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        let t = self.ty(&mut lx);
                        if t == Ty::Meta {
                            lx.adv();
                            args.push((Opd::C(0), Ty::Int(1)));
                        } else {
                            let v = self.arg_value(&mut lx, &t, cx);
                            args.push((v, t));
                        }
                        if lx.eat(')') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !lx.eat_w("to") {
                        if lx.cur == Tok::Eof {
                            panic!("invoke {l}");
                        }
                        lx.adv();
                    }
                    let n = Self::label(&mut lx);
                    normal = Some(mk_edge(bi, &n));
                }
                Inst::Call { dst, callee, args: args.into(), rty, normal }
            }
            "extractvalue" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                let mut idx = vec![];
                while lx.eat(',') {
                    if matches!(lx.cur, Tok::Meta(_)) {
                        break;
                    }
                    idx.push(lx.num() as u32);
                }
                Inst::ExtractValue { dst: dst.unwrap(), a, idx: idx.into() }
            }
            "insertvalue" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let t2 = self.ty(&mut lx);
                let v = self.value(&mut lx, &t2, Some(cx));
                let mut idx = vec![];
                while lx.eat(',') {
                    if matches!(lx.cur, Tok::Meta(_)) {
                        break;
                    }
                    idx.push(lx.num() as u32);
                }
                Inst::InsertValue { dst: dst.unwrap(), a, v, idx: idx.into() }
            }
            "extractelement" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let t2 = self.ty(&mut lx);
                let i = self.value(&mut lx, &t2, Some(cx));
                Inst::ExtractElem { dst: dst.unwrap(), a, i }
            }
            "insertelement" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let t1 = self.ty(&mut lx);
                let v = self.value(&mut lx, &t1, Some(cx));
                lx.expect(',');
                let t2 = self.ty(&mut lx);
                let i = self.value(&mut lx, &t2, Some(cx));
                Inst::InsertElem { dst: dst.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                self.ty(&mut lx);
                let b = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let mt = self.ty(&mut lx);
                let mv = self.value(&mut lx, &mt, None);
                let Opd::A(mv) = mv else { panic!() };
                let mask = mv.iter().map(|o| if let Opd::C(c) = o { *c as i32 } else { 0 }).collect();
                let Ty::Vec(n, _) = t else { panic!() };
                Inst::Shuffle { dst: dst.unwrap(), a, b, n, mask }
            }
            "freeze" => {
                let t = self.ty(&mut lx);
                let a = self.value(&mut lx, &t, Some(cx));
                Inst::Copy { dst: dst.unwrap(), a }
            }
            "fence" => return None,
            "atomicrmw" => {
                lx.eat_w("volatile");
                let o = lx.word();
                self.ty(&mut lx);
                let p = self.value(&mut lx, &Ty::Ptr, Some(cx));
                lx.expect(',');
                let t = self.ty(&mut lx);
                let v = self.value(&mut lx, &t, Some(cx));
                Inst::AtomicRmw { op: o, w: t.bits(), dst: dst.unwrap_or_else(|| cx.reg("$scratch")), p, v }
            }
            "cmpxchg" => {
                lx.eat_w("weak");
                lx.eat_w("volatile");
                self.ty(&mut lx);
                let p = self.value(&mut lx, &Ty::Ptr, Some(cx));
                lx.expect(',');
                let t = self.ty(&mut lx);
                let cmp = self.value(&mut lx, &t, Some(cx));
                lx.expect(',');
                let t = self.ty(&mut lx);
                let new = self.value(&mut lx, &t, Some(cx));
                Inst::CmpXchg { w: t.bits(), dst: dst.unwrap_or_else(|| cx.reg("$scratch")), p, cmp, new }
            }
            "landingpad" | "resume" | "cleanup" => Inst::Unsupported(op),
            _ => Inst::Unsupported(l.trim().to_string()),
        })
    }
}

pub fn sx(c: u64, w: u32) -> i64 {
    if w >= 64 {
        c as i64
    } else {
        ((c << (64 - w)) as i64) >> (64 - w)
    }
}
