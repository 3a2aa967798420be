//! Hash-consed bit-vector expressions over 8-bit symbolic variables.

use crate::ir::{BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    K,
    Bin(BinOp),
    Cmp(Pred),
    Ite,
    Zext,
    Sext,
    Extract, // b = low bit
    Concat,  // a = high, b = low
    Tab,     // a = variable, b = table id
}

impl Op {
    fn tag(self) -> u64 {
        match self {
            Op::Var => 1,
            Op::K => 2,
            Op::Ite => 3,
            Op::Zext => 4,
            Op::Sext => 5,
            Op::Extract => 6,
            Op::Concat => 7,
            Op::Tab => 8,
            Op::Bin(b) => 100 + b as u64,
            Op::Cmp(p) => 200 + p as u64,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

/// Set of byte values.
pub type Dom = [u64; 4];
pub const FULL: Dom = [!0; 4];

pub fn dget(d: &Dom, i: u8) -> bool {
    d[(i >> 6) as usize] >> (i & 63) & 1 == 1
}
pub fn dset(d: &mut Dom, i: u8) {
    d[(i >> 6) as usize] |= 1 << (i & 63);
}
pub fn dand(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn dandn(a: &Dom, b: &Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn dempty(a: &Dom) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn dcount(a: &Dom) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn dfirst(a: &Dom) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i as u8) * 64 + a[i].trailing_zeros() as u8;
        }
    }
    panic!("empty domain")
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn apply_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sx128(a, w), sx128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sx128(a, w), sx128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx128(a, w) >> s) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}

pub fn apply_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx128(a, w) > sx128(b, w),
        Pred::Sge => sx128(a, w) >= sx128(b, w),
        Pred::Slt => sx128(a, w) < sx128(b, w),
        Pred::Sle => sx128(a, w) <= sx128(b, w),
    }
}

pub struct Arena {
    pub n: Vec<Node>,
    pub vars: Vec<u128>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u64, u64), u32>,
    map: FxMap<Node, Ex>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tmap: HashMap<Box<[u64; 256]>, u32>,
    // evaluation scratch
    memo: Vec<u128>,
    stamp: Vec<u32>,
    epoch: u32,
    tset: FxMap<Ex, Dom>,
    canon: Vec<u128>,
    /// structural hash: an order on expressions which doesn't depend on creation order
    sh: Vec<u64>,
    pub depth: Vec<u16>,
    flags: Vec<u8>,
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            n: vec![],
            vars: vec![],
            consts: vec![],
            cmap: Default::default(),
            map: Default::default(),
            tabs: vec![],
            tmap: HashMap::new(),
            memo: vec![],
            stamp: vec![],
            epoch: 0,
            tset: Default::default(),
            canon: vec![],
            sh: vec![],
            depth: vec![],
            flags: vec![],
        }
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.n[e as usize].w as u32
    }
    fn mk(&mut self, nd: Node) -> Ex {
        if let Some(e) = self.map.get(&nd) {
            return *e;
        }
        let v = match nd.op {
            Op::Var => 1u128 << nd.a,
            Op::K => 0,
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => self.vars[nd.a as usize] | self.vars[nd.b as usize],
            Op::Ite => self.vars[nd.a as usize] | self.vars[nd.b as usize] | self.vars[nd.c as usize],
            Op::Zext | Op::Sext | Op::Extract | Op::Tab => self.vars[nd.a as usize],
        };
        let e = self.n.len() as Ex;
        let mut h = (nd.op.tag(), ());
        let mut mix = |v: u64| {
            let x = (h.0 ^ v).wrapping_mul(0x9e3779b97f4a7c15);
            h.0 = x ^ (x >> 31);
        };
        mix(nd.w as u64);
        match nd.op {
            Op::Var => mix(nd.a as u64),
            Op::K => {
                mix(self.consts[nd.a as usize] as u64);
                mix((self.consts[nd.a as usize] >> 64) as u64);
            }
            Op::Tab => {
                mix(self.sh[nd.a as usize]);
                for x in self.tabs[nd.b as usize].iter() {
                    mix(*x);
                }
            }
            Op::Extract => {
                mix(self.sh[nd.a as usize]);
                mix(nd.b as u64);
            }
            Op::Zext | Op::Sext => mix(self.sh[nd.a as usize]),
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => {
                mix(self.sh[nd.a as usize]);
                mix(self.sh[nd.b as usize]);
            }
            Op::Ite => {
                mix(self.sh[nd.a as usize]);
                mix(self.sh[nd.b as usize]);
                mix(self.sh[nd.c as usize]);
            }
        }
        self.sh.push(h.0);
        let dp = match nd.op {
            Op::Var | Op::K | Op::Tab => 0,
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => 1 + self.depth[nd.a as usize].max(self.depth[nd.b as usize]),
            Op::Ite => 1 + self.depth[nd.a as usize].max(self.depth[nd.b as usize]).max(self.depth[nd.c as usize]),
            _ => 1 + self.depth[nd.a as usize],
        };
        self.depth.push(dp);
        let below = |x: Ex| self.flags[x as usize];
        let fl = match nd.op {
            Op::Var | Op::K => 0,
            Op::Tab => 6,
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => below(nd.a) | below(nd.b),
            Op::Ite => below(nd.a) | below(nd.b) | below(nd.c),
            Op::Zext | Op::Sext | Op::Extract => below(nd.a),
        } | match nd.op {
            Op::Bin(BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) if nd.w > 8 => 3,
            Op::Bin(BinOp::Mul) if nd.w > 64 => 3,
            Op::Bin(BinOp::Mul) if nd.w > 8 => 1,
            Op::Bin(BinOp::Add | BinOp::Sub) if nd.w > 64 => 1,
            _ => 0,
        };
        self.flags.push(fl);
        self.n.push(nd);
        self.vars.push(v);
        self.memo.push(0);
        self.stamp.push(0);
        self.map.insert(nd, e);
        e
    }
    pub fn var(&mut self, i: u32) -> Ex {
        assert!(i < 128, "too many symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 })
    }
    pub fn k(&mut self, v: u128, w: u32) -> Ex {
        let v = v & mask(w);
        let key = (v as u64, (v >> 64) as u64);
        let ci = match self.cmap.get(&key) {
            Some(c) => *c,
            None => {
                let c = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(key, c);
                c
            }
        };
        self.mk(Node { op: Op::K, w: w as u8, a: ci, b: 0, c: 0 })
    }
    pub fn kv(&self, e: Ex) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::K {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn single_var(&self, e: Ex) -> Option<u32> {
        let v = self.vars[e as usize];
        if v != 0 && v & (v - 1) == 0 {
            Some(v.trailing_zeros())
        } else {
            None
        }
    }
    /// Structural hash of a single-variable expression, whichever variable that is.
    pub fn canon(&mut self, e: Ex) -> u128 {
        let i = e as usize;
        if self.canon.len() <= i {
            self.canon.resize(self.n.len().max(i + 1), 0);
        }
        if self.canon[i] != 0 {
            return self.canon[i];
        }
        let n = self.n[i];
        fn mix(h: u128, v: u128) -> u128 {
            let h = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835);
            let h = (h ^ (h >> 67)).wrapping_mul(0xd1342543de82ef95c6a4a7935bd1e995);
            h ^ (h >> 61)
        }
        let t = n.op.tag() as u128;
        let k = match n.op {
            Op::Var | Op::K => 0,
            Op::Zext | Op::Sext | Op::Extract | Op::Tab => 1,
            Op::Bin(_) | Op::Cmp(_) | Op::Concat => 2,
            Op::Ite => 3,
        };
        let mut h = mix(t, n.w as u128 + 1);
        match n.op {
            Op::K => h = mix(h, self.consts[n.a as usize]),
            Op::Extract => h = mix(h, n.b as u128),
            Op::Tab => {
                let t = self.tabs[n.b as usize].clone();
                for x in t.iter() {
                    h = mix(h, *x as u128);
                }
            }
            _ => {}
        }
        for x in [n.a, n.b, n.c].iter().take(k as usize) {
            h = mix(h, self.canon(*x));
        }
        if h == 0 {
            h = 1;
        }
        self.canon[i] = h;
        h
    }
    pub fn tab(&mut self, var: u32, t: Box<[u64; 256]>, w: u32) -> Ex {
        if t.iter().all(|x| *x == t[0]) {
            return self.k(t[0] as u128, w);
        }
        let id = match self.tmap.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tmap.insert(t, i);
                i
            }
        };
        let v = self.var(var);
        self.mk(Node { op: Op::Tab, w: w as u8, a: v, b: id, c: 0 })
    }

    pub fn bin(&mut self, op: BinOp, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(apply_bin(op, w, x, y), w);
        }
        let m = mask(w);
        // canonical: constant on the right for commutative ops
        if ka.is_some() && matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) {
            return self.bin(op, b, a);
        }
        if let Some(y) = kb {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if y == 0 => return a,
                BinOp::Sub => {
                    let nk = self.k(0u128.wrapping_sub(y), w);
                    return self.bin(BinOp::Add, a, nk);
                }
                BinOp::And if y == 0 => return b,
                BinOp::And if y == m => return a,
                BinOp::Or if y == m => return b,
                BinOp::Mul if y == 0 => return b,
                BinOp::Mul | BinOp::UDiv | BinOp::SDiv if y == 1 => return a,
                BinOp::URem if y == 1 => return self.k(0, w),
                BinOp::Shl | BinOp::LShr if y >= w as u128 => return self.k(0, w),
                BinOp::Mul if y.is_power_of_two() => {
                    let s = self.k(y.trailing_zeros() as u128, w);
                    return self.bin(BinOp::Shl, a, s);
                }
                BinOp::UDiv if y.is_power_of_two() => {
                    let s = self.k(y.trailing_zeros() as u128, w);
                    return self.bin(BinOp::LShr, a, s);
                }
                BinOp::URem if y.is_power_of_two() => {
                    let s = self.k(y - 1, w);
                    return self.bin(BinOp::And, a, s);
                }
                _ => {}
            }
            let na = self.n[a as usize];
            match op {
                // sums of multiples: constant factors are distributed
                BinOp::Mul if w >= 8 && na.op == Op::Bin(BinOp::Add) && self.vars[a as usize].count_ones() <= 8 => {
                    let x = self.bin(BinOp::Mul, na.a, b);
                    let y = self.bin(BinOp::Mul, na.b, b);
                    return self.bin(BinOp::Add, x, y);
                }
                BinOp::Mul if na.op == Op::Bin(BinOp::Mul) && self.kv(na.b).is_some() => {
                    let x = self.kv(na.b).unwrap();
                    let nk = self.k(x.wrapping_mul(y), w);
                    return self.bin(BinOp::Mul, na.a, nk);
                }
                BinOp::Add => {
                    if na.op == Op::Bin(BinOp::Add) {
                        if let Some(x) = self.kv(na.b) {
                            let nk = self.k(x.wrapping_add(y), w);
                            return self.bin(BinOp::Add, na.a, nk);
                        }
                    }
                }
                BinOp::Xor => {
                    if na.op == Op::Bin(BinOp::Xor) {
                        if let Some(x) = self.kv(na.b) {
                            let nk = self.k(x ^ y, w);
                            return self.bin(BinOp::Xor, na.a, nk);
                        }
                    }
                    if w == 1 && y == 1 {
                        if let Op::Cmp(p) = na.op {
                            let np = match p {
                                Pred::Eq => Pred::Ne,
                                Pred::Ne => Pred::Eq,
                                Pred::Ugt => Pred::Ule,
                                Pred::Uge => Pred::Ult,
                                Pred::Ult => Pred::Uge,
                                Pred::Ule => Pred::Ugt,
                                Pred::Sgt => Pred::Sle,
                                Pred::Sge => Pred::Slt,
                                Pred::Slt => Pred::Sge,
                                Pred::Sle => Pred::Sgt,
                            };
                            return self.cmp(np, na.a, na.b);
                        }
                    }
                }
                BinOp::And => {
                    if na.op == Op::Bin(BinOp::And) {
                        if let Some(x) = self.kv(na.b) {
                            let nk = self.k(x & y, w);
                            return self.bin(BinOp::And, na.a, nk);
                        }
                    }
                }
                _ => {}
            }
            // bitwise operations distribute over concatenation / zero extension
            if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) {
                if na.op == Op::Concat {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let kl = self.k(y & mask(lw), lw);
                    let kh = self.k(y >> lw, hw);
                    let l = self.bin(op, na.b, kl);
                    let h = self.bin(op, na.a, kh);
                    return self.concat(h, l);
                }
                if na.op == Op::Zext {
                    let lw = self.w(na.a);
                    if op == BinOp::And || y >> lw == 0 {
                        let kl = self.k(y & mask(lw), lw);
                        let l = self.bin(op, na.a, kl);
                        return self.zext(l, w);
                    }
                }
                if op == BinOp::And {
                    // low mask => extraction
                    if y & (y + 1) == 0 && y != m {
                        let lw = 128 - y.leading_zeros();
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, w);
                    }
                }
            }
            if matches!(op, BinOp::LShr) {
                let s = y as u32;
                let x = self.extract(a, s, w - s);
                return self.zext(x, w);
            }
            if matches!(op, BinOp::Shl) {
                let s = y as u32;
                let x = self.extract(a, 0, w - s);
                let z = self.k(0, s);
                return self.concat(x, z);
            }
            if na.op == Op::Ite && self.kv(na.b).is_some() && self.kv(na.c).is_some() {
                let x = self.bin(op, na.b, b);
                let z = self.bin(op, na.c, b);
                return self.ite(na.a, x, z);
            }
        }
        if a == b {
            match op {
                BinOp::Sub | BinOp::Xor => return self.k(0, w),
                BinOp::And | BinOp::Or => return a,
                _ => {}
            }
        }
        if matches!(op, BinOp::Or | BinOp::Add | BinOp::Xor) {
            // disjoint concatenations: (x ++ 0) | zext(y)
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            for (p, q, _pe, qe) in [(na, nb, a, b), (nb, na, b, a)] {
                if p.op == Op::Concat && self.kv(p.b) == Some(0) {
                    let lw = self.w(p.b);
                    if q.op == Op::Zext && self.w(q.a) <= lw {
                        let l = self.zext(q.a, lw);
                        return self.concat(p.a, l);
                    }
                    if q.op == Op::Concat && self.kv(q.a) == Some(0) && self.w(q.b) <= lw {
                        let l = self.extract(qe, 0, lw);
                        return self.concat(p.a, l);
                    }
                    if op != BinOp::Add {
                        let hw = self.w(p.a);
                        let qh = self.extract(qe, lw, hw);
                        let ql = self.extract(qe, 0, lw);
                        if self.kv(qh) == Some(0) {
                            return self.concat(p.a, ql);
                        }
                    }
                }
            }
        }
        // sums are kept as sorted chains, the constant last
        if w >= 8 && kb.is_none() {
            let lin = |o: Op| matches!(o, Op::Bin(BinOp::Add | BinOp::Mul));
            let (oa, ob) = (self.n[a as usize].op, self.n[b as usize].op);
            if op == BinOp::Sub && (lin(oa) || lin(ob) || ka == Some(0)) {
                let neg = self.k(mask(w), w);
                let nb = self.bin(BinOp::Mul, b, neg);
                return self.bin(BinOp::Add, a, nb);
            }
            if op == BinOp::Add && (oa == Op::Bin(BinOp::Add) || ob == Op::Bin(BinOp::Add)) {
                let mut terms = vec![];
                let mut stack = vec![a, b];
                let mut k = 0u128;
                while let Some(e) = stack.pop() {
                    let n = self.n[e as usize];
                    if let Some(v) = self.kv(e) {
                        k = k.wrapping_add(v);
                    } else if n.op == Op::Bin(BinOp::Add) {
                        stack.push(n.a);
                        stack.push(n.b);
                    } else {
                        terms.push(e);
                    }
                    if terms.len() + stack.len() > 24 {
                        break;
                    }
                }
                if stack.is_empty() {
                    terms.sort_by_key(|e| self.sh[*e as usize]);
                    let mut acc = terms[0];
                    for t in &terms[1..] {
                        acc = self.mk(Node { op: Op::Bin(BinOp::Add), w: w as u8, a: acc, b: *t, c: 0 });
                    }
                    let k = k & m;
                    if k != 0 {
                        let ke = self.k(k, w);
                        acc = self.mk(Node { op: Op::Bin(BinOp::Add), w: w as u8, a: acc, b: ke, c: 0 });
                    }
                    return acc;
                }
            }
        }
        // commutative canonical order
        if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) && kb.is_none() && self.sh[a as usize] > self.sh[b as usize] {
            return self.mk(Node { op: Op::Bin(op), w: w as u8, a: b, b: a, c: 0 });
        }
        self.mk(Node { op: Op::Bin(op), w: w as u8, a, b, c: 0 })
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let o = self.k(1, 1);
        self.bin(BinOp::Xor, a, o)
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(BinOp::And, a, b)
    }

    pub fn cmp(&mut self, p: Pred, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.k(apply_cmp(p, w, x, y) as u128, 1);
        }
        if a == b {
            let r = matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle);
            return self.k(r as u128, 1);
        }
        if ka.is_some() {
            let np = match p {
                Pred::Ugt => Pred::Ult,
                Pred::Uge => Pred::Ule,
                Pred::Ult => Pred::Ugt,
                Pred::Ule => Pred::Uge,
                Pred::Sgt => Pred::Slt,
                Pred::Sge => Pred::Sle,
                Pred::Slt => Pred::Sgt,
                Pred::Sle => Pred::Sge,
                p => p,
            };
            return self.cmp(np, b, a);
        }
        if p == Pred::Ne {
            let e = self.cmp(Pred::Eq, a, b);
            // keep Ne in a canonical Xor form unless trivially constant
            if let Some(v) = self.kv(e) {
                return self.k(v ^ 1, 1);
            }
            let one = self.k(1, 1);
            return self.mk(Node { op: Op::Bin(BinOp::Xor), w: 1, a: e, b: one, c: 0 });
        }
        let na = self.n[a as usize];
        if let Some(y) = kb {
            let m = mask(w);
            match p {
                Pred::Ult if y == 0 => return self.k(0, 1),
                Pred::Uge if y == 0 => return self.k(1, 1),
                Pred::Ugt if y == m => return self.k(0, 1),
                Pred::Ule if y == m => return self.k(1, 1),
                Pred::Ult if y == 1 => {
                    let z = self.k(0, w);
                    return self.cmp(Pred::Eq, a, z);
                }
                Pred::Ugt if y == 0 => {
                    return self.cmp(Pred::Ne, a, b);
                }
                _ => {}
            }
            match na.op {
                Op::Zext => {
                    let iw = self.w(na.a);
                    let im = mask(iw);
                    match p {
                        Pred::Eq => {
                            if y > im {
                                return self.k(0, 1);
                            }
                            let k = self.k(y, iw);
                            return self.cmp(Pred::Eq, na.a, k);
                        }
                        Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge => {
                            if y > im {
                                return self.k(matches!(p, Pred::Ult | Pred::Ule) as u128, 1);
                            }
                            let k = self.k(y, iw);
                            return self.cmp(p, na.a, k);
                        }
                        Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge => {
                            if sx128(y, w) < 0 {
                                return self.k(matches!(p, Pred::Sgt | Pred::Sge) as u128, 1);
                            }
                            let up = match p {
                                Pred::Slt => Pred::Ult,
                                Pred::Sle => Pred::Ule,
                                Pred::Sgt => Pred::Ugt,
                                _ => Pred::Uge,
                            };
                            return self.cmp(up, a, b);
                        }
                        _ => {}
                    }
                }
                Op::Concat if p == Pred::Eq => {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let kl = self.k(y & mask(lw), lw);
                    let kh = self.k(y >> lw, hw);
                    let l = self.cmp(Pred::Eq, na.b, kl);
                    let h = self.cmp(Pred::Eq, na.a, kh);
                    return self.and(h, l);
                }
                Op::Ite => {
                    let (x, z) = (self.kv(na.b), self.kv(na.c));
                    if x.is_some() || z.is_some() {
                        let l = self.cmp(p, na.b, b);
                        let r = self.cmp(p, na.c, b);
                        if self.kv(l).is_some() || self.kv(r).is_some() {
                            return self.ite(na.a, l, r);
                        }
                    }
                }
                Op::Bin(BinOp::Xor) if p == Pred::Eq => {
                    if let Some(x) = self.kv(na.b) {
                        let k = self.k(x ^ y, w);
                        return self.cmp(p, na.a, k);
                    }
                    if y == 0 {
                        return self.cmp(p, na.a, na.b);
                    }
                }
                Op::Bin(BinOp::Add) if p == Pred::Eq => {
                    if let Some(x) = self.kv(na.b) {
                        let k = self.k(y.wrapping_sub(x), w);
                        return self.cmp(p, na.a, k);
                    }
                }
                Op::Bin(BinOp::Or) if p == Pred::Eq && y == 0 => {
                    let z = b;
                    let l = self.cmp(p, na.a, z);
                    let r = self.cmp(p, na.b, z);
                    return self.and(l, r);
                }
                _ => {}
            }
            if w == 1 && p == Pred::Eq {
                return if y == 1 { a } else { self.not(a) };
            }
        } else if p == Pred::Eq {
            let nb = self.n[b as usize];
            if na.op == Op::Zext && nb.op == Op::Zext && self.w(na.a) == self.w(nb.a) {
                return self.cmp(p, na.a, nb.a);
            }
            // bytewise split of wide equalities
            if w > 8 && w % 8 == 0 && (na.op == Op::Concat || nb.op == Op::Concat) {
                let mut acc = self.k(1, 1);
                for i in (0..w / 8).rev() {
                    let x = self.extract(a, 8 * i, 8);
                    let y = self.extract(b, 8 * i, 8);
                    let c = self.cmp(Pred::Eq, x, y);
                    acc = self.and(acc, c);
                }
                return acc;
            }
            if self.sh[a as usize] > self.sh[b as usize] {
                return self.cmp(p, b, a);
            }
        }
        self.mk(Node { op: Op::Cmp(p), w: 1, a, b, c: 0 })
    }

    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.kv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.kv(a), self.kv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(BinOp::Or, nc, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b })
    }

    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v, w);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat && self.kv(n.a) == Some(0) {
            return self.zext(n.b, w);
        }
        self.mk(Node { op: Op::Zext, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(sx128(v, n.w as u32) as u128, w);
        }
        if n.op == Op::Zext {
            return self.zext(n.a, w);
        }
        self.mk(Node { op: Op::Sext, w: w as u8, a, b: 0, c: 0 })
    }
    /// The low bits; unlike `extract` this goes through arithmetic (and so doesn't
    /// recombine with the other bytes of the same value).
    pub fn trunc(&mut self, a: Ex, w: u32) -> Ex {
        let n = self.n[a as usize];
        if n.w as u32 != w {
            if let Op::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul)) = n.op {
                let x = self.trunc(n.a, w);
                let y = self.trunc(n.b, w);
                return self.bin(op, x, y);
            }
            if n.op == Op::Zext && self.w(n.a) > w {
                return self.trunc(n.a, w);
            }
        }
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n[a as usize];
        if lo == 0 && n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.kv(a) {
            return self.k(v >> lo, w);
        }
        match n.op {
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.k(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Extract => {
                return self.extract(n.a, lo + n.b, w);
            }
            Op::Ite => {
                if self.kv(n.b).is_some() || self.kv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Tab => {
                let t = &self.tabs[n.b as usize];
                let mut o = Box::new([0u64; 256]);
                let m = mask(w) as u64;
                for i in 0..256 {
                    o[i] = (t[i] >> lo) & m;
                }
                let v = self.n[n.a as usize].a;
                return self.tab(v, o, w);
            }
            Op::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor)) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 })
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (self.n[h as usize], self.n[l as usize]);
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            return self.ite(nh.a, x, y);
        }
        let w = nh.w as u32 + nl.w as u32;
        assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.kv(h), self.kv(l)) {
            return self.k(x << nl.w | y, w);
        }
        if self.kv(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts of the same value
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return self.extract(nh.a, nl.b, w);
        }
        if nh.op == Op::Extract && nh.a == l && nh.b == nl.w as u32 && self.w(nh.a) != nl.w as u32 {
            // extract(a) ++ a cannot be adjacent unless l is a truncation; left as is
        }
        // right-assoc: (a ++ b) ++ c => a ++ (b ++ c)
        if nh.op == Op::Concat {
            let l2 = self.concat(nh.b, l);
            return self.concat(nh.a, l2);
        }
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let top = self.n[nl.a as usize];
            if top.op == Op::Extract && top.a == nh.a && nh.b == top.b + top.w as u32 {
                let x = self.extract(nh.a, top.b, (nh.w + top.w) as u32);
                return self.concat(x, nl.b);
            }
        }
        if nh.op == Op::K && nl.op == Op::Concat {
            let top = self.n[nl.a as usize];
            if top.op == Op::K {
                let (x, y) = (self.kv(h).unwrap(), self.kv(nl.a).unwrap());
                let k = self.k(x << top.w | y, (nh.w + top.w) as u32);
                return self.concat(k, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0 })
    }

    fn eval_rec(&mut self, e: Ex, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.epoch {
            return self.memo[i];
        }
        let n = self.n[i];
        let r = match n.op {
            Op::Var => m[n.a as usize] as u128,
            Op::K => return self.consts[n.a as usize],
            Op::Bin(op) => {
                let x = self.eval_rec(n.a, m);
                let y = self.eval_rec(n.b, m);
                apply_bin(op, n.w as u32, x, y)
            }
            Op::Cmp(p) => {
                let x = self.eval_rec(n.a, m);
                let y = self.eval_rec(n.b, m);
                apply_cmp(p, self.w(n.a), x, y) as u128
            }
            Op::Ite => {
                if self.eval_rec(n.a, m) == 1 {
                    self.eval_rec(n.b, m)
                } else {
                    self.eval_rec(n.c, m)
                }
            }
            Op::Zext => self.eval_rec(n.a, m),
            Op::Sext => {
                let iw = self.w(n.a);
                (sx128(self.eval_rec(n.a, m), iw) as u128) & mask(n.w as u32)
            }
            Op::Extract => (self.eval_rec(n.a, m) >> n.b) & mask(n.w as u32),
            Op::Concat => {
                let lw = self.w(n.b);
                self.eval_rec(n.a, m) << lw | self.eval_rec(n.b, m)
            }
            Op::Tab => {
                let v = m[self.n[n.a as usize].a as usize];
                self.tabs[n.b as usize][v as usize] as u128
            }
        };
        self.memo[i] = r;
        self.stamp[i] = self.epoch;
        r
    }
    pub fn eval(&mut self, e: Ex, m: &[u8]) -> u128 {
        self.epoch += 1;
        self.eval_rec(e, m)
    }
    /// All values of a single-variable expression.
    pub fn table(&mut self, e: Ex, var: u32) -> Box<[u128; 256]> {
        let mut m = [0u8; 128];
        let mut o = Box::new([0u128; 256]);
        for i in 0..256usize {
            m[var as usize] = i as u8;
            o[i] = self.eval(e, &m);
        }
        o
    }
    /// Truth set of a single-variable condition.
    pub fn truth(&mut self, e: Ex, var: u32) -> Dom {
        if let Some(d) = self.tset.get(&e) {
            return *d;
        }
        let t = self.table(e, var);
        let mut d = [0u64; 4];
        for i in 0..256usize {
            if t[i] == 1 {
                dset(&mut d, i as u8);
            }
        }
        self.tset.insert(e, d);
        d
    }
    /// Does the expression contain wide arithmetic?
    pub fn heavy(&self, e: Ex) -> bool {
        self.flags[e as usize] & 1 != 0
    }
    /// Does the expression contain divisions, wide products or tables?
    pub fn divides(&self, e: Ex) -> bool {
        self.flags[e as usize] & 2 != 0
    }
    /// Does the expression contain tables?
    pub fn tabbed(&self, e: Ex) -> bool {
        self.flags[e as usize] & 4 != 0
    }
    pub fn show(&self, e: Ex) -> String {
        let n = &self.n[e as usize];
        match n.op {
            Op::Var => format!("v{}", n.a),
            Op::K => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Bin(o) => format!("({o:?} {} {})", self.show(n.a), self.show(n.b)),
            Op::Cmp(o) => format!("({o:?} {} {})", self.show(n.a), self.show(n.b)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::Zext => format!("(zext{} {})", n.w, self.show(n.a)),
            Op::Sext => format!("(sext{} {})", n.w, self.show(n.a)),
            Op::Extract => format!("(ex{}+{} {})", n.b, n.w, self.show(n.a)),
            Op::Concat => format!("(cat {} {})", self.show(n.a), self.show(n.b)),
            Op::Tab => format!("(tab{} {})", n.b, self.show(n.a)),
        }
    }
}
