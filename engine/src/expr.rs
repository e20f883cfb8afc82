//! Hash-consed bit-vector expressions with simplifying constructors.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Ex = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,   // k = index of an 8-bit symbolic input byte
    Undef, // k = unique id; any width
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128,
}

/// Bit 127 of a variable set marks dependence on uninitialised memory.
pub const UNDEF_BIT: u128 = 1 << 127;
pub const MAX_VARS: usize = 126;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    map: FxMap<Node, Ex>,
    next_undef: u128,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_to(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of the binary operators. `None`: undefined (division by zero...).
pub fn fold(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Op::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Op::SDiv => {
            let (p, q) = (sext_to(x, w), sext_to(y, w));
            if q == 0 {
                return None;
            }
            (p.wrapping_div(q) as u128) & m
        }
        Op::SRem => {
            let (p, q) = (sext_to(x, w), sext_to(y, w));
            if q == 0 {
                return None;
            }
            (p.wrapping_rem(q) as u128) & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y as u32) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y as u32
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((sext_to(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext_to(x, w) < sext_to(y, w)) as u128,
        Op::Sle => (sext_to(x, w) <= sext_to(y, w)) as u128,
        _ => unreachable!(),
    })
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: Vec::new(),
            vars: Vec::new(),
            map: FxMap::default(),
            next_undef: 0,
            memo: Vec::new(),
            gen: 0,
        };
        // ids 0 and 1 are reserved by memory (0 = concrete byte, 1 = uninitialised byte)
        a.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        a.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 1 });
        a
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as Ex;
        let vars = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            Op::Undef => UNDEF_BIT,
            Op::ZExt | Op::SExt | Op::Extract => self.vars[n.a as usize],
            Op::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        self.nodes.push(n);
        self.vars.push(vars);
        self.memo.push((0, 0));
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Ex) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn has_undef(&self, e: Ex) -> bool {
        self.vars[e as usize] & UNDEF_BIT != 0
    }
    pub fn cst(&mut self, w: u16, k: u128) -> Ex {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> Ex {
        assert!(i < MAX_VARS, "too many symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    /// An arbitrary value: a leaf from a ring, so that neighbouring uses differ.
    pub fn undef(&mut self, w: u16) -> Ex {
        self.next_undef += 1;
        let k = self.next_undef & 0x3ff;
        self.mk(Node { op: Op::Undef, w, a: 0, b: 0, c: 0, k: k | (w as u128) << 16 })
    }
    pub fn is_undef_leaf(&self, e: Ex) -> bool {
        self.nodes[e as usize].op == Op::Undef
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let o = self.cst(w, u128::MAX);
        self.bin(Op::Xor, a, o)
    }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::Eq, a, b)
    }
    pub fn bool_c(&mut self, b: bool) -> Ex {
        self.cst(1, b as u128)
    }

    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let ow = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if let Some(r) = fold(op, w, x, y) {
                return self.cst(ow, r);
            }
        }
        // Constant to the right for commutative operators.
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if self.as_const(a).is_some() || (self.as_const(b).is_none() && a > b) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let m = mask(w);
        let cb = self.as_const(b);
        let ca = self.as_const(a);
        let na = self.n(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, y.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                // (x + c) - x
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let s = self.cst(w, y - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(y) = cb {
                    // low mask => zext(extract)
                    if na.op == Op::And {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                    if y != 0 && (y & (y + 1)) == 0 {
                        let low = (128 - y.leading_zeros()) as u16;
                        let ex = self.extract(a, 0, low);
                        return self.zext(ex, w);
                    }
                    // clear bits of a concat/zext where possible: split at byte granularity
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let yl = self.cst(lw, y);
                        let yh = self.cst(w - lw, y >> lw);
                        let l = self.bin(Op::And, na.b, yl);
                        let h = self.bin(Op::And, na.a, yh);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let yl = self.cst(iw, y);
                        let l = self.bin(Op::And, na.a, yl);
                        return self.zext(l, w);
                    }
                }
                if w == 1 {
                    // x & !x
                    if self.is_not_of(a, b) {
                        return self.cst(1, 0);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.cst(1, 1);
                }
                if let Some(e) = self.or_merge(a, b) {
                    return e;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if na.op == Op::Xor {
                        if let Some(x) = self.as_const(na.b) {
                            let k = self.cst(w, x ^ y);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                    if w == 1 && na.op == Op::Ite {
                        // push a negation inside when a branch is constant
                        if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() {
                            let t = self.bin(Op::Xor, na.b, b);
                            let e = self.bin(Op::Xor, na.c, b);
                            return self.ite(na.a, t, e);
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    // shl by constant: concat(extract(a, 0, w - y), 0)
                    let y = y as u16;
                    let lo = self.cst(y, 0);
                    let hi = self.extract(a, 0, w - y);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let y = y as u16;
                    let hi = self.extract(a, y, w - y);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) || ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y < w as u128 {
                        let y = y as u16;
                        let hi = self.extract(a, y, w - y);
                        return self.sext(hi, w);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.bool_c(true);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return self.bool_c(false);
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let t = y & mask(iw);
                            if (sext_to(t, iw) as u128) & m != y {
                                return self.bool_c(false);
                            }
                            let k = self.cst(iw, t);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Add => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.as_const(na.b) {
                                let k = self.cst(w, y ^ x);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Ite => {
                            let t = self.as_const(na.b);
                            let e = self.as_const(na.c);
                            if t.is_some() || e.is_some() {
                                let te = self.bin(Op::Eq, na.b, b);
                                let ee = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, te, ee);
                            }
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kl = self.cst(lw, y);
                            let kh = self.cst(w - lw, y >> lw);
                            let h = self.bin(Op::Eq, na.a, kh);
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.and1(h, l);
                        }
                        _ => {}
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if a == b {
                    return self.bool_c(matches!(op, Op::Ule | Op::Sle));
                }
                if let Some(r) = self.cmp_simplify(op, w, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: ow, a, b, c: 0, k: 0 })
    }

    fn is_not_of(&self, a: Ex, b: Ex) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Xor && na.a == b && self.as_const(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.a == a && self.as_const(nb.b) == Some(1))
    }

    fn cmp_simplify(&mut self, op: Op, w: u16, a: Ex, b: Ex) -> Option<Ex> {
        let m = mask(w);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let signed = matches!(op, Op::Slt | Op::Sle);
        let (min, max) = if signed {
            ((1u128 << (w - 1)) & m, m >> 1)
        } else {
            (0, m)
        };
        match op {
            Op::Ult | Op::Slt => {
                if cb == Some(min) || ca == Some(max) {
                    return Some(self.bool_c(false));
                }
            }
            _ => {
                if cb == Some(max) || ca == Some(min) {
                    return Some(self.bool_c(true));
                }
            }
        }
        // normalise a <= c to a < c+1, c <= a to !(a < c), c < a to !(a <= c) = !(a < c+1)
        if let Some(c) = cb {
            if matches!(op, Op::Ule | Op::Sle) {
                let k = self.cst(w, c.wrapping_add(1));
                let o = if signed { Op::Slt } else { Op::Ult };
                return Some(self.bin(o, a, k));
            }
            if !signed && c == 1 {
                let z = self.cst(w, 0);
                return Some(self.bin(Op::Eq, a, z));
            }
        }
        if let Some(c) = ca {
            let o = if signed { Op::Slt } else { Op::Ult };
            let r = if matches!(op, Op::Ule | Op::Sle) {
                self.bin(o, b, a)
            } else {
                let k = self.cst(w, c.wrapping_add(1));
                self.bin(o, b, k)
            };
            return Some(self.not(r));
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            let im = mask(iw);
            if let Some(c) = cb {
                // zext values are non-negative in both orders (iw < w)
                if signed && (c >> (w - 1)) & 1 == 1 {
                    return Some(self.bool_c(false));
                }
                if c > im {
                    return Some(self.bool_c(true));
                }
                let k = self.cst(iw, c);
                return Some(self.bin(Op::Ult, na.a, k));
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                let o = if matches!(op, Op::Ult | Op::Slt) { Op::Ult } else { Op::Ule };
                return Some(self.bin(o, na.a, nb.a));
            }
        }
        if na.op == Op::SExt && signed {
            let iw = self.w(na.a);
            if let Some(c) = cb {
                let sc = sext_to(c, w);
                let hi = (mask(iw) >> 1) as i128;
                let lo = -hi - 1;
                if sc > hi {
                    return Some(self.bool_c(true));
                }
                if sc <= lo {
                    return Some(self.bool_c(false));
                }
                let k = self.cst(iw, sc as u128);
                return Some(self.bin(Op::Slt, na.a, k));
            }
        }
        if na.op == Op::Ite && cb.is_some() && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
            let t = self.bin(op, na.b, b);
            let e = self.bin(op, na.c, b);
            return Some(self.ite(na.a, t, e));
        }
        None
    }

    /// Merges `or` of values with disjoint non-zero byte ranges (the shape of a bytewise load).
    fn or_merge(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let na = self.n(a);
        let nb = self.n(b);
        let w = na.w;
        // split both at a common point where one side is zero
        let split = |s: &Self, n: &Node| -> Option<u16> {
            match n.op {
                Op::ZExt => Some(s.w(n.a)),
                Op::Concat => Some(s.w(n.b)),
                _ => None,
            }
        };
        let p = match (split(self, &na), split(self, &nb)) {
            (Some(x), Some(y)) => {
                // prefer a split where one operand has a constant-zero low half
                let za = na.op == Op::Concat && self.as_const(na.b) == Some(0);
                let zb = nb.op == Op::Concat && self.as_const(nb.b) == Some(0);
                if za && (nb.op == Op::ZExt && y <= x) {
                    x
                } else if zb && (na.op == Op::ZExt && x <= y) {
                    y
                } else if x == y {
                    x
                } else if za {
                    x
                } else if zb {
                    y
                } else {
                    return None;
                }
            }
            (Some(x), None) if self.as_const(b).is_some() => x,
            (None, Some(_)) => return None,
            _ => return None,
        };
        let al = self.extract(a, 0, p);
        let ah = self.extract(a, p, w - p);
        let bl = self.extract(b, 0, p);
        let bh = self.extract(b, p, w - p);
        let lz = self.as_const(al) == Some(0) || self.as_const(bl) == Some(0) || (self.as_const(al).is_some() && self.as_const(bl).is_some());
        let hz = self.as_const(ah) == Some(0) || self.as_const(bh) == Some(0) || (self.as_const(ah).is_some() && self.as_const(bh).is_some());
        if !(lz && hz) {
            return None;
        }
        let l = self.bin(Op::Or, al, bl);
        let h = self.bin(Op::Or, ah, bh);
        Some(self.concat(h, l))
    }

    pub fn ite(&mut self, c: Ex, t: Ex, e: Ex) -> Ex {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { t } else { e };
        }
        if t == e {
            return t;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        if w == 1 {
            match (self.as_const(t), self.as_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, e),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, e);
                }
                (None, Some(0)) => return self.and1(c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, t);
                }
                _ => {}
            }
        }
        // ite(!c, t, e) = ite(c, e, t)
        let nc = self.n(c);
        if nc.op == Op::Xor && self.as_const(nc.b) == Some(1) {
            return self.ite(nc.a, e, t);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: e, k: 0 })
    }

    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, sext_to(n.k, n.w) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Undef => return self.undef(w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) || w <= 8 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    /// `a` becomes the high part.
    pub fn concat(&mut self, a: Ex, b: Ex) -> Ex {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Const {
            if na.k == 0 {
                return self.zext(b, w);
            }
            if nb.op == Op::Const {
                return self.cst(w, (na.k << nb.w) | nb.k);
            }
        }
        if na.op == Op::Undef && nb.op == Op::Undef {
            return self.undef(w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u16, w);
        }
        // extract(x, lo..) ++ (extract adjacent at the top of a concat)
        if nb.op == Op::Concat {
            let nba = self.n(nb.a);
            if na.op == Op::Extract && nba.op == Op::Extract && na.a == nba.a && na.k == nba.k + nba.w as u128 {
                let h = self.extract(na.a, nba.k as u16, na.w + nba.w);
                return self.concat(h, nb.b);
            }
        }
        // x[top bits] ++ x where low part is the expression itself truncated
        if na.op == Op::Extract {
            let nx = self.n(na.a);
            if na.a == b && na.k == nb.w as u128 {
                let _ = nx;
            }
        }
        if na.op == Op::ZExt {
            // zext(x) ++ b = zext(x ++ b)
            let c = self.concat(na.a, b);
            return self.zext(c, w);
        }
        if na.op == Op::Concat {
            // right-associate: (p ++ q) ++ b = p ++ (q ++ b)
            let qb = self.concat(na.b, b);
            return self.concat(na.a, qb);
        }
        self.mk(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }

    /// Starts an evaluation session for a new model.
    pub fn new_gen(&mut self) {
        self.gen += 1;
    }
    /// Evaluates under `model` (values of the input bytes; uninitialised bytes read as 0).
    pub fn eval(&mut self, e: Ex, model: &[u8]) -> u128 {
        self.new_gen();
        self.eval_in(e, model)
    }
    pub fn eval_in(&mut self, e: Ex, model: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return *model.get(n.k as usize).unwrap_or(&0) as u128,
            Op::Undef => return 0,
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == self.gen {
            return v;
        }
        let r = match n.op {
            Op::Ite => {
                if self.eval_in(n.a, model) == 1 {
                    self.eval_in(n.b, model)
                } else {
                    self.eval_in(n.c, model)
                }
            }
            Op::ZExt => self.eval_in(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext_to(self.eval_in(n.a, model), iw) as u128) & mask(n.w)
            }
            Op::Extract => (self.eval_in(n.a, model) >> n.k as u32) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_in(n.a, model) << lw) | self.eval_in(n.b, model)
            }
            op => {
                let w = self.w(n.a);
                let x = self.eval_in(n.a, model);
                let y = self.eval_in(n.b, model);
                // SMT-LIB total semantics for division by zero
                fold(op, w, x, y).unwrap_or_else(|| match op {
                    Op::UDiv => mask(w),
                    Op::SDiv => {
                        if sext_to(x, w) < 0 {
                            1
                        } else {
                            mask(w)
                        }
                    }
                    _ => x,
                })
            }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }

    pub fn show(&self, e: Ex) -> String {
        self.show_d(e, 0)
    }
    fn show_d(&self, e: Ex, d: usize) -> String {
        let n = self.n(e);
        if d > 12 {
            return "…".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("in[{}]", n.k),
            Op::Undef => format!("undef{}", n.k),
            Op::Ite => format!("ite({},{},{})", self.show_d(n.a, d + 1), self.show_d(n.b, d + 1), self.show_d(n.c, d + 1)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show_d(n.a, d + 1)),
            Op::Extract => format!("{}[{}+{}]", self.show_d(n.a, d + 1), n.k, n.w),
            _ => format!("{:?}({},{})", n.op, self.show_d(n.a, d + 1), self.show_d(n.b, d + 1)),
        }
    }
}
