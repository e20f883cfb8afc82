//! Reader for textual LLVM IR, lowering it to the compact form that `exec` interprets.

use crate::expr::*;
use std::rc::Rc;

// ---------------------------------------------------------------- values and instructions

#[derive(Clone)]
pub enum V {
    I(u64),
    W(Box<u128>),
    E(Ex),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O {
    R(u32),
    K(u32),
}

pub type TyId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u64, TyId),
    Opaque,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    ZExt,
    SExt,
    Trunc,
    Bit, // bitcast, ptrtoint, inttoptr of equal width
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(O),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: Op, w: u16, d: u32, a: O, b: O },
    VBin { op: Op, w: u16, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u16, d: u32, a: O, b: O },
    VIcmp { p: Pred, w: u16, d: u32, a: O, b: O },
    Select { w: u16, ty: TyId, d: u32, c: O, a: O, b: O },
    VSelect { w: u16, ty: TyId, d: u32, c: O, a: O, b: O },
    Cast { k: CastK, fw: u16, tw: u16, d: u32, a: O },
    VCast { k: CastK, fw: u16, tw: u16, d: u32, a: O },
    Bitcast { from: TyId, to: TyId, d: u32, a: O },
    Load { d: u32, p: O, w: u16, n: u8 },
    LoadT { d: u32, p: O, ty: TyId },
    Store { p: O, v: O, w: u16, n: u8 },
    StoreT { p: O, v: O, ty: TyId },
    Gep { d: u32, base: O, off: i64, terms: Box<[(O, u16, i64)]> },
    /// Lanes, base, and whether the base and each index is itself a vector.
    VGep { n: u64, d: u32, base: O, vbase: bool, off: i64, terms: Box<[(O, u16, i64, bool)]> },
    Gep0 { d: u32, base: O, off: i64 },
    Alloca { d: u32, size: u64 },
    Call { d: u32, callee: Callee, args: Box<[O]>, ret: TyId, next: u32 },
    ExtractV { d: u32, a: O, path: Box<[u32]> },
    InsertV { d: u32, a: O, v: O, path: Box<[u32]> },
    ExtractE { d: u32, a: O, i: O },
    InsertE { d: u32, a: O, v: O, i: O },
    Shuffle { d: u32, a: O, b: O, mask: Box<[i32]> },
    AtomicRmw { op: Rmw, w: u16, d: u32, p: O, v: O },
    CmpXchg { w: u16, d: u32, p: O, c: O, n: O },
    Freeze { d: u32, a: O },
    Br(u32),
    CBr { c: O, t: u32, e: u32 },
    Switch { v: O, w: u16, def: u32, cases: Box<[(u64, u32)]> },
    Ret(Option<O>),
    Unreachable,
    Nop,
    Unsupported(String),
}

/// `next` of a call that falls through to the following instruction.
pub const FALL: u32 = u32::MAX;
pub const NOREG: u32 = u32::MAX;

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>, // (dest, [(pred block, value)])
    pub ins: Vec<Ins>,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>, // empty for a declaration
    pub external: bool,
    pub vararg: bool,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Vec<u8>,
    pub undef: bool,
}

pub struct Module {
    pub tys: Vec<Ty>,
    pub sizes: Vec<(u64, u64)>, // size, align
    pub globals: Vec<Global>,
    pub granule: Vec<u32>, // global index + 1, by (addr - GBASE) >> 4
    pub funcs: Vec<Func>,
    pub consts: Vec<V>,
    pub func_ids: FxMap<String, u32>,
}

pub const GBASE: u64 = 1 << 32;
pub const FBASE: u64 = 2 << 32;
pub fn fn_addr(i: u32) -> u64 {
    FBASE + 16 + 16 * i as u64
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, PartialEq, Debug)]
enum T<'a> {
    W(&'a str),
    L(String),
    G(String),
    N(&'a str),
    S(Vec<u8>),
    C(Vec<u8>),
    P(u8),
    Meta,
    Hash,
    End,
}

#[derive(Clone)]
struct Lx<'a> {
    s: &'a str,
    i: usize,
}

fn is_w(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s, i: 0 }
    }
    fn b(&self, i: usize) -> u8 {
        *self.s.as_bytes().get(i).unwrap_or(&0)
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at the opening quote
        let b = self.s.as_bytes();
        let mut i = self.i + 1;
        let mut out = Vec::new();
        while b[i] != b'"' {
            if b[i] == b'\\' {
                if b[i + 1] == b'\\' {
                    out.push(b'\\');
                    i += 2;
                } else {
                    out.push(u8::from_str_radix(&self.s[i + 1..i + 3], 16).unwrap());
                    i += 3;
                }
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        self.i = i + 1;
        out
    }
    fn word(&mut self) -> &'a str {
        let st = self.i;
        while is_w(self.b(self.i)) {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    fn name(&mut self) -> String {
        if self.b(self.i) == b'"' {
            String::from_utf8(self.quoted()).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
        } else {
            self.word().to_string()
        }
    }
    fn next(&mut self) -> T<'a> {
        while matches!(self.b(self.i), b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
        let c = self.b(self.i);
        match c {
            0 => T::End,
            b';' => {
                while self.b(self.i) != 0 && self.b(self.i) != b'\n' {
                    self.i += 1;
                }
                self.next()
            }
            b'%' => {
                self.i += 1;
                T::L(self.name())
            }
            b'@' => {
                self.i += 1;
                T::G(self.name())
            }
            b'!' => {
                self.i += 1;
                T::Meta
            }
            b'#' => {
                self.i += 1;
                self.word();
                T::Hash
            }
            b'"' => T::S(self.quoted()),
            b'c' if self.b(self.i + 1) == b'"' => {
                self.i += 1;
                T::C(self.quoted())
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while is_w(self.b(self.i)) || (self.b(self.i) == b'+' && matches!(self.b(self.i - 1), b'e')) {
                    self.i += 1;
                }
                T::N(&self.s[st..self.i])
            }
            b'.' if self.b(self.i + 1) == b'.' => {
                self.i += 3;
                T::W("...")
            }
            c if is_w(c) => T::W(self.word()),
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn peek(&self) -> T<'a> {
        self.clone().next()
    }
    fn eat(&mut self, p: u8) -> bool {
        let mut c = self.clone();
        if c.next() == T::P(p) {
            *self = c;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        let mut c = self.clone();
        if c.next() == T::W(w) {
            *self = c;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, p: u8) {
        let t = self.next();
        if t != T::P(p) {
            panic!("expected {:?}, got {:?} in: {}", p as char, t, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        self.s.chars().take(400).collect()
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::End => panic!("unbalanced: {}", self.ctx()),
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- parser

pub struct Parser<'a, 'x> {
    pub m: Module,
    ar: &'x mut Arena,
    ty_ids: FxMap<Ty, TyId>,
    named: FxMap<String, (String, Option<TyId>)>,
    gids: FxMap<String, u32>,
    alias: FxMap<String, String>,
    const_memo: FxMap<(u64, u16), u32>,
    gtext: Vec<Lx<'a>>,
    fbodies: Vec<Option<(String, Vec<String>)>>,
    // per function
    regs: FxMap<String, u32>,
    labels: FxMap<String, u32>,
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "opaque")
        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

impl<'a, 'x> Parser<'a, 'x> {
    fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let (mut size, mut align) = (0u64, 1u64);
        match &t {
            Ty::Void | Ty::Opaque => {}
            Ty::Int(w) => {
                let bytes = (*w as u64 + 7) / 8;
                align = bytes.next_power_of_two().min(16);
                size = (bytes + align - 1) / align * align;
            }
            Ty::Float(w) => {
                size = *w as u64 / 8;
                align = size.next_power_of_two().min(16);
            }
            Ty::Ptr => {
                size = 8;
                align = 8;
            }
            Ty::Struct(fs, packed) => {
                for &f in fs {
                    let (s, a) = self.m.sizes[f as usize];
                    let a = if *packed { 1 } else { a };
                    size = (size + a - 1) / a * a + s;
                    align = align.max(a);
                }
                size = (size + align - 1) / align * align;
            }
            Ty::Array(n, e) => {
                let (s, a) = self.m.sizes[*e as usize];
                size = s * n;
                align = a;
            }
            Ty::Vector(n, e) => {
                let bits = match self.m.tys[*e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.m.sizes[*e as usize].0 * 8,
                };
                size = ((bits * n) + 7) / 8;
                size = size.next_power_of_two();
                align = size;
            }
        }
        let id = self.m.tys.len() as TyId;
        self.m.tys.push(t.clone());
        self.m.sizes.push((size, align));
        self.ty_ids.insert(t, id);
        id
    }
    fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.m.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, &f) in fs.iter().enumerate() {
                    let (s, a) = self.m.sizes[f as usize];
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if j == i {
                        return (off, f);
                    }
                    off += s;
                }
                panic!("bad field")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.m.sizes[*e as usize].0 * i as u64, *e),
            _ => panic!("field of scalar"),
        }
    }

    fn parse_ty(&mut self, l: &mut Lx) -> TyId {
        let t = l.next();
        match t {
            T::W(w) => match w {
                "void" | "label" | "metadata" | "token" => self.ty(Ty::Void),
                "ptr" => self.ty(Ty::Ptr),
                "float" => self.ty(Ty::Float(32)),
                "double" => self.ty(Ty::Float(64)),
                "half" => self.ty(Ty::Float(16)),
                "fp128" | "x86_fp80" => self.ty(Ty::Float(128)),
                "opaque" => self.ty(Ty::Opaque),
                _ if is_type_word(w) => {
                    let n = w[1..].parse().unwrap();
                    self.ty(Ty::Int(n))
                }
                _ => panic!("type word {} in {}", w, l.ctx()),
            },
            T::P(b'{') => self.parse_struct(l, false),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let t = self.parse_struct(l, true);
                    l.expect(b'>');
                    return t;
                }
                let n = match l.next() {
                    T::N(n) => n.parse().unwrap(),
                    t => panic!("vector {:?}", t),
                };
                assert!(l.eat_w("x"));
                let e = self.parse_ty(l);
                l.expect(b'>');
                self.ty(Ty::Vector(n, e))
            }
            T::P(b'[') => {
                let n = match l.next() {
                    T::N(n) => n.parse().unwrap(),
                    t => panic!("array {:?}", t),
                };
                assert!(l.eat_w("x"));
                let e = self.parse_ty(l);
                l.expect(b']');
                self.ty(Ty::Array(n, e))
            }
            T::L(n) => {
                let (text, done) = self.named.get(&n).cloned().unwrap_or_else(|| panic!("type %{}", n));
                if let Some(t) = done {
                    return t;
                }
                let mut l2 = Lx::new(&text);
                let t = self.parse_ty(&mut l2);
                self.named.insert(n, (text, Some(t)));
                t
            }
            t => panic!("type {:?} in {}", t, l.ctx()),
        }
    }
    fn parse_struct(&mut self, l: &mut Lx, packed: bool) -> TyId {
        let mut fs = Vec::new();
        if !l.eat(b'}') {
            loop {
                fs.push(self.parse_ty(l));
                if l.eat(b'}') {
                    break;
                }
                l.expect(b',');
            }
        }
        self.ty(Ty::Struct(fs, packed))
    }

    fn width(&self, t: TyId) -> Option<u16> {
        match self.m.tys[t as usize] {
            Ty::Int(w) | Ty::Float(w) => Some(w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
    fn mk(&self, w: u16, v: u128) -> V {
        let v = v & mask(w);
        if w <= 64 {
            V::I(v as u64)
        } else {
            V::W(Box::new(v))
        }
    }
    fn zero(&mut self, t: TyId) -> V {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) | Ty::Float(w) => self.mk(w, 0),
            Ty::Ptr => V::I(0),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|&f| self.zero(f)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            _ => V::I(0),
        }
    }
    fn undef(&mut self, t: TyId) -> V {
        match self.m.tys[t as usize].clone() {
            Ty::Int(w) | Ty::Float(w) => V::E(self.ar.undef(w)),
            Ty::Ptr => V::E(self.ar.undef(64)),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|&f| self.undef(f)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => V::A(Rc::new((0..n).map(|_| self.undef(e)).collect())),
            _ => V::I(0),
        }
    }
    fn int_of(&self, v: &V) -> u128 {
        match v {
            V::I(x) => *x as u128,
            V::W(x) => **x,
            _ => panic!("constant expected"),
        }
    }
    fn global_addr(&self, n: &str) -> Option<u64> {
        let n = self.alias.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.gids.get(n) {
            return Some(self.m.globals[g as usize].addr);
        }
        self.m.func_ids.get(n).map(|&f| fn_addr(f))
    }

    /// A constant of type `t`.
    fn parse_const(&mut self, l: &mut Lx, t: TyId) -> V {
        match l.next() {
            T::N(n) => {
                let w = self.width(t).unwrap_or_else(|| panic!("const {} {}", n, l.ctx()));
                if let Ty::Float(fw) = self.m.tys[t as usize] {
                    if let Some(h) = n.strip_prefix("0x") {
                        let bits = u128::from_str_radix(h.trim_start_matches(|c: char| "KLMH".contains(c)), 16).unwrap_or(0);
                        if fw == 32 {
                            return V::I((f64::from_bits(bits as u64) as f32).to_bits() as u64);
                        }
                        return self.mk(fw, bits);
                    }
                    let f: f64 = n.parse().unwrap();
                    return match fw {
                        32 => V::I((f as f32).to_bits() as u64),
                        _ => V::I(f.to_bits()),
                    };
                }
                let v = if let Some(r) = n.strip_prefix('-') {
                    (r.parse::<u128>().unwrap()).wrapping_neg()
                } else {
                    n.parse::<u128>().unwrap_or_else(|_| panic!("num {}", n))
                };
                self.mk(w, v)
            }
            T::G(n) => V::I(self.global_addr(&n).unwrap_or_else(|| panic!("unknown global @{}", n))),
            T::C(b) => V::A(Rc::new(b.iter().map(|&x| V::I(x as u64)).collect())),
            T::W(w) => match w {
                "null" => V::I(0),
                "true" => V::I(1),
                "false" => V::I(0),
                "zeroinitializer" | "none" => self.zero(t),
                "undef" | "poison" => self.undef(t),
                "splat" => {
                    l.expect(b'(');
                    let et = self.parse_ty(l);
                    let v = self.parse_const(l, et);
                    l.expect(b')');
                    match self.m.tys[t as usize] {
                        Ty::Vector(n, _) => V::A(Rc::new(vec![v; n as usize])),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while !l.eat(b'(') {
                        if matches!(l.peek(), T::P(_)) {
                            break;
                        }
                        l.next();
                    }
                    let st = self.parse_ty(l);
                    l.expect(b',');
                    let pt = self.parse_ty(l);
                    let base = self.parse_const(l, pt);
                    let mut addr = self.int_of(&base) as u64;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat(b',') {
                        l.eat_w("inrange");
                        let it = self.parse_ty(l);
                        let iw = self.width(it).unwrap();
                        let c = self.parse_const(l, it);
                        let iv = sext_to(self.int_of(&c), iw) as i64;
                        if first {
                            addr = addr.wrapping_add((iv as u64).wrapping_mul(self.m.sizes[cur as usize].0));
                            first = false;
                        } else {
                            match self.m.tys[cur as usize] {
                                Ty::Struct(..) => {
                                    let (o, f) = self.field_off(cur, iv as usize);
                                    addr = addr.wrapping_add(o);
                                    cur = f;
                                }
                                Ty::Array(_, e) | Ty::Vector(_, e) => {
                                    addr = addr.wrapping_add((iv as u64).wrapping_mul(self.m.sizes[e as usize].0));
                                    cur = e;
                                }
                                _ => panic!("gep const"),
                            }
                        }
                    }
                    l.expect(b')');
                    V::I(addr)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    l.expect(b'(');
                    let ft = self.parse_ty(l);
                    let v = self.parse_const(l, ft);
                    assert!(l.eat_w("to"));
                    let tt = self.parse_ty(l);
                    l.expect(b')');
                    if self.width(tt).is_none() {
                        return v;
                    }
                    let (fw, tw) = (self.width(ft).unwrap(), self.width(tt).unwrap());
                    let x = self.int_of(&v);
                    let x = if w == "sext" { sext_to(x, fw) as u128 } else { x };
                    self.mk(tw, x)
                }
                "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" => {
                    while l.eat_w("nuw") || l.eat_w("nsw") {}
                    l.expect(b'(');
                    let ft = self.parse_ty(l);
                    let a = self.parse_const(l, ft);
                    l.expect(b',');
                    let bt = self.parse_ty(l);
                    let b = self.parse_const(l, bt);
                    l.expect(b')');
                    let wd = self.width(ft).unwrap();
                    let op = match w {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "mul" => Op::Mul,
                        "and" => Op::And,
                        "or" => Op::Or,
                        "xor" => Op::Xor,
                        "shl" => Op::Shl,
                        _ => Op::LShr,
                    };
                    let r = fold(op, wd, self.int_of(&a), self.int_of(&b)).unwrap();
                    self.mk(wd, r)
                }
                _ => panic!("constant {} in {}", w, l.ctx()),
            },
            T::P(b'{') => self.parse_agg(l, b'}'),
            T::P(b'[') => self.parse_agg(l, b']'),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.parse_agg(l, b'}');
                    l.expect(b'>');
                    v
                } else {
                    self.parse_agg(l, b'>')
                }
            }
            o => panic!("constant {:?} in {}", o, l.ctx()),
        }
    }
    fn parse_agg(&mut self, l: &mut Lx, close: u8) -> V {
        let mut vs = Vec::new();
        if !l.eat(close) {
            loop {
                let t = self.parse_ty(l);
                vs.push(self.parse_const(l, t));
                if l.eat(close) {
                    break;
                }
                l.expect(b',');
            }
        }
        V::A(Rc::new(vs))
    }

    fn konst(&mut self, v: V, w: u16) -> O {
        if let V::I(x) = v {
            if let Some(&k) = self.const_memo.get(&(x, w)) {
                return O::K(k);
            }
            self.m.consts.push(v);
            let k = self.m.consts.len() as u32 - 1;
            self.const_memo.insert((x, w), k);
            return O::K(k);
        }
        self.m.consts.push(v);
        O::K(self.m.consts.len() as u32 - 1)
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn val(&mut self, l: &mut Lx, t: TyId) -> O {
        if let T::L(n) = l.peek() {
            l.next();
            return O::R(self.reg(&n));
        }
        let v = self.parse_const(l, t);
        self.konst(v, 0)
    }
    fn tval(&mut self, l: &mut Lx) -> (TyId, O) {
        let t = self.parse_ty(l);
        let v = self.val(l, t);
        (t, v)
    }
    fn label(&mut self, l: &mut Lx) -> u32 {
        assert!(l.eat_w("label"), "{}", l.ctx());
        match l.next() {
            T::L(n) => *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn skip_attrs(&mut self, l: &mut Lx) {
        loop {
            match l.peek() {
                T::W(w) if !is_type_word(w) => {
                    // a value keyword means the attributes have ended
                    if matches!(
                        w,
                        "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "trunc" | "sub" | "add" | "asm" | "bitcast"
                    ) {
                        return;
                    }
                    l.next();
                    if l.peek() == T::P(b'(') {
                        l.skip_parens();
                    } else if w == "align" || w == "addrspace" {
                        l.next();
                    }
                }
                T::Hash => {
                    l.next();
                }
                T::S(_) => {
                    l.next();
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }

    // ------------------------------------------------------------ instructions

    fn parse_call(&mut self, l: &mut Lx, d: u32, invoke: bool) -> Ins {
        // after `call` / `invoke`
        self.skip_attrs(l);
        let ret = self.parse_ty(l);
        if l.peek() == T::P(b'(') {
            // function type: a call through a variadic prototype
            l.skip_parens();
        }
        let callee = match l.next() {
            T::G(n) => {
                let n2 = self.alias.get(&n).cloned().unwrap_or(n);
                match self.m.func_ids.get(&n2) {
                    Some(&f) => Callee::Fn(f),
                    None => return Ins::Unsupported(format!("call to {}", n2)),
                }
            }
            T::L(n) => Callee::Ptr(O::R(self.reg(&n))),
            T::W("asm") => {
                while matches!(l.peek(), T::W(_)) {
                    l.next();
                }
                l.next();
                l.expect(b',');
                l.next();
                Callee::Asm
            }
            t => return Ins::Unsupported(format!("callee {:?}", t)),
        };
        l.expect(b'(');
        let mut args = Vec::new();
        if !l.eat(b')') {
            loop {
                if l.peek() == T::W("metadata") {
                    // debug intrinsics and scopes: ignored with all their arguments
                    return Ins::Nop;
                }
                let t = self.parse_ty(l);
                self.skip_attrs(l);
                args.push(self.val(l, t));
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        let mut next = FALL;
        if invoke {
            while !l.eat_w("to") {
                if l.next() == T::End {
                    panic!("invoke without to: {}", l.ctx());
                }
            }
            next = self.label(l);
        }
        if let Callee::Asm = callee {
            // only the empty barrier of `black_box` is known to be harmless
            return if self.m.tys[ret as usize] == Ty::Void { Ins::Nop } else { Ins::Unsupported("inline asm".into()) };
        }
        if let Callee::Fn(f) = callee {
            let n = &self.m.funcs[f as usize].name;
            if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental") || n.starts_with("llvm.dbg") || n == "llvm.donothing" || n == "llvm.x86.sse2.pause" {
                return Ins::Nop;
            }
        }
        Ins::Call { d, callee, args: args.into(), ret, next }
    }

    fn parse_ins(&mut self, text: &str) -> Ins {
        let mut l = Lx::new(text);
        let l = &mut l;
        let mut d = NOREG;
        if let T::L(n) = l.peek() {
            l.next();
            l.expect(b'=');
            d = self.reg(&n);
        }
        let opw = match l.next() {
            T::W(w) => w,
            t => panic!("instruction {:?} in {}", t, text),
        };
        match opw {
            "tail" | "musttail" | "notail" => {
                assert!(l.eat_w("call"));
                self.parse_call(l, d, false)
            }
            "call" => self.parse_call(l, d, false),
            "invoke" => self.parse_call(l, d, true),
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while l.eat_w("nuw") || l.eat_w("nsw") || l.eat_w("exact") || l.eat_w("disjoint") {}
                let (t, a) = self.tval(l);
                l.expect(b',');
                let b = self.val(l, t);
                let op = match opw {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                match self.width(t) {
                    Some(w) => Ins::Bin { op, w, d, a, b },
                    None => match self.m.tys[t as usize] {
                        Ty::Vector(_, e) => Ins::VBin { op, w: self.width(e).unwrap(), d, a, b },
                        _ => panic!(),
                    },
                }
            }
            "icmp" => {
                l.eat_w("samesign");
                let p = match l.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.tval(l);
                l.expect(b',');
                let b = self.val(l, t);
                match self.width(t) {
                    Some(w) => Ins::Icmp { p, w, d, a, b },
                    None => match self.m.tys[t as usize] {
                        Ty::Vector(_, e) => Ins::VIcmp { p, w: self.width(e).unwrap(), d, a, b },
                        _ => panic!(),
                    },
                }
            }
            "select" => {
                self.skip_attrs(l);
                let (ct, c) = self.tval(l);
                l.expect(b',');
                let (t, a) = self.tval(l);
                l.expect(b',');
                let (_, b) = self.tval(l);
                if self.width(ct).is_none() {
                    let e = match self.m.tys[t as usize] {
                        Ty::Vector(_, e) => e,
                        _ => panic!("select"),
                    };
                    return Ins::VSelect { w: self.width(e).unwrap_or(0), ty: e, d, c, a, b };
                }
                Ins::Select { w: self.width(t).unwrap_or(0), ty: t, d, c, a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while l.eat_w("nneg") || l.eat_w("nuw") || l.eat_w("nsw") {}
                let (ft, a) = self.tval(l);
                assert!(l.eat_w("to"));
                let tt = self.parse_ty(l);
                let mut k = match opw {
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "trunc" => CastK::Trunc,
                    _ => CastK::Bit,
                };
                match (self.width(ft), self.width(tt)) {
                    (Some(fw), Some(tw)) => {
                        if k == CastK::Bit && fw < tw {
                            k = CastK::ZExt;
                        }
                        if k == CastK::Bit && fw > tw {
                            k = CastK::Trunc;
                        }
                        Ins::Cast { k, fw, tw, d, a }
                    }
                    _ => {
                        if opw == "bitcast" {
                            return Ins::Bitcast { from: ft, to: tt, d, a };
                        }
                        let el = |s: &Self, t: TyId| match s.m.tys[t as usize] {
                            Ty::Vector(_, e) => s.width(e).unwrap(),
                            _ => panic!("cast"),
                        };
                        let (fw, tw) = (el(self, ft), el(self, tt));
                        if fw == tw {
                            k = CastK::Bit;
                        }
                        Ins::VCast { k, fw, tw, d, a }
                    }
                }
            }
            "load" => {
                while l.eat_w("atomic") || l.eat_w("volatile") {}
                let t = self.parse_ty(l);
                l.expect(b',');
                let (_, p) = self.tval(l);
                match self.width(t) {
                    Some(w) => Ins::Load { d, p, w, n: ((w + 7) / 8) as u8 },
                    None => Ins::LoadT { d, p, ty: t },
                }
            }
            "store" => {
                while l.eat_w("atomic") || l.eat_w("volatile") {}
                let (t, v) = self.tval(l);
                l.expect(b',');
                let (_, p) = self.tval(l);
                match self.width(t) {
                    Some(w) => Ins::Store { p, v, w, n: ((w + 7) / 8) as u8 },
                    None => Ins::StoreT { p, v, ty: t },
                }
            }
            "getelementptr" => {
                while l.eat_w("inbounds") || l.eat_w("nusw") || l.eat_w("nuw") {}
                let st = self.parse_ty(l);
                l.expect(b',');
                let (pt, base) = self.tval(l);
                let lanes = |s: &Self, t: TyId| match s.m.tys[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => 0,
                };
                let mut n = lanes(self, pt);
                let vbase = n > 0;
                let mut vec_term = Vec::new();
                let mut off = 0i64;
                let mut terms = Vec::new();
                let mut cur = st;
                let mut first = true;
                while l.eat(b',') {
                    if l.peek() == T::Meta {
                        break;
                    }
                    let it = self.parse_ty(l);
                    let (iw, iv) = match self.width(it) {
                        Some(w) => (w, false),
                        None => match self.m.tys[it as usize] {
                            Ty::Vector(_, e) => (self.width(e).unwrap(), true),
                            _ => panic!("gep"),
                        },
                    };
                    n = n.max(lanes(self, it));
                    let o = self.val(l, it);
                    let kv = match o {
                        O::K(k) => match &self.m.consts[k as usize] {
                            V::I(x) => Some(sext_to(*x as u128, iw) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    let (scale, nxt) = if first {
                        first = false;
                        (self.m.sizes[cur as usize].0 as i64, cur)
                    } else {
                        match self.m.tys[cur as usize] {
                            Ty::Struct(..) => {
                                let (o, f) = self.field_off(cur, kv.unwrap() as usize);
                                off += o as i64;
                                cur = f;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (self.m.sizes[e as usize].0 as i64, e),
                            _ => panic!("gep {}", text),
                        }
                    };
                    cur = nxt;
                    match kv {
                        Some(k) => off = off.wrapping_add(k.wrapping_mul(scale)),
                        None => {
                            terms.push((o, iw, scale));
                            vec_term.push(iv);
                        }
                    }
                }
                if n > 0 {
                    let terms: Vec<_> = terms.iter().zip(vec_term).map(|(t, v)| (t.0, t.1, t.2, v)).collect();
                    return Ins::VGep { n, d, base, vbase, off, terms: terms.into() };
                }
                if terms.is_empty() {
                    Ins::Gep0 { d, base, off }
                } else {
                    Ins::Gep { d, base, off, terms: terms.into() }
                }
            }
            "alloca" => {
                l.eat_w("inalloca");
                let t = self.parse_ty(l);
                let mut n = 1u64;
                while l.eat(b',') {
                    if l.eat_w("align") {
                        l.next();
                    } else if l.peek() == T::Meta {
                        break;
                    } else {
                        let (_, o) = self.tval(l);
                        match o {
                            O::K(k) => n = self.int_of(&self.m.consts[k as usize].clone()) as u64,
                            _ => return Ins::Unsupported("dynamic alloca".into()),
                        }
                    }
                }
                Ins::Alloca { d, size: self.m.sizes[t as usize].0 * n }
            }
            "br" => {
                if l.peek() == T::W("label") {
                    return Ins::Br(self.label(l));
                }
                let (_, c) = self.tval(l);
                l.expect(b',');
                let t = self.label(l);
                l.expect(b',');
                let e = self.label(l);
                Ins::CBr { c, t, e }
            }
            "switch" => {
                let (ty, v) = self.tval(l);
                let w = self.width(ty).unwrap();
                l.expect(b',');
                let def = self.label(l);
                l.expect(b'[');
                let mut cases = Vec::new();
                while !l.eat(b']') {
                    let t = self.parse_ty(l);
                    let c = self.parse_const(l, t);
                    l.expect(b',');
                    let b = self.label(l);
                    cases.push((self.int_of(&c) as u64, b));
                }
                if w > 64 {
                    return Ins::Unsupported("wide switch".into());
                }
                Ins::Switch { v, w, def, cases: cases.into() }
            }
            "ret" => {
                let t = self.parse_ty(l);
                if self.m.tys[t as usize] == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let v = self.val(l, t);
                    Ins::Ret(Some(v))
                }
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tval(l);
                let path = self.path(l);
                Ins::ExtractV { d, a, path }
            }
            "insertvalue" => {
                let (_, a) = self.tval(l);
                l.expect(b',');
                let (_, v) = self.tval(l);
                let path = self.path(l);
                Ins::InsertV { d, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.tval(l);
                l.expect(b',');
                let (_, i) = self.tval(l);
                Ins::ExtractE { d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.tval(l);
                l.expect(b',');
                let (_, v) = self.tval(l);
                l.expect(b',');
                let (_, i) = self.tval(l);
                Ins::InsertE { d, a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tval(l);
                l.expect(b',');
                let (_, b) = self.tval(l);
                l.expect(b',');
                let mt = self.parse_ty(l);
                let c = self.parse_const(l, mt);
                let mask = match c {
                    V::A(vs) => vs
                        .iter()
                        .map(|v| match v {
                            V::I(x) => *x as i32,
                            _ => -1,
                        })
                        .collect::<Vec<_>>(),
                    _ => panic!(),
                };
                Ins::Shuffle { d, a, b, mask: mask.into() }
            }
            "atomicrmw" => {
                l.eat_w("volatile");
                let op = match l.next() {
                    T::W("xchg") => Rmw::Xchg,
                    T::W("add") => Rmw::Add,
                    T::W("sub") => Rmw::Sub,
                    T::W("and") => Rmw::And,
                    T::W("or") => Rmw::Or,
                    T::W("xor") => Rmw::Xor,
                    T::W("nand") => Rmw::Nand,
                    T::W("max") => Rmw::Max,
                    T::W("min") => Rmw::Min,
                    T::W("umax") => Rmw::UMax,
                    T::W("umin") => Rmw::UMin,
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.tval(l);
                l.expect(b',');
                let (t, v) = self.tval(l);
                Ins::AtomicRmw { op, w: self.width(t).unwrap(), d, p, v }
            }
            "cmpxchg" => {
                while l.eat_w("weak") || l.eat_w("volatile") {}
                let (_, p) = self.tval(l);
                l.expect(b',');
                let (t, c) = self.tval(l);
                l.expect(b',');
                let (_, n) = self.tval(l);
                Ins::CmpXchg { w: self.width(t).unwrap(), d, p, c, n }
            }
            "fence" => Ins::Nop,
            "freeze" => {
                let (_, a) = self.tval(l);
                Ins::Freeze { d, a }
            }
            _ => Ins::Unsupported(opw.to_string()),
        }
    }
    fn path(&mut self, l: &mut Lx) -> Box<[u32]> {
        let mut p = Vec::new();
        while l.eat(b',') {
            match l.next() {
                T::N(n) => p.push(n.parse().unwrap()),
                _ => break,
            }
        }
        p.into()
    }

    // ------------------------------------------------------------ top level

    fn parse_func(&mut self, fi: usize, header: &str, body: &[String]) {
        self.regs = FxMap::default();
        self.labels = FxMap::default();
        let mut l = Lx::new(header);
        let l = &mut l;
        assert!(l.eat_w("define"));
        self.skip_attrs(l);
        let _ret = self.parse_ty(l);
        l.next(); // name
        l.expect(b'(');
        let mut np = 0u32;
        let mut unnamed = 0u32;
        if !l.eat(b')') {
            loop {
                if l.eat_w("...") {
                    l.expect(b')');
                    break;
                }
                let _t = self.parse_ty(l);
                self.skip_attrs(l);
                let name = if let T::L(n) = l.peek() {
                    l.next();
                    n
                } else {
                    unnamed += 1;
                    (unnamed - 1).to_string()
                };
                if name.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed = unnamed.max(name.parse::<u32>().unwrap() + 1);
                }
                let r = self.reg(&name);
                assert_eq!(r, np);
                np += 1;
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        // split into blocks
        let mut blocks: Vec<(String, Vec<&String>)> = Vec::new();
        for line in body {
            let lb = line.as_bytes();
            if !(lb[0] == b' ') {
                // label
                let mut lx = Lx::new(line);
                let n = lx.name();
                blocks.push((n, Vec::new()));
            } else {
                if blocks.is_empty() {
                    blocks.push((unnamed.to_string(), Vec::new()));
                }
                blocks.last_mut().unwrap().1.push(line);
            }
        }
        for (i, (n, _)) in blocks.iter().enumerate() {
            self.labels.insert(n.clone(), i as u32);
        }
        let mut out = Vec::new();
        for (_, lines) in &blocks {
            let mut b = Block { phis: Vec::new(), ins: Vec::new() };
            for line in lines {
                let t = line.trim_start();
                let mut lx = Lx::new(t);
                // phi?
                if let T::L(n) = lx.next() {
                    if lx.eat(b'=') && lx.eat_w("phi") {
                        let d = self.reg(&n);
                        let ty = self.parse_ty(&mut lx);
                        let mut inc = Vec::new();
                        loop {
                            lx.expect(b'[');
                            let v = self.val(&mut lx, ty);
                            lx.expect(b',');
                            let lab = match lx.next() {
                                T::L(n) => *self.labels.get(&n).unwrap(),
                                t => panic!("{:?}", t),
                            };
                            lx.expect(b']');
                            inc.push((lab, v));
                            if !lx.eat(b',') || lx.peek() == T::Meta {
                                break;
                            }
                        }
                        b.phis.push((d, inc));
                        continue;
                    }
                }
                // Anything this parser doesn't know is an instruction that
                // can't be executed, not the end of the engine.
                let i = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.parse_ins(t))) {
                    Ok(i) => i,
                    Err(_) => Ins::Unsupported(format!("unparsed: {}", t)),
                };
                if !matches!(i, Ins::Nop) {
                    b.ins.push(i);
                }
            }
            out.push(b);
        }
        let f = &mut self.m.funcs[fi];
        f.blocks = out;
        f.nparams = np;
        f.nregs = self.regs.len() as u32;
    }

    fn write_const(&self, out: &mut [u8], t: TyId, v: &V) -> bool {
        match (&self.m.tys[t as usize], v) {
            (_, V::E(_)) => false,
            (Ty::Struct(fs, _), V::A(vs)) => {
                let mut ok = true;
                for (i, v) in vs.iter().enumerate() {
                    let (o, _) = self.field_off(t, i);
                    ok &= self.write_const(&mut out[o as usize..], fs[i], v);
                }
                ok
            }
            (Ty::Array(_, e), V::A(vs)) | (Ty::Vector(_, e), V::A(vs)) => {
                let s = self.m.sizes[*e as usize].0 as usize;
                let mut ok = true;
                for (i, v) in vs.iter().enumerate() {
                    ok &= self.write_const(&mut out[i * s..], *e, v);
                }
                ok
            }
            (_, v) => {
                let n = self.m.sizes[t as usize].0 as usize;
                let x = self.int_of(v);
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
                true
            }
        }
    }
}

pub fn parse(text: &str, ar: &mut Arena) -> Module {
    let mut p = Parser {
        m: Module {
            tys: Vec::new(),
            sizes: Vec::new(),
            globals: Vec::new(),
            granule: Vec::new(),
            funcs: Vec::new(),
            consts: Vec::new(),
            func_ids: FxMap::default(),
        },
        ar,
        ty_ids: FxMap::default(),
        named: FxMap::default(),
        gids: FxMap::default(),
        alias: FxMap::default(),
        const_memo: FxMap::default(),
        gtext: Vec::new(),
        fbodies: Vec::new(),
        regs: FxMap::default(),
        labels: FxMap::default(),
    };
    // pass 1: names
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        match line.as_bytes().first() {
            Some(b'%') => {
                let mut l = Lx::new(line);
                if let T::L(n) = l.next() {
                    l.expect(b'=');
                    assert!(l.eat_w("type"));
                    p.named.insert(n, (l.s[l.i..].to_string(), None));
                }
            }
            Some(b'@') => {
                let mut l = Lx::new(line);
                let n = match l.next() {
                    T::G(n) => n,
                    _ => continue,
                };
                l.expect(b'=');
                let mut external = false;
                let mut weak = false;
                loop {
                    match l.next() {
                        T::W("alias") => {
                            // <ty> (<args>), ptr @target
                            let mut last = None;
                            loop {
                                match l.next() {
                                    T::G(g) => last = Some(g),
                                    T::End => break,
                                    _ => {}
                                }
                            }
                            p.alias.insert(n, last.unwrap());
                            break;
                        }
                        w @ (T::W("global") | T::W("constant")) => {
                            let constant = w == T::W("constant");
                            let gi = p.m.globals.len() as u32;
                            p.gids.insert(n.clone(), gi);
                            p.m.globals.push(Global {
                                name: n,
                                ty: if weak { 1 } else { 0 },
                                addr: 0,
                                size: if external || weak { u64::MAX } else { 0 },
                                constant,
                                data: Vec::new(),
                                undef: false,
                            });
                            p.gtext.push(l.clone());
                            break;
                        }
                        T::W("external") => external = true,
                        T::W("extern_weak") => weak = true,
                        T::End => panic!("global {}", line),
                        T::P(b'(') => {}
                        _ => {}
                    }
                }
            }
            Some(b'd') if line.starts_with("define ") || line.starts_with("declare ") => {
                let def = line.starts_with("define ");
                let mut l = Lx::new(line);
                let name;
                loop {
                    match l.next() {
                        T::G(n) => {
                            name = n;
                            break;
                        }
                        T::End => panic!("{}", line),
                        _ => {}
                    }
                }
                let fi = p.m.funcs.len() as u32;
                p.m.func_ids.insert(name.clone(), fi);
                p.m.funcs.push(Func {
                    name,
                    nparams: 0,
                    nregs: 0,
                    blocks: Vec::new(),
                    external: !def,
                    vararg: line.contains("..."),
                });
                if def {
                    let mut body: Vec<String> = Vec::new();
                    for bl in lines.by_ref() {
                        if bl == "}" {
                            break;
                        }
                        if bl.is_empty() || bl.starts_with(';') {
                            continue;
                        }
                        let t = bl.trim_start();
                        if t.starts_with("#dbg") {
                            continue;
                        }
                        let cont = bl.starts_with("          ")
                            || bl.starts_with("    ")
                            || t.starts_with("] ")
                            || t == "]"
                            || t.starts_with("],");
                        if cont && !body.is_empty() {
                            let last = body.last_mut().unwrap();
                            last.push(' ');
                            last.push_str(t);
                        } else {
                            body.push(bl.to_string());
                        }
                    }
                    p.fbodies.push(Some((line.to_string(), body)));
                } else {
                    p.fbodies.push(None);
                }
            }
            _ => {}
        }
    }
    // resolve chains of aliases
    let keys: Vec<String> = p.alias.keys().cloned().collect();
    for k in keys {
        let mut t = p.alias[&k].clone();
        while let Some(n) = p.alias.get(&t) {
            t = n.clone();
        }
        p.alias.insert(k, t);
    }
    // layout
    let mut addr = GBASE + 64;
    let texts = std::mem::take(&mut p.gtext);
    let mut after = Vec::new();
    for gi in 0..p.m.globals.len() {
        let mut l = texts[gi].clone();
        if p.m.globals[gi].size == u64::MAX && p.m.globals[gi].ty == 1 {
            p.m.globals[gi].size = 0;
            after.push(None);
            continue; // extern_weak: null
        }
        let ext = p.m.globals[gi].size == u64::MAX;
        let ty = p.parse_ty(&mut l);
        let (s, a) = p.m.sizes[ty as usize];
        // explicit alignment
        let mut al = a.max(16);
        if let Some(k) = l.s.rfind(", align ") {
            let n: String = l.s[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
            al = al.max(n.parse().unwrap_or(16));
        }
        addr = (addr + al - 1) / al * al;
        let g = &mut p.m.globals[gi];
        g.ty = ty;
        g.addr = addr;
        g.size = s;
        addr += s + 32;
        after.push(if ext { None } else { Some(l) });
    }
    p.m.granule = vec![0; ((addr - GBASE) >> 4) as usize + 4];
    for (gi, g) in p.m.globals.iter().enumerate() {
        if g.addr != 0 {
            let a = (g.addr - GBASE) >> 4;
            let b = (g.addr - GBASE + g.size.max(1) + 15) >> 4;
            for i in a..b {
                p.m.granule[i as usize] = gi as u32 + 1;
            }
        }
    }
    for gi in 0..p.m.globals.len() {
        if let Some(mut l) = after[gi].take() {
            let ty = p.m.globals[gi].ty;
            let v = p.parse_const(&mut l, ty);
            let mut data = vec![0u8; p.m.globals[gi].size as usize];
            let ok = p.write_const(&mut data, ty, &v);
            p.m.globals[gi].data = data;
            p.m.globals[gi].undef = !ok;
        }
    }
    let bodies = std::mem::take(&mut p.fbodies);
    for (fi, b) in bodies.into_iter().enumerate() {
        if let Some((h, body)) = b {
            p.parse_func(fi, &h, &body);
        }
    }
    p.m
}
