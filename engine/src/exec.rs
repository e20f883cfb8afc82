//! The symbolic interpreter.

use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: u32,
    pub next: u32,
}

#[derive(Clone)]
pub enum Emit {
    Byte(u8),
    Sym(Ex),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub model: Vec<u8>,
    pub nvars: usize,
    pub forced: Option<(Ex, u128)>,
    pub emits: Vec<Rc<Vec<Emit>>>,
    pub steps: u64,
    pub forks: u32,
    pub cover: u128,
    pub tls_next: u64,
    pub tls: Vec<u64>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Viol(String, String), // kind, message
    Dead,                 // infeasible (assume)
    Incomplete(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext {
    None,
    SymU8,
    SymBytes,
    SymChoice,
    SymAssume,
    SymCheck,
    SymEmit,
    SymCover,
    SymLive,
    SymConcrete,
    SymIsSym,
    SymStep,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Getenv,
    Syscall,
    KeyCreate,
    KeySet,
    KeyGet,
    Write,
    Abort,
    Errno,
    RetZero,
    Assume,
    Expect,
    Bswap,
    Bitrev,
    Ctlz,
    Cttz,
    Ctpop,
    Fsh(bool),
    IsConst,
    LoadRel,
    Ovf(Op, bool),
    Sat(Op, bool),
    MinMax(bool, bool), // max, signed
    Abs,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceMinMax(bool, bool),
    Trap,
    TlsAddr,
    PanicFmt,
    PanicNounwind,
    AllocError,
    Objsize,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Counters {
    pub paths: u64,
    pub done: u64,
    pub dead: u64,
    pub viols: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: u64,      // assertion evaluations
    pub sym_checks: u64,  // assertions whose condition was symbolic and went to the solver
    pub sym_branches: u64,
    pub max_vars: u64,
    pub max_steps: u64,
    pub incomplete: u64,
}

pub struct Limits {
    pub max_steps: u64,
    pub conc_limit: u32,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub sv: Solver,
    pub ext: Vec<Ext>,
    pub gslot: Vec<u32>,
    pub work: Vec<State>,
    pub c: Counters,
    pub lim: Limits,
    pub fn_seen: Vec<bool>,
    /// With RSX_PROF set: solver time per call site of a branch.
    pub profile: bool,
    pub prof: std::collections::HashMap<String, (u64, u64)>,
    pub concrete: Option<Vec<u8>>,
    pub errno_addr: u64,
    pub trace: bool,
    pub incompletes: std::collections::BTreeMap<String, u64>,
}

fn viol<T>(k: &str, m: impl Into<String>) -> R<T> {
    Err(Stop::Viol(k.into(), m.into()))
}
fn inc<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Incomplete(m.into()))
}

#[inline]
fn msk(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

pub fn classify(name: &str) -> Ext {
    let with = |p: &str| name.starts_with(p);
    match name {
        "sym_u8" => return Ext::SymU8,
        "sym_bytes" => return Ext::SymBytes,
        "sym_choice" => return Ext::SymChoice,
        "sym_assume" => return Ext::SymAssume,
        "sym_check" => return Ext::SymCheck,
        "sym_emit" => return Ext::SymEmit,
        "sym_cover" => return Ext::SymCover,
        "sym_live" => return Ext::SymLive,
        "sym_concrete" => return Ext::SymConcrete,
        "sym_is_symbolic" => return Ext::SymIsSym,
        "sym_steps" => return Ext::SymStep,
        "malloc" => return Ext::Malloc,
        "calloc" => return Ext::Calloc,
        "realloc" => return Ext::Realloc,
        "free" => return Ext::Free,
        "posix_memalign" => return Ext::Memalign,
        "memcmp" => return Ext::Memcmp,
        "bcmp" => return Ext::Bcmp,
        "memcpy" => return Ext::Memcpy,
        "memmove" => return Ext::Memmove,
        "memset" => return Ext::Memset,
        "strlen" => return Ext::Strlen,
        "getenv" => return Ext::Getenv,
        "syscall" => return Ext::Syscall,
        "pthread_key_create" => return Ext::KeyCreate,
        "pthread_setspecific" => return Ext::KeySet,
        "pthread_getspecific" => return Ext::KeyGet,
        "pthread_key_delete" => return Ext::RetZero,
        "write" => return Ext::Write,
        "abort" => return Ext::Abort,
        "__errno_location" => return Ext::Errno,
        "llvm.assume" => return Ext::Assume,
        "llvm.trap" | "llvm.debugtrap" | "llvm.ubsantrap" => return Ext::Trap,
        _ => {}
    }
    if with("llvm.") {
        let signed = |s: &str| name.starts_with(s);
        return if with("llvm.memcpy") {
            Ext::Memcpy
        } else if with("llvm.memmove") {
            Ext::Memmove
        } else if with("llvm.memset") {
            Ext::Memset
        } else if with("llvm.bswap") {
            Ext::Bswap
        } else if with("llvm.bitreverse") {
            Ext::Bitrev
        } else if with("llvm.ctlz") {
            Ext::Ctlz
        } else if with("llvm.cttz") {
            Ext::Cttz
        } else if with("llvm.ctpop") {
            Ext::Ctpop
        } else if with("llvm.fshl") {
            Ext::Fsh(true)
        } else if with("llvm.fshr") {
            Ext::Fsh(false)
        } else if with("llvm.is.constant") {
            Ext::IsConst
        } else if with("llvm.load.relative") {
            Ext::LoadRel
        } else if name.contains(".with.overflow") {
            let s = signed("llvm.s");
            let o = if name.contains("add.") {
                Op::Add
            } else if name.contains("sub.") {
                Op::Sub
            } else {
                Op::Mul
            };
            Ext::Ovf(o, s)
        } else if with("llvm.uadd.sat") {
            Ext::Sat(Op::Add, false)
        } else if with("llvm.usub.sat") {
            Ext::Sat(Op::Sub, false)
        } else if with("llvm.umax") {
            Ext::MinMax(true, false)
        } else if with("llvm.umin") {
            Ext::MinMax(false, false)
        } else if with("llvm.smax") {
            Ext::MinMax(true, true)
        } else if with("llvm.smin") {
            Ext::MinMax(false, true)
        } else if with("llvm.abs") {
            Ext::Abs
        } else if with("llvm.vector.reduce.add") {
            Ext::ReduceAdd
        } else if with("llvm.vector.reduce.or") {
            Ext::ReduceOr
        } else if with("llvm.vector.reduce.and") {
            Ext::ReduceAnd
        } else if with("llvm.vector.reduce.xor") {
            Ext::ReduceXor
        } else if with("llvm.vector.reduce.umax") {
            Ext::ReduceMinMax(true, false)
        } else if with("llvm.vector.reduce.umin") {
            Ext::ReduceMinMax(false, false)
        } else if with("llvm.vector.reduce.smax") {
            Ext::ReduceMinMax(true, true)
        } else if with("llvm.vector.reduce.smin") {
            Ext::ReduceMinMax(false, true)
        } else if with("llvm.threadlocal.address") || with("llvm.expect") || with("llvm.launder") || with("llvm.strip") {
            Ext::TlsAddr
        } else if with("llvm.objectsize") {
            Ext::Objsize
        } else {
            Ext::Unknown
        };
    }
    Ext::Unknown
}

fn intercept(name: &str) -> Ext {
    // only in functions that are defined
    if name.contains("4core9panicking9panic_fmt17h") {
        Ext::PanicFmt
    } else if name.contains("4core9panicking18panic_nounwind_fmt17h") {
        Ext::PanicNounwind
    } else if name == "rust_begin_unwind" || name.contains("rust_begin_unwind") || name.contains("3std9panicking20rust_panic_with_hook17h") || name.contains("3std9panicking11begin_panic17h") {
        Ext::Abort
    } else if name.contains("5alloc5alloc18handle_alloc_error17h") {
        Ext::AllocError
    } else if name.contains("__rust_abort") || name.contains("3std7process5abort17h") {
        Ext::Abort
    } else {
        Ext::None
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, ar: Arena, rlimit: u32, lim: Limits) -> Engine<'m> {
        let ext = m
            .funcs
            .iter()
            .map(|f| if f.external { classify(&f.name) } else { intercept(&f.name) })
            .collect();
        Engine {
            m,
            ar,
            sv: Solver::new(rlimit),
            ext,
            gslot: vec![u32::MAX; m.globals.len()],
            work: Vec::new(),
            c: Counters::default(),
            lim,
            fn_seen: vec![false; m.funcs.len()],
            profile: std::env::var_os("RSX_PROF").is_some(),
            prof: Default::default(),
            concrete: None,
            errno_addr: 0,
            trace: false,
            incompletes: Default::default(),
        }
    }

    pub fn initial(&mut self, entry: u32) -> State {
        let mut mem = Mem::new();
        for (i, g) in self.m.globals.iter().enumerate() {
            if !g.constant && g.addr != 0 {
                let mut data = g.data.clone();
                data.resize(g.size as usize, 0);
                let id = mem.add(Obj { data, sym: Vec::new(), kind: Kind::Global });
                self.gslot[i] = id as u32;
            }
        }
        self.errno_addr = mem.alloc(8, Kind::Global, Some(0));
        let f = &self.m.funcs[entry as usize];
        assert!(f.nparams == 0, "harness entry points take no parameters");
        self.fn_seen[entry as usize] = true;
        State {
            cur: Frame { f: entry, blk: 0, ip: 0, regs: vec![V::I(0); f.nregs as usize], allocas: Vec::new(), ret: NOREG, next: FALL },
            stack: Vec::new(),
            mem,
            pc: Vec::new(),
            model: Vec::new(),
            nvars: 0,
            forced: None,
            emits: Vec::new(),
            steps: 0,
            forks: 0,
            cover: 0,
            tls_next: 1,
            tls: Vec::new(),
        }
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn val<'a>(&'a self, fr: &'a Frame, o: O) -> &'a V {
        match o {
            O::R(r) => &fr.regs[r as usize],
            O::K(k) => &self.m.consts[k as usize],
        }
    }
    pub fn mkv(&self, w: u16, v: u128) -> V {
        if w <= 64 {
            V::I(v as u64)
        } else {
            V::W(Box::new(v))
        }
    }
    fn from_ex(&self, e: Ex) -> V {
        match self.ar.as_const(e) {
            Some(k) => self.mkv(self.ar.w(e), k),
            None => V::E(e),
        }
    }
    fn to_ex(&mut self, v: &V, w: u16) -> Ex {
        match v {
            V::I(x) => self.ar.cst(w, *x as u128),
            V::W(x) => self.ar.cst(w, **x),
            V::E(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(vs) => {
                // a vector reinterpreted as an integer
                let n = vs.len() as u16;
                let ew = w / n;
                let mut r = self.to_ex(&vs[0].clone(), ew);
                for v in vs[1..].iter() {
                    let e = self.to_ex(&v.clone(), ew);
                    r = self.ar.concat(e, r);
                }
                r
            }
        }
    }

    // ------------------------------------------------------------ decisions

    /// Replaces uninitialised bits by zero after showing that they cannot matter.
    fn settle(&mut self, st: &mut State, e: Ex, what: &str) -> R<Ex> {
        if !self.ar.has_undef(e) {
            return Ok(e);
        }
        let z = self.zero_undef(e);
        let eq = self.ar.eq(e, z);
        let ne = self.ar.not(eq);
        match self.sv.check(&mut self.ar, &st.pc, ne, &st.model) {
            Res::Sat(m) => {
                self.apply(st, m);
                viol("uninit", format!("{} depends on uninitialised memory", what))
            }
            Res::Unsat => Ok(z),
            Res::Unknown => inc("solver gave up on an uninitialised-memory query"),
        }
    }
    fn zero_undef(&mut self, e: Ex) -> Ex {
        if !self.ar.has_undef(e) {
            return e;
        }
        let n = self.ar.n(e);
        match n.op {
            Op::Undef => self.ar.cst(n.w, 0),
            Op::Ite => {
                let a = self.zero_undef(n.a);
                let b = self.zero_undef(n.b);
                let c = self.zero_undef(n.c);
                self.ar.ite(a, b, c)
            }
            Op::ZExt => {
                let a = self.zero_undef(n.a);
                self.ar.zext(a, n.w)
            }
            Op::SExt => {
                let a = self.zero_undef(n.a);
                self.ar.sext(a, n.w)
            }
            Op::Extract => {
                let a = self.zero_undef(n.a);
                self.ar.extract(a, n.k as u16, n.w)
            }
            Op::Concat => {
                let a = self.zero_undef(n.a);
                let b = self.zero_undef(n.b);
                self.ar.concat(a, b)
            }
            op => {
                let a = self.zero_undef(n.a);
                let b = self.zero_undef(n.b);
                self.ar.bin(op, a, b)
            }
        }
    }
    fn apply(&self, st: &mut State, m: Vec<(usize, u8)>) {
        for (i, v) in m {
            st.model[i] = v;
        }
    }
    fn assume(&mut self, st: &mut State, c: Ex) {
        if self.ar.as_const(c).is_none() && !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn fork(&mut self, st: &State, cond: Ex, m: Vec<(usize, u8)>, forced: (Ex, u128)) {
        let mut s = st.clone();
        self.apply(&mut s, m);
        self.assume(&mut s, cond);
        s.forced = Some(forced);
        s.forks += 1;
        self.c.forks += 1;
        self.work.push(s);
    }

    /// Chooses the value of a one-bit condition, forking the other way when it is feasible too.
    pub fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        let c = self.settle(st, c, "a branch")?;
        if let Some(k) = self.ar.as_const(c) {
            return Ok(k == 1);
        }
        if let Some((e, v)) = st.forced {
            if e == c {
                st.forced = None;
                return Ok(v == 1);
            }
        }
        if st.pc.contains(&c) {
            return Ok(true);
        }
        let nc = self.ar.not(c);
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        self.c.sym_branches += 1;
        let b = self.ar.eval(c, &st.model) == 1;
        let (here, other) = if b { (c, nc) } else { (nc, c) };
        let before = self.sv.st.z3_us;
        let verdict = self.sv.check(&mut self.ar, &st.pc, other, &st.model);
        if self.profile {
            let us = self.sv.st.z3_us - before;
            let n = self.stack_names(st);
            let k = n.iter().take(3).cloned().collect::<Vec<_>>().join(" < ");
            if us > 3000 && self.prof.len() < 4000 && std::env::var_os("RSX_SHOW").is_some() {
                eprintln!("SLOW {} {} :: {}", us, k, self.ar.show(c).chars().take(1500).collect::<String>());
            }
            let e = self.prof.entry(k).or_insert((0, 0));
            e.0 += 1;
            e.1 += us;
        }
        match verdict {
            Res::Sat(m) => {
                self.fork(st, other, m, (c, !b as u128));
                self.assume(st, here);
            }
            Res::Unsat => {}
            Res::Unknown => {
                self.note_incomplete("solver gave up on a branch");
            }
        }
        Ok(b)
    }
    fn note_incomplete(&mut self, s: &str) {
        self.c.incomplete += 1;
        *self.incompletes.entry(s.to_string()).or_insert(0) += 1;
    }
    /// Fixes a value, forking for every other feasible value.
    pub fn concretize(&mut self, st: &mut State, e: Ex, what: &str) -> R<u128> {
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k);
        }
        let e = self.settle(st, e, what)?;
        if let Some(k) = self.ar.as_const(e) {
            return Ok(k);
        }
        // a pointer or length chosen between alternatives: decide the choice
        let n = self.ar.n(e);
        if n.op == Op::Ite {
            let b = self.decide(st, n.a)?;
            return self.concretize(st, if b { n.b } else { n.c }, what);
        }
        let v = self.ar.eval(e, &st.model);
        let k = self.ar.cst(self.ar.w(e), v);
        let eq = self.ar.eq(e, k);
        if st.pc.contains(&eq) {
            return Ok(v);
        }
        let ne = self.ar.not(eq);
        self.c.sym_branches += 1;
        match self.sv.check(&mut self.ar, &st.pc, ne, &st.model) {
            Res::Sat(m) => {
                let mut s = st.clone();
                self.apply(&mut s, m);
                self.assume(&mut s, ne);
                s.forced = None;
                s.forks += 1;
                self.c.forks += 1;
                self.work.push(s);
                self.assume(st, eq);
            }
            Res::Unsat => {}
            Res::Unknown => self.note_incomplete("solver gave up on a value"),
        }
        Ok(v)
    }
    fn conc64(&mut self, st: &mut State, v: &V, what: &str) -> R<u64> {
        match v {
            V::I(x) => Ok(*x),
            V::E(e) => Ok(self.concretize(st, *e, what)? as u64),
            _ => inc("unexpected value shape"),
        }
    }

    // ------------------------------------------------------------ memory

    fn load_at(&mut self, st: &State, addr: u64, w: u16, n: u64) -> R<V> {
        let loc = match st.mem.locate(self.m, &self.gslot, addr, n) {
            Ok(l) => l,
            Err(e) => return viol("memory", format!("read: {}", e)),
        };
        match loc {
            Loc::Const(g, off) => Ok(self.raw_load(&self.m.globals[g].data, off, w, n as usize)),
            Loc::Slot(id, off) => {
                let o = st.mem.get(id).unwrap();
                if o.all_concrete(off, n as usize) {
                    return Ok(self.raw_load(&o.data, off, w, n as usize));
                }
                let o = o.clone();
                let e = self.sym_load(&o, off, n as usize);
                let e = if (n as u16 * 8) != w { self.ar.extract(e, 0, w) } else { e };
                Ok(self.from_ex(e))
            }
        }
    }
    #[inline]
    fn raw_load(&self, d: &[u8], off: usize, w: u16, n: usize) -> V {
        if n <= 8 {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&d[off..off + n]);
            V::I(u64::from_le_bytes(b) & msk(w))
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&d[off..off + n]);
            V::W(Box::new(u128::from_le_bytes(b) & mask(w)))
        }
    }
    fn byte_ex(&mut self, o: &Obj, i: usize) -> Ex {
        let s = if o.sym.is_empty() { 0 } else { o.sym[i] };
        match s {
            0 => self.ar.cst(8, o.data[i] as u128),
            1 => self.ar.undef(8),
            e => e,
        }
    }
    fn sym_load(&mut self, o: &Obj, off: usize, n: usize) -> Ex {
        if o.sym[off..off + n].iter().all(|&e| e == 1) {
            return self.ar.undef(n as u16 * 8);
        }
        let mut r = self.byte_ex(o, off);
        for i in 1..n {
            let b = self.byte_ex(o, off + i);
            r = self.ar.concat(b, r);
        }
        r
    }

    pub fn load(&mut self, st: &mut State, p: &V, w: u16, n: u64) -> R<V> {
        match p {
            V::I(a) => self.load_at(st, *a, w, n),
            V::E(e) => {
                let e = self.settle(st, *e, "a load address")?;
                if let Some(k) = self.ar.as_const(e) {
                    return self.load_at(st, k as u64, w, n);
                }
                if w <= 64 {
                    if let Some(v) = self.table_load(st, e, w, n)? {
                        return Ok(v);
                    }
                }
                let a = self.concretize(st, e, "a load address")? as u64;
                self.load_at(st, a, w, n)
            }
            _ => inc("load through an odd pointer"),
        }
    }

    /// A load whose address depends on one input byte: a table lookup, kept symbolic.
    fn table_load(&mut self, st: &mut State, e: Ex, w: u16, n: u64) -> R<Option<V>> {
        let vs = self.ar.vars[e as usize];
        if vs.count_ones() != 1 {
            return Ok(None);
        }
        let var = vs.trailing_zeros() as usize;
        let mut dom: Tt = [u64::MAX; 4];
        let pcs = st.pc.clone();
        let mut multi = false;
        for c in pcs {
            let cv = self.ar.vars[c as usize];
            if cv == vs {
                let t = self.sv.tt(&mut self.ar, c, var);
                for i in 0..4 {
                    dom[i] &= t[i];
                }
            } else if cv & vs != 0 {
                multi = true;
            }
        }
        let mut runs: Vec<(usize, usize, Ex)> = Vec::new(); // lo, hi, value
        let mut m = vec![0u8; var + 1];
        let mut last_addr = None;
        let mut last_val = 0;
        let mut vconst = 0;
        for v in 0..256usize {
            if dom[v >> 6] >> (v & 63) & 1 == 0 {
                continue;
            }
            m[var] = v as u8;
            let a = self.ar.eval(e, &m) as u64;
            let val = if last_addr == Some(a) {
                last_val
            } else {
                match self.load_at(st, a, w, n) {
                    Ok(x) => self.to_ex(&x, w),
                    Err(Stop::Viol(k, msg)) => {
                        // out of bounds for this value: confirm that it is feasible
                        let xv = self.ar.var(var);
                        let kc = self.ar.cst(8, v as u128);
                        let c = self.ar.eq(xv, kc);
                        match self.sv.check(&mut self.ar, &st.pc, c, &st.model) {
                            Res::Sat(mm) => {
                                self.apply(st, mm);
                                return Err(Stop::Viol(k, msg));
                            }
                            Res::Unsat => continue,
                            Res::Unknown => return inc("solver gave up on an address"),
                        }
                    }
                    Err(s) => return Err(s),
                }
            };
            last_addr = Some(a);
            last_val = val;
            match runs.last_mut() {
                Some(r) if r.2 == val => r.1 = v,
                _ => runs.push((v, v, val)),
            }
            vconst += 1;
        }
        if vconst == 0 || (multi && runs.is_empty()) {
            return Err(Stop::Dead);
        }
        if runs.len() > 64 {
            return Ok(None);
        }
        let xv = self.ar.var(var);
        let mut r = runs.last().unwrap().2;
        for &(_, hi, val) in runs[..runs.len() - 1].iter().rev() {
            let k = self.ar.cst(8, hi as u128 + 1);
            let c = self.ar.bin(Op::Ult, xv, k);
            r = self.ar.ite(c, val, r);
        }
        if w >= 32 {
            // lengths and pointers steer everything after: decide them here
            let k = self.concretize(st, r, "a table entry")?;
            r = self.ar.cst(w, k);
        }
        Ok(Some(self.from_ex(r)))
    }

    pub fn store(&mut self, st: &mut State, p: &V, v: &V, w: u16, n: u64) -> R<()> {
        let a = self.conc64(st, p, "a store address")?;
        let loc = match st.mem.locate(self.m, &self.gslot, a, n) {
            Ok(l) => l,
            Err(e) => return viol("memory", format!("write: {}", e)),
        };
        match loc {
            Loc::Const(g, _) => viol("memory", format!("write to constant {}", self.m.globals[g].name)),
            Loc::Slot(id, off) => {
                let n = n as usize;
                match v {
                    V::I(x) => {
                        let o = st.mem.get_mut(id);
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n].fill(0);
                        }
                    }
                    V::W(x) => {
                        let o = st.mem.get_mut(id);
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            o.sym[off..off + n].fill(0);
                        }
                    }
                    v => {
                        let mut e = self.to_ex(v, w);
                        if w as usize != n * 8 {
                            e = self.ar.zext(e, n as u16 * 8);
                        }
                        let mut parts = Vec::with_capacity(n);
                        for i in 0..n {
                            parts.push(self.ar.extract(e, i as u16 * 8, 8));
                        }
                        let o = st.mem.get_mut(id);
                        o.need_sym();
                        for (i, p) in parts.into_iter().enumerate() {
                            match self.ar.as_const(p) {
                                Some(k) => {
                                    o.data[off + i] = k as u8;
                                    o.sym[off + i] = 0;
                                }
                                None => {
                                    o.sym[off + i] = if self.ar.is_undef_leaf(p) { 1 } else { p };
                                }
                            }
                        }
                    }
                }
                Ok(())
            }
        }
    }

    fn field(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.m.tys[t as usize] {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, &f) in fs.iter().enumerate() {
                    let (s, a) = self.m.sizes[f as usize];
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if j == i {
                        return (off, f);
                    }
                    off += s;
                }
                unreachable!()
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (self.m.sizes[*e as usize].0 * i as u64, *e),
            _ => unreachable!(),
        }
    }
    fn nfields(&self, t: TyId) -> Option<usize> {
        match &self.m.tys[t as usize] {
            Ty::Struct(fs, _) => Some(fs.len()),
            Ty::Array(n, _) | Ty::Vector(n, _) => Some(*n as usize),
            _ => None,
        }
    }
    fn scalar_w(&self, t: TyId) -> u16 {
        match self.m.tys[t as usize] {
            Ty::Int(w) | Ty::Float(w) => w,
            Ty::Ptr => 64,
            _ => 0,
        }
    }
    fn load_ty(&mut self, st: &mut State, a: u64, t: TyId) -> R<V> {
        match self.nfields(t) {
            None => {
                let w = self.scalar_w(t);
                if w == 0 {
                    return Ok(V::I(0));
                }
                self.load_at(st, a, w, (w as u64 + 7) / 8)
            }
            Some(k) => {
                let mut vs = Vec::with_capacity(k);
                for i in 0..k {
                    let (o, f) = self.field(t, i);
                    vs.push(self.load_ty(st, a + o, f)?);
                }
                Ok(V::A(Rc::new(vs)))
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: TyId, v: &V) -> R<()> {
        match (self.nfields(t), v) {
            (None, v) => {
                let w = self.scalar_w(t);
                if w == 0 {
                    return Ok(());
                }
                self.store(st, &V::I(a), v, w, (w as u64 + 7) / 8)
            }
            (Some(k), V::A(vs)) => {
                for i in 0..k {
                    let (o, f) = self.field(t, i);
                    self.store_ty(st, a + o, f, &vs[i])?;
                }
                Ok(())
            }
            _ => inc("store of an odd aggregate"),
        }
    }

    fn mem_copy(&mut self, st: &mut State, d: u64, s: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let sl = match st.mem.locate(self.m, &self.gslot, s, n) {
            Ok(l) => l,
            Err(e) => return viol("memory", format!("copy source: {}", e)),
        };
        let dl = match st.mem.locate(self.m, &self.gslot, d, n) {
            Ok(l) => l,
            Err(e) => return viol("memory", format!("copy destination: {}", e)),
        };
        if !overlap_ok && d != s && d < s + n && s < d + n {
            return viol("memory", "copy between overlapping ranges");
        }
        let n = n as usize;
        let (did, doff) = match dl {
            Loc::Slot(i, o) => (i, o),
            Loc::Const(..) => return viol("memory", "copy into a constant"),
        };
        match sl {
            Loc::Const(g, off) => {
                let src = &self.m.globals[g].data[off..off + n];
                let o = st.mem.get_mut(did);
                o.data[doff..doff + n].copy_from_slice(src);
                if !o.sym.is_empty() {
                    o.sym[doff..doff + n].fill(0);
                }
            }
            Loc::Slot(sid, soff) if sid == did => {
                let o = st.mem.get_mut(did);
                o.data.copy_within(soff..soff + n, doff);
                if !o.sym.is_empty() {
                    o.sym.copy_within(soff..soff + n, doff);
                }
            }
            Loc::Slot(sid, soff) => {
                let so = st.mem.get(sid).unwrap().clone();
                let o = st.mem.get_mut(did);
                o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
                if so.all_concrete(soff, n) {
                    if !o.sym.is_empty() {
                        o.sym[doff..doff + n].fill(0);
                    }
                } else {
                    o.need_sym();
                    o.sym[doff..doff + n].copy_from_slice(&so.sym[soff..soff + n]);
                }
            }
        }
        Ok(())
    }

    /// The bytes of a range, as expressions or constants.
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> R<Vec<(u8, Ex)>> {
        if n == 0 {
            return Ok(Vec::new());
        }
        let l = match st.mem.locate(self.m, &self.gslot, a, n) {
            Ok(l) => l,
            Err(e) => return viol("memory", format!("read: {}", e)),
        };
        let n = n as usize;
        Ok(match l {
            Loc::Const(g, off) => self.m.globals[g].data[off..off + n].iter().map(|&b| (b, 0)).collect(),
            Loc::Slot(id, off) => {
                let o = st.mem.get(id).unwrap();
                (off..off + n).map(|i| (o.data[i], if o.sym.is_empty() { 0 } else { o.sym[i] })).collect()
            }
        })
    }
    fn b_ex(&mut self, b: (u8, Ex)) -> Ex {
        match b.1 {
            0 => self.ar.cst(8, b.0 as u128),
            1 => self.ar.undef(8),
            e => e,
        }
    }
    pub fn conc_str(&mut self, st: &State, a: u64, n: u64) -> String {
        match self.bytes(st, a, n.min(4096)) {
            Ok(bs) => {
                let v: Vec<u8> = bs
                    .into_iter()
                    .map(|b| match b.1 {
                        0 => b.0,
                        1 => b'?',
                        e => self.ar.eval(e, &st.model) as u8,
                    })
                    .collect();
                String::from_utf8_lossy(&v).into_owned()
            }
            Err(_) => "<unreadable>".into(),
        }
    }

    // ------------------------------------------------------------ scalar operations

    fn bin(&mut self, op: Op, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                return Ok(V::I(match op {
                    Op::Add => x.wrapping_add(y) & msk(w),
                    Op::Sub => x.wrapping_sub(y) & msk(w),
                    Op::Mul => x.wrapping_mul(y) & msk(w),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & msk(w)
                        }
                    }
                    Op::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => match fold(op, w, x as u128, y as u128) {
                        Some(r) => r as u64,
                        None => return viol("arith", "division by zero"),
                    },
                }));
            }
        }
        let x = self.to_ex(a, w);
        let y = self.to_ex(b, w);
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            if self.ar.as_const(y) == Some(0) {
                return viol("arith", "division by zero");
            }
        }
        let r = self.ar.bin(op, x, y);
        Ok(self.from_ex(r))
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            return V::I(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
            } as u64);
        }
        let x = self.to_ex(a, w);
        let y = self.to_ex(b, w);
        let e = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.from_ex(e)
    }
    fn cast(&mut self, k: CastK, fw: u16, tw: u16, a: &V) -> V {
        match (k, a) {
            (CastK::Bit, v) => v.clone(),
            (CastK::ZExt, V::I(x)) if tw <= 64 => V::I(*x),
            (CastK::Trunc, V::I(x)) => V::I(*x & msk(tw)),
            (CastK::SExt, V::I(x)) if tw <= 64 => V::I(sx(*x, fw) as u64 & msk(tw)),
            (k, v) => {
                let e = self.to_ex(v, fw);
                let r = match k {
                    CastK::ZExt => self.ar.zext(e, tw),
                    CastK::SExt => self.ar.sext(e, tw),
                    CastK::Trunc => self.ar.extract(e, 0, tw),
                    CastK::Bit => e,
                };
                self.from_ex(r)
            }
        }
    }

    // ------------------------------------------------------------ control

    fn goto(&mut self, st: &mut State, to: u32) {
        let m = self.m;
        let f = &m.funcs[st.cur.f as usize];
        let b = &f.blocks[to as usize];
        let from = st.cur.blk;
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = inc.iter().find(|(l, _)| *l == from).expect("phi").1;
                let v = self.val(&st.cur, o).clone();
                st.cur.regs[*d as usize] = v;
            } else {
                let mut vs: Vec<V> = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let o = inc.iter().find(|(l, _)| *l == from).expect("phi").1;
                    vs.push(self.val(&st.cur, o).clone());
                }
                for ((d, _), v) in b.phis.iter().zip(vs) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    fn set(&mut self, st: &mut State, d: u32, v: V) {
        if d != NOREG {
            st.cur.regs[d as usize] = v;
        }
    }

    /// Runs one state until its path ends; forks are pushed on `work`.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.block(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn select(&mut self, st: &mut State, w: u16, ty: TyId, c: V, va: V, vb: V) -> R<V> {
        Ok(match c {
            V::I(x) => {
                if x != 0 {
                    va
                } else {
                    vb
                }
            }
            V::E(e) => {
                let ptr = self.m.tys[ty as usize] == Ty::Ptr;
                if w == 0 || ptr {
                    if self.ar.is_undef_leaf(e) && ptr {
                        V::E(self.ar.undef(64))
                    } else if self.decide(st, e)? {
                        va
                    } else {
                        vb
                    }
                } else {
                    let x = self.to_ex(&va, w);
                    let y = self.to_ex(&vb, w);
                    let r = self.ar.ite(e, x, y);
                    self.from_ex(r)
                }
            }
            _ => return inc("odd select"),
        })
    }

    fn block(&mut self, st: &mut State) -> R<()> {
        let m = self.m;
        let f = &m.funcs[st.cur.f as usize];
        let b = &f.blocks[st.cur.blk as usize];
        let code = &b.ins;
        if st.steps > self.lim.max_steps {
            return viol("nontermination", format!("no result after {} instructions", self.lim.max_steps));
        }
        loop {
            let ins = &code[st.cur.ip as usize];
            st.steps += 1;
            self.c.instrs += 1;
            match ins {
                Ins::Bin { op, w, d, a, b } => {
                    let va = self.val(&st.cur, *a);
                    let vb = self.val(&st.cur, *b);
                    let r = match (va, vb) {
                        (V::I(_), V::I(_)) if *w <= 64 => {
                            let (va, vb) = (va.clone(), vb.clone());
                            self.bin(*op, *w, &va, &vb)?
                        }
                        _ => {
                            let (va, vb) = (va.clone(), vb.clone());
                            if let (Op::UDiv | Op::SDiv | Op::URem | Op::SRem, V::E(y)) = (*op, &vb) {
                                let k = self.concretize(st, *y, "a divisor")?;
                                let kb = self.mkv(*w, k);
                                self.bin(*op, *w, &va, &kb)?
                            } else {
                                self.bin(*op, *w, &va, &vb)?
                            }
                        }
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Icmp { p, w, d, a, b } => {
                    let va = self.val(&st.cur, *a).clone();
                    let vb = self.val(&st.cur, *b).clone();
                    let r = self.icmp(*p, *w, &va, &vb);
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Cast { k, fw, tw, d, a } => {
                    let va = self.val(&st.cur, *a).clone();
                    let r = self.cast(*k, *fw, *tw, &va);
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Load { d, p, w, n } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let r = self.load(st, &pv, *w, *n as u64)?;
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Store { p, v, w, n } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let vv = self.val(&st.cur, *v).clone();
                    self.store(st, &pv, &vv, *w, *n as u64)?;
                }
                Ins::Gep0 { d, base, off } => {
                    let v = self.val(&st.cur, *base).clone();
                    let r = match v {
                        V::I(x) => V::I(x.wrapping_add(*off as u64)),
                        V::E(e) => {
                            let k = self.ar.cst(64, *off as u64 as u128);
                            let r = self.ar.bin(Op::Add, e, k);
                            self.from_ex(r)
                        }
                        _ => return inc("odd gep"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Gep { d, base, off, terms } => {
                    let mut acc = self.val(&st.cur, *base).clone();
                    if *off != 0 {
                        acc = self.bin(Op::Add, 64, &acc, &V::I(*off as u64))?;
                    }
                    for (o, w, scale) in terms.iter() {
                        let v = self.val(&st.cur, *o).clone();
                        let v = if *w < 64 { self.cast(CastK::SExt, *w, 64, &v) } else { v };
                        let t = self.bin(Op::Mul, 64, &v, &V::I(*scale as u64))?;
                        acc = self.bin(Op::Add, 64, &acc, &t)?;
                    }
                    st.cur.regs[*d as usize] = acc;
                }
                Ins::Br(t) => {
                    self.goto(st, *t);
                    return Ok(());
                }
                Ins::CBr { c, t, e } => {
                    let v = self.val(&st.cur, *c);
                    let b = match v {
                        V::I(x) => *x != 0,
                        V::E(x) => {
                            let x = *x;
                            self.decide(st, x)?
                        }
                        _ => return inc("odd branch"),
                    };
                    self.goto(st, if b { *t } else { *e });
                    return Ok(());
                }
                Ins::Switch { v, w, def, cases } => {
                    let val = self.val(&st.cur, *v).clone();
                    let t = match val {
                        V::I(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def),
                        V::E(e) => self.switch(st, e, *w, *def, cases)?,
                        _ => return inc("odd switch"),
                    };
                    self.goto(st, t);
                    return Ok(());
                }
                Ins::Select { w, ty, d, c, a, b } => {
                    let cv = self.val(&st.cur, *c).clone();
                    let va = self.val(&st.cur, *a).clone();
                    let vb = self.val(&st.cur, *b).clone();
                    let r = self.select(st, *w, *ty, cv, va, vb)?;
                    st.cur.regs[*d as usize] = r;
                }
                Ins::VSelect { w, ty, d, c, a, b } => {
                    let cv = self.val(&st.cur, *c).clone();
                    let va = self.val(&st.cur, *a).clone();
                    let vb = self.val(&st.cur, *b).clone();
                    let r = match (cv, va, vb) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let mut o = Vec::with_capacity(c.len());
                            for i in 0..c.len() {
                                o.push(self.select(st, *w, *ty, c[i].clone(), x[i].clone(), y[i].clone())?);
                            }
                            V::A(Rc::new(o))
                        }
                        _ => return inc("odd vector select"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::VGep { n, d, base, vbase, off, terms } => {
                    let lane = |v: V, vec: bool, i: usize| match v {
                        V::A(vs) if vec => Some(vs[i].clone()),
                        v if !vec => Some(v),
                        _ => None,
                    };
                    let mut o = Vec::new();
                    for i in 0..*n as usize {
                        let b = self.val(&st.cur, *base).clone();
                        let mut acc = match lane(b, *vbase, i) {
                            Some(v) => v,
                            None => return inc("odd vector gep"),
                        };
                        if *off != 0 {
                            acc = self.bin(Op::Add, 64, &acc, &V::I(*off as u64))?;
                        }
                        for (x, w, scale, vec) in terms.iter() {
                            let v = self.val(&st.cur, *x).clone();
                            let v = match lane(v, *vec, i) {
                                Some(v) => v,
                                None => return inc("odd vector gep"),
                            };
                            let v = if *w < 64 { self.cast(CastK::SExt, *w, 64, &v) } else { v };
                            let t = self.bin(Op::Mul, 64, &v, &V::I(*scale as u64))?;
                            acc = self.bin(Op::Add, 64, &acc, &t)?;
                        }
                        o.push(acc);
                    }
                    st.cur.regs[*d as usize] = V::A(Rc::new(o));
                }
                Ins::Alloca { d, size } => {
                    let a = st.mem.alloc(*size, Kind::Stack, None);
                    st.cur.allocas.push(((a >> 32) - ID0) as u32);
                    st.cur.regs[*d as usize] = V::I(a);
                }
                Ins::Call { d, callee, args, ret, next } => {
                    let target = match callee {
                        Callee::Fn(f) => *f,
                        Callee::Ptr(o) => {
                            let v = self.val(&st.cur, *o).clone();
                            let a = self.conc64(st, &v, "a call target")?;
                            if a < FBASE + 16 || a >= FBASE + 16 + 16 * m.funcs.len() as u64 || (a & 15) != 0 {
                                return viol("memory", format!("call through an invalid function pointer {:#x}", a));
                            }
                            ((a - FBASE - 16) / 16) as u32
                        }
                        Callee::Asm => return inc("inline asm"),
                    };
                    let x = self.ext[target as usize];
                    if x != Ext::None {
                        let argv: Vec<V> = args.iter().map(|o| self.val(&st.cur, *o).clone()).collect();
                        let r = self.external(st, x, target, &argv, *ret)?;
                        self.set(st, *d, r);
                        if *next != FALL {
                            self.goto(st, *next);
                            return Ok(());
                        }
                    } else {
                        let g = &m.funcs[target as usize];
                        if args.len() != g.nparams as usize {
                            return viol("memory", format!("call of {} with {} arguments", g.name, args.len()));
                        }
                        self.fn_seen[target as usize] = true;
                        let mut regs = Vec::with_capacity(g.nregs as usize);
                        for o in args.iter() {
                            regs.push(self.val(&st.cur, *o).clone());
                        }
                        regs.resize(g.nregs as usize, V::I(0));
                        if st.stack.len() > 2000 {
                            return viol("nontermination", "call depth above 2000");
                        }
                        // resume after the call
                        st.cur.ip += 1;
                        let fr = Frame { f: target, blk: 0, ip: 0, regs, allocas: Vec::new(), ret: *d, next: *next };
                        let old = std::mem::replace(&mut st.cur, fr);
                        st.stack.push(Rc::new(old));
                        return Ok(());
                    }
                }
                Ins::Ret(o) => {
                    let v = match o {
                        Some(o) => self.val(&st.cur, *o).clone(),
                        None => V::I(0),
                    };
                    for &id in &st.cur.allocas {
                        st.mem.release(id as usize);
                    }
                    let caller = match st.stack.pop() {
                        Some(c) => c,
                        None => return Err(Stop::Done),
                    };
                    let (d, next) = (st.cur.ret, st.cur.next);
                    st.cur = Rc::try_unwrap(caller).unwrap_or_else(|r| (*r).clone());
                    self.set(st, d, v);
                    if next != FALL {
                        self.goto(st, next);
                    }
                    return Ok(());
                }
                Ins::Unreachable => return viol("unreachable", "reached code the compiler assumed unreachable"),
                Ins::ExtractV { d, a, path } => {
                    let mut v = self.val(&st.cur, *a).clone();
                    for &i in path.iter() {
                        v = match v {
                            V::A(vs) => vs[i as usize].clone(),
                            _ => return inc("odd extractvalue"),
                        };
                    }
                    st.cur.regs[*d as usize] = v;
                }
                Ins::InsertV { d, a, v, path } => {
                    let agg = self.val(&st.cur, *a).clone();
                    let v = self.val(&st.cur, *v).clone();
                    fn ins(a: V, p: &[u32], v: V) -> Option<V> {
                        if p.is_empty() {
                            return Some(v);
                        }
                        match a {
                            V::A(mut vs) => {
                                let x = vs[p[0] as usize].clone();
                                let y = ins(x, &p[1..], v)?;
                                Rc::make_mut(&mut vs)[p[0] as usize] = y;
                                Some(V::A(vs))
                            }
                            _ => None,
                        }
                    }
                    match ins(agg, path, v) {
                        Some(r) => st.cur.regs[*d as usize] = r,
                        None => return inc("odd insertvalue"),
                    }
                }
                Ins::ExtractE { d, a, i } => {
                    let i = self.val(&st.cur, *i).clone();
                    let i = self.conc64(st, &i, "an index")?;
                    let v = match self.val(&st.cur, *a) {
                        V::A(vs) => vs[i as usize].clone(),
                        _ => return inc("odd extractelement"),
                    };
                    st.cur.regs[*d as usize] = v;
                }
                Ins::InsertE { d, a, v, i } => {
                    let i = self.val(&st.cur, *i).clone();
                    let i = self.conc64(st, &i, "an index")?;
                    let v = self.val(&st.cur, *v).clone();
                    let r = match self.val(&st.cur, *a).clone() {
                        V::A(mut vs) => {
                            Rc::make_mut(&mut vs)[i as usize] = v;
                            V::A(vs)
                        }
                        _ => return inc("odd insertelement"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Shuffle { d, a, b, mask } => {
                    let r = match (self.val(&st.cur, *a), self.val(&st.cur, *b)) {
                        (V::A(x), V::A(y)) => V::A(Rc::new(
                            mask.iter()
                                .map(|&i| if i < 0 { V::I(0) } else if (i as usize) < x.len() { x[i as usize].clone() } else { y[i as usize - x.len()].clone() })
                                .collect(),
                        )),
                        _ => return inc("odd shuffle"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::VBin { op, w, d, a, b } => {
                    let (x, y) = (self.val(&st.cur, *a).clone(), self.val(&st.cur, *b).clone());
                    let r = match (x, y) {
                        (V::A(x), V::A(y)) => {
                            let mut o = Vec::with_capacity(x.len());
                            for (p, q) in x.iter().zip(y.iter()) {
                                o.push(self.bin(*op, *w, p, q)?);
                            }
                            V::A(Rc::new(o))
                        }
                        _ => return inc("odd vector op"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::VIcmp { p, w, d, a, b } => {
                    let (x, y) = (self.val(&st.cur, *a).clone(), self.val(&st.cur, *b).clone());
                    let r = match (x, y) {
                        (V::A(x), V::A(y)) => {
                            let mut o = Vec::with_capacity(x.len());
                            for (s, q) in x.iter().zip(y.iter()) {
                                o.push(self.icmp(*p, *w, s, q));
                            }
                            V::A(Rc::new(o))
                        }
                        _ => return inc("odd vector op"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::VCast { k, fw, tw, d, a } => {
                    let x = self.val(&st.cur, *a).clone();
                    let r = match x {
                        V::A(x) => {
                            let mut o = Vec::with_capacity(x.len());
                            for p in x.iter() {
                                o.push(self.cast(*k, *fw, *tw, p));
                            }
                            V::A(Rc::new(o))
                        }
                        _ => return inc("odd vector op"),
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Bitcast { from, to, d, a } => {
                    let x = self.val(&st.cur, *a).clone();
                    let bits = |s: &Self, t: TyId| match s.m.tys[t as usize] {
                        Ty::Vector(n, e) => (n as u16, s.scalar_w(e)),
                        _ => (1, s.scalar_w(t)),
                    };
                    let (fnn, fe) = bits(self, *from);
                    let (tn, te) = bits(self, *to);
                    if fnn * fe > 128 {
                        // In pieces of the wider of the two element types.
                        let r = match &x {
                            V::A(vs) if fe >= te && te > 0 && fe % te == 0 => {
                                let mut o = Vec::new();
                                for v in vs.iter() {
                                    let e = self.to_ex(v, fe);
                                    for i in 0..fe / te {
                                        let p = self.ar.extract(e, i * te, te);
                                        o.push(self.from_ex(p));
                                    }
                                }
                                V::A(Rc::new(o))
                            }
                            V::A(vs) if fe > 0 && te % fe == 0 && te <= 128 => {
                                let mut o = Vec::new();
                                for g in vs.chunks((te / fe) as usize) {
                                    let e = self.to_ex(&V::A(Rc::new(g.to_vec())), te);
                                    o.push(self.from_ex(e));
                                }
                                V::A(Rc::new(o))
                            }
                            _ => return inc("wide bitcast"),
                        };
                        st.cur.regs[*d as usize] = r;
                        st.cur.ip += 1;
                        continue;
                    }
                    let e = self.to_ex(&x, fnn * fe);
                    let r = if matches!(self.m.tys[*to as usize], Ty::Vector(..)) {
                        let mut o = Vec::new();
                        for i in 0..tn {
                            let p = self.ar.extract(e, i * te, te);
                            o.push(self.from_ex(p));
                        }
                        V::A(Rc::new(o))
                    } else {
                        self.from_ex(e)
                    };
                    st.cur.regs[*d as usize] = r;
                }
                Ins::LoadT { d, p, ty } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let a = self.conc64(st, &pv, "a load address")?;
                    let r = self.load_ty(st, a, *ty)?;
                    st.cur.regs[*d as usize] = r;
                }
                Ins::StoreT { p, v, ty } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let vv = self.val(&st.cur, *v).clone();
                    let a = self.conc64(st, &pv, "a store address")?;
                    self.store_ty(st, a, *ty, &vv)?;
                }
                Ins::AtomicRmw { op, w, d, p, v } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let vv = self.val(&st.cur, *v).clone();
                    let n = (*w as u64 + 7) / 8;
                    let a = self.conc64(st, &pv, "an atomic address")?;
                    let old = self.load_at(st, a, *w, n)?;
                    let new = match op {
                        Rmw::Xchg => vv,
                        Rmw::Add => self.bin(Op::Add, *w, &old, &vv)?,
                        Rmw::Sub => self.bin(Op::Sub, *w, &old, &vv)?,
                        Rmw::And => self.bin(Op::And, *w, &old, &vv)?,
                        Rmw::Or => self.bin(Op::Or, *w, &old, &vv)?,
                        Rmw::Xor => self.bin(Op::Xor, *w, &old, &vv)?,
                        _ => return inc("atomicrmw"),
                    };
                    self.store(st, &V::I(a), &new, *w, n)?;
                    st.cur.regs[*d as usize] = old;
                }
                Ins::CmpXchg { w, d, p, c, n } => {
                    let pv = self.val(&st.cur, *p).clone();
                    let cv = self.val(&st.cur, *c).clone();
                    let nv = self.val(&st.cur, *n).clone();
                    let sz = (*w as u64 + 7) / 8;
                    let a = self.conc64(st, &pv, "an atomic address")?;
                    let old = self.load_at(st, a, *w, sz)?;
                    let ok = match self.icmp(Pred::Eq, *w, &old, &cv) {
                        V::I(x) => x == 1,
                        V::E(e) => self.decide(st, e)?,
                        _ => return inc("cmpxchg"),
                    };
                    if ok {
                        self.store(st, &V::I(a), &nv, *w, sz)?;
                    }
                    st.cur.regs[*d as usize] = V::A(Rc::new(vec![old, V::I(ok as u64)]));
                }
                Ins::Freeze { d, a } => {
                    let v = self.val(&st.cur, *a).clone();
                    let r = self.freeze(&v);
                    st.cur.regs[*d as usize] = r;
                }
                Ins::Nop => {}
                Ins::Unsupported(s) => return inc(format!("unsupported instruction: {}", s)),
            }
            st.cur.ip += 1;
        }
    }

    fn freeze(&mut self, v: &V) -> V {
        match v {
            V::E(e) => {
                let z = self.zero_undef(*e);
                self.from_ex(z)
            }
            V::A(vs) => {
                let mut o = Vec::new();
                for v in vs.iter() {
                    o.push(self.freeze(v));
                }
                V::A(Rc::new(o))
            }
            v => v.clone(),
        }
    }

    fn switch(&mut self, st: &mut State, e: Ex, w: u16, def: u32, cases: &[(u64, u32)]) -> R<u32> {
        let e = self.settle(st, e, "a switch")?;
        if let Some(k) = self.ar.as_const(e) {
            return Ok(cases.iter().find(|c| c.0 as u128 == k).map(|c| c.1).unwrap_or(def));
        }
        if let Some((x, t)) = st.forced {
            if x == e {
                st.forced = None;
                return Ok(t as u32);
            }
        }
        self.c.sym_branches += 1;
        let v = self.ar.eval(e, &st.model) as u64;
        let here = cases.iter().find(|c| c.0 == v).map(|c| c.1).unwrap_or(def);
        // group the case values by target
        let mut groups: Vec<(u32, Ex)> = Vec::new();
        let mut any = self.ar.bool_c(false);
        for &(k, t) in cases {
            let kc = self.ar.cst(w, k as u128);
            let q = self.ar.eq(e, kc);
            any = self.ar.or1(any, q);
            match groups.iter_mut().find(|g| g.0 == t) {
                Some(g) => g.1 = self.ar.or1(g.1, q),
                None => groups.push((t, q)),
            }
        }
        let nd = self.ar.not(any);
        match groups.iter_mut().find(|g| g.0 == def) {
            Some(g) => g.1 = self.ar.or1(g.1, nd),
            None => groups.push((def, nd)),
        }
        let mut mine = 0;
        for (t, c) in groups {
            if t == here {
                mine = c;
                continue;
            }
            match self.sv.check(&mut self.ar, &st.pc, c, &st.model) {
                Res::Sat(m) => self.fork(st, c, m, (e, t as u128)),
                Res::Unsat => {}
                Res::Unknown => self.note_incomplete("solver gave up on a switch"),
            }
        }
        self.assume(st, mine);
        Ok(here)
    }

    // ------------------------------------------------------------ environment

    fn new_var(&mut self, st: &mut State) -> R<V> {
        let i = st.nvars;
        st.nvars += 1;
        if let Some(c) = &self.concrete {
            let b = c.get(i).copied().unwrap_or(0);
            st.model.push(b);
            return Ok(V::I(b as u64));
        }
        if i >= MAX_VARS {
            return inc("more than 126 symbolic bytes on one path");
        }
        st.model.push(b'a');
        Ok(V::E(self.ar.var(i)))
    }

    fn locate_panic(&mut self, st: &mut State, loc: &V) -> String {
        // &'static Location { file: &str, line: u32, col: u32 }
        let a = match loc {
            V::I(a) => *a,
            _ => return "?".into(),
        };
        let rd = |s: &mut Self, st: &State, o: u64, w: u16| match s.load_at(st, a + o, w, w as u64 / 8) {
            Ok(V::I(x)) => x,
            _ => 0,
        };
        let p = rd(self, st, 0, 64);
        let n = rd(self, st, 8, 64);
        let line = rd(self, st, 16, 32);
        let col = rd(self, st, 20, 32);
        let f = self.conc_str(st, p, n);
        format!("{}:{}:{}", f, line, col)
    }
    fn panic_text(&mut self, st: &mut State, args: &V) -> String {
        let a = match args {
            V::I(a) => *a,
            _ => return "?".into(),
        };
        let rd = |s: &mut Self, st: &State, a: u64| match s.load_at(st, a, 64, 8) {
            Ok(V::I(x)) => x,
            _ => 0,
        };
        let p = rd(self, st, a);
        let n = rd(self, st, a + 8);
        let mut s = String::new();
        for i in 0..n.min(8) {
            let q = rd(self, st, p + 16 * i);
            let l = rd(self, st, p + 16 * i + 8);
            if i > 0 {
                s.push_str("{}");
            }
            s.push_str(&self.conc_str(st, q, l.min(300)));
        }
        s
    }

    fn external(&mut self, st: &mut State, x: Ext, target: u32, a: &[V], ret: TyId) -> R<V> {
        let zero = V::I(0);
        if let Ty::Vector(n, e) = self.m.tys[ret as usize] {
            let lanewise = matches!(
                x,
                Ext::Bswap | Ext::Bitrev | Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Sat(..) | Ext::MinMax(..) | Ext::Abs
            );
            if lanewise {
                let mut o = Vec::new();
                for i in 0..n as usize {
                    let l: Vec<V> = a
                        .iter()
                        .map(|v| match v {
                            V::A(vs) => vs[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(self.external(st, x, target, &l, e)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        match x {
            Ext::SymU8 => self.new_var(st),
            Ext::SymBytes => {
                let p = self.conc64(st, &a[0], "sym_bytes")?;
                let n = self.conc64(st, &a[1], "sym_bytes")?;
                for i in 0..n {
                    let v = self.new_var(st)?;
                    self.store(st, &V::I(p + i), &v, 8, 1)?;
                }
                Ok(zero)
            }
            Ext::SymChoice => {
                let n = self.conc64(st, &a[0], "sym_choice")?;
                assert!(n >= 1 && n <= 256);
                if let Some(_) = self.concrete {
                    let v = self.new_var(st)?;
                    return match v {
                        V::I(x) if x < n => Ok(V::I(x)),
                        _ => Err(Stop::Dead),
                    };
                }
                let i = st.nvars;
                if i >= MAX_VARS {
                    return inc("more than 126 symbolic bytes on one path");
                }
                let e = self.ar.var(i);
                st.nvars += 1;
                // continue with 0 and fork the rest
                for k in (1..n).rev() {
                    let mut s = st.clone();
                    let kc = self.ar.cst(8, k as u128);
                    let c = self.ar.eq(e, kc);
                    s.model.push(k as u8);
                    self.assume(&mut s, c);
                    s.forks += 1;
                    self.c.forks += 1;
                    // finish the call in the forked state
                    self.finish_call(&mut s, V::I(k));
                    self.work.push(s);
                }
                st.model.push(0);
                let kc = self.ar.cst(8, 0);
                let c = self.ar.eq(e, kc);
                self.assume(st, c);
                Ok(zero)
            }
            Ext::SymAssume => match &a[0] {
                V::I(x) => {
                    if x & 1 == 1 {
                        Ok(zero)
                    } else {
                        Err(Stop::Dead)
                    }
                }
                V::E(e) => {
                    let e = self.settle(st, *e, "an assumption")?;
                    let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                    if self.ar.as_const(e) == Some(0) {
                        return Err(Stop::Dead);
                    }
                    if self.ar.eval(e, &st.model) != 1 {
                        match self.sv.check(&mut self.ar, &st.pc, e, &st.model) {
                            Res::Sat(m) => self.apply(st, m),
                            Res::Unsat => return Err(Stop::Dead),
                            Res::Unknown => return inc("solver gave up on an assumption"),
                        }
                    }
                    self.assume(st, e);
                    Ok(zero)
                }
                _ => inc("odd assumption"),
            },
            Ext::SymCheck => {
                self.c.checks += 1;
                let p = self.conc64(st, &a[1], "sym_check")?;
                let n = self.conc64(st, &a[2], "sym_check")?;
                match &a[0] {
                    V::I(x) => {
                        if x & 1 == 1 {
                            Ok(zero)
                        } else {
                            let s = self.conc_str(st, p, n);
                            viol("check", s)
                        }
                    }
                    V::E(e) => {
                        let e = self.settle(st, *e, "an assertion")?;
                        let e = if self.ar.w(e) > 1 { self.ar.extract(e, 0, 1) } else { e };
                        self.c.sym_checks += 1;
                        let ne = self.ar.not(e);
                        match self.sv.check(&mut self.ar, &st.pc, ne, &st.model) {
                            Res::Sat(m) => {
                                self.apply(st, m);
                                let s = self.conc_str(st, p, n);
                                viol("check", s)
                            }
                            Res::Unsat => Ok(zero),
                            Res::Unknown => inc("solver gave up on an assertion"),
                        }
                    }
                    _ => inc("odd check"),
                }
            }
            Ext::SymEmit => {
                let p = self.conc64(st, &a[0], "sym_emit")?;
                let n = self.conc64(st, &a[1], "sym_emit")?;
                let bs = self.bytes(st, p, n)?;
                let mut out = Vec::with_capacity(bs.len());
                for b in bs {
                    match b.1 {
                        0 => out.push(Emit::Byte(b.0)),
                        1 => return viol("uninit", "output contains uninitialised memory"),
                        e => {
                            let e = self.settle(st, e, "output")?;
                            out.push(Emit::Sym(e));
                        }
                    }
                }
                st.emits.push(Rc::new(out));
                Ok(zero)
            }
            Ext::SymCover => {
                let i = self.conc64(st, &a[0], "sym_cover")?;
                st.cover |= 1u128 << (i & 127);
                Ok(zero)
            }
            Ext::SymLive => Ok(V::I(st.mem.heap_live)),
            Ext::SymStep => Ok(V::I(st.steps)),
            Ext::SymConcrete => match &a[0] {
                V::E(e) => {
                    let e = *e;
                    Ok(V::I(self.concretize(st, e, "sym_concrete")? as u64))
                }
                v => Ok(v.clone()),
            },
            Ext::SymIsSym => Ok(V::I(matches!(a[0], V::E(_)) as u64)),
            Ext::Malloc | Ext::Calloc => {
                let mut n = self.conc64(st, &a[0], "an allocation size")?;
                if x == Ext::Calloc {
                    n = n.saturating_mul(self.conc64(st, &a[1], "an allocation size")?);
                }
                if n > 1 << 26 {
                    return viol("resource", format!("allocation of {} bytes", n));
                }
                Ok(V::I(st.mem.alloc(n, Kind::Heap, if x == Ext::Calloc { Some(0) } else { None })))
            }
            Ext::Memalign => {
                let p = self.conc64(st, &a[0], "posix_memalign")?;
                let n = self.conc64(st, &a[2], "an allocation size")?;
                if n > 1 << 26 {
                    return viol("resource", format!("allocation of {} bytes", n));
                }
                let r = st.mem.alloc(n, Kind::Heap, None);
                self.store(st, &V::I(p), &V::I(r), 64, 8)?;
                Ok(zero)
            }
            Ext::Realloc => {
                let p = self.conc64(st, &a[0], "realloc")?;
                let n = self.conc64(st, &a[1], "an allocation size")?;
                if n > 1 << 26 {
                    return viol("resource", format!("allocation of {} bytes", n));
                }
                let id = self.heap_obj(st, p, "realloc")?;
                let old = st.mem.get(id).unwrap().data.len() as u64;
                let q = st.mem.alloc(n, Kind::Heap, None);
                self.mem_copy(st, q, p, old.min(n), false)?;
                st.mem.release(id);
                Ok(V::I(q))
            }
            Ext::Free => {
                let p = self.conc64(st, &a[0], "free")?;
                if p != 0 {
                    let id = self.heap_obj(st, p, "free")?;
                    st.mem.release(id);
                }
                Ok(zero)
            }
            Ext::Memcpy | Ext::Memmove => {
                let n = self.conc64(st, &a[2], "a copy length")?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc64(st, &a[0], "a copy address")?;
                let s = self.conc64(st, &a[1], "a copy address")?;
                self.mem_copy(st, d, s, n, x == Ext::Memmove)?;
                Ok(V::I(d))
            }
            Ext::Memset => {
                let n = self.conc64(st, &a[2], "a fill length")?;
                if n == 0 {
                    return Ok(a[0].clone());
                }
                let d = self.conc64(st, &a[0], "a fill address")?;
                let v = self.cast_to8(&a[1]);
                match st.mem.locate(self.m, &self.gslot, d, n) {
                    Ok(Loc::Slot(id, off)) => {
                        let n = n as usize;
                        match v {
                            V::I(b) => {
                                let o = st.mem.get_mut(id);
                                o.data[off..off + n].fill(b as u8);
                                if !o.sym.is_empty() {
                                    o.sym[off..off + n].fill(0);
                                }
                            }
                            V::E(e) => {
                                let o = st.mem.get_mut(id);
                                o.need_sym();
                                o.sym[off..off + n].fill(if self.ar.is_undef_leaf(e) { 1 } else { e });
                            }
                            _ => return inc("odd memset"),
                        }
                    }
                    Ok(_) => return viol("memory", "fill of a constant"),
                    Err(e) => return viol("memory", format!("fill: {}", e)),
                }
                Ok(V::I(d))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = self.conc64(st, &a[2], "a comparison length")?;
                if n == 0 {
                    return Ok(zero);
                }
                let p = self.conc64(st, &a[0], "a comparison address")?;
                let q = self.conc64(st, &a[1], "a comparison address")?;
                let x1 = self.bytes(st, p, n)?;
                let y1 = self.bytes(st, q, n)?;
                if x1.iter().chain(y1.iter()).all(|b| b.1 == 0) {
                    for (u, v) in x1.iter().zip(y1.iter()) {
                        if u.0 != v.0 {
                            return Ok(V::I(if u.0 < v.0 { 0xffff_ffff } else { 1 }));
                        }
                    }
                    return Ok(zero);
                }
                if x == Ext::Bcmp {
                    let mut r = self.ar.bool_c(true);
                    for (u, v) in x1.into_iter().zip(y1) {
                        if u.1 == 0 && v.1 == 0 && u.0 != v.0 {
                            return Ok(V::I(1));
                        }
                        let (e, f) = (self.b_ex(u), self.b_ex(v));
                        let q = self.ar.eq(e, f);
                        r = self.ar.and1(r, q);
                    }
                    let nr = self.ar.not(r);
                    let r = self.ar.zext(nr, 32);
                    return Ok(self.from_ex(r));
                }
                let mut r = self.ar.cst(32, 0);
                let (lt, gt) = (self.ar.cst(32, 0xffff_ffff), self.ar.cst(32, 1));
                for (u, v) in x1.into_iter().zip(y1).rev() {
                    let (e, f) = (self.b_ex(u), self.b_ex(v));
                    let q = self.ar.eq(e, f);
                    let l = self.ar.bin(Op::Ult, e, f);
                    let ne = self.ar.ite(l, lt, gt);
                    r = self.ar.ite(q, r, ne);
                }
                Ok(self.from_ex(r))
            }
            Ext::Strlen => {
                let mut p = self.conc64(st, &a[0], "strlen")?;
                let p0 = p;
                loop {
                    match self.load_at(st, p, 8, 1)? {
                        V::I(0) => return Ok(V::I(p - p0)),
                        V::I(_) => p += 1,
                        _ => return inc("symbolic C string"),
                    }
                }
            }
            Ext::Getenv => Ok(zero),
            Ext::RetZero => Ok(zero),
            Ext::Syscall => {
                let k = self.conc64(st, &a[0], "syscall")?;
                if k == 318 {
                    // getrandom: fixed hash seeds
                    let p = self.conc64(st, &a[1], "syscall")?;
                    let n = self.conc64(st, &a[2], "syscall")?;
                    for i in 0..n {
                        self.store(st, &V::I(p + i), &V::I(0x5a), 8, 1)?;
                    }
                    return Ok(V::I(n));
                }
                inc(format!("system call {}", k))
            }
            Ext::KeyCreate => {
                let p = self.conc64(st, &a[0], "pthread_key_create")?;
                let k = st.tls_next;
                st.tls_next += 1;
                self.store(st, &V::I(p), &V::I(k), 32, 4)?;
                Ok(zero)
            }
            Ext::KeySet => {
                let k = self.conc64(st, &a[0], "pthread_setspecific")? as usize;
                let v = self.conc64(st, &a[1], "pthread_setspecific")?;
                if st.tls.len() <= k {
                    st.tls.resize(k + 1, 0);
                }
                st.tls[k] = v;
                Ok(zero)
            }
            Ext::KeyGet => {
                let k = self.conc64(st, &a[0], "pthread_getspecific")? as usize;
                Ok(V::I(st.tls.get(k).copied().unwrap_or(0)))
            }
            Ext::Write => {
                let n = self.conc64(st, &a[2], "write")?;
                if self.concrete.is_some() {
                    let p = self.conc64(st, &a[1], "write")?;
                    let s = self.conc_str(st, p, n);
                    eprint!("{}", s);
                }
                Ok(V::I(n))
            }
            Ext::Abort => viol("abort", "process abort"),
            Ext::AllocError => viol("resource", "allocation error"),
            Ext::Trap => viol("trap", "trap instruction"),
            Ext::Errno => Ok(V::I(self.errno_addr)),
            Ext::PanicFmt | Ext::PanicNounwind => {
                let loc = a.last().cloned().unwrap_or(V::I(0));
                let l = self.locate_panic(st, &loc);
                let t = self.panic_text(st, &a[0]);
                if x == Ext::PanicNounwind && t.contains("unsafe precondition") {
                    return viol("memory", format!("{} at {}", t, l));
                }
                viol("panic", format!("{} at {}", t, l))
            }
            Ext::Assume => {
                if a.is_empty() {
                    return Ok(zero);
                }
                match &a[0] {
                    V::I(x) => {
                        if x & 1 == 1 {
                            Ok(zero)
                        } else {
                            viol("unreachable", "compiler assumption is false")
                        }
                    }
                    V::E(e) => {
                        let b = self.decide(st, *e)?;
                        if b {
                            Ok(zero)
                        } else {
                            viol("unreachable", "compiler assumption is false")
                        }
                    }
                    _ => Ok(zero),
                }
            }
            Ext::Expect | Ext::TlsAddr => Ok(a[0].clone()),
            Ext::IsConst => Ok(zero),
            Ext::Objsize => Ok(V::I(u64::MAX)),
            Ext::LoadRel => {
                let p = self.conc64(st, &a[0], "load.relative")?;
                let off = match &a[1] {
                    V::I(x) => V::I(p.wrapping_add(*x)),
                    V::E(e) => {
                        let k = self.ar.cst(64, p as u128);
                        V::E(self.ar.bin(Op::Add, *e, k))
                    }
                    _ => return inc("load.relative"),
                };
                let v = self.load(st, &off, 32, 4)?;
                let v = self.conc64(st, &v, "load.relative")?;
                Ok(V::I(p.wrapping_add(sx(v, 32) as u64)))
            }
            Ext::Bswap | Ext::Bitrev | Ext::Ctlz | Ext::Cttz | Ext::Ctpop => {
                let w = self.scalar_w(ret);
                if w == 0 {
                    return inc("vector intrinsic");
                }
                let e = self.to_ex(&a[0], w);
                let r = match x {
                    Ext::Bswap => {
                        let mut r = self.ar.extract(e, 0, 8);
                        for i in 1..w / 8 {
                            let b = self.ar.extract(e, i * 8, 8);
                            r = self.ar.concat(r, b);
                        }
                        r
                    }
                    Ext::Bitrev => {
                        let mut r = self.ar.extract(e, 0, 1);
                        for i in 1..w {
                            let b = self.ar.extract(e, i, 1);
                            r = self.ar.concat(r, b);
                        }
                        r
                    }
                    Ext::Ctpop => {
                        let mut r = self.ar.cst(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(e, i, 1);
                            let z = self.ar.zext(b, w);
                            r = self.ar.bin(Op::Add, r, z);
                        }
                        r
                    }
                    Ext::Ctlz => {
                        let mut r = self.ar.cst(w, w as u128);
                        for i in 0..w {
                            let b = self.ar.extract(e, i, 1);
                            let k = self.ar.cst(w, (w - 1 - i) as u128);
                            r = self.ar.ite(b, k, r);
                        }
                        r
                    }
                    _ => {
                        let mut r = self.ar.cst(w, w as u128);
                        for i in (0..w).rev() {
                            let b = self.ar.extract(e, i, 1);
                            let k = self.ar.cst(w, i as u128);
                            r = self.ar.ite(b, k, r);
                        }
                        r
                    }
                };
                if matches!(x, Ext::Ctlz | Ext::Cttz) && self.ar.as_const(r).is_none() {
                    // these feed lengths and shifts: decide them here
                    let k = self.concretize(st, r, "a bit count")?;
                    return Ok(if w <= 64 { V::I(k as u64) } else { V::W(Box::new(k)) });
                }
                Ok(self.from_ex(r))
            }
            Ext::Fsh(left) => {
                let w = self.scalar_w(ret);
                let s = self.conc64(st, &a[2], "a shift")? % w as u64;
                let (hi, lo) = (self.to_ex(&a[0], w), self.to_ex(&a[1], w));
                let s = s as u16;
                let r = if left {
                    if s == 0 {
                        hi
                    } else {
                        let h = self.ar.extract(hi, 0, w - s);
                        let l = self.ar.extract(lo, w - s, s);
                        self.ar.concat(h, l)
                    }
                } else if s == 0 {
                    lo
                } else {
                    let h = self.ar.extract(hi, 0, s);
                    let l = self.ar.extract(lo, s, w - s);
                    self.ar.concat(h, l)
                };
                Ok(self.from_ex(r))
            }
            Ext::Ovf(op, signed) => {
                let (ew, _) = match &self.m.tys[ret as usize] {
                    Ty::Struct(fs, _) => (self.scalar_w(fs[0]), 0),
                    _ => return inc("overflow intrinsic"),
                };
                let w = ew;
                if w == 0 {
                    return inc("vector overflow intrinsic");
                }
                let (p, q) = (self.to_ex(&a[0], w), self.to_ex(&a[1], w));
                let r = self.ar.bin(op, p, q);
                let o = match (op, signed) {
                    (Op::Add, false) => self.ar.bin(Op::Ult, r, p),
                    (Op::Sub, false) => self.ar.bin(Op::Ult, p, q),
                    (Op::Add, true) | (Op::Sub, true) => {
                        // sign of the result differs from what the operands allow
                        let (x1, x2) = if op == Op::Add {
                            let u = self.ar.bin(Op::Xor, r, p);
                            let v = self.ar.bin(Op::Xor, r, q);
                            (u, v)
                        } else {
                            let u = self.ar.bin(Op::Xor, p, q);
                            let v = self.ar.bin(Op::Xor, r, p);
                            (u, v)
                        };
                        let b = self.ar.bin(Op::And, x1, x2);
                        self.ar.extract(b, w - 1, 1)
                    }
                    (Op::Mul, s) => {
                        if self.ar.as_const(p).is_some() && self.ar.as_const(q).is_some() {
                            let (x, y) = (self.ar.as_const(p).unwrap(), self.ar.as_const(q).unwrap());
                            let o = if s {
                                let (x, y) = (sext_to(x, w), sext_to(y, w));
                                match x.checked_mul(y) {
                                    None => true,
                                    Some(z) => sext_to(z as u128 & mask(w), w) != z,
                                }
                            } else {
                                match x.checked_mul(y) {
                                    None => true,
                                    Some(z) => z & mask(w) != z,
                                }
                            };
                            self.ar.bool_c(o)
                        } else if self.ar.as_const(p).is_some() || self.ar.as_const(q).is_some() {
                            let (x, k) = match self.ar.as_const(q) {
                                Some(k) => (p, k),
                                None => (q, self.ar.as_const(p).unwrap()),
                            };
                            if k == 0 {
                                self.ar.bool_c(false)
                            } else if s {
                                let ks = sext_to(k, w);
                                if ks < 0 {
                                    return inc("signed overflow intrinsic by a negative constant");
                                }
                                let max = (mask(w) >> 1) as i128;
                                let hi = self.ar.cst(w, (max / ks) as u128);
                                let lo = self.ar.cst(w, ((-max - 1) / ks) as u128);
                                let u = self.ar.bin(Op::Slt, hi, x);
                                let v = self.ar.bin(Op::Slt, x, lo);
                                self.ar.or1(u, v)
                            } else {
                                let hi = self.ar.cst(w, mask(w) / k);
                                self.ar.bin(Op::Ult, hi, x)
                            }
                        } else if w <= 64 {
                            let (x2, y2) = if s {
                                (self.ar.sext(p, 2 * w), self.ar.sext(q, 2 * w))
                            } else {
                                (self.ar.zext(p, 2 * w), self.ar.zext(q, 2 * w))
                            };
                            let m = self.ar.bin(Op::Mul, x2, y2);
                            let back = if s { self.ar.sext(r, 2 * w) } else { self.ar.zext(r, 2 * w) };
                            let e = self.ar.eq(m, back);
                            self.ar.not(e)
                        } else {
                            return inc("wide symbolic multiplication");
                        }
                    }
                    _ => return inc("overflow intrinsic"),
                };
                let (r, o) = (self.from_ex(r), self.from_ex(o));
                Ok(V::A(Rc::new(vec![r, o])))
            }
            Ext::Sat(op, _) => {
                let w = self.scalar_w(ret);
                if w == 0 {
                    return inc("vector saturation");
                }
                let (p, q) = (self.to_ex(&a[0], w), self.to_ex(&a[1], w));
                let r = self.ar.bin(op, p, q);
                let (o, s) = if op == Op::Add {
                    (self.ar.bin(Op::Ult, r, p), self.ar.cst(w, u128::MAX))
                } else {
                    (self.ar.bin(Op::Ult, p, q), self.ar.cst(w, 0))
                };
                let r = self.ar.ite(o, s, r);
                Ok(self.from_ex(r))
            }
            Ext::MinMax(max, signed) => {
                let w = self.scalar_w(ret);
                if w == 0 {
                    return inc("vector minmax");
                }
                let (p, q) = (self.to_ex(&a[0], w), self.to_ex(&a[1], w));
                let lt = self.ar.bin(if signed { Op::Slt } else { Op::Ult }, p, q);
                let r = if max { self.ar.ite(lt, q, p) } else { self.ar.ite(lt, p, q) };
                Ok(self.from_ex(r))
            }
            Ext::Abs => {
                let w = self.scalar_w(ret);
                let p = self.to_ex(&a[0], w);
                let z = self.ar.cst(w, 0);
                let n = self.ar.bin(Op::Sub, z, p);
                let lt = self.ar.bin(Op::Slt, p, z);
                let r = self.ar.ite(lt, n, p);
                Ok(self.from_ex(r))
            }
            Ext::ReduceMinMax(max, signed) => match &a[0] {
                V::A(vs) => {
                    let mut r = vs[0].clone();
                    for v in vs[1..].iter() {
                        r = self.external(st, Ext::MinMax(max, signed), target, &[r, v.clone()], ret)?;
                    }
                    Ok(r)
                }
                _ => inc("odd reduction"),
            },
            Ext::ReduceAdd | Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceXor => {
                let w = self.scalar_w(ret);
                let op = match x {
                    Ext::ReduceAdd => Op::Add,
                    Ext::ReduceOr => Op::Or,
                    Ext::ReduceXor => Op::Xor,
                    _ => Op::And,
                };
                match &a[0] {
                    V::A(vs) => {
                        let mut r = vs[0].clone();
                        for v in vs[1..].iter() {
                            r = self.bin(op, w, &r, v)?;
                        }
                        Ok(r)
                    }
                    _ => inc("odd reduction"),
                }
            }
            Ext::None | Ext::Unknown => inc(format!("call of unmodelled function {}", self.m.funcs[target as usize].name)),
        }
    }
    fn cast_to8(&mut self, v: &V) -> V {
        match v {
            V::I(x) => V::I(x & 0xff),
            V::E(e) => {
                let e = if self.ar.w(*e) > 8 { self.ar.extract(*e, 0, 8) } else { *e };
                self.from_ex(e)
            }
            v => v.clone(),
        }
    }
    fn heap_obj(&mut self, st: &State, p: u64, what: &str) -> R<usize> {
        let hi = p >> 32;
        if hi >= ID0 && (p & 0xffff_ffff) == OFF0 {
            let id = (hi - ID0) as usize;
            match st.mem.get(id) {
                Some(o) if o.kind == Kind::Heap => return Ok(id),
                Some(_) => return viol("memory", format!("{} of a non-heap pointer", what)),
                None => return viol("memory", format!("{}: double free or wild pointer", what)),
            }
        }
        viol("memory", format!("{} of an invalid pointer", what))
    }
    /// Completes the call instruction a forked state is standing on, with the given result.
    fn finish_call(&mut self, st: &mut State, v: V) {
        let m = self.m;
        let f = &m.funcs[st.cur.f as usize];
        let ins = &f.blocks[st.cur.blk as usize].ins[st.cur.ip as usize];
        if let Ins::Call { d, next, .. } = ins {
            self.set(st, *d, v);
            if *next != FALL {
                self.goto(st, *next);
            } else {
                st.cur.ip += 1;
            }
        } else {
            unreachable!()
        }
    }
    pub fn stack_names(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.m.funcs[st.cur.f as usize].name.clone()];
        for f in st.stack.iter().rev() {
            v.push(self.m.funcs[f.f as usize].name.clone());
        }
        v
    }
}
