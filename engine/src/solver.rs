//! Z3 (C API) behind independent-constraint slicing, a query cache and model reuse.
//!
//! A satisfiable answer is only ever given together with a model that has been checked by
//! evaluation; an unsatisfiable answer always comes from Z3 (directly or from the cache).

use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        eprintln!("z3 error {}: {:?}", e, std::ffi::CStr::from_ptr(m));
    }
    std::process::exit(3);
}

pub type Tt = [u64; 4];

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,      // feasibility / validity questions asked
    pub z3_calls: u64,     // answered by running Z3
    pub z3_unsat: u64,
    pub z3_sat: u64,
    pub cached_unsat: u64, // answered unsatisfiable by an earlier Z3 verdict on the same slice
    pub model_hits: u64,   // answered satisfiable by an already known, re-evaluated model
    pub unknown: u64,
    pub z3_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    slv: P,
    ast: Vec<P>,
    sorts: Vec<P>,
    cache: FxMap<Box<[Ex]>, Option<Vec<(usize, u8)>>>,
    tts: FxMap<Ex, Tt>,
    recent: Vec<Vec<u8>>,
    pub st: Stats,
    pub rlimit: u32,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        Solver {
            ctx: std::ptr::null_mut(),
            slv: std::ptr::null_mut(),
            ast: Vec::new(),
            sorts: Vec::new(),
            cache: FxMap::default(),
            tts: FxMap::default(),
            recent: Vec::new(),
            st: Stats::default(),
            rlimit,
        }
    }
    fn init(&mut self) {
        if !self.ctx.is_null() {
            return;
        }
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = if std::env::var_os("RSX_QFBV").is_some() {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), self.rlimit);
            Z3_solver_set_params(c, s, p);
            self.ctx = c;
            self.slv = s;
        }
    }
    fn sort(&mut self, w: u16) -> P {
        let w = w as usize;
        if self.sorts.len() <= w {
            self.sorts.resize(w + 1, std::ptr::null_mut());
        }
        if self.sorts[w].is_null() {
            self.sorts[w] = unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) };
        }
        self.sorts[w]
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn term(&mut self, ar: &Arena, e: Ex) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let t = self.ast[e as usize];
        if !t.is_null() {
            return t;
        }
        let n = ar.n(e);
        let c = self.ctx;
        let t = unsafe {
            match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var | Op::Undef => {
                    let name = CString::new(format!("{}{}", if n.op == Op::Var { "in" } else { "undef" }, n.k)).unwrap();
                    let s = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), s)
                }
                Op::ZExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Extract => {
                    let a = self.term(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, a)
                }
                Op::Concat => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.term(ar, n.b);
                    let d = self.term(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    Z3_mk_ite(c, b, one, zero)
                }
                op => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    let f = match op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr,
                        _ => unreachable!(),
                    };
                    f(c, a, b)
                }
            }
        };
        self.ast[e as usize] = t;
        t
    }
    fn boolean(&mut self, ar: &Arena, e: Ex) -> P {
        let n = ar.n(e);
        let c = self.ctx;
        unsafe {
            match n.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let t = self.term(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, t, one)
                }
            }
        }
    }

    /// The satisfying values of a one-byte condition, used to look for models.
    pub fn tt(&mut self, ar: &mut Arena, e: Ex, var: usize) -> Tt {
        if let Some(t) = self.tts.get(&e) {
            return *t;
        }
        let mut m = vec![0u8; var + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            m[var] = v as u8;
            if ar.eval(e, &m) == 1 {
                t[v >> 6] |= 1 << (v & 63);
            }
        }
        self.tts.insert(e, t);
        t
    }

    /// The constraints of `pc` that share variables, transitively, with `vars`.
    pub fn slice(ar: &Arena, pc: &[Ex], vars: u128) -> (Vec<Ex>, u128) {
        let mut vs = vars & !UNDEF_BIT;
        let mut picked = vec![false; pc.len()];
        let mut out = Vec::new();
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if !picked[i] {
                    let cv = ar.vars[c as usize];
                    if cv & vs != 0 {
                        picked[i] = true;
                        out.push(c);
                        if cv & !vs != 0 {
                            vs |= cv;
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        (out, vs)
    }

    /// Is `pc /\ cond` satisfiable, given that `pc` is? `model` satisfies `pc`.
    /// A model changes only the variables of the slice.
    pub fn check(&mut self, ar: &mut Arena, pc: &[Ex], cond: Ex, model: &[u8]) -> Res {
        self.st.queries += 1;
        if let Some(k) = ar.as_const(cond) {
            return if k == 1 { Res::Sat(Vec::new()) } else { Res::Unsat };
        }
        let (mut cs, vs) = Self::slice(ar, pc, ar.vars[cond as usize]);
        let undef = ar.has_undef(cond);
        if vs & !UNDEF_BIT != 0 && vs.count_ones() == 1 && !undef {
            let var = vs.trailing_zeros() as usize;
            let mut t = self.tt(ar, cond, var);
            for &c in &cs {
                let u = self.tt(ar, c, var);
                for i in 0..4 {
                    t[i] &= u[i];
                }
            }
            for i in 0..4 {
                if t[i] != 0 {
                    self.st.model_hits += 1;
                    // prefer a printable witness
                    let ok = |v: usize| t[v >> 6] >> (v & 63) & 1 == 1;
                    let v = (b'a'..=b'z').chain(b'0'..=b'9').chain(32..=126).map(|v| v as usize).find(|&v| ok(v)).unwrap_or_else(|| (0..256).find(|&v| ok(v)).unwrap());
                    return Res::Sat(vec![(var, v as u8)]);
                }
            }
        }
        cs.sort_unstable();
        cs.dedup();
        cs.push(cond);
        let key: Box<[Ex]> = cs.clone().into();
        if let Some(r) = self.cache.get(&key) {
            return match r {
                Some(m) => {
                    self.st.model_hits += 1;
                    Res::Sat(m.clone())
                }
                None => {
                    self.st.cached_unsat += 1;
                    Res::Unsat
                }
            };
        }
        // recent models
        if !undef {
            for k in (0..self.recent.len()).rev() {
                let m = std::mem::take(&mut self.recent[k]);
                ar.new_gen();
                // variables outside the recent model keep their current values
                let mut mm = model.to_vec();
                for (i, x) in m.iter().enumerate() {
                    if i < mm.len() && vs >> i & 1 == 1 {
                        mm[i] = *x;
                    }
                }
                let ok = cs.iter().rev().all(|&c| ar.eval_in(c, &mm) == 1);
                self.recent[k] = m;
                if ok {
                    self.st.model_hits += 1;
                    let r: Vec<(usize, u8)> = (0..mm.len()).filter(|&i| vs >> i & 1 == 1).map(|i| (i, mm[i])).collect();
                    return Res::Sat(r);
                }
            }
        }
        let r = self.run(ar, &cs, vs);
        match &r {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
                let mut full = model.to_vec();
                for &(i, v) in m {
                    if i >= full.len() {
                        full.resize(i + 1, 0);
                    }
                    full[i] = v;
                }
                if !undef {
                    ar.new_gen();
                    for &c in &cs {
                        assert!(ar.eval_in(c, &full) == 1, "Z3 model does not satisfy {}", ar.show(c));
                    }
                }
                self.recent.push(full);
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            Res::Unknown => {}
        }
        r
    }

    fn run(&mut self, ar: &Arena, cs: &[Ex], vs: u128) -> Res {
        self.init();
        let t0 = Instant::now();
        let asts: Vec<P> = cs.iter().map(|&c| self.boolean(ar, c)).collect();
        self.st.z3_calls += 1;
        unsafe {
            Z3_solver_push(self.ctx, self.slv);
            for a in asts {
                Z3_solver_assert(self.ctx, self.slv, a);
            }
            let r = Z3_solver_check(self.ctx, self.slv);
            let out = if r == 1 {
                self.st.z3_sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.slv);
                Z3_model_inc_ref(self.ctx, m);
                let mut vals = Vec::new();
                for i in 0..127 {
                    if vs >> i & 1 == 1 {
                        let name = CString::new(format!("in{}", i)).unwrap();
                        let s = self.sort(8);
                        let t = Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, name.as_ptr()), s);
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, t, true, &mut v);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(self.ctx, v, &mut u);
                        vals.push((i, u as u8));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(vals)
            } else if r == -1 {
                self.st.z3_unsat += 1;
                Res::Unsat
            } else {
                self.st.unknown += 1;
                Res::Unknown
            };
            Z3_solver_pop(self.ctx, self.slv, 1);
            let us = t0.elapsed().as_micros() as u64;
            self.st.z3_us += us;
            self.st.max_us = self.st.max_us.max(us);
            out
        }
    }
}
