//! z3 through its C API.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, s: Sort) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: Ctx, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub enum Res { Unsat, Sat(Vec<(u16, u8)>), Unknown }

pub struct Z3 { stack: Vec<u128>, births: Vec<[u64; 4]>, made: usize, c: Ctx, s: Solver, bv: HashMap<u128, Ast>, bo: HashMap<u128, Ast>, vars: HashMap<u16, Ast>, sorts: HashMap<u32, Sort>, pub queries: u64, pub time: f64, pub unknown: u64, pub slow: f64 }

impl Z3 {
    pub fn new() -> Self {
        let mut z = Z3 { stack: vec![], births: vec![[!0; 4]; MAXVARS], made: 0, c: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: HashMap::new(), bo: HashMap::new(), vars: HashMap::new(), sorts: HashMap::new(), queries: 0, time: 0.0, unknown: 0, slow: 0.0 };
        z.fresh();
        z
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.c.is_null() { Z3_del_context(self.c); }
            let cfg = Z3_mk_config();
            for (k, v) in [("model", "true"), ("timeout", "20000")] {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            }
            self.c = Z3_mk_context(cfg);
            Z3_set_error_handler(self.c, on_err);
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
        }
        self.stack.clear();
        self.made = 0; self.bv.clear(); self.bo.clear(); self.vars.clear(); self.sorts.clear();
    }
    fn sort(&mut self, w: u32) -> Sort { let c = self.c; *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) }) }
    fn var(&mut self, i: u16) -> Ast {
        let s = self.sort(8);
        let c = self.c;
        *self.vars.entry(i).or_insert_with(|| unsafe { Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s) })
    }
    fn num(&mut self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 { let s = self.sort(w); return Z3_mk_unsigned_int64(self.c, v as u64, s); }
            let (h, l) = (self.num(v >> 64, w - 64), self.num(v & mask(64), 64));
            Z3_mk_concat(self.c, h, l)
        }
    }
    fn range(&mut self, x: Ast, lo: u64, hi: u64) -> Ast {
        unsafe {
            let l = self.num(lo as u128, 8);
            if lo == hi { return Z3_mk_eq(self.c, x, l); }
            let h = self.num(hi as u128, 8);
            let mut v = vec![];
            if lo > 0 { v.push(Z3_mk_bvule(self.c, l, x)); }
            if hi < 255 { v.push(Z3_mk_bvule(self.c, x, h)); }
            if v.is_empty() { return Z3_mk_true(self.c); }
            Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr())
        }
    }
    fn set(&mut self, i: u16, f: &dyn Fn(usize) -> bool) -> Ast {
        let x = self.var(i);
        let mut parts = vec![];
        let mut k = 0;
        while k < 256 {
            if !f(k) { k += 1; continue; }
            let a = k;
            while k < 256 && f(k) { k += 1; }
            parts.push(self.range(x, a as u64, k as u64 - 1));
        }
        unsafe { if parts.is_empty() { Z3_mk_false(self.c) } else { Z3_mk_or(self.c, parts.len() as c_uint, parts.as_ptr()) } }
    }
    fn b(&mut self, e: &E) -> Ast {
        debug_assert!(e.w == 1);
        if let Some(a) = self.bo.get(&e.hash) { return *a; }
        let r = unsafe {
            match &e.k {
                K::Const(v) => if *v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) },
                K::Tab(i, t) => { let t = t.clone(); self.set(*i, &|k| t[k] == 1) }
                K::Cmp(o, x, y) => {
                    if x.w == 1 && *o == Cmp::Eq { let (p, q) = (self.b(x), self.b(y)); Z3_mk_eq(self.c, p, q) } else {
                        let (p, q) = (self.v(x), self.v(y));
                        match o { Cmp::Eq => Z3_mk_eq(self.c, p, q), Cmp::Ult => Z3_mk_bvult(self.c, p, q), Cmp::Ule => Z3_mk_bvule(self.c, p, q), Cmp::Slt => Z3_mk_bvslt(self.c, p, q), Cmp::Sle => Z3_mk_bvsle(self.c, p, q) }
                    }
                }
                K::Bin(Bin::Xor, x, y) if konst(y) == Some(1) => { let p = self.b(x); Z3_mk_not(self.c, p) }
                K::Bin(o @ (Bin::And | Bin::Or | Bin::Xor | Bin::Mul | Bin::Add | Bin::Sub), x, y) => {
                    let p = [self.b(x), self.b(y)];
                    match o { Bin::And | Bin::Mul => Z3_mk_and(self.c, 2, p.as_ptr()), Bin::Or => Z3_mk_or(self.c, 2, p.as_ptr()), _ => Z3_mk_xor(self.c, p[0], p[1]) }
                }
                K::Ite(c, t, f) => { let (p, q, r) = (self.b(c), self.b(t), self.b(f)); Z3_mk_ite(self.c, p, q, r) }
                _ => { let x = self.v(e); let one = self.num(1, 1); Z3_mk_eq(self.c, x, one) }
            }
        };
        self.bo.insert(e.hash, r);
        r
    }
    fn v(&mut self, e: &E) -> Ast {
        if let Some(a) = self.bv.get(&e.hash) { return *a; }
        let r = unsafe {
            match &e.k {
                K::Const(v) => self.num(*v, e.w),
                K::Var(i) => self.var(*i),
                K::Tab(i, t) => {
                    let mut vals: Vec<(u64, usize)> = vec![];
                    let d = self.births[*i as usize];
                    for (n, v) in t.iter().enumerate() { if d[n >> 6] >> (n & 63) & 1 == 0 { continue; } if let Some(x) = vals.iter_mut().find(|x| x.0 == *v) { x.1 += 1 } else { vals.push((*v, 1)) } }
                    vals.sort_by_key(|x| std::cmp::Reverse(x.1));
                    let mut acc = self.num(vals[0].0 as u128, e.w);
                    for (v, _) in &vals[1..] {
                        let c = self.set(*i, &|k| t[k] == *v && d[k >> 6] >> (k & 63) & 1 == 1);
                        let n = self.num(*v as u128, e.w);
                        acc = Z3_mk_ite(self.c, c, n, acc);
                    }
                    acc
                }
                K::Bin(_, _, _) | K::Cmp(..) | K::Ite(..) if e.w == 1 => {
                    let c = self.b(e);
                    let (t, f) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(self.c, c, t, f)
                }
                K::Bin(o, x, y) => {
                    let (p, q) = (self.v(x), self.v(y));
                    let c = self.c;
                    match o {
                        Bin::Add => Z3_mk_bvadd(c, p, q), Bin::Sub => Z3_mk_bvsub(c, p, q), Bin::Mul => Z3_mk_bvmul(c, p, q),
                        Bin::UDiv => Z3_mk_bvudiv(c, p, q), Bin::SDiv => Z3_mk_bvsdiv(c, p, q), Bin::URem => Z3_mk_bvurem(c, p, q), Bin::SRem => Z3_mk_bvsrem(c, p, q),
                        Bin::And => Z3_mk_bvand(c, p, q), Bin::Or => Z3_mk_bvor(c, p, q), Bin::Xor => Z3_mk_bvxor(c, p, q),
                        Bin::Shl => Z3_mk_bvshl(c, p, q), Bin::LShr => Z3_mk_bvlshr(c, p, q), Bin::AShr => Z3_mk_bvashr(c, p, q),
                    }
                }
                K::Cmp(..) => unreachable!(),
                K::Ite(c, t, f) => { let (p, q, r) = (self.b(c), self.v(t), self.v(f)); Z3_mk_ite(self.c, p, q, r) }
                K::Zext(x) => { let p = self.v(x); Z3_mk_zero_ext(self.c, e.w - x.w, p) }
                K::Sext(x) => { let p = self.v(x); Z3_mk_sign_ext(self.c, e.w - x.w, p) }
                K::Extract(x, l) => { let p = self.v(x); Z3_mk_extract(self.c, l + e.w - 1, *l, p) }
                K::Concat(h, l) => { let (p, q) = (self.v(h), self.v(l)); Z3_mk_concat(self.c, p, q) }
            }
        };
        self.bv.insert(e.hash, r);
        r
    }
    /// Satisfiability of a conjunction plus per-variable domains.
    pub fn check(&mut self, cs: &[E], doms: &[(u16, [u64; 4])], births: &[[u64; 4]], vars: u128) -> Res {
        if self.made + self.bv.len() + self.bo.len() > 300_000 { self.fresh(); }
        // lookup tables are encoded over the domain a variable was created with; other domains need a new encoding
        let mut stale = false;
        for i in 0..births.len().min(MAXVARS) { if vars >> i & 1 == 1 && self.births[i] != births[i] { self.births[i] = births[i]; stale = true; } }
        if stale { unsafe { if !self.stack.is_empty() { Z3_solver_pop(self.c, self.s, self.stack.len() as c_uint); self.stack.clear(); } } self.made += self.bv.len() + self.bo.len(); self.bv.clear(); self.bo.clear(); }
        let t0 = std::time::Instant::now();
        let r = unsafe {
            // the constraints of the path stay asserted between queries; only the differing tail is replaced
            let (last, path) = cs.split_last().unwrap();
            let mut k = 0;
            while k < path.len() && k < self.stack.len() && path[k].hash == self.stack[k] { k += 1; }
            if self.stack.len() > k { Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint); self.stack.truncate(k); }
            for e in &path[k..] { Z3_solver_push(self.c, self.s); let a = self.b(e); Z3_solver_assert(self.c, self.s, a); self.stack.push(e.hash); }
            Z3_solver_push(self.c, self.s);
            for (i, d) in doms { let d = *d; let a = self.set(*i, &|k| d[k >> 6] >> (k & 63) & 1 == 1); Z3_solver_assert(self.c, self.s, a); }
            let a = self.b(last);
            Z3_solver_assert(self.c, self.s, a);
            let r = match Z3_solver_check(self.c, self.s) {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..MAXVARS as u16 {
                        if vars >> i & 1 == 1 {
                            let x = self.var(i);
                            let mut o: Ast = std::ptr::null_mut();
                            let mut u = 0u64;
                            if Z3_model_eval(self.c, m, x, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut u) { out.push((i, u as u8)); }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slow { self.slow = dt; }
        r
    }
}
