//! Minimal binding to libz3 (C API).

use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_ast_to_string(c: P, a: P) -> *const std::os::raw::c_char;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

pub enum Res {
    Sat(Vec<(u32, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    tr: FxMap<E, P>,
    vars: FxMap<u32, P>,
    pub queries: u64,
    pub nanos: u64,
    slow: u64,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            let s = if std::env::var("RSYM_QFBV").is_ok() {
                let n = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()))
            } else {
                Z3_mk_simple_solver(c)
            };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            // a resource limit, not a timeout: z3 starts a thread per query for the latter
            let n = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, n.as_ptr()), rlimit);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, tr: Default::default(), vars: Default::default(), queries: 0, nanos: 0, slow: std::env::var("RSYM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0) }
        }
    }

    fn term(&mut self, p: &Pool, e: E) -> P {
        if let Some(t) = self.tr.get(&e) {
            return *t;
        }
        let n = p.node(e);
        let c = self.c;
        let w = n.w as u32;
        let t = unsafe {
            match n.op {
                O::Const => {
                    if w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, w))
                    } else {
                        let s = CString::new(format!("{}", n.k)).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                    }
                }
                O::Var => {
                    let t = Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8));
                    self.vars.insert(n.a, t);
                    t
                }
                O::Ite => {
                    let (a, b, d) = (self.term(p, n.a), self.term(p, n.b), self.term(p, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                O::Not => {
                    let a = self.term(p, n.a);
                    if w == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                O::ZExt | O::SExt => {
                    let aw = p.w(n.a);
                    let a = self.bv(p, n.a);
                    if n.op == O::ZExt {
                        Z3_mk_zero_ext(c, w - aw, a)
                    } else {
                        Z3_mk_sign_ext(c, w - aw, a)
                    }
                }
                O::Extract => {
                    let a = self.bv(p, n.a);
                    let x = Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    if w == 1 {
                        Z3_inc_ref(c, x);
                        Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        x
                    }
                }
                O::Concat => {
                    let a = self.bv(p, n.a);
                    let b = self.bv(p, n.b);
                    Z3_mk_concat(c, a, b)
                }
                O::Eq => {
                    let a = self.term(p, n.a);
                    let b = self.term(p, n.b);
                    Z3_mk_eq(c, a, b)
                }
                O::And | O::Or | O::Xor if w == 1 => {
                    let a = self.term(p, n.a);
                    let b = self.term(p, n.b);
                    let v = [a, b];
                    match n.op {
                        O::And => Z3_mk_and(c, 2, v.as_ptr()),
                        O::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                op => {
                    let a = self.bv(p, n.a);
                    let b = self.bv(p, n.b);
                    let t = match op {
                        O::Add => Z3_mk_bvadd(c, a, b),
                        O::Mul => Z3_mk_bvmul(c, a, b),
                        O::UDiv => Z3_mk_bvudiv(c, a, b),
                        O::SDiv => Z3_mk_bvsdiv(c, a, b),
                        O::URem => Z3_mk_bvurem(c, a, b),
                        O::SRem => Z3_mk_bvsrem(c, a, b),
                        O::And => Z3_mk_bvand(c, a, b),
                        O::Or => Z3_mk_bvor(c, a, b),
                        O::Xor => Z3_mk_bvxor(c, a, b),
                        O::Shl => Z3_mk_bvshl(c, a, b),
                        O::LShr => Z3_mk_bvlshr(c, a, b),
                        O::AShr => Z3_mk_bvashr(c, a, b),
                        O::Ult => Z3_mk_bvult(c, a, b),
                        O::Ule => Z3_mk_bvule(c, a, b),
                        O::Slt => Z3_mk_bvslt(c, a, b),
                        O::Sle => Z3_mk_bvsle(c, a, b),
                        _ => unreachable!(),
                    };
                    // arithmetic on one-bit vectors: back to bool
                    if w == 1 && !matches!(op, O::Ult | O::Ule | O::Slt | O::Sle) {
                        Z3_inc_ref(c, t);
                        Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                    } else {
                        t
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, t) };
        self.tr.insert(e, t);
        t
    }
    /// term as a bit-vector (one-bit terms are bools otherwise)
    fn bv(&mut self, p: &Pool, e: E) -> P {
        let t = self.term(p, e);
        if p.w(e) != 1 {
            return t;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_inc_ref(self.c, s);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            Z3_inc_ref(self.c, one);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_inc_ref(self.c, zero);
            let x = Z3_mk_ite(self.c, t, one, zero);
            Z3_inc_ref(self.c, x);
            x
        }
    }

    pub fn check(&mut self, p: &Pool, cs: &[E], vars: &VSet) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        if self.slow > 0 {
            unsafe {
                let mut n = 0;
                for e in cs {
                    let t = self.term(p, *e);
                    n += std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, t)).to_bytes().len();
                }
                if n > 20000 {
                    eprintln!("BIG {} {}", n, cs.len());
                    for e in cs {
                        let t = self.term(p, *e);
                        let s = std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, t)).to_string_lossy();
                        eprintln!("  {} {}", s.len(), s.chars().take(1500).collect::<String>());
                    }
                }
            }
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cs {
                let t = self.term(p, *e);
                Z3_solver_assert(self.c, self.s, t);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (j, w) in vars.iter().enumerate() {
                        let mut x = *w;
                        while x != 0 {
                            let i = j as u32 * 64 + x.trailing_zeros();
                            x &= x - 1;
                            if let Some(t) = self.vars.get(&i) {
                                let mut r: P = std::ptr::null_mut();
                                Z3_model_eval(self.c, m, *t, true, &mut r);
                                Z3_inc_ref(self.c, r);
                                let mut v = 0u64;
                                Z3_get_numeral_uint64(self.c, r, &mut v);
                                out.push((i, v as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        if self.slow > 0 && t0.elapsed().as_millis() as u64 >= self.slow {
            eprintln!("SLOW {} ms, {} constraints, {:?}", t0.elapsed().as_millis(), cs.len(), matches!(r, Res::Sat(_)));
            unsafe {
                for e in cs {
                    let t = self.term(p, *e);
                    eprintln!("  (assert {})", std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, t)).to_string_lossy());
                }
            }
        }
        r
    }
}
