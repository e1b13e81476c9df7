//! Minimal bindings to the Z3 C API (libz3 4.8.12, linked dynamically).
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_int64(c: P, v: P, i: *mut i64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error code {code}");
    std::process::exit(4);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ast(P);

pub struct Z3 {
    c: P,
    s: P,
    int: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub nanos: u64,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("60000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let logic = CString::new("QF_LIA").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let int = Z3_mk_int_sort(c);
            Z3 { c, s, int, queries: 0, sat: 0, unsat: 0, nanos: 0 }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn var(&self, i: u32) -> Ast {
        unsafe { Ast(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), self.int)) }
    }
    pub fn int(&self, v: i64) -> Ast {
        unsafe { Ast(Z3_mk_int64(self.c, v, self.int)) }
    }
    pub fn lt(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Ast(Z3_mk_lt(self.c, a.0, b.0)) }
    }
    pub fn eq(&self, a: Ast, b: Ast) -> Ast {
        unsafe { Ast(Z3_mk_eq(self.c, a.0, b.0)) }
    }
    pub fn not(&self, a: Ast) -> Ast {
        unsafe { Ast(Z3_mk_not(self.c, a.0)) }
    }
    pub fn or(&self, v: &[Ast]) -> Ast {
        unsafe { Ast(Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr() as *const P)) }
    }
    pub fn push(&mut self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&mut self, n: u32) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n) }
        }
    }
    pub fn assert(&mut self, a: Ast) {
        unsafe { Z3_solver_assert(self.c, self.s, a.0) }
    }
    /// Some(true) = sat, Some(false) = unsat. `unknown` is an error of the check.
    pub fn check(&mut self) -> bool {
        let t = std::time::Instant::now();
        crate::IN_SOLVER.store(true, std::sync::atomic::Ordering::Relaxed);
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        crate::IN_SOLVER.store(false, std::sync::atomic::Ordering::Relaxed);
        self.nanos += t.elapsed().as_nanos() as u64;
        self.queries += 1;
        match r {
            1 => {
                self.sat += 1;
                true
            }
            -1 => {
                self.unsat += 1;
                false
            }
            _ => {
                eprintln!("z3 answered unknown");
                std::process::exit(4);
            }
        }
    }
    /// Values of variables 0..n in a model of the current assertions.
    pub fn model(&mut self, n: u32) -> Vec<i64> {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            let mut out = Vec::new();
            for i in 0..n {
                let v = self.var(i);
                let mut r: P = std::ptr::null_mut();
                let mut x: i64 = 0;
                if !Z3_model_eval(self.c, m, v.0, true, &mut r) || !Z3_get_numeral_int64(self.c, r, &mut x) {
                    eprintln!("z3 model evaluation failed");
                    std::process::exit(4);
                }
                out.push(x);
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }
    pub fn to_smt2(&self) -> String {
        unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() }
    }
}
