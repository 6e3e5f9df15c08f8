//! z3 through its C interface: incremental bit-vector queries over a path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_tactic(c: Ctx, n: *const c_char) -> *mut c_void;
    fn Z3_tactic_inc_ref(c: Ctx, t: *mut c_void);
    fn Z3_mk_solver_from_tactic(c: Ctx, t: *mut c_void) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, n: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, g: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_min(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_max(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, n: c_uint) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_numeral_double(c: Ctx, v: f64, s: Sort) -> Ast;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub enum Res {
    /// values of the symbols the query depends on
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

pub struct Slv {
    c: Ctx,
    s: Solver,
    float_mode: bool,
    stack: Vec<E>,
    bv: Vec<Ast>,
    fps: Vec<Ast>,
    bo: Vec<Ast>,
    symast: Vec<Ast>,
    params: *mut c_void,
    params_quick: *mut c_void,
    cache: std::collections::HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub cached: u64,
    pub second: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: std::time::Duration,
    pub max: std::time::Duration,
}

pub fn version() -> String {
    unsafe {
        std::ffi::CStr::from_ptr(Z3_get_full_version())
            .to_string_lossy()
            .into_owned()
    }
}

impl Slv {
    pub fn new(timeout_ms: u32) -> Slv {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            let params_quick = Z3_mk_params(c);
            Z3_params_inc_ref(c, params_quick);
            let first = timeout_ms.min(4000);
            Z3_params_set_uint(c, params_quick, Z3_mk_string_symbol(c, k.as_ptr()), first);
            let mut s = Slv {
                c,
                params_quick,
                cache: Default::default(),
                cached: 0,
                second: 0,
                s: std::ptr::null_mut(),
                float_mode: false,
                stack: vec![],
                bv: vec![],
                fps: vec![],
                bo: vec![],
                symast: vec![],
                params,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: Default::default(),
                max: Default::default(),
            };
            s.fresh();
            s
        }
    }
    unsafe fn fresh(&mut self) {
        if !self.s.is_null() {
            Z3_solver_dec_ref(self.c, self.s);
        }
        self.s = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, self.s);
        Z3_solver_set_params(self.c, self.s, self.params_quick);
        self.stack.clear();
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            let a = Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, w));
            Z3_inc_ref(self.c, a);
            a
        }
    }
    fn slot(v: &mut Vec<Ast>, i: usize) -> &mut Ast {
        if v.len() <= i {
            v.resize(i + 1 + i / 2, std::ptr::null_mut());
        }
        &mut v[i]
    }
    /// The context may drop what nobody holds with the next call.
    fn keep(&self, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn fsort(&self, w: u32) -> Sort {
        unsafe {
            let s = if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
            Z3_inc_ref(self.c, s as Ast);
            s
        }
    }
    /// The number that the bits of e are.
    fn fp(&mut self, e: E) -> Ast {
        if let E::S(i) = e {
            let x = *Self::slot(&mut self.fps, i as usize);
            if !x.is_null() {
                return x;
            }
        }
        let w = width(e);
        let c = self.c;
        let s = self.fsort(w);
        let n = match e {
            E::S(i) => Some(node(i)),
            _ => None,
        };
        let r = unsafe {
            match n {
                Some(N::FBin(op, a, b)) => {
                    let x = self.fp(a);
                    let y = self.fp(b);
                    let rm = self.keep(Z3_mk_fpa_rne(c));
                    match op {
                        FB::Add => Z3_mk_fpa_add(c, rm, x, y),
                        FB::Sub => Z3_mk_fpa_sub(c, rm, x, y),
                        FB::Mul => Z3_mk_fpa_mul(c, rm, x, y),
                        FB::Div => Z3_mk_fpa_div(c, rm, x, y),
                        FB::Min => Z3_mk_fpa_min(c, x, y),
                        FB::Max => Z3_mk_fpa_max(c, x, y),
                        FB::Rem => panic!("unsupported: symbolic frem"),
                    }
                }
                Some(N::FUn(op, a)) => {
                    let x = if let FU::FromU | FU::FromS = op { self.tobv(a) } else { self.fp(a) };
                    let rm = self.keep(match op {
                        FU::Floor => Z3_mk_fpa_rtn(c),
                        FU::Ceil => Z3_mk_fpa_rtp(c),
                        FU::RoundTrunc => Z3_mk_fpa_rtz(c),
                        _ => Z3_mk_fpa_rne(c),
                    });
                    match op {
                        FU::FromU => Z3_mk_fpa_to_fp_unsigned(c, rm, x, s),
                        FU::FromS => Z3_mk_fpa_to_fp_signed(c, rm, x, s),
                        FU::Trunc | FU::Ext => Z3_mk_fpa_to_fp_float(c, rm, x, s),
                        FU::Sqrt => Z3_mk_fpa_sqrt(c, rm, x),
                        FU::Floor | FU::Ceil | FU::RoundTrunc => {
                            Z3_mk_fpa_round_to_integral(c, rm, x)
                        }
                        FU::Neg | FU::Abs => unreachable!(),
                    }
                }
                Some(N::Ite(g, a, b)) => {
                    let g = self.tobool(g);
                    let x = self.fp(a);
                    let y = self.fp(b);
                    Z3_mk_ite(c, g, x, y)
                }
                _ => {
                    let a = self.tobv(e);
                    Z3_mk_fpa_to_fp_bv(c, a, s)
                }
            }
        };
        self.keep(r);
        if let E::S(i) = e {
            *Self::slot(&mut self.fps, i as usize) = r;
        }
        r
    }
    fn tobv(&mut self, e: E) -> Ast {
        let i = match e {
            E::C(v, w) => return self.num(v as u128, w as u32),
            E::S(i) => i as usize,
        };
        let x = *Self::slot(&mut self.bv, i);
        if !x.is_null() {
            return x;
        }
        let w = width(e);
        let n = node(i as u32);
        unsafe {
            let boolish = w == 1
                && matches!(
                    n,
                    N::Cmp(..) | N::FCmp(..) | N::Bin(B::And | B::Or | B::Xor, ..) | N::Ite(..)
                );
            let c = self.c;
            let r = if boolish {
                let b = self.tobool(e);
                Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
            } else {
                match n {
                    N::Sym(s) => {
                        let nm = CString::new(format!("i{s}")).unwrap();
                        let a = Z3_mk_const(
                            c,
                            Z3_mk_string_symbol(c, nm.as_ptr()),
                            Z3_mk_bv_sort(c, w),
                        );
                        *Self::slot(&mut self.symast, s as usize) = a;
                        a
                    }
                    N::Wide(v) => self.num(v, w),
                    N::Bin(op, a, b) => {
                        let x = self.tobv(a);
                        let y = self.tobv(b);
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y),
                            B::Sub => Z3_mk_bvsub(c, x, y),
                            B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y),
                            B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                    N::Ite(g, a, b) => {
                        let g = self.tobool(g);
                        let x = self.tobv(a);
                        let y = self.tobv(b);
                        Z3_mk_ite(c, g, x, y)
                    }
                    N::Ext(a, lo) => {
                        let x = self.tobv(a);
                        Z3_mk_extract(c, lo as u32 + w - 1, lo as u32, x)
                    }
                    N::Cat(h, l) => {
                        let x = self.tobv(h);
                        let y = self.tobv(l);
                        Z3_mk_concat(c, x, y)
                    }
                    N::Zx(a) => {
                        let x = self.tobv(a);
                        Z3_mk_zero_ext(c, w - width(a), x)
                    }
                    N::Sx(a) => {
                        let x = self.tobv(a);
                        Z3_mk_sign_ext(c, w - width(a), x)
                    }
                    N::FBin(..) | N::FUn(..) => {
                        let f = self.fp(e);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    N::FToI(signed, a) => {
                        let aw = width(a);
                        let x = self.fp(a);
                        let s = self.fsort(aw);
                        let rtz = self.keep(Z3_mk_fpa_rtz(c));
                        let (lo, hi) = if signed {
                            (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1))
                        } else {
                            (0.0, 2f64.powi(w as i32))
                        };
                        let flo = self.keep(Z3_mk_fpa_numeral_double(c, lo, s));
                        let fhi = self.keep(Z3_mk_fpa_numeral_double(c, hi, s));
                        let conv = self.keep(if signed {
                            Z3_mk_fpa_to_sbv(c, rtz, x, w)
                        } else {
                            Z3_mk_fpa_to_ubv(c, rtz, x, w)
                        });
                        let (vlo, vhi) = if signed {
                            (1u128 << (w - 1), (1u128 << (w - 1)) - 1)
                        } else {
                            (0, mask(w))
                        };
                        let g = self.keep(Z3_mk_fpa_leq(c, fhi, x));
                        let r = self.keep(Z3_mk_ite(c, g, self.num(vhi, w), conv));
                        let g = self.keep(Z3_mk_fpa_lt(c, x, flo));
                        let r = self.keep(Z3_mk_ite(c, g, self.num(vlo, w), r));
                        let g = self.keep(Z3_mk_fpa_is_nan(c, x));
                        Z3_mk_ite(c, g, self.num(0, w), r)
                    }
                    N::Hash(..) => {
                        // anything: what a path concludes from it is checked against the real one
                        let nm = CString::new(format!("h{i}")).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, w))
                    }
                    N::Cmp(..) | N::FCmp(..) => unreachable!(),
                }
            };
            Z3_inc_ref(c, r);
            *Self::slot(&mut self.bv, i) = r;
            r
        }
    }
    fn tobool(&mut self, e: E) -> Ast {
        let c = self.c;
        let i = match e {
            E::C(v, _) => unsafe {
                return if v & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) };
            },
            E::S(i) => i as usize,
        };
        let x = *Self::slot(&mut self.bo, i);
        if !x.is_null() {
            return x;
        }
        unsafe {
            let r = match node(i as u32) {
                N::Cmp(p, a, b) => {
                    if width(a) == 1 && p == P::Eq {
                        let x = self.tobool(a);
                        let y = self.tobool(b);
                        Z3_mk_eq(c, x, y)
                    } else {
                        let x = self.tobv(a);
                        let y = self.tobv(b);
                        match p {
                            P::Eq => Z3_mk_eq(c, x, y),
                            P::Ult => Z3_mk_bvult(c, x, y),
                            P::Ule => Z3_mk_bvule(c, x, y),
                            P::Slt => Z3_mk_bvslt(c, x, y),
                            P::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                N::FCmp(p, a, b) => {
                    let x = self.fp(a);
                    let y = self.fp(b);
                    match p {
                        FP::Oeq => Z3_mk_fpa_eq(c, x, y),
                        FP::Olt => Z3_mk_fpa_lt(c, x, y),
                        FP::Ole => Z3_mk_fpa_leq(c, x, y),
                        FP::Uno => {
                            let l = [self.keep(Z3_mk_fpa_is_nan(c, x)), self.keep(Z3_mk_fpa_is_nan(c, y))];
                            Z3_mk_or(c, 2, l.as_ptr())
                        }
                    }
                }
                N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => {
                    if op == B::Xor && b == E::C(1, 1) {
                        let x = self.tobool(a);
                        Z3_mk_not(c, x)
                    } else {
                        let l = [self.tobool(a), self.tobool(b)];
                        match op {
                            B::And => Z3_mk_and(c, 2, l.as_ptr()),
                            B::Or => Z3_mk_or(c, 2, l.as_ptr()),
                            _ => Z3_mk_xor(c, l[0], l[1]),
                        }
                    }
                }
                N::Ite(g, a, b) => {
                    let g = self.tobool(g);
                    let x = self.tobool(a);
                    let y = self.tobool(b);
                    Z3_mk_ite(c, g, x, y)
                }
                _ => {
                    let x = self.tobv(e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            };
            Z3_inc_ref(c, r);
            *Self::slot(&mut self.bo, i) = r;
            r
        }
    }
    /// The model's values of the symbols in `set`.
    unsafe fn model(&mut self, s: Solver, set: &[u64]) -> Rc<Vec<(u32, u128)>> {
        let m = Z3_solver_get_model(self.c, s);
        Z3_model_inc_ref(self.c, m);
        let mut v = vec![];
        for (k, w) in set.iter().enumerate() {
            for b in 0..64 {
                if w >> b & 1 == 0 {
                    continue;
                }
                let i = k * 64 + b;
                let a = *Self::slot(&mut self.symast, i);
                let mut x = 0;
                let mut o: Ast = std::ptr::null_mut();
                if !a.is_null() && Z3_model_eval(self.c, m, a, true, &mut o) {
                    Z3_inc_ref(self.c, o);
                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o));
                    x = s.to_str().unwrap().parse().unwrap_or(0);
                    Z3_dec_ref(self.c, o);
                }
                v.push((i as u32, x));
            }
        }
        Z3_model_dec_ref(self.c, m);
        Rc::new(v)
    }
    /// Is `pc` together with `q` satisfiable? `pc` is known to be satisfiable on its own, so only
    /// the part of it that shares inputs with `q`, directly or through others, matters.
    pub fn check(&mut self, pc: &[E], q: E) -> Res {
        let mut set: Vec<u64> = symset(q).to_vec();
        let mut take = vec![false; pc.len()];
        loop {
            let mut more = false;
            for (i, c) in pc.iter().enumerate() {
                if take[i] {
                    continue;
                }
                let s = symset(*c);
                if s.iter().zip(set.iter()).any(|(a, b)| a & b != 0) {
                    take[i] = true;
                    more = true;
                    if s.len() > set.len() {
                        set.resize(s.len(), 0);
                    }
                    for (a, b) in set.iter_mut().zip(s.iter()) {
                        *a |= b;
                    }
                }
            }
            if !more {
                break;
            }
        }
        let sub: Vec<E> = pc.iter().zip(&take).filter(|(_, t)| **t).map(|(c, _)| *c).collect();
        let mut key = sub.clone();
        key.sort();
        key.dedup();
        key.push(q);
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let r = self.check_sub(&sub, q, &set);
        match &r {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            Res::Unknown => {}
        }
        r
    }
    fn check_sub(&mut self, pc: &[E], q: E, set: &[u64]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        unsafe {
            if cx().has_float && !self.float_mode {
                self.float_mode = true;
                self.fresh();
            }
            let mut k = 0;
            while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
                k += 1;
            }
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            for &e in &pc[k..] {
                Z3_solver_push(self.c, self.s);
                let a = self.tobool(e);
                Z3_solver_assert(self.c, self.s, a);
                self.stack.push(e);
            }
            Z3_solver_push(self.c, self.s);
            let a = self.tobool(q);
            Z3_solver_assert(self.c, self.s, a);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut m = None;
            if r == 1 {
                m = Some(self.model(self.s, set));
            }
            Z3_solver_pop(self.c, self.s, 1);
            if r == 0 {
                // once more from scratch, bit-blasted as a whole, with all the time there is
                self.second += 1;
                let n = if self.float_mode { c"qffpbv" } else { c"qfbv" };
                let t = Z3_mk_tactic(self.c, n.as_ptr());
                Z3_tactic_inc_ref(self.c, t);
                let s = Z3_mk_solver_from_tactic(self.c, t);
                Z3_solver_inc_ref(self.c, s);
                Z3_solver_set_params(self.c, s, self.params);
                for &e in pc {
                    let a = self.tobool(e);
                    Z3_solver_assert(self.c, s, a);
                }
                let a = self.tobool(q);
                Z3_solver_assert(self.c, s, a);
                r = Z3_solver_check(self.c, s);
                if r == 1 {
                    m = Some(self.model(s, set));
                }
                Z3_solver_dec_ref(self.c, s);
            }
            let out = match r {
                1 => {
                    self.sat += 1;
                    Res::Sat(m.unwrap())
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            let d = t0.elapsed();
            if let Ok(l) = std::env::var("SYMX_SLOW") {
                if d.as_millis() as u64 >= l.parse().unwrap_or(10) {
                    eprintln!("--- {d:?} {r} pc {}", pc.len());
                    let s = Z3_mk_simple_solver(self.c);
                    Z3_solver_inc_ref(self.c, s);
                    for &e in pc.iter().chain(std::iter::once(&q)) {
                        let a = self.tobool(e);
                        Z3_solver_assert(self.c, s, a);
                    }
                    let p = Z3_solver_to_string(self.c, s);
                    eprintln!("{}", std::ffi::CStr::from_ptr(p).to_string_lossy());
                    Z3_solver_dec_ref(self.c, s);
                }
            }
            self.time += d;
            if d > self.max {
                self.max = d;
            }
            out
        }
    }
}
