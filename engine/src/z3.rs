//! Minimal libz3 binding and the translation of expressions to QF_BV.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub struct Z3 {
    c: P,
    s: P,
    memo: FxMap<E, P>,
    vars: FxMap<u16, P>,
    pub queries: u64,
    pub nanos: u64,
    pub unknowns: u64,
    n: u64,
}

#[derive(Debug)]
pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new() -> Self {
        let (c, s) = Self::mkctx();
        Z3 { c, s, memo: Default::default(), vars: Default::default(), queries: 0, nanos: 0, unknowns: 0, n: 0 }
    }
    fn mkctx() -> (P, P) {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 20000);
            Z3_solver_set_params(c, s, p);
            (c, s)
        }
    }
    fn var(&mut self, v: u16) -> P {
        if let Some(p) = self.vars.get(&v) {
            return *p;
        }
        unsafe {
            let p = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, 8));
            self.vars.insert(v, p);
            p
        }
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint))
            } else {
                let lo = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                let hi = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as c_uint - 64));
                Z3_mk_concat(self.c, hi, lo)
            }
        }
    }
    fn b2v(&self, b: P) -> P {
        unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
    }
    /// piecewise-linear encoding of a table over the value `x` (bit-vector of width xw)
    fn table(&self, x: P, xw: u8, n: usize, w: u8, get: &dyn Fn(usize) -> u64) -> P {
        // runs with constant slope
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        let mut runs: Vec<(usize, usize, u64, u64)> = vec![]; // lo, hi, slope, value at lo
        let mut i = 0;
        while i < n {
            let v0 = get(i);
            let mut j = i;
            let mut slope = 0;
            if i + 1 < n {
                slope = get(i + 1).wrapping_sub(v0) & m;
                j = i + 1;
                while j + 1 < n && (get(j + 1).wrapping_sub(get(j)) & m) == slope {
                    j += 1;
                }
                if j == i + 1 && slope != 0 {
                    // run of 2 with a slope: prefer a single point unless it is the end
                    j = i;
                    slope = 0;
                }
            }
            runs.push((i, j, slope, v0));
            i = j + 1;
        }
        unsafe {
            let xs = if xw < w {
                Z3_mk_zero_ext(self.c, (w - xw) as c_uint, x)
            } else if xw > w {
                Z3_mk_extract(self.c, w as c_uint - 1, 0, x)
            } else {
                x
            };
            let mut e: P = std::ptr::null_mut();
            for (k, (lo, hi, slope, v0)) in runs.iter().enumerate().rev() {
                let val = if *slope == 0 {
                    self.num(*v0 as u128, w)
                } else {
                    let base = v0.wrapping_sub(slope.wrapping_mul(*lo as u64)) & m;
                    let t = if *slope == 1 { xs } else { Z3_mk_bvmul(self.c, xs, self.num(*slope as u128, w)) };
                    if base == 0 { t } else { Z3_mk_bvadd(self.c, t, self.num(base as u128, w)) }
                };
                if k == runs.len() - 1 {
                    e = val;
                } else {
                    let _ = lo;
                    let c = Z3_mk_bvule(self.c, x, self.num(*hi as u128, xw));
                    e = Z3_mk_ite(self.c, c, val, e);
                }
            }
            e
        }
    }
    fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let w = cx.w[e as usize];
        let c = self.c;
        let r = match &cx.nodes[e as usize] {
            Node::None => std::ptr::null_mut(),
            Node::Const(v) => self.num(*v, w),
            Node::Tab { v, t } => {
                let x = self.var(*v);
                self.table(x, 8, 256, w, &|i| t.get(i))
            }
            Node::N { op, a, b, c: cc, k } => {
                let ap = self.tr(cx, *a);
                let aw = cx.w[*a as usize];
                let bp = if *b != 0 { self.tr(cx, *b) } else { std::ptr::null_mut() };
                let cp = if *cc != 0 { self.tr(cx, *cc) } else { std::ptr::null_mut() };
                unsafe {
                    match op {
                        Op::Add => Z3_mk_bvadd(c, ap, bp),
                        Op::Sub => Z3_mk_bvsub(c, ap, bp),
                        Op::Mul => Z3_mk_bvmul(c, ap, bp),
                        Op::UDiv => Z3_mk_bvudiv(c, ap, bp),
                        Op::URem => Z3_mk_bvurem(c, ap, bp),
                        Op::SDiv => Z3_mk_bvsdiv(c, ap, bp),
                        Op::SRem => Z3_mk_bvsrem(c, ap, bp),
                        Op::Shl => Z3_mk_bvshl(c, ap, bp),
                        Op::LShr => Z3_mk_bvlshr(c, ap, bp),
                        Op::AShr => Z3_mk_bvashr(c, ap, bp),
                        Op::And => Z3_mk_bvand(c, ap, bp),
                        Op::Or => Z3_mk_bvor(c, ap, bp),
                        Op::Xor => Z3_mk_bvxor(c, ap, bp),
                        Op::Eq => self.b2v(Z3_mk_eq(c, ap, bp)),
                        Op::Ult => self.b2v(Z3_mk_bvult(c, ap, bp)),
                        Op::Ule => self.b2v(Z3_mk_bvule(c, ap, bp)),
                        Op::Slt => self.b2v(Z3_mk_bvslt(c, ap, bp)),
                        Op::Sle => self.b2v(Z3_mk_bvsle(c, ap, bp)),
                        Op::Zext => Z3_mk_zero_ext(c, (w - aw) as c_uint, ap),
                        Op::Sext => Z3_mk_sign_ext(c, (w - aw) as c_uint, ap),
                        Op::Extract => Z3_mk_extract(c, *k + w as c_uint - 1, *k, ap),
                        Op::Concat => Z3_mk_concat(c, ap, bp),
                        Op::Ite => Z3_mk_ite(c, Z3_mk_eq(c, ap, self.num(1, 1)), bp, cp),
                        Op::Lookup => {
                            let t = cx.tables[*k as usize].clone();
                            self.table(ap, aw, t.len(), w, &|i| t[i])
                        }
                    }
                }
            }
        };
        self.memo.insert(e, r);
        r
    }

    fn dom(&mut self, v: u16, d: [u64; 4]) -> Option<P> {
        if d == [u64::MAX; 4] {
            return None;
        }
        let x = self.var(v);
        let mut ors: Vec<P> = vec![];
        let bit = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
        let mut i = 0;
        unsafe {
            while i < 256 {
                if bit(i) {
                    let mut j = i;
                    while j + 1 < 256 && bit(j + 1) {
                        j += 1;
                    }
                    if i == j {
                        ors.push(Z3_mk_eq(self.c, x, self.num(i as u128, 8)));
                    } else {
                        let a = [Z3_mk_bvule(self.c, self.num(i as u128, 8), x), Z3_mk_bvule(self.c, x, self.num(j as u128, 8))];
                        ors.push(Z3_mk_and(self.c, 2, a.as_ptr()));
                    }
                    i = j;
                }
                i += 1;
            }
            Some(Z3_mk_or(self.c, ors.len() as c_uint, ors.as_ptr()))
        }
    }

    /// satisfiability of the conjunction of 1-bit expressions `cs` with the domains of `vars`
    pub fn check(&mut self, cx: &Ctx, cs: &[E], vars: &[(u16, [u64; 4])], want_model: bool) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        self.n += 1;
        if self.n > 20000 {
            unsafe { Z3_del_context(self.c) };
            let (c, s) = Self::mkctx();
            self.c = c;
            self.s = s;
            self.memo.clear();
            self.vars.clear();
            self.n = 0;
        }
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cs {
                let p = self.tr(cx, *e);
                let b = Z3_mk_eq(self.c, p, self.num(1, 1));
                Z3_solver_assert(self.c, self.s, b);
            }
            for (v, d) in vars {
                if let Some(p) = self.dom(*v, *d) {
                    Z3_solver_assert(self.c, self.s, p);
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            let err = Z3_get_error_code(self.c);
            let res = if err != 0 {
                self.unknowns += 1;
                Res::Unknown
            } else {
                match r {
                    1 => {
                        let mut out = vec![];
                        if want_model {
                            let m = Z3_solver_get_model(self.c, self.s);
                            Z3_model_inc_ref(self.c, m);
                            for (v, _) in vars {
                                let x = self.var(*v);
                                let mut val: P = std::ptr::null_mut();
                                Z3_model_eval(self.c, m, x, true, &mut val);
                                let mut n = 0u64;
                                Z3_get_numeral_uint64(self.c, val, &mut n);
                                out.push((*v, n as u8));
                            }
                            Z3_model_dec_ref(self.c, m);
                        }
                        Res::Sat(out)
                    }
                    -1 => Res::Unsat,
                    _ => {
                        self.unknowns += 1;
                        Res::Unknown
                    }
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            res
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
