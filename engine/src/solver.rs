//! Z3 back end: decides conjunctions of 1-bit expressions (QF_BV + FP).
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};
type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("symex: z3 error {}", e);
    std::process::abort();
}

pub enum Res {
    Sat(Vec<(usize, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: FxMap<Ex, P>,
    bo: FxMap<Ex, P>,
    cache: FxMap<Vec<Ex>, Option<Vec<(usize, u128)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub nanos: u64,
    pub max_nanos: u64,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = Z3_mk_string_symbol(c, cs("rlimit").as_ptr());
            Z3_params_set_uint(c, p, k, rlimit);
            Z3_solver_set_params(c, s, p);
            let _ = Z3_get_error_code(c);
            Solver {
                c,
                s,
                bv: Default::default(),
                bo: Default::default(),
                cache: Default::default(),
                queries: 0,
                cache_hits: 0,
                nanos: 0,
                max_nanos: 0,
            }
        }
    }

    fn fsort(&self, w: u32) -> P {
        unsafe {
            match w {
                16 => Z3_mk_fpa_sort(self.c, 5, 11),
                32 => Z3_mk_fpa_sort(self.c, 8, 24),
                64 => Z3_mk_fpa_sort(self.c, 11, 53),
                _ => panic!("float sort {}", w),
            }
        }
    }

    /// A floating point expression over a single variable of at most 8 bits,
    /// as the table of its values.
    fn tabulated(&mut self, e: Ex, w: u32) -> Option<P> {
        let v = sup_single(ar().support(e))?;
        // (the variable's node, for its width)
        let mut stack = vec![e];
        let mut seen: FxMap<Ex, ()> = Default::default();
        let mut var = None;
        while let Some(x) = stack.pop() {
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = ar().n(x);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    var = Some((x, n.w as u32));
                    break;
                }
                Op::Extract | Op::Not | Op::ZExt | Op::SExt | Op::FpToSi | Op::FpToUi | Op::SiToFp | Op::UiToFp | Op::FpCvt => stack.push(n.a),
                Op::Ite => stack.extend([n.a, n.b, n.c]),
                _ => stack.extend([n.a, n.b]),
            }
        }
        let (x, vw) = var?;
        if vw > 8 {
            return None;
        }
        let c = self.c;
        let xp = self.tbv(x);
        let mut memo: FxMap<Ex, u128> = Default::default();
        let mut r: Option<(P, u128)> = None;
        for k in 0..(1u32 << vw) {
            memo.clear();
            let val = ar().eval_with(e, &|i| if i == v { k as u128 } else { 0 }, &mut memo);
            unsafe {
                let num = |val: u128, w: u32| Z3_mk_numeral(c, cs(&val.to_string()).as_ptr(), Z3_mk_bv_sort(c, w));
                r = Some(match r {
                    None => (num(val, w), val),
                    Some((p, first)) if val == first => (p, first),
                    Some((p, first)) => (Z3_mk_ite(c, Z3_mk_eq(c, xp, num(k as u128, vw)), num(val, w), p), first),
                });
            }
        }
        r.map(|x| x.0)
    }

    fn tbv(&mut self, e: Ex) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let c = self.c;
        let n = ar().n(e);
        let w = n.w as u32;
        if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::SiToFp | Op::UiToFp | Op::FpCvt) {
            if let Some(r) = self.tabulated(e, w) {
                self.bv.insert(e, r);
                return r;
            }
        }
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = ar().cval(e).unwrap();
                    Z3_mk_numeral(c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(c, w))
                }
                Op::Var => {
                    // the width is part of the identity
                    let s = Z3_mk_int_symbol(c, (n.a * 256 + w) as c_int);
                    Z3_mk_const(c, s, Z3_mk_bv_sort(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.tbool(e);
                    let one = Z3_mk_numeral(c, cs("1").as_ptr(), Z3_mk_bv_sort(c, 1));
                    let z = Z3_mk_numeral(c, cs("0").as_ptr(), Z3_mk_bv_sort(c, 1));
                    Z3_mk_ite(c, b, one, z)
                }
                Op::Not => {
                    let a = self.tbv(n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let a = self.tbool(n.a);
                    let x = self.tbv(n.b);
                    let y = self.tbv(n.c);
                    Z3_mk_ite(c, a, x, y)
                }
                Op::Extract => {
                    let a = self.tbv(n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                Op::ZExt => {
                    let a = self.tbv(n.a);
                    Z3_mk_zero_ext(c, w - ar().w(n.a), a)
                }
                Op::SExt => {
                    let a = self.tbv(n.a);
                    Z3_mk_sign_ext(c, w - ar().w(n.a), a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let fs = self.fsort(w);
                    let a = self.tbv(n.a);
                    let b = self.tbv(n.b);
                    let fa = Z3_mk_fpa_to_fp_bv(c, a, fs);
                    let fb = Z3_mk_fpa_to_fp_bv(c, b, fs);
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, fa, fb),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, fa, fb),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, fa, fb),
                        _ => Z3_mk_fpa_div(c, rm, fa, fb),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FpCvt => {
                    let aw = ar().w(n.a);
                    let a = self.tbv(n.a);
                    let fa = Z3_mk_fpa_to_fp_bv(c, a, self.fsort(aw));
                    let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fa, self.fsort(w));
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::SiToFp => {
                    let a = self.tbv(n.a);
                    Z3_mk_fpa_to_ieee_bv(
                        c,
                        Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(w)),
                    )
                }
                Op::UiToFp => {
                    let a = self.tbv(n.a);
                    Z3_mk_fpa_to_ieee_bv(
                        c,
                        Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(w)),
                    )
                }
                Op::FpToSi | Op::FpToUi => {
                    let aw = ar().w(n.a);
                    let a = self.tbv(n.a);
                    let fa = Z3_mk_fpa_to_fp_bv(c, a, self.fsort(aw));
                    let rm = Z3_mk_fpa_rtz(c);
                    if n.op == Op::FpToSi {
                        Z3_mk_fpa_to_sbv(c, rm, fa, w)
                    } else {
                        Z3_mk_fpa_to_ubv(c, rm, fa, w)
                    }
                }
                op => {
                    let a = self.tbv(n.a);
                    let b = self.tbv(n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => panic!("tbv {:?}", op),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    fn tbool(&mut self, e: Ex) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p;
        }
        let c = self.c;
        let n = ar().n(e);
        debug_assert_eq!(n.w, 1);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if ar().cval(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.tbool(n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let v = [self.tbool(n.a), self.tbool(n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let (a, b) = (self.tbool(n.a), self.tbool(n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (a, x, y) = (self.tbool(n.a), self.tbool(n.b), self.tbool(n.c));
                    Z3_mk_ite(c, a, x, y)
                }
                Op::Eq if ar().w(n.a) == 1 => {
                    let (a, b) = (self.tbool(n.a), self.tbool(n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.tbv(n.a), self.tbv(n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.tbv(e);
                    let one = Z3_mk_numeral(c, cs("1").as_ptr(), Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }

    /// Decide the conjunction of `cons` (sorted, deduplicated by the caller).
    pub fn check(&mut self, cons: &[Ex], widths: &[u16]) -> Res {
        if let Some(r) = self.cache.get(cons) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for e in cons {
                let b = self.tbool(*e);
                Z3_solver_assert(c, self.s, b);
            }
            let r = Z3_solver_check(c, self.s);
            let r = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut sup = [0u64; SUPW];
                    for e in cons {
                        sup = sup_or(&sup, ar().support(*e));
                    }
                    let mut out = vec![];
                    for i in 0..MAXVARS {
                        if sup[i / 64] >> (i % 64) & 1 != 0 {
                            let w = widths[i] as u32;
                            let v = ar().var(i, w);
                            let a = self.tbv(v);
                            let mut o: P = std::ptr::null_mut();
                            assert!(Z3_model_eval(c, m, a, true, &mut o));
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, o));
                            out.push((i, s.to_str().unwrap().parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_nanos() as u64;
        self.nanos += dt;
        self.max_nanos = self.max_nanos.max(dt);
        match &r {
            Res::Sat(m) => {
                self.cache.insert(cons.to_vec(), Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(cons.to_vec(), None);
            }
            _ => {}
        }
        r
    }
}
