//! Minimal binding to libz3, loaded at run time.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

extern "C" {
    fn dlopen(n: *const c_char, f: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}

macro_rules! api {
    ($($n:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $($n: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($n: {
                    let n = CString::new(stringify!($n)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    assert!(!p.is_null(), "missing {}", stringify!($n));
                    std::mem::transmute(p)
                },)* }
            }
        }
    }
}

api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context_rc: fn(P) -> P;
    Z3_set_error_handler: fn(P, P);
    Z3_inc_ref: fn(P, P);
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_int_symbol: fn(P, c_int) -> P;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_unsigned_int64: fn(P, u64, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_reset: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_uint64: fn(P, P, *mut u64) -> bool;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_get_full_version: fn() -> *const c_char;
    Z3_get_error_code: fn(P) -> c_uint;
}

/// Resource limit of the first attempt.
const QUICK: u32 = 60_000;

pub struct Z3 {
    api: Api,
    c: P,
    s: P,
    cache: HashMap<E, P>,
    doms: HashMap<(u32, u32, Bits), P>,
    pub uses: u32,
    pub hard: u32,
    rlimit: u32,
    pub version: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

unsafe extern "C" fn on_err(_c: P, e: c_uint) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

impl Z3 {
    pub fn open(paths: &[String], rlimit: u32) -> Option<Z3> {
        unsafe {
            let mut h = std::ptr::null_mut();
            for p in paths {
                let n = CString::new(p.as_str()).unwrap();
                h = dlopen(n.as_ptr(), 2);
                if !h.is_null() {
                    break;
                }
            }
            if h.is_null() {
                return None;
            }
            let api = Api::load(h);
            let version = CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned();
            let cfg = (api.Z3_mk_config)();
            let c = (api.Z3_mk_context_rc)(cfg);
            (api.Z3_set_error_handler)(c, on_err as *const () as P);
            let mut z = Z3 { api, c, s: std::ptr::null_mut(), cache: HashMap::new(), doms: HashMap::new(), uses: 0, hard: 0, rlimit, version };
            z.fresh();
            Some(z)
        }
    }
    fn fresh(&mut self) {
        unsafe {
            if !self.s.is_null() {
                (self.api.Z3_solver_dec_ref)(self.c, self.s);
            }
            self.s = (self.api.Z3_mk_simple_solver)(self.c);
            (self.api.Z3_solver_inc_ref)(self.c, self.s);
            self.limit(self.s, QUICK.min(self.rlimit));
            self.uses = 0;
        }
    }
    unsafe fn limit(&self, solver: P, rlimit: u32) {
        let p = (self.api.Z3_mk_params)(self.c);
        (self.api.Z3_params_inc_ref)(self.c, p);
        let n = CString::new("rlimit").unwrap();
        let s = (self.api.Z3_mk_string_symbol)(self.c, n.as_ptr());
        (self.api.Z3_params_set_uint)(self.c, p, s, rlimit);
        (self.api.Z3_solver_set_params)(self.c, solver, p);
    }
    unsafe fn keep(&self, p: P) -> P {
        (self.api.Z3_inc_ref)(self.c, p);
        p
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let a = &self.api;
            if w <= 64 {
                let s = (a.Z3_mk_bv_sort)(self.c, w);
                self.keep((a.Z3_mk_unsigned_int64)(self.c, v as u64, s))
            } else {
                let hi = self.num(v >> 64, w - 64);
                let lo = self.num(v & mask(64), 64);
                self.keep((a.Z3_mk_concat)(self.c, hi, lo))
            }
        }
    }
    /// bit-vector view (1-bit expressions are Booleans)
    fn bv(&mut self, x: &Ctx, e: E) -> P {
        let p = self.tr(x, e);
        if x.w(e) == 1 {
            unsafe {
                let (t, f) = (self.num(1, 1), self.num(0, 1));
                self.keep((self.api.Z3_mk_ite)(self.c, p, t, f))
            }
        } else {
            p
        }
    }
    fn var(&mut self, idx: u32, w: u32) -> P {
        unsafe {
            let s = (self.api.Z3_mk_bv_sort)(self.c, w);
            let n = (self.api.Z3_mk_int_symbol)(self.c, (idx * 128 + w) as c_int);
            self.keep((self.api.Z3_mk_const)(self.c, n, s))
        }
    }
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.cache.get(&e) {
            return *p;
        }
        let n = *x.node(e);
        let c = self.c;
        let p = unsafe {
            macro_rules! b2 {
                ($f:ident) => {{
                    let p = self.bv(x, n.a);
                    let q = self.bv(x, n.b);
                    (self.api.$f)(c, p, q)
                }};
            }
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k == 1 {
                            (self.api.Z3_mk_true)(c)
                        } else {
                            (self.api.Z3_mk_false)(c)
                        }
                    } else {
                        self.num(n.k, n.w)
                    }
                }
                Op::Var => {
                    let v = self.var(n.k as u32, n.w);
                    if n.w == 1 {
                        let o = self.num(1, 1);
                        (self.api.Z3_mk_eq)(c, v, o)
                    } else {
                        v
                    }
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let p = self.tr(x, n.a);
                    let q = self.tr(x, n.b);
                    let v = [p, q];
                    match n.op {
                        Op::And => (self.api.Z3_mk_and)(c, 2, v.as_ptr()),
                        Op::Or => (self.api.Z3_mk_or)(c, 2, v.as_ptr()),
                        _ => (self.api.Z3_mk_xor)(c, p, q),
                    }
                }
                Op::Not if n.w == 1 => {
                    let p = self.tr(x, n.a);
                    (self.api.Z3_mk_not)(c, p)
                }
                Op::Eq | Op::Ult | Op::Slt => match n.op {
                    Op::Eq => b2!(Z3_mk_eq),
                    Op::Ult => b2!(Z3_mk_bvult),
                    _ => b2!(Z3_mk_bvslt),
                },
                Op::Ite => {
                    let q = self.tr(x, n.a);
                    let a = self.tr(x, n.b);
                    let b = self.tr(x, n.c);
                    (self.api.Z3_mk_ite)(c, q, a, b)
                }
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => {
                    let p = self.bv(x, n.a);
                    let r = (self.api.Z3_mk_extract)(c, n.k as u32 + n.w - 1, n.k as u32, p);
                    self.boolify(r, n.w)
                }
                Op::Zext => {
                    let p = self.bv(x, n.a);
                    (self.api.Z3_mk_zero_ext)(c, n.w - x.w(n.a), p)
                }
                Op::Sext => {
                    let p = self.bv(x, n.a);
                    (self.api.Z3_mk_sign_ext)(c, n.w - x.w(n.a), p)
                }
                Op::Lin => {
                    let f = x.lins[n.k as usize].clone();
                    let mut s = self.num(f.c0 as u128 & mask(n.w), n.w);
                    for (v, k) in f.t {
                        let mut p = self.bv(x, v);
                        if n.w > 8 {
                            p = self.keep((self.api.Z3_mk_zero_ext)(c, n.w - 8, p));
                        } else if n.w < 8 {
                            p = self.keep((self.api.Z3_mk_extract)(c, n.w - 1, 0, p));
                        }
                        let k = self.num(k as u128 & mask(n.w), n.w);
                        let q = self.keep((self.api.Z3_mk_bvmul)(c, p, k));
                        s = self.keep((self.api.Z3_mk_bvadd)(c, s, q));
                    }
                    self.boolify(s, n.w)
                }
                Op::Lut => {
                    let i = self.bv(x, n.a);
                    let iw = x.w(n.a);
                    let runs = x.luts[n.k as usize].clone();
                    self.lut_tree(&runs, i, iw, n.w)
                }
                _ => {
                    // arithmetic on more than one bit (or one, as vectors)
                    let r = match n.op {
                        Op::Add => b2!(Z3_mk_bvadd),
                        Op::Sub => b2!(Z3_mk_bvsub),
                        Op::Mul => b2!(Z3_mk_bvmul),
                        Op::UDiv => b2!(Z3_mk_bvudiv),
                        Op::SDiv => b2!(Z3_mk_bvsdiv),
                        Op::URem => b2!(Z3_mk_bvurem),
                        Op::SRem => b2!(Z3_mk_bvsrem),
                        Op::And => b2!(Z3_mk_bvand),
                        Op::Or => b2!(Z3_mk_bvor),
                        Op::Xor => b2!(Z3_mk_bvxor),
                        Op::Shl => b2!(Z3_mk_bvshl),
                        Op::LShr => b2!(Z3_mk_bvlshr),
                        Op::AShr => b2!(Z3_mk_bvashr),
                        Op::Not => {
                            let p = self.bv(x, n.a);
                            (self.api.Z3_mk_bvnot)(c, p)
                        }
                        _ => unreachable!(),
                    };
                    self.boolify(r, n.w)
                }
            }
        };
        let p = unsafe { self.keep(p) };
        self.cache.insert(e, p);
        p
    }
    unsafe fn boolify(&mut self, r: P, w: u32) -> P {
        if w == 1 {
            self.keep(r);
            let o = self.num(1, 1);
            (self.api.Z3_mk_eq)(self.c, r, o)
        } else {
            r
        }
    }
    unsafe fn lut_tree(&mut self, runs: &[(u64, u64)], i: P, iw: u32, w: u32) -> P {
        if runs.len() == 1 {
            return if w == 1 {
                if runs[0].1 == 1 {
                    self.keep((self.api.Z3_mk_true)(self.c))
                } else {
                    self.keep((self.api.Z3_mk_false)(self.c))
                }
            } else {
                self.num(runs[0].1 as u128, w)
            };
        }
        let m = runs.len() / 2;
        let l = self.lut_tree(&runs[..m], i, iw, w);
        let r = self.lut_tree(&runs[m..], i, iw, w);
        let k = self.num(runs[m].0 as u128, iw);
        let c = self.keep((self.api.Z3_mk_bvult)(self.c, i, k));
        self.keep((self.api.Z3_mk_ite)(self.c, c, l, r))
    }
    fn dom(&mut self, v: u32, w: u32, d: &Bits) -> P {
        if let Some(p) = self.doms.get(&(v, w, *d)) {
            return *p;
        }
        unsafe {
            let x = self.var(v, w);
            let has = |i: u64| d[(i >> 6) as usize] >> (i & 63) & 1 == 1;
            let n = 1u64 << w;
            let mut alts = vec![];
            let mut i = 0;
            while i < n {
                if has(i) {
                    let s = i;
                    while i + 1 < n && has(i + 1) {
                        i += 1;
                    }
                    let lo = self.num(s as u128, w);
                    let hi = self.num(i as u128, w);
                    let a = if s == i {
                        (self.api.Z3_mk_eq)(self.c, x, lo)
                    } else {
                        let p = self.keep((self.api.Z3_mk_bvule)(self.c, lo, x));
                        let q = self.keep((self.api.Z3_mk_bvule)(self.c, x, hi));
                        (self.api.Z3_mk_and)(self.c, 2, [p, q].as_ptr())
                    };
                    alts.push(self.keep(a));
                }
                i += 1;
            }
            let p = if alts.is_empty() {
                (self.api.Z3_mk_false)(self.c)
            } else {
                (self.api.Z3_mk_or)(self.c, alts.len() as c_uint, alts.as_ptr())
            };
            let p = self.keep(p);
            self.doms.insert((v, w, *d), p);
            p
        }
    }

    /// Satisfiability of the conjunction of `cons` and the domains; values
    /// for `want` on success.
    pub fn check(&mut self, x: &Ctx, cons: &[E], doms: &[(u32, u32, Bits)], want: &[(u32, u32)]) -> Verdict {
        unsafe {
            self.uses += 1;
            if self.uses > 400 {
                self.fresh();
            }
            let (c, s) = (self.c, self.s);
            (self.api.Z3_solver_push)(c, s);
            let mut all = vec![];
            for (v, w, d) in doms {
                all.push(self.dom(*v, *w, d));
            }
            for e in cons {
                all.push(self.tr(x, *e));
            }
            for p in &all {
                (self.api.Z3_solver_assert)(c, s, *p);
            }
            let mut r = (self.api.Z3_solver_check)(c, s);
            let mut hard = std::ptr::null_mut();
            if r == 0 {
                // preprocessing and plain SAT solving for the hard ones
                let n = CString::new("qfbv").unwrap();
                let t = (self.api.Z3_mk_tactic)(c, n.as_ptr());
                (self.api.Z3_tactic_inc_ref)(c, t);
                hard = (self.api.Z3_mk_solver_from_tactic)(c, t);
                (self.api.Z3_solver_inc_ref)(c, hard);
                self.limit(hard, self.rlimit);
                for p in &all {
                    (self.api.Z3_solver_assert)(c, hard, *p);
                }
                self.hard += 1;
                r = (self.api.Z3_solver_check)(c, hard);
            }
            let from = if hard.is_null() { s } else { hard };
            let out = match r {
                1 => {
                    let m = (self.api.Z3_solver_get_model)(c, from);
                    (self.api.Z3_model_inc_ref)(c, m);
                    let mut out = vec![];
                    for (v, w) in want {
                        let a = self.var(*v, *w);
                        let mut r = std::ptr::null_mut();
                        let ok = (self.api.Z3_model_eval)(c, m, a, true, &mut r);
                        let mut val = 0u64;
                        if ok {
                            self.keep(r);
                            (self.api.Z3_get_numeral_uint64)(c, r, &mut val);
                        }
                        out.push((*v, val));
                    }
                    (self.api.Z3_model_dec_ref)(c, m);
                    Verdict::Sat(out)
                }
                -1 => Verdict::Unsat,
                _ => Verdict::Unknown,
            };
            if !hard.is_null() {
                (self.api.Z3_solver_dec_ref)(c, hard);
            }
            (self.api.Z3_solver_pop)(c, s, 1);
            out
        }
    }
}
