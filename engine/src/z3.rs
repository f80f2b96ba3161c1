//! Hand-written bindings to the z3 C API and the narrow-width encoding of terms.
#![allow(non_camel_case_types)]
use crate::ll::mask;
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, code: c_int) { eprintln!("z3 error {}", code); std::process::abort() }

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<(u32, i128)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub lia: u64, pub time: f64, pub max: f64 }

impl Stats { pub fn merge(&mut self, o: &Stats) { self.queries += o.queries; self.cached += o.cached; self.sat += o.sat; self.unsat += o.unsat; self.unknown += o.unknown; self.lia += o.lia; self.time += o.time; self.max = self.max.max(o.max) } }

pub struct Solver {
    c: P, simple: P, strong: P, lia: P,
    icache: HashMap<Tm, Option<P>>,
    isyms: HashMap<Tm, P>,
    cache: HashMap<Tm, (P, u32)>,
    syms: HashMap<Tm, (P, u32)>,
    qcache: HashMap<Vec<Tm>, Res>,
    pub stats: Stats,
    pub timeout_ms: u32,
    slow: bool,
}

fn nbits(lo: i128, hi: i128) -> u32 {
    let f = |x: i128| 129 - (if x < 0 { !x } else { x }).leading_zeros();
    f(lo).max(f(hi)).min(128).max(2)
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let simple = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, simple);
            let l = CString::new("QF_BV").unwrap();
            let strong = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, strong);
            let lia = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, lia);
            let mut s = Solver { c, simple, strong, lia, icache: HashMap::new(), isyms: HashMap::new(), cache: HashMap::new(), syms: HashMap::new(), qcache: HashMap::new(), stats: Stats::default(), timeout_ms: 20000, slow: std::env::var("SYMX_SLOW").is_ok() };
            s.set_timeout(simple, 60);
            s.set_timeout(lia, 3000);
            s.set_timeout(strong, 20000);
            s
        }
    }
    pub fn set_strong_timeout(&mut self, ms: u32) { self.timeout_ms = ms; let s = self.strong; self.set_timeout(s, ms) }
    fn set_timeout(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn num(&self, k: u128, n: u32) -> P { unsafe { let s = CString::new((k & mask(n)).to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_bv_sort(self.c, n)) } }
    fn fit(&self, (a, n): (P, u32), to: u32) -> P {
        unsafe { if n == to { a } else if n < to { Z3_mk_sign_ext(self.c, to - n, a) } else { Z3_mk_extract(self.c, to - 1, 0, a) } }
    }
    fn b2(&self, op: unsafe extern "C" fn(P, P, P) -> P, a: P, b: P) -> P { unsafe { op(self.c, a, b) } }
    /// integer term -> (bitvector, width) with the signed value preserved; bool -> (bool, 1)
    fn enc(&mut self, ts: &Terms, t: Tm) -> (P, u32) {
        if let Some(r) = self.cache.get(&t) { return *r }
        let nd = ts.n[t as usize].clone();
        let n = if nd.w == 1 { 1 } else { nbits(nd.lo, nd.hi).min(nd.w.max(2)) };
        let w = nd.w;
        let c = self.c;
        let r: P = unsafe {
            match nd.op {
                T::Const => if w == 1 { if nd.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(nd.k, n) },
                T::Sym => {
                    let nm = CString::new(format!("s{}", t)).unwrap();
                    let a = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n) });
                    self.syms.insert(t, (a, n));
                    a
                }
                T::Ite => {
                    let cc = self.enc(ts, nd.a).0;
                    let (x, y) = (self.enc(ts, nd.b), self.enc(ts, nd.c));
                    if w == 1 { Z3_mk_ite(c, cc, x.0, y.0) } else { Z3_mk_ite(c, cc, self.fit(x, n), self.fit(y, n)) }
                }
                T::ZExt | T::SExt => {
                    let wa = ts.w(nd.a);
                    let x = self.enc(ts, nd.a);
                    if wa == 1 { Z3_mk_ite(c, x.0, self.num(if nd.op == T::ZExt { 1 } else { u128::MAX }, n), self.num(0, n)) }
                    else if nd.op == T::SExt { self.fit(x, n) }
                    else { let f = self.fit(x, wa); self.fit((Z3_mk_zero_ext(c, w - wa, f), w), n) }
                }
                T::Trunc => {
                    let x = self.enc(ts, nd.a);
                    if w == 1 { Z3_mk_eq(c, Z3_mk_extract(c, 0, 0, x.0), self.num(1, 1)) }
                    else if x.1 <= w { self.fit(x, n) }
                    else { self.fit((Z3_mk_extract(c, w - 1, 0, x.0), w), n) }
                }
                T::Concat => {
                    let (wh, wl) = (ts.w(nd.a), ts.w(nd.b));
                    let (x, y) = (self.enc(ts, nd.a), self.enc(ts, nd.b));
                    self.fit((Z3_mk_concat(c, self.fit(x, wh), self.fit(y, wl)), w), n)
                }
                T::And | T::Or | T::Xor if w == 1 => {
                    let (x, y) = (self.enc(ts, nd.a).0, self.enc(ts, nd.b).0);
                    match nd.op {
                        T::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        T::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => if ts.is_c(nd.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) },
                    }
                }
                _ => {
                    let (x, y) = (self.enc(ts, nd.a), self.enc(ts, nd.b));
                    let m = x.1.max(y.1);
                    let wa = ts.w(nd.a);
                    match nd.op {
                        T::Add => self.b2(Z3_mk_bvadd, self.fit(x, n), self.fit(y, n)),
                        T::Sub => self.b2(Z3_mk_bvsub, self.fit(x, n), self.fit(y, n)),
                        T::Mul => self.b2(Z3_mk_bvmul, self.fit(x, n), self.fit(y, n)),
                        T::SDiv => { let m = m + 1; self.fit((self.b2(Z3_mk_bvsdiv, self.fit(x, m), self.fit(y, m)), m), n) }
                        T::SRem => self.fit((self.b2(Z3_mk_bvsrem, self.fit(x, m), self.fit(y, m)), m), n),
                        T::UDiv => self.fit((self.b2(Z3_mk_bvudiv, self.fit(x, w), self.fit(y, w)), w), n),
                        T::URem => self.fit((self.b2(Z3_mk_bvurem, self.fit(x, w), self.fit(y, w)), w), n),
                        T::Shl => self.fit((self.b2(Z3_mk_bvshl, self.fit(x, w), self.fit(y, w)), w), n),
                        T::LShr => self.fit((self.b2(Z3_mk_bvlshr, self.fit(x, w), self.fit(y, w)), w), n),
                        T::AShr => self.fit((self.b2(Z3_mk_bvashr, self.fit(x, w), self.fit(y, w)), w), n),
                        T::And => self.fit((self.b2(Z3_mk_bvand, self.fit(x, m), self.fit(y, m)), m), n),
                        T::Or => self.fit((self.b2(Z3_mk_bvor, self.fit(x, m), self.fit(y, m)), m), n),
                        T::Xor => self.fit((self.b2(Z3_mk_bvxor, self.fit(x, m), self.fit(y, m)), m), n),
                        T::Eq => if wa == 1 { Z3_mk_eq(c, x.0, y.0) } else { Z3_mk_eq(c, self.fit(x, m), self.fit(y, m)) },
                        T::Slt => self.b2(Z3_mk_bvslt, self.fit(x, m), self.fit(y, m)),
                        T::Sle => self.b2(Z3_mk_bvsle, self.fit(x, m), self.fit(y, m)),
                        T::Ult => self.b2(Z3_mk_bvult, self.fit(x, wa), self.fit(y, wa)),
                        T::Ule => self.b2(Z3_mk_bvule, self.fit(x, wa), self.fit(y, wa)),
                        T::Gcd => {
                            assert!(nd.hi <= 4096, "gcd range not concretised");
                            let m = m + 1;
                            let (fx, fy) = (self.fit(x, m), self.fit(y, m));
                            let z = self.num(0, m);
                            let mut e = self.num(1, n);
                            for g in 2..=nd.hi as u128 {
                                let gn = self.num(g, m.max(nbits(0, g as i128)));
                                let m2 = m.max(nbits(0, g as i128));
                                let (ex, ey) = (self.fit((fx, m), m2), self.fit((fy, m), m2));
                                let z2 = self.num(0, m2);
                                let cnd = [Z3_mk_eq(c, Z3_mk_bvsrem(c, ex, gn), z2), Z3_mk_eq(c, Z3_mk_bvsrem(c, ey, gn), z2)];
                                e = Z3_mk_ite(c, Z3_mk_and(c, 2, cnd.as_ptr()), self.num(g, n), e);
                            }
                            let bz = [Z3_mk_eq(c, fx, z), Z3_mk_eq(c, fy, z)];
                            Z3_mk_ite(c, Z3_mk_and(c, 2, bz.as_ptr()), self.num(0, n), e)
                        }
                        T::SAddO | T::SSubO | T::SMulO => {
                            let big = if nd.op == T::SMulO { x.1 + y.1 } else { m + 1 }.max(wa + 1);
                            let (fx, fy) = (self.fit(x, big), self.fit(y, big));
                            let v = match nd.op { T::SAddO => Z3_mk_bvadd(c, fx, fy), T::SSubO => Z3_mk_bvsub(c, fx, fy), _ => Z3_mk_bvmul(c, fx, fy) };
                            let back = Z3_mk_sign_ext(c, big - wa, Z3_mk_extract(c, wa - 1, 0, v));
                            Z3_mk_not(c, Z3_mk_eq(c, v, back))
                        }
                        T::UAddO | T::UMulO => {
                            let big = 2 * wa;
                            let (fx, fy) = (Z3_mk_zero_ext(c, wa, self.fit(x, wa)), Z3_mk_zero_ext(c, wa, self.fit(y, wa)));
                            let v = if nd.op == T::UAddO { Z3_mk_bvadd(c, fx, fy) } else { Z3_mk_bvmul(c, fx, fy) };
                            Z3_mk_not(c, Z3_mk_eq(c, Z3_mk_extract(c, big - 1, wa, v), self.num(0, wa)))
                        }
                        _ => unreachable!("{:?}", nd.op),
                    }
                }
            }
        };
        self.cache.insert(t, (r, n));
        (r, n)
    }
    fn inum(&self, k: i128) -> P { unsafe { let s = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_int_sort(self.c)) } }
    /// exact encoding in integer arithmetic; None where the term is not linear, may wrap, or mixes bits
    fn ienc(&mut self, ts: &Terms, t: Tm) -> Option<P> {
        if let Some(r) = self.icache.get(&t) { return *r }
        let r = self.ienc0(ts, t);
        self.icache.insert(t, r);
        r
    }
    fn ienc0(&mut self, ts: &Terms, t: Tm) -> Option<P> {
        let nd = ts.n[t as usize].clone();
        let (w, c) = (nd.w, self.c);
        unsafe {
            Some(match nd.op {
                T::Const => if w == 1 { if nd.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.inum(sext(nd.k, w)) },
                T::Sym => {
                    if w == 1 { return None }
                    let nm = CString::new(format!("i{}", t)).unwrap();
                    let a = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_int_sort(c));
                    self.isyms.insert(t, a);
                    a
                }
                T::Ite => { let p = self.ienc(ts, nd.a)?; let x = self.ienc(ts, nd.b)?; let y = self.ienc(ts, nd.c)?; Z3_mk_ite(c, p, x, y) }
                T::ZExt => {
                    let x = self.ienc(ts, nd.a)?;
                    if ts.w(nd.a) == 1 { Z3_mk_ite(c, x, self.inum(1), self.inum(0)) } else if ts.iv(nd.a).0 >= 0 { x } else { return None }
                }
                T::SExt => { let x = self.ienc(ts, nd.a)?; if ts.w(nd.a) == 1 { Z3_mk_ite(c, x, self.inum(-1), self.inum(0)) } else { x } }
                T::Trunc => { let (lo, hi) = ts.iv(nd.a); if w == 1 || lo < smin(w) || hi > smax(w) { return None } self.ienc(ts, nd.a)? }
                T::And | T::Or | T::Xor if w == 1 => {
                    let (x, y) = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?);
                    match nd.op { T::And => Z3_mk_and(c, 2, [x, y].as_ptr()), T::Or => Z3_mk_or(c, 2, [x, y].as_ptr()), _ => if ts.is_c(nd.b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) } }
                }
                T::Add | T::Sub | T::Mul => {
                    let ((al, ah), (bl, bh)) = (ts.iv(nd.a), ts.iv(nd.b));
                    let fit = |v: Option<i128>| v.map_or(false, |v| v >= smin(w) && v <= smax(w));
                    let ok = match nd.op {
                        T::Add => fit(al.checked_add(bl)) && fit(ah.checked_add(bh)),
                        T::Sub => fit(al.checked_sub(bh)) && fit(ah.checked_sub(bl)),
                        _ => (ts.is_c(nd.a).is_some() || ts.is_c(nd.b).is_some()) && [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)].into_iter().all(fit),
                    };
                    if !ok { return None }
                    let v = [self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?];
                    match nd.op { T::Add => Z3_mk_add(c, 2, v.as_ptr()), T::Sub => Z3_mk_sub(c, 2, v.as_ptr()), _ => Z3_mk_mul(c, 2, v.as_ptr()) }
                }
                T::SDiv | T::SRem => {
                    let k = sext(ts.is_c(nd.b)?, w);
                    if k == 0 || k == i128::MIN { return None }
                    let lo = ts.iv(nd.a).0;
                    if lo == smin(w) { return None }
                    let x = self.ienc(ts, nd.a)?;
                    let kk = self.inum(k.abs());
                    let z = self.inum(0);
                    let q = if lo >= 0 { Z3_mk_div(c, x, kk) } else {
                        let nx = Z3_mk_sub(c, 2, [z, x].as_ptr());
                        let nq = Z3_mk_sub(c, 2, [z, Z3_mk_div(c, nx, kk)].as_ptr());
                        Z3_mk_ite(c, Z3_mk_le(c, z, x), Z3_mk_div(c, x, kk), nq)
                    };
                    if nd.op == T::SRem { Z3_mk_sub(c, 2, [x, Z3_mk_mul(c, 2, [kk, q].as_ptr())].as_ptr()) } else if k < 0 { Z3_mk_sub(c, 2, [z, q].as_ptr()) } else { q }
                }
                T::Eq => { let v = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?); Z3_mk_eq(c, v.0, v.1) }
                T::Slt => { let v = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?); Z3_mk_lt(c, v.0, v.1) }
                T::Sle => { let v = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?); Z3_mk_le(c, v.0, v.1) }
                T::Ult | T::Ule => {
                    // unsigned comparison with the sign made explicit
                    let (x, y) = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?);
                    let z = self.inum(0);
                    let (nx, ny) = (Z3_mk_lt(c, x, z), Z3_mk_lt(c, y, z));
                    let cmp = if nd.op == T::Ult { Z3_mk_lt(c, x, y) } else { Z3_mk_le(c, x, y) };
                    Z3_mk_ite(c, Z3_mk_eq(c, nx, ny), cmp, ny)
                }
                T::Gcd => {
                    if nd.hi > 4096 { return None }
                    let (x, y) = (self.ienc(ts, nd.a)?, self.ienc(ts, nd.b)?);
                    let z = self.inum(0);
                    let mut e = self.inum(1);
                    for g in 2..=nd.hi {
                        let gn = self.inum(g);
                        let dv = |x: P| Z3_mk_eq(c, x, Z3_mk_mul(c, 2, [gn, Z3_mk_div(c, x, gn)].as_ptr()));
                        let (ka, kb) = (ts.is_c(nd.a), ts.is_c(nd.b));
                        if ka.map_or(false, |k| sext(k, w) % g != 0) || kb.map_or(false, |k| sext(k, w) % g != 0) { continue }
                        let mut cnd = vec![];
                        if ka.is_none() { cnd.push(dv(x)) }
                        if kb.is_none() { cnd.push(dv(y)) }
                        e = Z3_mk_ite(c, Z3_mk_and(c, cnd.len() as c_uint, cnd.as_ptr()), self.inum(g), e);
                    }
                    let bz = [Z3_mk_eq(c, x, z), Z3_mk_eq(c, y, z)];
                    Z3_mk_ite(c, Z3_mk_and(c, 2, bz.as_ptr()), self.inum(0), e)
                }
                _ => return None,
            })
        }
    }
    fn check_lia(&mut self, ts: &Terms, key: &[Tm], path_syms: &[Tm], sup: u64) -> Res {
        let mut enc = vec![];
        for t in key { match self.ienc(ts, *t) { Some(p) => enc.push(p), None => return Res::Unknown } }
        let dom: Vec<(P, Tm, u32)> = path_syms.iter().enumerate().filter(|(i, _)| sup >> i & 1 == 1).filter_map(|(i, t)| self.isyms.get(t).map(|v| (*v, *t, i as u32))).collect();
        let (c, s) = (self.c, self.lia);
        let mut res = Res::Unknown;
        unsafe {
            Z3_solver_push(c, s);
            for (a, t, _) in &dom {
                let nd = &ts.n[*t as usize];
                Z3_solver_assert(c, s, Z3_mk_le(c, self.inum(nd.lo), *a));
                Z3_solver_assert(c, s, Z3_mk_le(c, *a, self.inum(nd.hi)));
            }
            for a in &enc { Z3_solver_assert(c, s, *a) }
            let r = Z3_solver_check(c, s);
            if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut v = vec![];
                for (a, _, id) in &dom {
                    let mut o: P = std::ptr::null_mut();
                    Z3_model_eval(c, m, *a, true, &mut o);
                    v.push((*id, CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse::<i128>().unwrap()));
                }
                Z3_model_dec_ref(c, m);
                res = Res::Sat(v);
            } else if r == -1 { res = Res::Unsat }
            Z3_solver_pop(c, s, 1);
        }
        res
    }
    /// satisfiability of the conjunction
    pub fn check(&mut self, ts: &Terms, conds: &[Tm], path_syms: &[Tm]) -> Res {
        let mut key: Vec<Tm> = conds.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) { self.stats.cached += 1; return r.clone() }
        let t0 = Instant::now();
        let mut sup = 0u64;
        for t in &key { sup |= ts.n[*t as usize].sup }
        let enc: Vec<P> = key.iter().map(|t| self.enc(ts, *t).0).collect();
        let dom: Vec<(P, u32, Tm, u32)> = path_syms.iter().enumerate().filter(|(i, _)| sup >> i & 1 == 1).filter_map(|(i, t)| self.syms.get(t).map(|v| (v.0, v.1, *t, i as u32))).collect();
        let c = self.c;
        let mut res = Res::Unknown;
        for (round, s) in [self.simple, self.strong].into_iter().enumerate() {
            if round == 1 {
                res = self.check_lia(ts, &key, path_syms, sup);
                if !matches!(res, Res::Unknown) { self.stats.lia += 1; break }
            }
            unsafe {
                Z3_solver_push(c, s);
                for (a, n, t, _) in &dom {
                    let nd = &ts.n[*t as usize];
                    if *n == 1 { continue }
                    if nd.lo != smin(*n) { Z3_solver_assert(c, s, Z3_mk_bvsle(c, self.num(nd.lo as u128, *n), *a)) }
                    if nd.hi != smax(*n) { Z3_solver_assert(c, s, Z3_mk_bvsle(c, *a, self.num(nd.hi as u128, *n))) }
                }
                for a in &enc { Z3_solver_assert(c, s, *a) }
                let r = Z3_solver_check(c, s);
                if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for (a, n, _, id) in &dom {
                        if *n == 1 { continue }
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, *a, true, &mut o);
                        let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().to_string();
                        let k: u128 = st.parse().unwrap();
                        v.push((*id, sext(k, *n)));
                    }
                    Z3_model_dec_ref(c, m);
                    res = Res::Sat(v);
                } else if r == -1 { res = Res::Unsat }
                Z3_solver_pop(c, s, 1);
            }
            if !matches!(res, Res::Unknown) { break }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        if dt > 2.0 && self.slow { eprintln!("slow {:.1}s {:?}", dt, matches!(res, Res::Unsat)); for t in &key { eprintln!("    {}", ts.show(*t, 12)) } }
        self.stats.time += dt;
        self.stats.max = self.stats.max.max(dt);
        match res { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        self.qcache.insert(key, res.clone());
        res
    }
}
impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.simple); Z3_solver_dec_ref(self.c, self.strong); Z3_solver_dec_ref(self.c, self.lia); Z3_del_context(self.c) } } }
