//! Value oracle handles. In the engine: exact rational functions with symbolic coefficients. Natively:
//! expression trees compared numerically (complex numbers, running error bound) at several points.
use crate::sx::api;
use std::cell::RefCell;
use std::rc::Rc;

pub const SIN: u32 = 0;
pub const ASIN: u32 = 1;
pub const COS: u32 = 2;
pub const ACOS: u32 = 3;
pub const TAN: u32 = 4;
pub const ATAN: u32 = 5;
pub const SEC: u32 = 6;
pub const ASEC: u32 = 7;
pub const COT: u32 = 8;
pub const ACOT: u32 = 9;
pub const CSC: u32 = 10;
pub const ACSC: u32 = 11;
pub const LN: u32 = 12;
pub const EXP: u32 = 13;

#[derive(Clone, Copy, Debug)]
struct C { r: f64, i: f64 }
impl C {
    fn new(r: f64, i: f64) -> C { C { r, i } }
    fn re(r: f64) -> C { C { r, i: 0.0 } }
    fn add(self, o: C) -> C { C::new(self.r + o.r, self.i + o.i) }
    fn sub(self, o: C) -> C { C::new(self.r - o.r, self.i - o.i) }
    fn mul(self, o: C) -> C { C::new(self.r * o.r - self.i * o.i, self.r * o.i + self.i * o.r) }
    fn abs(self) -> f64 { self.r.hypot(self.i) }
    fn div(self, o: C) -> C { let n = o.r * o.r + o.i * o.i; let p = self.mul(C::new(o.r, -o.i)); C::new(p.r / n, p.i / n) }
    fn ln(self) -> C { C::new(self.abs().ln(), if self.i == 0.0 && self.r < 0.0 { std::f64::consts::PI } else { self.i.atan2(self.r) }) }
    fn exp(self) -> C { let e = self.r.exp(); if self.i == 0.0 { C::re(e) } else { C::new(e * self.i.cos(), e * self.i.sin()) } }
    fn i() -> C { C::new(0.0, 1.0) }
    fn sqrt(self) -> C { if self.i == 0.0 { if self.r >= 0.0 { C::re(self.r.sqrt()) } else { C::new(0.0, (-self.r).sqrt()) } } else { let l = self.ln(); C::new(l.r / 2.0, l.i / 2.0).exp() } }
    fn sin(self) -> C { if self.i == 0.0 { return C::re(self.r.sin()) } let a = C::i().mul(self).exp(); let b = C::i().mul(self).mul(C::re(-1.0)).exp(); a.sub(b).div(C::new(0.0, 2.0)) }
    fn cos(self) -> C { if self.i == 0.0 { return C::re(self.r.cos()) } let a = C::i().mul(self).exp(); let b = C::i().mul(self).mul(C::re(-1.0)).exp(); a.add(b).div(C::re(2.0)) }
    fn asin(self) -> C { if self.i == 0.0 && self.r.abs() <= 1.0 { return C::re(self.r.asin()) } let s = C::re(1.0).sub(self.mul(self)).sqrt(); C::i().mul(self).add(s).ln().mul(C::new(0.0, -1.0)) }
    fn atan(self) -> C { if self.i == 0.0 { return C::re(self.r.atan()) } let a = C::re(1.0).sub(C::i().mul(self)).ln(); let b = C::re(1.0).add(C::i().mul(self)).ln(); a.sub(b).mul(C::new(0.0, 0.5)) }
    fn acos(self) -> C { if self.i == 0.0 && self.r.abs() <= 1.0 { return C::re(self.r.acos()) } C::re(std::f64::consts::FRAC_PI_2).sub(self.asin()) }
}

#[derive(Debug)]
enum N { Int(i128), Var(u32), Pi, Undef, Add(R, R), Mul(R, R), Div(R, R), Pow(R, R), Fn(u32, R) }
type R = Rc<N>;

const POINTS: [[f64; 6]; 5] = [
    [0.731, 1.413, 0.387, 2.171, 0.893, 1.719],
    [1.937, 0.571, 2.713, 0.619, 1.271, 0.433],
    [0.317, 2.239, 1.153, 1.831, 0.541, 3.117],
    [3.371, 0.877, 0.659, 0.293, 2.357, 0.787],
    [0.149, 0.263, 1.861, 1.097, 3.023, 2.543],
];
const EPS: f64 = 1e-15;
// a logarithm of a negative number was met: such a value decides nothing
thread_local! { static BRANCH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }

/// value and absolute error bound; None: undefined at this point
fn ev(n: &N, p: &[f64; 6]) -> Option<(C, f64)> {
    let r = match n {
        N::Int(k) => (C::re(*k as f64), 0.0),
        N::Var(i) => (C::re(p[*i as usize % 6]), 0.0),
        N::Pi => (C::re(std::f64::consts::PI), 0.0),
        N::Undef => return None,
        N::Add(a, b) => { let ((x, ex), (y, ey)) = (ev(a, p)?, ev(b, p)?); (x.add(y), ex + ey + EPS * (x.abs() + y.abs())) }
        N::Mul(a, b) => { let ((x, ex), (y, ey)) = (ev(a, p)?, ev(b, p)?); (x.mul(y), x.abs() * ey + y.abs() * ex + 2.0 * EPS * x.abs() * y.abs()) }
        N::Div(a, b) => {
            let ((x, ex), (y, ey)) = (ev(a, p)?, ev(b, p)?);
            if y.abs() <= 100.0 * ey + 1e-13 { return None }
            let z = x.div(y);
            (z, (ex + z.abs() * ey) / y.abs() + 4.0 * EPS * z.abs())
        }
        N::Pow(a, b) => {
            let ((x, ex), (y, ey)) = (ev(a, p)?, ev(b, p)?);
            if x.abs() <= 100.0 * ex + 1e-13 { return if y.r > 1e-9 { Some((C::re(0.0), ex)) } else { None } }
            // fractional powers are taken of positive numbers only
            if !(y.i == 0.0 && y.r.fract() == 0.0) && (x.r < 0.0 || x.i != 0.0) { return None }
            let rel = ex / x.abs();
            let z = if y.i == 0.0 && y.r.fract() == 0.0 && y.r.abs() < 200.0 {
                let mut z = C::re(1.0);
                for _ in 0..y.r.abs() as i64 { z = z.mul(x) }
                if y.r < 0.0 { C::re(1.0).div(z) } else { z }
            } else { y.mul(x.ln()).exp() };
            let l = x.ln().abs();
            (z, z.abs() * (rel * y.abs() + ey * l + EPS * (4.0 + 2.0 * y.abs() * (1.0 + l))))
        }
        N::Fn(k, a) => {
            let (x, ex) = ev(a, p)?;
            let one = C::re(1.0);
            let near0 = |z: C| z.abs() <= 100.0 * ex + 1e-12;
            let f = |x: C| -> Option<C> {
                Some(match *k {
                    SIN => x.sin(), COS => x.cos(),
                    TAN => { if near0(x.cos()) { return None } x.sin().div(x.cos()) }
                    COT => { if near0(x.sin()) { return None } x.cos().div(x.sin()) }
                    SEC => { if near0(x.cos()) { return None } one.div(x.cos()) }
                    CSC => { if near0(x.sin()) { return None } one.div(x.sin()) }
                    ASIN => x.asin(), ACOS => x.acos(), ATAN => x.atan(),
                    ACOT => C::re(std::f64::consts::FRAC_PI_2).sub(x.atan()),
                    ASEC => { if near0(x) { return None } one.div(x).acos() }
                    ACSC => { if near0(x) { return None } one.div(x).asin() }
                    LN => { if near0(x) { return None } if x.i == 0.0 && x.r < 0.0 { BRANCH.with(|b| b.set(true)); return None } x.ln() }
                    _ => x.exp(),
                })
            };
            let z = f(x)?;
            let h = 1e-6 * (1.0 + x.abs());
            let d = f(x.add(C::re(h))).map(|w| w.sub(z).abs() / h).unwrap_or(1e6);
            (z, ex * (d + 1.0) * 2.0 + 4.0 * EPS * (z.abs() + x.abs()))
        }
    };
    if !r.0.r.is_finite() || !r.0.i.is_finite() || !r.1.is_finite() { return None }
    Some(r)
}
fn mk(n: N) -> R { Rc::new(n) }
fn i(k: i128) -> R { mk(N::Int(k)) }
fn add(a: &R, b: &R) -> R { mk(N::Add(a.clone(), b.clone())) }
fn mul(a: &R, b: &R) -> R { mk(N::Mul(a.clone(), b.clone())) }
fn div(a: &R, b: &R) -> R { mk(N::Div(a.clone(), b.clone())) }
fn pow(a: &R, b: &R) -> R { mk(N::Pow(a.clone(), b.clone())) }
fn fun(k: u32, a: &R) -> R { mk(N::Fn(k, a.clone())) }
fn is_const(n: &N, v: u32) -> bool {
    match n { N::Int(_) | N::Pi | N::Undef => true, N::Var(k) => *k != v, N::Add(a, b) | N::Mul(a, b) | N::Div(a, b) | N::Pow(a, b) => is_const(a, v) && is_const(b, v), N::Fn(_, a) => is_const(a, v) }
}
fn diff(n: &R, v: u32) -> R {
    if is_const(n, v) { return i(0) }
    match &**n {
        N::Var(_) => i(1),
        N::Add(a, b) => add(&diff(a, v), &diff(b, v)),
        N::Mul(a, b) => add(&mul(&diff(a, v), b), &mul(a, &diff(b, v))),
        N::Div(a, b) => { let t = add(&mul(&diff(a, v), b), &mul(&i(-1), &mul(a, &diff(b, v)))); div(&t, &mul(b, b)) }
        N::Pow(a, b) => {
            if is_const(b, v) { let e = add(b, &i(-1)); return mul(&mul(b, &pow(a, &e)), &diff(a, v)) }
            if is_const(a, v) { return mul(&mul(n, &fun(LN, a)), &diff(b, v)) }
            let t = add(&mul(&diff(b, v), &fun(LN, a)), &div(&mul(b, &diff(a, v)), a));
            mul(n, &t)
        }
        N::Fn(k, a) => {
            let one = i(1);
            let a2 = mul(a, a);
            let neg = |x: &R| mul(&i(-1), x);
            let f = match *k {
                SIN => fun(COS, a),
                COS => neg(&fun(SIN, a)),
                TAN => { let c = fun(COS, a); div(&one, &mul(&c, &c)) }
                COT => { let c = fun(SIN, a); neg(&div(&one, &mul(&c, &c))) }
                SEC => { let c = fun(COS, a); div(&fun(SIN, a), &mul(&c, &c)) }
                CSC => { let c = fun(SIN, a); neg(&div(&fun(COS, a), &mul(&c, &c))) }
                ATAN => div(&one, &add(&one, &a2)),
                ACOT => neg(&div(&one, &add(&one, &a2))),
                ASIN | ACOS => { let s = pow(&add(&one, &neg(&a2)), &div(&i(-1), &i(2))); if *k == ASIN { s } else { neg(&s) } }
                ASEC | ACSC => { let s = pow(&add(&one, &neg(&div(&one, &a2))), &div(&i(-1), &i(2))); let s = div(&s, &a2); if *k == ASEC { s } else { neg(&s) } }
                LN => div(&one, a),
                _ => n.clone(),
            };
            mul(&f, &diff(a, v))
        }
        _ => i(0),
    }
}

thread_local! { static H: RefCell<Vec<R>> = const { RefCell::new(Vec::new()) } }
fn get(h: u32) -> R { H.with(|x| x.borrow()[h as usize].clone()) }
fn put(r: R) -> u32 { H.with(|x| { x.borrow_mut().push(r); x.borrow().len() as u32 - 1 }) }
fn undefd(r: &R) -> bool { POINTS.iter().all(|p| ev(r, p).is_none()) }

mod imp {
    use super::*;
    pub extern "C" fn int(k: i128) -> u32 { put(i(k)) }
    pub extern "C" fn var(k: u32) -> u32 { put(mk(N::Var(k))) }
    pub extern "C" fn pi() -> u32 { put(mk(N::Pi)) }
    pub extern "C" fn undef() -> u32 { put(mk(N::Undef)) }
    pub extern "C" fn add(a: u32, b: u32) -> u32 { put(super::add(&get(a), &get(b))) }
    pub extern "C" fn mul(a: u32, b: u32) -> u32 { put(super::mul(&get(a), &get(b))) }
    pub extern "C" fn div(a: u32, b: u32) -> u32 { put(super::div(&get(a), &get(b))) }
    pub extern "C" fn pow(a: u32, b: u32) -> u32 { put(super::pow(&get(a), &get(b))) }
    pub extern "C" fn neg(a: u32) -> u32 { put(super::mul(&i(-1), &get(a))) }
    pub extern "C" fn fun(k: u32, a: u32) -> u32 { put(super::fun(k, &get(a))) }
    pub extern "C" fn diff(a: u32, v: u32) -> u32 { put(super::diff(&get(a), v)) }
    pub extern "C" fn is_undef(a: u32) -> bool { undefd(&get(a)) }
    pub extern "C" fn is_zero(a: u32) -> bool {
        let r = get(a);
        !undefd(&r) && POINTS.iter().all(|p| match ev(&r, p) { None => true, Some((z, e)) => z.abs() <= 1000.0 * e + 1e-12 })
    }
    pub extern "C" fn eq(a: u32, b: u32) -> bool {
        let (x, y) = (get(a), get(b));
        BRANCH.with(|b| b.set(false));
        let (ux, uy) = (undefd(&x), undefd(&y));
        if ux != uy && BRANCH.with(|b| b.get()) { return true }
        if ux || uy { return ux == uy }
        POINTS.iter().all(|p| match (ev(&x, p), ev(&y, p)) {
            (Some((z, e)), Some((w, f))) => z.sub(w).abs() <= 1e-7 * (z.abs() + w.abs()) + 1000.0 * (e + f) + 1e-12,
            _ => true,
        })
    }
}
api! {
    rr_int, imp::int, (k: i128) -> u32;
    rr_var, imp::var, (k: u32) -> u32;
    rr_pi, imp::pi, () -> u32;
    rr_undef, imp::undef, () -> u32;
    rr_add, imp::add, (a: u32, b: u32) -> u32;
    rr_mul, imp::mul, (a: u32, b: u32) -> u32;
    rr_div, imp::div, (a: u32, b: u32) -> u32;
    rr_pow, imp::pow, (a: u32, b: u32) -> u32;
    rr_neg, imp::neg, (a: u32) -> u32;
    rr_fn, imp::fun, (k: u32, a: u32) -> u32;
    rr_diff, imp::diff, (a: u32, v: u32) -> u32;
    rr_is_undef, imp::is_undef, (a: u32) -> bool;
    rr_is_zero, imp::is_zero, (a: u32) -> bool;
    rr_eq, imp::eq, (a: u32, b: u32) -> bool;
}

#[derive(Clone, Copy)]
pub struct Val(pub u32);
impl Val {
    pub fn int(k: i128) -> Val { Val(rr_int(k)) }
    pub fn var(k: u32) -> Val { Val(rr_var(k)) }
    pub fn pi() -> Val { Val(rr_pi()) }
    pub fn undef() -> Val { Val(rr_undef()) }
    pub fn add(self, o: Val) -> Val { Val(rr_add(self.0, o.0)) }
    pub fn sub(self, o: Val) -> Val { Val(rr_add(self.0, rr_neg(o.0))) }
    pub fn mul(self, o: Val) -> Val { Val(rr_mul(self.0, o.0)) }
    pub fn div(self, o: Val) -> Val { Val(rr_div(self.0, o.0)) }
    pub fn pow(self, o: Val) -> Val { Val(rr_pow(self.0, o.0)) }
    pub fn neg(self) -> Val { Val(rr_neg(self.0)) }
    pub fn f(self, k: u32) -> Val { Val(rr_fn(k, self.0)) }
    pub fn diff(self, v: u32) -> Val { Val(rr_diff(self.0, v)) }
    pub fn is_undef(self) -> bool { rr_is_undef(self.0) }
    pub fn is_zero(self) -> bool { rr_is_zero(self.0) }
    pub fn eq(self, o: Val) -> bool { rr_eq(self.0, o.0) }
}
