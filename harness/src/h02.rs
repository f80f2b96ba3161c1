//! Rational: powers, division with remainder, gcd, floor, abs, inverse, binomial coefficients
use crate::h01::canonical;
use crate::rr::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::rational::{binomial_coeff, Rational};

fn frac(n: i128, d: i128) -> Val { Val::int(n).div(Val::int(d)) }
fn mk(nb: i128, db: i128) -> (i128, i128, Rational) {
    let (a, b) = (int(-nb, nb), conc(int(1, db)));
    (a, b, Rational::from((a, b)))
}
pub fn unary() {
    let (a, b, r) = if thorough() { mk(1000, 12) } else { mk(60, 6) };
    show("r", &r);
    let f = r.floor();
    check(f * b <= a && a < (f + 1) * b, "floor");
    let m = r.abs();
    check(m.numer() * b == a.abs() * m.denom(), "abs");
    canonical(&m);
    match r.inverse() {
        None => check(a == 0, "inverse of a nonzero number"),
        Some(i) => { check(a != 0 && i.numer() * a == b * i.denom() && i.denom() > 0, "inverse") }
    }
}
pub fn div_rem() {
    let (a, b, r) = if thorough() { mk(1000, 12) } else { mk(60, 6) };
    let (q, m) = r.div_rem();
    show("q", &q); show("m", &m);
    check(q.is_int(), "quotient is an integer");
    check(rat(&q).add(rat(&m)).eq(frac(a, b)), "quotient + remainder");
    check(m.numer().abs() < m.denom(), "remainder below one");
    canonical(&m);
}
pub fn gcd() {
    let (a, b, p) = if thorough() { mk(24, 3) } else { mk(10, 2) };
    let (c, d, q) = if thorough() { mk(24, 3) } else { mk(10, 2) };
    let _ = (a, b, c, d);
    if let Some(g) = p.int_gcd(&q) {
        show("g", &g);
        if p.is_zero() && q.is_zero() { check(g.is_zero(), "gcd(0,0)"); return }
        check(g.is_pos(), "gcd positive");
        check((p / g).is_int() && (q / g).is_int(), "gcd divides both");
        check((p / g).is_zero() || (q / g).is_zero() || coprime((p / g).numer(), (q / g).numer(), 60), "gcd is greatest");
    } else { check(!(p.is_int() && q.is_int()), "integers have a gcd") }
}
fn coprime(a: i128, b: i128, m: i128) -> bool {
    let mut k = 2;
    while k <= m { if a % k == 0 && b % k == 0 { return false } k += 1 }
    true
}
/// base^(n/d) = pow * base^rem for every exponent
fn pow(nb: i128, db: i128, eb: i128, edb: i128) {
    let (a, b, r) = mk(nb, db);
    let (e, f) = (conc(int(-eb, eb)), conc(int(1, edb)));
    assume(a != 0 || e > 0);
    let ex = Rational::from((e, f));
    let (p, m) = r.pow(ex);
    show("base", &r); show("exp", &ex); show("p", &p); show("m", &m);
    canonical(&p); canonical(&m);
    if ex.is_int() {
        check(m.is_zero(), "integer power leaves no remainder");
        let mut w = Val::int(1);
        let x = if e >= 0 { frac(a, b) } else { frac(b, a) };
        let mut k = 0;
        while k < ex.numer().abs() { w = w.mul(x); k += 1 }
        check(rat(&p).eq(w), "integer power");
    } else if a > 0 {
        // a negative base has no agreed value for a fractional exponent
        if p == r && m == ex { return } // returned unchanged
        check(m.numer().abs() < m.denom(), "remainder below one");
        // p = base^(exp-rem) with an integer difference
        let d = ex - m;
        check(d.is_int(), "exponent applied is an integer");
        let k = conc(d.numer());
        let x = if k >= 0 { frac(a, b) } else { frac(b, a) };
        let mut w = Val::int(1);
        let mut i = 0;
        while i < k.abs() { w = w.mul(x); i += 1 }
        check(rat(&p).eq(w), "fractional power: value and remainder exponent");
    }
    let bas = r.pow_basic(ex);
    check(bas.is_none() == !m.is_zero() && (bas.is_none() || bas == Some(p)), "pow_basic agrees");
}
pub fn powi() { if thorough() { pow(50, 4, 6, 1) } else { pow(12, 3, 4, 1) } }
pub fn powf() { if thorough() { pow(12, 3, 7, 3) } else { pow(6, 2, 5, 3) } }
/// 2^k for large k, including the point where i128 is exhausted
pub fn powbig() {
    let a = [2i128, -2, 3, 10][choose(4) as usize];
    let k = conc(int(20, 130));
    let (p, m) = Rational::from(a).pow(Rational::from(k));
    if m.is_zero() {
        let mut w = 1i128; let mut ok = true; let mut i = 0;
        while i < k { match w.checked_mul(a) { Some(x) => w = x, None => { ok = false; break } } i += 1 }
        check(ok && p.numer() == w && p.denom() == 1, "big power exact");
    } else { check(p == Rational::from(a) && m == Rational::from(k), "big power not computed is returned unchanged") }
}
pub fn binom() {
    let n = conc(int(0, if thorough() { 40 } else { 20 }));
    let k = conc(int(0, 40));
    assume(k <= n);
    let b = binomial_coeff(n, k);
    if k == 0 || k == n { check(b == 1, "binomial border") }
    else { check(b == binomial_coeff(n - 1, k - 1) + binomial_coeff(n - 1, k), "Pascal's rule") }
}
