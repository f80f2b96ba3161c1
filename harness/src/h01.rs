//! Rational: arithmetic, canonical form, ordering, conversions, predicates
use crate::rr::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::rational::Rational;

fn frac(n: i128, d: i128) -> Val { Val::int(n).div(Val::int(d)) }
/// lowest terms, positive denominator; dmax bounds the denominator
pub fn canonical(r: &Rational) {
    let (n, d) = (r.numer(), conc(r.denom()));
    check(d > 0, "denominator positive");
    let mut p = 2;
    while p <= d {
        if d % p == 0 { check(n % p != 0, "lowest terms"); }
        p += 1;
    }
}
fn arith(nb: i128, db: i128, variant: u32) {
    let op = choose(4);
    // the gcd of two symbolic numerators is costly
    let nb = if op == 3 { nb / 5 } else { nb };
    let (a, b, c, d) = (int(-nb, nb), conc(int(1, db)), int(-nb, nb), conc(int(1, db)));
    let (p, q) = (Rational::from((a, b)), Rational::from((c, d)));
    let (x, y) = (frac(a, b), frac(c, d));
    if op == 3 { assume(c != 0) }
    let r = match (op, variant) {
        (0, 0) => p + q, (1, 0) => p - q, (2, 0) => p * q, (_, 0) => p / q,
        (0, 1) => p + &q, (1, 1) => p - &q, (2, 1) => p * &q, (_, 1) => p / &q,
        (0, 2) => { let mut r = p; r += q; r } (1, 2) => { let mut r = p; r -= q; r } (2, 2) => { let mut r = p; r *= q; r } (_, 2) => { let mut r = p; r /= q; r }
        (0, _) => { let mut r = p; r += &q; r } (1, _) => { let mut r = p; r -= &q; r } (2, _) => { let mut r = p; r *= &q; r } (_, _) => { let mut r = p; r /= &q; r }
    };
    let w = match op { 0 => x.add(y), 1 => x.sub(y), 2 => x.mul(y), _ => x.div(y) };
    show("r", &r);
    check(rat(&r).eq(w), ["sum", "difference", "product", "quotient"][op as usize]);
    canonical(&r);
}
pub fn arith_own() { if thorough() { arith(400, 5, 0) } else { arith(60, 3, 0) } }
pub fn arith_var() { let v = 1 + choose(3); if thorough() { arith(60, 3, v) } else { arith(30, 2, v) } }
/// integers over a wide range
pub fn wide() {
    let c = choose(3);
    let m = 1i128 << if c == 2 { 40 } else { 100 };
    let (a, b) = (int(-m, m), int(-m, m));
    let (p, q) = (Rational::from(a), Rational::from(b));
    let r = match c { 0 => { let r = p + q; check(r.numer() == a + b, "wide sum"); r } 1 => { let r = p - q; check(r.numer() == a - b, "wide difference"); r } _ => { let r = p * q; check(r.numer() == a * b, "wide product"); r } };
    check(r.denom() == 1, "integer result has denominator 1");
    check((p < q) == (a < b) && (p == q) == (a == b), "wide comparison");
}
pub fn create() {
    let nb = if thorough() { 1000 } else { 60 };
    let db = if thorough() { 12 } else { 6 };
    let (a, b) = (int(-nb, nb), conc(int(-db, db)));
    assume(b != 0);
    let r = match choose(3) { 0 => Rational::new(a, b), 1 => Rational::from((a, b)), _ => Rational::from((a as i32, b as i32)) };
    show("r", &r);
    canonical(&r);
    check(r.numer() * b == a * r.denom(), "created value");
}
pub fn convert() {
    let m = 1i128 << 31;
    let a = int(-m, m - 1);
    check(Rational::from(a).numer() == a && Rational::from(a).denom() == 1, "from i128");
    check(Rational::new_int(a) == Rational::from(a), "new_int");
    check(Rational::from(a as i64) == Rational::from(a), "from i64");
    check(Rational::from(a as i32) == Rational::from(a), "from i32");
    check(Rational::from(a).to_int() == Some(a), "to_int of an integer");
    if a >= 0 {
        check(Rational::from(a as u64) == Rational::from(a), "from u64");
        check(Rational::from(a as u32) == Rational::from(a), "from u32");
    }
    let h = Rational::from((2 * a + 1, 2i128));
    check(h.to_int().is_none() && !h.is_int() && h.is_fraction() && !h.is_even() && !h.is_odd(), "a fraction is no integer");
}
pub fn preds() {
    let nb = if thorough() { 1000 } else { 60 };
    let (a, b) = (int(-nb, nb), conc(int(1, 6)));
    let r = Rational::from((a, b));
    show("r", &r);
    check(r.is_zero() == (a == 0), "is_zero");
    check(r.is_one() == (a == b), "is_one");
    check(r.is_two() == (a == 2 * b), "is_two");
    check(r.is_min_one() == (a == -b), "is_min_one");
    check(r.is_min_two() == (a == -2 * b), "is_min_two");
    check(r.is_pos() == (a > 0), "is_pos");
    check(r.is_neg() == (a < 0), "is_neg");
    check(r.is_int() == (a % b == 0), "is_int");
    check(r.is_fraction() == (a % b != 0), "is_fraction");
    check(r.is_even() == (a % (2 * b) == 0), "is_even");
    check(r.is_odd() == (a % b == 0 && a % (2 * b) != 0), "is_odd");
    check(r.to_int() == if a % b == 0 { Some(a / b) } else { None }, "to_int");
    canonical(&r.abs());
    match r.inverse() { None => check(a == 0, "inverse of a nonzero number"), Some(i) => { check(a != 0 && i.numer() * a == b * i.denom(), "inverse"); canonical(&i) } }
}
pub fn order() {
    let nb = if thorough() { 200 } else { 40 };
    let db = if thorough() { 5 } else { 4 };
    let (a, b, c, d) = (int(-nb, nb), conc(int(1, db)), int(-nb, nb), conc(int(1, db)));
    let (p, q) = (Rational::from((a, b)), Rational::from((c, d)));
    let (l, r) = (a * d, c * b);
    match choose(5) {
        0 => check((p == q) == (l == r), "equality"),
        1 => check((p < q) == (l < r), "less"),
        2 => check((p <= q) == (l <= r), "less or equal"),
        3 => check(p.cmp(&q) == l.cmp(&r), "cmp"),
        _ => check(p.partial_cmp(&q) == Some(l.cmp(&r)), "partial_cmp"),
    }
}
pub fn consts() {
    for (r, k) in [(Rational::ZERO, 0), (Rational::ONE, 1), (Rational::TWO, 2), (Rational::MINUS_ONE, -1), (Rational::MINUS_TWO, -2), (Rational::default(), 0)] {
        check(r.numer() == k && r.denom() == 1, "constant");
    }
}
/// integers and fractions beyond 64 bits
pub fn big() {
    let m = 1i128 << 120;
    let a = int(-m, m);
    let r = Rational::from(a);
    show("r", &r);
    match choose(6) {
        0 => {
            check(r.to_int() == Some(a), "to_int of a large integer");
            check(r.is_int() && !r.is_fraction(), "a large integer is an integer");
            check(r.is_pos() == (a > 0) && r.is_neg() == (a < 0) && r.is_zero() == (a == 0), "sign of a large integer");
            check(r.is_one() == (a == 1) && r.is_two() == (a == 2) && r.is_min_one() == (a == -1) && r.is_min_two() == (a == -2), "small constants");
        }
        1 => check(r.is_even() == (a % 2 == 0) && r.is_odd() == (a % 2 != 0), "parity of a large integer"),
        2 => {
            let b = r.abs();
            check(b.numer() == a.abs() && b.denom() == 1, "abs of a large integer");
            let n = Rational::ZERO - r;
            check(n.numer() == -a && n.denom() == 1, "negation of a large integer");
        }
        3 => match r.inverse() {
            None => check(a == 0, "inverse of a nonzero number"),
            Some(i) => check(a != 0 && i.numer() == a.signum() && i.denom() == a.abs(), "inverse of a large integer"),
        },
        4 => {
            let h = Rational::from((a, 2i128));
            check(if a % 2 == 0 { h.numer() == a / 2 && h.denom() == 1 } else { h.numer() == a && h.denom() == 2 }, "half of a large integer");
            check(h.is_int() == (a % 2 == 0) && h.to_int() == if a % 2 == 0 { Some(a / 2) } else { None }, "half as an integer");
            check(h.is_pos() == (a > 0) && h.is_neg() == (a < 0), "sign of a half");
        }
        _ => {
            let b = int(-m, m);
            let s = Rational::from(b);
            check(r.cmp(&s) == a.cmp(&b) && (r == s) == (a == b) && r.partial_cmp(&s) == Some(a.cmp(&b)), "order of large integers");
        }
    }
}
/// 64 bit and 32 bit integers
pub fn native() {
    let a = int(-(1i128 << 63), (1i128 << 64) - 1);
    if a < 1i128 << 63 { let r = Rational::from(a as i64); check(r.numer() == a && r.denom() == 1, "from i64") }
    if a >= 0 { let r = Rational::from(a as u64); check(r.numer() == a && r.denom() == 1, "from u64") }
    let b = int(-(1i128 << 31), (1i128 << 32) - 1);
    if b < 1i128 << 31 { let r = Rational::from(b as i32); check(r.numer() == b && r.denom() == 1, "from i32") }
    if b >= 0 { let r = Rational::from(b as u32); check(r.numer() == b && r.denom() == 1, "from u32") }
}
