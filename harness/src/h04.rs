//! constructors and operators
use crate::gen::*;
use crate::sx::*;
use crate::rr::*;
use crate::val::*;
use calcu_rs::prelude::*;

fn bin(a: Expr, b: Expr) {
    show("a", &a); show("b", &b);
    let (x, y) = (val(&a), val(&b));
    if x.is_undef() || y.is_undef() { return }
    let c = choose(5);
    let (r, w) = match c {
        0 => (&a + &b, x.add(y)),
        1 => (&a - &b, x.sub(y)),
        2 => (&a * &b, x.mul(y)),
        3 => (&a / &b, x.div(y)),
        _ => (Expr::pow(&a, &b), x.pow(y)),
    };
    show("r", &r);
    if w.is_undef() { return }
    check(val(&r).eq(w), ["sum", "difference", "product", "quotient", "power"][c as usize]);
}
const S: G = G { raw: false, ops: ARITH, leaves: BASIC, k: 2, rd: 0 };
const F: G = G { ops: &[Op::Add, Op::Mul, Op::PowF, Op::PowI, Op::Sin, Op::Exp, Op::Ln, Op::PowE], leaves: &[Leaf::X, Leaf::Int, Leaf::Half, Leaf::Pi, Leaf::E], ..S };
pub fn s11() { let g = if thorough() { G { k: 3, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Div], ..S } } else { S }; let (a, b) = (g.tree(1), g.tree(1)); bin(a, b) }
/// depth 2 against depth 1, either way round
pub fn s21() {
    let g = if thorough() { S } else { G { leaves: &[Leaf::X, Leaf::Int], ..S } };
    let (a, b) = (g.top(2), if thorough() { g.tree(1) } else { g.leaf() });
    if choose(2) == 0 { bin(a, b) } else { bin(b, a) }
}
pub fn r11() { let g = G { raw: true, ..S }; let (a, b) = (g.tree(1), g.tree(1)); bin(a, b) }
/// functions, fractional powers and constants as operands
pub fn f11() { let (a, b) = if thorough() { (F.tree(1), F.tree(1)) } else { (G { leaves: &[Leaf::X, Leaf::Int], ..F }.tree(1), F.tree(0)) }; if choose(2) == 0 { bin(a, b) } else { bin(b, a) } }
pub fn f12() { let g = G { leaves: &[Leaf::X, Leaf::Int], ops: &[Op::PowF, Op::PowI, Op::Mul, Op::Exp], ..S }; let (a, b) = (g.tree(2), if thorough() { g.tree(1) } else { g.leaf() }); bin(a, b) }
/// sums and products of many terms with symbolic coefficients: merging keeps every term
pub fn merge() {
    let k = if thorough() { 4 } else { 2 };
    let m = |c: u32| -> Expr { match c { 0 => v(0), 1 => v(1), 2 => v(2), 3 => Expr::pow(v(0), ei(2)), 4 => v(0) * v(1), _ => Expr::one() } };
    let t = |i: u32| { let c = choose(3); let b = m((i + 2 * c) % 6); sint(-k, k) * b };
    let a = t(0) + t(1) + t(2);
    let b = t(0) + t(1);
    bin3(a, b)
}
/// products of powers with symbolic exponents
pub fn mergep() {
    let k = if thorough() { 3 } else { 2 };
    let p = |i: usize| Expr::pow(v(i), sint(-k, k));
    let a = match choose(3) { 0 => p(0) * p(1), 1 => p(0) * p(1) * sint(-3, 3), _ => p(1) * p(0) * p(2) };
    let b = match choose(4) { 0 => p(0) * p(1), 1 => p(1) * p(2) * sint(-3, 3), 2 => p(1), _ => p(2) * p(0) * p(1) };
    bin3(a, b)
}
fn bin3(a: Expr, b: Expr) {
    show("a", &a); show("b", &b);
    let (x, y) = (val(&a), val(&b));
    if x.is_undef() || y.is_undef() { return }
    let c = choose(4);
    let (r, w) = match c { 0 => (&a + &b, x.add(y)), 1 => (&a - &b, x.sub(y)), 2 => (&a * &b, x.mul(y)), _ => (&a / &b, x.div(y)) };
    show("r", &r);
    if w.is_undef() { return }
    check(val(&r).eq(w), ["sum", "difference", "product", "quotient"][c as usize]);
}
/// (m*x^i)^n with numeric exponents of every kind
pub fn pow() {
    let b = match choose(6) { 0 => sint(-6, 6), 1 => { let n = int(-6, 6); q(n, 3) } 2 => sint(-3, 3) * v(0), 3 => v(0) * v(1), 4 => Expr::pow(v(0), q(1, 2)), _ => Expr::pow(v(0), sint(-3, 3)) };
    let e = match choose(3) { 0 => ei(conc(int(-4, 4))), 1 => q(conc(int(-5, 5)), 2), _ => q(conc(int(-4, 4)), 3) };
    show("b", &b); show("e", &e);
    let w = val(&b).pow(val(&e));
    let r = Expr::pow(&b, &e);
    show("r", &r);
    if w.is_undef() { return }
    check(val(&r).eq(w), "power");
}
/// variables standing for negative values
pub fn neg() {
    set_negative(1 + choose(3));
    let p = |a: Expr| { let e = match choose(7) { 0 => ei(2), 1 => ei(-2), 2 => ei(3), 3 => q(1, 2), 4 => q(-1, 2), 5 => q(3, 2), _ => q(2, 3) }; Expr::pow(a, e) };
    let a = match choose(5) { 0 => v(0), 1 => v(0) * v(1), 2 => sint(-3, 3) * v(0), 3 => Expr::pow(v(0), ei(2)) * v(1), _ => v(0) + v(1) };
    let b = match choose(4) { 0 => a.clone(), 1 => v(0), 2 => sint(-3, 3), _ => v(1) };
    let a = p(a);
    show("a", &a); show("b", &b);
    let c = 1 + choose(2);
    let b = if choose(2) == 0 { b } else { p(b) };
    let (x, y) = (val(&a), val(&b));
    let (r, w) = if c == 1 { (&a * &b, x.mul(y)) } else { (&a / &b, x.div(y)) };
    show("r", &r);
    if w.is_undef() { return }
    let z = val(&r);
    if z.is_undef() { return }
    check(z.eq(w), "variables standing for negative values");
}
pub fn negpow() {
    set_negative(1 + choose(3));
    let e = || match choose(8) { 0 => ei(2), 1 => ei(-2), 2 => ei(3), 3 => q(1, 2), 4 => q(-1, 2), 5 => q(3, 2), 6 => q(2, 3), _ => ei(4) };
    let a = match choose(6) { 0 => v(0), 1 => v(0) * v(1), 2 => sint(-3, 3) * v(0), 3 => Expr::pow(v(0), ei(2)) * v(1), 4 => Expr::sin(v(0)), _ => v(0) + v(1) };
    let a = if choose(2) == 0 { Expr::pow(&a, e()) } else { Expr::pow(Expr::pow(&a, e()), e()) };
    let n = e();
    show("a", &a); show("n", &n);
    let w = val(&a).pow(val(&n));
    let r = Expr::pow(&a, &n);
    show("r", &r);
    if w.is_undef() { return }
    let z = val(&r);
    if z.is_undef() { return }
    check(z.eq(w), "power of variables standing for negative values");
}
/// every form of the operators: by value, by reference, assigning; square root
pub fn forms() {
    let a = match choose(3) { 0 => v(0), 1 => sint(-3, 3), _ => v(0) * sint(1, 3) + v(1) };
    let b = match choose(3) { 0 => v(0), 1 => sint(-3, 3), _ => v(0) * sint(-2, 2) };
    show("a", &a); show("b", &b);
    let (x, y) = (val(&a), val(&b));
    let c = choose(4);
    let w = match c { 0 => x.add(y), 1 => x.sub(y), 2 => x.mul(y), _ => x.div(y) };
    if w.is_undef() { return }
    let r = match choose(5) {
        0 => match c { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b },
        1 => match c { 0 => &a + b, 1 => &a - b, 2 => &a * b, _ => &a / b },
        2 => match c { 0 => a + &b, 1 => a - &b, 2 => a * &b, _ => a / &b },
        3 => { let mut r = a; match c { 0 => r += b, 1 => r -= b, 2 => r *= b, _ => r /= b }; r }
        _ => match c { 0 => Expr::add(a, b), 1 => Expr::sub(a, b), 2 => Expr::mul(a, b), _ => Expr::div(a, b) },
    };
    show("r", &r);
    check(val(&r).eq(w), ["sum", "difference", "product", "quotient"][c as usize]);
}
/// named constructors
pub fn named() {
    use crate::rr::*;
    let a = match choose(4) { 0 => v(0), 1 => sint(1, 4) * v(0), 2 => Expr::pow(v(0), ei(2)), _ => sint(0, 9) };
    let x = val(&a);
    let one = Val::int(1);
    let c = choose(10);
    let (r, w) = match c {
        0 => (Expr::sqrt(&a), x.pow(one.div(Val::int(2)))),
        1 => (Expr::exp(&a), x.f(EXP)),
        2 => (Expr::ln(&a), x.f(LN)),
        3 => (Expr::log10(&a), x.f(LN).div(Val::int(10).f(LN))),
        4 => (Expr::zero() + Expr::one() + Expr::two() + Expr::min_one() + Expr::min_two(), Val::int(0)),
        5 => (Expr::one() * Expr::two() * Expr::min_one(), Val::int(-2)),
        6 => (Expr::two() * Expr::pi() - Expr::e(), Val::pi().mul(Val::int(2)).sub(one.f(EXP))),
        7 => { let (n, d) = (int(-20, 20), conc(int(1, 5))); (Expr::rational((n, d)), Val::int(n).div(Val::int(d))) }
        8 => (Expr::div_raw(&a, v(1)), x.div(Val::var(1))),
        _ => { let k = choose(6); let f = [SIN, COS, TAN, SEC, CSC, COT][k as usize]; (apply_fn(k as usize, &a), x.f(f)) }
    };
    show("r", &r);
    if w.is_undef() { return }
    check(val(&r).eq(w), "named constructor");
}
/// four operations one after the other, checked at every step
pub fn deep() {
    let mut e = v(0);
    let mut w = val(&e);
    for _ in 0..if thorough() { 5 } else { 4 } {
        let l = || match choose(if thorough() { 3 } else { 2 }) { 0 => v(0), 1 => sint(-2, 2), _ => v(1) };
        let (r, x) = match choose(6) {
            0 => { let l = l(); (&e + &l, w.add(val(&l))) }
            1 => { let l = l(); (&l - &e, val(&l).sub(w)) }
            2 => { let l = l(); (&e * &l, w.mul(val(&l))) }
            3 => { let l = l(); (&l / &e, val(&l).div(w)) }
            4 => (Expr::pow(&e, ei(2)), w.pow(Val::int(2))),
            _ => (Expr::pow(&e, ei(-1)), w.pow(Val::int(-1))),
        };
        show("step", &r);
        if x.is_undef() { return }
        check(val(&r).eq(x), "a chain of operations");
        e = r; w = x;
    }
}
/// long sums and products, one operand after the other
pub fn long() {
    let sum = choose(2) == 0;
    let n = if thorough() { 6 } else { 5 };
    let k = if thorough() { 4 } else { 3 };
    let (mut e, mut w) = if sum { (Expr::zero(), Val::int(0)) } else { (Expr::one(), Val::int(1)) };
    for _ in 0..n {
        let t = if sum { term(k) } else { factor(k) };
        let x = val(&t);
        if x.is_undef() { return }
        if sum { e = e + t; w = w.add(x) } else { e = e * t; w = w.mul(x) }
    }
    show("r", &e);
    if w.is_undef() { return }
    check(val(&e).eq(w), if sum { "a long sum" } else { "a long product" });
}
/// powers with powers, products and sums as exponents
pub fn expon() {
    let e = || match choose(6) { 0 => Expr::pow(v(1), ei(2)), 1 => v(1), 2 => sint(-2, 2) * v(1), 3 => v(1) + Expr::one(), 4 => v(1) * v(2), _ => sint(-2, 2) };
    let b = || match choose(if thorough() { 5 } else { 4 }) { 0 => v(0), 1 => v(2), 2 => ei(2), 3 => v(0) * v(2), _ => Expr::pi() };
    let (a, c) = (Expr::pow(b(), e()), Expr::pow(b(), e()));
    let c = match choose(3) { 0 => c, 1 => sint(-2, 2) * c, _ => c * v(0) };
    bin3(a, c)
}
/// sums and products of sums and products
pub fn both() {
    let side = || { let sum = choose(2) == 0; list(sum, false, 3, |i| if i == 2 { v(2) } else if sum { term(3) } else { factor(3) }) };
    let (a, b) = (side(), side());
    bin3(a, b)
}
