//! derivative
use crate::gen::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

fn go(e: &Expr, i: usize) {
    show("in", e);
    let w = val(e).diff(i as u32);
    if w.is_undef() { return }
    let d = e.derivative(v(i));
    show("derivative", &d);
    check(val(&d).eq(w), "derivative");
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI, Op::PowE], leaves: BASIC, k: 3, rd: 0 };
pub fn s2() { go(&S.top(2), choose(2) as usize) }
pub fn s2b() { go(&G { rd: 1, ops: &[Op::Add, Op::Mul, Op::PowI], ..S }.top(2), 0) }
pub fn s3() { go(&G { leaves: &[Leaf::X, Leaf::Int], ops: &[Op::Mul, Op::PowI, Op::Add], ..S }.top(3), 0) }
pub fn r2() { go(&G { raw: true, leaves: &[Leaf::X, Leaf::Y, Leaf::Pi], ..S }.top(2), 0) }
/// every function, with the chain rule
pub fn funcs() {
    let a = match choose(5) { 0 => v(0), 1 => sint(-4, 4) * v(0), 2 => Expr::pow(v(0), ei(2)), 3 => v(0) * v(1), _ => v(1) };
    let f = apply_fn(choose(14) as usize, &a);
    let e = match choose(3) { 0 => f, 1 => f * v(0), _ => Expr::pow(f, ei(2)) };
    go(&e, 0)
}
pub fn logs() {
    let a = match choose(3) { 0 => v(0), 1 => sint(1, 4) * v(0), _ => Expr::pow(v(0), ei(3)) };
    use calcu_rs::{atom::Real, rational::Rational};
    let l = |n: i128, d: i128| Expr::log(Rational::from((n, d)), &a);
    let e = match choose(8) { 0 => Expr::log10(&a), 1 => l(2, 1), 2 => Expr::exp(&a), 3 => Expr::ln(&a), 4 => l(1, 2), 5 => l(5, 3), 6 => Expr::log(Real::PI, &a), _ => l(conc(int(3, 9)), 1) };
    go(&match choose(3) { 0 => e, 1 => e * v(0), _ => Expr::sin(e) }, 0)
}
pub fn consts() {
    let e = match choose(4) { 0 => sint(-50, 50), 1 => Expr::pi(), 2 => Expr::e(), _ => { let n = int(-9, 9); q(n, 7) } };
    check(e.derivative(v(0)).is_zero(), "derivative of a constant");
    check(v(0).derivative(v(0)).is_one() && v(1).derivative(v(0)).is_zero(), "derivative of a variable");
    check(Expr::undef().derivative(v(0)).is_undef(), "derivative of undef");
}
pub fn deep() { go(&G { ops: if choose(2) == 0 { &[Op::Add, Op::Mul, Op::Div, Op::Sq, Op::Sin, Op::Ln] } else { &[Op::Add, Op::Mul, Op::PowE, Op::PowF] }, leaves: &[Leaf::X, Leaf::CInt], k: 2, ..S }.chain(3), 0) }
/// functions of functions, products and quotients of functions, powers with variable exponents
pub fn nested() {
    let f = |x: Expr| apply_fn(choose(14) as usize, &x);
    let e = match choose(4) { 0 => { let x = f(v(0)); apply_fn(choose(11) as usize, &x) } 1 => { let x = f(v(0)); x * f(ei(2) * v(0)) } 2 => { let x = f(v(0)); x / f(v(0)) } _ => { let x = f(v(0)); let n = sint(-3, 4); if choose(2) == 0 { Expr::pow(x, n) } else { Expr::pow(v(0), x * n) } } };
    go(&e, 0)
}
pub fn long() { let sum = choose(2) == 0; go(&list(sum, choose(2) == 0, 4, |_| if sum { term(6) } else { factor(6) }), choose(2) as usize) }
/// powers with the variable in base and exponent, in products, quotients and powers
pub fn powers() {
    let p = |i: u32| match choose(9) {
        0 => v(0), 1 => Expr::pow(v(1), v(0)), 2 => Expr::pow(v(0), v(1)), 3 => Expr::pow(ei(2), v(0)), 4 => Expr::pow(v(0), v(0)), 5 => sint(-2, 2),
        6 => Expr::pow(v(1), v(0) * ei(i as i128 + 2)), 7 => Expr::pow(v(0) + v(1), v(1)), _ => Expr::pow(q(1, 2), v(0) - v(1)),
    };
    let e = match choose(4) { 0 => list(false, true, 3, p), 1 => list(true, true, 3, p), 2 => p(0) / p(1), _ => list(false, true, 2, |i| if i == 0 { list(true, true, 2, p) } else { p(1) }) };
    go(&e, choose(2) as usize)
}
