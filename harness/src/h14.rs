//! undefined values
use crate::gen::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin], leaves: &[Leaf::X, Leaf::Int, Leaf::Pi], k: 2, rd: 0 };
/// an undefined operand makes the result undefined
pub fn operand() {
    let a = if choose(2) == 0 { S.tree(2) } else { G { raw: true, ..S }.tree(1) };
    let u = Expr::undef();
    show("a", &a);
    let r = match choose(12) {
        0 => &a + &u, 1 => &u + &a, 2 => &a - &u, 3 => &u - &a, 4 => &a * &u, 5 => &u * &a, 6 => &a / &u, 7 => &u / &a, 8 => Expr::pow(&a, &u), 9 => Expr::pow(&u, &a),
        10 => Expr::add_raw(&a, &u).reduce(), _ => Expr::mul_raw(&u, &a).reduce(),
    };
    show("r", &r);
    check(r.is_undef(), "an undefined operand makes the result undefined");
}
fn has_undef(e: &Expr) -> bool { e.is_undef() || e.args().iter().any(has_undef) }
/// anywhere in an unsimplified tree
pub fn tree() {
    let e = G { raw: true, ops: &[Op::Add, Op::Mul, Op::PowI, Op::PowE], leaves: &[Leaf::X, Leaf::Int, Leaf::Undef], k: 1, rd: 0, ..S }.top(2);
    assume(has_undef(&e));
    show("in", &e);
    let r = e.reduce();
    show("out", &r);
    check(r.is_undef(), "reducing an expression with an undefined part");
}
/// division by zero, 0^0 and 0^-n are undefined, however the zero came about
pub fn zero() {
    let a = S.tree(1);
    let n = int(1, 50);
    let z = match choose(5) { 0 => Expr::zero(), 1 => (v(0) - v(0)).reduce(), 2 => Expr::from(n) - Expr::from(n), 3 => Expr::zero() * &a, _ => { let m = int(-50, 50); assume(m == 0); Expr::from(m) } };
    show("a", &a); show("z", &z);
    let c = choose(9);
    // a literal product with a literal zero factor is zero whatever the other factors are
    if c == 3 { assume(!a.is_zero()) }
    let r = match c {
        0 => &a / &z, 1 => Expr::pow(&z, Expr::from(-n)), 2 => Expr::pow(&z, &z), 3 => Expr::div_raw(&a, &z).reduce(), 4 => Expr::pow_raw(&z, Expr::from(-n)).reduce(), 6 => Expr::pow(&z, q(-n, 2)), 7 => Expr::pow_raw(&z, q(-n, 3)).reduce(), 8 => Expr::pow_raw(v(1), q(-n, 2)).substitude(&v(1), &z).reduce(), _ => Expr::pow_raw(&z, &z).reduce(),
    };
    show("r", &r);
    check(r.is_undef(), "division by zero");
}
/// sums, products and quotients of defined numbers are defined
pub fn defined() {
    let (a, b) = (int(-9, 9), int(-9, 9));
    let (x, y) = (q(a, 2), q(b, 3));
    let r = match choose(6) {
        0 => &x + &y, 1 => &x - &y, 2 => &x * &y,
        3 => { let r = &x / &y; check(r.is_undef() == (b == 0), "a quotient is undefined exactly for a zero divisor"); return }
        4 => { let e = int(-3, 3); let r = Expr::pow(&x, Expr::from(e)); check(r.is_undef() == (a == 0 && e <= 0), "a power is undefined exactly for zero to a non-positive exponent"); return }
        _ => (&x + &y) * v(0),
    };
    show("r", &r);
    check(!r.is_undef() && !val(&r).is_undef(), "a defined result");
}
/// undefined parts survive the transformations
pub fn transform() {
    let u = Expr::undef();
    let e = match choose(5) { 0 => u, 1 => Expr::add_raw(v(0), &u), 2 => Expr::mul_raw(v(0), &u), 3 => Expr::pow_raw(v(0), &u), _ => Expr::pow_raw(&u, sint(-2, 2)) };
    show("in", &e);
    let r = match choose(13) {
        0 => e.reduce(), 1 => e.expand().reduce(), 2 => e.expand_main_op().reduce(), 3 => e.distribute().reduce(), 4 => e.expand_trig().reduce(), 5 => e.contract_trig().reduce(), 6 => e.expand_ln().reduce(),
        7 => e.expand_exponential().reduce(), 8 => e.rationalize().reduce(), 9 => e.cancel().reduce(), 10 => e.factor_out().reduce(), 11 => e.sort_args().reduce(), _ => e.substitute_trig().reduce(),
    };
    show("r", &r);
    check(r.is_undef(), "a transformation loses an undefined part");
}
/// an undefined operand of a sum or product inside another one
pub fn nested() {
    let at = choose(3);
    let l = list(choose(2) == 0, true, 3, |i| if i == at { Expr::undef() } else { v(i as usize % 2) });
    let l = match choose(3) { 0 => l, 1 => Expr::pow_raw(l, ei(2)), _ => Expr::pow_raw(l, ei(-1)) };
    let o = choose(2);
    let e = list(choose(2) == 0, true, 2, |i| if i == o { l.clone() } else { match choose(3) { 0 => v(0), 1 => v(0) + v(1), _ => sint(1, 2) } });
    show("in", &e);
    let r = match choose(14) {
        0 => e.reduce(), 1 => e.expand(), 2 => e.expand_main_op(), 3 => e.distribute(), 4 => e.expand_trig(), 5 => e.contract_trig(), 6 => e.expand_ln(), 13 => e.derivative(v(0)),
        7 => e.expand_exponential(), 8 => e.rationalize(), 9 => e.cancel(), 10 => e.factor_out(), 11 => e.sort_args(), _ => e.substitute_trig(),
    };
    show("r", &r);
    check(r.reduce().is_undef(), "a transformation loses an undefined part");
}
/// an undefined operand far down or among many
pub fn deep() {
    let mut e = Expr::undef();
    for _ in 0..4 { let l = match choose(3) { 0 => v(0), 1 => sint(1, 3), _ => Expr::sin(v(1)) }; e = match choose(5) { 0 => Expr::add_raw(&e, l), 1 => Expr::mul_raw(l, &e), 2 => Expr::pow_raw(&e, l), 3 => Expr::pow_raw(l, &e), _ => Expr::add_raw(l, &e) } }
    show("in", &e);
    check(e.reduce().is_undef(), "reducing an expression with an undefined part");
}
pub fn long() {
    let sum = choose(2) == 0;
    let at = choose(5);
    let e = list(sum, true, 5, |i| if i == at { Expr::undef() } else { match choose(3) { 0 => sint(if sum { -2 } else { 1 }, 2), 1 => v(0), _ => Expr::pow_raw(v(1), ei(-1)) } });
    show("in", &e);
    check(e.reduce().is_undef(), "reducing an expression with an undefined part");
}
