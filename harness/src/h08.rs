//! exponentials and logarithms
use crate::gen::*;
use crate::sx::*;
use calcu_rs::atom::{Atom, Func};
use calcu_rs::prelude::*;

fn go(e: &Expr) {
    show("in", e);
    let c = choose(2);
    let r = if c == 0 { e.expand_exponential() } else { e.expand_ln() };
    show("out", &r);
    same(e, &r, ["expand_exponential", "expand_ln"][c as usize]);
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Exp, Op::Ln], leaves: &[Leaf::X, Leaf::Y, Leaf::Int], k: 2, rd: 0 };
pub fn tree2() { go(&S.top(2)) }
pub fn tree3() { go(&G { ops: &[Op::Add, Op::Mul, Op::Exp, Op::Ln], leaves: &[Leaf::X, Leaf::Y], ..S }.top(3)) }
/// exp(a*x + b*y), exp(n(x+y)), with symbolic coefficients
pub fn exp() {
    let a = G { raw: choose(2) == 0, ops: &[Op::Add, Op::Mul, Op::PowI], rd: 1, ..S }.top(2);
    let e = Expr::exp(&a);
    show("in", &e);
    let r = e.expand_exponential();
    show("out", &r);
    same(&e, &r, "expand_exponential");
}
pub fn ln() {
    let a = G { raw: choose(2) == 0, ops: &[Op::Mul, Op::PowI, Op::PowE, Op::Add], leaves: &[Leaf::X, Leaf::Y], rd: 1, ..S }.top(2);
    let e = Expr::ln(&a);
    show("in", &e);
    let r = e.expand_ln();
    show("out", &r);
    same(&e, &r, "expand_ln");
}
/// powers of other bases are not mistaken for exponentials
pub fn power() {
    let b = match choose(6) { 0 => Expr::pi(), 1 => ei(2), 2 => v(2), 3 => q(1, 2), 4 => Expr::pi() * Expr::e(), _ => Expr::exp(v(2)) };
    let a = G { raw: choose(2) == 0, ops: &[Op::Add, Op::Mul], ..S }.top(2);
    let e = if choose(2) == 0 { Expr::pow(&b, &a) } else { Expr::pow_raw(&b, &a) };
    go(&match choose(3) { 0 => e, 1 => Expr::ln(&e), _ => e + v(1) })
}
/// logarithms in other bases are not mistaken for natural ones
pub fn base() {
    let x = G { ops: &[Op::Mul, Op::PowI], ..S }.top(1);
    let e = if choose(2) == 0 { Expr::log10(&x) } else { Expr::log(calcu_rs::rational::Rational::from(2), &x) };
    show("in", &e);
    let r = match choose(3) { 0 => e.expand_ln(), 1 => e.reduce(), _ => e.expand_exponential() };
    show("out", &r);
    same(&e, &r, "log in another base");
    if let Atom::Func(Func::Log(..)) = e.atom() {} else { check(false, "log construction") }
}
/// sums of four exponents, products of four factors, nested exponentials and logarithms
pub fn long() {
    let e = match choose(4) {
        0 => Expr::exp(list(true, choose(2) == 0, 4, |_| term(4))),
        1 => Expr::ln(list(false, choose(2) == 0, 4, |_| factor(5))),
        2 => { let a = Expr::exp(term(4)) * Expr::ln(factor(4)); if choose(2) == 0 { Expr::exp(a) } else { Expr::ln(a) } }
        _ => Expr::pow(Expr::exp(term(5) + term(3)), match choose(4) { 0 => ei(3), 1 => ei(-2), 2 => v(1), _ => q(1, 2) }),
    };
    go(&e)
}
pub fn deep() { go(&G { ops: &[Op::Add, Op::Mul, Op::Exp, Op::Ln, Op::Sq], leaves: &[Leaf::X, Leaf::CInt, Leaf::Y], k: 2, ..S }.chain(if thorough() { 4 } else { 3 })) }
