//! trigonometric rewriting
use crate::gen::*;
use crate::sx::*;
use calcu_rs::algos::separate_sin_cos;
use calcu_rs::prelude::*;

fn ops(e: &Expr, c: u32) -> Expr {
    match c { 0 => e.substitute_trig(), 1 => e.expand_trig(), 2 => e.contract_trig(), _ => e.simplify_trig() }
}
const LBL: [&str; 4] = ["substitute_trig", "expand_trig", "contract_trig", "simplify_trig"];
fn go(e: &Expr) {
    show("in", e);
    let c = choose(4);
    let r = ops(e, c);
    show("out", &r);
    same(e, &r, LBL[c as usize]);
}
/// angle: leaf, sum or integer multiple
fn angle() -> Expr {
    match choose(6) {
        0 => v(0), 1 => v(0) + v(1), 2 => ei(conc(int(-3, 4))) * v(0), 3 => v(0) + sint(-2, 2), 4 => v(0) - v(1),
        _ => Expr::mul_raw(ei(conc(int(-2, 3))), Expr::add_raw(v(0), v(1))),
    }
}
/// f(angle)
pub fn single() { let a = angle(); go(&apply_fn(choose(6) as usize, &a)) }
/// sin/cos powers and products
pub fn powers() {
    let f = apply_fn(choose(2) as usize, &v(0));
    let n = conc(int(-2, if thorough() { 7 } else { 5 }));
    let p = Expr::pow(&f, ei(n));
    let e = match choose(5) { 0 => p, 1 => p * sint(-3, 3), 2 => p * apply_fn(choose(2) as usize, &v(1)), 3 => p * v(1), _ => p + v(0) };
    go(&e)
}
pub fn products() {
    let f = |i: usize| apply_fn(choose(2) as usize, &v(i));
    let a = f(0);
    let b = match choose(3) { 0 => f(0), 1 => f(1), _ => Expr::pow(f(1), ei(2)) };
    let c = match choose(5) { 0 => f(0), 1 => v(0), 2 => sint(-2, 2), 3 => f(2), _ => f(0) + v(1) };
    let e = if choose(2) == 0 { Expr::mul_raw(Expr::mul_raw(&a, &b), &c) } else { a * b * c };
    go(&e)
}
/// contract on anything
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::Cos, Op::Tan], leaves: &[Leaf::X, Leaf::Y, Leaf::Int], k: 2, rd: 0 };
pub fn tree2() { go(&G { k: if thorough() { 2 } else { 1 }, ..S }.top(2)) }
pub fn tree2f() { go(&G { ops: &[Op::Add, Op::PowF, Op::Sin, Op::Sec, Op::Cot, Op::Csc, Op::Ln], leaves: &[Leaf::X, Leaf::Y], ..S }.top(2)) }
pub fn tree3() { go(&G { leaves: &[Leaf::X, Leaf::Y], ops: if thorough() { &[Op::Mul, Op::Add, Op::PowI, Op::Sin, Op::Cos] } else { &[Op::Mul, Op::Add, Op::Sin, Op::Cos] }, ..S }.top(3)) }
pub fn separate() {
    let e = G { ops: &[Op::Mul, Op::Add, Op::PowI, Op::Sin, Op::Cos], rd: 1, ..S }.top(2);
    show("in", &e);
    let (r, s) = separate_sin_cos(&e);
    show("rest", &r); show("trig", &s);
    same(&e, &(r.clone() * &s), "rest * trig part");
    let ok = |f: &Expr| f.is_one() || f.is_sin() || f.is_cos() || (f.is_pow() && (f.base().is_sin() || f.base().is_cos()) && f.exponent().is_int() && f.exponent().is_pos());
    check(ok(&s) || (s.is_prod() && s.args().iter().all(ok)), "trig part consists of sin and cos powers");
}
/// sums of several angles, large multiples, products of powers, nested functions
pub fn more() {
    let f = |x: Expr| apply_fn(choose(2) as usize, &x);
    let e = match choose(8) {
        0 => { let k = conc(int(-2, 3)); apply_fn(choose(3) as usize, &(v(0) + v(1) * ei(k) + v(2))) }
        1 => { let k = conc(int(4, if thorough() { 8 } else { 6 })); f(ei(k) * v(0)) }
        2 => { let (i, j) = (conc(int(1, 4)), conc(int(0, 3))); Expr::pow(Expr::sin(v(0)), ei(i)) * Expr::pow(Expr::cos(v(0)), ei(j)) }
        3 => { let (i, j) = (conc(int(1, 3)), conc(int(1, 3))); Expr::pow(f(v(0)), ei(i)) * Expr::pow(f(v(1)), ei(j)) }
        4 => { let x = f(ei(2) * v(0)); f(x) }
        5 => { let a = apply_fn(choose(6) as usize, &v(0)); let b = apply_fn(choose(6) as usize, &v(0)); if choose(2) == 0 { a * b } else { a / b } }
        6 => { let a = f(v(0)); let b = f(v(1)); let c = f(v(0)); a * b + c * v(1) - Expr::pow(f(v(0)), ei(2)) }
        _ => { let a = apply_fn(choose(6) as usize, &v(0)); let b = apply_fn(choose(6) as usize, &v(1)); Expr::pow(a + b, ei(conc(int(-1, 2)))) }
    };
    go(&e)
}
pub fn deep() { go(&G { ops: &[Op::Add, Op::Mul, Op::Sq, Op::Sin, Op::Cos], leaves: &[Leaf::X, Leaf::Y], ..S }.chain(if thorough() { 4 } else { 3 })) }

/// high powers and multiples
pub fn high() {
    let f = |x: Expr| apply_fn(choose(2) as usize, &x);
    let m = if thorough() { 16 } else { 12 };
    let e = match choose(4) {
        0 => { let k = conc(int(6, m)); Expr::pow(f(v(0)), ei(k)) }
        1 => { let k = conc(int(-m, m)); f(ei(k) * v(0)) }
        2 => { let (i, j) = (conc(int(2, 7)), conc(int(2, 7))); Expr::pow(Expr::sin(v(0)), ei(i)) * Expr::pow(Expr::cos(v(0)), ei(j)) }
        _ => { let i = conc(int(4, 9)); Expr::pow(f(v(0)), ei(i)) * f(v(1)) * v(2) }
    };
    show("in", &e);
    let c = choose(2);
    let r = ops(&e, c + 1);
    show("out", &r);
    same(&e, &r, LBL[c as usize + 1]);
}
