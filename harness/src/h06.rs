//! expand, expand_main_op, distribute: same value, fully expanded
use crate::gen::*;
use crate::sx::*;
use calcu_rs::atom::Atom;
use calcu_rs::prelude::*;

fn kind(e: &Expr) -> Expr { match choose(3) { 0 => e.expand(), 1 => e.expand_main_op(), _ => e.distribute() } }
fn go(e: &Expr) {
    show("in", e);
    let r = kind(e);
    show("out", &r);
    same(e, &r, "expansion changes the value");
}
/// no product with a sum as factor, no integer power of a sum or product
pub fn expanded(e: &Expr) -> bool {
    let here = match e.atom() {
        Atom::Prod(p) => p.args.len() < 2 || p.args.iter().all(|a| !matches!(a.atom(), Atom::Sum(s) if s.args.len() > 1)),
        Atom::Pow(p) => match p.base().atom() {
            Atom::Sum(s) => s.args.len() < 2 || !p.exponent().is_rational_and(|r| r.is_int() && r.numer() > 1),
            Atom::Prod(_) => false,
            _ => true,
        },
        _ => true,
    };
    here && e.args().iter().all(expanded)
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI], leaves: BASIC, k: 2, rd: 0 };
const X: &[Leaf] = &[Leaf::X, Leaf::Y, Leaf::Int];
pub fn s2() { go(&G { rd: 1, ..S }.top(2)) }
pub fn s3() { go(&G { leaves: &[Leaf::X, Leaf::Int], ..S }.top(3)) }
pub fn f2() { go(&G { ops: &[Op::Add, Op::Mul, Op::PowF, Op::PowI], leaves: X, ..S }.top(2)) }
pub fn r2() { go(&G { raw: true, ..S }.top(2)) }
/// a*(b+c)^n and (b+c)*(d+e) and nested powers: the result is expanded
pub fn full() {
    let g = G { ops: &[Op::Add, Op::Mul], rd: 1, ..S };
    let n = [1i128, 2, 3][choose(3) as usize];
    let (a, b) = (g.tree(1), g.tree(1));
    let e = Expr::pow(&a, ei(n)) * &b;
    let e = if choose(2) == 0 { e } else { e + v(2) };
    show("in", &e);
    let r = e.expand();
    show("out", &r);
    same(&e, &r, "expansion changes the value");
    check(expanded(&r), "not fully expanded");
}
/// (a+b)^n for symbolic coefficients
pub fn binomial() {
    let (p, q) = (int(-5, 5), int(-5, 5));
    let n = conc(int(2, if thorough() { 7 } else { 5 }));
    let e = Expr::pow(Expr::from(p) * v(0) + Expr::from(q) * v(1), ei(n));
    show("in", &e);
    let full = choose(2) == 0;
    let r = if full { e.expand() } else { e.expand_main_op() };
    show("out", &r);
    same(&e, &r, "binomial expansion");
    if full { check(expanded(&r), "not fully expanded") }
}
/// high powers of sums of two terms
pub fn high() {
    let n = conc(int(6, if thorough() { 16 } else { 12 }));
    let b = match choose(3) { 0 => v(0) + v(1), 1 => sint(-2, 2) * v(0) + Expr::one(), _ => v(0) - sint(1, 3) };
    let e = Expr::pow(b, ei(n));
    show("in", &e);
    let full = choose(2) == 0;
    let r = if full { e.expand() } else { e.expand_main_op() };
    show("out", &r);
    same(&e, &r, "binomial expansion");
    if full { check(expanded(&r), "not fully expanded") }
}
/// sums to the power of a fraction
pub fn frac() {
    let (n, d) = (conc(int(-3, if thorough() { 15 } else { 9 })), 2 + choose(if thorough() { 4 } else { 3 }) as i128);
    let b = match choose(4) { 0 => v(0) + v(1), 1 => sint(1, 3) * v(0) + Expr::one(), 2 => Expr::add_raw(v(0), Expr::mul_raw(v(1), v(2))), _ => v(0) * (v(1) + v(2)) };
    let e = Expr::pow_raw(b, q(n, d));
    go(&match choose(4) { 0 => e, 1 => e * v(2), 2 => Expr::mul_raw(v(1), e), _ => e + v(0) })
}
/// products with the same factor more than once
pub fn dup() {
    let n = if thorough() { 4 } else { 3 };
    let e = list(choose(4) == 0, choose(3) > 0, n, |_| match choose(6) { 0 => v(0) + v(1), 1 => v(0), 2 => sint(-2, 2), 3 => Expr::pow_raw(v(0) + v(1), ei(2)), 4 => Expr::one() - v(1), _ => Expr::mul_raw(v(0) + v(1), v(2)) });
    go(&e)
}
/// chains of operations, long products of sums, powers of sums of three terms
pub fn deep() { let e = G { ops: &[Op::Add, Op::Mul, Op::Sq], leaves: &[Leaf::X, Leaf::Int, Leaf::Y], k: 1, raw: choose(2) == 0, ..S }.chain(if thorough() { 4 } else { 3 }); go(&e) }
pub fn long() {
    let s = |n: u32| list(true, false, n, |i| match choose(2) { 0 => sint(-2, 2) * v(i as usize % 3), _ => v((i as usize + 1) % 3) });
    let e = match choose(5) { 0 => s(2) * s(2) * s(2), 1 => Expr::pow(s(3), ei(2)) * s(2), 2 => Expr::pow(s(3), ei(conc(int(2, 4)))), 3 => s(3) * s(3) + s(2) * v(0), _ => Expr::pow(s(2), ei(2)) * Expr::pow(s(2), ei(3)) };
    show("in", &e);
    let r = e.expand();
    show("out", &r);
    same(&e, &r, "expansion changes the value");
    check(expanded(&r), "not fully expanded");
}
/// powers of products whose factors may be negative
pub fn branch() {
    let b = || match choose(5) { 0 => v(0), 1 => v(0) - Expr::one(), 2 => Expr::one() - v(0), 3 => Expr::sin(v(1)), _ => ei(-1) };
    let e = || match choose(5) { 0 => q(1, 2), 1 => v(1), 2 => ei(2), 3 => q(5, 2), _ => q(-3, 2) };
    let m = |a: Expr, b: Expr| if choose(2) == 0 { a * b } else { Expr::mul_raw(a, b) };
    let x = { let (a, c) = (b(), b()); Expr::pow(m(a, c), e()) };
    let x = match choose(3) { 0 => x, 1 => m(x, b()), _ => m(v(2) + v(0), x) };
    show("in", &x);
    let r = match choose(3) { 0 => x.expand(), 1 => x.expand_main_op(), _ => x.distribute() };
    show("out", &r);
    same(&x, &r, "expansion changes the value");
}
