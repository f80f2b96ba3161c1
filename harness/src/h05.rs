//! reduce: value preservation, idempotence
use crate::h03::equal;
use crate::gen::*;
use crate::sx::*;
use calcu_rs::prelude::*;
use calcu_rs::atom::{Atom, Prod, Sum, SymbolicExpr};

fn go(e: &Expr) {
    show("in", e);
    let r = e.reduce();
    show("out", &r);
    same(e, &r, "reduce changes the value");
    let rr = r.reduce();
    show("again", &rr);
    same(&r, &rr, "reducing twice changes the value");
}
const R: G = G { raw: true, ops: ARITH, leaves: BASIC, k: 2, rd: 0 };
pub fn raw2() { go(&G { k: 6, ..R }.top(2)) }
pub fn raw2b() { go(&G { rd: 1, ..R }.top(2)) }
pub fn raw3() { go(&G { leaves: &[Leaf::Int, Leaf::X], ..R }.top(3)) }
pub fn rawf() { go(&G { ops: &[Op::Add, Op::Mul, Op::PowF, Op::PowI, Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::PowE], leaves: &[Leaf::X, Leaf::Half, Leaf::E, Leaf::Pi], ..R }.top(2)) }
/// functions of reducible arguments
pub fn fun() {
    let a = G { leaves: &[Leaf::X, Leaf::Int, Leaf::E], ..R }.tree(2);
    go(&apply_fn(choose(14) as usize, &a))
}
/// long sums and products with nested sums and products
pub fn flat() {
    let t = || match choose(4) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::mul_raw(v(0), sint(-2, 2)), _ => v(1) };
    let u = || match choose(4) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::pow_raw(v(0), sint(-2, 2)), _ => v(1) };
    let e = if choose(2) == 0 { Expr::add_raw(Expr::add_raw(t(), t()), Expr::add_raw(t(), t())) } else { Expr::mul_raw(Expr::mul_raw(u(), u()), Expr::mul_raw(u(), u())) };
    go(&e)
}
/// what the constructors and the transformations return is reduced already or reduces to the same value
pub fn smart() { go(&G { raw: false, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], rd: 1, leaves: &[Leaf::X, Leaf::Int], ..R }.top(2)) }
/// arithmetic on numbers is carried out completely
pub fn numeric() {
    let e = G { ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], leaves: &[Leaf::Int, Leaf::Half], rd: thorough() as u32, ..R }.top(2);
    show("in", &e);
    if crate::val::val(&e).is_undef() { return }
    let r = e.reduce();
    show("out", &r);
    same(&e, &r, "reduce changes the value");
    check(r.is_rational(), "a number remains");
}
fn stable(e: &Expr) {
    show("in", e);
    let r = e.reduce();
    show("reduced", &r);
    let s = r.reduce();
    show("again", &s);
    check(equal(&r, &s), "reducing twice");
    collected(&r);
}
/// base and exponent of a factor, the literal way
fn base(e: &Expr) -> &Expr { match e.atom() { Atom::Pow(p) => p.base(), _ => e } }
/// a term without its rational coefficient
fn term(e: &Expr) -> Vec<Expr> { match e.atom() { Atom::Prod(p) => p.args.iter().filter(|a| !a.is_rational()).cloned().collect(), _ => vec![e.clone()] } }
fn same_term(a: &Expr, b: &Expr) -> bool { equal(&Expr::from(Atom::Prod(Prod { args: term(a) })), &Expr::from(Atom::Prod(Prod { args: term(b) }))) }
/// like terms and equal bases are collected, sums of sums and products of products are flat
fn collected(e: &Expr) {
    let a = e.args();
    if e.is_sum() || e.is_prod() {
        check(a.len() >= 2, "a sum or product of fewer than two operands");
        check(a.iter().filter(|x| x.is_rational()).count() <= 1, "two numbers side by side");
        check(!a.iter().any(|x| x.is_undef()), "undefined operand");
        for (i, x) in a.iter().enumerate() {
            check(!(e.is_sum() && (x.is_sum() || x.is_zero()) || e.is_prod() && (x.is_prod() || x.is_one() || x.is_zero())), "nested or neutral operand");
            for y in &a[i + 1..] {
                if x.is_rational() || y.is_rational() { continue }
                check(!(e.is_sum() && same_term(x, y) || e.is_prod() && equal(base(x), base(y))), "operands that belong together");
            }
        }
    }
    a.iter().for_each(collected);
}
pub fn st2() { stable(&G { rd: 1, ..R }.top(2)) }
pub fn st3() { stable(&R.top(3)) }
pub fn stf() { stable(&G { ops: &[Op::Add, Op::Mul, Op::PowF, Op::PowI, Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::PowE], leaves: &[Leaf::X, Leaf::Half, Leaf::E, Leaf::Pi, Leaf::Int], ..R }.top(2)) }
pub fn sts() { stable(&G { raw: false, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], rd: 1, leaves: &[Leaf::X, Leaf::Y, Leaf::Int], ..R }.top(2)) }
pub fn sts3() { stable(&G { raw: false, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], rd: 0, leaves: if thorough() { &[Leaf::X, Leaf::Y, Leaf::Int] } else { &[Leaf::X, Leaf::Int] }, ..R }.top(3)) }
pub fn stflat() {
    let t = || match choose(5) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::mul_raw(v(0), sint(-2, 2)), 3 => v(1), _ => Expr::pow_raw(v(0), ei(2)) };
    let u = || match choose(5) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::pow_raw(v(0), sint(-2, 2)), 3 => v(1), _ => Expr::pow_raw(v(1), v(0)) };
    let e = if choose(2) == 0 { Expr::add_raw(Expr::add_raw(t(), t()), Expr::add_raw(t(), t())) } else { Expr::mul_raw(Expr::mul_raw(u(), u()), Expr::mul_raw(u(), u())) };
    stable(&e)
}
/// the reduced form does not depend on the order in which the operands were written
pub fn order() {
    let e = match choose(4) { 3 => G { rd: 1, ops: &[Op::Add, Op::Mul, Op::PowE, Op::Sin], leaves: &[Leaf::Pi, Leaf::E, Leaf::X], ..R }.top(2), 0 => R.top(2), 1 => G { rd: 1, leaves: &[Leaf::X, Leaf::Y], ..R }.top(2), _ => G { leaves: if thorough() { &[Leaf::X, Leaf::Int] } else { &[Leaf::X, Leaf::CInt] }, ..R }.top(3) };
    show("in", &e);
    let (r, m) = (e.reduce(), crate::h03::mirror(&e).reduce());
    show("reduced", &r); show("mirrored", &m);
    check(crate::h16::in_order(&r, &m), "the reduced form depends on the order of the operands");
}
/// literal chains and long lists
pub fn deep() { let e = G { ops: &[Op::Add, Op::Mul, Op::Sq], leaves: if thorough() { BASIC } else { &[Leaf::CInt, Leaf::X] }, k: if thorough() { 2 } else { 1 }, ..R }.chain(4); go(&e); stable(&e) }
pub fn deepf() { let e = G { ops: &[Op::Add, Op::Mul, Op::PowE, Op::Sin, Op::Ln, Op::Exp], leaves: &[Leaf::CInt, Leaf::X], k: 1, ..R }.chain(if thorough() { 4 } else { 3 }); go(&e); stable(&e) }
pub fn long() { let sum = choose(2) == 0; let k = if thorough() { 5 } else { 4 }; let e = list(sum, true, if thorough() { 5 } else { 4 }, |_| if sum { crate::gen::term(k) } else { crate::gen::factor(k) }); go(&e); stable(&e); let (r, m) = (e.reduce(), crate::h03::mirror(&e).reduce()); check(crate::h16::in_order(&r, &m), "the reduced form depends on the order of the operands") }
/// powers of powers and of products whose base may be negative
pub fn branch() {
    let b = || match choose(5) { 0 => v(0), 1 => v(0) - Expr::one(), 2 => Expr::one() - v(0), 3 => Expr::sin(v(1)), _ => Expr::mul_raw(Expr::min_one(), v(1)) };
    let e = || match choose(4) { 0 => q(1, 2), 1 => v(1), 2 => ei(2), _ => q(-3, 2) };
    let x = match choose(3) { 0 => { let b = b(); Expr::pow_raw(Expr::pow_raw(b, e()), e()) } 1 => { let (b, c) = (b(), b()); Expr::pow_raw(Expr::mul_raw(b, c), e()) } _ => { let (b, k) = (b(), sint(-2, 2)); Expr::pow_raw(Expr::mul_raw(k, b), e()) } };
    let x = match choose(4) { 0 => x, 1 => Expr::mul_raw(x, b()), 2 => Expr::mul_raw(ei(-1), x), _ => Expr::mul_raw(x, Expr::pow_raw(b(), e())) };
    go(&x);
    stable(&x)
}
/// lists of powers, products and sums that can be combined in more than one way
pub fn pool() {
    let p = |a: Expr, b: Expr| Expr::pow_raw(a, b);
    let (x, y, h) = (v(0), v(1), q(1, 2));
    let xy = || Expr::mul_raw(v(0), v(1));
    let s = || Expr::add_raw(v(0), v(1));
    let sum = choose(2) == 0;
    let n = if thorough() && choose(2) == 0 { 4 } else { 3 };
    let kind = || match (n, sum) {
        (3, _) => choose(if sum { 25 } else { 19 }),
        (_, true) => [0, 3, 6, 9, 10, 14, 19, 20, 21, 22, 23, 24][choose(12) as usize],
        _ => [0, 3, 4, 5, 6, 7, 9, 12, 13, 16, 17, 18][choose(12) as usize],
    };
    let e = list(sum, true, n, |_| match kind() {
        0 => x.clone(), 1 => y.clone(), 2 => ei(2), 3 => sint(-2, 2), 4 => p(xy(), h.clone()), 5 => p(xy(), q(-1, 2)), 6 => p(ei(2), h.clone()), 7 => p(x.clone(), h.clone()),
        8 => p(s(), h.clone()), 9 => s(), 10 => Expr::pi(), 11 => p(Expr::e(), x.clone()), 12 => p(Expr::mul_raw(ei(2), x.clone()), h.clone()), 13 => p(ei(2), x.clone()), 14 => p(ei(2), q(3, 2)),
        15 => p(Expr::pi(), x.clone()), 16 => p(x.clone(), ei(-1)), 17 => p(Expr::mul_raw(y.clone(), Expr::add_raw(x.clone(), ei(-1))), h.clone()), 18 => p(xy(), x.clone()),
        19 => Expr::mul_raw(ei(2), s()), 20 => Expr::mul_raw(ei(-1), s()), 21 => Expr::mul_raw(ei(-1), xy()), 22 => Expr::mul_raw(Expr::pi(), x.clone()), 23 => Expr::mul_raw(ei(2), p(ei(2), h.clone())), _ => Expr::mul_raw(ei(4), p(ei(2), q(-1, 2))),
    });
    go(&e);
    stable(&e);
    let (r, m) = (e.reduce(), crate::h03::mirror(&e).reduce());
    show("mirrored", &m);
    check(crate::h16::in_order(&r, &m), "the reduced form depends on the order of the operands");
    let mut a = e.args().to_vec();
    a.rotate_left(1);
    let m = (if sum { Expr::from(Atom::Sum(Sum { args: a })) } else { Expr::from(Atom::Prod(Prod { args: a })) }).reduce();
    show("rotated", &m);
    check(crate::h16::in_order(&r, &m), "the reduced form depends on the order of the operands")
}
