//! simplify: equivalent forms, cheapest first
use crate::gen::*;
use crate::h03::equal;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

fn size(e: &Expr) -> usize { 1 + e.args().iter().map(size).sum::<usize>() }
fn go(e: &Expr) {
    show("in", e);
    let r = e.simplify();
    show("forms", &r);
    check(r.is_empty() == (e.is_rational() || e.is_irrational() || e.is_var() || e.is_undef()), "an irreducible expression has no other forms, any other has");
    for w in r.windows(2) { check(size(&w[0]) <= size(&w[1]), "cheapest form first") }
    let x = val(e);
    for (i, f) in r.iter().enumerate() {
        for g in &r[..i] { check(!equal(f, g), "the same form twice") }
        if !x.is_undef() { show("form", f); check(x.eq(val(f)), "a form has another value") }
    }
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI], leaves: &[Leaf::X, Leaf::CInt], k: 2, rd: 0 };
pub fn s1() { go(&G { ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI, Op::PowF, Op::Sin, Op::Exp, Op::Ln], leaves: &[Leaf::X, Leaf::Int, Leaf::Pi], ..S }.tree(1)) }
pub fn s2() { go(&S.top(2)) }
pub fn r2() { go(&G { raw: true, leaves: &[Leaf::X, Leaf::Y], ..S }.top(2)) }
pub fn f2() { go(&G { ops: &[Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::Mul], leaves: &[Leaf::X, Leaf::Y], ..S }.top(2)) }
/// sums of fractions and products with common factors
pub fn frac() {
    let (a, b) = (v(choose(2) as usize), v(choose(2) as usize));
    go(&match choose(4) { 0 => a / v(1) + Expr::one() / b, 1 => a * v(2) + b * v(2), 2 => Expr::one() / (a + b), _ => Expr::sin(a + b) })
}
pub fn s2b() { go(&G { rd: 1, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], leaves: if thorough() { &[Leaf::X, Leaf::Y, Leaf::One] } else { &[Leaf::X, Leaf::One] }, ..S }.top(2)) }
pub fn s3() { let g = G { rd: 0, ops: &[Op::Add, Op::Mul, Op::PowI], leaves: &[Leaf::X, Leaf::Y], ..S }; go(&g.node([Op::Add, Op::Mul][choose(2) as usize], 3)) }
pub fn f2b() { go(&G { rd: 1, ops: &[Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::Mul, Op::Add], leaves: if thorough() { &[Leaf::X, Leaf::Y] } else { &[Leaf::X] }, ..S }.top(2)) }
pub fn deep() { go(&G { ops: &[Op::Add, Op::Mul, Op::Div, Op::Sq], leaves: &[Leaf::X, Leaf::One], ..S }.chain(3)) }
pub fn long() { let sum = choose(2) == 0; go(&list(sum, false, 3, |_| if sum { term(6) } else { factor(6) })) }
