//! simplify and the ordering of operands
use crate::gen::*;
use crate::h03::{equal, mirror};
use crate::sx::*;
use crate::val::*;
use calcu_rs::atom::Atom;
use calcu_rs::prelude::*;

fn multiset_equal(a: &[Expr], b: &[Expr]) -> bool {
    let mut left: Vec<&Expr> = b.iter().collect();
    a.len() == b.len() && a.iter().all(|x| match left.iter().position(|y| equal(x, y)) { Some(i) => { left.swap_remove(i); true } None => false })
}
/// sorting the operands keeps the expression and makes it independent of the order it was written in
fn sort(e: &Expr) {
    let s = e.sort_args();
    show("in", e); show("sorted", &s);
    check(equal(&s, e) && s == *e, "sorting the operands changes the expression");
    check(in_order(&s, &s.sort_args()), "sorting twice");
    let m = mirror(e).sort_args();
    show("of the mirror image", &m);
    check(in_order(&s, &m), "the sorted form depends on the order of the operands");
}
/// equal with operands in the same order
pub fn in_order(a: &Expr, b: &Expr) -> bool {
    match (a.atom(), b.atom()) {
        (Atom::Sum(_), Atom::Sum(_)) | (Atom::Prod(_), Atom::Prod(_)) | (Atom::Pow(_), Atom::Pow(_)) => a.args().len() == b.args().len() && a.args().iter().zip(b.args()).all(|(x, y)| in_order(x, y)),
        (Atom::Func(f), Atom::Func(g)) => f.name() == g.name() && in_order(&f.args()[0], &g.args()[0]),
        _ => equal(a, b),
    }
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin], leaves: &[Leaf::X, Leaf::Y, Leaf::Int, Leaf::Pi], k: 2, rd: 1 };
pub fn sort2() { sort(&S.top(2)) }
pub fn sortr() { sort(&G { raw: true, leaves: &[Leaf::X, Leaf::Y, Leaf::Int], ..S }.top(2)) }
/// sums and products deep inside functions, powers, exponents, products and sums
pub fn nest() {
    let leaf = |n: u32| match choose(n) { 0 => v(0), 1 => v(1), 2 => sint(-2, 2), 3 => Expr::sin(v(0)), _ => Expr::pow(v(1), ei(2)) };
    let (a, b) = (leaf(5), leaf(3));
    let s = if choose(2) == 0 { Expr::add_raw(&a, &b) } else { Expr::mul_raw(&a, &b) };
    let w = match choose(9) {
        0 => apply_fn(choose(14) as usize, &s), 1 => Expr::pow_raw(Expr::e(), s), 2 => Expr::pow_raw(v(2), s), 3 => Expr::pow_raw(ei(2), s), 4 => Expr::pow_raw(s, v(2)),
        5 => Expr::log(calcu_rs::rational::Rational::from(2), s), 6 => Expr::pow_raw(Expr::pi(), Expr::sin(s)), 7 => Expr::pow_raw(s.clone(), s), _ => s,
    };
    let z = match choose(3) { 0 => v(2), 1 => Expr::cos(v(0)), _ => Expr::pow_raw(v(0), ei(-1)) };
    sort(&match choose(4) { 0 => w, 1 => Expr::mul_raw(w, z), 2 => Expr::add_raw(w, z), _ => Expr::add_raw(z.clone(), Expr::mul_raw(w, z)) })
}
pub fn sort3() { sort(&G { rd: 0, ops: &[Op::Add, Op::Mul, Op::PowE], leaves: &[Leaf::X, Leaf::Y], ..S }.top(3)) }
pub fn deep() { sort(&G { raw: true, ops: &[Op::Add, Op::Mul, Op::PowE, Op::Sin], leaves: &[Leaf::X, Leaf::Y], ..S }.chain(if thorough() { 4 } else { 3 })) }
/// sums and products of five and six operands
pub fn five() {
    let n = if thorough() { 6 } else { 5 };
    sort(&list(choose(2) == 0, true, n, |i| match choose(3) { 0 => v(i as usize % 2), 1 => Expr::sin(v(0)), _ => if i % 2 == 0 { sint(-2, 2) } else { Expr::pow_raw(v(1), ei(2)) } }))
}
pub fn long() {
    let n = if thorough() { 5 } else { 4 };
    sort(&list(choose(2) == 0, true, n, |_| match choose(if thorough() { 9 } else { 8 }) { 0 => v(0), 1 => v(1), 2 => sint(-2, 2), 3 => Expr::sin(v(0)), 4 => Expr::pow_raw(v(0), ei(2)), 5 => Expr::add_raw(v(1), v(0)), 6 => Expr::mul_raw(v(1), v(0)), 7 => Expr::pow_raw(v(1), v(0)), _ => Expr::pi() }))
}
