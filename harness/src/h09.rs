//! numerator, denominator, rationalize, cancel, try_as_div
use crate::gen::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

fn go(e: &Expr) {
    show("in", e);
    let w = val(e);
    if w.is_undef() { return }
    match choose(4) {
        0 => {
            let (n, d) = (e.numerator(), e.denominator());
            show("numerator", &n); show("denominator", &d);
            check(val(&n).div(val(&d)).eq(w), "numerator / denominator");
        }
        1 => { let r = e.rationalize(); show("out", &r); check(val(&r).eq(w), "rationalize") }
        2 => { let r = e.cancel(); show("out", &r); check(val(&r).eq(w), "cancel") }
        _ => if let Some((n, d)) = e.try_as_div() {
            show("numerator", &n); show("denominator", &d);
            check(val(&n).div(val(&d)).eq(w), "try_as_div");
        },
    }
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], leaves: BASIC, k: 2, rd: 0 };
pub fn s2() { go(&G { rd: 1, ops: &[Op::Add, Op::Mul, Op::Div], ..S }.top(2)) }
pub fn s2p() { go(&S.top(2)) }
pub fn s3() { go(&G { leaves: &[Leaf::X, Leaf::Int], ops: &[Op::Add, Op::Div, Op::Mul], ..S }.top(3)) }
pub fn r2() { go(&G { raw: true, leaves: &[Leaf::X, Leaf::Y, Leaf::Half], ..S }.top(2)) }
/// a rationalized sum of fractions is one fraction: the numerator has no denominators left
pub fn one() {
    let t = || { let n = match choose(2) { 0 => v(2), _ => sint(1, 3) }; let d = match choose(5) { 0 => v(0), 1 => v(1), 2 => v(0) + v(1), 3 => Expr::one(), _ => v(0) + Expr::one() }; n / d };
    let e = match choose(if thorough() { 3 } else { 2 }) { 0 => t() + t(), 1 => Expr::add_raw(t(), t()), _ => t() + t() + t() };
    show("in", &e);
    let r = e.rationalize();
    show("out", &r);
    same(&e, &r, "rationalize");
    let n = r.numerator();
    check(n.args().iter().chain(std::iter::once(&n)).all(|a| a.denominator().is_one()), "one fraction");
}
/// sums of three fractions, fractions of fractions
pub fn three() {
    let d = || match choose(4) { 0 => v(0), 1 => v(1), 2 => v(0) + Expr::one(), _ => Expr::pow(v(0), ei(2)) };
    let e = match choose(3) { 0 => Expr::one() / d() + v(2) / d() + sint(-2, 2) / d(), 1 => (Expr::one() / d() + sint(-2, 2)) / (v(2) / d() + d()), _ => Expr::pow(v(2) / d() + sint(1, 3) / d(), ei([2, -1, -2][choose(3) as usize])) };
    go(&e)
}
pub fn deep() { go(&G { ops: &[Op::Add, Op::Mul, Op::Div], leaves: if thorough() { BASIC } else { &[Leaf::X, Leaf::CInt] }, k: 1, ..S }.chain(4)) }
pub fn long() { let sum = choose(2) == 0; go(&list(sum, choose(2) == 0, 4, |_| if sum { match choose(3) { 0 => sint(-2, 2), 1 => Expr::pow(v(0), ei(-1)), _ => v(1) / (v(0) + Expr::one()) } } else { factor(5) })) }
