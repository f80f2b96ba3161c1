//! serialisation: what is written can be read and is the same expression
use crate::gen::*;
use crate::h03::equal;
use crate::h16::in_order;
use crate::sx::*;
use calcu_rs::atom::{Atom, Func, Prod, Real, Sum};
use calcu_rs::prelude::*;
use calcu_rs::rational::Rational;

fn value(e: &Expr) {
    show("in", e);
    let j = match serde_json::to_value(e) { Ok(j) => j, Err(_) => { check(false, "cannot be written"); return } };
    match serde_json::from_value::<Expr>(j) {
        Ok(r) => { show("back", &r); check(in_order(e, &r), "reads back differently"); check(equal(e, &r) && *e == r, "not equal to what was read back") }
        Err(_) => check(false, "cannot be read back"),
    }
}
fn text(e: &Expr) {
    show("in", e);
    let j = match serde_json::to_string(e) { Ok(j) => j, Err(_) => { check(false, "cannot be written"); return } };
    show("text", &j);
    match serde_json::from_str::<Expr>(&j) {
        Ok(r) => { show("back", &r); check(in_order(e, &r), "reads back differently"); check(equal(e, &r) && *e == r, "not equal to what was read back") }
        Err(_) => check(false, "cannot be read back"),
    }
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::Div, Op::PowE], leaves: &[Leaf::Int, Leaf::X, Leaf::CRat, Leaf::Pi, Leaf::E, Leaf::Undef], k: 1000, rd: 0 };
pub fn tree() { value(&G { k: 3, ..S }.top(2)) }
pub fn raw() { value(&G { raw: true, leaves: &[Leaf::Int, Leaf::X, Leaf::Undef], rd: 1, ..S }.top(2)) }
pub fn list() {
    let s = choose(2) == 0;
    let n = choose(4);
    let args = (0..n).map(|_| match choose(3) { 0 => sint(-1000, 1000), 1 => v(0), _ => Expr::pow_raw(v(1), Expr::pi()) }).collect();
    value(&if s { Expr::from(Atom::Sum(Sum { args })) } else { Expr::from(Atom::Prod(Prod { args })) })
}
pub fn func() {
    let a = match choose(3) { 0 => v(0), 1 => sint(-9, 9), _ => Expr::undef() };
    let k = choose(15) as usize;
    let f = if k == 14 { Expr::from(Atom::Func(Func::Log(match choose(4) { 0 => Real::E, 1 => Real::PI, 2 => Real::Rational(Rational::from(int(2, 99))), _ => Real::Rational(Rational::from((1, 3))) }, a))) } else { apply_fn(k, &a) };
    if choose(2) == 0 { value(&f) } else { text(&f) }
}
pub fn name() {
    let e = Expr::var(["x", "xs", "pi", "e", "undef", "x y", "", "\"", "\\n", "α", "Sum", "null"][choose(12) as usize]);
    if choose(2) == 0 { text(&e) } else { text(&Expr::sin(e)) }
}
/// numbers
pub fn number() {
    let m = 1i128 << if thorough() { 62 } else { 40 };
    let n = int(-m, m);
    let r = Rational::from((n, [1, 2, 3, 7][choose(4) as usize]));
    value(&Expr::from(r));
    match serde_json::to_value(r) {
        Ok(j) => match serde_json::from_value::<Rational>(j) { Ok(s) => check(s.numer() == r.numer() && s.denom() == r.denom(), "a number reads back differently"), Err(_) => check(false, "cannot be read back") },
        Err(_) => check(false, "cannot be written"),
    }
}
/// through text
pub fn txt() {
    match choose(3) {
        0 => text(&Expr::from(Rational::from((conc(int(-30, 30)), 1 + choose(6) as i128)))),
        1 => text(&ei([i128::MAX, i128::MIN, 1 << 64, -(1 << 64), 1 << 63, i64::MIN as i128][choose(6) as usize])),
        _ => text(&G { ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::Ln], leaves: &[Leaf::X, Leaf::CRat, Leaf::Pi, Leaf::Undef], k: 3, ..S }.top(2)),
    }
}
