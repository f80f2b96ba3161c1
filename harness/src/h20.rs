//! every operation gives an answer, a well-formed one, and leaves its operand alone
use crate::gen::*;
use crate::h01::canonical;
use crate::sx::*;
use calcu_rs::atom::{Atom, Func, Prod, Real, Sum};
use calcu_rs::prelude::*;
use calcu_rs::polynomial::VarSet;

const RAW: G = G { raw: true, ops: &[Op::Add, Op::Mul, Op::PowE, Op::Sin, Op::Ln, Op::Div], leaves: &[Leaf::Int, Leaf::X, Leaf::CRat, Leaf::Pi, Leaf::E, Leaf::Undef], k: 2, rd: 0 };
fn arg() -> Expr { match choose(if thorough() { 6 } else { 5 }) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::undef(), 3 => q(-1, 2), 4 => Expr::pow_raw(v(0), ei(-1)), _ => Expr::add_raw(v(1), Expr::one()) } }
fn arg2() -> Expr { match choose(3) { 0 => sint(-1, 1), 1 => v(0), _ => Expr::undef() } }
/// sums and products of no, one or two operands
fn list(depth: u32) -> Expr { list_of(depth, thorough()) }
fn list_of(depth: u32, wide: bool) -> Expr {
    let s = choose(2) == 0;
    let n = choose(3);
    let args: Vec<Expr> = (0..n).map(|i| if depth > 0 && choose(2) == 0 { list_of(depth - 1, thorough() && i == 0) } else if i > 0 || !wide && depth == 0 { arg2() } else { arg() }).collect();
    if s { Expr::from(Atom::Sum(Sum { args })) } else { Expr::from(Atom::Prod(Prod { args })) }
}
/// unusual but possible operands
fn odd() -> Expr {
    match choose(7) {
        0 => { let a = arg(); Expr::pow_raw(list(0), a) }
        1 => { let a = arg(); Expr::pow_raw(a, list(0)) }
        2 => apply_fn(choose(14) as usize, &arg()),
        3 => { let b = match choose(5) { 0 => Real::Rational(0.into()), 1 => Real::Rational(1.into()), 2 => Real::Rational((-2).into()), 3 => Real::PI, _ => Real::Rational((1, 2).into()) }; Expr::from(Atom::Func(Func::Log(b, arg()))) }
        4 => { let (a, b) = (arg(), arg()); Expr::pow_raw(a, b) }
        5 => { let (a, b, c) = (arg(), choose(3), arg()); let p = Expr::pow_raw(Expr::pow_raw(a, ei([2, -1, 0][b as usize])), c); p }
        _ => apply_fn([0, 4, 9][choose(3) as usize], &list(0)),
    }
}
fn wf(e: &Expr) {
    if let Atom::Rational(r) = e.atom() { canonical(r) }
    for a in e.args() { wf(a) }
}
fn out(e: &Expr) { show("result", e); check(!e.to_string().is_empty(), "no text"); wf(e) }
const N: u32 = 24;
fn op(k: u32, e: &Expr) {
    match k {
        0 => out(&e.reduce()),
        1 => out(&e.expand()),
        2 => out(&e.expand_main_op()),
        3 => out(&e.distribute()),
        4 => out(&e.rationalize()),
        5 => out(&e.cancel()),
        6 => out(&e.factor_out()),
        7 => { out(&e.numerator()); out(&e.denominator()); if let Some((a, b)) = e.try_as_div() { out(&a); out(&b) } }
        8 => out(&e.expand_trig()),
        9 => out(&e.contract_trig()),
        10 => out(&e.simplify_trig()),
        11 => out(&e.substitute_trig()),
        12 => out(&e.expand_exponential()),
        13 => out(&e.expand_ln()),
        14 => out(&e.sort_args()),
        15 => for f in e.simplify() { wf(&f) },
        16 => out(&e.derivative(v(0))),
        17 => { let (a, b) = e.separate_factors(&v(0)); out(&a); out(&b) }
        18 => { check(e.iter_compl_sub_exprs().count() > 0, "no subexpression"); e.free_of(&v(0)); for x in e.variables() { out(&x) } }
        19 => for to in [Expr::zero(), Expr::undef(), Expr::min_one(), Expr::add_raw(v(0), v(0))] { out(&e.substitude(&v(0), &to)) },
        20 => for g in [v(0), v(1), Expr::sin(v(0)), Expr::pi()] { poly(e, g) },
        21 => { if let Some(x) = e.non_rational_term() { out(&x) } out(&e.base()); out(&e.exponent()); out(e.flatten()); if let Some(r) = e.rational_coeff() { canonical(&r) } }
        22 => { let (a, b) = calcu_rs::algos::separate_sin_cos(e); out(&a); out(&b) }
        _ => { check(!format!("{e:?}").is_empty(), "no debug text"); check(e == e && e.cmp(e).is_eq(), "equal to itself") }
    }
}
fn poly(e: &Expr, g: Expr) {
    let vars: VarSet = [g.clone(), v(2)].into();
    {
        let p = e.as_polynomial_view(&vars);
        p.check();
        p.degree();
        p.degree_of(&g);
        for (_, c) in p.coeffs() { out(&c) }
        if let Some(l) = p.leading_coeff_of(&g) { out(&l) }
        if let Some(c) = p.collect_terms() { out(&c) }
    }
    {
        let m = e.as_monomial_view(&vars);
        m.check();
        m.degree();
        m.degree_of(&g);
        if let Some((c, _)) = m.coeff() { out(&c) }
    }
}
/// the same expression with its numbers picked one by one (simplify hashes them)
fn concrete(e: &Expr) -> Expr {
    if let Atom::Rational(r) = e.atom() { return Expr::from(calcu_rs::rational::Rational::from((conc(r.numer()), conc(r.denom())))) }
    let mut r = e.clone();
    for a in r.args_mut() { *a = concrete(a) }
    r
}
fn go(e: Expr) {
    let g = choose(4);
    let e = if g == 2 { concrete(&e) } else { e };
    show("in", &e);
    let before = e.clone();
    for k in 0..N / 4 {
        show("op", &(g * N / 4 + k));
        op(g * N / 4 + k, &e);
        check(crate::h03::equal(&before, &e), "the operand has changed");
    }
}
pub fn list1() { go(list(1)) }
pub fn odd1() { go(odd()) }
pub fn tree2() { go(if thorough() { RAW } else { G { leaves: &[Leaf::Int, Leaf::X, Leaf::Undef], ..RAW } }.top(2)) }
/// sums and products of no or one operand, single operands, functions and powers of those
fn small() -> Expr {
    let l = || { let s = choose(2) == 0; let args = if choose(2) == 0 { vec![] } else { vec![arg()] }; if s { Expr::from(Atom::Sum(Sum { args })) } else { Expr::from(Atom::Prod(Prod { args })) } };
    match choose(6) { 0 => arg(), 1 => Expr::sin(arg()), 2 => Expr::pow_raw(l(), ei(-1)), 3 => Expr::pow_raw(v(0), l()), 4 => list(0), _ => l() }
}
/// products and powers of functions
pub fn trig() {
    let f = |n: u32| apply_fn([0, 1, 2, 3, 4, 5, 6, 9][choose(n) as usize], &match choose(2) { 0 => v(0), _ => v(1) });
    let p = |a: Expr| match choose(5) { 0 => a, 1 => Expr::pow_raw(a, ei(2)), 2 => Expr::pow_raw(a, q(1, 2)), 3 => Expr::pow_raw(a, v(1)), _ => Expr::pow_raw(a, ei(-1)) };
    let (a, b) = (p(f(8)), p(f(if thorough() { 8 } else { 4 })));
    let e = if choose(2) == 0 { Expr::mul_raw(a, b) } else { Expr::add_raw(a, b) };
    show("in", &e);
    for k in 8..14 { show("op", &k); op(k, &e) }
}
/// two operands
pub fn two() {
    let (a, b) = if thorough() { match choose(3) { 0 => (list(0), odd()), 1 => (odd(), list(0)), _ => { let a = list(0); (a, list(0)) } } } else { let a = small(); (a, small()) };
    show("a", &a); show("b", &b);
    match choose(10) {
        0 => out(&(&a + &b)), 1 => out(&(&a - &b)), 2 => out(&(&a * &b)), 3 => out(&(&a / &b)), 4 => out(&Expr::pow(&a, &b)),
        5 => { let f = Expr::factorize_common_terms(&a, &b); out(&f.0); out(&f.1.0); out(&f.1.1) }
        6 => out(&Expr::common_factors(&a, &b)),
        7 => { let r = a.cmp(&b); check(r == b.cmp(&a).reverse(), "comparison is antisymmetric") }
        8 => { a.free_of(&b); out(&a.substitude(&b, &v(1))) }
        _ => { let (p, q) = a.separate_factors(&b); out(&p); out(&q) }
    }
}
