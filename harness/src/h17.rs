//! taking expressions apart: coefficient and term, base and exponent, binary sums and products, predicates, names
use crate::gen::*;
use crate::h03::equal;
use crate::sx::*;
use crate::val::*;
use calcu_rs::atom::{Atom, Func, Irrational, Prod, Real, Sum};
use calcu_rs::prelude::*;
use calcu_rs::rational::Rational;

const L: &[Leaf] = &[Leaf::Int, Leaf::X, Leaf::CRat, Leaf::Pi];
const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Div, Op::Sin, Op::PowE], leaves: L, k: 3, rd: 0 };
const R: G = G { raw: true, ..S };
fn input() -> Expr { match choose(5) { 0 => S.top(2), 1 => R.top(2), 2 => G { rd: 1, leaves: &[Leaf::Int, Leaf::X], ops: &[Op::Add, Op::Mul, Op::PowI], ..R }.top(2), 3 => list(), _ => G { leaves: &[Leaf::Int, Leaf::X, Leaf::CRat, Leaf::Pi, Leaf::E, Leaf::Undef], ..R }.leaf() } }
fn item() -> Expr { match choose(5) { 0 => sint(-3, 3), 1 => v(0), 2 => Expr::pi(), 3 => q(2, 3), _ => Expr::pow_raw(v(1), sint(-2, 2)) } }
/// a literal sum or product of zero to three operands
fn list() -> Expr {
    let s = choose(2) == 0;
    let n = choose(4);
    let args = (0..n).map(|_| item()).collect();
    if s { Expr::from(Atom::Sum(Sum { args })) } else { Expr::from(Atom::Prod(Prod { args })) }
}
/// coefficient times term, base to the exponent, flattening
pub fn parts() {
    let e = input();
    show("in", &e);
    let (c, t) = (e.rational_coeff(), e.non_rational_term());
    show("coefficient", &c); show("term", &t);
    let c2 = c.clone().map(Expr::from).unwrap_or(Expr::one());
    match &t {
        Some(t) => {
            check(c.is_some(), "a term has a coefficient");
            same(&e, &Expr::mul_raw(&c2, t), "coefficient times term");
            check(!t.is_rational() && !(t.is_prod() && t.args().iter().any(|a| a.is_rational())), "the term holds no rational factor");
        }
        None => {
            check(c.is_none() == (e.is_rational() || e.is_undef()), "numbers and undef have no coefficient");
            if c.is_some() { same(&e, &c2, "a product of numbers is its coefficient") }
        }
    }
    let (b, x) = (e.base(), e.exponent());
    show("base", &b); show("exponent", &x);
    if !e.is_undef() { same(&e, &Expr::pow_raw(&b, &x), "base to the exponent") }
    if let Atom::Pow(p) = e.atom() { if !p.exponent().is_one() { check(equal(&b, p.base()) && equal(&x, p.exponent()), "base and exponent of a power") } }
    else if e.n_args() != 1 || e.is_func() { check(equal(&b, &e) && x.is_one(), "base of something else") }
    let f = e.flatten();
    show("flattened", f);
    same(&e, f, "flattening");
    check(if e.n_args() == 1 && (e.is_sum() || e.is_prod()) { equal(f, &e.args()[0]) } else if e.is_pow() && e.args()[1].is_one() { equal(f, &e.args()[0]) } else { equal(f, &e) }, "flattening removes one layer");
}
pub fn binary() {
    let e = match choose(3) { 0 => list(), 1 => G { rd: 1, leaves: &[Leaf::Int, Leaf::X], ops: &[Op::Add, Op::Mul], ..R }.top(2), _ => G { rd: 1, leaves: &[Leaf::Int, Leaf::X, Leaf::Y], ops: &[Op::Add, Op::Mul], ..S }.top(2) };
    show("in", &e);
    match e.atom() {
        Atom::Sum(s) => {
            let (a, b) = s.as_binary_sum();
            show("a", &a); show("b", &b);
            same(&e, &Expr::add_raw(&a, &b), "the two parts of a sum");
            check(s.args.is_empty() || equal(&a, &s.args[0]), "the first part is the first operand");
            check(!s.is_zero() || val(&e).is_zero(), "a zero sum is zero");
            check(!s.is_undef() || val(&e).is_undef(), "an undefined sum is undefined");
            check(s.first().is_some() == !s.args.is_empty(), "first operand");
        }
        Atom::Prod(p) => {
            let (a, b) = p.as_binary_mul();
            show("a", &a); show("b", &b);
            same(&e, &Expr::mul_raw(&a, &b), "the two parts of a product");
            check(p.args.is_empty() || equal(&a, &p.args[0]), "the first part is the first operand");
            if p.is_one() { same(&e, &Expr::one(), "a product that is one") }
            if p.is_zero() { same(&e, &Expr::zero(), "a product that is zero") }
            check(!p.is_undef() || val(&e).is_undef(), "an undefined product is undefined");
            let t = p.term();
            let c = p.args.iter().filter(|a| a.is_number()).fold(Expr::one(), |c, a| Expr::mul_raw(&c, a));
            show("term", &t);
            match t { Some(t) => { same(&e, &Expr::mul_raw(&c, &t), "the constants times the term"); check(!t.is_number() && !(t.is_prod() && t.args().iter().any(|a| a.is_number())), "the term holds no constant") }
                None => check(p.args.iter().all(|a| a.is_number()), "only a product of constants has no term") }
        }
        _ => (),
    }
}
pub fn preds() {
    let e = match choose(4) { 0 => { let d = 1 + choose(4) as i128; q(int(-12, 12), d) } 1 => sint(-1000, 1000), 2 => G { leaves: &[Leaf::X, Leaf::Pi, Leaf::E, Leaf::Undef], ..R }.leaf(), _ => G { leaves: &[Leaf::Int, Leaf::X, Leaf::E], ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::Cos, Op::Tan, Op::Acos, Op::Exp, Op::Ln], ..R }.top(1) };
    show("in", &e);
    let r = match e.atom() { Atom::Rational(r) => Some((r.numer(), r.denom())), _ => None };
    let on = |f: fn(i128, i128) -> bool| r.is_some_and(|(n, d)| f(n.into(), d.into()));
    check(e.is_zero() == on(|n, _| n == 0), "is_zero");
    check(e.is_one() == on(|n, d| n == 1 && d == 1), "is_one");
    check(e.is_min_one() == on(|n, d| n == -1 && d == 1), "is_min_one");
    check(e.is_neg() == on(|n, _| n < 0), "is_neg");
    check(e.is_pos() == on(|n, _| n > 0), "is_pos");
    check(e.is_int() == on(|_, d| d == 1), "is_int");
    check(e.is_even() == on(|n, d| d == 1 && n % 2 == 0), "is_even");
    check(e.is_odd() == on(|n, d| d == 1 && n % 2 != 0), "is_odd");
    check(e.is_pi() == matches!(e.atom(), Atom::Irrational(Irrational::PI)) && e.is_e() == matches!(e.atom(), Atom::Irrational(Irrational::E)), "is_pi, is_e");
    let num = matches!(e.atom(), Atom::Rational(_) | Atom::Irrational(_));
    check(e.is_number() == num && e.is_real() == num && e.is_const() == num, "is_number");
    check(e.is_irreducible() == (num || e.is_var() || e.is_undef()), "is_irreducible");
    check(e.is_atom() == e.args().is_empty(), "is_atom");
    let f = match e.atom() { Atom::Func(f) => Some(f), _ => None };
    check(e.is_sin() == matches!(f, Some(Func::Sin(_))) && e.is_cos() == matches!(f, Some(Func::Cos(_))), "is_sin, is_cos");
    check(e.is_trig() == f.is_some_and(|f| !matches!(f, Func::Log(..))), "is_trig");
    check(e.is_exponential() == matches!(e.atom(), Atom::Pow(p) if matches!(p.base().atom(), Atom::Irrational(Irrational::E)) && !p.exponent().is_one()), "is_exponential");
    match e.try_unwrap_int() { Some(i) => check(on(|_, d| d == 1) && r.is_some_and(|(n, _)| i128::from(n) == i), "integer value"), None => check(!on(|_, d| d == 1), "no integer value") }
    match e.try_as_real() { Some(r) => { check(num && r == *e.atom() && *e.atom() == r, "real value"); check(equal(&Expr::from(Atom::from(r)), &e), "back from a real value") } None => check(!num, "no real value") }
}
/// numbers of every source type
pub fn funcs() {
    let a = G { leaves: &[Leaf::X, Leaf::Int], ..R }.leaf();
    let k = choose(14) as usize;
    let b = match choose(4) { 0 => Real::E, 1 => Real::Rational(Rational::from(10)), 2 => Real::PI, _ => Real::Rational(Rational::from(int(2, 9))) };
    let f = if k == 9 { Func::Log(b.clone(), a.clone()) } else { match apply_fn(k, &a).atom() { Atom::Func(f) => f.clone(), _ => return } };
    let names = ["sin", "cos", "tan", "sec", "csc", "cot", "arcsin", "arccos", "arctan", "", "log", "arcsec", "arccsc", "arccot"];
    if k != 9 { check(f.name() == names[k], "name of a function") }
    else { check((f.name() == "ln") == (b == Real::E) && (f.name() == "log") == (b == Real::Rational(Rational::from(10))), "name of a logarithm") }
    check(f.is_trig() == (k != 9 && k != 10), "is_trig");
    check(f.is_nat_log() == (k == 9 && b == Real::E), "is_nat_log");
    for c in [Real::E, Real::PI, Real::Rational(Rational::from(10)), Real::Rational(Rational::from(2))] {
        let is = match &f { Func::Log(b, _) => *b == c, _ => false };
        match f.try_unwrap_log_base(&c) { Some(x) => check(is && equal(x, &a), "argument of a logarithm"), None => check(!is, "a logarithm in that base") }
    }
    check(equal(&Expr::from(Atom::Func(f.clone())).args()[0], &a), "argument of a function");
}
