//! substitution, dependence, traversal, variables
use crate::gen::*;
use crate::h03::{equal, mirror};
use crate::sx::*;
use calcu_rs::atom::{Atom, Func, Prod, Sum};
use calcu_rs::polynomial::VarSet;
use calcu_rs::prelude::*;

/// the same operator with other operands
pub fn with_args(e: &Expr, a: Vec<Expr>) -> Expr {
    match e.atom() {
        Atom::Sum(_) => Expr::from(Atom::Sum(Sum { args: a })),
        Atom::Prod(_) => Expr::from(Atom::Prod(Prod { args: a })),
        Atom::Pow(_) => Expr::pow_raw(&a[0], &a[1]),
        Atom::Func(f) => {
            let x = a[0].clone();
            Expr::from(Atom::Func(match f {
                Func::Sin(_) => Func::Sin(x), Func::ArcSin(_) => Func::ArcSin(x), Func::Cos(_) => Func::Cos(x), Func::ArcCos(_) => Func::ArcCos(x), Func::Tan(_) => Func::Tan(x), Func::ArcTan(_) => Func::ArcTan(x),
                Func::Sec(_) => Func::Sec(x), Func::ArcSec(_) => Func::ArcSec(x), Func::Cot(_) => Func::Cot(x), Func::ArcCot(_) => Func::ArcCot(x), Func::Csc(_) => Func::Csc(x), Func::ArcCsc(_) => Func::ArcCsc(x),
                Func::Log(b, _) => Func::Log(b.clone(), x),
            }))
        }
        _ => e.clone(),
    }
}
fn subst(e: &Expr, s: &[(&Expr, &Expr)]) -> Expr {
    if let Some((_, t)) = s.iter().find(|(f, _)| equal(e, f)) { return (*t).clone() }
    with_args(e, e.args().iter().map(|a| subst(a, s)).collect())
}
fn occurs(e: &Expr, x: &Expr) -> bool { equal(e, x) || e.args().iter().any(|a| occurs(a, x)) }
fn size(e: &Expr) -> usize { 1 + e.args().iter().map(size).sum::<usize>() }

const S: G = G { raw: false, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::PowE], leaves: &[Leaf::X, Leaf::Y, Leaf::Int], k: 2, rd: 0 };
const R: G = G { raw: true, ..S };
fn from() -> Expr { match choose(6) { 0 => v(0), 1 => v(1), 2 => sint(-2, 2), 3 => v(0) * v(1), 4 => v(1) + v(0), _ => Expr::pow(v(0), ei(2)) } }
fn to() -> Expr { match choose(5) { 4 => Expr::undef(), 0 => v(2), 1 => sint(-2, 2), 2 => v(0) + Expr::one(), _ => v(1) } }
fn input() -> Expr { if choose(2) == 0 { S.top(2) } else { R.top(2) } }

fn one(e: &Expr) {
    let (f, t) = (from(), to());
    show("in", e); show("from", &f); show("to", &t);
    let w = subst(e, &[(&f, &t)]);
    let r = match choose(3) { 0 => e.substitude(&f, &t), 1 => e.concurr_substitude([(&f, &t)]), _ => e.seq_substitude([(&f, &t)]) };
    show("out", &r);
    check(equal(&r, &w), "substitution");
}
pub fn sub() { one(&input()) }
pub fn sub3() { one(&G { ops: &[Op::Add, Op::Mul, Op::PowI], leaves: &[Leaf::X, Leaf::Y], ..S }.top(3)) }
/// two substitutions at once (the first match wins) or one after the other
pub fn sub2() {
    let e = G { rd: 1, ops: &[Op::Add, Op::Mul, Op::Sin], leaves: &[Leaf::X, Leaf::Y], ..S }.top(2);
    let (f, t, g, u) = (if choose(2) == 0 { v(0) } else { v(0) * v(1) }, to(), match choose(3) { 0 => v(1), 1 => v(0), _ => v(2) }, to());
    show("in", &e); show("from", &f); show("to", &t); show("from2", &g); show("to2", &u);
    let (r, w) = if choose(2) == 0 { (e.concurr_substitude([(&f, &t), (&g, &u)]), subst(&e, &[(&f, &t), (&g, &u)])) }
        else { (e.seq_substitude([(&f, &t), (&g, &u)]), subst(&subst(&e, &[(&f, &t)]), &[(&g, &u)])) };
    show("out", &r);
    check(equal(&r, &w), "two substitutions");
}
pub fn free() {
    let e = input();
    let x = from();
    show("in", &e); show("x", &x);
    check(e.free_of(&x) == !occurs(&e, &x), "free_of");
    let y = v(1);
    let both = [x.clone(), y.clone()];
    check(e.free_of_set(both.iter()) == !(occurs(&e, &x) || occurs(&e, &y)), "free_of_set");
}
pub fn visit() {
    let e = match choose(3) { 0 => R.top(2), 1 => G { rd: 1, leaves: &[Leaf::X, Leaf::Y], ..R }.top(2), _ => G { leaves: &[Leaf::X, Leaf::Y], ops: &[Op::Mul, Op::Add, Op::Sin], ..S }.top(3) };
    show("in", &e);
    let all: Vec<&Expr> = e.iter_compl_sub_exprs().collect();
    check(all.len() == size(&e), "every subexpression visited once");
    check(all.iter().any(|s| equal(s, &e)), "the expression itself is visited");
    // every leaf renamed
    let mut r = e.clone();
    r.for_each_compl_sub_expr(|s| if s.is_var() { *s = Expr::var("z") });
    check(equal(&r, &subst(&e, &[(&v(0), &v(2)), (&v(1), &v(2))])), "for_each reaches every subexpression");
    let mut s = e.clone();
    s.try_for_each_compl_sub_expr(|s| if s.is_pow() || s.is_func() { std::ops::ControlFlow::Break(()) } else { if s.is_var() { *s = Expr::var("z") } std::ops::ControlFlow::Continue(()) });
    check(equal(&s, &rename_outside(&e)), "try_for_each stops below a break");
    check(e.n_args() == e.args().len() && e.iter_args().count() == e.n_args() && e.is_atom() == (e.n_args() == 0), "operand counts");
}
fn rename_outside(e: &Expr) -> Expr {
    if e.is_pow() || e.is_func() { return e.clone() }
    if e.is_var() { return v(2) }
    with_args(e, e.args().iter().map(rename_outside).collect())
}
fn leaves<'a>(e: &'a Expr, o: &mut Vec<&'a Expr>) { if e.is_var() { o.push(e) } for a in e.args() { leaves(a, o) } }
/// an expression is a polynomial in its variables, and no variable is forgotten
pub fn vars() {
    let e = G { ops: &[Op::Add, Op::Mul, Op::PowI, Op::PowF, Op::Sin, Op::PowE], leaves: &[Leaf::X, Leaf::Y, Leaf::Int, Leaf::Pi], rd: 0, ..S }.top(2).reduce();
    vars_ok(&e)
}
fn vars_ok(e: &Expr) {
    assume(!e.is_undef());
    show("in", e);
    let vs: Vec<Expr> = e.variables().into_iter().collect();
    show("variables", &vs);
    for x in &vs { check(occurs(e, x), "every variable occurs in the expression") }
    let mut l = vec![];
    leaves(e, &mut l);
    check(l.iter().all(|y| vs.iter().any(|x| occurs(x, y))), "no variable is forgotten");
    check(!vs.iter().any(|x| x.is_rational()), "a rational number is no variable");
    let set = VarSet::new(vs.iter());
    let p = e.as_polynomial_view(&set);
    check(p.check(), "an expression is a polynomial in its variables");
}
/// products of many kinds of factors
pub fn varsl() {
    let n = 4;
    let e = list(choose(4) == 0, choose(2) == 0, n, |i| match choose(8) {
        0 => v(i as usize), 1 => v(0) + ei(i as i128 + 1), 2 => Expr::pow(v(i as usize), ei(-2)), 3 => Expr::sin(v(i as usize)), 4 => Expr::pow(v(0) + v(1), ei(2)), 5 => Expr::pow(ei(2), q(1, 2)), 6 => sint(-2, 2), _ => Expr::pow(v(i as usize), q(3, 2)),
    }).reduce();
    vars_ok(&e)
}
/// a copy stays as it was when the original is changed
pub fn alias() {
    let e = G { rd: 1, leaves: &[Leaf::X, Leaf::Y], ..S }.top(2);
    let c = e.clone();
    let m = mirror(&mirror(&e));
    let mut d = e.clone();
    match choose(5) {
        0 => d.for_each_compl_sub_expr(|s| if s.is_var() { *s = Expr::zero() }),
        1 => d += v(2), 2 => d *= v(2), 3 => d -= v(2),
        _ => d = d.map_args(|a| *a = Expr::zero()),
    }
    show("changed", &d);
    check(equal(&c, &m) && equal(&e, &m), "a copy changed with the original");
}
/// no operation changes its operand
pub fn pure() {
    let e = G { ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin, Op::Exp], leaves: &[Leaf::X, Leaf::Y], rd: 0, ..S }.top(2);
    let c = e.clone();
    let m = mirror(&mirror(&e));
    let r = match choose(16) {
        0 => e.reduce(), 1 => e.expand(), 2 => e.expand_main_op(), 3 => e.distribute(), 4 => e.expand_trig(), 5 => e.contract_trig(), 6 => e.simplify_trig(), 7 => e.expand_ln(),
        8 => e.expand_exponential(), 9 => e.rationalize(), 10 => e.cancel(), 11 => e.factor_out(), 12 => e.derivative(v(0)), 13 => e.sort_args(), 14 => e.substitude(&v(0), &v(2)), _ => e.substitute_trig(),
    };
    show("out", &r);
    check(equal(&e, &m) && equal(&c, &m), "an operation changed its operand");
}
/// every kind of expression
pub fn kinds() {
    let s = match choose(4) { 0 => v(0), 1 => Expr::add_raw(v(0), v(1)), 2 => Expr::mul_raw(v(1), v(0)), _ => Expr::pow_raw(v(0), ei(2)) };
    let w = match choose(18) {
        14 => Expr::log(calcu_rs::rational::Rational::from(2), s), 15 => Expr::pow_raw(Expr::e(), s), 16 => Expr::pow_raw(s, v(2)), 17 => Expr::pow_raw(ei(2), s), k => apply_fn(k as usize, &s),
    };
    let e = match choose(5) { 0 => w, 1 => Expr::add_raw(w, v(1)), 2 => Expr::mul_raw(v(1), w), 3 => Expr::pow_raw(w, ei(-1)), _ => Expr::add_raw(Expr::mul_raw(ei(2), &w), w) };
    let x = match choose(4) { 0 => v(0), 1 => v(1), 2 => Expr::add_raw(v(1), v(0)), _ => v(2) };
    let t = match choose(3) { 0 => v(2), 1 => Expr::one(), _ => v(0) + v(1) };
    show("in", &e); show("from", &x); show("to", &t);
    check(e.free_of(&x) == !occurs(&e, &x), "free_of");
    check(equal(&e.substitude(&x, &t), &subst(&e, &[(&x, &t)])), "substitution");
    let all: Vec<&Expr> = e.iter_compl_sub_exprs().collect();
    check(all.len() == size(&e) && all.iter().all(|s| occurs(&e, s)), "every subexpression visited once");
    let mut r = e.clone();
    r.for_each_compl_sub_expr(|s| if s.is_var() { *s = Expr::var("z") });
    check(equal(&r, &subst(&e, &[(&v(0), &v(2)), (&v(1), &v(2))])), "for_each reaches every subexpression");
    let m = e.clone().map_args(|a| *a = v(2));
    check(equal(&m, &with_args(&e, e.args().iter().map(|_| v(2)).collect())), "map_args changes every operand");
}
/// deep and long expressions
pub fn deep() {
    let e = G { raw: choose(2) == 0, ops: &[Op::Add, Op::Mul, Op::Sq, Op::Sin], leaves: &[Leaf::X, Leaf::Y], ..S }.chain(if thorough() { 4 } else { 3 });
    let (f, t) = match choose(4) { 0 => (v(0), v(2)), 1 => (v(1), v(0) + Expr::one()), 2 => (ei(2), v(0)), _ => (v(0), v(1)) };
    show("in", &e); show("from", &f); show("to", &t);
    check(equal(&e.substitude(&f, &t), &subst(&e, &[(&f, &t)])), "substitution");
    check(e.free_of(&f) == !occurs(&e, &f), "free_of");
    let all: Vec<&Expr> = e.iter_compl_sub_exprs().collect();
    check(all.len() == size(&e) && all.iter().all(|s| occurs(&e, s)), "every subexpression visited once");
    let mut r = e.clone();
    r.for_each_compl_sub_expr(|s| if s.is_var() { *s = Expr::var("z") });
    check(equal(&r, &subst(&e, &[(&v(0), &v(2)), (&v(1), &v(2))])), "for_each reaches every subexpression");
}
pub fn long() {
    let it = |_| match choose(4) { 0 => v(0), 1 => Expr::sin(v(1)), 2 => Expr::mul_raw(v(0), v(1)), _ => ei(2) };
    let e = list(choose(2) == 0, true, 4, it);
    let (a, b, c) = (match choose(3) { 0 => v(0), 1 => Expr::mul_raw(v(0), v(1)), _ => Expr::sin(v(1)) }, v(1), ei(2));
    let (t, u, w) = (if choose(2) == 0 { v(1) } else { v(0) + v(1) }, v(2), v(0));
    show("in", &e); show("from", &a); show("to", &t);
    let s = [(&a, &t), (&b, &u), (&c, &w)];
    check(equal(&e.concurr_substitude(s), &subst(&e, &s)), "three substitutions at once");
    check(equal(&e.seq_substitude(s), &subst(&subst(&subst(&e, &s[..1]), &s[1..2]), &s[2..])), "three substitutions one after the other");
    check(e.free_of(&a) == !occurs(&e, &a), "free_of");
    check(e.free_of_set([&a, &b, &c]) == !(occurs(&e, &a) || occurs(&e, &b) || occurs(&e, &c)), "free_of_set");
    let r = e.reduce();
    if r.is_undef() { return }
    let vs = r.variables();
    for x in &vs { check(occurs(&r, x), "every variable occurs in the expression") }
    let mut l = vec![];
    leaves(&r, &mut l);
    check(l.iter().all(|y| vs.iter().any(|x| occurs(x, y))), "no variable is forgotten");
}
