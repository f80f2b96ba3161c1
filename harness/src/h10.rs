//! factoring
use crate::gen::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

fn pair(a: &Expr, b: &Expr) {
    show("a", a); show("b", b);
    let (f, (p, q)) = Expr::factorize_common_terms(a, b);
    show("f", &f); show("a/f", &p); show("b/f", &q);
    let (x, y) = (val(a), val(b));
    if !x.is_undef() { check(val(&f).mul(val(&p)).eq(x), "factor * left quotient") }
    if !y.is_undef() { check(val(&f).mul(val(&q)).eq(y), "factor * right quotient") }
    let c = Expr::common_factors(a, b);
    if !x.is_undef() && !y.is_undef() { check(val(&c).eq(val(&f)), "common_factors is the factor") }
}
const S: G = G { raw: false, ops: ARITH, leaves: BASIC, k: 3, rd: 0 };
pub fn p11() { let (a, b) = (S.tree(1), S.tree(1)); pair(&a, &b) }
pub fn p21() { let g = G { leaves: if thorough() { BASIC } else { &[Leaf::X, Leaf::Int] }, ops: &[Op::Add, Op::Mul], ..S }; let (a, b) = (g.tree(2), g.tree(1)); if choose(2) == 0 { pair(&a, &b) } else { pair(&b, &a) } }
/// common numeric and variable factors are found
pub fn mono() {
    let m = |k: i128| { let (i, j) = (conc(int(0, 2)), conc(int(0, 2))); (i, j, ei(k) * Expr::pow(v(0), ei(i)) * Expr::pow(v(1), ei(j))) };
    let (c, d) = (int(1, if thorough() { 30 } else { 12 }), int(1, if thorough() { 30 } else { 12 }));
    let ((i, j, a), (k, l, b)) = (m(c), m(d));
    show("a", &a); show("b", &b);
    let (f, (p, q)) = Expr::factorize_common_terms(&a, &b);
    show("f", &f);
    same(&a, &(f.clone() * &p), "factor * left quotient");
    same(&b, &(f.clone() * &q), "factor * right quotient");
    let dv = |n: i128, x: usize| Expr::pow(v(x), ei(n));
    let rest = (f / dv(i.min(k), 0) / dv(j.min(l), 1)).reduce();
    check(rest.variables_free(), "common powers of the variables are factored out");
}
pub trait Vf { fn variables_free(&self) -> bool; }
impl Vf for Expr { fn variables_free(&self) -> bool { self.free_of(&v(0)) && self.free_of(&v(1)) } }
fn fo(e: &Expr) { show("in", e); let r = e.factor_out(); show("out", &r); same(e, &r, "factor_out") }
pub fn out2() { fo(&G { rd: 1, ..S }.top(2)) }
pub fn out3() { fo(&G { leaves: &[Leaf::X, Leaf::Int], k: 4, ..S }.top(3)) }
pub fn outf() { fo(&G { ops: &[Op::Add, Op::Mul, Op::PowF, Op::Sin], leaves: &[Leaf::X, Leaf::Y, Leaf::Half], ..S }.top(2)) }
pub fn outr() { fo(&G { raw: true, ..S }.top(2)) }
pub fn separate() {
    let e = G { rd: 1, ..S }.top(2);
    let x = match choose(3) { 0 => v(0), 1 => v(1), _ => Expr::sin(v(0)) };
    show("in", &e); show("x", &x);
    let (f, d) = e.separate_factors(&x);
    show("free", &f); show("dependent", &d);
    same(&e, &(f.clone() * &d), "free part * dependent part");
    check(f.free_of(&x), "the free part is free of the variable");
}
/// the variable in exponents and functions
pub fn separatef() {
    let t = |i: u32| match choose(7) { 0 => v(0), 1 => Expr::pow(ei(2), v(0)), 2 => Expr::pow(v(1), v(0)), 3 => Expr::sin(v(0) * v(1)), 4 => sint(-3, 3), 5 => Expr::pow(v(1), ei(-1)), _ => Expr::pow(Expr::pi(), v(0) + v(i as usize % 2 + 1)) };
    let e = list(false, choose(2) == 0, 3, t);
    let x = match choose(4) { 0 => v(0), 1 => v(1), 2 => Expr::pow(ei(2), v(0)), _ => v(0) * v(1) };
    show("in", &e); show("x", &x);
    let (f, d) = e.separate_factors(&x);
    show("free", &f); show("dependent", &d);
    same(&e, &(f.clone() * &d), "free part * dependent part");
    check(f.free_of(&x), "the free part is free of the variable");
}
/// longer sums and products
pub fn long() {
    let t = || { let (c, i, j) = (int(1, if thorough() { 6 } else { 4 }), conc(int(0, 2)), choose(2) as i128); ei(c) * Expr::pow(v(0), ei(i)) * Expr::pow(v(1), ei(j)) };
    match choose(4) {
        0 => fo(&(t() + t() + t())),
        1 => { let a = t() + t(); pair(&a, &t()) }
        2 => { let a = t() * (v(0) + v(1)); let b = Expr::pow(v(0) + v(1), ei(2)) * v(1); pair(&a, &b) }
        _ => { let a = list(false, true, 4, |_| factor(4)); pair(&a, &t()) }
    }
}
pub fn deep() { fo(&G { ops: &[Op::Add, Op::Mul, Op::Sq], leaves: &[Leaf::X, Leaf::Int, Leaf::Y], k: 2, ..S }.chain(if thorough() { 4 } else { 3 })) }
