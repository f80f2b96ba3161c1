//! Generators: shapes by nondeterministic choice, numbers as symbolic integers.
use crate::sx::*;
use crate::val::*;
use calcu_rs::atom::Atom;
use calcu_rs::prelude::*;
use calcu_rs::rational::Rational;

pub fn v(i: usize) -> Expr { Expr::var(NAMES[i]) }
pub fn ei(k: i128) -> Expr { Expr::from(k) }
pub fn q(n: i128, d: i128) -> Expr { Expr::from(Rational::from((n, d))) }
/// symbolic integer literal
pub fn sint(lo: i128, hi: i128) -> Expr { Expr::from(int(lo, hi)) }

#[derive(Clone, Copy, PartialEq)]
pub enum Op { Add, Sub, Mul, Div, PowI, PowF, PowE, Sin, Cos, Tan, Sec, Csc, Cot, Sq, Asin, Acos, Atan, Ln, Log, Exp }
#[derive(Clone, Copy, PartialEq)]
pub enum Leaf { Int, CInt, CRat, Half, X, Y, Z, Pi, E, Zero, One, MinOne, Undef }
#[derive(Clone, Copy)]
pub struct G {
    /// literal constructors (no simplification) or the smart ones
    pub raw: bool,
    pub ops: &'static [Op],
    pub leaves: &'static [Leaf],
    /// integer literals
    pub k: i128,
    /// depth of right operands
    pub rd: u32,
}
pub const ARITH: &[Op] = &[Op::Add, Op::Mul, Op::PowI];
pub const ARITH5: &[Op] = &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::PowI];
pub const BASIC: &[Leaf] = &[Leaf::Int, Leaf::X, Leaf::Y];

impl G {
    pub fn leaf(&self) -> Expr {
        let i = choose(self.leaves.len() as u32) as usize;
        self.lf(self.leaves[i])
    }
    pub fn lf(&self, l: Leaf) -> Expr {
        match l {
            Leaf::Int => sint(-self.k, self.k),
            Leaf::CInt => ei(conc(int(-self.k, self.k))),
            Leaf::CRat => { let (n, d) = [(2, 3), (1, 2), (-1, 3), (-5, 2), (7, 12)][choose(if thorough() { 5 } else { 4 }) as usize]; q(n, d) }
            Leaf::Half => { let n = int(-self.k, self.k); q(n, 2) }
            Leaf::X => v(0), Leaf::Y => v(1), Leaf::Z => v(2),
            Leaf::Pi => Expr::pi(), Leaf::E => Expr::e(),
            Leaf::Zero => Expr::zero(), Leaf::One => Expr::one(), Leaf::MinOne => Expr::min_one(), Leaf::Undef => Expr::undef(),
        }
    }
    pub fn mk(&self, op: Op, a: &Expr, b: impl Fn() -> Expr) -> Expr {
        let f = |a: &Expr, k: usize| apply_fn(k, a);
        match op {
            Op::Add => { let b = b(); if self.raw { Expr::add_raw(a, b) } else { Expr::add(a, b) } }
            Op::Sub => { let b = b(); if self.raw { Expr::add_raw(a, Expr::mul_raw(Expr::min_one(), b)) } else { Expr::sub(a, b) } }
            Op::Mul => { let b = b(); if self.raw { Expr::mul_raw(a, b) } else { Expr::mul(a, b) } }
            Op::Div => { let b = b(); if self.raw { Expr::div_raw(a, b) } else { Expr::div(a, b) } }
            Op::PowI => { let e = [2i128, -1, 3, -2][choose(if thorough() { 4 } else { 3 }) as usize]; self.pow(a, &ei(e)) }
            Op::PowF => { let e = [(1i128, 2i128), (-1, 2), (3, 2), (2, 3)][choose(if thorough() { 4 } else { 3 }) as usize]; self.pow(a, &q(e.0, e.1)) }
            Op::PowE => { let b = b(); self.pow(a, &b) }
            Op::Sq => self.pow(a, &ei(2)),
            Op::Sin => f(a, 0), Op::Cos => f(a, 1), Op::Tan => f(a, 2), Op::Sec => f(a, 3), Op::Csc => f(a, 4), Op::Cot => f(a, 5),
            Op::Asin => f(a, 6), Op::Acos => f(a, 7), Op::Atan => f(a, 8), Op::Ln => f(a, 9), Op::Log => f(a, 10), Op::Exp => if self.raw { Expr::pow_raw(Expr::e(), a) } else { Expr::exp(a) },
        }
    }
    pub fn pow(&self, a: &Expr, b: &Expr) -> Expr { if self.raw { Expr::pow_raw(a, b) } else { Expr::pow(a, b) } }
    /// a tree of depth at most d
    pub fn tree(&self, d: u32) -> Expr {
        if d == 0 { return self.leaf() }
        let c = choose(1 + self.ops.len() as u32);
        if c == 0 { return self.leaf() }
        self.node(self.ops[c as usize - 1], d)
    }
    pub fn node(&self, op: Op, d: u32) -> Expr {
        let a = self.tree(d - 1);
        let rd = self.rd.min(d - 1);
        self.mk(op, &a, || self.tree(rd))
    }
    /// n operations one upon the other, the other operand a leaf
    pub fn chain(&self, n: u32) -> Expr {
        let mut e = self.leaf();
        for _ in 0..n {
            let op = self.ops[choose(self.ops.len() as u32) as usize];
            let binary = matches!(op, Op::Sub | Op::Div | Op::PowE) || self.raw && matches!(op, Op::Add | Op::Mul);
            e = if binary && choose(2) == 1 { let l = self.leaf(); self.mk(op, &l, || e.clone()) } else { self.mk(op, &e, || self.leaf()) };
        }
        e
    }
    /// a node whose top operator is one of the operators
    pub fn top(&self, d: u32) -> Expr { let c = choose(self.ops.len() as u32); self.node(self.ops[c as usize], d) }
}
pub fn apply_fn(k: usize, a: &Expr) -> Expr {
    match k {
        0 => Expr::sin(a), 1 => Expr::cos(a), 2 => Expr::tan(a), 3 => Expr::sec(a), 4 => Expr::csc(a), 5 => Expr::cot(a),
        6 => Expr::arc_sin(a), 7 => Expr::arc_cos(a), 8 => Expr::arc_tan(a), 9 => Expr::ln(a), 10 => Expr::log10(a),
        11 => Expr::arc_sec(a), 12 => Expr::arc_csc(a), _ => Expr::arc_cot(a),
    }
}
/// sums and products of n operands, as a literal list or one after the other
pub fn list(sum: bool, lit: bool, n: u32, item: impl Fn(u32) -> Expr) -> Expr {
    let a: Vec<Expr> = (0..n).map(|i| item(i)).collect();
    match (sum, lit) {
        (true, true) => Expr::from(Atom::Sum(Sum { args: a })),
        (false, true) => Expr::from(Atom::Prod(Prod { args: a })),
        (true, _) => a.into_iter().fold(Expr::zero(), |s, x| s + x),
        _ => a.into_iter().fold(Expr::one(), |s, x| s * x),
    }
}
/// operand of a sum: the first k of these kinds
pub fn term(k: u32) -> Expr {
    match choose(k) { 0 => sint(-2, 2) * v(0), 1 => sint(-2, 2), 2 => v(1), 3 => v(0) * v(1), 4 => Expr::pow(v(0), ei(2)), 5 => Expr::sin(v(0)), _ => Expr::pow(v(1), ei(-1)) }
}
/// operand of a product
pub fn factor(k: u32) -> Expr {
    match choose(k) { 0 => Expr::pow(v(0), sint(-2, 2)), 1 => sint(-2, 2), 2 => v(1), 3 => v(0) + v(1), 4 => Expr::pow(v(1), ei(-2)), 5 => Expr::sin(v(0)), _ => Expr::pow(v(0), v(1)) }
}
/// check that two expressions denote the same value wherever the first is defined
pub fn same(a: &Expr, b: &Expr, label: &str) {
    let x = val(a);
    if x.is_undef() { return }
    let y = val(b);
    check(x.eq(y), label);
}
