//! printing: reading the printed text back gives the same value
use crate::gen::*;
use crate::rr::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::prelude::*;

/// reader of the usual notation: sums of terms, products (also implied) and quotients from left to right, powers, functions
struct Rd { s: Vec<char>, i: usize, bad: bool }
impl Rd {
    fn peek(&self) -> char { self.s.get(self.i).copied().unwrap_or('\0') }
    fn ws(&mut self) { while self.peek() == ' ' { self.i += 1 } }
    fn eat(&mut self, c: char) -> bool { self.ws(); if self.peek() == c { self.i += 1; true } else { false } }
    fn sum(&mut self) -> Val {
        let mut v = if self.eat('-') { self.term().neg() } else { self.term() };
        loop {
            if self.eat('+') { v = if self.eat('-') { v.add(self.term().neg()) } else { v.add(self.term()) } }
            else if self.eat('−') || self.eat('-') { v = v.sub(self.term()) }
            else { return v }
        }
    }
    fn term(&mut self) -> Val {
        let mut v = self.power();
        loop {
            if self.eat('·') || self.eat('*') { v = v.mul(self.power()) }
            else if self.eat('/') { v = v.div(self.power()) }
            else {
                self.ws();
                let c = self.peek();
                if c == '(' || c == 'π' || c == '𝓮' || c == '∅' || c.is_ascii_alphanumeric() { v = v.mul(self.power()) } else { return v }
            }
        }
    }
    fn power(&mut self) -> Val {
        let b = self.atom();
        if self.eat('^') { let e = self.atom(); b.pow(e) } else { b }
    }
    fn number(&mut self) -> Val {
        let mut n = 0i128;
        let mut any = false;
        while let Some(d) = self.peek().to_digit(10) { n = n * 10 + d as i128; self.i += 1; any = true }
        if !any { self.bad = true }
        Val::int(n)
    }
    fn arg(&mut self) -> Val {
        if !self.eat('(') { self.bad = true }
        let a = self.sum();
        if !self.eat(')') { self.bad = true }
        a
    }
    fn atom(&mut self) -> Val {
        self.ws();
        let c = self.peek();
        match c {
            '(' => self.arg(),
            'π' => { self.i += 1; Val::pi() }
            '𝓮' => { self.i += 1; Val::int(1).f(EXP) }
            '∅' => { self.i += 1; Val::undef() }
            '0'..='9' => self.number(),
            'a'..='z' => {
                let st = self.i;
                while self.peek().is_ascii_lowercase() { self.i += 1 }
                let w: String = self.s[st..self.i].iter().collect();
                for (n, k) in [("sin", SIN), ("arcsin", ASIN), ("cos", COS), ("arccos", ACOS), ("tan", TAN), ("arctan", ATAN), ("sec", SEC), ("arcsec", ASEC), ("cot", COT), ("arccot", ACOT), ("csc", CSC), ("arccsc", ACSC), ("ln", LN), ("log", 99)] {
                    if w != n { continue }
                    let mut base = Val::int(10);
                    if k == 99 {
                        if self.peek().is_ascii_digit() { base = self.number(); if self.peek() == '/' { self.i += 1; base = base.div(self.number()) } }
                        else if self.peek() == 'π' { self.i += 1; base = Val::pi() }
                    }
                    // sin^2(x) is sin(x)^2
                    let e = if self.eat('^') { Some(if self.peek() == 'π' { self.i += 1; Val::pi() } else if self.peek() == '𝓮' { self.i += 1; Val::int(1).f(EXP) } else { let n = self.number(); if self.peek() == '/' { self.i += 1; n.div(self.number()) } else { n } }) } else { None };
                    let a = self.arg();
                    let v = if k == 99 { a.f(LN).div(base.f(LN)) } else { a.f(k) };
                    return match e { Some(e) => v.pow(e), None => v };
                }
                // variables have one letter
                self.i = st + 1;
                for (i, n) in NAMES.iter().enumerate() { if n.starts_with(c) { return Val::var(i as u32) } }
                self.bad = true;
                Val::int(0)
            }
            _ => { self.bad = true; self.i += 1; Val::int(0) }
        }
    }
}
fn go(e: &Expr) {
    let v = val(e);
    if v.is_undef() { return }
    let s = e.to_string();
    if verbose() { show("in", e); note(&s) }
    let mut r = Rd { s: s.chars().collect(), i: 0, bad: false };
    let w = r.sum();
    r.ws();
    check(!r.bad && r.i == r.s.len(), "printed text can be read");
    check(w.eq(v), "printed text has another value");
}
const S: G = G { raw: false, ops: &[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::PowI, Op::PowE, Op::Sin], leaves: &[Leaf::Int, Leaf::X, Leaf::Pi, Leaf::CRat], k: 4, rd: 0 };
pub fn s2() { go(&G { rd: 1, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Div], leaves: if thorough() { &[Leaf::Int, Leaf::X, Leaf::Y, Leaf::CRat] } else { &[Leaf::CInt, Leaf::X] }, k: if thorough() { 4 } else { 2 }, ..S }.top(2)) }
pub fn f2() { go(&G { ops: &[Op::Add, Op::Mul, Op::PowI, Op::PowF, Op::PowE, Op::Sin, Op::Ln, Op::Log, Op::Exp], leaves: if thorough() { &[Leaf::Int, Leaf::X, Leaf::E, Leaf::Pi, Leaf::CRat] } else { &[Leaf::Int, Leaf::X, Leaf::CRat] }, k: if thorough() { 4 } else { 2 }, ..S }.top(2)) }
pub fn r2() { go(&G { raw: true, ..S }.top(2)) }
pub fn r2b() { go(&G { raw: true, rd: 1, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Div], leaves: &[Leaf::Int, Leaf::X, Leaf::CRat], k: 2, ..S }.top(2)) }
pub fn s3() { go(&G { ops: &[Op::Add, Op::Mul, Op::Div, Op::PowI], leaves: if thorough() { &[Leaf::Int, Leaf::X] } else { &[Leaf::CInt, Leaf::X] }, k: if thorough() { 4 } else { 2 }, ..S }.top(3)) }
/// differences and quotients of sums, products and quotients
pub fn nest() {
    let g = G { raw: true, ops: &[Op::Add, Op::Sub, Op::Mul, Op::Div], leaves: &[Leaf::X, Leaf::Y], k: 2, rd: 0 };
    let t = |n: u32| match choose(n) { 0 => v(2), 1 => sint(-3, 3), 2 => q(2, 3), 3 => g.top(1), 4 => Expr::pow_raw(v(0), ei(-2)), _ => Expr::mul_raw(Expr::min_one(), v(0) + v(1)) };
    let (a, b) = (t(6), t(6));
    let m = |a: &Expr, b: &Expr| match choose(4) { 0 => Expr::add_raw(a, b), 1 => Expr::add_raw(a, Expr::mul_raw(Expr::min_one(), b)), 2 => Expr::mul_raw(a, b), _ => Expr::div_raw(a, b) };
    let e = m(&a, &b);
    if choose(2) == 0 { go(&e) } else { let c = t(if thorough() { 6 } else { 1 }); go(&if choose(2) == 0 { m(&e, &c) } else { m(&c, &e) }) }
}
/// products of three factors of every kind
pub fn factors() {
    let f = |n: u32| match choose(n) {
        0 => v(0), 1 => sint(-9, 9), 2 => v(1) + Expr::one(), 3 => Expr::sin(v(0)), 4 => Expr::pow(Expr::cos(v(1)), ei(2)), 5 => Expr::pow(v(1), ei(-1)), 6 => Expr::pow(v(2), q(2, 3)), 7 => Expr::pi(), 8 => Expr::pow(Expr::sin(v(2)), Expr::pi()),
        9 => Expr::pow_raw(ei(3), v(0)), 10 => q(2, 3), 11 => Expr::pow_raw(Expr::sin(v(0)), ei(-1)), 12 => Expr::e(), _ => Expr::pow(v(0) + v(1), ei(2)),
    };
    let (a, b, c) = (f(14), f(14), f(14));
    go(&if choose(2) == 0 { Expr::mul_raw(Expr::mul_raw(&a, &b), &c) } else { a * b * c })
}
/// every function and every integer
pub fn func() {
    let k = choose(21);
    let a = match choose(4) { 0 => v(0), 1 => v(0) + v(1), 2 => ei(2) * v(0), _ => q(1, 2) * v(1) };
    let f = match k { 14 => Expr::log(calcu_rs::rational::Rational::from(2), &a), 15.. => Expr::log(calcu_rs::rational::Rational::from([(2, 3), (10, 3), (1, 10), (100, 1), (3, 2), (12, 7)][k as usize - 15]), &a), k => apply_fn(k as usize, &a) };
    go(&match choose(5) { 0 => f, 1 => Expr::pow(f, ei(3)), 2 => Expr::pow(f, q(2, 3)), 3 => ei(12) * f * v(1), _ => v(1) * f + Expr::pi() })
}
pub fn numbers() {
    let (n, d) = (int(-99, 99), conc(int(1, if thorough() { 12 } else { 5 })));
    let r = q(n, d);
    go(&match choose(6) { 0 => r, 1 => r * v(0), 2 => v(0) + r, 3 => Expr::pow_raw(v(0), r), 4 => Expr::pow_raw(r, v(0)), _ => Expr::mul_raw(v(0), r) })
}
pub fn deep() { go(&G { raw: choose(2) == 0, ops: &[Op::Add, Op::Mul, Op::Sub, Op::Div, Op::Sq], leaves: &[Leaf::X, Leaf::CInt], k: 1, ..S }.chain(if thorough() { 4 } else { 3 })) }
pub fn long() {
    let sum = choose(2) == 0;
    go(&list(sum, choose(2) == 0, 4, |_| match choose(7) { 0 => sint(-2, 2), 1 => v(0), 2 => Expr::mul_raw(sint(-2, -1), v(1)), 3 => Expr::pow_raw(v(0), ei(-1)), 4 => q(-2, 3), 5 => Expr::sin(v(0)), _ => if sum { Expr::div_raw(v(1), v(0)) } else { Expr::add_raw(v(0), Expr::min_one()) } }))
}
