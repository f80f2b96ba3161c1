//! equality, hashing and ordering of expressions
use crate::gen::*;
use crate::sx::*;
use calcu_rs::atom::{Atom, Func, Prod, Sum};
use calcu_rs::prelude::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
}
fn h(e: &Expr) -> u64 { let mut f = Fnv(0xcbf29ce484222325); e.hash(&mut f); f.finish() }

/// equality by its definition: same operator and operands, the operands of sums and products in any order
pub fn equal(a: &Expr, b: &Expr) -> bool {
    match (a.atom(), b.atom()) {
        (Atom::Undef, Atom::Undef) => true,
        (Atom::Rational(x), Atom::Rational(y)) => x.numer() == y.numer() && x.denom() == y.denom(),
        (Atom::Irrational(x), Atom::Irrational(y)) => x == y,
        (Atom::Var(x), Atom::Var(y)) => x == y,
        (Atom::Sum(x), Atom::Sum(y)) => multi(&x.args, &y.args),
        (Atom::Prod(x), Atom::Prod(y)) => multi(&x.args, &y.args),
        (Atom::Pow(x), Atom::Pow(y)) => equal(x.base(), y.base()) && equal(x.exponent(), y.exponent()),
        (Atom::Func(x), Atom::Func(y)) => std::mem::discriminant(x) == std::mem::discriminant(y)
            && match (x, y) { (Func::Log(p, _), Func::Log(q, _)) => p == q, _ => true } && equal(&x.args()[0], &y.args()[0]),
        _ => false,
    }
}
fn multi(a: &[Expr], b: &[Expr]) -> bool {
    if a.len() != b.len() { return false }
    let mut used = vec![false; b.len()];
    a.iter().all(|x| match (0..b.len()).find(|i| !used[*i] && equal(x, &b[*i])) { Some(i) => { used[i] = true; true } None => false })
}
/// a copy sharing nothing, operands of sums and products reversed
pub fn mirror(e: &Expr) -> Expr {
    match e.atom() {
        Atom::Sum(s) => Expr::from(Atom::Sum(Sum { args: s.args.iter().rev().map(mirror).collect() })),
        Atom::Prod(s) => Expr::from(Atom::Prod(Prod { args: s.args.iter().rev().map(mirror).collect() })),
        Atom::Pow(p) => Expr::pow_raw(mirror(p.base()), mirror(p.exponent())),
        Atom::Func(f) => crate::h13::with_args(e, vec![mirror(&f.args()[0])]),
        a => Expr::from(a.clone()),
    }
}
fn pair(a: &Expr, b: &Expr) {
    show("a", a); show("b", b);
    let w = equal(a, b);
    check((a == b) == w, "equality");
    check((b == a) == w, "equality the other way round");
    check((a != b) == !w, "inequality");
    if w { check(h(a) == h(b), "equal expressions have equal hashes") }
    let (o, p) = (a.cmp(b), b.cmp(a));
    check(o == p.reverse(), "comparison antisymmetric");
    check(a.partial_cmp(b) == Some(o), "partial_cmp");
    if !w { check(o != Ordering::Equal, "different expressions compare as different") }
    else { check(o == Ordering::Equal, "equal expressions compare as equal") }
}
fn triple(a: &Expr, b: &Expr, c: &Expr) {
    show("a", a); show("b", b); show("c", c);
    if a.cmp(b) == Ordering::Less && b.cmp(c) == Ordering::Less { check(a.cmp(c) == Ordering::Less, "comparison transitive") }
}
const R: G = G { raw: true, ops: &[Op::Add, Op::Mul, Op::PowI, Op::Sin], leaves: &[Leaf::Int, Leaf::X, Leaf::Y], k: 2, rd: 0 };
const A: &[Leaf] = &[Leaf::X, Leaf::Y, Leaf::Int, Leaf::Half, Leaf::Pi, Leaf::E, Leaf::Undef];
const S: G = G { raw: false, ..R };
pub fn eq_raw11() { let (a, b) = (R.tree(1), R.tree(1)); pair(&a, &b) }
pub fn eq_leaf() { let g = G { leaves: A, k: if thorough() { 2 } else { 1 }, ..R }; let (a, b) = (g.tree(1), if thorough() { g.tree(1) } else { g.leaf() }); pair(&a, &b) }
pub fn eq_red21() { let (a, b) = (S.tree(2).reduce(), S.tree(1).reduce()); pair(&a, &b) }
pub fn eq_mirror() { let a = G { rd: 1, leaves: &[Leaf::X, Leaf::Y, Leaf::Z], ops: &[Op::Add, Op::Mul, Op::PowI], ..R }.tree(2); let b = mirror(&a); pair(&a, &b) }
/// operands of every kind: powers of powers, functions, logarithms, variables named like functions, longer sums
fn zoo(n: u32) -> Expr {
    use calcu_rs::atom::Real;
    let p = |a: Expr, b: Expr| Expr::pow_raw(a, b);
    match choose(n) {
        0 => v(0), 1 => Expr::var("sin"), 2 => Expr::sin(v(0)), 3 => p(v(0), v(1)), 4 => p(p(v(0), v(1)), ei(2)), 5 => Expr::add_raw(v(2), v(1)), 6 => Expr::mul_raw(v(0), v(1)), 7 => sint(-1, 2),
        8 => p(v(1), v(0)), 9 => p(v(0), p(v(1), v(0))), 10 => Expr::add_raw(Expr::add_raw(v(2), v(1)), v(0)), 11 => Expr::mul_raw(ei(2), v(0)), 12 => Expr::ln(v(0)), 13 => Expr::log10(v(0)), 14 => Expr::var("ln"), 15 => Expr::var("log"),
        16 => Expr::log(calcu_rs::rational::Rational::from(2), v(0)), 17 => Expr::log(Real::PI, v(0)), 18 => Expr::cos(v(0)), 19 => Expr::var("cos"), 20 => Expr::exp(v(0)), 21 => Expr::pi(), 22 => Expr::e(), 23 => Expr::undef(),
        24 => Expr::sin(Expr::add_raw(v(0), v(1))), 25 => p(Expr::sin(v(0)), ei(2)), 26 => p(Expr::add_raw(v(0), v(1)), ei(2)), 27 => p(Expr::mul_raw(v(0), v(1)), v(0)), 28 => Expr::mul_raw(Expr::mul_raw(v(0), v(1)), v(2)), 29 => Expr::mul_raw(v(0), Expr::sin(v(0))), 30 => Expr::add_raw(ei(1), p(v(0), ei(2))), 31 => Expr::add_raw(v(0), Expr::mul_raw(v(0), v(1))),
        32 => p(p(v(0), ei(2)), v(1)), 33 => q(1, 2), 34 => Expr::var("sinx"), 35 => Expr::sin(Expr::var("sin")), 36 => Expr::var(""), 37 => Expr::var("x1"), 38 => Expr::arc_sin(v(0)), _ => p(v(0), sint(-1, 2)),
    }
}
pub fn zoo2() { let (a, b) = (zoo(40), zoo(40)); pair(&a, &b) }
/// and built into each other
pub fn zoo2b() {
    let w = |e: Expr, z: Expr| match choose(5) { 0 => Expr::add_raw(e, z), 1 => Expr::mul_raw(e, z), 2 => Expr::pow_raw(e, z), 3 => Expr::pow_raw(z, e), _ => Expr::sin(e) };
    let n = if thorough() { 40 } else { 9 };
    let (a, b) = (zoo(n), zoo(n));
    let (z, y) = (zoo(3), zoo(2));
    let (a, b) = (w(a, z), w(b, y));
    pair(&a, &b)
}
pub fn zoo3() { let n = if thorough() { 40 } else { 24 }; let (a, b, c) = (zoo(n), zoo(n), zoo(n)); triple(&a, &b, &c) }
pub fn ord3() {
    let g = G { leaves: &[Leaf::X, Leaf::Y, Leaf::Int], ..S };
    let (a, b, c) = (g.tree(1).reduce(), g.tree(1).reduce(), g.tree(1).reduce());
    triple(&a, &b, &c)
}
/// numbers and constants are ordered by size
pub fn real() {
    let d = match choose(6) { 0 => 1, 1 => 2, 2 => 3, 3 => 7, 4 => 106, _ => 113 };
    let n = int(-400, 400);
    let r = Expr::from(calcu_rs::rational::Rational::new(n as i128, d as i128));
    let (c, k) = if choose(2) == 0 { (Expr::pi(), 3141592653589793i128) } else { (Expr::e(), 2718281828459045) };
    show("number", &r); show("constant", &c);
    // no fraction with these denominators is that close to the constants
    let o = (n as i128 * 1000000000000000).cmp(&(k * d as i128));
    check(r.cmp(&c) == o, "order of a number and a constant");
    check(c.cmp(&r) == o.reverse(), "order of a constant and a number");
    check(Expr::e().cmp(&Expr::pi()) == Ordering::Less && Expr::pi().cmp(&Expr::e()) == Ordering::Greater, "order of the constants");
    check(r != c && c != r, "a number is not a constant");
}
/// fractions of large integers next to the constants
pub fn near() {
    // digits of pi / e: 30 of them
    let (c, k) = if choose(2) == 0 { (Expr::pi(), 3141592653589793238i128) } else { (Expr::e(), 2718281828459045235i128) };
    let t = 1000000000000000000i128;
    let f = || {
        let d = match choose(if thorough() { 9 } else { 6 }) { 0 => 9007199254740993i128, 1 => 9007199254740997, 2 => 10000000000000061, 3 => 16677181699666569, 4 => 100000000000000003, 5 => 1, 6 => 9007199254740992, 7 => 4503599627370497, _ => 9007199254740881 };
        let n = d / t * k + (d % t) * k / t;
        let n = n + if thorough() { conc(int(-8, 13)) } else { conc(int(-1, 11)) } as i128;
        Expr::from(calcu_rs::rational::Rational::new(n, d))
    };
    let (a, b) = (f(), f());
    pair(&a, &b); pair(&a, &c); pair(&b, &c);
    triple(&a, &b, &c); triple(&a, &c, &b); triple(&c, &a, &b);
    let mut l = vec![a.clone(), c.clone(), b.clone()];
    l.sort();
    check(l[0] <= l[1] && l[1] <= l[2] && l[0] <= l[2], "sorted");
}
