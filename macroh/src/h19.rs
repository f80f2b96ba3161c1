//! the expr! macro: its real parser and code generator are run on chosen tokens, the emitted code is read back
use crate::rr::*;
use crate::sx::*;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

#[derive(Clone, Debug)]
enum T { Op(char), Num(i128), Var(usize), Pi, Undef, Par(Vec<T>), Fun(usize, Vec<T>), Fun2(usize, Vec<T>, Vec<T>) }
const NAMES: [&str; 8] = ["x", "y", "z", "a", "b", "total", "pie", "u_2"];
const FUNS: [(&str, u32); 14] = [("sin", SIN), ("cos", COS), ("tan", TAN), ("sec", SEC), ("csc", CSC), ("cot", COT), ("arc_sin", ASIN), ("arc_cos", ACOS), ("arc_tan", ATAN), ("arc_sec", ASEC), ("arc_csc", ACSC), ("arc_cot", ACOT), ("ln", LN), ("exp", EXP)];
const SQRT: usize = 14;
const LOG10: usize = 15;

fn id(s: &str) -> TokenTree { Ident::new(s, Span::call_site()).into() }
fn tokens(t: &[T]) -> TokenStream {
    let mut o = TokenStream::new();
    for x in t {
        match x {
            T::Op(c) => o.extend([TokenTree::from(Punct::new(*c, Spacing::Alone))]),
            T::Num(n) => o.extend([TokenTree::from(Literal::i64_unsuffixed(*n as i64))]),
            T::Var(i) => o.extend([id(NAMES[*i])]),
            T::Pi => o.extend([id("pi")]),
            T::Undef => o.extend([id("undef")]),
            T::Par(p) => o.extend([TokenTree::from(Group::new(Delimiter::Parenthesis, tokens(p)))]),
            T::Fun2(f, a, b) => {
                let mut i = tokens(a);
                i.extend([TokenTree::from(Punct::new(',', Spacing::Alone))]);
                i.extend(tokens(b));
                o.extend([id(FUNS2[*f])]);
                o.extend([TokenTree::from(Group::new(Delimiter::Parenthesis, i))]);
            }
            T::Fun(f, a) => {
                o.extend([id(match *f { SQRT => "sqrt", LOG10 => "log10", f => FUNS[f].0 })]);
                o.extend([TokenTree::from(Group::new(Delimiter::Parenthesis, tokens(a)))]);
            }
        }
    }
    o
}
fn apply(f: usize, a: Val) -> Val {
    match f { SQRT => a.pow(Val::int(1).div(Val::int(2))), LOG10 => a.f(LN).div(Val::int(10).f(LN)), f => a.f(FUNS[f].1) }
}

/// the usual notation: powers before products before sums, left to right, a sign applies to the whole product
struct Rd<'a> { t: &'a [T], i: usize }
impl Rd<'_> {
    fn op(&self) -> char { match self.t.get(self.i) { Some(T::Op(c)) => *c, _ => '\0' } }
    fn sum(&mut self) -> Val {
        let mut v = self.prod();
        loop {
            match self.op() { '+' => { self.i += 1; v = v.add(self.prod()) } '-' => { self.i += 1; v = v.sub(self.prod()) } _ => return v }
        }
    }
    fn prod(&mut self) -> Val {
        let mut v = self.sign();
        loop {
            match self.op() { '*' => { self.i += 1; v = v.mul(self.sign()) } '/' => { self.i += 1; v = v.div(self.sign()) } _ => return v }
        }
    }
    fn sign(&mut self) -> Val { if self.op() == '-' { self.i += 1; self.power().neg() } else { self.power() } }
    fn power(&mut self) -> Val {
        let b = self.atom();
        if self.op() != '^' { return b }
        self.i += 1;
        let neg = self.op() == '-';
        if neg { self.i += 1 }
        let e = self.atom();
        b.pow(if neg { e.neg() } else { e })
    }
    fn atom(&mut self) -> Val {
        self.i += 1;
        match &self.t[self.i - 1] {
            T::Num(n) => Val::int(*n), T::Var(i) => Val::var(*i as u32), T::Pi => Val::pi(), T::Undef => Val::undef(),
            T::Par(p) => read(p), T::Fun(f, a) => apply(*f, read(a)),
            T::Fun2(f, a, b) => call(FUNS2[*f], &[read(a), read(b)]).unwrap(),
            T::Op(_) => panic!("harness"),
        }
    }
}
fn read(t: &[T]) -> Val { Rd { t, i: 0 }.sum() }

/// the value of the emitted code; None if it is of a kind this reader does not know
fn eval(e: &syn::Expr) -> Option<Val> {
    use syn::Expr as E;
    match e {
        E::Paren(p) => eval(&p.expr),
        E::Group(p) => eval(&p.expr),
        E::Reference(r) => eval(&r.expr),
        E::Unary(u) => match u.op { syn::UnOp::Neg(_) => Some(eval(&u.expr)?.neg()), _ => None },
        E::Lit(l) => match &l.lit {
            syn::Lit::Int(i) => Some(Val::int(i.base10_parse::<i128>().ok()?)),
            syn::Lit::Str(s) => { let s = s.value(); NAMES.iter().position(|n| *n == s).map(|i| Val::var(i as u32)) }
            _ => None,
        },
        E::Tuple(t) if t.elems.len() == 2 => Some(eval(&t.elems[0])?.div(eval(&t.elems[1])?)),
        E::Binary(b) => {
            let (x, y) = (eval(&b.left)?, eval(&b.right)?);
            match b.op { syn::BinOp::Add(_) => Some(x.add(y)), syn::BinOp::Sub(_) => Some(x.sub(y)), syn::BinOp::Mul(_) => Some(x.mul(y)), syn::BinOp::Div(_) => Some(x.div(y)), _ => None }
        }
        E::MethodCall(m) => {
            let n = m.method.to_string();
            let mut a = vec![eval(&m.receiver)?];
            for x in m.args.iter() { a.push(eval(x)?) }
            if ["clone", "into", "to_owned"].contains(&n.as_str()) { return Some(a[0]) }
            call(&n, &a)
        }
        E::Call(c) => {
            let n = match &*c.func { E::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None };
            let mut a = vec![];
            for x in c.args.iter() { a.push(eval(x)?) }
            call(&n, &a)
        }
        _ => None,
    }
}
fn call(n: &str, a: &[Val]) -> Option<Val> {
    Some(match (n, a.len()) {
        ("add", 2) => a[0].add(a[1]), ("sub", 2) => a[0].sub(a[1]), ("mul", 2) => a[0].mul(a[1]), ("div", 2) => a[0].div(a[1]), ("pow", 2) => a[0].pow(a[1]),
        ("rational" | "from" | "var" | "new", 1) => a[0],
        ("neg", 1) => a[0].neg(),
        ("pi", 0) => Val::pi(), ("undef", 0) => Val::undef(), ("zero", 0) => Val::int(0), ("one", 0) => Val::int(1), ("two", 0) => Val::int(2), ("min_one", 0) => Val::int(-1), ("min_two", 0) => Val::int(-2),
        ("sqrt", 1) => apply(SQRT, a[0]), ("log10", 1) => apply(LOG10, a[0]),
        (_, 1) => { let f = FUNS.iter().position(|f| f.0 == n)?; apply(f, a[0]) }
        _ => return None,
    })
}
fn go(t: &[T]) {
    show("tokens", &t);
    let w = read(t);
    let out = crate::m::expr(tokens(t));
    let bad = out.clone().into_iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "compile_error"));
    check(!bad, "a well-formed expression is rejected");
    let e: syn::Expr = match syn::parse2(out) { Ok(e) => e, Err(_) => { check(false, "the emitted code is no expression"); return } };
    match eval(&e) {
        None => assume(false),
        Some(r) => {
            check(r.is_undef() == w.is_undef(), "defined");
            if !w.is_undef() { check(r.eq(w), "the macro reads another expression") }
        }
    }
}
const FUNS2: [&str; 5] = ["add", "sub", "mul", "div", "pow"];
fn num() -> T { T::Num(conc(int(0, 12))) }
fn leaf(n: u32) -> T {
    match choose(n) { 0 => T::Var(0), 1 => T::Num([2, 10][choose(2) as usize]), 2 => T::Var(if n == 9 { 5 + choose(3) as usize } else { 5 }), 3 => T::Pi, 4 => T::Fun(0, vec![T::Var(1)]), 5 => T::Par(vec![T::Var(1)]), 6 => T::Par(vec![T::Op('-'), T::Var(1)]), 7 => T::Par(vec![T::Var(0), T::Op('-'), T::Var(1)]), _ => T::Undef }
}
fn op() -> T { T::Op(['+', '-', '*', '/', '^'][choose(5) as usize]) }
fn is(t: &T, c: char) -> bool { matches!(t, T::Op(d) if *d == c) }
/// towers of powers without parentheses are not claimed
fn tower(ops: &[T]) -> bool { ops.windows(2).any(|w| is(&w[0], '^') && is(&w[1], '^')) }

/// two operands of every kind, every sign, every operator
pub fn pair() {
    let mut t = vec![];
    if choose(2) == 1 { t.push(T::Op('-')) }
    t.push(if choose(2) == 0 { num() } else { leaf(9) });
    t.push(op());
    if choose(2) == 1 { t.push(T::Op('-')) }
    t.push(if choose(2) == 0 { num() } else { leaf(9) });
    go(&t)
}
/// large numbers
pub fn number() {
    let n = T::Num(match choose(3) { 0 => conc(int(0, 200)), 1 => [65537, 1 << 31, 1 << 32, 1 << 40][choose(4) as usize], _ => i64::MAX as i128 - conc(int(0, 3)) });
    let o = T::Op(['+', '-', '*', '/'][choose(4) as usize]);
    let mut t = vec![];
    if choose(2) == 1 { t.push(T::Op('-')) }
    if choose(2) == 0 { t.extend([n, o, T::Var(0)]) } else { t.extend([T::Var(0), o, n]) }
    go(&t)
}
/// three operands, two operators
pub fn three() {
    let (a, p, b, q, c) = (leaf(8), op(), leaf(3), op(), leaf(if thorough() { 8 } else { 3 }));
    assume(!tower(&[p.clone(), q.clone()]));
    go(&[a, p, b, q, c])
}
/// four operands with signs, every combination of operators
pub fn unary() {
    let mut t = vec![];
    let mut ops = vec![];
    let n = 3;
    for i in 0..n {
        if i > 0 { let o = op(); ops.push(o.clone()); t.push(o) }
        if choose(2) == 1 { t.push(T::Op('-')) }
        t.push(match i { 1 => T::Num(2), i => T::Var(i) });
    }
    assume(!tower(&ops));
    go(&t)
}
/// five operands
pub fn long() {
    let n = if thorough() { 6 } else { 5 };
    let mut t = vec![T::Var(0)];
    let mut ops = vec![];
    for i in 1..n { let o = op(); ops.push(o.clone()); t.push(o); t.push(match i { 2 => T::Num(3), i => T::Var(i % 5) }) }
    assume(!tower(&ops));
    go(&t)
}
/// parentheses on any run of operands
pub fn paren() {
    let n = if thorough() { 5 } else { 4 };
    let ops: Vec<T> = (1..n).map(|_| op()).collect();
    let i = choose(n as u32 - 1) as usize;
    let j = i + 1 + choose((n - 1 - i) as u32) as usize;
    let signed = choose(2) == 1;
    let (mut t, mut g, mut outer) = (vec![], vec![], vec![]);
    for k in 0..n {
        let inside = k > i && k <= j;
        if k > 0 { if inside { g.push(ops[k - 1].clone()) } else { t.push(ops[k - 1].clone()); outer.push(ops[k - 1].clone()) } }
        let x = match k { 1 => T::Num(2), k => T::Var(k) };
        if k == i { if signed { g.push(T::Op('-')) } g.push(x); continue }
        if inside { g.push(x); if k == j { t.push(T::Par(std::mem::take(&mut g))) } } else { t.push(x) }
    }
    assume(!tower(&outer) && !tower(&ops[i..j]));
    go(&t)
}
/// function calls with composite arguments, as operands
pub fn func() {
    let a = match choose(4) { 0 => vec![T::Var(0)], 1 => vec![T::Var(0), op(), T::Var(1)], 2 => vec![T::Op('-'), T::Var(0), T::Op('*'), T::Num(2)], _ => vec![T::Fun(1, vec![T::Var(0)]), T::Op('+'), T::Num(1)] };
    let f = T::Fun(choose(16) as usize, a);
    go(&match choose(4) { 0 => vec![f], 1 => vec![T::Op('-'), f], 2 => vec![T::Var(1), op(), f], _ => vec![f, op(), T::Num(2)] })
}
/// calls with two arguments
pub fn two() {
    let a = |i: usize| match choose(4) { 0 => vec![T::Var(i)], 1 => vec![T::Var(i), op(), T::Num(3)], 2 => vec![T::Op('-'), T::Num(2)], _ => vec![T::Fun(0, vec![T::Var(i)])] };
    let f = T::Fun2(choose(5) as usize, a(0), a(1));
    go(&match choose(5) { 0 => vec![f], 1 => vec![T::Op('-'), f], 2 => vec![T::Var(2), op(), f], 3 => vec![f, op(), T::Num(2)], _ => vec![T::Fun(choose(16) as usize, vec![f])] })
}
