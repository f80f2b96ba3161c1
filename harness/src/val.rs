//! Denotation of library expressions in the value oracle.
use crate::rr::*;
use calcu_rs::atom::{Atom, Expr, Func, Irrational, Real, SymbolicExpr, Var};
use calcu_rs::rational::Rational;

pub const NAMES: [&str; 6] = ["x", "y", "z", "a", "b", "n"];

/// which variables stand for negative values (bit mask); the others are positive
static mut NEGATIVE: u32 = 0;
pub fn set_negative(m: u32) { unsafe { std::ptr::write_volatile(&raw mut NEGATIVE, m) } }
fn negative(i: u32) -> bool { unsafe { std::ptr::read_volatile(&raw const NEGATIVE) >> i & 1 == 1 } }

pub fn var_index(v: &Var) -> u32 {
    for (i, n) in NAMES.iter().enumerate() {
        if *v == Var::from(*n) { return i as u32 }
    }
    panic!("harness: unknown variable {v}")
}
pub fn rat(r: &Rational) -> Val {
    let d = r.denom();
    if !crate::sx::sx_is_sym(d) && d == 1 { Val::int(r.numer()) } else { Val::int(r.numer()).div(Val::int(d)) }
}
pub fn irr(i: &Irrational) -> Val {
    match i { Irrational::E => Val::int(1).f(EXP), Irrational::PI => Val::pi() }
}
pub fn real(r: &Real) -> Val {
    match r { Real::Rational(r) => rat(r), Real::Irrational(i) => irr(i) }
}
pub fn func_kind(f: &Func) -> Option<u32> {
    Some(match f {
        Func::Sin(_) => SIN, Func::ArcSin(_) => ASIN, Func::Cos(_) => COS, Func::ArcCos(_) => ACOS, Func::Tan(_) => TAN, Func::ArcTan(_) => ATAN,
        Func::Sec(_) => SEC, Func::ArcSec(_) => ASEC, Func::Cot(_) => COT, Func::ArcCot(_) => ACOT, Func::Csc(_) => CSC, Func::ArcCsc(_) => ACSC,
        Func::Log(..) => return None,
    })
}
pub fn val(e: &Expr) -> Val {
    match e.atom() {
        Atom::Undef => Val::undef(),
        Atom::Rational(r) => rat(r),
        Atom::Irrational(i) => irr(i),
        Atom::Var(v) => { let i = var_index(v); if negative(i) { Val::var(i).neg() } else { Val::var(i) } }
        Atom::Sum(s) => {
            let mut it = s.args.iter();
            match it.next() { None => Val::int(0), Some(a) => it.fold(val(a), |acc, a| acc.add(val(a))) }
        }
        Atom::Prod(s) => {
            let mut it = s.args.iter();
            match it.next() { None => Val::int(1), Some(a) => it.fold(val(a), |acc, a| acc.mul(val(a))) }
        }
        Atom::Pow(p) => val(p.base()).pow(val(p.exponent())),
        Atom::Func(f) => match (func_kind(f), f) {
            (Some(k), _) => val(&f.args()[0]).f(k),
            (None, Func::Log(b, x)) => {
                let n = val(x).f(LN);
                if *b == Real::E { n } else { n.div(real(b).f(LN)) }
            }
            _ => unreachable!(),
        },
    }
}
