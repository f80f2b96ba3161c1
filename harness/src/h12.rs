//! polynomial and monomial views
use crate::gen::*;
use crate::h03::equal;
use crate::rr::*;
use crate::sx::*;
use crate::val::*;
use calcu_rs::polynomial::{VarPow, VarSet};
use calcu_rs::prelude::*;

/// largest degree in the second variable
const J: i128 = 2;
fn deg(vp: &VarPow, x: &Expr) -> i128 { vp.degree_of(x).copied().unwrap_or(0) }
fn vpow(g: &Expr, n: i128) -> Val { val(g).pow(Val::int(n)) }

/// sum of c_t * g^i * h^j with known coefficients; g and h are the variables of the view
fn poly(terms: u32, dmax: i128, k: i128, g: &Expr, h: &Expr) -> (Expr, Vec<(i128, i128, i128)>) {
    let mut p = Expr::zero();
    let mut t = vec![];
    for _ in 0..terms {
        let (i, j) = (conc(int(0, dmax)), conc(int(0, J)));
        let c = int(-k, k);
        assume(c != 0);
        p = p + Expr::from(c) * Expr::pow(g, ei(i)) * Expr::pow(h, ei(j));
        t.push((c, i, j));
    }
    (p, t)
}
/// coefficient of g^i h^j
fn coef(t: &[(i128, i128, i128)], i: i128, j: i128) -> i128 { t.iter().filter(|x| x.1 == i && x.2 == j).map(|x| x.0).sum() }
/// coefficient of g^i
fn inner(t: &[(i128, i128, i128)], i: i128, h: &Expr) -> Val { (0..=J).fold(Val::int(0), |s, j| s.add(Val::int(coef(t, i, j)).mul(vpow(h, j)))) }

fn verify(p: &Expr, t: &[(i128, i128, i128)], g: &Expr, h: &Expr, dmax: i128) {
    show("p", p);
    let vars = VarSet::from([g.clone(), h.clone()]);
    let view = p.as_polynomial_view(&vars);
    check(view.check(), "a polynomial is recognised");
    let nz: Vec<(i128, i128)> = (0..=dmax).flat_map(|i| (0..=J).map(move |j| (i, j))).filter(|(i, j)| coef(t, *i, *j) != 0).collect();
    let top = nz.iter().map(|(i, j)| i + j).max().unwrap_or(0);
    match choose(7) {
        0 => {
            let cs = view.coeffs();
            let mut sum = Val::int(0);
            for (vp, c) in cs.iter() {
                let (i, j) = (deg(vp, g), deg(vp, h));
                check(vp.total_deg() == i + j && vp.is_const() == (i + j == 0), "total degree");
                check(c.free_of(g) && c.free_of(h), "coefficients are free of the variables");
                check(val(c).eq(Val::int(coef(t, i, j))), "coefficient");
                sum = sum.add(val(c).mul(vpow(g, i)).mul(vpow(h, j)));
            }
            check(sum.eq(val(p)), "coefficients times powers add up to the polynomial");
        }
        1 => check(view.degree() == Some(top), "degree"),
        2 => {
            let d = nz.iter().map(|x| x.0).max().unwrap_or(0);
            check(view.degree_of(g).unwrap_or(0) == d, "degree in a variable");
        }
        3 => {
            let cs = view.coeffs_of(g);
            for (d, c) in cs.iter() {
                check(val(c).eq(inner(t, *d, h)), "coefficient of a power of a variable");
            }
            for (i, _) in &nz { check(cs.contains_key(i), "every power that occurs has a coefficient") }
        }
        4 => {
            let i = conc(int(0, dmax));
            let w = inner(t, i, h);
            match view.coeffs_of_deg(g, &i) { Some(c) => check(val(&c).eq(w), "coefficient of one power"), None => check(w.is_zero(), "coefficient of one power missing") }
        }
        5 => {
            let d = nz.iter().map(|x| x.0).max().unwrap_or(0);
            let w = inner(t, d, h);
            match view.leading_coeff_of(g) { Some(c) => check(val(&c).eq(w), "leading coefficient"), None => check(false, "no leading coefficient") }
        }
        _ => match view.collect_terms() { Some(c) => { show("collected", &c); check(val(&c).eq(val(p)), "collecting terms changes the value") } None => check(false, "collect_terms of a polynomial") },
    }
}
pub fn two() {
    let n = if thorough() { 3 } else { 2 };
    let (p, t) = poly(n, 3, if thorough() { 3 } else { 5 }, &v(0), &v(1));
    verify(&p.reduce(), &t, &v(0), &v(1), 3)
}
pub fn three() {
    let (p, t) = poly(3, if thorough() { 4 } else { 2 }, 2, &v(0), &v(1));
    // cancelled terms leave zero coefficients behind in an unreduced sum
    verify(&p.reduce(), &t, &v(0), &v(1), 4)
}
/// generalized variables: functions, roots
pub fn gen() {
    let g = match choose(3) { 0 => Expr::sin(v(0)), 1 => Expr::ln(v(0)), _ => Expr::arc_tan(v(0) * v(1)) };
    let (p, t) = poly(2, 3, 3, &g, &v(2));
    verify(&p.reduce(), &t, &g, &v(2), 3)
}
/// coefficients with parameters: sum of a_t c_t x^i
pub fn param() {
    let mut p = Expr::zero();
    let mut t = vec![];
    for n in 0..3 {
        let i = conc(int(0, if thorough() { 4 } else { 2 }));
        let (c, d) = (int(1, 9), choose(3));
        let a = match d { 0 => Expr::one(), 1 => v(3), _ => Expr::pow(v(4), ei(2)) };
        p = if n == 1 { Expr::from(c) * Expr::pow(v(0), ei(i)) * &a + p } else { p + a.clone() * Expr::from(c) * Expr::pow(v(0), ei(i)) };
        t.push((Val::int(c).mul(val(&a)), i));
    }
    show("p", &p);
    let vars = VarSet::from(v(0));
    let view = p.as_polynomial_view(&vars);
    check(view.check(), "a polynomial is recognised");
    let w = |d: i128| t.iter().filter(|x| x.1 == d).fold(Val::int(0), |s, x| s.add(x.0));
    let d = t.iter().map(|x| x.1).max().unwrap();
    match choose(4) {
        0 => check(view.degree() == Some(d), "degree"),
        1 => for (i, c) in view.coeffs_of(&v(0)).iter() { check(val(c).eq(w(*i)), "coefficient with parameters") },
        2 => check(view.leading_coeff_of(&v(0)).is_some_and(|c| val(&c).eq(w(d))), "leading coefficient"),
        _ => check(view.collect_terms().is_some_and(|c| val(&c).eq(val(&p))), "collect_terms"),
    }
}
/// monomials c * x^i * y^j * z^k in the variables x, y
pub fn mono() {
    let (i, j, k) = (conc(int(0, 3)), conc(int(0, 3)), conc(int(0, 2)));
    let c = int(-9, 9);
    assume(c != 0);
    let (x, y, z) = (Expr::pow(v(0), ei(i)), Expr::pow(v(1), ei(j)), Expr::pow(v(2), ei(k)));
    let m = match choose(4) {
        0 => Expr::from(c) * x * y * z,
        1 => z * x * y * Expr::from(c),
        2 => Expr::mul_raw(Expr::mul_raw(&x, Expr::from(c)), Expr::mul_raw(&y, &z)),
        _ => { let m = (Expr::from(c) * &x * &z) * (x * &y) * z * y; return mono_check(&m, c, 2 * i, 2 * j, 2 * k) }
    };
    mono_check(&m, c, i, j, k)
}
fn mono_check(m: &Expr, c: i128, i: i128, j: i128, k: i128) {
    show("m", m);
    let vars = VarSet::from([v(0), v(1)]);
    let view = m.as_monomial_view(&vars);
    check(view.check(), "a monomial is recognised");
    check(view.degree() == Some(i + j), "monomial degree");
    check(view.degree_of(&v(0)).unwrap_or(0) == i && view.degree_of(&v(1)).unwrap_or(0) == j, "monomial degree in a variable");
    match view.coeff() {
        Some((q, vp)) => check(val(&q).eq(Val::int(c).mul(vpow(&v(2), k))) && deg(&vp, &v(0)) == i && deg(&vp, &v(1)) == j, "monomial coefficient"),
        None => check(false, "monomial coefficient missing"),
    }
}
/// powers of monomials, simplified or literal, reduced or not
pub fn monopow() {
    let (i, j, k) = (conc(int(0, 3)), conc(int(0, 2)), conc(int(0, 1)));
    let n = conc(int(1, if thorough() { 5 } else { 3 }));
    let c = int(-3, 3);
    assume(c != 0);
    let raw = choose(2) == 0;
    let p = |b: Expr, n: i128| if n == 0 { Expr::one() } else if raw { Expr::pow_raw(b, ei(n)) } else { Expr::pow(b, ei(n)) };
    let m = |a: Expr, b: Expr| if raw { Expr::mul_raw(a, b) } else { a * b };
    let b = m(m(p(v(0), i), Expr::from(c)), m(p(v(1), j), p(v(2), k)));
    let e = match choose(3) { 0 => p(b, n), 1 => m(p(b, n), v(0)), _ => m(v(1), p(m(b, v(0)), n)) };
    show("e", &e);
    let vars = VarSet::from([v(0), v(1)]);
    for red in 0..2 {
        let e = if red == 0 { e.clone() } else { e.reduce() };
        let view = e.as_monomial_view(&vars);
        if red == 1 { check(view.check(), "a reduced monomial is recognised") }
        match view.coeff() {
            Some((q, vp)) => {
                let (di, dj) = (deg(&vp, &v(0)), deg(&vp, &v(1)));
                check(view.degree() == Some(di + dj), "degree of a power");
                check(view.degree_of(&v(0)).unwrap_or(0) == di && view.degree_of(&v(1)).unwrap_or(0) == dj, "degree of a power in a variable");
                check(q.free_of(&v(0)) && q.free_of(&v(1)), "coefficients are free of the variables");
                check(val(&q).mul(vpow(&v(0), di)).mul(vpow(&v(1), dj)).eq(val(&e)), "coefficient times powers of a power");
            }
            None => check(false, "monomial coefficient missing"),
        }
    }
}
/// literal sums in which a monomial occurs several times, its variables in any order
pub fn unreduced() {
    let t = || {
        let c = int(-3, 3);
        assume(c != 0);
        let (c_, i) = (Expr::from(c), choose(if thorough() { 9 } else { 7 }));
        let (a, b) = match i { 0 | 1 => (1, 1), 2 | 3 => (2, 1), 4 => (1, 0), 5 => (0, 0), 6 => (1, 2), 7 => (0, 1), _ => (2, 2) };
        let x2 = || Expr::pow_raw(v(0), ei(2));
        let m = match i {
            0 => Expr::mul_raw(v(0), v(1)), 1 => Expr::mul_raw(v(1), v(0)), 2 => Expr::mul_raw(v(1), x2()), 3 => Expr::mul_raw(Expr::mul_raw(v(0), v(1)), v(0)),
            4 => v(0), 5 => return ((c, a, b), c_), 6 => Expr::mul_raw(Expr::pow_raw(v(1), ei(2)), v(0)), 7 => v(1), _ => Expr::mul_raw(Expr::pow_raw(v(1), ei(2)), x2()),
        };
        ((c, a, b), if choose(2) == 0 { Expr::mul_raw(c_, m) } else { Expr::mul_raw(m, c_) })
    };
    let ((t0, a), (t1, b), (t2, c)) = (t(), t(), t());
    let p = Expr::add_raw(Expr::add_raw(a, b), c);
    verify2(&p, &[t0, t1, t2], 2)
}
/// as verify, zero coefficients of cancelled monomials allowed
fn verify2(p: &Expr, t: &[(i128, i128, i128)], dmax: i128) {
    show("p", p);
    let (g, h) = (v(0), v(1));
    let vars = VarSet::from([g.clone(), h.clone()]);
    let view = p.as_polynomial_view(&vars);
    check(view.check(), "a polynomial is recognised");
    match choose(4) {
        0 => {
            let cs = view.coeffs();
            let mut seen = vec![];
            for (vp, c) in cs.iter() {
                let (i, j) = (deg(vp, &g), deg(vp, &h));
                check(vp.total_deg() == i + j, "total degree");
                check(!seen.contains(&(i, j)), "a monomial listed twice");
                seen.push((i, j));
                check(val(c).eq(Val::int(coef(t, i, j))), "coefficient");
            }
            for x in t { check(seen.contains(&(x.1, x.2)), "a monomial forgotten") }
        }
        1 => for (d, c) in view.coeffs_of(&g).iter() {
            let w = (0..=dmax).fold(Val::int(0), |s, j| s.add(Val::int(coef(t, *d, j)).mul(vpow(&h, j))));
            check(val(c).eq(w), "coefficient of a power of a variable");
        },
        2 => {
            let i = conc(int(0, dmax));
            let w = (0..=dmax).fold(Val::int(0), |s, j| s.add(Val::int(coef(t, i, j)).mul(vpow(&h, j))));
            match view.coeffs_of_deg(&g, &i) { Some(c) => check(val(&c).eq(w), "coefficient of one power"), None => check(w.is_zero(), "coefficient of one power missing") }
        }
        _ => match view.collect_terms() {
            Some(c) => {
                show("collected", &c);
                check(val(&c).eq(val(p)), "collecting terms changes the value");
                let mut m: Vec<(i128, i128)> = t.iter().map(|x| (x.1, x.2)).collect();
                m.sort();
                m.dedup();
                check((if c.is_sum() { c.args().len() } else { 1 }) <= m.len(), "like terms are collected");
            }
            None => check(false, "collect_terms of a polynomial"),
        },
    }
}
/// what is not a polynomial in x is not taken for one
pub fn not() {
    let bad = match choose(10) { 7 => Expr::pow(v(0), q(conc(int(2, 9)) * 2 - 1, 2)), 8 => Expr::pow(v(0), q(7, 3)), 9 => Expr::pow(v(0), Expr::pi()),
        0 => Expr::pow(v(0), ei(-1)), 1 => Expr::sin(v(0)), 2 => Expr::pow(v(0), q(1, 2)), 3 => Expr::pow(v(0), v(1)), 4 => Expr::pow(ei(2), v(0)),
        5 => Expr::pow(v(0) + Expr::one(), ei(2)), _ => v(0) * (v(0) + v(1)),
    };
    let c = int(1, 5);
    let p = match choose(3) { 0 => bad, 1 => bad * Expr::from(c) + v(0), _ => Expr::from(c) * v(1) + bad };
    show("p", &p);
    let vars = VarSet::from(v(0));
    let view = p.as_polynomial_view(&vars);
    check(!view.check(), "not a polynomial");
    check(view.degree().is_none() && view.coeffs().is_empty(), "no degree, no coefficients");
    check(view.collect_terms().is_none(), "no collected terms");
}
/// a sum can itself be the variable; undefined expressions have no degree
pub fn own() {
    let s = v(0) + sint(1, 5);
    let vars = VarSet::from(s.clone());
    let view = s.as_polynomial_view(&vars);
    check(view.check() && view.degree() == Some(1) && view.degree_of(&s) == Some(1), "the variable has degree one");
    check(view.leading_coeff_of(&s).is_some_and(|c| c.is_one()), "and coefficient one");
    check(view.collect_terms().is_some_and(|c| equal(&c, &s)), "and collects to itself");
    let u = Expr::undef();
    check(!u.as_polynomial_view(&vars).check() && u.as_polynomial_view(&vars).degree().is_none() && u.as_monomial_view(&vars).coeff().is_none(), "undef is no polynomial");
}
/// high degrees
pub fn high() {
    let m = if thorough() { 12 } else { 9 };
    let (i, j) = (conc(int(0, m)), conc(int(0, m)));
    let (c, d, b) = (int(-4, 4), int(1, 4), int(-2, 2));
    assume(c != 0 && b != 0);
    let p = Expr::from(c) * Expr::pow(v(0), ei(i)) + Expr::from(b) + Expr::from(d) * Expr::pow(v(0), ei(j)) * v(1);
    verify(&p.reduce(), &[(c, i, 0), (b, 0, 0), (d, j, 1)], &v(0), &v(1), m)
}
