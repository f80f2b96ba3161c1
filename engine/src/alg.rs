//! Rational functions over Q[leaves] with transcendental/algebraic generators: the value oracle.
use crate::ll::{BinOp, Pred};
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub trait Cx {
    fn ts(&mut self) -> &mut Terms;
    fn branch(&mut self, c: Tm) -> Result<bool, Stop>;
    fn conc(&mut self, t: Tm) -> Result<i128, Stop>;
}
#[derive(Debug, Clone)]
pub enum Stop { End(Outcome) }
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome { Done, Infeasible, Assume, Violation(String), Panic(String), Limit(String), Incomplete(String) }
pub fn incomplete<X>(s: &str) -> Result<X, Stop> { Err(Stop::End(Outcome::Incomplete(s.to_string()))) }
type Rs<X> = Result<X, Stop>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Q { pub n: i128, pub d: i128 }
impl Ord for Q { fn cmp(&self, o: &Q) -> std::cmp::Ordering { (self.n.saturating_mul(o.d)).cmp(&(o.n.saturating_mul(self.d))).then(self.n.cmp(&o.n)).then(self.d.cmp(&o.d)) } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
fn ov<X>(o: Option<X>) -> Rs<X> { match o { Some(x) => Ok(x), None => incomplete("oracle: coefficient overflow") } }
pub const Q0: Q = Q { n: 0, d: 1 };
pub const Q1: Q = Q { n: 1, d: 1 };
impl Q {
    pub fn i(n: i128) -> Q { Q { n, d: 1 } }
    pub fn new(n: i128, d: i128) -> Q { let g = gcd(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Q { n: s * n / g, d: s * d / g } }
    fn add(self, o: Q) -> Rs<Q> { Ok(Q::new(ov(ov(self.n.checked_mul(o.d))?.checked_add(ov(o.n.checked_mul(self.d))?))?, ov(self.d.checked_mul(o.d))?)) }
    fn mul(self, o: Q) -> Rs<Q> {
        let (g1, g2) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1));
        Ok(Q::new(ov((self.n / g1).checked_mul(o.n / g2))?, ov((self.d / g2).checked_mul(o.d / g1))?))
    }
    fn neg(self) -> Q { Q { n: -self.n, d: self.d } }
    fn inv(self) -> Q { Q::new(self.d, self.n) }
    fn is0(self) -> bool { self.n == 0 }
    fn is_int(self) -> bool { self.d == 1 }
    fn floor(self) -> i128 { self.n.div_euclid(self.d) }
    fn powi(self, e: i128) -> Rs<Q> {
        let (b, mut k) = if e < 0 { (self.inv(), -e) } else { (self, e) };
        let mut r = Q1;
        while k > 0 { r = r.mul(b)?; k -= 1 }
        Ok(r)
    }
}

pub type Gid = u32;
pub type Mono = Vec<(Gid, Q)>;
pub type Poly = BTreeMap<Mono, Q>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum G {
    Var(u32), Leaf(Tm), Pi, Prime(i128), NegOne,
    Sin(Mono, i128), Cos(Mono, i128),
    Ln(Gid), LnP(Vec<(Mono, Q)>),
    Exp(Mono), ExpR(Vec<(Mono, Q)>, Vec<(Mono, Q)>),
    Root(Vec<(Mono, Q)>),
    Fun(u32, Vec<(Mono, Q)>, Vec<(Mono, Q)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct RF { pub n: Poly, pub d: Poly }
#[derive(Clone, Debug, PartialEq)]
pub enum H { Undef, R(Rc<RF>) }

pub const F_SIN: u32 = 0; pub const F_ASIN: u32 = 1; pub const F_COS: u32 = 2; pub const F_ACOS: u32 = 3; pub const F_TAN: u32 = 4; pub const F_ATAN: u32 = 5;
pub const F_SEC: u32 = 6; pub const F_ASEC: u32 = 7; pub const F_COT: u32 = 8; pub const F_ACOT: u32 = 9; pub const F_CSC: u32 = 10; pub const F_ACSC: u32 = 11;
pub const F_LN: u32 = 12; pub const F_EXP: u32 = 13;

#[derive(Clone, Default)]
pub struct Alg { pub gens: Vec<G>, map: HashMap<G, Gid>, pub hs: Vec<H> }

pub fn pconst(q: Q) -> Poly { let mut p = Poly::new(); if !q.is0() { p.insert(vec![], q); } p }
fn padd(a: &Poly, b: &Poly) -> Rs<Poly> { let mut r = a.clone(); for (m, q) in b { padd1(&mut r, m.clone(), *q)? } Ok(r) }
fn padd1(r: &mut Poly, m: Mono, q: Q) -> Rs<()> {
    if q.is0() { return Ok(()) }
    match r.get_mut(&m) { Some(x) => { *x = x.add(q)?; if x.is0() { r.remove(&m); } } None => { if r.len() > 4000 { return incomplete("oracle: polynomial too large") } r.insert(m, q); } }
    Ok(())
}
fn pscale(a: &Poly, s: Q) -> Rs<Poly> { let mut r = Poly::new(); if s.is0() { return Ok(r) } for (m, q) in a { r.insert(m.clone(), q.mul(s)?); } Ok(r) }
fn as_const(p: &Poly) -> Option<Q> { if p.is_empty() { Some(Q0) } else if p.len() == 1 { p.get(&vec![] as &Mono).copied() } else { None } }
fn vecp(p: &Poly) -> Vec<(Mono, Q)> { p.iter().map(|(m, q)| (m.clone(), *q)).collect() }
fn unvec(p: &[(Mono, Q)]) -> Poly { p.iter().cloned().collect() }
fn mono_raw(a: &Mono, b: &Mono) -> Rs<Mono> {
    let mut r: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1 }
        else if i == a.len() || b[j].0 < a[i].0 { r.push(b[j]); j += 1 }
        else { let e = a[i].1.add(b[j].1)?; if !e.is0() { r.push((a[i].0, e)) } i += 1; j += 1 }
    }
    Ok(r)
}

/// a monomial order
fn lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    let (mut i, mut j) = (0, 0);
    loop {
        let (x, y) = (a.get(i), b.get(j));
        let g = match (x, y) { (None, None) => return std::cmp::Ordering::Equal, (Some(x), None) => x.0, (None, Some(y)) => y.0, (Some(x), Some(y)) => x.0.min(y.0) };
        let e = match x { Some(x) if x.0 == g => { i += 1; x.1 } _ => Q0 };
        let f = match y { Some(y) if y.0 == g => { j += 1; y.1 } _ => Q0 };
        if e != f { return e.cmp(&f) }
    }
}

impl Alg {
    pub fn gen(&mut self, g: G) -> Gid {
        if let Some(i) = self.map.get(&g) { return *i }
        let i = self.gens.len() as Gid;
        self.gens.push(g.clone());
        self.map.insert(g, i);
        i
    }
    fn pgen(&mut self, g: G) -> Poly { let i = self.gen(g); let mut p = Poly::new(); p.insert(vec![(i, Q1)], Q1); p }
    fn one() -> Poly { pconst(Q1) }
    pub fn rf(n: Poly) -> RF { RF { n, d: Self::one() } }
    pub fn rconst(q: Q) -> RF { Self::rf(pconst(q)) }

    /// product of monomials, with generator relations applied
    fn mmul(&mut self, a: &Mono, b: &Mono) -> Rs<Poly> {
        let m = mono_raw(a, b)?;
        self.norm_mono(m)
    }
    fn norm_mono(&mut self, m: Mono) -> Rs<Poly> {
        let mut plain: Mono = vec![];
        let mut coef = Q1;
        let mut extra: Vec<Poly> = vec![];
        for (g, e) in m {
            match &self.gens[g as usize] {
                G::Prime(p) => { let f = e.floor(); let p = *p; if f != 0 { coef = coef.mul(Q::i(p).powi(f)?)?; } let r = e.add(Q::i(-f))?; if !r.is0() { plain.push((g, r)) } }
                G::NegOne => { let f = e.floor(); if f.rem_euclid(2) == 1 { coef = coef.neg() } let r = e.add(Q::i(-f))?; if !r.is0() { plain.push((g, r)) } }
                G::Cos(k, d) if e >= Q::i(2) => {
                    let f = (e.floor() / 2) as i128;
                    let r = e.add(Q::i(-2 * f))?;
                    if !r.is0() { plain.push((g, r)) }
                    let s = G::Sin(k.clone(), *d);
                    let s = self.gen(s);
                    let mut p = Self::one();
                    padd1(&mut p, vec![(s, Q::i(2))], Q::i(-1))?;
                    for _ in 0..f { extra.push(p.clone()) }
                }
                G::Root(p) if e >= Q1 => {
                    let f = e.floor();
                    let r = e.add(Q::i(-f))?;
                    let p = unvec(p);
                    if !r.is0() { plain.push((g, r)) }
                    for _ in 0..f { extra.push(p.clone()) }
                }
                _ => plain.push((g, e)),
            }
        }
        let mut r = Poly::new();
        r.insert(plain, coef);
        for x in extra { r = self.pmul(&r, &x)? }
        Ok(r)
    }
    pub fn pmul(&mut self, a: &Poly, b: &Poly) -> Rs<Poly> {
        let mut r = Poly::new();
        for (m1, q1) in a { for (m2, q2) in b {
            let q = q1.mul(*q2)?;
            for (m, c) in self.mmul(m1, m2)? { padd1(&mut r, m, c.mul(q)?)? }
        } }
        Ok(r)
    }
    fn ppow(&mut self, a: &Poly, e: u32) -> Rs<Poly> { let mut r = Self::one(); for _ in 0..e { r = self.pmul(&r, a)? } Ok(r) }
    fn laurent_ok(&self, g: Gid) -> bool { !matches!(self.gens[g as usize], G::Leaf(_) | G::Sin(..) | G::Cos(..) | G::Root(..)) }
    /// cheap normalisation: absorb invertible monomial content of the denominator, try exact division
    fn norm(&mut self, r: RF) -> Rs<RF> {
        let RF { mut n, mut d } = r;
        if n.is_empty() { return Ok(RF { n, d: Self::one() }) }
        // common invertible monomial of d
        let mut common: Option<BTreeMap<Gid, Q>> = None;
        for m in d.keys() {
            let mm: BTreeMap<Gid, Q> = m.iter().filter(|(g, _)| self.laurent_ok(*g)).cloned().collect();
            common = Some(match common { None => mm, Some(c) => {
                let mut r = BTreeMap::new();
                for g in c.keys().chain(mm.keys()) { let (x, y) = (c.get(g).copied().unwrap_or(Q0), mm.get(g).copied().unwrap_or(Q0)); let v = x.min(y); if !v.is0() { r.insert(*g, v); } }
                r
            } });
        }
        let common = common.unwrap_or_default();
        if !common.is_empty() {
            let inv: Mono = common.iter().map(|(g, e)| (*g, e.neg())).collect();
            let mut ip = Poly::new(); ip.insert(inv, Q1);
            n = self.pmul(&n, &ip)?; d = self.pmul(&d, &ip)?;
        }
        // scalar
        let lead = *d.values().next_back().unwrap();
        if lead != Q1 { let s = lead.inv(); n = pscale(&n, s)?; d = pscale(&d, s)? }
        if as_const(&d).is_none() && n.len() <= 60 && d.len() <= 20 {
            if let Some(q) = self.divide(&n, &d)? { return Ok(RF { n: q, d: Self::one() }) }
            if n.len() >= 2 && d.len() >= n.len() {
                // 1/k form: d = n * k
                if let Some(k) = self.divide(&d, &n)? {
                    let mut ok = true;
                    for m in n.keys() { for (g, _) in m { if let G::Leaf(_) = self.gens[*g as usize] { ok = false } } }
                    if ok && k != d { return self.norm(RF { n: Self::one(), d: k }) }
                }
            }
        }
        Ok(RF { n, d })
    }
    fn divide(&mut self, n: &Poly, d: &Poly) -> Rs<Option<Poly>> {
        let mut rem = n.clone();
        let mut q = Poly::new();
        let (ld, lc) = { let (m, c) = d.iter().next_back().unwrap(); (m.clone(), *c) };
        let ildm: Mono = ld.iter().map(|(g, e)| (*g, e.neg())).collect();
        let mut it = 0;
        while !rem.is_empty() {
            it += 1;
            if it > 40 { return Ok(None) }
            // pick a term of rem divisible by the lead of d giving progress: try its last term
            let (m, c) = { let (m, c) = rem.iter().next_back().unwrap(); (m.clone(), *c) };
            let t = mono_raw(&m, &ildm)?;
            if t.iter().any(|(g, e)| !self.laurent_ok(*g) && (e.n < 0)) { return Ok(None) }
            let c = c.mul(lc.inv())?;
            let mut tp = Poly::new(); tp.insert(t.clone(), c);
            let sub = self.pmul(&tp, d)?;
            let before = rem.len();
            rem = padd(&rem, &pscale(&sub, Q::i(-1))?)?;
            if rem.len() > before + d.len() || rem.contains_key(&m) { return Ok(None) }
            padd1(&mut q, t, c)?;
            if q.len() > 40 { return Ok(None) }
        }
        Ok(Some(q))
    }
    pub fn add(&mut self, a: &RF, b: &RF) -> Rs<RF> {
        if a.d == b.d { let n = padd(&a.n, &b.n)?; return self.norm(RF { n, d: a.d.clone() }) }
        let x = self.pmul(&a.n, &b.d)?; let y = self.pmul(&b.n, &a.d)?;
        let n = padd(&x, &y)?; let d = self.pmul(&a.d, &b.d)?;
        self.norm(RF { n, d })
    }
    pub fn mul(&mut self, a: &RF, b: &RF) -> Rs<RF> {
        if a.n == b.d { return self.norm(RF { n: b.n.clone(), d: a.d.clone() }) }
        if b.n == a.d { return self.norm(RF { n: a.n.clone(), d: b.d.clone() }) }
        let n = self.pmul(&a.n, &b.n)?; let d = self.pmul(&a.d, &b.d)?; self.norm(RF { n, d })
    }
    pub fn neg(&mut self, a: &RF) -> Rs<RF> { Ok(RF { n: pscale(&a.n, Q::i(-1))?, d: a.d.clone() }) }

    pub fn from_term(&mut self, ts: &mut Terms, t: Tm) -> Rs<Poly> {
        let n = ts.n[t as usize].clone();
        match n.op {
            T::Const => return Ok(pconst(Q::i(sext(n.k, n.w)))),
            T::Add | T::Sub | T::Mul if ts.exact(t) => {
                let (x, y) = (self.from_term(ts, n.a)?, self.from_term(ts, n.b)?);
                return match n.op { T::Add => padd(&x, &y), T::Sub => padd(&x, &pscale(&y, Q::i(-1))?), _ => self.pmul(&x, &y) }
            }
            T::SExt => if ts.w(n.a) > 1 { return self.from_term(ts, n.a) },
            T::Trunc => { let (l, h) = ts.iv(n.a); if n.w > 1 && l >= smin(n.w) && h <= smax(n.w) { return self.from_term(ts, n.a) } }
            _ => {}
        }
        Ok(self.pgen(G::Leaf(t)))
    }
    /// condition "p is the zero polynomial" as a term over the leaves
    pub fn zero_term(&mut self, ts: &mut Terms, p: &Poly) -> Rs<Tm> {
        let mut groups: BTreeMap<Mono, Vec<(Mono, Q)>> = BTreeMap::new();
        for (m, q) in p {
            let (leaf, rest): (Mono, Mono) = m.iter().partition(|(g, _)| matches!(self.gens[*g as usize], G::Leaf(_)));
            groups.entry(rest).or_default().push((leaf, *q));
        }
        // a purely constant nonzero group decides immediately
        for v in groups.values() { if v.len() == 1 && v[0].0.is_empty() { return Ok(ts.fls()) } }
        let mut acc = ts.tru();
        for v in groups.values() {
            let mut l = 1i128;
            for (_, q) in v { l = ov((l / gcd(l, q.d)).checked_mul(q.d))? }
            let mut sum = ts.cst(128, 0);
            for (m, q) in v {
                let mut t = ts.cst(128, ov(q.n.checked_mul(l / q.d))? as u128);
                for (g, e) in m {
                    let leaf = match self.gens[*g as usize] { G::Leaf(t) => t, _ => unreachable!() };
                    if !e.is_int() || e.n < 0 { return incomplete("oracle: leaf exponent") }
                    let leaf = ts.sext(leaf, 128);
                    for _ in 0..e.n { t = mulx(ts, t, leaf)? }
                }
                let ((al, ah), (bl, bh)) = (ts.iv(sum), ts.iv(t));
                if al.checked_add(bl).is_none() || ah.checked_add(bh).is_none() { return incomplete("oracle: term overflow") }
                sum = ts.bin(BinOp::Add, 128, sum, t);
            }
            let z = ts.cst(128, 0);
            let e = ts.icmp(Pred::Eq, 128, sum, z);
            acc = ts.and(acc, e);
        }
        Ok(acc)
    }
    fn is_zero(&mut self, cx: &mut dyn Cx, p: &Poly) -> Rs<bool> {
        if p.is_empty() { return Ok(true) }
        let t = self.zero_term(cx.ts(), p)?;
        match cx.ts().is_c(t) { Some(k) => Ok(k == 1), None => cx.branch(t) }
    }
    pub fn eq_term(&mut self, ts: &mut Terms, a: &RF, b: &RF) -> Rs<Tm> {
        let p = if a.d == b.d { padd(&a.n, &pscale(&b.n, Q::i(-1))?)? } else {
            let x = self.pmul(&a.n, &b.d)?; let y = self.pmul(&b.n, &a.d)?;
            padd(&x, &pscale(&y, Q::i(-1))?)?
        };
        if p.is_empty() { return Ok(ts.tru()) }
        self.zero_term(ts, &p)
    }
    pub fn div(&mut self, cx: &mut dyn Cx, a: &RF, b: &RF) -> Rs<H> {
        if self.is_zero(cx, &b.n)? { return Ok(H::Undef) }
        let r = RF { n: b.d.clone(), d: b.n.clone() };
        let r = self.norm(r)?;
        Ok(H::R(Rc::new(self.mul(a, &r)?)))
    }
    fn subst_leaves(&mut self, cx: &mut dyn Cx, p: &Poly) -> Rs<Poly> {
        let mut r = Poly::new();
        for (m, q) in p {
            let mut c = *q;
            let mut mm = vec![];
            for (g, e) in m {
                match self.gens[*g as usize] {
                    G::Leaf(t) => { let v = cx.conc(t)?; if !e.is_int() || e.n < 0 { return incomplete("oracle: leaf exponent") } c = c.mul(Q::i(v).powi(e.n)?)? }
                    _ => mm.push((*g, *e)),
                }
            }
            padd1(&mut r, mm, c)?;
        }
        Ok(r)
    }
    fn has_leaf(&self, p: &Poly) -> bool { p.keys().any(|m| m.iter().any(|(g, _)| matches!(self.gens[*g as usize], G::Leaf(_)))) }
    /// no symbolic leaves left
    fn ground(&mut self, cx: &mut dyn Cx, a: &RF) -> Rs<RF> {
        if !self.has_leaf(&a.n) && !self.has_leaf(&a.d) { return Ok(a.clone()) }
        let n = self.subst_leaves(cx, &a.n)?; let d = self.subst_leaves(cx, &a.d)?;
        if d.is_empty() { return incomplete("oracle: zero denominator") }
        self.norm(RF { n, d })
    }
    /// p = content * monomial * primitive part
    fn content(&mut self, p: &Poly) -> Rs<(Q, Mono, Poly)> {
        let mut cm: Option<BTreeMap<Gid, Q>> = None;
        let (mut gn, mut ld) = (0i128, 1i128);
        for (m, q) in p {
            gn = gcd(gn, q.n);
            ld = ov((ld / gcd(ld, q.d)).checked_mul(q.d))?;
            let mm: BTreeMap<Gid, Q> = m.iter().cloned().collect();
            cm = Some(match cm { None => mm, Some(c) => {
                let mut r = BTreeMap::new();
                for g in c.keys().chain(mm.keys()) { let v = c.get(g).copied().unwrap_or(Q0).min(mm.get(g).copied().unwrap_or(Q0)); if !v.is0() { r.insert(*g, v); } }
                r
            } });
        }
        let cm = cm.unwrap();
        // sign: positive leading coefficient, but keep monomials' own sign as content
        let c = Q::new(gn, ld);
        let m: Mono = cm.into_iter().collect();
        let im: Mono = m.iter().map(|(g, e)| (*g, e.neg())).collect();
        let mut pr = Poly::new();
        for (k, q) in p { padd1(&mut pr, mono_raw(k, &im)?, q.mul(c.inv())?)? }
        let c = if pr.values().next_back().unwrap().n < 0 { for q in pr.values_mut() { *q = q.neg() } c.neg() } else { c };
        Ok((c, m, pr))
    }
    fn factor(n: i128) -> Vec<(i128, i128)> {
        let (mut n, mut v, mut p) = (n.abs(), vec![], 2i128);
        while p * p <= n { let mut e = 0; while n % p == 0 { n /= p; e += 1 } if e > 0 { v.push((p, e)) } p += 1; if p > 100000 { break } }
        if n > 1 { v.push((n, 1)) }
        v
    }
    fn qpow(&mut self, c: Q, q: Q) -> Rs<RF> {
        let mut m: Mono = vec![];
        if c.n < 0 { let g = self.gen(G::NegOne); m = mono_raw(&m, &vec![(g, q)])? }
        for (p, e) in Self::factor(c.n) { let g = self.gen(G::Prime(p)); m = mono_raw(&m, &vec![(g, q.mul(Q::i(e))?)])? }
        for (p, e) in Self::factor(c.d) { let g = self.gen(G::Prime(p)); m = mono_raw(&m, &vec![(g, q.mul(Q::i(-e))?)])? }
        let n = self.norm_mono(m)?;
        Ok(Self::rf(n))
    }
    /// n = quotient * d + remainder, no term of the remainder divisible by the highest term of d
    fn split(&mut self, n: &Poly, d: &Poly) -> Rs<(Poly, Poly)> {
        let ld = d.keys().max_by(|a, b| lex(a, b)).unwrap().clone();
        let ilc = d[&ld].inv();
        let (mut rem, mut quo) = (n.clone(), Poly::new());
        for _ in 0..20 {
            let m = rem.keys().filter(|m| ld.iter().all(|(g, e)| m.iter().any(|(h, f)| h == g && *f >= *e))).max_by(|a, b| lex(a, b)).cloned();
            let m = match m { Some(m) => m, None => return Ok((quo, rem)) };
            let c = rem[&m].mul(ilc)?;
            let t = mono_raw(&m, &ld.iter().map(|(g, e)| (*g, e.neg())).collect())?;
            let mut tp = Poly::new(); tp.insert(t.clone(), c);
            let sub = self.pmul(&tp, d)?;
            rem = padd(&rem, &pscale(&sub, Q::i(-1))?)?;
            padd1(&mut quo, t, c)?;
        }
        Ok((Poly::new(), n.clone()))
    }
    /// p = root^k with the greatest k of 1, 2, 3, 4, 6 (only where every coefficient is positive)
    fn perfect(&mut self, p: &Poly) -> Rs<(Poly, i128)> {
        let (mut p, mut k) = (p.clone(), 1);
        for n in [2, 2, 3] { if let Some(r) = self.nth_root(&p, n)? { p = r; k *= n } }
        Ok((p, k))
    }
    fn nth_root(&mut self, p: &Poly, k: i128) -> Rs<Option<Poly>> {
        if p.len() < 2 || p.len() > 40 || p.values().any(|q| q.n < 0) { return Ok(None) }
        if p.keys().any(|m| m.iter().any(|(g, _)| !matches!(self.gens[*g as usize], G::Var(_) | G::Pi | G::Exp(_) | G::Ln(_)))) { return Ok(None) }
        let root = |n: i128| (0..1000).find(|r: &i128| r.pow(k as u32) == n);
        let lead = p.keys().max_by(|a, b| lex(a, b)).unwrap().clone();
        let c = match (root(p[&lead].n), root(p[&lead].d)) { (Some(n), Some(d)) => Q::new(n, d), _ => return Ok(None) };
        let mut lm: Mono = vec![];
        for (g, e) in &lead { lm.push((*g, e.mul(Q::new(1, k))?)) }
        if lm.iter().any(|(_, e)| !e.is_int()) { return Ok(None) }
        let mut r = Poly::new(); r.insert(lm.clone(), c);
        let den: Mono = lm.iter().map(|(g, e)| (*g, Q::new(-(k - 1) * e.n, e.d))).collect();
        let dc = Q::i(k).mul(c.powi(k - 1)?)?.inv();
        for _ in 0..8 {
            let pw = self.ppow(&r, k as u32)?;
            let rem = padd(p, &pscale(&pw, Q::i(-1))?)?;
            let m = match rem.keys().max_by(|a, b| lex(a, b)) { Some(m) => m.clone(), None => return Ok(Some(r)) };
            let t = mono_raw(&m, &den)?;
            if rem[&m].n < 0 || lex(&t, &lm) != std::cmp::Ordering::Less { return Ok(None) }
            padd1(&mut r, t, rem[&m].mul(dc)?)?;
        }
        Ok(None)
    }
    /// poly^q for rational q, formal (positive real) semantics
    fn polypow(&mut self, p: &Poly, q: Q) -> Rs<RF> {
        let (c, m, pr) = self.content(p)?;
        let mut r = self.qpow(c, q)?;
        let (mut num, mut den): (Mono, Mono) = (vec![], vec![]);
        for (g, e) in m {
            let e2 = e.mul(q)?;
            if e2.n < 0 && !self.laurent_ok(g) { den.push((g, e2.neg())) } else { num.push((g, e2)) }
        }
        // root exponents must be put in canonical range: floor part handled by norm_mono
        let n = self.norm_mono(num)?; let d = self.norm_mono(den)?;
        r = self.mul(&r, &RF { n, d })?;
        if as_const(&pr) != Some(Q1) {
            let (pr, k) = if q.is_int() { (pr, 1) } else { self.perfect(&pr)? };
            let q = q.mul(Q::i(k))?;
            let f = q.floor();
            let fr = q.add(Q::i(-f))?;
            if f.abs() > 40 { return incomplete("oracle: exponent too large") }
            let pw = self.ppow(&pr, f.unsigned_abs() as u32)?;
            let x = if f < 0 { RF { n: Self::one(), d: pw } } else { Self::rf(pw) };
            r = self.mul(&r, &x)?;
            if !fr.is0() { let g = self.gen(G::Root(vecp(&pr))); let mut x = Poly::new(); x.insert(vec![(g, fr)], Q1); r = self.mul(&r, &Self::rf(x))? }
        }
        self.norm(r)
    }
    pub fn pow(&mut self, cx: &mut dyn Cx, b: &RF, e: &RF) -> Rs<H> {
        let e = self.ground(cx, e)?;
        let one = Self::one();
        if e.d == one {
            if let Some(q) = as_const(&e.n) {
                if q.is_int() {
                    if q.n <= 0 {
                        if self.is_zero(cx, &b.n)? { return Ok(H::Undef) }
                        if q.n == 0 { return Ok(H::R(Rc::new(Self::rconst(Q1)))) }
                    }
                    let k = q.n.unsigned_abs();
                    if k > 64 { return incomplete("oracle: exponent too large") }
                    let b2 = if q.n < 0 { let r = RF { n: b.d.clone(), d: b.n.clone() }; self.norm(r)? } else { b.clone() };
                    let n = self.ppow(&b2.n, k as u32)?; let d = self.ppow(&b2.d, k as u32)?;
                    return Ok(H::R(Rc::new(self.norm(RF { n, d })?)))
                }
                let b = self.ground(cx, b)?;
                if self.negative(&b) { return Ok(H::Undef) }
                if b.n.is_empty() { return Ok(if q.n > 0 { H::R(Rc::new(b)) } else { H::Undef }) }
                let x = self.polypow(&b.n, q)?; let y = self.polypow(&b.d, q.neg())?;
                return Ok(H::R(Rc::new(self.mul(&x, &y)?)))
            }
        }
        let b = self.ground(cx, b)?;
        if b.n.is_empty() || self.negative(&b) { return Ok(H::Undef) }
        let l = self.ln(&b)?;
        let x = self.mul(&e, &l)?;
        let r = self.exp(&x)?;
        Ok(H::R(Rc::new(r)))
    }
    /// certainly a negative real for every positive value of the variables (fractional powers of those have no agreed value)
    fn negative(&self, b: &RF) -> bool {
        let pos = |m: &Mono| m.iter().all(|(g, _)| matches!(self.gens[*g as usize], G::Var(_) | G::Pi | G::Prime(_) | G::Exp(_) | G::ExpR(..)));
        let sg = |p: &Poly| { if !p.keys().all(pos) { return 0 } let k = p.values().filter(|q| q.n < 0).count(); if k == 0 { 1 } else if k == p.len() { -1 } else { 0 } };
        sg(&b.n) * sg(&b.d) < 0
    }
    fn ln_gen(&mut self, g: Gid) -> Rs<RF> {
        Ok(match self.gens[g as usize].clone() {
            G::Exp(m) => { let mut p = Poly::new(); p.insert(m, Q1); Self::rf(p) }
            G::ExpR(n, d) => RF { n: unvec(&n), d: unvec(&d) },
            G::Root(p) => { let g = G::LnP(p); Self::rf(self.pgen(g)) }
            _ => Self::rf(self.pgen(G::Ln(g))),
        })
    }
    fn ln_poly(&mut self, p: &Poly) -> Rs<RF> {
        let (c, m, pr) = self.content(p)?;
        let mut r = Self::rconst(Q0);
        if c.n < 0 { let g = self.gen(G::NegOne); let x = self.ln_gen(g)?; r = self.add(&r, &x)? }
        for (num, s) in [(c.n, 1), (c.d, -1)] {
            for (p, e) in Self::factor(num) { let g = self.gen(G::Prime(p)); let x = self.ln_gen(g)?; let k = Self::rconst(Q::i(s * e)); let x = self.mul(&x, &k)?; r = self.add(&r, &x)? }
        }
        for (g, e) in m { let x = self.ln_gen(g)?; let k = Self::rconst(e); let x = self.mul(&x, &k)?; r = self.add(&r, &x)? }
        if as_const(&pr) != Some(Q1) {
            let (pr, k) = self.perfect(&pr)?;
            let x = Self::rf(pscale(&self.pgen(G::LnP(vecp(&pr))), Q::i(k))?);
            r = self.add(&r, &x)?
        }
        Ok(r)
    }
    pub fn ln(&mut self, a: &RF) -> Rs<RF> {
        let x = self.ln_poly(&a.n)?; let y = self.ln_poly(&a.d)?; let y = self.neg(&y)?;
        self.add(&x, &y)
    }
    pub fn exp(&mut self, a: &RF) -> Rs<RF> {
        if a.d != Self::one() {
            let (quo, rem) = self.split(&a.n, &a.d)?;
            let mut r = self.exp(&Self::rf(quo))?;
            for (m, q) in rem {
                let g = self.gen(G::ExpR(vec![(m, Q1)], vecp(&a.d)));
                let mut p = Poly::new(); p.insert(vec![(g, q)], Q1);
                r = self.mul(&r, &Self::rf(p))?;
            }
            return Ok(r)
        }
        let mut r = Self::rconst(Q1);
        for (m, q) in a.n.clone() {
            let x = if m.len() == 1 && m[0].1 == Q1 {
                match self.gens[m[0].0 as usize].clone() {
                    G::Ln(g) => {
                        let mut p = Poly::new(); p.insert(vec![(g, Q1)], Q1);
                        Some(self.polypow(&p, q)?)
                    }
                    G::LnP(p) => Some(self.polypow(&unvec(&p), q)?),
                    _ => None,
                }
            } else { None };
            let x = match x { Some(x) => x, None => { let g = self.gen(G::Exp(m)); let mut p = Poly::new(); p.insert(vec![(g, q)], Q1); Self::rf(p) } };
            r = self.mul(&r, &x)?;
        }
        Ok(r)
    }
    /// (sin, cos) of q*m
    fn sc(&mut self, m: &Mono, q: Q) -> Rs<(Poly, Poly)> {
        if m.len() == 1 && m[0].1 == Q1 && self.gens[m[0].0 as usize] == G::Pi && (q.d == 1 || q.d == 2) {
            let k = (q.n * (2 / q.d)).rem_euclid(4);
            return Ok((pconst(Q::i([0, 1, 0, -1][k as usize])), pconst(Q::i([1, 0, -1, 0][k as usize]))))
        }
        let (s1, c1) = (self.pgen(G::Sin(m.clone(), q.d)), self.pgen(G::Cos(m.clone(), q.d)));
        let n = q.n.unsigned_abs();
        if n > 12 { return incomplete("oracle: angle multiple too large") }
        let (mut s, mut c) = (Poly::new(), Self::one());
        for _ in 0..n {
            let a = self.pmul(&s, &c1)?; let b = self.pmul(&c, &s1)?;
            let d = self.pmul(&c, &c1)?; let e = self.pmul(&s, &s1)?;
            s = padd(&a, &b)?; c = padd(&d, &pscale(&e, Q::i(-1))?)?;
        }
        if q.n < 0 { s = pscale(&s, Q::i(-1))? }
        Ok((s, c))
    }
    pub fn func(&mut self, cx: &mut dyn Cx, k: u32, a: &RF) -> Rs<H> {
        let a = self.ground(cx, a)?;
        let ok = |r: RF| Ok(H::R(Rc::new(r)));
        match k {
            F_LN => { if a.n.is_empty() { return Ok(H::Undef) } let r = self.ln(&a)?; ok(r) }
            F_EXP => { let r = self.exp(&a)?; ok(r) }
            F_SIN | F_COS | F_TAN | F_SEC | F_COT | F_CSC => {
                let (mut s, mut c) = (Poly::new(), Self::one());
                let mut angle: Vec<(Mono, Q)> = vec![];
                if a.d != Self::one() {
                    // opaque angles, one for each term of the remainder
                    let (quo, rem) = self.split(&a.n, &a.d)?;
                    angle.extend(quo);
                    for (m, q) in rem { let g = self.gen(G::Fun(100, vec![(m, Q1)], vecp(&a.d))); angle.push((vec![(g, Q1)], q)) }
                } else { angle.extend(a.n.clone()) }
                {
                    for (m, q) in angle {
                        let (s1, c1) = self.sc(&m, q)?;
                        let x = self.pmul(&s, &c1)?; let y = self.pmul(&c, &s1)?;
                        let z = self.pmul(&c, &c1)?; let w = self.pmul(&s, &s1)?;
                        s = padd(&x, &y)?; c = padd(&z, &pscale(&w, Q::i(-1))?)?;
                    }
                }
                let one = Self::rconst(Q1);
                let (s, c) = (Self::rf(s), Self::rf(c));
                match k { F_SIN => ok(s), F_COS => ok(c), F_TAN => self.div(cx, &s, &c), F_SEC => self.div(cx, &one, &c), F_COT => self.div(cx, &c, &s), _ => self.div(cx, &one, &s) }
            }
            F_ASEC | F_ACSC if a.n.is_empty() => Ok(H::Undef),
            _ => { let g = G::Fun(k, vecp(&a.n), vecp(&a.d)); let p = self.pgen(g); ok(Self::rf(p)) }
        }
    }
    pub fn diff_mono(&mut self, cx: &mut dyn Cx, m: &Mono, v: u32) -> Rs<RF> {
        let mut r = Self::rconst(Q0);
        for (i, (g, e)) in m.iter().enumerate() {
            let dg = match self.dgen(cx, *g, v)? { Some(d) => d, None => continue };
            // e * m / g * dg
            let mut rest: Mono = m.clone();
            let ne = e.add(Q::i(-1))?;
            if ne.is0() { rest.remove(i); } else { rest[i].1 = ne }
            let mut den: Mono = vec![];
            rest.retain(|(g, e)| { if e.n < 0 && !self.laurent_ok(*g) { den.push((*g, e.neg())); false } else { true } });
            let (mut n, mut d) = (Poly::new(), Poly::new());
            n.insert(rest, *e); d.insert(den, Q1);
            let t = self.mul(&RF { n, d }, &dg)?;
            r = self.add(&r, &t)?;
        }
        Ok(r)
    }
    fn dpoly(&mut self, cx: &mut dyn Cx, p: &Poly, v: u32) -> Rs<RF> {
        let mut r = Self::rconst(Q0);
        for (m, q) in p { let x = self.diff_mono(cx, m, v)?; let k = Self::rconst(*q); let x = self.mul(&x, &k)?; r = self.add(&r, &x)? }
        Ok(r)
    }
    fn dgen(&mut self, cx: &mut dyn Cx, g: Gid, v: u32) -> Rs<Option<RF>> {
        let chain = |s: &mut Self, f: RF, d: RF| -> Rs<Option<RF>> { if d.n.is_empty() { Ok(None) } else { Ok(Some(s.mul(&f, &d)?)) } };
        match self.gens[g as usize].clone() {
            G::Var(x) => Ok(if x == v { Some(Self::rconst(Q1)) } else { None }),
            G::Leaf(_) | G::Pi | G::Prime(_) | G::NegOne => Ok(None),
            G::Sin(m, d) => { let dm = self.diff_mono(cx, &m, v)?; let f = self.pgen(G::Cos(m, d)); let f = pscale(&f, Q::new(1, d))?; chain(self, Self::rf(f), dm) }
            G::Cos(m, d) => { let dm = self.diff_mono(cx, &m, v)?; let f = self.pgen(G::Sin(m, d)); let f = pscale(&f, Q::new(-1, d))?; chain(self, Self::rf(f), dm) }
            G::Ln(h) => { let d = match self.dgen(cx, h, v)? { Some(d) => d, None => return Ok(None) }; let mut p = Poly::new(); p.insert(vec![(h, Q1)], Q1); let i = self.norm(RF { n: Self::one(), d: p })?; chain(self, i, d) }
            G::LnP(p) => { let p = unvec(&p); let d = self.dpoly(cx, &p, v)?; chain(self, RF { n: Self::one(), d: p }, d) }
            G::Exp(m) => { let dm = self.diff_mono(cx, &m, v)?; let mut p = Poly::new(); p.insert(vec![(g, Q1)], Q1); chain(self, Self::rf(p), dm) }
            G::ExpR(n, d) => { let da = self.drf(cx, &RF { n: unvec(&n), d: unvec(&d) }, v)?; let mut p = Poly::new(); p.insert(vec![(g, Q1)], Q1); chain(self, Self::rf(p), da) }
            G::Root(p) => { let d = self.dpoly(cx, &unvec(&p), v)?; chain(self, Self::rconst(Q1), d) }
            G::Fun(k, n, d) => {
                let a = RF { n: unvec(&n), d: unvec(&d) };
                let da = self.drf(cx, &a, v)?;
                if da.n.is_empty() { return Ok(None) }
                let one = Self::rconst(Q1);
                let a2 = self.mul(&a, &a)?;
                let ma2 = self.neg(&a2)?;
                let f = match k {
                    100 => one.clone(),
                    F_ATAN | F_ACOT => { let x = self.add(&one, &a2)?; let r = self.div(cx, &one, &x)?; let r = match r { H::R(r) => (*r).clone(), _ => return incomplete("oracle: diff") }; if k == F_ACOT { self.neg(&r)? } else { r } }
                    F_ASIN | F_ACOS => {
                        let x = self.add(&one, &ma2)?;
                        let r = match self.pow(cx, &x, &Self::rconst(Q::new(-1, 2)))? { H::R(r) => (*r).clone(), _ => return incomplete("oracle: diff") };
                        if k == F_ACOS { self.neg(&r)? } else { r }
                    }
                    F_ASEC | F_ACSC => {
                        // 1/(|a| sqrt(a^2-1)), formal positive a
                        let m1 = Self::rconst(Q::i(-1));
                        let x = self.add(&a2, &m1)?;
                        let r = match self.pow(cx, &x, &Self::rconst(Q::new(-1, 2)))? { H::R(r) => (*r).clone(), _ => return incomplete("oracle: diff") };
                        let r = match self.div(cx, &r, &a)? { H::R(r) => (*r).clone(), _ => return incomplete("oracle: diff") };
                        if k == F_ACSC { self.neg(&r)? } else { r }
                    }
                    _ => return incomplete("oracle: diff of unknown function"),
                };
                chain(self, f, da)
            }
        }
    }
    pub fn drf(&mut self, cx: &mut dyn Cx, a: &RF, v: u32) -> Rs<RF> {
        let dn = self.dpoly(cx, &a.n, v)?;
        let dd = self.dpoly(cx, &a.d, v)?;
        // (dn*d - n*dd)/d^2
        let d = Self::rf(a.d.clone()); let n = Self::rf(a.n.clone());
        let x = self.mul(&dn, &d)?; let y = self.mul(&n, &dd)?; let y = self.neg(&y)?;
        let t = self.add(&x, &y)?;
        let d2 = self.pmul(&a.d, &a.d)?;
        let i = self.norm(RF { n: Self::one(), d: d2 })?;
        self.mul(&t, &i)
    }
    pub fn pretty(&self, h: &H) -> String {
        match h { H::Undef => "undef".into(), H::R(r) => { if as_const(&r.d) == Some(Q1) { self.pp(&r.n) } else { format!("({}) / ({})", self.pp(&r.n), self.pp(&r.d)) } } }
    }
    fn pp(&self, p: &Poly) -> String {
        if p.is_empty() { return "0".into() }
        p.iter().map(|(m, q)| format!("{}{}{}", q.n, if q.d != 1 { format!("/{}", q.d) } else { String::new() }, m.iter().map(|(g, e)| format!("*{}{}", self.pg(*g), if *e == Q1 { String::new() } else { format!("^{}/{}", e.n, e.d) })).collect::<String>())).collect::<Vec<_>>().join(" + ")
    }
    fn pm(&self, m: &Mono) -> String { let mut p = Poly::new(); p.insert(m.clone(), Q1); self.pp(&p) }
    fn pg(&self, g: Gid) -> String {
        match &self.gens[g as usize] {
            G::Var(i) => format!("v{}", i), G::Leaf(t) => format!("t{}", t), G::Pi => "pi".into(), G::Prime(p) => format!("[{}]", p), G::NegOne => "[-1]".into(),
            G::Sin(m, d) => format!("sin({}/{})", self.pm(m), d), G::Cos(m, d) => format!("cos({}/{})", self.pm(m), d),
            G::Ln(g) => format!("ln({})", self.pg(*g)), G::LnP(p) => format!("ln({})", self.pp(&unvec(p))),
            G::Exp(m) => format!("exp({})", self.pm(m)), G::ExpR(n, d) => format!("exp({} / {})", self.pp(&unvec(n)), self.pp(&unvec(d))),
            G::Root(p) => format!("({})", self.pp(&unvec(p))), G::Fun(k, n, d) => format!("f{}({} / {})", k, self.pp(&unvec(n)), self.pp(&unvec(d))),
        }
    }
}
fn mulx(ts: &mut Terms, a: Tm, b: Tm) -> Rs<Tm> {
    let ((al, ah), (bl, bh)) = (ts.iv(a), ts.iv(b));
    if mulrange(al, ah, bl, bh).is_none() { return incomplete("oracle: term overflow") }
    Ok(ts.bin(BinOp::Mul, 128, a, b))
}
