//! Hash-consed bit-vector terms with signed intervals and support sets.
use crate::ll::{mask, BinOp, Pred};
use std::collections::HashMap;

pub type Tm = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Trunc, Concat,
    Gcd, SAddO, SSubO, SMulO, UAddO, USubO, UMulO,
}

#[derive(Clone, Debug)]
pub struct Node { pub op: T, pub w: u32, pub a: Tm, pub b: Tm, pub c: Tm, pub k: u128, pub lo: i128, pub hi: i128, pub sup: u64, pub h: u64 }

#[derive(Default)]
pub struct Terms {
    pub n: Vec<Node>,
    map: HashMap<(T, u32, Tm, Tm, Tm, u128), Tm>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

pub fn smin(w: u32) -> i128 { if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) } }
pub fn smax(w: u32) -> i128 { if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 } }
pub fn sext(k: u128, w: u32) -> i128 { if w == 128 { k as i128 } else { ((k << (128 - w)) as i128) >> (128 - w) } }

fn mix(a: u64, b: u64) -> u64 { (a.rotate_left(5) ^ b).wrapping_mul(0x517cc1b727220a95) }

pub fn cbin(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BinOp::Add => a.wrapping_add(b) & m,
        BinOp::Sub => a.wrapping_sub(b) & m,
        BinOp::Mul => a.wrapping_mul(b) & m,
        BinOp::UDiv => { if b == 0 { return None } a / b }
        BinOp::URem => { if b == 0 { return None } a % b }
        BinOp::SDiv => { if b == 0 { return None } (sext(a, w).wrapping_div(sext(b, w))) as u128 & m }
        BinOp::SRem => { if b == 0 { return None } (sext(a, w).wrapping_rem(sext(b, w))) as u128 & m }
        BinOp::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128 & m,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    })
}
pub fn cicmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (sext(a, w), sext(b, w));
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b,
        Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
        Pred::Slt => x < y, Pred::Sle => x <= y, Pred::Sgt => x > y, Pred::Sge => x >= y,
    }
}
pub fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t } a as i128 }

impl Terms {
    pub fn new() -> Self { let mut t = Self::default(); t.raw(T::Sym, 1, 0, 0, 0, 63, 0, 1); t }
    fn raw(&mut self, op: T, w: u32, a: Tm, b: Tm, c: Tm, k: u128, lo: i128, hi: i128) -> Tm {
        if let Some(t) = self.map.get(&(op, w, a, b, c, k)) { return *t }
        let (mut sup, mut h) = (0u64, mix(op as u64 + 17, w as u64));
        let ar = match op { T::Const | T::Sym => 0, T::ZExt | T::SExt | T::Trunc => 1, T::Ite => 3, _ => 2 };
        if ar > 0 { sup |= self.n[a as usize].sup; h = mix(h, self.n[a as usize].h) }
        if ar > 1 { sup |= self.n[b as usize].sup; h = mix(h, self.n[b as usize].h) }
        if ar > 2 { sup |= self.n[c as usize].sup; h = mix(h, self.n[c as usize].h) }
        h = mix(mix(h, k as u64), (k >> 64) as u64);
        if op == T::Sym { sup = 1 << (k as u64 & 63) }
        let (mut lo, mut hi) = (lo, hi);
        if w > 1 { lo = lo.max(smin(w)); hi = hi.min(smax(w)) }
        let (i, c0) = (self.n.len() as Tm, c);
        let (na, nb, c) = if op == T::Sym { (0, 0, 0) } else { (a, b, c) };
        let key = (op, w, a, b, c0, k);
        self.n.push(Node { op, w, a: na, b: nb, c, k, lo, hi, sup, h });
        self.memo.push((0, 0));
        self.map.insert(key, i);
        if op != T::Const && lo == hi && w > 1 { let k = lo as u128 & mask(w); return self.cst(w, k) }
        i
    }
    pub fn cst(&mut self, w: u32, k: u128) -> Tm {
        let k = k & mask(w);
        let s = if w == 1 { k as i128 } else { sext(k, w) };
        self.raw(T::Const, w, 0, 0, 0, k, s, s)
    }
    pub fn sym(&mut self, id: u32, w: u32, lo: i128, hi: i128) -> Tm {
        if lo == hi { return self.cst(w, lo as u128) }
        // the bounds are part of a symbol's identity
        let f = |x: i128| { let x = x as u128; mix(mix(1, x as u64), (x >> 64) as u64) };
        let (l, h) = (f(lo), f(hi));
        self.raw(T::Sym, w, l as u32, h as u32, ((l >> 32) ^ (h >> 29)) as u32, id as u128, lo, hi)
    }
    pub fn is_c(&self, t: Tm) -> Option<u128> { let n = &self.n[t as usize]; if n.op == T::Const { Some(n.k) } else { None } }
    pub fn w(&self, t: Tm) -> u32 { self.n[t as usize].w }
    pub fn iv(&self, t: Tm) -> (i128, i128) { let n = &self.n[t as usize]; (n.lo, n.hi) }
    pub fn tru(&mut self) -> Tm { self.cst(1, 1) }
    pub fn fls(&mut self) -> Tm { self.cst(1, 0) }
    fn op(&self, t: Tm) -> T { self.n[t as usize].op }
    fn order(&self, a: Tm, b: Tm) -> (Tm, Tm) {
        // constants last; otherwise by structural hash (thread independent)
        let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
        let (kx, ky) = ((x.op == T::Const, x.h), (y.op == T::Const, y.h));
        if kx <= ky { (a, b) } else { (b, a) }
    }
    fn fits(w: u32, lo: Option<i128>, hi: Option<i128>) -> Option<(i128, i128)> {
        match (lo, hi) { (Some(l), Some(h)) if l >= smin(w) && h <= smax(w) => Some((l, h)), _ => None }
    }
    /// does the term's value equal the exact mathematical result of its operator?
    pub fn exact(&self, t: Tm) -> bool {
        let n = &self.n[t as usize];
        if !matches!(n.op, T::Add | T::Sub | T::Mul) { return false }
        let (al, ah) = self.iv(n.a);
        let (bl, bh) = self.iv(n.b);
        match n.op {
            T::Add => Self::fits(n.w, al.checked_add(bl), ah.checked_add(bh)).is_some(),
            T::Sub => Self::fits(n.w, al.checked_sub(bh), ah.checked_sub(bl)).is_some(),
            T::Mul => mulrange(al, ah, bl, bh).map_or(false, |(l, h)| Self::fits(n.w, Some(l), Some(h)).is_some()),
            _ => false,
        }
    }
    pub fn not(&mut self, a: Tm) -> Tm { let o = self.cst(1, 1); self.bin(BinOp::Xor, 1, a, o) }
    pub fn and(&mut self, a: Tm, b: Tm) -> Tm { self.bin(BinOp::And, 1, a, b) }
    pub fn or(&mut self, a: Tm, b: Tm) -> Tm { self.bin(BinOp::Or, 1, a, b) }

    pub fn bin(&mut self, op: BinOp, w: u32, a: Tm, b: Tm) -> Tm {
        use BinOp::*;
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) { if let Some(r) = cbin(op, w, x, y) { return self.cst(w, r) } }
        if w == 1 {
            let (a, b) = self.order(a, b);
            let cb = self.is_c(b);
            return match op {
                And => { if a == b { return a } match cb { Some(0) => b, Some(_) => a, None => { if self.isnot(a, b) { return self.fls() } self.raw(T::And, 1, a, b, 0, 0, 0, 1) } } }
                Or => { if a == b { return a } match cb { Some(0) => a, Some(_) => b, None => { if self.isnot(a, b) { return self.tru() } self.raw(T::Or, 1, a, b, 0, 0, 0, 1) } } }
                Xor | Add | Sub => {
                    if a == b { return self.fls() }
                    if cb == Some(0) { return a }
                    if cb == Some(1) {
                        let n = self.n[a as usize].clone();
                        if n.op == T::Xor && self.is_c(n.b) == Some(1) { return n.a }
                        if n.op == T::Slt { return self.icmp(Pred::Sle, self.w(n.a), n.b, n.a) }
                        if n.op == T::Sle { return self.icmp(Pred::Slt, self.w(n.a), n.b, n.a) }
                        if n.op == T::Ult { return self.icmp(Pred::Ule, self.w(n.a), n.b, n.a) }
                        if n.op == T::Ule { return self.icmp(Pred::Ult, self.w(n.a), n.b, n.a) }
                    }
                    self.raw(T::Xor, 1, a, b, 0, 0, 0, 1)
                }
                Mul => self.bin(And, 1, a, b),
                _ => panic!("bool op {:?}", op),
            }
        }
        let full = (smin(w), smax(w));
        let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
        match op {
            Add => {
                let (a, b) = self.order(a, b);
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return a }
                    let n = self.n[a as usize].clone();
                    if n.op == T::Add { if let Some(k2) = self.is_c(n.b) { let s = self.cst(w, k.wrapping_add(k2)); return self.bin(Add, w, n.a, s) } }
                }
                // x + (0 - x)
                let nb = self.n[b as usize].clone();
                if nb.op == T::Sub && nb.b == a { return nb.a }
                let na = self.n[a as usize].clone();
                if na.op == T::Sub && na.b == b { return na.a }
                let r = Self::fits(w, al.checked_add(bl), ah.checked_add(bh)).unwrap_or(full);
                self.raw(T::Add, w, a, b, 0, 0, r.0, r.1)
            }
            Sub => {
                if a == b { return self.cst(w, 0) }
                if let Some(k) = self.is_c(b) { let n = self.cst(w, 0u128.wrapping_sub(k)); return self.bin(Add, w, a, n) }
                let na = self.n[a as usize].clone();
                if na.op == T::Add { if na.a == b { return na.b } if na.b == b { return na.a } }
                if self.is_c(a) == Some(0) { let nb = self.n[b as usize].clone(); if nb.op == T::Sub && self.is_c(nb.a) == Some(0) { return nb.b } }
                let r = Self::fits(w, al.checked_sub(bh), ah.checked_sub(bl)).unwrap_or(full);
                self.raw(T::Sub, w, a, b, 0, 0, r.0, r.1)
            }
            Mul => {
                let (a, b) = self.order(a, b);
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return b }
                    if k == 1 { return a }
                    if k == mask(w) { let z = self.cst(w, 0); return self.bin(Sub, w, z, a) }
                    let n = self.n[a as usize].clone();
                    if n.op == T::Mul { if let Some(k2) = self.is_c(n.b) { let s = self.cst(w, k.wrapping_mul(k2)); return self.bin(Mul, w, n.a, s) } }
                }
                let r = mulrange(al, ah, bl, bh).and_then(|(l, h)| Self::fits(w, Some(l), Some(h))).unwrap_or(full);
                self.raw(T::Mul, w, a, b, 0, 0, r.0, r.1)
            }
            UDiv => {
                if self.is_c(b) == Some(1) { return a }
                if al >= 0 && bl > 0 { return self.bin(SDiv, w, a, b) }
                self.raw(T::UDiv, w, a, b, 0, 0, full.0, full.1)
            }
            SDiv => {
                if self.is_c(b) == Some(1) { return a }
                if self.is_c(b) == Some(mask(w)) { let z = self.cst(w, 0); return self.bin(Sub, w, z, a) }
                if self.is_c(a) == Some(0) && (bl > 0 || bh < 0) { return a }
                if a == b && (bl > 0 || bh < 0) { return self.cst(w, 1) }
                let n = self.n[a as usize].clone();
                if n.op == T::Mul && self.exact(a) && (bl > 0 || bh < 0) { if n.b == b { return n.a } if n.a == b { return n.b } }
                if let (T::Mul, Some(k), Some(kb)) = (n.op, self.is_c(n.b), self.is_c(b)) {
                    let (k, kb) = (sext(k, w), sext(kb, w));
                    if self.exact(a) && kb != 0 && k % kb == 0 { let q = self.cst(w, (k / kb) as u128); return self.bin(Mul, w, n.a, q) }
                }
                let m = al.unsigned_abs().max(ah.unsigned_abs());
                let minb = if bl > 0 { bl.unsigned_abs() } else if bh < 0 { bh.unsigned_abs() } else { 1 };
                let m = (m / minb).min(i128::MAX as u128) as i128;
                let r = if bl > 0 { (if al >= 0 { al / bh } else { -m }, if ah <= 0 { ah / bh } else { m }) } else if al >= 0 && bl >= 0 { (0, m) } else { (-m, m) };
                if m > smax(w) { return self.raw(T::SDiv, w, a, b, 0, 0, full.0, full.1) }
                self.raw(T::SDiv, w, a, b, 0, 0, r.0, r.1)
            }
            URem => {
                if self.is_c(b) == Some(1) { return self.cst(w, 0) }
                if al >= 0 && bl > 0 { return self.bin(SRem, w, a, b) }
                if let Some(k) = self.is_c(b) { if k.is_power_of_two() { let m = self.cst(w, k - 1); return self.bin(And, w, a, m) } }
                self.raw(T::URem, w, a, b, 0, 0, full.0, full.1)
            }
            SRem => {
                if let Some(k) = self.is_c(b) { if k == 1 || k == mask(w) { return self.cst(w, 0) } }
                if self.is_c(a) == Some(0) && (bl > 0 || bh < 0) { return a }
                if a == b && (bl > 0 || bh < 0) { return self.cst(w, 0) }
                let mb = bl.unsigned_abs().max(bh.unsigned_abs()).saturating_sub(1).min(i128::MAX as u128) as i128;
                let minb = if bl > 0 { bl } else if bh < 0 { bh.saturating_neg() } else { 0 };
                if al >= 0 && ah < minb { return a }
                let n = self.n[a as usize].clone();
                if n.op == T::Mul && self.exact(a) && (bl > 0 || bh < 0) && (n.b == b || n.a == b) { return self.cst(w, 0) }
                if let (T::Mul, Some(k), Some(kb)) = (n.op, self.is_c(n.b), self.is_c(b)) {
                    if self.exact(a) && kb != 0 && sext(k, w) % sext(kb, w) == 0 { return self.cst(w, 0) }
                }
                let (lo, hi) = (if al >= 0 { 0 } else { (-mb).max(al) }, if ah <= 0 { 0 } else { mb.min(ah) });
                self.raw(T::SRem, w, a, b, 0, 0, lo, hi)
            }
            Shl => {
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return a }
                    if k >= w as u128 { return self.cst(w, 0) }
                    let m = self.cst(w, 1u128 << k);
                    return self.bin(Mul, w, a, m)
                }
                self.raw(T::Shl, w, a, b, 0, 0, full.0, full.1)
            }
            LShr => {
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return a }
                    if k >= w as u128 { return self.cst(w, 0) }
                    if al >= 0 { return self.bin(AShr, w, a, b) }
                    let n = self.n[a as usize].clone();
                    if n.op == T::Concat { let wl = self.w(n.b); if k == wl as u128 { return self.zext(n.a, w) } }
                    if n.op == T::LShr { if let Some(k2) = self.is_c(n.b) { let s = self.cst(w, k + k2); return self.bin(LShr, w, n.a, s) } }
                    let hi = if w == 128 { (u128::MAX >> k) as i128 } else { (mask(w) >> k) as i128 };
                    return self.raw(T::LShr, w, a, b, 0, 0, 0, hi)
                }
                self.raw(T::LShr, w, a, b, 0, 0, full.0, full.1)
            }
            AShr => {
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return a }
                    let k = k.min(w as u128 - 1) as u32;
                    let kk = self.cst(w, k as u128);
                    return self.raw(T::AShr, w, a, kk, 0, 0, al >> k, ah >> k)
                }
                self.raw(T::AShr, w, a, b, 0, 0, al.min(0), ah.max(0))
            }
            And => {
                if a == b { return a }
                let (a, b) = self.order(a, b);
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return b }
                    if k == mask(w) { return a }
                    let (al, ah) = self.iv(a);
                    if (k + 1).is_power_of_two() && al >= 0 && ah as u128 <= k { return a }
                    let hi = if sext(k, w) >= 0 { sext(k, w) } else { full.1 };
                    let lo = if sext(k, w) >= 0 || al >= 0 { 0 } else { full.0 };
                    return self.raw(T::And, w, a, b, 0, 0, lo, if al >= 0 { hi.min(ah) } else { hi })
                }
                let r = if al >= 0 && bl >= 0 { (0, ah.min(bh)) } else if al >= 0 { (0, ah) } else if bl >= 0 { (0, bh) } else { full };
                self.raw(T::And, w, a, b, 0, 0, r.0, r.1)
            }
            Or | Xor => {
                if a == b { return if op == Or { a } else { self.cst(w, 0) } }
                let (a, b) = self.order(a, b);
                if let Some(k) = self.is_c(b) {
                    if k == 0 { return a }
                    if k == mask(w) { if op == Or { return b } else { let m1 = self.cst(w, mask(w)); return self.bin(Sub, w, m1, a) } }
                }
                let bits = |x: i128| 128 - if x < 0 { !x } else { x }.leading_zeros();
                let nb = bits(al).max(bits(ah)).max(bits(bl)).max(bits(bh));
                let top = if nb >= 127 { i128::MAX } else { (1i128 << nb) - 1 };
                let r = if al >= 0 && bl >= 0 { (0, top) } else { (-top - 1, top) };
                self.raw(if op == Or { T::Or } else { T::Xor }, w, a, b, 0, 0, r.0, r.1)
            }
        }
    }
    fn isnot(&self, a: Tm, b: Tm) -> bool {
        let (x, y) = (&self.n[a as usize], &self.n[b as usize]);
        (x.op == T::Xor && x.a == b && self.is_c(x.b) == Some(1)) || (y.op == T::Xor && y.a == a && self.is_c(y.b) == Some(1))
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: Tm, b: Tm) -> Tm {
        use Pred::*;
        match p {
            Ne => { let e = self.icmp(Eq, w, a, b); return self.not(e) }
            Ugt => return self.icmp(Ult, w, b, a),
            Uge => return self.icmp(Ule, w, b, a),
            Sgt => return self.icmp(Slt, w, b, a),
            Sge => return self.icmp(Sle, w, b, a),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) { let r = cicmp(p, w, x, y); return self.cst(1, r as u128) }
        if a == b { return self.cst(1, matches!(p, Eq | Ule | Sle) as u128) }
        if w == 1 {
            return match p {
                Eq => { let x = self.bin(BinOp::Xor, 1, a, b); self.not(x) }
                Ult => { let na = self.not(a); self.and(na, b) }
                Ule => { let na = self.not(a); self.or(na, b) }
                Slt => { let nb = self.not(b); self.and(nb, a) }
                _ => { let nb = self.not(b); self.or(nb, a) }
            }
        }
        let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
        // comparisons of an ite over constants
        for (x, y, sw) in [(a, b, false), (b, a, true)] {
            let n = self.n[x as usize].clone();
            if n.op == T::Ite {
                if let Some(ky) = self.is_c(y) {
                    if self.is_c(n.b).is_some() || self.is_c(n.c).is_some() {
                        let yk = self.cst(w, ky);
                        let t = if sw { self.icmp(p, w, yk, n.b) } else { self.icmp(p, w, n.b, yk) };
                        let e = if sw { self.icmp(p, w, yk, n.c) } else { self.icmp(p, w, n.c, yk) };
                        return self.ite(n.a, t, e)
                    }
                }
            }
        }
        match p {
            Eq => {
                if ah < bl || bh < al { return self.fls() }
                let (a, b) = self.order(a, b);
                if let Some(k) = self.is_c(b) {
                    let n = self.n[a as usize].clone();
                    match n.op {
                        T::Add => if let Some(k2) = self.is_c(n.b) { let s = self.cst(w, k.wrapping_sub(k2)); return self.icmp(Eq, w, n.a, s) },
                        T::Sub => if let Some(k2) = self.is_c(n.a) { let s = self.cst(w, k2.wrapping_sub(k)); return self.icmp(Eq, w, n.b, s) } else if k == 0 { return self.icmp(Eq, w, n.a, n.b) },
                        T::Mul => if let Some(k2) = self.is_c(n.b) {
                            if self.exact(a) && k2 != 0 {
                                let (ks, k2s) = (sext(k, w), sext(k2, w));
                                if ks % k2s != 0 { return self.fls() }
                                let q = self.cst(w, (ks / k2s) as u128);
                                return self.icmp(Eq, w, n.a, q)
                            }
                        } else if k == 0 && self.exact(a) { let z = self.cst(w, 0); let x = self.icmp(Eq, w, n.a, z); let y = self.icmp(Eq, w, n.b, z); return self.or(x, y) },
                        T::ZExt => {
                            let wi = self.w(n.a);
                            if k > mask(wi) { return self.fls() }
                            if wi == 1 { return if k == 1 { n.a } else { self.not(n.a) } }
                            let kk = self.cst(wi, k);
                            return self.icmp(Eq, wi, n.a, kk)
                        }
                        T::SExt => {
                            let wi = self.w(n.a);
                            if wi == 1 { return if k == mask(w) { n.a } else if k == 0 { self.not(n.a) } else { self.fls() } }
                            let kk = self.cst(wi, k);
                            if sext(k & mask(wi), wi) != sext(k, w) { return self.fls() }
                            return self.icmp(Eq, wi, n.a, kk)
                        }
                        T::And => if let Some(m) = self.is_c(n.b) { if k & !m != 0 { return self.fls() } },
                        _ => {}
                    }
                }
                // same-offset / same-extension on both sides
                let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
                if na.op == nb.op && (na.op == T::ZExt || na.op == T::SExt) && self.w(na.a) == self.w(nb.a) { let wi = self.w(na.a); return self.icmp(Eq, wi, na.a, nb.a) }
                if na.op == T::Add && nb.op == T::Add { if na.b == nb.b { return self.icmp(Eq, w, na.a, nb.a) } if na.a == nb.a { return self.icmp(Eq, w, na.b, nb.b) } }
                self.raw(T::Eq, 1, a, b, 0, 0, 0, 1)
            }
            Slt => { if ah < bl { return self.tru() } if al >= bh { return self.fls() } self.raw(T::Slt, 1, a, b, 0, 0, 0, 1) }
            Sle => { if ah <= bl { return self.tru() } if al > bh { return self.fls() } self.raw(T::Sle, 1, a, b, 0, 0, 0, 1) }
            Ult | Ule => {
                if al >= 0 && bl >= 0 { return self.icmp(if p == Ult { Slt } else { Sle }, w, a, b) }
                if ah < 0 && bh < 0 { return self.icmp(if p == Ult { Slt } else { Sle }, w, a, b) }
                if al >= 0 && bh < 0 { return self.tru() }
                if ah < 0 && bl >= 0 { return self.fls() }
                if p == Ult && self.is_c(b) == Some(1) { let z = self.cst(w, 0); return self.icmp(Eq, w, a, z) }
                // x u< k with k a nonneg constant:  0 <= x && x < k
                if bl >= 0 { let z = self.cst(w, 0); let x = self.icmp(Sle, w, z, a); let y = self.icmp(if p == Ult { Slt } else { Sle }, w, a, b); return self.and(x, y) }
                if al >= 0 { let z = self.cst(w, 0); let x = self.icmp(Slt, w, b, z); let y = self.icmp(if p == Ult { Slt } else { Sle }, w, a, b); return self.or(x, y) }
                self.raw(if p == Ult { T::Ult } else { T::Ule }, 1, a, b, 0, 0, 0, 1)
            }
            _ => unreachable!(),
        }
    }
    pub fn ite(&mut self, c: Tm, a: Tm, b: Tm) -> Tm {
        if let Some(k) = self.is_c(c) { return if k == 1 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.is_c(a), self.is_c(b));
            return match (ca, cb) {
                (Some(1), Some(_)) => c,
                (Some(_), Some(_)) => self.not(c),
                (Some(1), None) => self.or(c, b),
                (Some(_), None) => { let nc = self.not(c); self.and(nc, b) }
                (None, Some(0)) => self.and(c, a),
                (None, Some(_)) => { let nc = self.not(c); self.or(nc, a) }
                _ => self.raw(T::Ite, 1, c, a, b, 0, 0, 1),
            }
        }
        let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
        self.raw(T::Ite, w, c, a, b, 0, al.min(bl), ah.max(bh))
    }
    pub fn zext(&mut self, a: Tm, w: u32) -> Tm {
        let n = self.n[a as usize].clone();
        if n.w == w { return a }
        if let Some(k) = self.is_c(a) { return self.cst(w, k) }
        if n.op == T::ZExt { return self.zext(n.a, w) }
        if n.op == T::Ite && self.is_c(n.b).is_some() && self.is_c(n.c).is_some() { let x = self.zext(n.b, w); let y = self.zext(n.c, w); return self.ite(n.a, x, y) }
        let r = if n.w == 1 { (0, 1) } else if n.lo >= 0 { (n.lo, n.hi) } else { (0, mask(n.w) as i128) };
        if n.w > 1 && n.lo >= 0 { return self.sext(a, w) }
        self.raw(T::ZExt, w, a, 0, 0, 0, r.0, r.1)
    }
    pub fn sext(&mut self, a: Tm, w: u32) -> Tm {
        let n = self.n[a as usize].clone();
        if n.w == w { return a }
        if let Some(k) = self.is_c(a) { let s = if n.w == 1 { -(k as i128) } else { sext(k, n.w) }; return self.cst(w, s as u128) }
        if n.op == T::SExt { return self.sext(n.a, w) }
        if n.op == T::ZExt { return self.zext(n.a, w) }
        if n.op == T::Ite && self.is_c(n.b).is_some() && self.is_c(n.c).is_some() { let x = self.sext(n.b, w); let y = self.sext(n.c, w); return self.ite(n.a, x, y) }
        // sext(trunc(x)) = x when x fits
        if n.op == T::Trunc { let (l, h) = self.iv(n.a); if l >= smin(n.w) && h <= smax(n.w) && n.w > 1 { let wa = self.w(n.a); return if wa == w { n.a } else if wa < w { self.sext(n.a, w) } else { self.trunc(n.a, w) } } }
        let r = if n.w == 1 { (-1, 0) } else { (n.lo, n.hi) };
        // push exact arithmetic outwards so that sums are recognised at the wider width
        if matches!(n.op, T::Add | T::Sub | T::Mul) && self.exact(a) {
            let x = self.sext(n.a, w); let y = self.sext(n.b, w);
            return self.bin(match n.op { T::Add => BinOp::Add, T::Sub => BinOp::Sub, _ => BinOp::Mul }, w, x, y)
        }
        self.raw(T::SExt, w, a, 0, 0, 0, r.0, r.1)
    }
    pub fn trunc(&mut self, a: Tm, w: u32) -> Tm {
        let n = self.n[a as usize].clone();
        if n.w == w { return a }
        if let Some(k) = self.is_c(a) { return self.cst(w, k) }
        match n.op {
            T::ZExt | T::SExt => {
                let wi = self.w(n.a);
                return if wi == w { n.a } else if wi > w { self.trunc(n.a, w) } else if n.op == T::ZExt { self.zext(n.a, w) } else { self.sext(n.a, w) }
            }
            T::Trunc => return self.trunc(n.a, w),
            T::Concat => { let wl = self.w(n.b); if w <= wl { return self.trunc(n.b, w) } }
            T::Ite if self.is_c(n.b).is_some() && self.is_c(n.c).is_some() => { let x = self.trunc(n.b, w); let y = self.trunc(n.c, w); return self.ite(n.a, x, y) }
            T::Add | T::Sub | T::Mul if w > 1 => {
                let x = self.trunc(n.a, w); let y = self.trunc(n.b, w);
                return self.bin(match n.op { T::Add => BinOp::Add, T::Sub => BinOp::Sub, _ => BinOp::Mul }, w, x, y)
            }
            T::And if w == 1 => if let Some(k) = self.is_c(n.b) { if k & 1 == 1 { return self.trunc(n.a, 1) } else { return self.fls() } },
            _ => {}
        }
        if w == 1 { return self.raw(T::Trunc, 1, a, 0, 0, 0, 0, 1) }
        let r = if n.lo >= smin(w) && n.hi <= smax(w) { (n.lo, n.hi) } else { (smin(w), smax(w)) };
        self.raw(T::Trunc, w, a, 0, 0, 0, r.0, r.1)
    }
    /// bits [off, off+w) of a
    pub fn extract(&mut self, a: Tm, off: u32, w: u32) -> Tm {
        let wa = self.w(a);
        if wa == 1 { let z = self.zext(a, 8); return self.extract(z, off, w) }
        let n = self.n[a as usize].clone();
        if n.op == T::Concat {
            let wl = self.w(n.b);
            if off >= wl { return self.extract(n.a, off - wl, w) }
            if off + w <= wl { return self.extract(n.b, off, w) }
        }
        if off == 0 { return self.trunc(a, w) }
        let k = self.cst(wa, off as u128);
        let s = self.bin(BinOp::LShr, wa, a, k);
        self.trunc(s, w)
    }
    fn as_extract(&self, t: Tm) -> (Tm, u32) {
        let n = &self.n[t as usize];
        if n.op == T::Trunc {
            let m = &self.n[n.a as usize];
            if m.op == T::LShr || m.op == T::AShr { if let Some(k) = self.is_c(m.b) { return (m.a, k as u32) } }
            return (n.a, 0)
        }
        (t, 0)
    }
    pub fn concat(&mut self, hi: Tm, lo: Tm) -> Tm {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        if let Some(k) = self.is_c(hi) { if k == 0 { return self.zext(lo, w) } }
        if let (Some(a), Some(b)) = (self.is_c(hi), self.is_c(lo)) { return self.cst(w, a << wl | b) }
        let ((x, ox), (y, oy)) = (self.as_extract(hi), self.as_extract(lo));
        if x == y && ox == oy + wl && x != hi { return self.extract(x, oy, w) }
        self.raw(T::Concat, w, hi, lo, 0, 0, smin(w), smax(w))
    }
    pub fn neg(&mut self, a: Tm) -> Tm { let w = self.w(a); let z = self.cst(w, 0); self.bin(BinOp::Sub, w, z, a) }
    pub fn abs(&mut self, a: Tm) -> Tm {
        let w = self.w(a);
        let (l, h) = self.iv(a);
        if l >= 0 { return a }
        if h <= 0 { return self.neg(a) }
        let z = self.cst(w, 0);
        let c = self.icmp(Pred::Slt, w, a, z);
        let n = self.neg(a);
        if l == smin(w) { return self.ite(c, n, a) }
        let m = l.unsigned_abs().max(h.unsigned_abs()) as i128;
        self.raw(T::Ite, w, c, n, a, 0, 0, m)
    }
    pub fn gcd(&mut self, a: Tm, b: Tm) -> Tm {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_c(a), self.is_c(b)) { return self.cst(w, gcd(sext(x, w), sext(y, w)) as u128) }
        for (x, y) in [(a, b), (b, a)] { match self.is_c(x) { Some(1) => return x, Some(k) if k == mask(w) => return self.cst(w, 1), Some(0) => return self.abs(y), _ => {} } }
        if a == b { return self.abs(a) }
        let (a, b) = self.order(a, b);
        let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
        let (ma, mb) = (al.unsigned_abs().max(ah.unsigned_abs()), bl.unsigned_abs().max(bh.unsigned_abs()));
        let (za, zb) = (al <= 0 && ah >= 0, bl <= 0 && bh >= 0);
        let hi = if !za && !zb { ma.min(mb) } else if !za { ma } else if !zb { mb } else { ma.max(mb) };
        self.raw(T::Gcd, w, a, b, 0, 0, if za && zb { 0 } else { 1 }, hi.min(i128::MAX as u128) as i128)
    }
    pub fn ovf(&mut self, op: T, a: Tm, b: Tm) -> Tm {
        let w = self.w(a);
        let ((al, ah), (bl, bh)) = (self.iv(a), self.iv(b));
        let ok = match op {
            T::SAddO => Self::fits(w, al.checked_add(bl), ah.checked_add(bh)).is_some(),
            T::SSubO => Self::fits(w, al.checked_sub(bh), ah.checked_sub(bl)).is_some(),
            T::SMulO => mulrange(al, ah, bl, bh).map_or(false, |(l, h)| Self::fits(w, Some(l), Some(h)).is_some()),
            T::UAddO => al >= 0 && bl >= 0 && Self::fits(w, Some(0), ah.checked_add(bh)).is_some(),
            T::USubO => { return self.icmp(Pred::Ult, w, a, b) }
            T::UMulO => al >= 0 && bl >= 0 && mulrange(al, ah, bl, bh).map_or(false, |(l, h)| Self::fits(w, Some(l), Some(h)).is_some()),
            _ => unreachable!(),
        };
        if ok { return self.fls() }
        self.raw(op, 1, a, b, 0, 0, 0, 1)
    }
    pub fn new_eval(&mut self) { self.stamp += 1 }
    /// value under a model; call new_eval() when the model changes
    pub fn eval(&mut self, t: Tm, m: &[i128]) -> u128 {
        let (st, v) = self.memo[t as usize];
        if st == self.stamp { return v }
        let n = self.n[t as usize].clone();
        let w = n.w;
        let v = match n.op {
            T::Const => n.k,
            T::Sym => m.get(n.k as usize).copied().unwrap_or(n.lo.max(0).min(n.hi)) as u128 & mask(w),
            T::Ite => { if self.eval(n.a, m) == 1 { self.eval(n.b, m) } else { self.eval(n.c, m) } }
            T::ZExt => self.eval(n.a, m),
            T::SExt => { let x = self.eval(n.a, m); let wa = self.w(n.a); (if wa == 1 { -(x as i128) } else { sext(x, wa) }) as u128 & mask(w) }
            T::Trunc => self.eval(n.a, m) & mask(w),
            T::Concat => { let x = self.eval(n.a, m); let y = self.eval(n.b, m); let wl = self.w(n.b); x << wl | y }
            _ => {
                let (x, y) = (self.eval(n.a, m), self.eval(n.b, m));
                let wa = self.w(n.a);
                let (sx, sy) = if wa > 1 { (sext(x, wa), sext(y, wa)) } else { (x as i128, y as i128) };
                let b = |o| cbin(o, w, x, y).unwrap_or(0);
                match n.op {
                    T::Add => b(BinOp::Add), T::Sub => b(BinOp::Sub), T::Mul => b(BinOp::Mul), T::UDiv => b(BinOp::UDiv), T::SDiv => b(BinOp::SDiv),
                    T::URem => b(BinOp::URem), T::SRem => b(BinOp::SRem), T::Shl => b(BinOp::Shl), T::LShr => b(BinOp::LShr), T::AShr => b(BinOp::AShr),
                    T::And => x & y, T::Or => x | y, T::Xor => x ^ y,
                    T::Eq => (x == y) as u128, T::Ult => (x < y) as u128, T::Ule => (x <= y) as u128, T::Slt => (sx < sy) as u128, T::Sle => (sx <= sy) as u128,
                    T::Gcd => gcd(sx, sy) as u128,
                    T::SAddO => Self::fits(wa, sx.checked_add(sy), sx.checked_add(sy)).is_none() as u128,
                    T::SSubO => Self::fits(wa, sx.checked_sub(sy), sx.checked_sub(sy)).is_none() as u128,
                    T::SMulO => Self::fits(wa, sx.checked_mul(sy), sx.checked_mul(sy)).is_none() as u128,
                    T::UAddO => x.checked_add(y).map_or(true, |r| r > mask(wa)) as u128,
                    T::USubO => (x < y) as u128,
                    T::UMulO => x.checked_mul(y).map_or(true, |r| r > mask(wa)) as u128,
                    _ => unreachable!(),
                }
            }
        };
        self.memo[t as usize] = (self.stamp, v);
        v
    }
    pub fn show(&self, t: Tm, d: u32) -> String {
        let n = &self.n[t as usize];
        if d == 0 { return "..".into() }
        match n.op {
            T::Const => if n.w == 1 { format!("{}", n.k) } else { format!("{}", sext(n.k, n.w)) },
            T::Sym => format!("s{}", n.k),
            T::ZExt | T::SExt | T::Trunc => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            T::Ite => format!("ite({}, {}, {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

pub fn mulrange(al: i128, ah: i128, bl: i128, bh: i128) -> Option<(i128, i128)> {
    let v = [al.checked_mul(bl)?, al.checked_mul(bh)?, ah.checked_mul(bl)?, ah.checked_mul(bh)?];
    Some((*v.iter().min().unwrap(), *v.iter().max().unwrap()))
}
