//! Symbolic executor over the bytecode.
use crate::alg::*;
use crate::ll::*;
use crate::term::*;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { I(u128), T(Tm), F(f64), FT(Rc<(Tm, Tm)>), Agg(Rc<Vec<V>>), U }

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub cells: Option<Box<BTreeMap<u32, (u32, V)>>> }

const CH: usize = 64;
#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>, free: Vec<u32>, next: u32 }
impl Mem {
    pub fn new() -> Self { Mem { chunks: vec![], free: vec![], next: 1 } }
    fn alloc(&mut self, size: u64) -> u64 {
        let id = self.free.pop().unwrap_or_else(|| { self.next += 1; self.next - 1 });
        let (c, i) = (id as usize / CH, id as usize % CH);
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])) }
        Rc::make_mut(&mut self.chunks[c])[i] = Some(Rc::new(Obj { data: vec![0; size as usize], cells: None }));
        (id as u64) << 32
    }
    fn get(&self, id: u64) -> Option<&Obj> { self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_deref() }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> { let ch = Rc::make_mut(self.chunks.get_mut(id as usize / CH)?); Some(Rc::make_mut(ch[id as usize % CH].as_mut()?)) }
    fn release(&mut self, id: u64) -> bool {
        let c = id as usize / CH;
        if c >= self.chunks.len() || self.chunks[c][id as usize % CH].is_none() { return false }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = None;
        self.free.push(id as u32);
        true
    }
}

#[derive(Clone)]
struct Frame { func: u32, pc: u32, base: u32, obj: u64, ret: R, next: u32 }

#[derive(Clone, Debug)]
pub enum Inp { S(Tm), C(u32), K(i128) }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<V>,
    mem: Mem,
    pc: Vec<Tm>,
    model: Rc<Vec<i128>>,
    model_ok: bool,
    log: Vec<u128>,
    /// decisions of the current instruction still to be replayed
    replay: Vec<u128>,
    rpos: usize,
    cur: Vec<u128>,
    choose_from: u32,
    prefix: Rc<Vec<u128>>,
    ppos: usize,
    alg: Rc<Alg>,
    syms: Vec<Tm>,
    pub inputs: Vec<Inp>,
    pub notes: Rc<Vec<String>>,
    steps: u64,
    forks: u32,
}

#[derive(Clone)]
pub struct Cfg { pub max_steps: u64, pub max_depth: usize, pub tier: u32, pub trace: bool }

#[derive(Default, Clone)]
pub struct PathStats { pub paths: u64, pub done: u64, pub assumed: u64, pub infeasible: u64, pub asserts: u64, pub asserts_sym: u64, pub decisions: u64, pub steps: u64 }

#[derive(Clone, Debug)]
pub struct Finding { pub kind: String, pub label: String, pub inputs: Vec<i128>, pub notes: Vec<String> }

pub struct Exec {
    pub m: Arc<Module>,
    pub ts: Terms,
    pub solver: Solver,
    pub st: State,
    pub stack: Vec<State>,
    pub cfg: Cfg,
    pub stats: PathStats,
    base_mem: Mem,
    natives: Arc<Vec<Native>>,
    pub covered: Vec<bool>,
    pub splits: HashMap<(u32, u32), u64>,
    pub unknowns: u64,
    evaltag: Option<*const Vec<i128>>,
    pub deadline: Option<Instant>,
    /// concrete inputs: run one path with these values
    pub concrete: Option<Vec<i128>>,
    cpos: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Native {
    None, Panic, PanicFmt, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Strlen, Zero, Abort, Write, Gcd, GetRandom, Unmodelled, Memcpy, Memset, KeyCreate,
    SxInt, SxChoose, SxAssume, SxAssert, SxNote, SxConc, SxIsSym, SxTier, SxVerbose,
    RrInt, RrVar, RrPi, RrUndef, RrAdd, RrMul, RrDiv, RrNeg, RrPow, RrFn, RrDiff, RrIsUndef, RrIsZero, RrEq,
}

pub fn natives(m: &Module) -> Vec<Native> {
    m.funcs.iter().map(|f| {
        let n = f.name.as_str();
        match n {
            "sx_int" => Native::SxInt, "sx_choose" => Native::SxChoose, "sx_assume" => Native::SxAssume, "sx_assert" => Native::SxAssert, "sx_note" => Native::SxNote, "sx_conc" => Native::SxConc, "sx_is_sym" => Native::SxIsSym, "sx_tier" => Native::SxTier, "sx_verbose" => Native::SxVerbose,
            "rr_int" => Native::RrInt, "rr_var" => Native::RrVar, "rr_pi" => Native::RrPi, "rr_undef" => Native::RrUndef, "rr_add" => Native::RrAdd, "rr_mul" => Native::RrMul, "rr_div" => Native::RrDiv,
            "rr_neg" => Native::RrNeg, "rr_pow" => Native::RrPow, "rr_fn" => Native::RrFn, "rr_diff" => Native::RrDiff, "rr_is_undef" => Native::RrIsUndef, "rr_is_zero" => Native::RrIsZero, "rr_eq" => Native::RrEq,
            "malloc" => Native::Malloc, "calloc" => Native::Calloc, "realloc" => Native::Realloc, "free" => Native::Free, "posix_memalign" => Native::Memalign,
            "memcmp" | "bcmp" => Native::Memcmp, "strlen" => Native::Strlen, "memcpy" | "memmove" => Native::Memcpy, "memset" => Native::Memset,
            "abort" => Native::Abort, "exit" | "_exit" => Native::Abort,
            "write" | "writev" => Native::Write, "getrandom" => Native::GetRandom,
            "__cxa_thread_atexit_impl" | "getenv" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "pthread_mutex_lock" | "pthread_mutex_unlock" => Native::Zero,
            "pthread_key_create" => Native::KeyCreate,
            _ if n.contains("11num_integer") && n.contains("7Integer3gcd") && n.contains("_RNvX") && n.contains("n") && f.dem.contains("i128") => Native::Gcd,
            _ if n.contains("9panicking9panic_fmt") => Native::PanicFmt,
            _ if n.contains("9panicking") && n.contains("core") && (f.dem.contains("panicking::")) && !f.dem.contains("panic_count") => Native::Panic,
            _ if f.dem.contains("unwrap_failed") || f.dem.contains("expect_failed") || f.dem.contains("slice_index_fail") || f.dem.contains("slice_error_fail") || f.dem.contains("handle_alloc_error") || f.dem.contains("capacity_overflow") || f.dem.contains("std::panicking::begin_panic") || f.dem.contains("rust_panic") || f.dem.contains("panic_on_ord_violation") || f.dem.contains("::panic_already_") || f.dem.contains("copy_from_slice_impl::len_mismatch_fail") => Native::Panic,
            _ if f.dem.contains("hashmap_random_keys") => Native::GetRandom,
            _ if !f.defined => Native::Unmodelled,
            _ => Native::None,
        }
    }).collect()
}

fn ldc(c: &CV) -> V { match c { CV::I(x) => V::I(*x), CV::F(x) => V::F(*x), CV::U => V::U, CV::Agg(v) => V::Agg(Rc::new(v.iter().map(ldc).collect())) } }

type X<T> = Result<T, Stop>;
fn end<T>(o: Outcome) -> X<T> { Err(Stop::End(o)) }

impl Cx for Exec {
    fn ts(&mut self) -> &mut Terms { &mut self.ts }
    fn branch(&mut self, c: Tm) -> X<bool> { self.branch_t(c) }
    fn conc(&mut self, t: Tm) -> X<i128> { let w = self.ts.w(t); let v = self.conc_t(t)?; Ok(sext(v, w)) }
}

impl Exec {
    pub fn new(m: Arc<Module>, natives: Arc<Vec<Native>>, cfg: Cfg) -> Self {
        let mut mem = Mem::new();
        for g in &m.globals { let a = mem.alloc(g.size); let o = mem.get_mut(a >> 32).unwrap(); o.data.copy_from_slice(&g.data) }
        let n = m.funcs.len();
        Exec { m, ts: Terms::new(), solver: Solver::new(), st: State { frames: vec![], regs: vec![], mem: mem.clone(), pc: vec![], model: Rc::new(vec![]), model_ok: true, log: vec![], replay: vec![], rpos: 0, cur: vec![], choose_from: 0, prefix: Rc::new(vec![]), ppos: 0, alg: Rc::new(Alg::default()), syms: vec![], inputs: vec![], notes: Rc::new(vec![]), steps: 0, forks: 0 }, stack: vec![], cfg, stats: Default::default(), base_mem: mem, natives, covered: vec![false; n], splits: HashMap::new(), unknowns: 0, evaltag: None, deadline: None, concrete: None, cpos: 0 }
    }
    /// forget terms and solver state between jobs when they have grown large
    pub fn trim(&mut self) {
        if self.ts.n.len() > 400_000 {
            self.ts = Terms::new();
            let st = self.solver.stats.clone();
            let to = self.solver.timeout_ms;
            self.solver = Solver::new();
            self.solver.set_strong_timeout(to);
            self.solver.stats = st;
        }
    }
    pub fn start(&mut self, func: u32, prefix: Vec<u128>, choose_from: u32) {
        let f = &self.m.funcs[func as usize];
        let mut mem = self.base_mem.clone();
        let obj = if f.frame > 0 { mem.alloc(f.frame) } else { 0 };
        let fresh = prefix.is_empty() && choose_from == 0;
        self.st = State { frames: vec![Frame { func, pc: 0, base: 0, obj, ret: NOREG, next: 0 }], regs: vec![V::U; f.nregs as usize], mem, pc: vec![], model: Rc::new(vec![]), model_ok: fresh, log: vec![], replay: vec![], rpos: 0, cur: vec![], choose_from, prefix: Rc::new(prefix), ppos: 0, alg: Rc::new(Alg::default()), syms: vec![], inputs: vec![], notes: Rc::new(vec![]), steps: 0, forks: 0 };
        self.covered[func as usize] = true;
    }
    /// decisions (and first value of a pending choice) that lead to a stacked state
    pub fn prefix_of(s: &State) -> (Vec<u128>, u32) { let mut v = s.log.clone(); v.extend(&s.replay); (v, s.choose_from) }

    // ---- decisions -------------------------------------------------------
    fn eval(&mut self, t: Tm) -> u128 {
        let p = Rc::as_ptr(&self.st.model);
        if self.evaltag != Some(p) { self.ts.new_eval(); self.evaltag = Some(p) }
        let m = self.st.model.clone();
        self.ts.eval(t, &m)
    }
    fn set_model(&mut self, m: Vec<i128>) { self.st.model = Rc::new(m); self.ts.new_eval(); self.evaltag = Some(Rc::as_ptr(&self.st.model)) }
    /// forced decision from a re-executed instruction or a donated prefix; (value, already-in-pc)
    fn forced(&mut self) -> Option<(u128, bool)> {
        if self.st.rpos < self.st.replay.len() { self.st.rpos += 1; return Some((self.st.replay[self.st.rpos - 1], true)) }
        if self.st.ppos < self.st.prefix.len() { self.st.ppos += 1; return Some((self.st.prefix[self.st.ppos - 1], false)) }
        None
    }
    fn slice(&self, mask0: u64) -> Vec<Tm> {
        let mut mask = mask0;
        let mut used = vec![false; self.st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, t) in self.st.pc.iter().enumerate() {
                if !used[i] { let s = self.ts.n[*t as usize].sup; if s & mask != 0 { used[i] = true; mask |= s; out.push(*t); ch = true } }
            }
            if !ch { return out }
        }
    }
    fn add_pc(&mut self, t: Tm) { if self.ts.is_c(t).is_none() && !self.st.pc.contains(&t) { self.st.pc.push(t) } }
    fn ensure_model(&mut self) -> X<()> {
        if self.st.model_ok { return Ok(()) }
        let pc = self.st.pc.clone();
        let syms = self.st.syms.clone();
        let mut m: Vec<i128> = syms.iter().map(|t| { let (l, h) = self.ts.iv(*t); 0i128.max(l).min(h) }).collect();
        if !pc.is_empty() {
            match self.solver.check(&self.ts, &pc, &syms) {
                Res::Sat(v) => for (i, x) in v { m[i as usize] = x },
                Res::Unsat => return end(Outcome::Infeasible),
                Res::Unknown => { self.unknowns += 1; return end(Outcome::Incomplete("solver timeout".into())) }
            }
        }
        self.set_model(m);
        self.st.model_ok = true;
        Ok(())
    }
    /// Is pc && c satisfiable? Returns a full model.
    fn query(&mut self, c: Tm) -> Option<Option<Vec<i128>>> {
        let mut q = self.slice(self.ts.n[c as usize].sup);
        q.push(c);
        let syms = self.st.syms.clone();
        match self.solver.check(&self.ts, &q, &syms) {
            Res::Unsat => Some(None),
            Res::Sat(v) => { let mut m = (*self.st.model).clone(); m.resize(syms.len(), 0); for (i, x) in v { m[i as usize] = x } Some(Some(m)) }
            Res::Unknown => { self.unknowns += 1; None }
        }
    }
    fn decide(&mut self, v: u128) { self.st.log.push(v); self.st.cur.push(v); self.stats.decisions += 1 }
    fn alt(&mut self, model: Option<Vec<i128>>) -> State {
        // state at the start of the current instruction
        let mut s = self.st.clone();
        s.replay = s.cur.clone();
        s.rpos = 0;
        s.cur = vec![];
        let k = s.replay.len();
        let nl = s.log.len() - k;
        s.log.truncate(nl);
        if let Some(m) = model { s.model = Rc::new(m) }
        s.forks += 1;
        let fr = self.st.frames.last().unwrap();
        *self.splits.entry((fr.func, fr.pc)).or_default() += 1;
        s
    }
    pub fn branch_t(&mut self, c: Tm) -> X<bool> {
        if let Some(k) = self.ts.is_c(c) { return Ok(k == 1) }
        if let Some((v, inpc)) = self.forced() {
            let b = v == 1;
            if !inpc { let t = if b { c } else { self.ts.not(c) }; self.add_pc(t) }
            self.decide(v);
            return Ok(b)
        }
        self.ensure_model()?;
        let b = self.eval(c) == 1;
        let nc = self.ts.not(c);
        let (this, other) = if b { (c, nc) } else { (nc, c) };
        if self.st.pc.contains(&this) { self.decide(b as u128); return Ok(b) }
        match self.query(other) {
            Some(None) => {}
            Some(Some(m)) => {
                let mut s = self.alt(Some(m));
                s.pc.push(other);
                s.replay.push(!b as u128);
                self.stack.push(s);
            }
            None => { self.stats.infeasible += 0; }
        }
        self.add_pc(this);
        self.decide(b as u128);
        Ok(b)
    }
    pub fn conc_t(&mut self, t: Tm) -> X<u128> {
        if let Some(k) = self.ts.is_c(t) { return Ok(k) }
        let w = self.ts.w(t);
        // decisions come in pairs: value, then 1 (taken) or 0 (excluded)
        while let Some((v, inpc)) = self.forced() {
            let (taken, _) = self.forced().unwrap();
            if !inpc {
                let k = self.ts.cst(w, v);
                let mut e = self.ts.icmp(Pred::Eq, w, t, k);
                if taken == 0 { e = self.ts.not(e) }
                self.add_pc(e)
            }
            self.decide(v);
            self.decide(taken);
            if taken == 1 { return Ok(v) }
        }
        self.ensure_model()?;
        let v = self.eval(t);
        let k = self.ts.cst(w, v);
        let e = self.ts.icmp(Pred::Eq, w, t, k);
        if !self.st.pc.contains(&e) {
            let ne = self.ts.not(e);
            if let Some(Some(m)) = self.query(ne) {
                if self.st.forks > 100_000 { return incomplete("too many values at a concretisation point") }
                let mut s = self.alt(Some(m));
                s.pc.push(ne);
                s.replay.push(v);
                s.replay.push(0);
                self.stack.push(s);
            }
        }
        self.add_pc(e);
        self.decide(v);
        self.decide(1);
        Ok(v)
    }
    fn choose(&mut self, n: u32) -> X<u32> {
        if n == 0 { return end(Outcome::Assume) }
        if let Some((v, _)) = self.forced() { self.decide(v); return Ok(v as u32) }
        let i = self.st.choose_from;
        self.st.choose_from = 0;
        if i + 1 < n { let mut s = self.alt(None); s.choose_from = i + 1; self.stack.push(s) }
        self.decide(i as u128);
        Ok(i)
    }

    // ---- values ----------------------------------------------------------
    #[inline]
    fn val(&self, o: O) -> V {
        if o.0 & CBIT != 0 { ldc(&self.m.consts[(o.0 & !CBIT) as usize]) } else { let b = self.st.frames.last().unwrap().base; self.st.regs[(b + o.0) as usize].clone() }
    }
    #[inline]
    fn set(&mut self, r: R, v: V) { if r != NOREG { let b = self.st.frames.last().unwrap().base; self.st.regs[(b + r) as usize] = v } }
    fn tm(&mut self, v: &V, w: u32) -> X<Tm> {
        Ok(match v {
            V::I(k) => self.ts.cst(w, *k),
            V::T(t) => { debug_assert!(self.ts.w(*t) == w); *t }
            V::U => self.ts.cst(w, 0),
            V::F(f) => self.ts.cst(w, f.to_bits() as u128),
            V::FT(ft) => { let f = self.concf(ft.clone())?; self.ts.cst(w, f.to_bits() as u128) }
            V::Agg(_) => return incomplete("aggregate used as integer"),
        })
    }
    fn mk(&self, t: Tm) -> V { match self.ts.is_c(t) { Some(k) => V::I(k), None => V::T(t) } }
    fn concf(&mut self, ft: Rc<(Tm, Tm)>) -> X<f64> {
        let (a, b) = (self.conc_t(ft.0)?, self.conc_t(ft.1)?);
        Ok(a as i128 as f64 / b as i128 as f64)
    }
    /// concrete integer, forking over the values when symbolic
    fn int(&mut self, v: &V) -> X<u128> {
        Ok(match v { V::I(k) => *k, V::T(t) => self.conc_t(*t)?, V::U => 0, V::F(f) => f.to_bits() as u128, V::FT(f) => self.concf(f.clone())?.to_bits() as u128, V::Agg(_) => return incomplete("aggregate used as integer") })
    }

    // ---- memory ----------------------------------------------------------
    fn bad<T>(&self, a: u64, n: u64) -> X<T> { end(Outcome::Panic(format!("invalid memory access at {:#x} size {} in {}", a, n, self.where_()))) }
    fn where_(&self) -> String { self.st.frames.iter().rev().take(3).map(|f| self.m.funcs[f.func as usize].dem.clone()).collect::<Vec<_>>().join(" <- ") }
    fn load(&mut self, a: u64, n: u64) -> X<V> {
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        let o = match self.st.mem.get(id) { Some(o) => o, None => return self.bad(a, n) };
        let n = n as usize;
        if off + n > o.data.len() { return self.bad(a, n as u64) }
        if n > 16 { return incomplete("load of more than 16 bytes") }
        if let Some(c) = &o.cells {
            if let Some((sz, v)) = c.get(&(off as u32)) { if *sz as usize == n { return Ok(v.clone()) } }
            let lo = off.saturating_sub(15) as u32;
            let ov: Vec<(u32, u32, V)> = c.range(lo..(off + n) as u32).filter(|(k, (s, _))| (**k + s) as usize > off).map(|(k, (s, v))| (*k, *s, v.clone())).collect();
            if !ov.is_empty() {
                let data: Vec<u8> = o.data[off..off + n].to_vec();
                // assemble from the top byte down
                let mut parts: Vec<Tm> = vec![];
                let mut i = 0usize;
                while i < n {
                    let p = (off + i) as u32;
                    if let Some((k, s, v)) = ov.iter().find(|(k, s, _)| *k <= p && p < k + s) {
                        let take = ((k + s - p) as usize).min(n - i);
                        let t = self.tm(v, s * 8)?;
                        parts.push(self.ts.extract(t, (p - k) * 8, take as u32 * 8));
                        i += take;
                    } else { let t = self.ts.cst(8, data[i] as u128); parts.push(t); i += 1 }
                }
                let mut r = parts.pop().unwrap();
                while let Some(p) = parts.pop() { r = self.ts.concat(r, p) }
                return Ok(self.mk(r))
            }
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(V::I(u128::from_le_bytes(b)))
    }
    fn clear_cells(&mut self, id: u64, off: u32, n: u32) -> X<()> {
        let o = self.st.mem.get(id).unwrap();
        let c = match &o.cells { Some(c) => c, None => return Ok(()) };
        let lo = off.saturating_sub(15);
        let ov: Vec<(u32, u32, V)> = c.range(lo..off + n).filter(|(k, (s, _))| **k + s > off).map(|(k, (s, v))| (*k, *s, v.clone())).collect();
        if ov.is_empty() { return Ok(()) }
        let mut add = vec![];
        for (k, s, v) in &ov {
            if *k >= off && k + s <= off + n { continue }
            let t = self.tm(v, s * 8)?;
            for b in 0..*s { let p = k + b; if p < off || p >= off + n { let e = self.ts.extract(t, b * 8, 8); add.push((p, e)) } }
        }
        let add: Vec<(u32, V, Option<u8>)> = add.into_iter().map(|(p, e)| (p, self.mk(e), self.ts.is_c(e).map(|x| x as u8))).collect();
        let o = self.st.mem.get_mut(id).unwrap();
        let c = o.cells.as_mut().unwrap();
        for (k, ..) in ov { c.remove(&k); }
        for (p, v, k) in add { if let Some(k) = k { o.data[p as usize] = k } else { c.insert(p, (1, v)); } }
        if c.is_empty() { o.cells = None }
        Ok(())
    }
    fn store(&mut self, a: u64, n: u64, v: V) -> X<()> {
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        let n = n as usize;
        let has = match self.st.mem.get(id) { Some(o) => { if off + n > o.data.len() { return self.bad(a, n as u64) } o.cells.is_some() } None => return self.bad(a, n as u64) };
        if has { self.clear_cells(id, off as u32, n as u32)? }
        let o = self.st.mem.get_mut(id).unwrap();
        match v {
            V::I(k) => o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]),
            V::F(f) => o.data[off..off + n].copy_from_slice(&f.to_bits().to_le_bytes()[..n]),
            V::U => {}
            V::T(_) | V::FT(_) => { o.cells.get_or_insert_with(Default::default).insert(off as u32, (n as u32, v)); }
            V::Agg(_) => return incomplete("store of aggregate"),
        }
        Ok(())
    }
    fn load_ty(&mut self, a: u64, ty: &Ty) -> X<V> {
        Ok(match ty {
            Ty::F64 => match self.load(a, 8)? { V::I(k) => V::F(f64::from_bits(k as u64)), V::T(t) => V::F(f64::from_bits(self.conc_t(t)? as u64)), v => v },
            Ty::F32 => match self.load(a, 4)? { V::I(k) => V::F(f32::from_bits(k as u32) as f64), _ => return incomplete("f32") },
            Ty::Int(w) => {
                let n = ty.size();
                let v = self.load(a, n)?;
                if *w as u64 == n * 8 { match v { V::F(f) => V::I(f.to_bits() as u128), v => v } } else { match v { V::I(k) => V::I(k & mask(*w)), V::T(t) => { let t = self.ts.trunc(t, *w); self.mk(t) } v => v } }
            }
            Ty::Ptr => self.load(a, 8)?,
            Ty::Vect(n, e) if matches!(**e, Ty::Int(w) if w % 8 != 0) => {
                let w = intw(e); let k = match self.load(a, ty.size())? { V::I(k) => k, V::U => 0, _ => return incomplete("load of packed vector") };
                V::Agg(Rc::new((0..*n).map(|i| V::I(k >> (i * w) & mask(w))).collect()))
            }
            Ty::Vect(n, e) => { let es = e.size(); let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load_ty(a + i * es, e)?) } V::Agg(Rc::new(v)) }
            Ty::Struct(_, f) => { let (offs, _) = ty.fields(); let mut v = vec![]; for (i, t) in f.iter().enumerate() { v.push(self.load_ty(a + offs[i], t)?) } V::Agg(Rc::new(v)) }
            Ty::Arr(n, e) => { let es = e.size(); let mut v = vec![]; for i in 0..*n { v.push(self.load_ty(a + i * es, e)?) } V::Agg(Rc::new(v)) }
            _ => return incomplete("load type"),
        })
    }
    fn store_ty(&mut self, a: u64, ty: &Ty, v: V) -> X<()> {
        match ty {
            Ty::Int(w) => {
                let n = ty.size();
                let v = if *w as u64 != n * 8 { match v { V::T(t) => { let t = self.ts.zext(t, n as u32 * 8); self.mk(t) } v => v } } else { v };
                self.store(a, n, v)
            }
            Ty::Ptr | Ty::F64 => self.store(a, 8, v),
            Ty::F32 => match v { V::F(f) => self.store(a, 4, V::I((f as f32).to_bits() as u128)), _ => incomplete("f32") },
            Ty::Struct(_, f) => {
                let (offs, _) = ty.fields();
                match v { V::Agg(x) => { for (i, t) in f.iter().enumerate() { self.store_ty(a + offs[i], t, x[i].clone())? } Ok(()) } V::U => Ok(()), V::I(0) => { for (i, t) in f.iter().enumerate() { self.store_ty(a + offs[i], t, V::I(0))? } Ok(()) } _ => incomplete("store struct") }
            }
            // elements that are not whole bytes are packed
            Ty::Vect(_, e) if matches!(**e, Ty::Int(w) if w % 8 != 0) => {
                let w = intw(e);
                match v { V::Agg(x) => { let mut k = 0u128; for (i, y) in x.iter().enumerate() { k |= self.int(y)? << (i as u32 * w) } self.store(a, ty.size(), V::I(k)) } V::U => Ok(()), _ => incomplete("store vector") }
            }
            Ty::Vect(_, e) | Ty::Arr(_, e) => {
                let es = e.size();
                match v { V::Agg(x) => { for (i, y) in x.iter().enumerate() { self.store_ty(a + i as u64 * es, e, y.clone())? } Ok(()) } V::U => Ok(()), _ => incomplete("store vector") }
            }
            _ => incomplete("store type"),
        }
    }
    fn memcpy(&mut self, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()) }
        let (si, so) = (s >> 32, (s & 0xffff_ffff) as usize);
        let (di, dof) = (d >> 32, (d & 0xffff_ffff) as usize);
        let nn = n as usize;
        let (data, cells) = match self.st.mem.get(si) {
            Some(o) if so + nn <= o.data.len() => {
                let cells: Vec<(u32, u32, V)> = match &o.cells { None => vec![], Some(c) => c.range((so.saturating_sub(15)) as u32..(so + nn) as u32).filter(|(k, (z, _))| (**k + z) as usize > so).map(|(k, (z, v))| (*k, *z, v.clone())).collect() };
                (o.data[so..so + nn].to_vec(), cells)
            }
            _ => return self.bad(s, n),
        };
        match self.st.mem.get(di) { Some(o) if dof + nn <= o.data.len() => if o.cells.is_some() { self.clear_cells(di, dof as u32, n as u32)? }, _ => return self.bad(d, n) }
        let mut out: Vec<(u32, u32, V)> = vec![];
        let mut data = data;
        for (k, z, v) in cells {
            if k as usize >= so && (k + z) as usize <= so + nn { out.push((k - so as u32, z, v)) } else {
                let t = self.tm(&v, z * 8)?;
                for b in 0..z { let p = (k + b) as usize; if p >= so && p < so + nn { let e = self.ts.extract(t, b * 8, 8); match self.ts.is_c(e) { Some(x) => data[p - so] = x as u8, None => out.push(((p - so) as u32, 1, V::T(e))) } } }
            }
        }
        let o = self.st.mem.get_mut(di).unwrap();
        o.data[dof..dof + nn].copy_from_slice(&data);
        if !out.is_empty() { let c = o.cells.get_or_insert_with(Default::default); for (k, z, v) in out { c.insert(k + dof as u32, (z, v)); } }
        Ok(())
    }
    fn bytes(&mut self, a: u64, n: u64) -> X<Vec<u8>> {
        if n == 0 { return Ok(vec![]) }
        let (id, off) = (a >> 32, (a & 0xffff_ffff) as usize);
        let sym = match self.st.mem.get(id) { Some(o) if off + n as usize <= o.data.len() => o.cells.is_some(), _ => return self.bad(a, n) };
        if !sym { let o = self.st.mem.get(id).unwrap(); return Ok(o.data[off..off + n as usize].to_vec()) }
        let mut v = vec![];
        for i in 0..n { let x = self.load(a + i, 1)?; v.push(self.int(&x)? as u8) }
        Ok(v)
    }

    // ---- control ---------------------------------------------------------
    fn goto(&mut self, e: &Edge) {
        if !e.copies.is_empty() {
            if e.copies.len() == 1 { let v = self.val(e.copies[0].1); self.set(e.copies[0].0, v) }
            else { let vs: Vec<V> = e.copies.iter().map(|c| self.val(c.1)).collect(); for (c, v) in e.copies.iter().zip(vs) { self.set(c.0, v) } }
        }
        self.st.frames.last_mut().unwrap().pc = e.to;
    }
    /// Runs the current state to its end.
    pub fn run(&mut self) -> Outcome {
        self.evaltag = None;
        let m = self.m.clone();
        loop {
            self.st.steps += 1;
            if self.st.steps > self.cfg.max_steps { return Outcome::Limit("instruction limit (possible non-termination)".into()) }
            if self.st.steps & 0xffff == 0 { if let Some(d) = self.deadline { if Instant::now() > d { return Outcome::Incomplete("time budget".into()) } } }
            let fr = self.st.frames.last().unwrap();
            let op = &m.funcs[fr.func as usize].code[fr.pc as usize];
            if self.cfg.trace { eprintln!("{}:{} {:?}", m.funcs[fr.func as usize].name, fr.pc, op) }
            match self.step(&m, op) {
                Ok(true) => {}
                Ok(false) => return Outcome::Done,
                Err(Stop::End(o)) => return o,
            }
            if !self.st.cur.is_empty() { self.st.cur.clear() }
            if !self.st.replay.is_empty() { self.st.replay.clear(); self.st.rpos = 0 }
        }
    }
    #[inline]
    fn adv(&mut self) { self.st.frames.last_mut().unwrap().pc += 1 }

    fn step(&mut self, m: &Arc<Module>, op: &Op) -> X<bool> {
        match op {
            Op::Bin { op, w, d, a, b } => {
                let r = if *w > 128 { self.wbin(*op, *w, self.val(*a), self.val(*b))? } else { self.bin(*op, *w, self.val(*a), self.val(*b))? };
                self.set(*d, r);
                self.adv();
            }
            Op::Icmp { w, .. } if *w > 128 => return incomplete("comparison of more than 128 bits"),
            Op::Icmp { p, w, d, a, b } => { let r = self.icmp(*p, *w, self.val(*a), self.val(*b))?; self.set(*d, r); self.adv() }
            Op::VBin { op, w, d, a, b } => {
                if let (V::Agg(x), V::Agg(y)) = (self.val(*a), self.val(*b)) { let mut v = vec![]; for i in 0..x.len() { v.push(self.bin(*op, *w, x[i].clone(), y[i].clone())?) } self.set(*d, V::Agg(Rc::new(v))); self.adv() } else { return incomplete("vector op") }
            }
            Op::VIcmp { p, w, d, a, b } => {
                if let (V::Agg(x), V::Agg(y)) = (self.val(*a), self.val(*b)) { let mut v = vec![]; for i in 0..x.len() { v.push(self.icmp(*p, *w, x[i].clone(), y[i].clone())?) } self.set(*d, V::Agg(Rc::new(v))); self.adv() } else { return incomplete("vector op") }
            }
            Op::Load { d, ty, p } => { let a = self.val(*p); let a = self.int(&a)? as u64; let v = self.load_ty(a, ty)?; self.set(*d, v); self.adv() }
            Op::Store { ty, v, p } => { let a = self.val(*p); let a = self.int(&a)? as u64; let v = self.val(*v); self.store_ty(a, ty, v)?; self.adv() }
            Op::Alloca { d, off } => { let a = self.st.frames.last().unwrap().obj + off; self.set(*d, V::I(a as u128)); self.adv() }
            Op::Gep { d, base, off, idx } => {
                let b = self.val(*base);
                let mut addr = self.int(&b)? as u64;
                addr = addr.wrapping_add(*off as u64);
                for (o, sc, w) in idx { let v = self.val(*o); let k = sext(self.int(&v)?, *w) as i64; addr = addr.wrapping_add(k.wrapping_mul(*sc) as u64) }
                self.set(*d, V::I(addr as u128));
                self.adv();
            }
            Op::Trunc { d, a, from, to } if *from > 128 => {
                let (l, h) = self.wide(*a)?;
                let r = if *to > 128 { V::Agg(Rc::new(vec![V::I(l), V::I(h & mask(*to - 128))])) } else { V::I(l & mask(*to)) };
                self.set(*d, r); self.adv()
            }
            Op::ZExt { d, a, to, .. } if *to > 128 => { let (l, h) = self.wide(*a)?; self.set(*d, V::Agg(Rc::new(vec![V::I(l), V::I(h)]))); self.adv() }
            Op::SExt { to, .. } if *to > 128 => return incomplete("sign extension beyond 128 bits"),
            Op::Trunc { d, a, to, .. } => { let r = match self.val(*a) { V::I(k) => V::I(k & mask(*to)), V::T(t) => { let t = self.ts.trunc(t, *to); self.mk(t) } V::U => V::U, v => { let k = self.int(&v)?; V::I(k & mask(*to)) } }; self.set(*d, r); self.adv() }
            Op::ZExt { d, a, to, .. } => { let r = match self.val(*a) { V::T(t) => { let t = self.ts.zext(t, *to); self.mk(t) } V::U => V::I(0), v => v }; self.set(*d, r); self.adv() }
            Op::SExt { d, a, from, to } => { let r = match self.val(*a) { V::I(k) => V::I((if *from == 1 { -(k as i128) } else { sext(k, *from) }) as u128 & mask(*to)), V::T(t) => { let t = self.ts.sext(t, *to); self.mk(t) } V::U => V::I(0), v => v }; self.set(*d, r); self.adv() }
            Op::Copy { d, a } => { let v = match self.val(*a) { V::U => V::I(0), v => v }; self.set(*d, v); self.adv() }
            Op::Select { d, c, a, b, w } => {
                let r = match self.val(*c) {
                    V::I(k) => self.val(if k & 1 == 1 { *a } else { *b }),
                    V::U => self.val(*b),
                    V::T(t) => {
                        let (x, y) = (self.val(*a), self.val(*b));
                        let plain = |v: &V| matches!(v, V::I(_) | V::T(_) | V::U);
                        // pointers are never merged
                        if *w > 0 && plain(&x) && plain(&y) && !(*w == 64 && matches!((&x, &y), (V::I(p), V::I(q)) if (*p >> 32 != 0 || *q >> 32 != 0))) { let (x, y) = (self.tm(&x, *w)?, self.tm(&y, *w)?); let r = self.ts.ite(t, x, y); self.mk(r) }
                        else if self.branch_t(t)? { x } else { y }
                    }
                    _ => return incomplete("select"),
                };
                self.set(*d, r);
                self.adv();
            }
            Op::Br(e) => self.goto(e),
            Op::CondBr { c, t, f } => {
                let b = match self.val(*c) { V::I(k) => k & 1 == 1, V::U => false, V::T(x) => self.branch_t(x)?, _ => return incomplete("branch") };
                self.goto(if b { t } else { f });
            }
            Op::Switch { w, v, cases, def } => {
                let v = self.val(*v);
                match v {
                    V::T(t) => {
                        for (k, e) in cases { let kk = self.ts.cst(*w, *k); let c = self.ts.icmp(Pred::Eq, *w, t, kk); if self.branch_t(c)? { self.goto(e); return Ok(true) } }
                        self.goto(def);
                    }
                    v => { let x = self.int(&v)?; let e = cases.iter().find(|(k, _)| *k == x).map(|c| &c.1).unwrap_or(def); self.goto(e) }
                }
            }
            Op::Ret(o) => { let v = self.val(*o); return self.ret(v) }
            Op::RetVoid => return self.ret(V::U),
            Op::Call { d, f, args, next, ret } => {
                match f {
                    Callee::Intr(k, w, name) => {
                        let r = self.intr(*k, *w, name, args, ret)?;
                        self.set(*d, r);
                        match next { Some(e) => self.goto(e), None => self.adv() }
                    }
                    Callee::Fn(fi) => return self.call(m, *fi, *d, args, next),
                    Callee::Ind(o) => {
                        let a = self.val(*o);
                        let a = self.int(&a)? as u64;
                        if a >> 32 < FN_OBJ || (a >> 32) - FN_OBJ >= m.funcs.len() as u64 { return end(Outcome::Panic(format!("call of invalid pointer {:#x} in {}", a, self.where_()))) }
                        return self.call(m, ((a >> 32) - FN_OBJ) as u32, *d, args, next)
                    }
                }
            }
            Op::ExtractValue { d, a, idx } => {
                let mut v = self.val(*a);
                for i in idx { v = match v { V::Agg(x) => x[*i as usize].clone(), V::U => V::U, V::I(0) => V::I(0), _ => return incomplete("extractvalue") } }
                self.set(*d, v);
                self.adv();
            }
            Op::InsertValue { d, a, v, idx, ty } => {
                let x = self.val(*a);
                let nv = self.val(*v);
                let r = insert(x, idx, nv, ty);
                self.set(*d, r);
                self.adv();
            }
            Op::ExtractElem { d, a, i } => { let i = self.val(*i); let i = self.int(&i)? as usize; let r = match self.val(*a) { V::Agg(x) => x[i].clone(), _ => V::U }; self.set(*d, r); self.adv() }
            Op::InsertElem { d, a, v, i, n } => {
                let i = self.val(*i);
                let i = self.int(&i)? as usize;
                let mut x = match self.val(*a) { V::Agg(x) => (*x).clone(), _ => vec![V::U; *n as usize] };
                x[i] = self.val(*v);
                self.set(*d, V::Agg(Rc::new(x)));
                self.adv();
            }
            Op::Shuffle { d, a, b, mask, n } => {
                let get = |v: V| match v { V::Agg(x) => (*x).clone(), _ => vec![V::U; *n as usize] };
                let mut x = get(self.val(*a));
                x.extend(get(self.val(*b)));
                let r = mask.iter().map(|i| x[*i as usize].clone()).collect();
                self.set(*d, V::Agg(Rc::new(r)));
                self.adv();
            }
            Op::BitcastVI { d, a, ew } => {
                let v = match self.val(*a) { V::Agg(x) => x, V::U => { self.set(*d, V::I(0)); self.adv(); return Ok(true) } _ => return incomplete("bitcast") };
                let mut k = 0u128;
                for (i, e) in v.iter().enumerate() { let b = self.int(e)?; k |= b << (i as u32 * ew) }
                self.set(*d, V::I(k));
                self.adv();
            }
            Op::BitcastF { d, a, to_float } => {
                let v = self.val(*a);
                let r = if *to_float { match v { V::F(f) => V::F(f), V::FT(f) => V::FT(f), v => V::F(f64::from_bits(self.int(&v)? as u64)) } } else { match v { V::F(f) => V::I(f.to_bits() as u128), v => V::I(self.int(&v)?) } };
                self.set(*d, r);
                self.adv();
            }
            Op::IToF { d, a, from, signed } => {
                let r = match self.val(*a) {
                    V::I(k) => V::F(if *signed { sext(k, *from) as f64 } else { k as f64 }),
                    V::T(t) => { let t = if *signed { self.ts.sext(t, 128) } else { self.ts.zext(t, 128) }; let o = self.ts.cst(128, 1); V::FT(Rc::new((t, o))) }
                    _ => V::F(0.0),
                };
                self.set(*d, r);
                self.adv();
            }
            Op::FToI { d, a, to, signed } => {
                let f = match self.val(*a) { V::F(f) => f, V::FT(x) => self.concf(x)?, _ => return incomplete("ftoi") };
                self.set(*d, V::I(if *signed { f as i128 as u128 } else { f as u128 } & mask(*to)));
                self.adv();
            }
            Op::FNeg { d, a } => { let f = match self.val(*a) { V::F(f) => f, V::FT(x) => self.concf(x)?, _ => return incomplete("fneg") }; self.set(*d, V::F(-f)); self.adv() }
            Op::FBin { op, d, a, b } => {
                let (x, y) = (self.val(*a), self.val(*b));
                let r = match (&x, &y) {
                    (V::FT(p), V::FT(q)) if *op == b'd' && self.ts.is_c(p.1) == Some(1) && self.ts.is_c(q.1) == Some(1) => V::FT(Rc::new((p.0, q.0))),
                    (V::FT(p), V::F(q)) if *op == b'd' && self.ts.is_c(p.1) == Some(1) && q.fract() == 0.0 && q.abs() < 1e15 && *q > 0.0 => { let k = self.ts.cst(128, *q as i128 as u128); V::FT(Rc::new((p.0, k))) }
                    (V::F(q), V::FT(p)) if *op == b'd' && self.ts.is_c(p.1) == Some(1) && q.fract() == 0.0 && q.abs() < 1e15 => { let k = self.ts.cst(128, *q as i128 as u128); V::FT(Rc::new((k, p.0))) }
                    _ => {
                        let mut g = |v: &V| -> X<f64> { match v { V::F(f) => Ok(*f), V::FT(x) => self.concf(x.clone()), _ => incomplete("fbin") } };
                        let (x, y) = (g(&x)?, g(&y)?);
                        V::F(match op { b'a' => x + y, b's' => x - y, b'm' => x * y, b'd' => x / y, _ => x % y })
                    }
                };
                self.set(*d, r);
                self.adv();
            }
            Op::Fcmp { p, d, a, b } => { let r = self.fcmp(p, self.val(*a), self.val(*b))?; self.set(*d, r); self.adv() }
            Op::AtomicRmw { d, op, w, p, v } => {
                let a = self.val(*p);
                let a = self.int(&a)? as u64;
                let ty = Ty::Int(*w);
                let old = self.load_ty(a, &ty)?;
                let v = self.val(*v);
                let (x, y) = (self.int(&old)?, self.int(&v)?);
                let n = match op.as_str() { "xchg" => y, "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "and" => x & y, "or" => x | y, "xor" => x ^ y, _ => return incomplete("atomicrmw") } & mask(*w);
                self.store_ty(a, &ty, V::I(n))?;
                self.set(*d, old);
                self.adv();
            }
            Op::CmpXchg { d, w, p, c, n } => {
                let a = self.val(*p);
                let a = self.int(&a)? as u64;
                let ty = Ty::Int(*w);
                let old = self.load_ty(a, &ty)?;
                let x = self.int(&old)?;
                let c = self.val(*c);
                let ok = self.int(&c)? == x;
                if ok { let n = self.val(*n); self.store_ty(a, &ty, n)? }
                self.set(*d, V::Agg(Rc::new(vec![V::I(x), V::I(ok as u128)])));
                self.adv();
            }
            Op::Unreachable => return end(Outcome::Panic(format!("unreachable executed in {}", self.where_()))),
            Op::Nop => self.adv(),
            Op::Unsupported(s) => return end(Outcome::Incomplete(format!("unsupported instruction: {}", s))),
        }
        Ok(true)
    }
    #[inline]
    /// integers of 129 to 256 bits are pairs of concrete halves
    fn wide(&mut self, o: O) -> X<(u128, u128)> { let v = self.val(o); self.wval(v) }
    fn wval(&mut self, v: V) -> X<(u128, u128)> {
        if let V::Agg(x) = &v { if x.len() == 2 { return Ok((self.int(&x[0])?, self.int(&x[1])?)) } }
        Ok((self.int(&v)?, 0))
    }
    fn wbin(&mut self, op: BinOp, w: u32, a: V, b: V) -> X<V> {
        let ((al, ah), (bl, bh)) = (self.wval(a)?, self.wval(b)?);
        let (l, h) = match op {
            BinOp::Add => { let (l, c) = al.overflowing_add(bl); (l, ah.wrapping_add(bh).wrapping_add(c as u128)) }
            BinOp::Sub => { let (l, c) = al.overflowing_sub(bl); (l, ah.wrapping_sub(bh).wrapping_sub(c as u128)) }
            BinOp::And => (al & bl, ah & bh), BinOp::Or => (al | bl, ah | bh), BinOp::Xor => (al ^ bl, ah ^ bh),
            BinOp::Mul => {
                let m = u64::MAX as u128;
                let (a0, a1, b0, b1) = (al & m, al >> 64, bl & m, bl >> 64);
                let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
                let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
                let l = (p00 & m) | (mid << 64);
                let h = p11.wrapping_add(p01 >> 64).wrapping_add(p10 >> 64).wrapping_add(mid >> 64);
                (l, h.wrapping_add(al.wrapping_mul(bh)).wrapping_add(ah.wrapping_mul(bl)))
            }
            BinOp::LShr if bh == 0 && bl < w as u128 => { let k = bl as u32; if k == 0 { (al, ah) } else if k < 128 { (al >> k | ah << (128 - k), ah >> k) } else if k == 128 { (ah, 0) } else { (ah >> (k - 128), 0) } }
            BinOp::Shl if bh == 0 && bl < w as u128 => { let k = bl as u32; if k == 0 { (al, ah) } else if k < 128 { (al << k, ah << k | al >> (128 - k)) } else if k == 128 { (0, al) } else { (0, al << (k - 128)) } }
            _ => return incomplete("operation on more than 128 bits"),
        };
        Ok(V::Agg(Rc::new(vec![V::I(l), V::I(if w < 256 { h & mask(w - 128) } else { h })])))
    }
    fn bin(&mut self, op: BinOp, w: u32, a: V, b: V) -> X<V> {
        if let (V::I(x), V::I(y)) = (&a, &b) {
            return match cbin(op, w, *x, *y) { Some(r) => Ok(V::I(r)), None => end(Outcome::Panic("division by zero".into())) }
        }
        if matches!(a, V::U) && matches!(b, V::U) { return Ok(V::U) }
        let (x, y) = (self.tm(&a, w)?, self.tm(&b, w)?);
        // hashing-style mixing of symbolic data: fork over the values instead of building huge terms
        if w == 64 && matches!(op, BinOp::Xor) && self.ts.is_c(y).is_none() | self.ts.is_c(x).is_none() {
            let (p, q) = (self.ts.iv(x), self.ts.iv(y));
            if p == (smin(64), smax(64)) || q == (smin(64), smax(64)) { let (p, q) = (self.conc_t(x)?, self.conc_t(y)?); return Ok(V::I(p ^ q)) }
        }
        let t = self.ts.bin(op, w, x, y);
        Ok(self.mk(t))
    }
    #[inline]
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> X<V> {
        if let (V::I(x), V::I(y)) = (&a, &b) { return Ok(V::I(cicmp(p, w, *x, *y) as u128)) }
        let (x, y) = (self.tm(&a, w)?, self.tm(&b, w)?);
        let t = self.ts.icmp(p, w, x, y);
        Ok(self.mk(t))
    }
    fn fcmp(&mut self, p: &str, a: V, b: V) -> X<V> {
        use std::cmp::Ordering::*;
        if let (V::F(x), V::F(y)) = (&a, &b) {
            let o = x.partial_cmp(y);
            let r = match p {
                "false" => false, "true" => true, "ord" => o.is_some(), "uno" => o.is_none(),
                _ => { let (un, q) = (p.starts_with('u'), &p[1..]); match o { None => un, Some(o) => match q { "eq" => o == Equal, "ne" => o != Equal, "lt" => o == Less, "le" => o != Greater, "gt" => o == Greater, "ge" => o != Less, _ => return incomplete("fcmp") } } }
            };
            return Ok(V::I(r as u128))
        }
        match p { "ord" => { for v in [&a, &b] { if let V::F(f) = v { if f.is_nan() { return Ok(V::I(0)) } } } return Ok(V::I(1)) } "uno" => { for v in [&a, &b] { if let V::F(f) = v { if f.is_nan() { return Ok(V::I(1)) } } } return Ok(V::I(0)) } _ => {} }
        let q = &p[1..];
        let pr = match q { "eq" => Pred::Eq, "ne" => Pred::Ne, "lt" => Pred::Slt, "le" => Pred::Sle, "gt" => Pred::Sgt, "ge" => Pred::Sge, _ => return incomplete("fcmp") };
        // exact comparison of correctly rounded quotients of small integers
        let mag = |ts: &Terms, t: Tm| { let (l, h) = ts.iv(t); l.unsigned_abs().max(h.unsigned_abs()) };
        let pos = |ts: &Terms, t: Tm| ts.iv(t).0 > 0;
        match (&a, &b) {
            (V::FT(x), V::FT(y)) if pos(&self.ts, x.1) && pos(&self.ts, y.1) && mag(&self.ts, x.0).max(mag(&self.ts, x.1)) < 1 << 25 && mag(&self.ts, y.0).max(mag(&self.ts, y.1)) < 1 << 25 => {
                let l = self.ts.bin(BinOp::Mul, 128, x.0, y.1);
                let r = self.ts.bin(BinOp::Mul, 128, y.0, x.1);
                let t = self.ts.icmp(pr, 128, l, r);
                return Ok(self.mk(t))
            }
            (V::FT(x), V::F(c)) | (V::F(c), V::FT(x)) if pos(&self.ts, x.1) && mag(&self.ts, x.0).max(mag(&self.ts, x.1)) < 1 << 20 && c.is_finite() && c.abs() < 1e9 && (c.fract() == 0.0 || *c == std::f64::consts::PI || *c == std::f64::consts::E) => {
                let sh: u32 = if c.fract() == 0.0 { 0 } else { 51 };
                let k = (c * (1u64 << sh) as f64) as i128;
                let s = self.ts.cst(128, 1u128 << sh);
                let kk = self.ts.cst(128, k as u128);
                let l = self.ts.bin(BinOp::Mul, 128, x.0, s);
                let r = self.ts.bin(BinOp::Mul, 128, x.1, kk);
                let t = if matches!(a, V::FT(_)) { self.ts.icmp(pr, 128, l, r) } else { self.ts.icmp(pr, 128, r, l) };
                return Ok(self.mk(t))
            }
            _ => {}
        }
        let mut g = |v: &V| -> X<f64> { match v { V::F(f) => Ok(*f), V::FT(x) => self.concf(x.clone()), _ => incomplete("fcmp") } };
        let (x, y) = (g(&a)?, g(&b)?);
        self.fcmp(p, V::F(x), V::F(y))
    }
    fn ret(&mut self, v: V) -> X<bool> {
        let f = self.st.frames.pop().unwrap();
        if f.obj != 0 { self.st.mem.release(f.obj >> 32); }
        self.st.regs.truncate(f.base as usize);
        if self.st.frames.is_empty() { return Ok(false) }
        self.set(f.ret, v);
        self.after_call(f.next);
        Ok(true)
    }
    fn after_call(&mut self, next: u32) {
        if next == 0 { self.adv(); return }
        // invoke: take the normal edge of the calling instruction
        let fr = self.st.frames.last().unwrap();
        let m = self.m.clone();
        if let Op::Call { next: Some(e), .. } = &m.funcs[fr.func as usize].code[fr.pc as usize] { self.goto(e) }
    }
    fn call(&mut self, m: &Arc<Module>, fi: u32, d: R, args: &[O], next: &Option<Edge>) -> X<bool> {
        let nat = self.natives[fi as usize];
        if nat != Native::None {
            let vs: Vec<V> = args.iter().map(|a| self.val(*a)).collect();
            if let Some(r) = self.native(nat, fi, &vs)? {
                self.set(d, r);
                match next { Some(e) => self.goto(e), None => self.adv() }
                return Ok(true)
            }
        }
        let f = &m.funcs[fi as usize];
        if self.st.frames.len() > self.cfg.max_depth { return end(Outcome::Limit(format!("call depth {} (possible unbounded recursion) in {}", self.cfg.max_depth, self.where_()))) }
        let base = self.st.regs.len() as u32;
        let np = f.nparams as usize;
        for a in &args[..np.min(args.len())] { let v = self.val(*a); self.st.regs.push(v) }
        self.st.regs.resize(base as usize + f.nregs as usize, V::U);
        let obj = if f.frame > 0 { self.st.mem.alloc(f.frame) } else { 0 };
        self.covered[fi as usize] = true;
        self.st.frames.push(Frame { func: fi, pc: 0, base, obj, ret: d, next: next.is_some() as u32 });
        Ok(true)
    }
    fn panic_text(&mut self, fi: u32, a: &[V]) -> String {
        let mut s = self.m.funcs[fi as usize].dem.clone();
        // static message: (ptr, len*2+1)
        if a.len() >= 2 { if let (V::I(p), V::I(l)) = (&a[0], &a[1]) { if *l & 1 == 1 && *l < 4096 { if let Ok(b) = self.bytes(*p as u64, (*l >> 1) as u64) { s = String::from_utf8_lossy(&b).to_string() } } else if *l < 400 { if let Ok(b) = self.bytes(*p as u64, *l as u64) { s = String::from_utf8_lossy(&b).to_string() } } } }
        for v in a.iter().rev() {
            if let V::I(p) = v {
                let p = *p as u64;
                if let (Ok(V::I(f)), Ok(V::I(l)), Ok(V::I(line))) = (self.load(p, 8), self.load(p + 8, 8), self.load(p + 16, 4)) {
                    if l > 0 && l < 300 { if let Ok(b) = self.bytes(f as u64, l as u64) { if b.ends_with(b".rs") { return format!("{} at {}:{}", s, String::from_utf8_lossy(&b), line) } } }
                }
            }
        }
        format!("{} [{}]", s, self.where_())
    }
    fn h(&self, v: &V) -> X<H> { match v { V::I(k) => Ok(self.st.alg.hs[*k as usize].clone()), _ => incomplete("symbolic oracle handle") } }
    fn put(&mut self, h: H) -> V { let a = Rc::make_mut(&mut self.st.alg); a.hs.push(h); V::I(a.hs.len() as u128 - 1) }
    fn with_alg<T>(&mut self, f: impl FnOnce(&mut Alg, &mut Exec) -> X<T>) -> X<T> {
        let mut a = (*self.st.alg).clone();
        let r = f(&mut a, self)?;
        self.st.alg = Rc::new(a);
        Ok(r)
    }
    fn native(&mut self, n: Native, fi: u32, a: &[V]) -> X<Option<V>> {
        use Native as N;
        Ok(Some(match n {
            N::None => return Ok(None),
            N::Panic | N::PanicFmt => { let s = self.panic_text(fi, a); return end(Outcome::Panic(s)) }
            N::Abort => return end(Outcome::Panic(format!("abort/exit in {}", self.where_()))),
            N::Malloc => { let n = self.int(&a[0])? as u64; if n > 1 << 24 { return end(Outcome::Limit("huge allocation".into())) } V::I(self.st.mem.alloc(n.max(1)) as u128) }
            N::Calloc => { let n = (self.int(&a[0])? * self.int(&a[1])?) as u64; if n > 1 << 24 { return end(Outcome::Limit("huge allocation".into())) } V::I(self.st.mem.alloc(n.max(1)) as u128) }
            N::Memalign => { let n = self.int(&a[2])? as u64; let p = self.int(&a[0])? as u64; let x = self.st.mem.alloc(n.max(1)); self.store(p, 8, V::I(x as u128))?; V::I(0) }
            N::Realloc => {
                let p = self.int(&a[0])? as u64;
                let n = self.int(&a[1])? as u64;
                if n > 1 << 24 { return end(Outcome::Limit("huge allocation".into())) }
                if p == 0 { V::I(self.st.mem.alloc(n.max(1)) as u128) } else {
                    match self.st.mem.get_mut(p >> 32) { Some(o) => { if (n as usize) < o.data.len() { if let Some(c) = &mut o.cells { c.retain(|k, (s, _)| (*k + *s) as u64 <= n) } } o.data.resize(n as usize, 0) } None => return self.bad(p, n) }
                    V::I(p as u128)
                }
            }
            N::Free => { let p = self.int(&a[0])? as u64; if p != 0 && !self.st.mem.release(p >> 32) { return end(Outcome::Panic("invalid free".into())) } V::U }
            N::Memcmp => {
                let (p, q, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64);
                let (x, y) = (self.bytes(p, n)?, self.bytes(q, n)?);
                V::I((match x.cmp(&y) { std::cmp::Ordering::Less => -1i32, std::cmp::Ordering::Equal => 0, _ => 1 }) as u32 as u128)
            }
            N::Memcpy => { let (p, q, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64); self.memcpy(p, q, n)?; a[0].clone() }
            N::Memset => { let (p, k, n) = (self.int(&a[0])? as u64, self.int(&a[1])?, self.int(&a[2])? as u64); for i in 0..n { self.store(p + i, 1, V::I(k & 255))? } a[0].clone() }
            N::Strlen => { let p = self.int(&a[0])? as u64; let mut n = 0; loop { let v = self.load(p + n, 1)?; if self.int(&v)? == 0 { break } n += 1 } V::I(n as u128) }
            N::Zero => V::I(0),
            N::KeyCreate => { let p = self.int(&a[0])? as u64; self.store(p, 4, V::I(1))?; V::I(0) }
            N::Write => { let n = if a.len() > 2 { self.int(&a[2])? } else { 0 }; V::I(n) }
            N::GetRandom => {
                // HashMap keys: fixed
                if self.m.funcs[fi as usize].dem.contains("hashmap_random_keys") { V::Agg(Rc::new(vec![V::I(0x0123456789abcdef), V::I(0xfedcba9876543210)])) } else { let (p, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64); for i in 0..n { self.store(p + i, 1, V::I((i * 37 + 11) as u128 & 255))? } V::I(n as u128) }
            }
            N::Unmodelled => return end(Outcome::Incomplete(format!("unmodelled external function {}", self.m.funcs[fi as usize].name))),
            N::Gcd => {
                // arguments by pointer or by value
                if a.len() < 2 { return Ok(None) }
                let f = &self.m.funcs[fi as usize];
                let _ = f;
                let by_ref = self.gcd_by_ref(fi);
                let (x, y) = match by_ref { Some(true) => { let (p, q) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64); (self.load(p, 16)?, self.load(q, 16)?) } Some(false) => (a[0].clone(), a[1].clone()), None => return Ok(None) };
                if let (V::I(_), V::I(_)) = (&x, &y) { return Ok(None) }
                let (x, y) = (self.tm(&x, 128)?, self.tm(&y, 128)?);
                let g = self.ts.gcd(x, y);
                if let Some(k) = self.ts.is_c(g) { return Ok(Some(V::I(k))) }
                let (_, hi) = self.ts.iv(g);
                if hi > 2000 || self.ts.n[g as usize].op != T::Gcd { let (p, q) = (self.conc_t(x)?, self.conc_t(y)?); return Ok(Some(V::I(gcd(p as i128, q as i128) as u128))) }
                V::I(self.gcd_split(x, y, g)?)
            }
            N::SxInt => {
                let (lo, hi) = (self.int(&a[0])? as i128, self.int(&a[1])? as i128);
                if lo > hi { return end(Outcome::Assume) }
                if let Some(v) = self.next_concrete() { if v < lo || v > hi { return end(Outcome::Assume) } self.st.inputs.push(Inp::K(v)); return Ok(Some(V::I(v as u128))) }
                let id = self.st.syms.len() as u32;
                if id >= 64 { return incomplete("more than 64 symbolic inputs") }
                let t = self.ts.sym(id, 128, lo, hi);
                self.st.syms.push(t);
                self.st.inputs.push(Inp::S(t));
                let mut md = (*self.st.model).clone();
                md.resize(id as usize + 1, 0i128.max(lo).min(hi));
                self.set_model(md);
                self.mk(t)
            }
            N::SxChoose => { let n = self.int(&a[0])? as u32; if let Some(v) = self.next_concrete() { if v < 0 || v >= n as i128 { return end(Outcome::Assume) } self.st.inputs.push(Inp::K(v)); return Ok(Some(V::I(v as u128))) } let c = self.choose(n)?; self.st.inputs.push(Inp::C(c)); V::I(c as u128) }
            N::SxAssume => {
                let ok = match &a[0] { V::I(k) => *k == 1, V::T(t) => self.branch_t(*t)?, _ => false };
                if !ok { return end(Outcome::Assume) }
                V::U
            }
            N::SxAssert => {
                let (p, n) = (self.int(&a[1])? as u64, self.int(&a[2])? as u64);
                self.stats.asserts += 1;
                let ok = match &a[0] { V::I(k) => *k == 1, V::T(t) => { self.stats.asserts_sym += 1; self.branch_t(*t)? } _ => true };
                if !ok { let l = self.bytes(p, n)?; return end(Outcome::Violation(String::from_utf8_lossy(&l).to_string())) }
                V::U
            }
            N::SxNote => { let (p, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64); let l = self.bytes(p, n)?; Rc::make_mut(&mut self.st.notes).push(String::from_utf8_lossy(&l).to_string()); V::U }
            N::SxConc => match &a[0] { V::T(t) => V::I(self.conc_t(*t)?), v => v.clone() },
            N::SxTier => V::I(self.cfg.tier as u128),
            N::SxVerbose => V::I(self.concrete.is_some() as u128),
            N::SxIsSym => V::I(matches!(a[0], V::T(_)) as u128),
            N::RrInt => { let t = self.tm(&a[0], 128)?; let r = self.with_alg(|al, ex| { let p = al.from_term(&mut ex.ts, t)?; Ok(Alg::rf(p)) })?; self.put(H::R(Rc::new(r))) }
            N::RrVar => { let k = self.int(&a[0])? as u32; let r = self.with_alg(|al, _| { let g = al.gen(G::Var(k)); let mut p = Poly::new(); p.insert(vec![(g, Q1)], Q1); Ok(Alg::rf(p)) })?; self.put(H::R(Rc::new(r))) }
            N::RrPi => { let r = self.with_alg(|al, _| { let g = al.gen(G::Pi); let mut p = Poly::new(); p.insert(vec![(g, Q1)], Q1); Ok(Alg::rf(p)) })?; self.put(H::R(Rc::new(r))) }
            N::RrUndef => self.put(H::Undef),
            N::RrAdd | N::RrMul | N::RrDiv | N::RrPow | N::RrEq => {
                let (x, y) = (self.h(&a[0])?, self.h(&a[1])?);
                let (x, y) = match (x, y) {
                    (H::R(x), H::R(y)) => (x, y),
                    (x, y) => return Ok(Some(if n == N::RrEq { V::I((x == y) as u128) } else { self.put(H::Undef) })),
                };
                if n == N::RrEq { let t = self.with_alg(|al, ex| al.eq_term(&mut ex.ts, &x, &y))?; return Ok(Some(self.mk(t))) }
                let r = self.with_alg(|al, ex| match n {
                    N::RrAdd => Ok(H::R(Rc::new(al.add(&x, &y)?))),
                    N::RrMul => Ok(H::R(Rc::new(al.mul(&x, &y)?))),
                    N::RrDiv => al.div(ex, &x, &y),
                    _ => al.pow(ex, &x, &y),
                })?;
                self.put(r)
            }
            N::RrNeg => { let x = self.h(&a[0])?; match x { H::Undef => self.put(H::Undef), H::R(x) => { let r = self.with_alg(|al, _| al.neg(&x))?; self.put(H::R(Rc::new(r))) } } }
            N::RrFn => { let k = self.int(&a[0])? as u32; let x = self.h(&a[1])?; match x { H::Undef => self.put(H::Undef), H::R(x) => { let r = self.with_alg(|al, ex| al.func(ex, k, &x))?; self.put(r) } } }
            N::RrDiff => { let x = self.h(&a[0])?; let k = self.int(&a[1])? as u32; match x { H::Undef => self.put(H::Undef), H::R(x) => { let r = self.with_alg(|al, ex| al.drf(ex, &x, k))?; self.put(H::R(Rc::new(r))) } } }
            N::RrIsUndef => { let x = self.h(&a[0])?; V::I((x == H::Undef) as u128) }
            N::RrIsZero => { let x = self.h(&a[0])?; match x { H::Undef => V::I(0), H::R(x) => { let t = self.with_alg(|al, ex| al.zero_term(&mut ex.ts, &x.n))?; self.mk(t) } } }
        }))
    }
    /// gcd(x,y)=g for one feasible g per path, stated by divisibility
    fn gcd_split(&mut self, x: Tm, y: Tm, g: Tm) -> X<u128> {
        self.conc_t(g)
    }
    fn next_concrete(&mut self) -> Option<i128> { let v = self.concrete.as_ref()?; self.cpos += 1; Some(v.get(self.cpos - 1).copied().unwrap_or(0)) }
    fn gcd_by_ref(&self, fi: u32) -> Option<bool> {
        // by reference if the body's first parameter is only loaded from
        let f = &self.m.funcs[fi as usize];
        if f.nparams < 2 { return None }
        for op in &f.code { if let Op::Load { p, .. } = op { if p.0 < 2 { return Some(true) } } }
        Some(false)
    }
    fn intr(&mut self, k: Intr, w: u32, name: &str, args: &[O], ret: &Ty) -> X<V> {
        let a: Vec<V> = args.iter().map(|x| self.val(*x)).collect();
        let m = mask(w);
        let cc = |i: usize| if let V::I(x) = &a[i] { Some(*x) } else { None };
        Ok(match k {
            Intr::Nop => V::U,
            Intr::Memcpy | Intr::Memmove => { let (d, s, n) = (self.int(&a[0])? as u64, self.int(&a[1])? as u64, self.int(&a[2])? as u64); self.memcpy(d, s, n)?; V::U }
            Intr::Memset => {
                let (p, n) = (self.int(&a[0])? as u64, self.int(&a[2])? as u64);
                let b = self.int(&a[1])? as u8;
                if n == 0 { return Ok(V::U) }
                let (id, off) = (p >> 32, (p & 0xffff_ffff) as usize);
                match self.st.mem.get(id) { Some(o) if off + n as usize <= o.data.len() => if o.cells.is_some() { self.clear_cells(id, off as u32, n as u32)? }, _ => return self.bad(p, n) }
                let o = self.st.mem.get_mut(id).unwrap();
                for x in &mut o.data[off..off + n as usize] { *x = b }
                V::U
            }
            Intr::Identity => a[0].clone(),
            Intr::False => V::I(0),
            Intr::Trap => return end(Outcome::Panic(format!("trap in {}", self.where_()))),
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let p = match k { Intr::Umax => Pred::Ugt, Intr::Umin => Pred::Ult, Intr::Smax => Pred::Sgt, _ => Pred::Slt };
                if let (Some(x), Some(y)) = (cc(0), cc(1)) { return Ok(V::I(if cicmp(p, w, x, y) { x } else { y })) }
                let (x, y) = (self.tm(&a[0], w)?, self.tm(&a[1], w)?);
                let c = self.ts.icmp(p, w, x, y);
                let r = self.ts.ite(c, x, y);
                self.mk(r)
            }
            Intr::UCmp | Intr::SCmp => {
                let p = if k == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let rw = if let Ty::Int(w) = ret { *w } else { 8 };
                if let (Some(x), Some(y)) = (cc(0), cc(1)) { return Ok(V::I(if x == y { 0 } else if cicmp(p, w, x, y) { mask(rw) } else { 1 })) }
                let (x, y) = (self.tm(&a[0], w)?, self.tm(&a[1], w)?);
                let (lt, eq) = (self.ts.icmp(p, w, x, y), self.ts.icmp(Pred::Eq, w, x, y));
                let (n, z, o) = (self.ts.cst(rw, mask(rw)), self.ts.cst(rw, 0), self.ts.cst(rw, 1));
                let i = self.ts.ite(eq, z, o);
                let r = self.ts.ite(lt, n, i);
                self.mk(r)
            }
            Intr::Abs => { if let Some(x) = cc(0) { return Ok(V::I(sext(x, w).wrapping_abs() as u128 & m)) } let x = self.tm(&a[0], w)?; let r = self.ts.abs(x); self.mk(r) }
            Intr::SAddO | Intr::UAddO | Intr::SSubO | Intr::USubO | Intr::SMulO | Intr::UMulO => {
                let (op, t) = match k { Intr::SAddO => (BinOp::Add, T::SAddO), Intr::UAddO => (BinOp::Add, T::UAddO), Intr::SSubO => (BinOp::Sub, T::SSubO), Intr::USubO => (BinOp::Sub, T::USubO), Intr::SMulO => (BinOp::Mul, T::SMulO), _ => (BinOp::Mul, T::UMulO) };
                let (x, y) = (self.tm(&a[0], w)?, self.tm(&a[1], w)?);
                let (r, o) = if let (Some(p), Some(q)) = (cc(0), cc(1)) {
                    let (sp, sq) = (sext(p, w), sext(q, w));
                    let fit = |v: Option<i128>| v.map_or(true, |v| v < smin(w) || v > smax(w));
                    let ufit = |v: Option<u128>| v.map_or(true, |v| v > m);
                    let o = match k { Intr::SAddO => fit(sp.checked_add(sq)), Intr::SSubO => fit(sp.checked_sub(sq)), Intr::SMulO => fit(sp.checked_mul(sq)), Intr::UAddO => ufit(p.checked_add(q)), Intr::USubO => p < q, _ => ufit(p.checked_mul(q)) };
                    (V::I(cbin(op, w, p, q).unwrap()), V::I(o as u128))
                } else { let r = self.ts.bin(op, w, x, y); let o = self.ts.ovf(t, x, y); (self.mk(r), self.mk(o)) };
                V::Agg(Rc::new(vec![r, o]))
            }
            Intr::USubSat | Intr::UAddSat | Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = (self.int(&a[0])?, self.int(&a[1])?);
                let (sx, sy) = (sext(x, w), sext(y, w));
                V::I(match k { Intr::USubSat => x.saturating_sub(y), Intr::UAddSat => x.saturating_add(y).min(m), Intr::SAddSat => sx.saturating_add(sy).clamp(smin(w), smax(w)) as u128 & m, _ => sx.saturating_sub(sy).clamp(smin(w), smax(w)) as u128 & m })
            }
            Intr::Fshl | Intr::Fshr => {
                let (x, y, s) = (self.int(&a[0])?, self.int(&a[1])?, (self.int(&a[2])? % w as u128) as u32);
                if s == 0 { V::I(if k == Intr::Fshl { x } else { y }) } else if k == Intr::Fshl { V::I((x << s | y >> (w - s)) & m) } else { V::I((x << (w - s) | y >> s) & m) }
            }
            Intr::Cttz => { let x = self.int(&a[0])?; V::I(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }) }
            Intr::Ctlz => { let x = self.int(&a[0])?; V::I((x.leading_zeros() - (128 - w)) as u128) }
            Intr::Ctpop => { let x = self.int(&a[0])?; V::I(x.count_ones() as u128) }
            Intr::Bswap => { let x = self.int(&a[0])?; V::I(x.swap_bytes() >> (128 - w)) }
            Intr::Bitreverse => { let x = self.int(&a[0])?; V::I(x.reverse_bits() >> (128 - w)) }
            Intr::FAbs => match &a[0] { V::F(f) => V::F(f.abs()), V::FT(f) => V::F(self.concf(f.clone())?.abs()), _ => return incomplete("fabs") },
            // on concrete doubles only
            Intr::Float => {
                let f = |i: usize, s: &mut Self| -> X<f64> { match a.get(i) { Some(V::F(f)) => Ok(*f), Some(V::FT(x)) => s.concf(x.clone()), _ => incomplete("float intrinsic") } };
                let x = f(0, self)?;
                let n = &name[5..];
                let n = n.split(".f64").next().unwrap_or(n);
                if let (Ty::Int(to), Some(signed)) = (ret, if n.starts_with("fptosi.sat") { Some(true) } else if n.starts_with("fptoui.sat") { Some(false) } else { None }) {
                    let r = if signed { (x as i128).clamp(smin(*to), smax(*to)) as u128 } else { (x as u128).min(mask(*to)) };
                    return Ok(V::I(r & mask(*to)))
                }
                V::F(match n {
                    "floor" => x.floor(), "ceil" => x.ceil(), "trunc" => x.trunc(), "round" => x.round(), "rint" | "nearbyint" | "roundeven" => x.round_ties_even(), "sqrt" => x.sqrt(),
                    "copysign" => x.copysign(f(1, self)?), "minnum" | "minimumnum" => x.min(f(1, self)?), "maxnum" | "maximumnum" => x.max(f(1, self)?), "fma" => x.mul_add(f(1, self)?, f(2, self)?), "fmuladd" => x * f(1, self)? + f(2, self)?,
                    _ => return end(Outcome::Incomplete(format!("intrinsic {}", name))),
                })
            }
            Intr::Unknown => return end(Outcome::Incomplete(format!("intrinsic {}", name))),
        })
    }
    pub fn finding(&mut self, kind: &str, label: String) -> Option<Finding> {
        if self.ensure_model().is_err() { return None }
        let inp = self.st.inputs.clone();
        let v = inp.iter().map(|i| match i { Inp::C(c) => *c as i128, Inp::K(c) => *c, Inp::S(t) => self.eval(*t) as i128 }).collect();
        Some(Finding { kind: kind.into(), label, inputs: v, notes: (*self.st.notes).clone() })
    }
    pub fn covered_names(&self) -> HashSet<String> { self.covered.iter().enumerate().filter(|(_, c)| **c).map(|(i, _)| self.m.funcs[i].dem.clone()).collect() }
    pub fn describe_inputs(&mut self) -> Vec<String> { let inp = self.st.inputs.clone(); inp.iter().map(|i| match i { Inp::C(c) => format!("{}", c), Inp::K(c) => format!("{}", c), Inp::S(t) => { let (l, h) = self.ts.iv(*t); format!("s{}∈[{},{}]", self.ts.n[*t as usize].k, l, h) } }).collect() }
    pub fn pc_string(&self) -> String { self.st.pc.iter().take(12).map(|t| self.ts.show(*t, 6)).collect::<Vec<_>>().join(" && ") }
    pub fn steps(&self) -> u64 { self.st.steps }
    pub fn set_state(&mut self, s: State) { self.st = s }
}

fn insert(x: V, idx: &[u32], nv: V, ty: &Ty) -> V {
    if idx.is_empty() { return nv }
    let (n, ft): (usize, Box<dyn Fn(usize) -> Ty>) = match ty { Ty::Struct(_, f) => { let f = f.clone(); (f.len(), Box::new(move |i| f[i].clone())) } Ty::Arr(n, e) => { let e = e.clone(); (*n as usize, Box::new(move |_| (*e).clone())) } _ => (1, Box::new(|_| Ty::Other)) };
    let mut v = match x { V::Agg(a) => (*a).clone(), _ => vec![V::U; n] };
    let i = idx[0] as usize;
    let old = std::mem::replace(&mut v[i], V::U);
    v[i] = insert(old, &idx[1..], nv, &ft(i));
    V::Agg(Rc::new(v))
}
