//! Parser for the textual LLVM IR rustc emits, into a flat bytecode.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Box<Ty>), Struct(bool, Vec<Ty>), Vect(u32, Box<Ty>), Other }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => match w { 1..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => { let b = match **t { Ty::Int(w) => w as u64, _ => t.size() * 8 }; (b * *n as u64 + 7) / 8 }
            Ty::Struct(..) => { let (o, e) = self.fields(); let _ = o; e }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(..) => self.size().max(1).next_power_of_two(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            t => t.size().max(1),
        }
    }
    /// field offsets, total size
    pub fn fields(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(p, f) => {
                let (mut off, mut v, mut al) = (0u64, vec![], 1u64);
                for t in f {
                    let a = if *p { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    v.push(off);
                    off += t.size();
                }
                (v, (off + al - 1) / al * al)
            }
            Ty::Arr(n, t) => ((0..*n).map(|i| i * t.size()).collect(), n * t.size()),
            Ty::Vect(n, t) => ((0..*n as u64).map(|i| i * t.size()).collect(), self.size()),
            _ => (vec![0], self.size()),
        }
    }
}

/// constants
#[derive(Clone, Debug)]
pub enum CV { I(u128), F(f64), U, Agg(Vec<CV>) }

/// operand: register or module constant
#[derive(Clone, Copy, Debug)]
pub struct O(pub u32);
pub const CBIT: u32 = 1 << 31;
pub type R = u32;
pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Debug)]
pub struct Edge { pub to: u32, pub copies: Vec<(R, O)> }

#[derive(Clone, Debug)]
pub enum Op {
    Bin { op: BinOp, w: u32, d: R, a: O, b: O },
    VBin { op: BinOp, w: u32, d: R, a: O, b: O },
    Icmp { p: Pred, w: u32, d: R, a: O, b: O },
    VIcmp { p: Pred, w: u32, d: R, a: O, b: O },
    Fcmp { p: String, d: R, a: O, b: O },
    FBin { op: u8, d: R, a: O, b: O },
    FNeg { d: R, a: O },
    Load { d: R, ty: Ty, p: O },
    Store { ty: Ty, v: O, p: O },
    Alloca { d: R, off: u64 },
    Gep { d: R, base: O, off: i64, idx: Vec<(O, i64, u32)> },
    Trunc { d: R, a: O, from: u32, to: u32 },
    ZExt { d: R, a: O, from: u32, to: u32 },
    SExt { d: R, a: O, from: u32, to: u32 },
    IToF { d: R, a: O, from: u32, signed: bool },
    FToI { d: R, a: O, to: u32, signed: bool },
    Copy { d: R, a: O },
    BitcastF { d: R, a: O, to_float: bool },
    BitcastVI { d: R, a: O, ew: u32 },
    Select { d: R, c: O, a: O, b: O, w: u32 },
    ExtractValue { d: R, a: O, idx: Vec<u32> },
    InsertValue { d: R, a: O, v: O, idx: Vec<u32>, ty: Ty },
    ExtractElem { d: R, a: O, i: O },
    InsertElem { d: R, a: O, v: O, i: O, n: u32 },
    Shuffle { d: R, a: O, b: O, mask: Vec<u32>, n: u32 },
    Br(Edge),
    CondBr { c: O, t: Edge, f: Edge },
    Switch { w: u32, v: O, cases: Vec<(u128, Edge)>, def: Edge },
    Ret(O),
    RetVoid,
    Call { d: R, f: Callee, args: Vec<O>, next: Option<Edge>, ret: Ty },
    AtomicRmw { d: R, op: String, w: u32, p: O, v: O },
    CmpXchg { d: R, w: u32, p: O, c: O, n: O },
    Unreachable,
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Intr(Intr, u32, String), Ind(O) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr { Memcpy, Memmove, Memset, Nop, Umax, Umin, Smax, Smin, Fshl, Fshr, Identity, Cttz, Ctlz, Ctpop, SAddO, UAddO, SSubO, USubO, SMulO, UMulO, UCmp, SCmp, Abs, USubSat, UAddSat, SSubSat, SAddSat, Bswap, Bitreverse, False, Trap, Float, FAbs, Unknown }

pub struct Func {
    pub name: String,
    pub dem: String,
    pub nparams: u32,
    pub nregs: u32,
    pub code: Vec<Op>,
    pub frame: u64,
    pub defined: bool,
}
pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub constant: bool }
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub consts: Vec<CV>,
}

pub const FN_OBJ: u64 = 0x4000_0000;
pub fn fn_addr(i: u32) -> u64 { (FN_OBJ + i as u64) << 32 }
/// object id 0 is null; globals are 1..=n
pub fn glob_addr(i: u32) -> u64 { (1 + i as u64) << 32 }

struct P<'a> { s: &'a [u8], i: usize }

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self { P { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1 } }
    /// whitespace including newlines
    fn wsn(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1 } }
    fn peek(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false }
    }
    fn eatw(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let c = self.s.get(self.i + t.len()).copied().unwrap_or(b' ');
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' { return false }
            self.i += t.len(); true
        } else { false }
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?}", t, self.rest(120)) } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).to_string() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && { let c = self.s[self.i]; c.is_ascii_alphanumeric() || c == b'_' || c == b'.' } { self.i += 1 }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peekword(&mut self) -> &'a str { let i = { self.ws(); self.i }; let w = self.word(); self.i = i; w }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1 }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && { let c = self.s[self.i]; c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' } { self.i += 1 }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                0 => panic!("eof in parens"),
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> i128 {
        self.ws();
        let neg = self.eat("-");
        let mut v: i128 = 0;
        while self.peek().is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as i128); self.i += 1 }
        if neg { v.wrapping_neg() } else { v }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'{' => { self.i += 1; Ty::Struct(false, self.tylist("}")) }
            b'<' => {
                self.i += 1;
                if self.eat("{") { let f = self.tylist("}"); self.expect(">"); Ty::Struct(true, f) } else {
                    let n = self.num(); self.eatw("x"); let t = self.ty(); self.expect(">"); Ty::Vect(n as u32, Box::new(t))
                }
            }
            b'[' => { self.i += 1; let n = self.num(); self.eatw("x"); let t = self.ty(); self.expect("]"); Ty::Arr(n as u64, Box::new(t)) }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "double" => Ty::F64, "float" => Ty::F32,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => Ty::Other,
                }
            }
        };
        t
    }
    fn tylist(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) { return v }
        loop { v.push(self.ty()); if self.eat(",") { continue } self.expect(end); return v }
    }
    fn attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == b'#' { self.i += 1; self.num(); continue }
            if c == b'"' { self.name(); if self.eat("=") { self.ws(); self.name(); } continue }
            if !c.is_ascii_alphabetic() { return }
            let w = self.peekword();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "getelementptr" | "ptrtoint" | "splat" | "c" | "sub" | "add" | "trunc" | "bitcast" | "none" | "asm" => return,
                "metadata" | "inf" | "nan" | "qnan" | "snan" => return,
                w if w.starts_with("f0x") => return,
                _ => {}
            }
            if is_ty_word(w) { return }
            self.word();
            if w == "align" || w == "dereferenceable" { self.ws(); if self.peek() != b'(' { self.num(); continue } }
            if self.peek() == b'(' { self.parens() }
        }
    }
}
fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

struct Ctx<'a> { m: &'a mut Module, locals: HashMap<String, u32>, nregs: u32 }

impl<'a> Ctx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.locals.get(n) { return *r }
        let r = self.nregs; self.nregs += 1;
        self.locals.insert(n.to_string(), r);
        r
    }
    fn cst(&mut self, c: CV) -> O { self.m.consts.push(c); O((self.m.consts.len() - 1) as u32 | CBIT) }
    fn val(&mut self, p: &mut P, t: &Ty) -> O {
        p.ws();
        if p.peek() == b'%' { p.i += 1; let n = p.name(); return O(self.reg(&n)) }
        let c = constant(self.m, p, t);
        self.cst(c)
    }
    fn tyval(&mut self, p: &mut P) -> (Ty, O) { let t = p.ty(); p.attrs(); let v = self.val(p, &t); (t, v) }
}

fn zero(t: &Ty) -> CV {
    match t {
        Ty::F64 | Ty::F32 => CV::F(0.0),
        Ty::Struct(_, f) => CV::Agg(f.iter().map(zero).collect()),
        Ty::Arr(n, e) => CV::Agg((0..*n).map(|_| zero(e)).collect()),
        Ty::Vect(n, e) => CV::Agg((0..*n).map(|_| zero(e)).collect()),
        _ => CV::I(0),
    }
}

fn constant(m: &Module, p: &mut P, t: &Ty) -> CV {
    p.ws();
    match p.peek() {
        b'@' => {
            p.i += 1;
            let n = p.name();
            if let Some(g) = m.gidx.get(&n) { return CV::I(glob_addr(*g) as u128) }
            if let Some(f) = m.fidx.get(&n) { return CV::I(fn_addr(*f) as u128) }
            panic!("unknown global @{}", n)
        }
        b'{' | b'[' => { let close = if p.peek() == b'{' { "}" } else { "]" }; p.i += 1; agg(m, p, close) }
        b'<' => { p.i += 1; if p.eat("{") { let a = agg(m, p, "}"); p.expect(">"); a } else { agg(m, p, ">") } }
        b'+' | b'-' | b'0'..=b'9' => match t {
            Ty::F64 | Ty::F32 => {
                let st = p.i;
                while { let c = p.peek(); c.is_ascii_alphanumeric() || c == b'.' || c == b'+' || c == b'-' } { p.i += 1 }
                let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                if s.contains("nan") { CV::F(f64::NAN) } else if let Some(h) = s.strip_prefix("0x") { CV::F(f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))) } else { CV::F(s.parse().unwrap_or(0.0)) }
            }
            Ty::Int(w) => CV::I(p.num() as u128 & mask(*w)),
            _ => CV::I(p.num() as u128),
        },
        b'c' if p.s[p.i + 1] == b'"' => {
            p.i += 2;
            let mut v = vec![];
            while p.peek() != b'"' {
                let mut c = p.peek();
                p.i += 1;
                if c == b'\\' && p.peek() == b'\\' { p.i += 1 } else if c == b'\\' {
                    let h = std::str::from_utf8(&p.s[p.i..p.i + 2]).unwrap();
                    c = u8::from_str_radix(h, 16).unwrap();
                    p.i += 2;
                }
                v.push(CV::I(c as u128));
            }
            p.i += 1;
            CV::Agg(v)
        }
        _ => {
            let w = p.word();
            if let Some(h) = w.strip_prefix("f0x") {
                let b = u64::from_str_radix(h, 16).unwrap_or(0);
                return CV::F(if *t == Ty::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) })
            }
            match w {
                "inf" => CV::F(f64::INFINITY), "nan" | "qnan" | "snan" => { if p.peek() == b'(' { p.i += 1; while p.peek() != b')' { p.i += 1 } p.i += 1 } CV::F(f64::NAN) }
                "true" => CV::I(1), "false" => CV::I(0), "null" => CV::I(0),
                "undef" | "poison" => CV::U,
                "zeroinitializer" => zero(t),
                "splat" => {
                    p.expect("("); let et = p.ty(); let c = constant(m, p, &et); p.expect(")");
                    match t { Ty::Vect(n, _) => CV::Agg(vec![c; *n as usize]), _ => c }
                }
                "inttoptr" | "ptrtoint" | "bitcast" => { p.expect("("); let st = p.ty(); let c = constant(m, p, &st); p.ws(); p.eatw("to"); p.ty(); p.expect(")"); c }
                "getelementptr" => {
                    while p.eatw("inbounds") || p.eatw("nuw") || p.eatw("nusw") {}
                    if p.eatw("inrange") { p.parens() }
                    p.expect("(");
                    let et = p.ty();
                    p.expect(",");
                    let pt = p.ty();
                    let b = constant(m, p, &pt);
                    let mut addr = match b { CV::I(a) => a as i128, _ => 0 };
                    let mut cur: Option<Ty> = None;
                    while p.eat(",") {
                        let it = p.ty();
                        let w = if let Ty::Int(w) = it { w } else { 64 };
                        let c = match constant(m, p, &it) { CV::I(c) => c, _ => 0 };
                        let c = ((c << (128 - w)) as i128) >> (128 - w);
                        match &cur {
                            None => { addr += c * et.size() as i128; cur = Some(et.clone()) }
                            Some(t) => { let (off, nt) = step(t, c as u64); addr += off as i128; cur = Some(nt) }
                        }
                    }
                    p.expect(")");
                    CV::I(addr as u128 & mask(64))
                }
                "sub" | "add" => {
                    let sub = w == "sub";
                    while p.eatw("nuw") || p.eatw("nsw") {}
                    p.expect("("); let t1 = p.ty(); let a = constant(m, p, &t1); p.expect(","); let t2 = p.ty(); let b = constant(m, p, &t2); p.expect(")");
                    match (a, b) { (CV::I(a), CV::I(b)) => CV::I((if sub { a.wrapping_sub(b) } else { a.wrapping_add(b) }) & mask(64)), _ => CV::U }
                }
                "trunc" => { p.expect("("); let st = p.ty(); let c = constant(m, p, &st); p.eatw("to"); let tt = p.ty(); p.expect(")"); match (c, tt) { (CV::I(c), Ty::Int(w)) => CV::I(c & mask(w)), (c, _) => c } }
                _ => panic!("constant? {:?} {:?}", w, p.rest(80)),
            }
        }
    }
}
fn agg(m: &Module, p: &mut P, close: &str) -> CV {
    let mut v = vec![];
    if p.eat(close) { return CV::Agg(v) }
    loop {
        let t = p.ty();
        v.push(constant(m, p, &t));
        if p.eat(",") { continue }
        p.expect(close);
        return CV::Agg(v)
    }
}
fn step(t: &Ty, i: u64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) => (i * e.size(), (**e).clone()),
        Ty::Vect(_, e) => (i * e.size(), (**e).clone()),
        Ty::Struct(_, f) => (t.fields().0[i as usize], f[i as usize].clone()),
        _ => panic!("gep into scalar"),
    }
}

fn lay(t: &Ty, c: &CV, out: &mut [u8]) {
    match (t, c) {
        (_, CV::U) => {}
        (Ty::Struct(..), CV::Agg(v)) => {
            let (offs, _) = t.fields();
            if let Ty::Struct(_, f) = t { for (i, x) in v.iter().enumerate() { lay(&f[i], x, &mut out[offs[i] as usize..]) } }
        }
        (Ty::Arr(_, e), CV::Agg(v)) => for (i, x) in v.iter().enumerate() { lay(e, x, &mut out[i * e.size() as usize..]) },
        (_, CV::I(x)) => { let n = t.size() as usize; out[..n].copy_from_slice(&x.to_le_bytes()[..n]) }
        (Ty::F64, CV::F(x)) => out[..8].copy_from_slice(&x.to_bits().to_le_bytes()),
        _ => panic!("lay {:?} {:?}", t, c),
    }
}

pub fn parse(text: &str) -> Module {
    let mut m = Module { funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), consts: vec![] };
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let mut aliases: Vec<(String, String)> = vec![];
    let mut gl: Vec<(u32, &str)> = vec![];
    let mut fl: Vec<(u32, usize)> = vec![];
    for (ln, l) in lines.iter().enumerate() {
        if l.starts_with('@') {
            let mut p = P::new(l);
            p.i = 1;
            let n = p.name();
            if l.contains(" = ") && l.contains(" alias ") && !l.contains("c\"") {
                let t = l.rsplit('@').next().unwrap(); let mut q = P::new(t); let tn = q.name();
                aliases.push((n, tn));
                continue
            }
            let i = m.globals.len() as u32;
            m.gidx.insert(n.clone(), i);
            m.globals.push(Global { name: n, size: 0, data: vec![], constant: false });
            gl.push((i, l));
        } else if l.starts_with("define") || l.starts_with("declare") {
            let at = find_at(l);
            let mut p = P::new(l);
            p.i = at + 1;
            let n = p.name();
            let i = m.funcs.len() as u32;
            m.fidx.insert(n.clone(), i);
            let mut dem = n.clone();
            for k in 1..4 { if ln >= k && lines[ln - k].starts_with("; ") && !lines[ln - k].starts_with("; Function Attrs") { dem = lines[ln - k][2..].to_string(); break } if ln < k || !lines[ln - k].starts_with(';') { break } }
            m.funcs.push(Func { name: n, dem, nparams: 0, nregs: 0, code: vec![], frame: 0, defined: false });
            if l.starts_with("define") { fl.push((i, ln)) }
        }
    }
    for (a, t) in aliases { if let Some(f) = m.fidx.get(&t).copied() { m.fidx.insert(a, f); } }
    for (i, l) in gl {
        let mut p = P::new(l);
        p.i = 1;
        p.name();
        p.expect("=");
        let mut ext = false;
        let mut konst = false;
        loop {
            p.ws();
            if !p.peek().is_ascii_alphabetic() { break }
            let w = p.peekword();
            if is_ty_word(w) { break }
            p.word();
            if w == "external" || w == "extern_weak" { ext = true }
            if w == "constant" { konst = true; break }
            if w == "global" { break }
            if p.peek() == b'(' { p.parens() }
        }
        let t = p.ty();
        let sz = t.size();
        let mut data = vec![0u8; sz as usize];
        if !ext { let c = constant(&m, &mut p, &t); lay(&t, &c, &mut data) }
        let g = &mut m.globals[i as usize];
        g.size = sz; g.data = data; g.constant = konst;
    }
    // what cannot be parsed becomes an instruction that ends its path as 'incomplete'
    std::panic::set_hook(Box::new(|_| {}));
    for (i, ln) in fl {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_fn(&mut m, i, &lines, ln))).is_err() {
            let f = &mut m.funcs[i as usize];
            f.code = vec![Op::Unsupported(format!("function {}", f.name))];
            f.defined = true;
        }
    }
    let _ = std::panic::take_hook();
    m
}

fn find_at(l: &str) -> usize {
    // '@' of the function name: first '@' outside parens
    let b = l.as_bytes();
    let mut d = 0;
    for (i, c) in b.iter().enumerate() {
        match c { b'(' => d += 1, b')' => d -= 1, b'@' if d == 0 => return i, _ => {} }
    }
    panic!("no function name: {}", l)
}

fn parse_fn(m: &mut Module, fi: u32, lines: &[&str], ln: usize) {
    let mut cx = Ctx { m, locals: HashMap::new(), nregs: 0 };
    // params
    let head = lines[ln];
    let mut p = P::new(head);
    p.i = find_at(head) + 1;
    p.name();
    p.expect("(");
    let mut np = 0u32;
    if !p.eat(")") {
        loop {
            if p.eat("...") { p.expect(")"); break }
            p.ty();
            p.attrs();
            p.ws();
            if p.peek() == b'%' { p.i += 1; let n = p.name(); let r = cx.reg(&n); assert_eq!(r, np) } else { let r = cx.reg(&np.to_string()); assert_eq!(r, np) }
            np += 1;
            if p.eat(",") { continue }
            p.expect(")");
            break
        }
    }
    // Gather blocks: join continuation lines
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut j = ln + 1;
    let mut first = true;
    loop {
        let l = lines[j];
        if l == "}" { break }
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') { j += 1; continue }
        if !l.starts_with(' ') {
            // label
            let mut q = P::new(l);
            let n = q.name();
            blocks.push((n, vec![]));
            first = false;
            j += 1;
            continue
        }
        if first { blocks.push((np.to_string(), vec![])); first = false }
        let mut s = t.to_string();
        if t.starts_with("switch ") { while !lines[j].trim_start().starts_with(']') { j += 1; s.push(' '); s.push_str(lines[j].trim()); } }
        else if t.starts_with("invoke ") || t.contains("= invoke ") { if !s.contains(" unwind label ") { j += 1; s.push(' '); s.push_str(lines[j].trim()) } }
        else if t.contains("= landingpad ") { while { let n = lines[j + 1].trim_start(); n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") } { j += 1; } }
        blocks.last_mut().unwrap().1.push(s);
        j += 1;
    }
    // phis
    let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
    let mut phis: HashMap<(usize, usize), Vec<(R, O)>> = HashMap::new();
    for (bi, (_, ins)) in blocks.iter().enumerate() {
        for s in ins {
            let mut p = P::new(s);
            if p.peek() != b'%' { break }
            p.i = 1;
            let n = p.name();
            p.expect("=");
            if !p.eatw("phi") { break }
            let d = cx.reg(&n);
            let t = p.ty();
            loop {
                p.expect("[");
                let v = cx.val(&mut p, &t);
                p.expect(",");
                p.ws();
                p.expect("%");
                let pb = p.name();
                p.expect("]");
                if let Some(pi) = bidx.get(&pb) { phis.entry((*pi, bi)).or_default().push((d, v)) }
                if !p.eat(",") { break }
                p.ws();
                if p.peek() != b'[' { break }
            }
        }
    }
    let mut code: Vec<Op> = vec![];
    let mut starts = vec![0u32; blocks.len()];
    let mut frame = 0u64;
    for bi in 0..blocks.len() {
        starts[bi] = code.len() as u32;
        let ins = std::mem::take(&mut blocks[bi].1);
        for s in &ins {
            let op = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_ins(&mut cx, s, bi, &bidx, &phis, &mut frame))).unwrap_or_else(|_| Op::Unsupported(s.to_string()));
            match op { Op::Nop => {} o => code.push(o) }
        }
    }
    let fix = |e: &mut Edge| e.to = starts[e.to as usize];
    for o in code.iter_mut() {
        match o {
            Op::Br(e) => fix(e),
            Op::CondBr { t, f, .. } => { fix(t); fix(f) }
            Op::Switch { cases, def, .. } => { fix(def); for c in cases { fix(&mut c.1) } }
            Op::Call { next: Some(e), .. } => fix(e),
            _ => {}
        }
    }
    let nregs = cx.nregs;
    let f = &mut m.funcs[fi as usize];
    f.nparams = np; f.nregs = nregs; f.code = code; f.frame = frame; f.defined = true;
}

pub fn intw(t: &Ty) -> u32 { match t { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Vect(_, e) => intw(e), _ => 0 } }

fn parse_ins(cx: &mut Ctx, s: &str, bi: usize, bidx: &HashMap<String, usize>, phis: &HashMap<(usize, usize), Vec<(R, O)>>, frame: &mut u64) -> Op {
    let mut p = P::new(s);
    let mut d = NOREG;
    if p.peek() == b'%' { p.i = 1; let n = p.name(); d = cx.reg(&n); p.expect("=") }
    let label = |p: &mut P| -> Edge {
        p.eatw("label"); p.ws(); p.expect("%");
        let n = p.name();
        let t = bidx[&n];
        Edge { to: t as u32, copies: phis.get(&(bi, t)).cloned().unwrap_or_default() }
    };
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") { w = p.word() }
    let binop = |w: &str| Some(match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, _ => return None });
    if let Some(op) = binop(w) {
        while p.eatw("nuw") || p.eatw("nsw") || p.eatw("exact") || p.eatw("disjoint") {}
        let (t, a) = cx.tyval(&mut p);
        p.expect(",");
        let b = cx.val(&mut p, &t);
        let w = intw(&t);
        return if matches!(t, Ty::Vect(..)) { Op::VBin { op, w, d, a, b } } else { Op::Bin { op, w, d, a, b } };
    }
    match w {
        "phi" => Op::Nop,
        "icmp" => {
            p.eatw("samesign");
            let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, x if x == "samesign" => unreachable!(), x => panic!("icmp {}", x) };
            let (t, a) = cx.tyval(&mut p);
            p.expect(",");
            let b = cx.val(&mut p, &t);
            let w = intw(&t);
            if matches!(t, Ty::Vect(..)) { Op::VIcmp { p: pr, w, d, a, b } } else { Op::Icmp { p: pr, w, d, a, b } }
        }
        "fcmp" => {
            while matches!(p.peekword(), "fast" | "nnan" | "ninf" | "nsz") { p.word(); }
            let pr = p.word().to_string();
            let (t, a) = cx.tyval(&mut p);
            p.expect(",");
            let b = cx.val(&mut p, &t);
            Op::Fcmp { p: pr, d, a, b }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            while matches!(p.peekword(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p.word(); }
            let (t, a) = cx.tyval(&mut p);
            p.expect(",");
            let b = cx.val(&mut p, &t);
            Op::FBin { op: w.as_bytes()[1], d, a, b }
        }
        "fneg" => { let (_, a) = cx.tyval(&mut p); Op::FNeg { d, a } }
        "load" => {
            while p.eatw("atomic") || p.eatw("volatile") {}
            let ty = p.ty();
            p.expect(",");
            let (_, a) = cx.tyval(&mut p);
            Op::Load { d, ty, p: a }
        }
        "store" => {
            while p.eatw("atomic") || p.eatw("volatile") {}
            let (ty, v) = cx.tyval(&mut p);
            p.expect(",");
            let (_, a) = cx.tyval(&mut p);
            Op::Store { ty, v, p: a }
        }
        "alloca" => {
            let ty = p.ty();
            let mut al = 16;
            while p.eat(",") { if p.eatw("align") { al = p.num() as u64 } else { p.ty(); p.num(); } }
            *frame = (*frame + al - 1) / al * al;
            let off = *frame;
            *frame += ty.size();
            Op::Alloca { d, off }
        }
        "getelementptr" => {
            while p.eatw("inbounds") || p.eatw("nuw") || p.eatw("nusw") {}
            let et = p.ty();
            p.expect(",");
            let (_, base) = cx.tyval(&mut p);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur: Option<Ty> = None;
            while p.eat(",") {
                p.ws();
                if p.peek() == b'!' { break }
                let it = p.ty();
                let iw = intw(&it);
                p.ws();
                let scale = match &cur { None => Some(et.size() as i64), Some(Ty::Arr(_, e)) => Some(e.size() as i64), Some(Ty::Vect(_, e)) => Some(e.size() as i64), _ => None };
                if p.peek() == b'%' {
                    let v = cx.val(&mut p, &it);
                    idx.push((v, scale.expect("reg index into struct"), iw));
                    cur = Some(match cur { None => et.clone(), Some(Ty::Arr(_, e)) | Some(Ty::Vect(_, e)) => *e, _ => unreachable!() });
                } else {
                    let c = p.num() as i64;
                    match scale {
                        Some(sc) => { off = off.wrapping_add(c.wrapping_mul(sc)); cur = Some(match cur { None => et.clone(), Some(Ty::Arr(_, e)) | Some(Ty::Vect(_, e)) => *e, _ => unreachable!() }) }
                        None => { let (o, t) = step(cur.as_ref().unwrap(), c as u64); off += o as i64; cur = Some(t) }
                    }
                }
            }
            Op::Gep { d, base, off, idx }
        }
        "trunc" | "zext" | "sext" => {
            while p.eatw("nuw") || p.eatw("nsw") || p.eatw("nneg") {}
            let (t, a) = cx.tyval(&mut p);
            p.eatw("to");
            let t2 = p.ty();
            if matches!(t, Ty::Vect(..)) { return Op::Unsupported(s.to_string()) }
            let (from, to) = (intw(&t), intw(&t2));
            match w { "trunc" => Op::Trunc { d, a, from, to }, "zext" => Op::ZExt { d, a, from, to }, _ => Op::SExt { d, a, from, to } }
        }
        "sitofp" | "uitofp" => { p.eatw("nneg"); let (t, a) = cx.tyval(&mut p); Op::IToF { d, a, from: intw(&t), signed: w == "sitofp" } }
        "fptosi" | "fptoui" => { let (_, a) = cx.tyval(&mut p); p.eatw("to"); let t = p.ty(); Op::FToI { d, a, to: intw(&t), signed: w == "fptosi" } }
        "ptrtoint" | "inttoptr" => {
            let (t, a) = cx.tyval(&mut p); p.eatw("to"); let t2 = p.ty();
            let (f, to) = (intw(&t), intw(&t2));
            if f == to { Op::Copy { d, a } } else if f > to { Op::Trunc { d, a, from: f, to } } else { Op::ZExt { d, a, from: f, to } }
        }
        "freeze" => { let (_, a) = cx.tyval(&mut p); Op::Copy { d, a } }
        "bitcast" => {
            let (t, a) = cx.tyval(&mut p); p.eatw("to"); let t2 = p.ty();
            match (&t, &t2) {
                (Ty::F64, Ty::Int(_)) => Op::BitcastF { d, a, to_float: false },
                (Ty::Int(_), Ty::F64) => Op::BitcastF { d, a, to_float: true },
                (Ty::Vect(_, e), Ty::Int(_)) => Op::BitcastVI { d, a, ew: intw(e) },
                _ => Op::Unsupported(s.to_string()),
            }
        }
        "select" => {
            let (ct, c) = cx.tyval(&mut p);
            p.expect(",");
            let (t, a) = cx.tyval(&mut p);
            p.expect(",");
            let (_, b) = cx.tyval(&mut p);
            if matches!(ct, Ty::Vect(..)) { return Op::Unsupported(s.to_string()) }
            Op::Select { d, c, a, b, w: intw(&t) }
        }
        "extractvalue" => {
            let (_, a) = cx.tyval(&mut p);
            let mut idx = vec![];
            while p.eat(",") { p.ws(); if p.peek() == b'!' { break } idx.push(p.num() as u32) }
            Op::ExtractValue { d, a, idx }
        }
        "insertvalue" => {
            let (ty, a) = cx.tyval(&mut p);
            p.expect(",");
            let (_, v) = cx.tyval(&mut p);
            let mut idx = vec![];
            while p.eat(",") { p.ws(); if p.peek() == b'!' { break } idx.push(p.num() as u32) }
            Op::InsertValue { d, a, v, idx, ty }
        }
        "extractelement" => { let (_, a) = cx.tyval(&mut p); p.expect(","); let (_, i) = cx.tyval(&mut p); Op::ExtractElem { d, a, i } }
        "insertelement" => { let (t, a) = cx.tyval(&mut p); p.expect(","); let (_, v) = cx.tyval(&mut p); p.expect(","); let (_, i) = cx.tyval(&mut p); let n = if let Ty::Vect(n, _) = t { n } else { 0 }; Op::InsertElem { d, a, v, i, n } }
        "shufflevector" => {
            let (t, a) = cx.tyval(&mut p); p.expect(","); let (_, b) = cx.tyval(&mut p); p.expect(",");
            let mt = p.ty();
            let c = constant(cx.m, &mut p, &mt);
            let mask = match c { CV::Agg(v) => v.iter().map(|x| if let CV::I(i) = x { *i as u32 } else { 0 }).collect(), _ => vec![] };
            let n = if let Ty::Vect(n, _) = t { n } else { 0 };
            Op::Shuffle { d, a, b, mask, n }
        }
        "br" => {
            if p.eatw("label") { Op::Br(label(&mut p)) } else {
                let (_, c) = cx.tyval(&mut p);
                p.expect(",");
                let t = label(&mut p);
                p.expect(",");
                let f = label(&mut p);
                Op::CondBr { c, t, f }
            }
        }
        "switch" => {
            let (t, v) = cx.tyval(&mut p);
            p.expect(",");
            let def = label(&mut p);
            p.expect("[");
            let mut cases = vec![];
            let w = intw(&t);
            loop {
                p.wsn();
                if p.eat("]") { break }
                let ct = p.ty();
                let c = match constant(cx.m, &mut p, &ct) { CV::I(c) => c, _ => 0 };
                p.expect(",");
                cases.push((c, label(&mut p)));
            }
            Op::Switch { w, v, cases, def }
        }
        "ret" => { let t = p.ty(); if t == Ty::Void { Op::RetVoid } else { p.attrs(); Op::Ret(cx.val(&mut p, &t)) } }
        "unreachable" => Op::Unreachable,
        "resume" | "landingpad" => Op::Unsupported("unwinding".into()),
        "fence" => Op::Nop,
        "atomicrmw" => {
            p.eatw("volatile");
            let op = p.word().to_string();
            let (_, a) = cx.tyval(&mut p);
            p.expect(",");
            let (t, v) = cx.tyval(&mut p);
            Op::AtomicRmw { d, op, w: intw(&t), p: a, v }
        }
        "cmpxchg" => {
            while p.eatw("weak") || p.eatw("volatile") {}
            let (_, a) = cx.tyval(&mut p);
            p.expect(",");
            let (t, c) = cx.tyval(&mut p);
            p.expect(",");
            let (_, n) = cx.tyval(&mut p);
            Op::CmpXchg { d, w: intw(&t), p: a, c, n }
        }
        "call" | "invoke" => {
            // cc + attrs up to the return type
            loop {
                p.ws();
                let c = p.peek();
                if !c.is_ascii_alphabetic() { break }
                let w2 = p.peekword();
                if is_ty_word(w2) { break }
                p.word();
                if w2 == "align" || w2 == "dereferenceable" { p.ws(); if p.peek() != b'(' { p.num(); continue } }
                if p.peek() == b'(' { p.parens() }
            }
            let ret = p.ty();
            p.ws();
            if p.peek() == b'(' { p.parens(); p.ws() }
            if p.eatw("asm") { return if ret == Ty::Void { Op::Nop } else { Op::Unsupported(s.to_string()) } }
            let mut callee_name = None;
            let mut ind = None;
            if p.peek() == b'@' { p.i += 1; callee_name = Some(p.name()) } else if p.peek() == b'%' { p.i += 1; let n = p.name(); ind = Some(O(cx.reg(&n))) } else { return Op::Unsupported(s.to_string()) }
            if let Some(n) = &callee_name {
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.donothing") { return Op::Nop }
            }
            p.expect("(");
            let mut args = vec![];
            let mut w0 = 0;
            if !p.eat(")") {
                loop {
                    let t = p.ty();
                    p.attrs();
                    if args.is_empty() { w0 = intw(&t) }
                    args.push(cx.val(&mut p, &t));
                    if p.eat(",") { continue }
                    p.expect(")");
                    break
                }
            }
            let next = if w == "invoke" {
                let pos = s.find(" to label ").unwrap();
                p.i = pos + 4;
                Some(label(&mut p))
            } else { None };
            let f = match (callee_name, ind) {
                (Some(n), _) if n.starts_with("llvm.") => {
                    let k = intrinsic(&n);
                    Callee::Intr(k, w0, n)
                }
                (Some(n), _) => Callee::Fn(cx.m.fidx[&n]),
                (_, Some(o)) => Callee::Ind(o),
                _ => unreachable!(),
            };
            Op::Call { d, f, args, next, ret }
        }
        _ => Op::Unsupported(s.to_string()),
    }
}

fn intrinsic(n: &str) -> Intr {
    let r = &n[5..];
    let pre = |x: &str| r.starts_with(x);
    if pre("memcpy") { Intr::Memcpy } else if pre("memmove") { Intr::Memmove } else if pre("memset") { Intr::Memset }
    else if pre("umax") { Intr::Umax } else if pre("umin") { Intr::Umin } else if pre("smax") { Intr::Smax } else if pre("smin") { Intr::Smin }
    else if pre("fshl") { Intr::Fshl } else if pre("fshr") { Intr::Fshr }
    else if pre("threadlocal.address") || pre("expect") || pre("ptrmask.none") { Intr::Identity }
    else if pre("cttz") { Intr::Cttz } else if pre("ctlz") { Intr::Ctlz } else if pre("ctpop") { Intr::Ctpop }
    else if pre("sadd.with") { Intr::SAddO } else if pre("uadd.with") { Intr::UAddO } else if pre("ssub.with") { Intr::SSubO } else if pre("usub.with") { Intr::USubO }
    else if pre("smul.with") { Intr::SMulO } else if pre("umul.with") { Intr::UMulO }
    else if pre("ucmp") { Intr::UCmp } else if pre("scmp") { Intr::SCmp } else if pre("abs") { Intr::Abs }
    else if pre("usub.sat") { Intr::USubSat } else if pre("uadd.sat") { Intr::UAddSat } else if pre("ssub.sat") { Intr::SSubSat } else if pre("sadd.sat") { Intr::SAddSat }
    else if pre("bswap") { Intr::Bswap } else if pre("bitreverse") { Intr::Bitreverse } else if pre("is.constant") { Intr::False }
    else if pre("trap") || pre("ubsantrap") { Intr::Trap }
    else if pre("fabs") { Intr::FAbs } else if n.ends_with(".f64") { Intr::Float }
    else { Intr::Unknown }
}
