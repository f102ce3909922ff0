//! Parser for textual LLVM IR (the output of `opt -S`) into a register code.
use crate::expr::{Bin, Cmp, E};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Val { I(u64), W(Arc<u128>), S(E), A(Arc<Vec<Val>>) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Vec(u32, Arc<Ty>), Arr(u64, Arc<Ty>), Struct(Vec<Ty>, bool), Label, Meta, Func }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.store_size()).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => match **t { Ty::Int(1) => (*n as u64 + 7) / 8, _ => *n as u64 * t.store_size() },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !*p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Int(_) | Ty::Vec(..) => { let a = self.align(); (self.store_size() + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 } }
}

#[derive(Clone)]
pub enum Opd { R(u32), C(Val) }
#[derive(Clone)]
pub struct Edge { pub target: u32, pub copies: Vec<(u32, Opd)> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast { Zext, Sext, Trunc, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone)]
pub enum I {
    Bin { op: Bin, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: u8, dbl: bool, d: u32, a: Opd, b: Opd },
    FNeg { dbl: bool, d: u32, a: Opd },
    FCmp { pred: String, dbl: bool, d: u32, a: Opd, b: Opd },
    Icmp { op: Cmp, swap: bool, neg: bool, w: u32, lanes: u32, d: u32, a: Opd, b: Opd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opd },
    Select { d: u32, c: Opd, ty: Ty, lanes: u32, t: Opd, f: Opd },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Alloca { d: u32, size: u64, n: Option<Opd> },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, cases: Vec<(u128, Edge)>, def: Edge },
    Call { d: Option<u32>, rty: Ty, callee: Callee, args: Vec<(Opd, Ty)>, normal: Option<Edge> },
    Ret(Option<Opd>),
    ExtractVal { d: u32, a: Opd, path: Vec<u32> },
    InsertVal { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, m: Vec<u32> },
    AtomicRmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, e: Opd, n: Opd },
    Mov { d: u32, a: Opd },
    Nop,
    Unreachable,
    Unsup(String),
}
#[derive(Clone)]
pub enum Callee { F(u32), Ptr(Opd), Asm(String) }

pub struct Func { pub name: String, pub nparams: u32, pub nregs: u32, pub code: Vec<I>, pub body: bool, pub rty: Ty }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Vec<u8>>, pub constant: bool, pub size: u64 }
pub struct Module { pub funcs: Vec<Func>, pub fix: HashMap<String, u32>, pub globals: Vec<Global> }

pub const FBASE: u64 = 0x7F00_0000_0000_0000;
pub fn func_addr(i: u32) -> u64 { FBASE | ((i as u64) << 4) }
pub fn obj_addr(id: u32) -> u64 { (id as u64 + 1) << 32 }

#[derive(Clone, Debug, PartialEq)]
enum T<'a> { Id(&'a str), Loc(&'a str), Glob(String), Str(Vec<u8>), Num(&'a str), P(u8), MetaRef, Attr }

struct Lex<'a> { s: &'a [u8], p: usize, tok: T<'a>, cache: Option<()> }
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self { let mut l = Lex { s: s.as_bytes(), p: 0, tok: T::P(0), cache: None }; l.next(); l }
    fn st(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap() }
    fn quoted(&mut self) -> Vec<u8> {
        // self.p is just after the opening quote
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2; continue; }
                v.push(u8::from_str_radix(self.st(self.p + 1, self.p + 3), 16).unwrap());
                self.p += 3;
            } else { v.push(self.s[self.p]); self.p += 1; }
        }
        self.p += 1;
        v
    }
    fn next(&mut self) -> T<'a> {
        let n = self.lex();
        std::mem::replace(&mut self.tok, n)
    }
    fn lex(&mut self) -> T<'a> {
        let _ = self.cache;
        loop {
            if self.p >= self.s.len() { return T::P(0); }
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.p += 1; continue; }
            if c == b';' { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } continue; }
            break;
        }
        let c = self.s[self.p];
        let b = self.p;
        match c {
            b'%' | b'@' | b'$' => {
                self.p += 1;
                if self.s[self.p] == b'"' {
                    self.p += 1;
                    let a = self.p;
                    let v = self.quoted();
                    if c == b'%' { return T::Loc(self.st(a, self.p - 1)); }
                    return T::Glob(String::from_utf8(v).unwrap());
                }
                let a = self.p;
                while self.p < self.s.len() && idch(self.s[self.p]) { self.p += 1; }
                if c == b'%' { T::Loc(self.st(a, self.p)) } else { T::Glob(self.st(a, self.p).to_string()) }
            }
            b'!' => {
                self.p += 1;
                while self.p < self.s.len() && (idch(self.s[self.p]) || self.s[self.p] == b'\\') { self.p += 1; }
                if self.p < self.s.len() && self.s[self.p] == b'"' { self.p += 1; self.quoted(); }
                else if self.p < self.s.len() && (self.s[self.p] == b'{' || self.s[self.p] == b'(') {
                    let (o, cl) = if self.s[self.p] == b'{' { (b'{', b'}') } else { (b'(', b')') };
                    let mut d = 0;
                    loop { if self.s[self.p] == o { d += 1 } if self.s[self.p] == cl { d -= 1 } self.p += 1; if d == 0 { break } }
                }
                T::MetaRef
            }
            b'#' => { self.p += 1; while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { self.p += 1; } T::Attr }
            b'"' => { self.p += 1; T::Str(self.quoted()) }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => { self.p += 2; T::Str(self.quoted()) }
            b'0'..=b'9' | b'-' => {
                self.p += 1;
                while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'.' || ((self.s[self.p] == b'+' || self.s[self.p] == b'-') && self.s[self.p - 1] == b'e')) { self.p += 1; }
                T::Num(self.st(b, self.p))
            }
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; T::Id("...") }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                while self.p < self.s.len() && (idch(self.s[self.p]) && self.s[self.p] != b'-') { self.p += 1; }
                T::Id(self.st(b, self.p))
            }
            c => { self.p += 1; T::P(c) }
        }
    }
    fn eat(&mut self, c: u8) -> bool { if self.tok == T::P(c) { self.next(); true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.tok == T::Id2(s) { self.next(); true } else { false } }
    fn need(&mut self, c: u8) { if !self.eat(c) { panic!("expected {:?} got {:?} near {}", c as char, self.tok, self.ctx()) } }
    fn ctx(&self) -> String { let a = self.p.saturating_sub(120); String::from_utf8_lossy(&self.s[a..(self.p + 40).min(self.s.len())]).to_string() }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return } } T::P(0) => panic!("eof"), _ => {} }
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            T::Id(s) => matches!(*s, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P(b'{') | T::P(b'<') | T::P(b'[') => true,
            T::Loc(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => { if self.eat_id("addrspace") { self.skip_parens(); } Ty::Ptr }
            T::Id("float") => Ty::Float,
            T::Id("double") => Ty::Double,
            T::Id("label") => Ty::Label,
            T::Id("metadata") | T::Id("token") => Ty::Meta,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
            T::P(b'{') => {
                let mut f = vec![];
                while !self.eat(b'}') { f.push(self.ty()); self.eat(b','); }
                Ty::Struct(f, false)
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let mut f = vec![];
                    while !self.eat(b'}') { f.push(self.ty()); self.eat(b','); }
                    self.need(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.need(b'>');
                    Ty::Vec(n, Arc::new(t))
                }
            }
            T::P(b'[') => {
                let n = self.num() as u64;
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.need(b']');
                Ty::Arr(n, Arc::new(t))
            }
            t => panic!("type expected, got {:?} near {}", t, self.ctx()),
        };
        if self.tok == T::P(b'(') && t != Ty::Label {
            // function type
            if matches!(self.peek_fn_type(), true) { self.skip_parens(); return if false { Ty::Func } else { t }; }
        }
        t
    }
    fn peek_fn_type(&self) -> bool { true }
    fn num(&mut self) -> i128 { match self.next() { T::Num(s) => s.parse().unwrap_or_else(|_| panic!("num {s}")), t => panic!("num expected {:?} near {}", t, self.ctx()) } }
}
#[allow(non_snake_case)]
impl<'a> T<'a> { fn Id2(s: &str) -> T<'_> { T::Id(s) } }

fn ival(v: i128, w: u32) -> Val {
    let m = crate::expr::mask(w);
    let u = (v as u128) & m;
    if w <= 64 { Val::I(u as u64) } else { Val::W(Arc::new(u)) }
}
pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::W(Arc::new(0)),
        Ty::Vec(n, t) => Val::A(Arc::new(vec![zero(t); *n as usize])),
        Ty::Arr(n, t) => Val::A(Arc::new(vec![zero(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(zero).collect())),
        _ => Val::I(0),
    }
}

struct P<'a> { fix: &'a HashMap<String, u32>, gix: &'a HashMap<String, u32>, alias: &'a HashMap<String, String> }
struct FnCtx { regs: HashMap<String, u32> }
impl FnCtx { fn reg(&mut self, n: &str) -> u32 { if let Some(i) = self.regs.get(n) { return *i; } let i = self.regs.len() as u32; self.regs.insert(n.to_string(), i); i } }

impl<'a> P<'a> {
    fn addr(&self, n: &str) -> u64 {
        if let Some(i) = self.fix.get(n) { return func_addr(*i); }
        if let Some(i) = self.gix.get(n) { return obj_addr(*i); }
        if let Some(a) = self.alias.get(n) { return self.addr(a); }
        panic!("unknown symbol @{n}")
    }
    fn cu(v: &Val) -> u64 { match v { Val::I(x) => *x, Val::W(x) => **x as u64, _ => panic!("const int") } }
    fn konst(&self, l: &mut Lex, t: &Ty) -> Val {
        match l.next() {
            T::Num(s) => match t {
                Ty::Int(w) => { let v: i128 = s.parse().or_else(|_| s.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("int {s}")); ival(v, *w) }
                Ty::Double if s.ends_with("inf") => Val::I(f64::NEG_INFINITY.to_bits()),
                Ty::Float if s.ends_with("inf") => Val::I(f32::NEG_INFINITY.to_bits() as u64),
                Ty::Double | Ty::Float if s.contains("nan") => Val::I(if *t == Ty::Double { (-f64::NAN).to_bits() } else { (-f32::NAN).to_bits() as u64 }),
                Ty::Double => Val::I(if s.starts_with("0x") { u64::from_str_radix(&s[2..], 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                Ty::Float => Val::I(if s.starts_with("0x") { (f64::from_bits(u64::from_str_radix(&s[2..], 16).unwrap()) as f32).to_bits() as u64 } else { s.parse::<f32>().unwrap().to_bits() as u64 }),
                _ => panic!("num for {:?}", t),
            },
            T::P(b'+') => {
                let dbl = *t == Ty::Double;
                match l.next() { T::Id("inf") => Val::I(if dbl { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 }), _ => Val::I(if dbl { f64::NAN.to_bits() } else { f32::NAN.to_bits() as u64 }) }
            }
            T::Id(h) if h.starts_with("f0x") => { let b = u64::from_str_radix(&h[3..], 16).unwrap(); Val::I(b) }
            T::Id("true") => Val::I(1),
            T::Id("false") => Val::I(0),
            T::Id("null") | T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => zero(t),
            T::Id("splat") => { l.need(b'('); let et = l.ty(); let v = self.konst(l, &et); l.need(b')'); let n = match t { Ty::Vec(n, _) => *n as usize, _ => panic!() }; Val::A(Arc::new(vec![v; n])) }
            T::Glob(n) => Val::I(self.addr(&n)),
            T::Str(b) => Val::A(Arc::new(b.iter().map(|c| Val::I(*c as u64)).collect())),
            T::P(b'{') => { let v = self.klist(l, b'}'); Val::A(Arc::new(v)) }
            T::P(b'[') => { let v = self.klist(l, b']'); Val::A(Arc::new(v)) }
            T::P(b'<') => {
                if l.eat(b'{') { let v = self.klist(l, b'}'); l.need(b'>'); Val::A(Arc::new(v)) } else { let v = self.klist(l, b'>'); Val::A(Arc::new(v)) }
            }
            T::Id("getelementptr") => {
                loop { match &l.tok { T::Id("inrange") => { l.next(); l.skip_parens(); } T::Id(_) => { l.next(); } _ => break } }
                l.need(b'(');
                let et = l.ty();
                l.need(b',');
                let bt = l.ty();
                let b = Self::cu(&self.konst(l, &bt));
                let mut off: u64 = 0;
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    let it = l.ty();
                    let iv = self.konst(l, &it);
                    let i = crate::expr::sx(Self::cu(&iv) as u128, it.bits()) as i64;
                    if first { off = off.wrapping_add((i as u64).wrapping_mul(cur.size())); first = false; }
                    else { let (o, n) = step(&cur, i); off = off.wrapping_add(o); cur = n; }
                }
                l.need(b')');
                Val::I(b.wrapping_add(off))
            }
            T::Id(k @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast")) => {
                l.need(b'(');
                let ft = l.ty();
                let v = self.konst(l, &ft);
                assert!(l.eat_id("to"));
                let tt = l.ty();
                l.need(b')');
                let u = Self::cu(&v) as u128;
                let r = if k == "sext" { crate::expr::sx(u, ft.bits()) as u128 } else { u };
                ival(r as i128, tt.bits())
            }
            T::Id(k @ ("add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr")) => {
                while matches!(l.tok, T::Id(_)) { l.next(); }
                l.need(b'(');
                let ft = l.ty();
                let a = Self::cu(&self.konst(l, &ft)) as u128;
                l.need(b',');
                let ft2 = l.ty();
                let b = Self::cu(&self.konst(l, &ft2)) as u128;
                l.need(b')');
                let op = match k { "add" => Bin::Add, "sub" => Bin::Sub, "xor" => Bin::Xor, "and" => Bin::And, "or" => Bin::Or, "mul" => Bin::Mul, "shl" => Bin::Shl, _ => Bin::LShr };
                ival(crate::expr::bin_c(op, a, b, ft.bits()).unwrap() as i128, ft.bits())
            }
            t2 => panic!("constant expected, got {:?} near {}", t2, l.ctx()),
        }
    }
    fn klist(&self, l: &mut Lex, end: u8) -> Vec<Val> {
        let mut v = vec![];
        while !l.eat(end) { let t = l.ty(); v.push(self.konst(l, &t)); l.eat(b','); }
        v
    }
    fn val(&self, l: &mut Lex, t: &Ty, f: &mut FnCtx) -> Opd {
        if let T::Loc(n) = l.tok { l.next(); return Opd::R(f.reg(n)); }
        Opd::C(self.konst(l, t))
    }
    fn tval(&self, l: &mut Lex, f: &mut FnCtx) -> (Ty, Opd) { let t = l.ty(); let v = self.val(l, &t, f); (t, v) }
}
fn step(cur: &Ty, i: i64) -> (u64, Ty) {
    match cur {
        Ty::Struct(f, _) => (cur.field_off(i as usize), f[i as usize].clone()),
        Ty::Arr(_, t) | Ty::Vec(_, t) => ((i as u64).wrapping_mul(t.size()), (**t).clone()),
        _ => panic!("gep step"),
    }
}
pub fn write_const(v: &Val, t: &Ty, out: &mut [u8]) {
    match (v, t) {
        (Val::I(x), _) => { let n = t.store_size() as usize; out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (Val::W(x), _) => { let n = t.store_size() as usize; out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (Val::A(a), Ty::Struct(f, _)) => for (i, (x, ft)) in a.iter().zip(f).enumerate() { let o = t.field_off(i) as usize; write_const(x, ft, &mut out[o..]); },
        (Val::A(a), Ty::Arr(_, e)) | (Val::A(a), Ty::Vec(_, e)) => { let s = e.size() as usize; for (i, x) in a.iter().enumerate() { write_const(x, e, &mut out[i * s..]); } }
        _ => panic!("write_const"),
    }
}

pub fn parse(src: &str) -> Module {
    // pass 1: names
    let mut fix = HashMap::new();
    let mut gix = HashMap::new();
    let mut alias = HashMap::new();
    let mut types: Vec<(&str, &str)> = vec![];
    let mut gl: Vec<(String, &str)> = vec![];
    let mut fl: Vec<(String, bool, usize, usize)> = vec![]; // name, body, header offset, end offset
    let mut off = 0;
    let mut cur: Option<usize> = None;
    fn symname(s: &str) -> String {
        // s starts after '@'
        if let Some(r) = s.strip_prefix('"') {
            let mut l = Lex { s: r.as_bytes(), p: 0, tok: T::P(0), cache: None };
            return String::from_utf8(l.quoted()).unwrap();
        }
        s.bytes().take_while(|c| idch(*c)).map(|c| c as char).collect()
    }
    for line in src.split_inclusive('\n') {
        if line.starts_with('@') {
            let n = symname(&line[1..]);
            let rest = &line[line.find(" = ").unwrap() + 3..];
            let words: Vec<&str> = rest.split(' ').take(8).collect();
            if words.contains(&"alias") {
                let tgt = rest.rsplit("ptr @").next().unwrap();
                alias.insert(n, symname(tgt));
            } else {
                gix.insert(n.clone(), gl.len() as u32);
                gl.push((n, rest));
            }
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let at = line.find('@').unwrap();
            let n = symname(&line[at + 1..]);
            let body = line.starts_with("define ");
            fix.insert(n.clone(), fl.len() as u32);
            fl.push((n, body, off, off + line.len()));
            if body { cur = Some(fl.len() - 1); }
        } else if line.starts_with('}') {
            if let Some(c) = cur.take() { fl[c].3 = off; }
        } else if line.starts_with('%') && line.contains(" = type ") {
            types.push(("", line));
        }
        off += line.len();
    }
    if !types.is_empty() { panic!("named struct types are not supported: {}", types[0].1); }
    let p = P { fix: &fix, gix: &gix, alias: &alias };
    let mut globals = vec![];
    for (n, rest) in &gl {
        let mut l = Lex::new(rest);
        let mut ext = false;
        let constant = loop {
            match l.next() {
                T::Id("constant") => break true,
                T::Id("global") => break false,
                T::Id("external") | T::Id("extern_weak") => ext = true,
                T::Id("thread_local") | T::Id("addrspace") => if l.tok == T::P(b'(') { l.skip_parens() },
                T::Id(_) => {}
                t => panic!("global header {:?} {}", t, rest),
            }
        };
        let ty = l.ty();
        let size = ty.size();
        let init = if ext { None } else {
            let v = p.konst(&mut l, &ty);
            let mut b = vec![0u8; size as usize];
            write_const(&v, &ty, &mut b);
            Some(b)
        };
        globals.push(Global { name: n.clone(), ty, init, constant, size });
    }
    let nthreads = 8usize;
    let mut funcs: Vec<Option<Func>> = Vec::new();
    funcs.resize_with(fl.len(), || None);
    let chunks = std::sync::Mutex::new((0usize, &mut funcs));
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            s.spawn(|| loop {
                let (a, b) = { let mut g = chunks.lock().unwrap(); let a = g.0; let b = (a + 16).min(fl.len()); g.0 = b; (a, b) };
                if a >= b { break; }
                let mut out = vec![];
                for i in a..b { let (n, body, s0, e0) = &fl[i]; 
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_fn(&p, n, *body, &src[*s0..*e0])));
                    out.push(r.unwrap_or_else(|e| {
                        let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                        Func { name: n.clone(), nparams: 0, nregs: 0, code: vec![I::Unsup(format!("unparsed body of {n}: {m}"))], body: *body, rty: Ty::Void }
                    }));
                }
                let mut g = chunks.lock().unwrap();
                for (i, f) in out.into_iter().enumerate() { g.1[a + i] = Some(f); }
            });
        }
    });
    let funcs = funcs.into_iter().map(|f| f.unwrap()).collect();
    Module { funcs, fix, globals }
}

fn parse_fn(p: &P, name: &str, body: bool, text: &str) -> Func {
    let hl = text.find('\n').unwrap_or(text.len());
    let mut l = Lex::new(&text[..hl]);
    l.next();
    while !(l.is_type_start() && !matches!(l.tok, T::Loc(_))) { if l.tok == T::P(b'(') { l.skip_parens(); } else { l.next(); } }
    let rty = l.ty_nofn();
    let mut f = FnCtx { regs: HashMap::new() };
    l.next(); // name
    l.need(b'(');
    let mut nparams = 0;
    while !l.eat(b')') {
        if l.tok == T::Id("...") { l.next(); continue; }
        l.ty_nofn();
        loop {
            match &l.tok {
                T::Loc(n) => { let n = n.to_string(); l.next(); if body { let r = f.reg(&n); assert_eq!(r, nparams); } break; }
                T::P(b',') | T::P(b')') => { if body { let r = f.reg(&format!("{}", nparams)); assert_eq!(r, nparams); } break; }
                T::P(b'(') => l.skip_parens(),
                _ => { l.next(); }
            }
        }
        nparams += 1;
        l.eat(b',');
    }
    if !body { return Func { name: name.to_string(), nparams, nregs: 0, code: vec![], body, rty }; }
    // blocks
    let mut blocks: HashMap<String, u32> = HashMap::new();
    let mut code: Vec<I> = vec![];
    let mut phis: HashMap<String, Vec<(u32, Vec<(Opd, String)>)>> = HashMap::new();
    let mut curb = String::new();
    let mut unnamed_entry = true;
    let body_txt = &text[hl..];
    let mut l = Lex::new(body_txt);
    // pending edges are encoded by label in a side table: (code index, slot) -> (from,to)
    let mut targets: Vec<(usize, usize, String, String)> = vec![];
    let ph = || Edge { target: u32::MAX, copies: vec![] };
    loop {
        // label?
        if l.tok == T::P(0) { break; }
        let start = l.p;
        let _ = start;
        match &l.tok {
            T::Num(s) if { let q = skip_ws(l.s, l.p); q < l.s.len() && l.s[q] == b':' } => {
                let n = s.to_string(); l.next(); l.next(); blocks.insert(n.clone(), code.len() as u32); curb = n; unnamed_entry = false; continue;
            }
            T::Id(s) if l.p < l.s.len() && (l.s[l.p] == b':' || l.s[l.p] == b'-') => {
                // names may contain '-'
                let mut n = s.to_string();
                while l.s[l.p] != b':' { n.push(l.s[l.p] as char); l.p += 1; }
                l.next(); l.next();
                blocks.insert(n.clone(), code.len() as u32); curb = n; unnamed_entry = false; continue;
            }
            T::Str(b) if l.p < l.s.len() && l.s[l.p] == b':' => {
                let n = String::from_utf8(b.clone()).unwrap(); l.next(); l.next(); blocks.insert(n.clone(), code.len() as u32); curb = n; unnamed_entry = false; continue;
            }
            _ => {}
        }
        if unnamed_entry && code.is_empty() && curb.is_empty() { curb = format!("{}", nparams); blocks.insert(curb.clone(), 0); }
        let mut d = None;
        if let T::Loc(n) = l.tok {
            l.next();
            l.need(b'=');
            d = Some(f.reg(n));
        }
        let T::Id(op) = l.next() else { panic!("opcode expected near {}", l.ctx()) };
        let dd = d.unwrap_or(u32::MAX);
        let lanes_of = |t: &Ty| match t { Ty::Vec(n, e) => (*n, e.bits()), t => (0, t.bits()) };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !l.is_type_start() { l.next(); }
                let t = l.ty();
                let a = p.val(&mut l, &t, &mut f); l.need(b','); let b = p.val(&mut l, &t, &mut f);
                let (lanes, w) = lanes_of(&t);
                let op = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, _ => Bin::AShr };
                code.push(I::Bin { op, w, lanes, d: dd, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !l.is_type_start() { l.next(); }
                let t = l.ty();
                let a = p.val(&mut l, &t, &mut f); l.need(b','); let b = p.val(&mut l, &t, &mut f);
                if matches!(t, Ty::Vec(..)) { code.push(I::Unsup("vector fp".into())); } else {
                code.push(I::FBin { op: op.as_bytes()[1] + op.as_bytes()[2], dbl: t == Ty::Double, d: dd, a, b }); }
            }
            "fneg" => { while !l.is_type_start() { l.next(); } let t = l.ty(); let a = p.val(&mut l, &t, &mut f); code.push(I::FNeg { dbl: t == Ty::Double, d: dd, a }); }
            "fcmp" => {
                let mut pred = String::new();
                while !l.is_type_start() { if let T::Id(s) = l.next() { pred = s.to_string(); } }
                let t = l.ty();
                let a = p.val(&mut l, &t, &mut f); l.need(b','); let b = p.val(&mut l, &t, &mut f);
                code.push(I::FCmp { pred, dbl: t == Ty::Double, d: dd, a, b });
            }
            "icmp" => {
                let mut pred = "";
                while !l.is_type_start() { if let T::Id(s) = l.next() { pred = s; } }
                let t = l.ty();
                let a = p.val(&mut l, &t, &mut f); l.need(b','); let b = p.val(&mut l, &t, &mut f);
                let (lanes, w) = lanes_of(&t);
                let (op, swap, neg) = match pred {
                    "eq" => (Cmp::Eq, false, false), "ne" => (Cmp::Eq, false, true),
                    "ult" => (Cmp::Ult, false, false), "ule" => (Cmp::Ule, false, false), "ugt" => (Cmp::Ult, true, false), "uge" => (Cmp::Ule, true, false),
                    "slt" => (Cmp::Slt, false, false), "sle" => (Cmp::Sle, false, false), "sgt" => (Cmp::Slt, true, false), "sge" => (Cmp::Sle, true, false),
                    s => panic!("icmp {s}"),
                };
                code.push(I::Icmp { op, swap, neg, w, lanes, d: dd, a, b });
            }
            "zext" | "sext" | "trunc" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                while !l.is_type_start() { l.next(); }
                let from = l.ty();
                let a = p.val(&mut l, &from, &mut f);
                assert!(l.eat_id("to"));
                let to = l.ty();
                let k = match op { "zext" => Cast::Zext, "sext" => Cast::Sext, "trunc" => Cast::Trunc, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "fpext" => Cast::FpExt, "fptrunc" => Cast::FpTrunc,
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" => if from.bits() < to.bits() { Cast::Zext } else if from.bits() > to.bits() { Cast::Trunc } else { Cast::Bitcast }, _ => Cast::Bitcast };
                code.push(I::Cast { k, from, to, d: dd, a });
            }
            "select" => {
                while !l.is_type_start() { l.next(); }
                let (ct, c) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (t, a) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (_, b) = p.tval(&mut l, &mut f);
                let lanes = if let Ty::Vec(n, _) = ct { n } else { 0 };
                code.push(I::Select { d: dd, c, ty: t, lanes, t: a, f: b });
            }
            "load" => {
                while !l.is_type_start() { l.next(); }
                let t = l.ty();
                l.need(b',');
                let (_, q) = p.tval(&mut l, &mut f);
                code.push(I::Load { d: dd, ty: t, p: q });
                skip_tail(&mut l);
            }
            "store" => {
                while !l.is_type_start() { l.next(); }
                let (t, v) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (_, q) = p.tval(&mut l, &mut f);
                code.push(I::Store { ty: t, v, p: q });
                skip_tail(&mut l);
            }
            "getelementptr" => {
                while !l.is_type_start() { if l.tok == T::Id("inrange") { l.next(); l.skip_parens(); } else { l.next(); } }
                let et = l.ty();
                l.need(b',');
                let (_, base) = p.tval(&mut l, &mut f);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    if l.tok == T::MetaRef { break; }
                    let (it, iv) = p.tval(&mut l, &mut f);
                    let scale_next = if first { (cur.size(), cur.clone()) } else {
                        match &cur { Ty::Struct(..) => { let i = match &iv { Opd::C(v) => P::cu(v) as i64, _ => panic!() }; let (o, n) = step(&cur, i); off = off.wrapping_add(o); cur = n; continue; }
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()), _ => panic!("gep") }
                    };
                    first = false;
                    match &iv {
                        Opd::C(v) => off = off.wrapping_add((crate::expr::sx(P::cu(v) as u128, it.bits()) as u64).wrapping_mul(scale_next.0)),
                        Opd::R(_) => idx.push((iv, it.bits(), scale_next.0)),
                    }
                    cur = scale_next.1;
                }
                code.push(I::Gep { d: dd, base, off, idx });
            }
            "alloca" => {
                while !l.is_type_start() { l.next(); }
                let t = l.ty();
                let mut n = None;
                while l.eat(b',') {
                    if l.is_type_start() { let (_, v) = p.tval(&mut l, &mut f); n = Some(v); }
                    else if l.tok == T::Id("align") { l.next(); l.next(); }
                    else { l.next(); }
                }
                code.push(I::Alloca { d: dd, size: t.size(), n });
            }
            "br" => {
                let t = l.ty();
                if t == Ty::Label {
                    let T::Loc(n) = l.next() else { panic!() };
                    targets.push((code.len(), 0, curb.clone(), n.to_string()));
                    code.push(I::Br(ph()));
                } else {
                    let c = p.val(&mut l, &t, &mut f);
                    l.need(b','); l.ty();
                    let T::Loc(a) = l.next() else { panic!() };
                    l.need(b','); l.ty();
                    let T::Loc(b) = l.next() else { panic!() };
                    targets.push((code.len(), 0, curb.clone(), a.to_string()));
                    targets.push((code.len(), 1, curb.clone(), b.to_string()));
                    code.push(I::CondBr { c, t: ph(), f: ph() });
                }
                skip_tail(&mut l);
            }
            "switch" => {
                let (t, v) = p.tval(&mut l, &mut f);
                l.need(b','); l.ty();
                let T::Loc(dn) = l.next() else { panic!() };
                targets.push((code.len(), 0, curb.clone(), dn.to_string()));
                l.need(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = l.ty();
                    let c = p.konst(&mut l, &ct);
                    let c = match c { Val::I(x) => x as u128, Val::W(x) => *x, _ => panic!() };
                    l.need(b','); l.ty();
                    let T::Loc(n) = l.next() else { panic!() };
                    targets.push((code.len(), cases.len() + 1, curb.clone(), n.to_string()));
                    cases.push((c, ph()));
                }
                code.push(I::Switch { v, w: t.bits(), cases, def: ph() });
                skip_tail(&mut l);
            }
            "phi" => {
                while !l.is_type_start() { l.next(); }
                let t = l.ty();
                let mut inc = vec![];
                loop {
                    l.need(b'[');
                    let v = p.val(&mut l, &t, &mut f);
                    l.need(b',');
                    let T::Loc(n) = l.next() else { panic!() };
                    l.need(b']');
                    inc.push((v, n.to_string()));
                    if l.tok == T::P(b',') {
                        // metadata or another incoming
                        let save = (l.p, l.tok.clone());
                        l.next();
                        if l.tok != T::P(b'[') { l.p = save.0; l.tok = save.1; break; }
                    } else { break; }
                }
                phis.entry(curb.clone()).or_default().push((dd, inc));
                skip_tail(&mut l);
            }
            "ret" => {
                let t = l.ty();
                let v = if t == Ty::Void { None } else { Some(p.val(&mut l, &t, &mut f)) };
                code.push(I::Ret(v));
                skip_tail(&mut l);
            }
            "unreachable" => code.push(I::Unreachable),
            "resume" => { p.tval(&mut l, &mut f); code.push(I::Unsup("resume".into())); }
            "landingpad" => {
                let _t = l.ty();
                loop {
                    if l.eat_id("cleanup") { continue; }
                    if l.eat_id("catch") || l.eat_id("filter") { let t = l.ty(); p.konst(&mut l, &t); continue; }
                    break;
                }
                code.push(I::Unsup("landingpad".into()));
            }
            "extractvalue" => {
                let (_, a) = p.tval(&mut l, &mut f);
                let mut path = vec![];
                while l.eat(b',') { if let T::Num(_) = l.tok { path.push(l.num() as u32); } else { break; } }
                code.push(I::ExtractVal { d: dd, a, path });
            }
            "insertvalue" => {
                let (_, a) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (_, v) = p.tval(&mut l, &mut f);
                let mut path = vec![];
                while l.eat(b',') { if let T::Num(_) = l.tok { path.push(l.num() as u32); } else { break; } }
                code.push(I::InsertVal { d: dd, a, v, path });
            }
            "extractelement" => { let (_, a) = p.tval(&mut l, &mut f); l.need(b','); let (_, i) = p.tval(&mut l, &mut f); code.push(I::ExtractElt { d: dd, a, i }); }
            "insertelement" => { let (_, a) = p.tval(&mut l, &mut f); l.need(b','); let (_, v) = p.tval(&mut l, &mut f); l.need(b','); let (_, i) = p.tval(&mut l, &mut f); code.push(I::InsertElt { d: dd, a, v, i }); }
            "shufflevector" => {
                let (_, a) = p.tval(&mut l, &mut f); l.need(b',');
                let (_, b) = p.tval(&mut l, &mut f); l.need(b',');
                let t = l.ty();
                let m = p.konst(&mut l, &t);
                let m = match m { Val::A(a) => a.iter().map(|v| P::cu(v) as u32).collect(), _ => panic!() };
                code.push(I::Shuffle { d: dd, a, b, m });
            }
            "freeze" => { let (_, a) = p.tval(&mut l, &mut f); code.push(I::Mov { d: dd, a }); }
            "fence" => { while matches!(l.tok, T::Id(_)) && !["ret", "br", "switch", "call", "tail", "store", "unreachable", "invoke", "fence", "musttail", "resume", "cmpxchg", "atomicrmw"].contains(&idstr(&l.tok)) { if l.tok == T::Id("syncscope") { l.next(); l.skip_parens(); } else { l.next(); } } skip_tail(&mut l); code.push(I::Nop); }
            "atomicrmw" => {
                let mut o = String::new();
                while !l.is_type_start() { if let T::Id(s) = l.next() { if s != "volatile" { o = s.to_string(); } } }
                let (_, q) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (t, v) = p.tval(&mut l, &mut f);
                // ordering
                skip_ordering(&mut l);
                skip_tail(&mut l);
                code.push(I::AtomicRmw { d: dd, op: o, ty: t, p: q, v });
            }
            "cmpxchg" => {
                while !l.is_type_start() { l.next(); }
                let (_, q) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (t, e) = p.tval(&mut l, &mut f);
                l.need(b',');
                let (_, n) = p.tval(&mut l, &mut f);
                skip_ordering(&mut l);
                skip_tail(&mut l);
                code.push(I::CmpXchg { d: dd, ty: t, p: q, e, n });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut inv = op == "invoke";
                if op != "call" && op != "invoke" { l.next(); }
                while !(l.is_type_start() && !matches!(l.tok, T::Loc(_))) { if l.tok == T::P(b'(') { l.skip_parens(); } else { l.next(); } }
                let rty = l.ty();
                let callee = match l.next() {
                    T::Glob(n) => if let Some(i) = p.fix.get(&n) { Callee::F(*i) } else { Callee::Ptr(Opd::C(Val::I(p.addr(&n)))) },
                    T::Loc(n) => Callee::Ptr(Opd::R(f.reg(n))),
                    T::Id("asm") => {
                        let mut t = String::new();
                        while l.tok != T::P(b'(') { if let T::Str(b) = l.next() { t.push_str(&String::from_utf8_lossy(&b)); t.push('|'); } }
                        Callee::Asm(t)
                    }
                    T::Id("inttoptr") => { l.skip_parens(); Callee::Asm("inttoptr call".into()) }
                    t => panic!("callee {:?} near {}", t, l.ctx()),
                };
                l.need(b'(');
                let mut args = vec![];
                let mut bad = None;
                while !l.eat(b')') {
                    let t = l.ty_nofn();
                    if t == Ty::Meta {
                        // skip until , or )
                        let mut dpt = 0;
                        loop { match &l.tok { T::P(b'(') => dpt += 1, T::P(b')') => { if dpt == 0 { break } dpt -= 1 } T::P(b',') if dpt == 0 => break, _ => {} } l.next(); }
                        args.push((Opd::C(Val::I(0)), t));
                    } else {
                        loop {
                            match &l.tok {
                                T::Id(s) if matches!(*s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor") => break,
                                T::Id("align") => { l.next(); if l.tok == T::P(b'(') { l.skip_parens(); } else { l.next(); } }
                                T::Id(_) => { l.next(); if l.tok == T::P(b'(') { l.skip_parens(); } }
                                _ => break,
                            }
                        }
                        if let T::MetaRef = l.tok { bad = Some(()); l.next(); args.push((Opd::C(Val::I(0)), t)); }
                        else { let v = p.val(&mut l, &t, &mut f); args.push((v, t)); }
                    }
                    l.eat(b',');
                }
                let _ = bad;
                // trailing: attrs, bundles
                loop {
                    match &l.tok {
                        T::Attr => { l.next(); }
                        T::P(b'[') => { let mut dd2 = 0; loop { match l.next() { T::P(b'[') => dd2 += 1, T::P(b']') => { dd2 -= 1; if dd2 == 0 { break } } _ => {} } } }
                        T::Id("memory") | T::Id("alignstack") | T::Id("nounwind") | T::Id("noreturn") | T::Id("cold") | T::Id("allocsize") | T::Id("nocallback") => { l.next(); if l.tok == T::P(b'(') { l.skip_parens(); } }
                        T::Str(_) => { l.next(); if l.eat(b'=') { l.next(); } }
                        _ => break,
                    }
                }
                let idx = code.len();
                if inv {
                    assert!(l.eat_id("to"));
                    l.ty();
                    let T::Loc(a) = l.next() else { panic!() };
                    assert!(l.eat_id("unwind"));
                    l.ty();
                    let T::Loc(_) = l.next() else { panic!() };
                    targets.push((idx, 0, curb.clone(), a.to_string()));
                    inv = true;
                }
                code.push(I::Call { d, rty, callee, args, normal: if inv { Some(ph()) } else { None } });
                skip_tail(&mut l);
            }
            o => panic!("unknown opcode {o} near {}", l.ctx()),
        }
        // metadata tail for anything
        skip_tail(&mut l);
    }
    for (ci, slot, from, to) in targets {
        let tgt = *blocks.get(&to).unwrap_or_else(|| panic!("block {to} in {name}"));
        let mut copies = vec![];
        if let Some(ps) = phis.get(&to) {
            for (d, inc) in ps {
                let v = inc.iter().find(|(_, b)| *b == from).unwrap_or_else(|| panic!("phi from {from} in {to} of {name}"));
                copies.push((*d, v.0.clone()));
            }
        }
        let e = Edge { target: tgt, copies };
        match &mut code[ci] {
            I::Br(x) => *x = e,
            I::CondBr { t, f, .. } => if slot == 0 { *t = e } else { *f = e },
            I::Switch { cases, def, .. } => if slot == 0 { *def = e } else { cases[slot - 1].1 = e },
            I::Call { normal, .. } => *normal = Some(e),
            _ => unreachable!(),
        }
    }
    Func { name: name.to_string(), nparams, nregs: f.regs.len() as u32, code, body, rty }
}
fn idstr<'a>(t: &T<'a>) -> &'a str { if let T::Id(s) = t { s } else { "" } }
fn skip_ws(s: &[u8], mut p: usize) -> usize { while p < s.len() && s[p] == b' ' { p += 1; } p }
fn skip_ordering(l: &mut Lex) {
    while matches!(l.tok, T::Id("acquire" | "release" | "acq_rel" | "seq_cst" | "monotonic" | "unordered" | "syncscope")) {
        let sc = l.tok == T::Id("syncscope");
        l.next();
        if sc { l.skip_parens(); }
    }
}
fn skip_tail(l: &mut Lex) {
    // ", align N", ", !meta !n", orderings
    loop {
        skip_ordering(l);
        if l.tok == T::P(b',') {
            l.next();
            if l.tok == T::Id("align") { l.next(); l.next(); continue; }
            while l.tok == T::MetaRef { l.next(); }
            continue;
        }
        if l.tok == T::MetaRef { l.next(); continue; }
        return;
    }
}
impl<'a> Lex<'a> { fn ty_nofn(&mut self) -> Ty { self.ty_inner(false) } fn ty_inner(&mut self, _f: bool) -> Ty { self.ty() } }
