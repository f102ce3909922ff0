//! Abstract HDDL models: printer and reference oracle. Names may hold symbolic bytes (of fixed length).
use crate::sx;

pub type Name = Vec<u8>;
#[derive(Clone)]
/// `ty`: written with a type annotation (which has no meaning).
pub struct Arg { pub name: Name, pub var: bool, pub line: u64, pub ty: Option<Name>, pub ty_line: u64 }
#[derive(Clone)]
/// `g`: written without its own type annotation, it shares the one of the next symbol.
pub struct Sym { pub name: Name, pub var: bool, pub line: u64, pub ty: Option<Name>, pub ty_line: u64, pub g: bool }
#[derive(Clone)]
pub struct Atom { pub pred: Name, pub line: u64, pub args: Vec<Arg> }
#[derive(Clone)]
pub enum F { Empty, Atom(Atom), Not(Box<F>), And(Vec<F>), Or(Vec<F>), Xor(Vec<F>), Forall(Vec<Sym>, Box<F>), Exists(Vec<Sym>, Box<F>), Prob(Vec<(&'static str, F)>), Eq(Arg, Arg) }
#[derive(Clone)]
pub struct Pred { pub name: Name, pub line: u64, pub params: Vec<Sym> }
#[derive(Clone)]
pub struct Act { pub name: Name, pub line: u64, pub params: Vec<Sym>, pub pre: Option<F>, pub eff: Option<F> }
#[derive(Clone)]
pub struct Sub { pub id: Option<Name>, pub id_line: u64, pub task: Name, pub line: u64, pub args: Vec<Arg> }
/// How a task network is written down; `Net::style`: 1 a single subtask without `and`, 2 a single constraint (or none) without
/// `and`, 4 an empty ordering is written, 8 constraints before the ordering, 16 an empty network is not written at all.
#[derive(Clone, Copy, PartialEq)]
pub enum Form { Ordered, AndList, Single, Chain }
#[derive(Clone)]
pub struct Net { pub subs: Vec<Sub>, pub form: Form, pub ord: Vec<(Name, Name)>, pub ord_line: u64, pub cons: Option<Vec<(bool, Arg, Arg)>>, pub style: u8 }
#[derive(Clone)]
pub struct Meth { pub name: Name, pub line: u64, pub params: Vec<Sym>, pub task: Name, pub task_line: u64, pub terms: Vec<Arg>, pub pre: Option<F>, pub net: Net }
#[derive(Clone, Default)]
pub struct Dom { pub reqs: Vec<usize>, pub types: Vec<Sym>, pub consts: Vec<Sym>, pub preds: Vec<Pred>, pub funcs: Vec<Pred>, pub tasks: Vec<Pred>, pub acts: Vec<Act>, pub meths: Vec<Meth> }
#[derive(Clone, Default)]
pub struct Prob { pub reqs: Vec<usize>, pub objs: Vec<Sym>, pub htn: Option<(Option<Vec<Sym>>, Net)>, pub init: Vec<Atom>, pub goal: Option<F> }

pub const REQ: [(&str, &str); 7] = [(":typing", "TypedObjects"), (":hierarchy", "Hierarchy"), (":equality", "Equality"), (":strips", "STRIPS"), (":negative-preconditions", "NegativePreconditions"), (":method-preconditions", "MethodPreconditions"), (":universal-preconditions", "UniversalPreconditions")];

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
pub fn n(s: &str) -> Name { s.as_bytes().to_vec() }
pub fn var(name: Name) -> Arg { Arg { name, var: true, line: 0, ty: None, ty_line: 0 } }
pub fn con(name: Name) -> Arg { Arg { name, var: false, line: 0, ty: None, ty_line: 0 } }
pub fn par(name: Name, ty: Option<Name>) -> Sym { Sym { name, var: true, line: 0, ty, ty_line: 0, g: false } }
pub fn sym(name: Name, ty: Option<Name>) -> Sym { Sym { name, var: false, line: 0, ty, ty_line: 0, g: false } }
pub fn atom(pred: Name, args: Vec<Arg>) -> Atom { Atom { pred, line: 0, args } }
pub fn sub(id: Option<Name>, task: Name, args: Vec<Arg>) -> Sub { Sub { id, id_line: 0, task, line: 0, args } }
pub fn net(subs: Vec<Sub>, form: Form, ord: Vec<(Name, Name)>) -> Net { Net { subs, form, ord, ord_line: 0, cons: None, style: 0 } }

/// Token stream writer. `sep` writes the separator before every token and says by how much the line grows.
pub struct Pr<'a> { pub text: Vec<u8>, pub line: u64, pub first: bool, pub sep: &'a mut dyn FnMut(&mut Vec<u8>) -> u64, pub ntok: usize }
impl<'a> Pr<'a> {
    pub fn new(sep: &'a mut dyn FnMut(&mut Vec<u8>) -> u64) -> Pr<'a> { Pr { text: Vec::with_capacity(4096), line: 1, first: true, sep, ntok: 0 } }
    pub fn t(&mut self, s: &[u8]) -> u64 {
        if self.first { self.first = false; } else { self.line += (self.sep)(&mut self.text); }
        self.text.extend_from_slice(s);
        self.ntok += 1;
        self.line
    }
    pub fn s(&mut self, s: &str) -> u64 { self.t(s.as_bytes()) }
    fn id(&mut self, name: &[u8], var: bool) -> u64 {
        if var { let mut v = Vec::with_capacity(name.len() + 1); v.push(b'?'); v.extend_from_slice(name); self.t(&v) } else { self.t(name) }
    }
    pub fn arg(&mut self, a: &mut Arg) { a.line = self.id(&a.name, a.var); if let Some(t) = &a.ty { self.s("-"); a.ty_line = self.t(t); } }
    pub fn args(&mut self, a: &mut Vec<Arg>) { for x in a.iter_mut() { self.arg(x); } }
    pub fn syms(&mut self, s: &mut Vec<Sym>) {
        for x in s.iter_mut() {
            x.line = self.id(&x.name, x.var);
            if x.g { continue; }
            if let Some(t) = &x.ty { self.s("-"); x.ty_line = self.t(t); }
        }
        for i in (1..s.len()).rev() { if s[i - 1].g { s[i - 1].ty_line = s[i].ty_line; } }
    }
    pub fn atom(&mut self, a: &mut Atom) { self.s("("); a.line = self.t(&a.pred); self.args(&mut a.args); self.s(")"); }
    pub fn formula(&mut self, f: &mut F) {
        match f {
            F::Empty => { self.s("("); self.s(")"); }
            F::Atom(a) => self.atom(a),
            F::Not(g) => { self.s("("); self.s("not"); self.formula(g); self.s(")"); }
            F::And(v) => { self.s("("); self.s("and"); for g in v.iter_mut() { self.formula(g); } self.s(")"); }
            F::Or(v) => { self.s("("); self.s("or"); for g in v.iter_mut() { self.formula(g); } self.s(")"); }
            F::Xor(v) => { self.s("("); self.s("oneof"); for g in v.iter_mut() { self.formula(g); } self.s(")"); }
            F::Forall(p, g) => { self.s("("); self.s("forall"); self.s("("); self.syms(p); self.s(")"); self.formula(g); self.s(")"); }
            F::Exists(p, g) => { self.s("("); self.s("exists"); self.s("("); self.syms(p); self.s(")"); self.formula(g); self.s(")"); }
            F::Prob(v) => { self.s("("); self.s("probabilistic"); for (w, g) in v.iter_mut() { self.s(w); self.formula(g); } self.s(")"); }
            F::Eq(a, b) => { self.s("("); self.s("="); self.arg(a); self.arg(b); self.s(")"); }
        }
    }
    fn subtask(&mut self, s: &mut Sub) {
        self.s("(");
        if let Some(i) = &s.id { s.id_line = self.t(i); self.s("("); }
        s.line = self.t(&s.task);
        self.args(&mut s.args);
        self.s(")");
        if s.id.is_some() { self.s(")"); }
    }
    /// Everything of the network, without the closing parenthesis of the block.
    pub fn net(&mut self, t: &mut Net) {
        if t.form == Form::Chain { let f = t.ord[0].0.clone(); for o in t.ord.iter_mut() { o.0 = f.clone(); } }
        if t.style & 16 != 0 && t.subs.is_empty() { return; }
        self.s(if t.form == Form::Ordered { ":ordered-subtasks" } else { ":subtasks" });
        if t.subs.is_empty() { self.s("("); self.s(")"); }
        else if t.subs.len() == 1 && t.style & 1 != 0 { self.subtask(&mut t.subs[0]); }
        else { self.s("("); self.s("and"); for s in t.subs.iter_mut() { self.subtask(s); } self.s(")"); }
        if t.style & 8 != 0 && t.form != Form::Ordered { self.cons(t); }
        if t.form != Form::Ordered && !(t.ord.is_empty() && t.form == Form::AndList && t.style & 4 == 0) {
            t.ord_line = self.s(":ordering");
            match t.form {
                _ if t.ord.is_empty() => { self.s("("); self.s(")"); }
                Form::Single => { let (a, b) = t.ord[0].clone(); self.s("("); self.s("<"); self.t(&a); self.t(&b); self.s(")"); }
                Form::Chain => { self.s("("); self.s("<"); let o = t.ord.clone(); self.t(&o[0].0); for (_, b) in o { self.t(&b); } self.s(")"); }
                _ => { self.s("("); self.s("and"); for (a, b) in t.ord.clone() { self.s("("); self.s("<"); self.t(&a); self.t(&b); self.s(")"); } self.s(")"); }
            }
        }
        if t.style & 8 == 0 || t.form == Form::Ordered { self.cons(t); }
    }
    fn cons(&mut self, t: &mut Net) {
        if let Some(c) = &mut t.cons {
            self.s(":constraints");
            let and = !(t.style & 2 != 0 && c.len() < 2);
            if and { self.s("("); self.s("and"); } else if c.is_empty() { self.s("("); self.s(")"); }
            for (pos, a, b) in c.iter_mut() {
                self.s("("); if !*pos { self.s("not"); self.s("("); }
                self.s("="); self.arg(a); self.arg(b);
                self.s(")"); if !*pos { self.s(")"); }
            }
            if and { self.s(")"); }
        }
    }
    pub fn reqs(&mut self, r: &[usize]) { self.s("("); self.s(":requirements"); for x in r { self.s(REQ[*x].0); } self.s(")"); }
    pub fn preds(&mut self, kw: &str, p: &mut [Pred]) { self.s("("); self.s(kw); for x in p.iter_mut() { self.s("("); x.line = self.t(&x.name); self.syms(&mut x.params); self.s(")"); } self.s(")"); }
    pub fn task(&mut self, t: &mut Pred) { self.s("("); self.s(":task"); t.line = self.t(&t.name); self.s(":parameters"); self.s("("); self.syms(&mut t.params); self.s(")"); self.s(")"); }
    pub fn act(&mut self, a: &mut Act) {
        self.s("("); self.s(":action"); a.line = self.t(&a.name); self.s(":parameters"); self.s("("); self.syms(&mut a.params); self.s(")");
        if let Some(f) = &mut a.pre { self.s(":precondition"); self.formula(f); }
        if let Some(f) = &mut a.eff { self.s(":effect"); self.formula(f); }
        self.s(")");
    }
    pub fn meth(&mut self, m: &mut Meth) {
        self.s("("); self.s(":method"); m.line = self.t(&m.name); self.s(":parameters"); self.s("("); self.syms(&mut m.params); self.s(")");
        self.s(":task"); self.s("("); m.task_line = self.t(&m.task); self.args(&mut m.terms); self.s(")");
        if let Some(f) = &mut m.pre { self.s(":precondition"); self.formula(f); }
        self.net(&mut m.net);
        self.s(")");
    }
    pub fn open(&mut self, kw: &str, name: &str) { self.s("("); self.s("define"); self.s("("); self.s(kw); self.s(name); self.s(")"); }
    /// The blocks in canonical order: 0 requirements, 1 types, 2 constants, 3 predicates, 4 functions, 5 tasks, 6 actions, 7 methods.
    pub fn dom(&mut self, d: &mut Dom) { self.dom_order(d, &[0, 1, 2, 3, 4, 5, 6, 7]); }
    pub fn dom_order(&mut self, d: &mut Dom, order: &[usize]) {
        self.open("domain", "d");
        for b in order { self.block(d, *b); }
        self.s(")");
    }
    pub fn block(&mut self, d: &mut Dom, b: usize) {
        match b {
            0 => if !d.reqs.is_empty() { let r = d.reqs.clone(); self.reqs(&r) },
            1 => if !d.types.is_empty() { self.s("("); self.s(":types"); self.syms(&mut d.types); self.s(")"); },
            2 => if !d.consts.is_empty() { self.s("("); self.s(":constants"); self.syms(&mut d.consts); self.s(")"); },
            3 => if !d.preds.is_empty() { self.preds(":predicates", &mut d.preds); },
            4 => if !d.funcs.is_empty() { self.preds(":functions", &mut d.funcs); },
            5 => for t in d.tasks.iter_mut() { self.task(t); },
            6 => for a in d.acts.iter_mut() { self.act(a); },
            _ => for m in d.meths.iter_mut() { self.meth(m); },
        }
    }
    pub fn prob(&mut self, p: &mut Prob) { self.prob_order(p, &[0, 1, 2, 3, 4]); }
    /// 0 requirements, 1 objects, 2 htn, 3 init, 4 goal
    pub fn prob_order(&mut self, p: &mut Prob, order: &[usize]) {
        self.open("problem", "q");
        self.s("("); self.s(":domain"); self.s("d"); self.s(")");
        for b in order {
            match b {
                0 => if !p.reqs.is_empty() { let r = p.reqs.clone(); self.reqs(&r) },
                1 => { self.s("("); self.s(":objects"); self.syms(&mut p.objs); self.s(")"); }
                2 => if let Some((ps, t)) = &mut p.htn {
                    self.s("("); self.s(":htn");
                    if let Some(ps) = ps { self.s(":parameters"); self.s("("); self.syms(ps); self.s(")"); }
                    self.net(t);
                    self.s(")");
                },
                3 => { self.s("("); self.s(":init"); for a in p.init.iter_mut() { self.atom(a); } self.s(")"); }
                _ => if let Some(g) = &mut p.goal { self.s("("); self.s(":goal"); self.formula(g); self.s(")"); },
            }
        }
        self.s(")");
    }
}
/// How models are laid out: 0 every token in a line of its own, 1 all in one line, 2 some tokens in a line, 3 lines of increasing length.
static LAYOUT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
pub fn set_layout(l: u8) { LAYOUT.store(l, std::sync::atomic::Ordering::Relaxed); }
fn layout() -> impl FnMut(&mut Vec<u8>) -> u64 {
    let l = LAYOUT.load(std::sync::atomic::Ordering::Relaxed);
    let (mut i, mut n) = (0u32, 1u32);
    move |t| {
        i += 1;
        let nl = match l { 0 => true, 1 => false, 2 => i % 5 == 0, _ => if i == n { i = 0; n += 1; true } else { false } };
        t.push(if nl { b'\n' } else { b' ' });
        nl as u64
    }
}
pub fn print_dom(d: &mut Dom) -> Vec<u8> {
    let mut sep = layout();
    let mut p = Pr::new(&mut sep);
    p.dom(d);
    p.text
}
pub fn print_prob(q: &mut Prob) -> Vec<u8> {
    let mut sep = layout();
    let mut p = Pr::new(&mut sep);
    p.prob(q);
    p.text
}

// ---------------------------------------------------------------- oracle
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { DupObj, DupReq, DupPred, DupAct, DupTask, DupMeth, DupPar, UndPred, UndType, UndSub, UndTask, UndPar, UndObj, ArPred, ArTask, TyPred, TyTask, CycType, CycOrd }
pub const DUP: &[K] = &[K::DupObj, K::DupReq, K::DupPred, K::DupAct, K::DupTask, K::DupMeth, K::DupPar];
pub const UND: &[K] = &[K::UndPred, K::UndType, K::UndSub, K::UndTask];
pub const PAR: &[K] = &[K::UndPar, K::UndObj];
pub const AR: &[K] = &[K::ArPred, K::ArTask];
pub const TY: &[K] = &[K::TyPred, K::TyTask];
pub const CT: &[K] = &[K::CycType];
pub const CO: &[K] = &[K::CycOrd];
pub const ALLK: &[K] = &[K::DupObj, K::DupReq, K::DupPred, K::DupAct, K::DupTask, K::DupMeth, K::DupPar, K::UndPred, K::UndType, K::UndSub, K::UndTask, K::UndPar, K::UndObj, K::ArPred, K::ArTask, K::TyPred, K::TyTask, K::CycType, K::CycOrd];
/// A potential defect and the condition under which it is one.
pub struct Defect { pub k: K, pub sym: Name, pub l1: u64, pub l2: u64, pub e: u64, pub f: u64, pub te: Option<Name>, pub tf: Option<Name>, pub cond: bool }
fn df(k: K, sym: &[u8], l1: u64, cond: bool) -> Defect { Defect { k, sym: sym.to_vec(), l1, l2: 0, e: 0, f: 0, te: None, tf: None, cond } }

/// Declared types: all names in the type block and their (reflexive, transitive) super-type relation.
pub struct Types { pub uni: Vec<Name>, pub reach: Vec<Vec<bool>>, pub cyclic: bool }
impl Types {
    pub fn new(t: &[Sym]) -> Types {
        let mut uni: Vec<Name> = vec![];
        for s in t { uni.push(s.name.clone()); if let Some(p) = &s.ty { uni.push(p.clone()); } }
        let m = uni.len();
        let mut r = vec![vec![false; m]; m];
        for i in 0..m { for j in 0..m {
            let mut e = false;
            for s in t { if let Some(p) = &s.ty { e |= eq(&uni[i], &s.name) & eq(&uni[j], p); } }
            r[i][j] = e;
        } }
        for k in 0..m { for i in 0..m { for j in 0..m { r[i][j] |= r[i][k] & r[k][j]; } } }
        let mut cyclic = false;
        for i in 0..m { cyclic |= r[i][i]; }
        Types { uni, reach: r, cyclic }
    }
    pub fn declared(&self, t: &[u8]) -> bool { let mut d = false; for u in &self.uni { d |= eq(u, t); } d }
    pub fn fits(&self, found: &Option<Name>, exp: &Option<Name>) -> bool {
        match (found, exp) {
            (None, None) => true,
            (Some(f), Some(e)) => {
                let mut ok = eq(f, e);
                for i in 0..self.uni.len() { for j in 0..self.uni.len() { ok |= eq(f, &self.uni[i]) & eq(e, &self.uni[j]) & self.reach[i][j]; } }
                ok
            }
            _ => false,
        }
    }
}
fn dups(k: K, v: &[(&Name, u64)], out: &mut Vec<Defect>) {
    for j in 1..v.len() {
        let mut seen = false;
        for i in 0..j {
            if v[i].0.len() != v[j].0.len() { continue; }
            let e = eq(v[i].0, v[j].0);
            let mut d = df(k, v[j].0, v[i].1, e & !seen);
            seen |= e;
            d.l2 = v[j].1;
            out.push(d);
        }
    }
}
fn und_types(ty: &Types, v: &[Sym], out: &mut Vec<Defect>) {
    for s in v { if let Some(t) = &s.ty { let c = !ty.declared(t); out.push(df(K::UndType, t, s.ty_line, c)); } }
}
/// args against formal parameters; `scope`: groups of declarations, earlier groups shadow later ones.
fn use_args(ty: &Types, formal: &[Sym], args: &[Arg], scope: &[&[Sym]], kt: K, who: Option<&Name>, cond: bool, out: &mut Vec<Defect>) {
    if formal.len() != args.len() { return; }
    for (e, a) in formal.iter().zip(args) {
        let mut hidden = false;
        for g in scope {
            let mut any = false;
            for d in g.iter() {
                let here = eq(&d.name, &a.name);
                any |= here;
                let c = cond & here & !hidden & !ty.fits(&d.ty, &e.ty);
                let mut x = df(kt, who.unwrap_or(&a.name), a.line, c);
                x.te = e.ty.clone(); x.tf = d.ty.clone();
                out.push(x);
            }
            hidden |= any;
        }
    }
}
fn known(scope: &[&[Sym]], a: &[u8]) -> bool { let mut k = false; for g in scope { for d in g.iter() { k |= eq(&d.name, a); } } k }

/// Atoms outside (quant = false) and inside quantifiers.
pub fn atoms<'a>(f: &'a F, quant: bool, out: &mut Vec<(&'a Atom, bool)>) {
    match f {
        F::Empty | F::Eq(_, _) => {}
        F::Atom(a) => out.push((a, quant)),
        F::Not(g) => atoms(g, quant, out),
        F::And(v) | F::Or(v) | F::Xor(v) => for g in v { atoms(g, quant, out) },
        F::Prob(v) => for (_, g) in v { atoms(g, quant, out) },
        F::Forall(_, g) | F::Exists(_, g) => atoms(g, true, out),
    }
}
fn use_atom(ty: &Types, d: &Dom, a: &Atom, quant: bool, scope: &[&[Sym]], und: K, who: bool, out: &mut Vec<Defect>) {
    let mut def = false;
    for p in &d.preds {
        let c = eq(&p.name, &a.pred);
        def |= c;
        if p.params.len() != a.args.len() { let mut x = df(K::ArPred, &a.pred, a.line, c); x.e = p.params.len() as u64; x.f = a.args.len() as u64; out.push(x); }
        if !quant { use_args(ty, &p.params, &a.args, scope, K::TyPred, if who { Some(&a.pred) } else { None }, c, out); }
    }
    out.push(df(K::UndPred, &a.pred, a.line, !def));
    if !quant { for x in &a.args { let c = !known(scope, &x.name); out.push(df(und, &x.name, x.line, c)); } }
}
fn use_task(ty: &Types, decls: &[(&Name, &Vec<Sym>)], name: &Name, line: u64, args: &[Arg], scope: &[&[Sym]], kund: K, und: K, who: bool, out: &mut Vec<Defect>) {
    let mut def = false;
    for (dn, ps) in decls {
        let c = eq(dn, name);
        def |= c;
        if ps.len() != args.len() { let mut x = df(K::ArTask, name, line, c); x.e = ps.len() as u64; x.f = args.len() as u64; out.push(x); }
        use_args(ty, ps, args, scope, K::TyTask, if who { Some(name) } else { None }, c, out);
    }
    out.push(df(kund, name, line, !def));
    for x in args { let c = !known(scope, &x.name); out.push(df(und, &x.name, x.line, c)); }
}
pub fn cyclic(ord: &[(Name, Name)]) -> bool {
    if ord.len() > 12 {
        // long lists have known names: edges from what nothing precedes are removed while there are any
        let mut o: Vec<&(Name, Name)> = ord.iter().collect();
        loop {
            let k = o.len();
            let p = o.clone();
            o.retain(|(a, _)| p.iter().any(|(_, b)| a == b));
            if o.is_empty() { return false; }
            if o.len() == k { return true; }
        }
    }
    let mut uni: Vec<&Name> = vec![];
    for (a, b) in ord { uni.push(a); uni.push(b); }
    let m = uni.len();
    let mut r = vec![vec![false; m]; m];
    for i in 0..m { for j in 0..m { let mut e = false; for (a, b) in ord { e |= eq(uni[i], a) & eq(uni[j], b); } r[i][j] = e; } }
    for k in 0..m { for i in 0..m { for j in 0..m { r[i][j] |= r[i][k] & r[k][j]; } } }
    let mut c = false;
    for i in 0..m { c |= r[i][i]; }
    c
}
pub fn defects(d: &Dom, p: Option<&Prob>) -> Vec<Defect> {
    let mut o = vec![];
    for j in 1..d.reqs.len() { for i in 0..j { if d.reqs[i] == d.reqs[j] { o.push(df(K::DupReq, REQ[d.reqs[j]].0.as_bytes(), 0, true)); } } }
    let ty = Types::new(&d.types);
    o.push(df(K::CycType, b"", 0, ty.cyclic));
    dups(K::DupObj, &d.consts.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
    dups(K::DupPred, &d.preds.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
    dups(K::DupTask, &d.tasks.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
    dups(K::DupAct, &d.acts.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
    dups(K::DupMeth, &d.meths.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
    und_types(&ty, &d.consts, &mut o);
    for x in &d.preds { und_types(&ty, &x.params, &mut o); }
    for x in &d.tasks { und_types(&ty, &x.params, &mut o); }
    let comp: Vec<(&Name, &Vec<Sym>)> = d.tasks.iter().map(|t| (&t.name, &t.params)).collect();
    let mut all = comp.clone();
    all.extend(d.acts.iter().map(|t| (&t.name, &t.params)));
    for a in &d.acts {
        dups(K::DupPar, &a.params.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
        und_types(&ty, &a.params, &mut o);
        let sc: [&[Sym]; 2] = [&a.params, &d.consts];
        for f in [&a.pre, &a.eff] { if let Some(f) = f { let mut v = vec![]; atoms(f, false, &mut v); for (x, q) in v { use_atom(&ty, d, x, q, &sc, K::UndPar, false, &mut o); } } }
    }
    for m in &d.meths {
        dups(K::DupPar, &m.params.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
        und_types(&ty, &m.params, &mut o);
        let sc: [&[Sym]; 2] = [&m.params, &d.consts];
        if let Some(f) = &m.pre { let mut v = vec![]; atoms(f, false, &mut v); for (x, q) in v { use_atom(&ty, d, x, q, &sc, K::UndPar, false, &mut o); } }
        use_task(&ty, &comp, &m.task, m.task_line, &m.terms, &sc, K::UndTask, K::UndPar, false, &mut o);
        for s in &m.net.subs { use_task(&ty, &all, &s.task, s.line, &s.args, &sc, K::UndSub, K::UndPar, false, &mut o); }
        if m.net.form != Form::Ordered { let c = cyclic(&m.net.ord); o.push(df(K::CycOrd, b"", m.net.ord_line, c)); }
    }
    if let Some(p) = p {
        dups(K::DupObj, &p.objs.iter().map(|x| (&x.name, x.line)).collect::<Vec<_>>(), &mut o);
        und_types(&ty, &p.objs, &mut o);
        let sc: [&[Sym]; 2] = [&p.objs, &d.consts];
        for a in &p.init { use_atom(&ty, d, a, false, &sc, K::UndObj, true, &mut o); }
        if let Some(f) = &p.goal { let mut v = vec![]; atoms(f, false, &mut v); for (x, q) in v { if !q { use_atom(&ty, d, x, false, &sc, K::UndObj, true, &mut o); } } }
        if let Some((ps, t)) = &p.htn {
            let empty = vec![];
            let ps = ps.as_ref().unwrap_or(&empty);
            und_types(&ty, ps, &mut o);
            let sc: [&[Sym]; 3] = [&p.objs, ps, &d.consts];
            for s in &t.subs { use_task(&ty, &all, &s.task, s.line, &s.args, &sc, K::UndSub, K::UndObj, true, &mut o); }
            if t.form != Form::Ordered { let c = cyclic(&t.ord); o.push(df(K::CycOrd, b"", t.ord_line, c)); }
        }
    }
    o
}

// ---------------------------------------------------------------- comparison with the implementation
use hddl_analyzer::{ParsingError, SemanticErrorType as S};
pub struct Actual { pub k: K, pub sym: Name, pub l1: u64, pub l2: u64, pub e: u64, pub f: u64, pub te: Option<Name>, pub tf: Option<Name> }
pub fn actual(e: &S) -> Actual {
    let z = |k: K| Actual { k, sym: vec![], l1: 0, l2: 0, e: 0, f: 0, te: None, tf: None };
    macro_rules! dup { ($k:expr, $d:expr) => { Actual { sym: $d.symbol.as_bytes().to_vec(), l1: $d.first_pos.line as u64, l2: $d.second_pos.line as u64, ..z($k) } } }
    macro_rules! und { ($k:expr, $d:expr) => { Actual { sym: $d.symbol.as_bytes().to_vec(), l1: $d.position.line as u64, ..z($k) } } }
    macro_rules! ar { ($k:expr, $d:expr) => { Actual { sym: $d.symbol.as_bytes().to_vec(), l1: $d.position.line as u64, e: $d.expected_arity as u64, f: $d.found_arity as u64, ..z($k) } } }
    macro_rules! ty { ($k:expr, $d:expr) => { Actual { sym: $d.var_name.as_bytes().to_vec(), l1: $d.position.line as u64, te: $d.expected.as_ref().map(|s| s.as_bytes().to_vec()), tf: $d.found.as_ref().map(|s| s.as_bytes().to_vec()), ..z($k) } } }
    match e {
        S::DuplicateObjectDeclaration(d) => dup!(K::DupObj, d),
        S::DuplicateRequirementDeclaration(r) => Actual { sym: r.to_string().into_bytes(), ..z(K::DupReq) },
        S::DuplicatePredicateDeclaration(d) => dup!(K::DupPred, d),
        S::DuplicateActionDeclaration(d) => dup!(K::DupAct, d),
        S::DuplicateCompoundTaskDeclaration(d) => dup!(K::DupTask, d),
        S::DuplicateMethodDeclaration(d) => dup!(K::DupMeth, d),
        S::DuplicateParameterDeclaration(d) => dup!(K::DupPar, d),
        S::UndefinedPredicate(u) => und!(K::UndPred, u),
        S::UndefinedType(u) => und!(K::UndType, u),
        S::UndefinedSubtask(u) => und!(K::UndSub, u),
        S::UndefinedTask(u) => und!(K::UndTask, u),
        S::UndefinedParameter(u) => und!(K::UndPar, u),
        S::UndefinedObject(u) => und!(K::UndObj, u),
        S::InconsistentPredicateArity(a) => ar!(K::ArPred, a),
        S::InconsistentTaskArity(a) => ar!(K::ArTask, a),
        S::InconsistentPredicateArgType(t) => ty!(K::TyPred, t),
        S::InconsistentTaskArgType(t) => ty!(K::TyTask, t),
        S::CyclicTypeDeclaration => z(K::CycType),
        S::CyclicOrderingDeclaration(p) => Actual { l1: p.line as u64, ..z(K::CycOrd) },
    }
}
fn oeq(a: &Option<Name>, b: &Option<Name>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => eq(x, y), _ => false } }
/// Is the reported error one of the defects? `lines`: positions count too.
pub fn genuine(a: &Actual, ds: &[Defect], lines: bool) -> bool {
    let mut g = false;
    for d in ds {
        if d.k != a.k { continue; }
        let mut c = d.cond & eq(&d.sym, &a.sym) & (d.e == a.e) & (d.f == a.f);
        if lines { c &= (d.l1 == a.l1) & (d.l2 == a.l2); }
        c &= oeq(&d.te, &a.te);
        c &= oeq(&d.tf, &a.tf);
        g |= c;
    }
    g
}
pub fn any(ds: &[Defect], ks: &[K]) -> bool { let mut g = false; for d in ds { if ks.contains(&d.k) { g |= d.cond; } } g }

/// Runs verify and checks the verdict against the defect set restricted to `ks`.
pub fn judge(text: &Vec<u8>, prob: Option<&Vec<u8>>, ds: &[Defect], ks: &[K], mode: u64, name: &str) {
    let r = hddl_analyzer::HDDLAnalyzer::verify(text, prob);
    judge_result(&r, ds, ks, mode, name);
}
/// mode 1: a model with a defect of these kinds is not accepted; 2: reported defects of these kinds are genuine
pub const BOTH: u64 = 3;
pub fn judge_result(r: &Result<Vec<hddl_analyzer::WarningType>, ParsingError>, ds: &[Defect], ks: &[K], mode: u64, name: &str) {
    match r {
        Ok(_) => {
            sx::obs(1);
            sx::cover(0);
            if mode & 1 != 0 { sx::check(!any(ds, ks), &format!("{name}: defective model accepted")); }
        }
        Err(ParsingError::Semantic(e)) => {
            let a = actual(e);
            sx::obs(2 + a.k as u64);
            sx::obs(a.l1);
            if ks.contains(&a.k) {
                sx::cover(1 + a.k as u32);
                if mode & 2 != 0 { sx::check(genuine(&a, ds, true), &format!("{name}: reported {:?} is not a defect of the model", a.k)); }
            }
        }
        Err(e) => { sx::obs(100); sx::note("error", e.to_string().as_bytes()); sx::check(false, &format!("{name}: well-formed text rejected as malformed")); }
    }
}
