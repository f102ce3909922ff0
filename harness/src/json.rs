//! JSON trees: parser for the implementation's output, and the tree a model must become.
use crate::model::*;
use crate::sx;

pub enum J { Null, Bool(bool), Str(Vec<u8>), /// text of a number
    Num(Vec<u8>), /// an expected line number
    Line(u64), Arr(Vec<J>), Obj(Vec<(&'static str, J)>), Map(Vec<(Vec<u8>, J)>) }

pub struct P<'a> { t: &'a [u8], i: usize, bad: bool }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.t.len() && matches!(self.t[self.i], b' ' | b'\n' | b'\t' | b'\r') { self.i += 1; } }
    fn at(&self) -> u8 { if self.i < self.t.len() { self.t[self.i] } else { 0 } }
    fn lit(&mut self, w: &[u8], j: J) -> J { if self.t[self.i..].starts_with(w) { self.i += w.len(); j } else { self.bad = true; J::Null } }
    fn string(&mut self) -> Vec<u8> {
        let mut s = Vec::new();
        self.i += 1;
        loop {
            if self.i >= self.t.len() { self.bad = true; return s; }
            let c = self.t[self.i];
            self.i += 1;
            if c == b'"' { return s; }
            if c == b'\\' {
                let e = self.at();
                self.i += 1;
                match e {
                    b'n' => s.push(b'\n'), b't' => s.push(b'\t'), b'r' => s.push(b'\r'), b'b' => s.push(8), b'f' => s.push(12),
                    b'u' => { let mut v = 0u32; for _ in 0..4 { v = v * 16 + (self.at() as char).to_digit(16).unwrap_or(0); self.i += 1; } s.push(v as u8); }
                    e => s.push(e),
                }
            } else { s.push(c); }
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        let r = match self.at() {
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            b'"' => J::Str(self.string()),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.at() == b']' { self.i += 1; return J::Arr(v); }
                loop {
                    v.push(self.value());
                    self.ws();
                    match self.at() { b',' => self.i += 1, b']' => { self.i += 1; break; } _ => { self.bad = true; break; } }
                    if self.bad { break; }
                }
                J::Arr(v)
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.at() == b'}' { self.i += 1; return J::Map(v); }
                loop {
                    self.ws();
                    if self.at() != b'"' { self.bad = true; break; }
                    let k = self.string();
                    self.ws();
                    if self.at() != b':' { self.bad = true; break; }
                    self.i += 1;
                    v.push((k, self.value()));
                    self.ws();
                    match self.at() { b',' => self.i += 1, b'}' => { self.i += 1; break; } _ => { self.bad = true; break; } }
                    if self.bad { break; }
                }
                J::Map(v)
            }
            b'-' | b'0'..=b'9' => { let s = self.i; while matches!(self.at(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') { self.i += 1; } J::Num(self.t[s..self.i].to_vec()) }
            _ => { self.bad = true; J::Null }
        };
        r
    }
}
/// None: not JSON.
pub fn parse(t: &[u8]) -> Option<J> {
    let mut p = P { t, i: 0, bad: false };
    let j = p.value();
    p.ws();
    if p.bad || p.i != t.len() { None } else { Some(j) }
}
fn num(t: &[u8]) -> u64 { let mut v = 0u64; for c in t { if !c.is_ascii_digit() { return u64::MAX; } v = v * 10 + (c - b'0') as u64; } v }
/// Does the actual tree hold what is expected? An absent key and null are the same; keys nobody expects are ignored.
pub fn same(exp: &J, act: &J) -> bool {
    match (exp, act) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::Str(a), J::Str(b)) | (J::Num(a), J::Num(b)) => eq(a, b),
        (J::Line(a), J::Num(b)) => *a == num(b),
        (J::Arr(a), J::Arr(b)) => { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= same(&a[i], &b[i]); } r }
        (J::Obj(a), J::Map(b)) => {
            let mut r = true;
            for (k, x) in a {
                match b.iter().find(|(l, _)| l == k.as_bytes()) { Some((_, y)) => r &= same(x, y), None => r &= matches!(x, J::Null) }
            }
            r
        }
        _ => false,
    }
}
/// Two actual trees, where line n of the first is line map(n) of the second; line numbers are the values of keys "line".
/// The member `k` of both objects is the same.
pub fn same_member(a: &J, b: &J, k: &[u8]) -> bool {
    let f = |j: &J| -> bool { matches!(j, J::Map(_)) };
    if !f(a) || !f(b) { return false; }
    match (a, b) {
        (J::Map(x), J::Map(y)) => match (x.iter().find(|(l, _)| l == k), y.iter().find(|(l, _)| l == k)) { (Some((_, x)), Some((_, y))) => same_mapped(x, y, &|l| l), _ => false },
        _ => false,
    }
}
pub fn same_mapped(a: &J, b: &J, map: &dyn Fn(u64) -> u64) -> bool {
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::Str(a), J::Str(b)) | (J::Num(a), J::Num(b)) => eq(a, b),
        (J::Arr(a), J::Arr(b)) => { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r &= same_mapped(&a[i], &b[i], map); } r }
        (J::Map(a), J::Map(b)) => {
            if a.len() != b.len() { return false; }
            let mut r = true;
            for (k, x) in a {
                match b.iter().find(|(l, _)| l == k) {
                    Some((_, y)) => if k == b"line" { match (x, y) { (J::Num(x), J::Num(y)) => r &= map(num(x)) == num(y), _ => return false } } else { r &= same_mapped(x, y, map) },
                    None => return false,
                }
            }
            r
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- the expected tree
fn st(n: &[u8]) -> J { J::Str(n.to_vec()) }
fn pos(l: u64) -> J { J::Obj(vec![("line", J::Line(l))]) }
fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> J) -> J { match o { Some(x) => f(x), None => J::Null } }
fn list<T>(v: &[T], f: impl Fn(&T) -> J) -> J { J::Arr(v.iter().map(f).collect()) }
fn symbol(n: &[u8], l: u64) -> J { J::Obj(vec![("name", st(n)), ("name_pos", pos(l)), ("symbol_type", J::Null), ("type_pos", J::Null)]) }
fn sym(s: &Sym) -> J { J::Obj(vec![("name", st(&s.name)), ("name_pos", pos(s.line)), ("symbol_type", opt(&s.ty, |t| st(t))), ("type_pos", if s.ty.is_some() { pos(s.ty_line) } else { J::Null })]) }
fn arg(a: &Arg) -> J { J::Obj(vec![("name", st(&a.name)), ("name_pos", pos(a.line)), ("symbol_type", opt(&a.ty, |t| st(t))), ("type_pos", if a.ty.is_some() { pos(a.ty_line) } else { J::Null })]) }
fn atom(a: &Atom) -> J { J::Obj(vec![("name", st(&a.pred)), ("name_pos", pos(a.line)), ("variables", list(&a.args, arg))]) }
/// the value an implementation prints for a numeric literal of the generators
pub fn number(w: &str) -> J {
    if w.contains('.') { let t = w.trim_start_matches('0').trim_end_matches('0'); let mut s = String::new(); if t.starts_with('.') { s.push('0'); } s.push_str(t); if t.ends_with('.') { s.push('0'); } J::Obj(vec![("Real", J::Num(s.into_bytes()))]) }
    else { let t = w.trim_start_matches('0'); J::Obj(vec![("Integer", J::Num(if t.is_empty() { b"0".to_vec() } else { t.as_bytes().to_vec() }))]) }
}
pub fn formula(f: &F) -> J {
    let tag = |k: &'static str, j: J| J::Obj(vec![(k, j)]);
    match f {
        F::Empty => st(b"Empty"),
        F::Atom(a) => tag("Atom", atom(a)),
        F::Not(g) => tag("Not", formula(g)),
        F::And(v) => tag("And", list(v, formula)),
        F::Or(v) => tag("Or", list(v, formula)),
        F::Xor(v) => tag("Xor", list(v, formula)),
        F::Forall(p, g) => tag("ForAll", J::Arr(vec![list(p, sym), formula(g)])),
        F::Exists(p, g) => tag("Exists", J::Arr(vec![list(p, sym), formula(g)])),
        F::Prob(v) => tag("And", list(v, |(w, g)| J::Obj(vec![("Weighted", J::Arr(vec![number(w), formula(g)]))]))),
        F::Eq(a, b) => tag("Equals", J::Arr(vec![st(&a.name), st(&b.name)])),
    }
}
fn network(t: &Net) -> J {
    let absent = t.style & 16 != 0 && t.subs.is_empty();
    let total = t.form == Form::Ordered && !absent;
    let written = !absent && !total && !(t.ord.is_empty() && t.form == Form::AndList && t.style & 4 == 0);
    J::Obj(vec![
        ("subtasks", list(&t.subs, |s| J::Obj(vec![("id", opt(&s.id, |i| symbol(i, s.id_line))), ("task", symbol(&s.task, s.line)), ("terms", list(&s.args, arg))]))),
        ("ordering_pos", if written { pos(t.ord_line) } else { J::Null }),
        ("orderings", if total { st(b"Total") } else { J::Obj(vec![("Partial", if written { list(&t.ord, |(a, b)| J::Arr(vec![st(a), st(b)])) } else { J::Arr(vec![]) })]) }),
        ("constraints", if absent { J::Null } else { opt(&t.cons, |c| list(c, |(p, a, b)| J::Obj(vec![(if *p { "Equal" } else { "NotEqual" }, J::Arr(vec![st(&a.name), st(&b.name)]))]))) }),
    ])
}
fn decl(key: &'static str) -> impl Fn(&Pred) -> J { move |p| J::Obj(vec![("name", st(&p.name)), ("name_pos", pos(p.line)), (key, list(&p.params, sym))]) }
fn reqs(r: &[usize]) -> J { list(r, |x| st(REQ[*x].1.as_bytes())) }
pub fn domain(d: &Dom) -> J {
    let nz = |v: &Vec<Sym>| if v.is_empty() { J::Null } else { list(v, sym) };
    J::Obj(vec![
        ("name", st(b"d")), ("types", nz(&d.types)), ("constants", nz(&d.consts)), ("requirements", reqs(&d.reqs)),
        ("predicates", list(&d.preds, decl("variables"))), ("compound_tasks", list(&d.tasks, decl("parameters"))),
        ("methods", list(&d.meths, |m| J::Obj(vec![("name", symbol(&m.name, m.line)), ("task", symbol(&m.task, m.task_line)), ("task_terms", list(&m.terms, arg)), ("params", list(&m.params, sym)), ("precondition", opt(&m.pre, formula)), ("tn", network(&m.net))]))),
        ("actions", list(&d.acts, |a| J::Obj(vec![("name", st(&a.name)), ("name_pos", pos(a.line)), ("parameters", list(&a.params, sym)), ("preconditions", opt(&a.pre, formula)), ("effects", opt(&a.eff, formula))]))),
        ("functions", list(&d.funcs, decl("variables"))),
    ])
}
pub fn problem(p: &Prob) -> J {
    J::Obj(vec![
        ("requirements", reqs(&p.reqs)), ("init_tn", opt(&p.htn, |(ps, t)| J::Obj(vec![("parameters", opt(ps, |v| list(v, sym))), ("tn", network(t))]))),
        ("init_state", list(&p.init, atom)), ("goal", opt(&p.goal, formula)), ("objects", list(&p.objs, sym)),
    ])
}
/// The JSON of the texts is the tree of the models (positions included).
pub fn judge(dt: &Vec<u8>, qt: Option<&Vec<u8>>, d: &Dom, q: Option<&Prob>) {
    match hddl_analyzer::HDDLAnalyzer::to_json(dt, qt) {
        Ok(s) => {
            sx::obs(s.len() as u64);
            sx::note("json", s.as_bytes());
            match parse(s.as_bytes()) {
                Some(j) => {
                    let mut e = vec![("domain", domain(d))];
                    e.push(("problem", match q { Some(q) => problem(q), None => J::Null }));
                    sx::check(same(&J::Obj(e), &j), "the JSON output holds every element of the text in order, with its names, types and lines");
                }
                None => sx::check(false, "the output is JSON"),
            }
        }
        Err(e) => { sx::note("error", e.to_string().as_bytes()); sx::check(false, "well-formed text is translated"); }
    }
}
