//! Generators of models: a rich valid base model in which one (or two) names become symbolic.
use crate::model::*;
use crate::sx;

/// What a name in the model is for.
#[derive(Clone, Copy, PartialEq)]
#[repr(u32)]
pub enum C { TypeDecl = 0, TypePar, TypeRef, ConstDecl, PredDecl, PredPar, PredRef, TaskDecl, TaskPar, ActDecl, ActPar, MethDecl, MethPar, TaskRef, SubRef, Arg, ObjDecl, HtnPar, GArg, GPredRef, GSubRef, OrdId }
pub const fn bit(c: C) -> u32 { 1 << c as u32 }
pub const ALL: u32 = (1 << 22) - 1;

/// letters: t types, c constants, p predicates, k compound tasks, a actions, m methods, v variables, o objects, s subtask ids
pub fn nm(l: u8, d: u8) -> Name { vec![l, b'0' + d] }
fn t(d: u8) -> Option<Name> { Some(nm(b't', d)) }
fn v(d: u8) -> Name { nm(b'v', d) }
fn c(d: u8) -> Name { nm(b'c', d) }
fn o(d: u8) -> Name { nm(b'o', d) }
fn p(d: u8) -> Name { nm(b'p', d) }
fn k(d: u8) -> Name { nm(b'k', d) }
fn a(d: u8) -> Name { nm(b'a', d) }
fn m(d: u8) -> Name { nm(b'm', d) }
fn s(d: u8) -> Name { nm(b's', d) }
fn va(d: u8) -> Arg { var(v(d)) }
fn pa(d: u8, ty: u8) -> Sym { par(v(d), t(ty)) }
fn at(d: u8, args: Vec<Arg>) -> F { F::Atom(atom(p(d), args)) }

/// t2 < t1 < t0, t3 < t0
pub fn base_dom() -> Dom {
    Dom {
        reqs: vec![0, 1, 4],
        types: vec![sym(nm(b't', 3), t(0)), sym(nm(b't', 2), t(1)), sym(nm(b't', 1), t(0)), sym(nm(b't', 0), None)],
        consts: vec![sym(c(0), t(1)), sym(c(1), t(2)), sym(c(2), t(3))],
        preds: vec![Pred { name: p(0), line: 0, params: vec![pa(0, 0)] }, Pred { name: p(1), line: 0, params: vec![pa(0, 1), pa(1, 3)] }, Pred { name: p(2), line: 0, params: vec![] }],
        funcs: vec![],
        tasks: vec![Pred { name: k(0), line: 0, params: vec![pa(0, 0)] }, Pred { name: k(1), line: 0, params: vec![pa(0, 1), pa(1, 0)] }, Pred { name: k(2), line: 0, params: vec![] }],
        acts: vec![
            Act { name: a(0), line: 0, params: vec![pa(0, 1), pa(1, 3)], pre: Some(F::And(vec![at(0, vec![va(0)]), F::Not(Box::new(at(1, vec![va(0), va(1)]))), F::Or(vec![at(2, vec![]), at(0, vec![con(c(1))])])])), eff: Some(F::And(vec![at(1, vec![con(c(0)), va(1)]), F::Forall(vec![pa(2, 0)], Box::new(at(0, vec![va(2)])))])) },
            Act { name: a(1), line: 0, params: vec![pa(0, 0)], pre: Some(F::Exists(vec![pa(2, 1), pa(3, 3)], Box::new(F::Xor(vec![at(1, vec![va(2), va(3)]), at(2, vec![])])))), eff: Some(F::Prob(vec![("0.5", at(0, vec![va(0)])), ("0.25", F::Not(Box::new(at(2, vec![]))))])) },
            Act { name: a(2), line: 0, params: vec![], pre: None, eff: None },
        ],
        meths: vec![
            Meth { name: m(0), line: 0, params: vec![pa(0, 2), pa(1, 3)], task: k(0), task_line: 0, terms: vec![va(0)], pre: Some(F::And(vec![at(1, vec![va(0), va(1)]), F::Eq(va(0), va(0))])), net: net(vec![sub(None, a(0), vec![va(0), va(1)]), sub(None, k(1), vec![va(0), con(c(2))]), sub(None, a(2), vec![])], Form::Ordered, vec![]) },
            Meth { name: m(1), line: 0, params: vec![pa(0, 1), pa(1, 1)], task: k(1), task_line: 0, terms: vec![va(1), va(0)], pre: None, net: net(vec![sub(Some(s(0)), k(0), vec![va(0)]), sub(Some(s(1)), a(1), vec![con(c(1))]), sub(Some(s(2)), k(2), vec![])], Form::AndList, vec![(s(0), s(1)), (s(1), s(2))]) },
            Meth { name: m(2), line: 0, params: vec![], task: k(2), task_line: 0, terms: vec![], pre: None, net: net(vec![], Form::Ordered, vec![]) },
        ],
    }
}
pub fn base_prob() -> Prob {
    Prob {
        reqs: vec![],
        objs: vec![sym(o(0), t(0)), sym(o(1), t(1)), sym(o(2), t(3))],
        htn: Some((Some(vec![pa(0, 2), pa(1, 3)]), net(vec![sub(Some(s(0)), k(1), vec![con(o(1)), con(o(2))]), sub(Some(s(1)), a(0), vec![va(0), con(c(2))]), sub(Some(s(2)), k(0), vec![va(1)])], Form::AndList, vec![(s(0), s(2)), (s(1), s(2))]))),
        init: vec![atom(p(0), vec![con(o(0))]), atom(p(1), vec![con(o(1)), con(o(2))]), atom(p(2), vec![]), atom(p(1), vec![con(c(0)), con(c(2))])],
        goal: Some(F::And(vec![at(1, vec![con(c(1)), con(o(2))]), F::Not(Box::new(at(0, vec![con(o(2))]))), F::Or(vec![at(2, vec![]), at(0, vec![con(c(0))])])])),
    }
}

pub type V<'a> = &'a mut dyn FnMut(&mut Name, C);
fn vsyms(x: &mut [Sym], dc: C, tc: C, f: V) { for s in x { f(&mut s.name, dc); if let Some(t) = &mut s.ty { f(t, tc); } } }
fn vargs(x: &mut [Arg], c: C, f: V) { for s in x { f(&mut s.name, c); } }
/// Variables bound by quantifiers are not visited (their names are not checked by the analyser).
fn vform(x: &mut F, q: bool, pc: C, ac: C, f: V) {
    match x {
        F::Empty | F::Eq(_, _) => {}
        F::Atom(a) => { f(&mut a.pred, pc); if !q { vargs(&mut a.args, ac, f); } }
        F::Not(g) => vform(g, q, pc, ac, f),
        F::And(v) | F::Or(v) | F::Xor(v) => for g in v { vform(g, q, pc, ac, f) },
        F::Prob(v) => for (_, g) in v { vform(g, q, pc, ac, f) },
        F::Forall(_, g) | F::Exists(_, g) => vform(g, true, pc, ac, f),
    }
}
fn vnet(x: &mut Net, tc: C, ac: C, f: V) {
    for s in x.subs.iter_mut() { f(&mut s.task, tc); vargs(&mut s.args, ac, f); }
    for (a, b) in x.ord.iter_mut() { f(a, C::OrdId); f(b, C::OrdId); }
}
pub fn visit_dom(d: &mut Dom, f: V) {
    vsyms(&mut d.types, C::TypeDecl, C::TypePar, f);
    vsyms(&mut d.consts, C::ConstDecl, C::TypeRef, f);
    for p in d.preds.iter_mut() { f(&mut p.name, C::PredDecl); vsyms(&mut p.params, C::PredPar, C::TypeRef, f); }
    for p in d.tasks.iter_mut() { f(&mut p.name, C::TaskDecl); vsyms(&mut p.params, C::TaskPar, C::TypeRef, f); }
    for a in d.acts.iter_mut() {
        f(&mut a.name, C::ActDecl); vsyms(&mut a.params, C::ActPar, C::TypeRef, f);
        if let Some(g) = &mut a.pre { vform(g, false, C::PredRef, C::Arg, f); }
        if let Some(g) = &mut a.eff { vform(g, false, C::PredRef, C::Arg, f); }
    }
    for m in d.meths.iter_mut() {
        f(&mut m.name, C::MethDecl); vsyms(&mut m.params, C::MethPar, C::TypeRef, f);
        f(&mut m.task, C::TaskRef); vargs(&mut m.terms, C::Arg, f);
        if let Some(g) = &mut m.pre { vform(g, false, C::PredRef, C::Arg, f); }
        vnet(&mut m.net, C::SubRef, C::Arg, f);
    }
}
pub fn visit_prob(p: &mut Prob, f: V) {
    vsyms(&mut p.objs, C::ObjDecl, C::TypeRef, f);
    if let Some((ps, t)) = &mut p.htn {
        if let Some(ps) = ps { vsyms(ps, C::HtnPar, C::TypeRef, f); }
        vnet(t, C::GSubRef, C::GArg, f);
    }
    for a in p.init.iter_mut() { f(&mut a.pred, C::GPredRef); vargs(&mut a.args, C::GArg, f); }
    if let Some(g) = &mut p.goal { vform(g, false, C::GPredRef, C::GArg, f); }
}
pub fn visit(d: &mut Dom, q: &mut Option<Prob>, f: V) { visit_dom(d, f); if let Some(q) = q { visit_prob(q, f); } }

/// Makes one of the names of the categories `mask` symbolic: declarations keep their letter, references
/// may name anything. Returns false if there is none.
pub fn focus(d: &mut Dom, q: &mut Option<Prob>, mask: u32, letters: bool) {
    let mut n = 0u32;
    visit(d, q, &mut |_, c| if mask & bit(c) != 0 { n += 1; });
    let k = sx::pick(n);
    focus_at(d, q, mask, letters, k);
}
pub fn focus_at(d: &mut Dom, q: &mut Option<Prob>, mask: u32, letters: bool, k: u32) {
    let mut i = 0u32;
    visit(d, q, &mut |x, c| if mask & bit(c) != 0 {
        if i == k {
            x[1] = sx::range(b'0', b'3');
            if letters && matches!(c, C::TypePar | C::TypeRef | C::PredRef | C::TaskRef | C::SubRef | C::Arg | C::GArg | C::GPredRef | C::GSubRef) { x[0] = sx::of(b"tcpkamvo"); }
        }
        i += 1;
    });
}
/// As focus; the symbolic name may be one of the others in capitals, or have another character at its end or beginning.
pub fn focus_near(d: &mut Dom, q: &mut Option<Prob>, mask: u32) {
    let mut n = 0u32;
    visit(d, q, &mut |_, c| if mask & bit(c) != 0 { n += 1; });
    let k = sx::pick(n);
    let how = sx::pick(3);
    let mut i = 0u32;
    visit(d, q, &mut |x, c| if mask & bit(c) != 0 {
        if i == k {
            let refer = matches!(c, C::TypePar | C::TypeRef | C::PredRef | C::TaskRef | C::SubRef | C::Arg | C::GArg | C::GPredRef | C::GSubRef);
            x[1] = sx::range(b'0', b'3');
            x[0] = if refer { sx::of(if how == 0 { b"TCPKAMVO" } else { b"tcpkamvo" }) } else if how == 0 { x[0].to_ascii_uppercase() } else { x[0] };
            match how { 0 => {} 1 => x.push(sx::of(b"0ax_-")), _ => x.insert(0, sx::of(b"tcpkamvo_")) }
        }
        i += 1;
    });
}
/// A deep formula around one atom whose name and argument are symbolic, in one of the places of a formula.
pub fn deep(n: u32) -> (Dom, Option<Prob>) {
    let (mut d, mut q) = (base_dom2(), Some(base_prob2()));
    let site = sx::pick(4);
    let na = sx::pick(3);
    let name = vec![b'p', sx::range(b'0', b'2')];
    let args = (0..na).map(|_| if site == 3 { con(vec![b'o', sx::range(b'0', b'2')]) } else { var(vec![b'v', sx::range(b'0', b'3')]) }).collect();
    let f = crate::shape::nested(n, F::Atom(atom(name, args)), &|| at(1, vec![con(c(0))]), true);
    match site { 0 => d.acts[1] = Act { params: vec![un(0), un(1)], pre: Some(f), ..d.acts[1].clone() }, 1 => d.acts[0].eff = Some(f), 2 => d.meths[1].pre = Some(f), _ => q.as_mut().unwrap().goal = Some(f) }
    if site == 0 { d.meths.truncate(1); }
    (d, q)
}
/// Every argument of an atom or of a method's task is annotated with a type.
pub fn annotate(d: &mut Dom, q: &mut Option<Prob>) {
    fn form(x: &mut F, i: &mut u8) {
        match x {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(a) => args(&mut a.args, i),
            F::Not(g) | F::Forall(_, g) | F::Exists(_, g) => form(g, i),
            F::And(v) | F::Or(v) | F::Xor(v) => for g in v { form(g, i) },
            F::Prob(v) => for (_, g) in v { form(g, i) },
        }
    }
    fn args(v: &mut [Arg], i: &mut u8) { for x in v { x.ty = t(*i & 3); *i += 1; } }
    let mut i = 0;
    for a in d.acts.iter_mut() { for f in [&mut a.pre, &mut a.eff] { if let Some(f) = f { form(f, &mut i) } } }
    for m in d.meths.iter_mut() { if let Some(f) = &mut m.pre { form(f, &mut i) } args(&mut m.terms, &mut i); }
    if let Some(q) = q { for a in q.init.iter_mut() { args(&mut a.args, &mut i); } if let Some(g) = &mut q.goal { form(g, &mut i); } }
}
/// One list of n declarations of any kind, whose names, types and numbers of parameters are symbolic.
pub fn lists(n: u64) -> (Dom, Option<Prob>) {
    let kind = sx::pick(9);
    let nm2 = |l: u8| -> Name { vec![l, sx::range(b'0', b'2')] };
    let ty = || -> Option<Name> { Some(vec![b't', sx::range(b'0', b'1')]) };
    let mut d = Dom { types: vec![sym(nm(b't', 0), None), sym(nm(b't', 1), None)], ..Default::default() };
    d.types[0].ty = t(2);
    d.tasks.push(Pred { name: k(8), line: 0, params: vec![] });
    d.acts.push(Act { name: a(8), line: 0, params: vec![], pre: None, eff: None });
    let mut q = None;
    let syms = |l: u8, isvar: bool| -> Vec<Sym> {
        let un = sx::pick(n as u32 + 1) as u64; // so many at the end are not typed
        (0..n).map(|i| { let ty = if i + un < n { ty() } else { None }; Sym { var: isvar, ..sym(nm2(l), ty) } }).collect()
    };
    let ps = || -> Vec<Sym> { (0..sx::pick(3)).map(|i| par(v(i as u8), if i == 0 { ty() } else { None })).collect() };
    match kind {
        0 => d.consts = syms(b'c', false),
        1 => q = Some(Prob { objs: syms(b'o', false), ..Default::default() }),
        2 => d.preds = (0..n).map(|_| Pred { name: nm2(b'p'), line: 0, params: ps() }).collect(),
        3 => d.tasks = (0..n).map(|_| Pred { name: nm2(b'k'), line: 0, params: ps() }).collect(),
        4 => d.acts = (0..n).map(|_| Act { name: nm2(b'a'), line: 0, params: ps(), pre: None, eff: None }).collect(),
        5 => {
            d.tasks.push(Pred { name: k(9), line: 0, params: vec![] });
            d.meths = (0..n).map(|_| {
                let ps = ps();
                Meth { name: nm2(b'm'), line: 0, params: ps, task: vec![b'k', sx::range(b'8', b'9')], task_line: 0, terms: vec![], pre: None, net: net(if sx::flip() { vec![sub(None, a(8), vec![])] } else { vec![] }, Form::Ordered, vec![]) }
            }).collect();
        }
        6 => d.acts[0].params = syms(b'v', true),
        7 => d.meths = vec![Meth { name: m(0), line: 0, params: syms(b'v', true), task: k(8), task_line: 0, terms: vec![], pre: None, net: net(vec![], Form::Ordered, vec![]) }],
        // the same name for different things
        _ => {
            let one = || -> Name { vec![b'x', sx::range(b'0', b'1')] };
            d.types.push(sym(one(), None));
            d.consts = vec![sym(one(), None)];
            d.preds = vec![Pred { name: one(), line: 0, params: vec![] }];
            d.tasks = vec![Pred { name: one(), line: 0, params: vec![par(one(), None)] }];
            d.acts = vec![Act { name: a(0), line: 0, params: vec![par(one(), None)], pre: None, eff: None }];
            d.meths = vec![Meth { name: one(), line: 0, params: vec![par(one(), None)], task: one(), task_line: 0, terms: vec![var(one())], pre: None, net: net(vec![], Form::Ordered, vec![]) }];
        }
    }
    (d, q)
}
/// Many parameters and arguments: a predicate, compound task or action with a parameters, used with b arguments.
pub fn big_arity() -> (Dom, Option<Prob>) {
    const N: [usize; 4] = [1, 2, 257, 258];
    let (k, l) = (N[sx::pick(4) as usize], N[sx::pick(4) as usize]);
    let params: Vec<Sym> = (0..k).map(|i| par(format!("v{i}{}", &"xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"[..i % 32]).into_bytes(), None)).collect();
    let args: Vec<Arg> = (0..l).map(|_| con(c(0))).collect();
    let ac = |pre: Option<F>, eff: Option<F>| Act { name: a(0), line: 0, params: vec![], pre, eff };
    let pr = Pred { name: p(0), line: 0, params: params.clone() };
    let tk = Pred { name: k_(0), line: 0, params: params.clone() };
    let me = |task: Name, terms: Vec<Arg>, subs: Vec<Sub>, pre: Option<F>| Meth { name: m(0), line: 0, params: vec![], task, task_line: 0, terms, pre, net: net(subs, Form::Ordered, vec![]) };
    let mut d = Dom { consts: vec![sym(c(0), None)], ..Default::default() };
    let mut q = None;
    let f = F::Atom(atom(p(0), args.clone()));
    let site = sx::pick(9);
    if matches!(site, 0..=2 | 6 | 7) { d.preds.push(pr); }
    if matches!(site, 3 | 4 | 8) { d.tasks.push(tk); }
    match site {
        0 => d.acts.push(ac(Some(f), None)),
        1 => d.acts.push(ac(None, Some(F::Forall(vec![un(0)], Box::new(f))))),
        2 => { d.tasks.push(Pred { name: k_(1), line: 0, params: vec![] }); d.meths.push(me(k_(1), vec![], vec![], Some(f))); }
        3 => d.meths.push(me(k_(0), args, vec![], None)),
        4 => { d.tasks.push(Pred { name: k_(1), line: 0, params: vec![] }); d.meths.push(me(k_(1), vec![], vec![sub(None, k_(0), args)], None)); }
        5 => { d.tasks.push(Pred { name: k_(1), line: 0, params: vec![] }); d.acts.push(Act { params, ..ac(None, None) }); d.meths.push(me(k_(1), vec![], vec![sub(None, a(0), args)], None)); }
        6 => q = Some(Prob { init: vec![atom(p(0), args)], ..Default::default() }),
        7 => q = Some(Prob { goal: Some(f), ..Default::default() }),
        _ => q = Some(Prob { htn: Some((None, net(vec![sub(None, k_(0), args)], Form::Ordered, vec![]))), ..Default::default() }),
    }
    (d, q)
}
fn k_(d: u8) -> Name { k(d) }
/// Argument lists: changes the length of one of them (drop the last, repeat the last, or add one to an empty list).
pub fn vlists(d: &mut Dom, q: &mut Option<Prob>, f: &mut dyn FnMut(&mut Vec<Arg>)) {
    fn form(x: &mut F, f: &mut dyn FnMut(&mut Vec<Arg>)) {
        match x {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(a) => f(&mut a.args),
            F::Not(g) => form(g, f),
            F::And(v) | F::Or(v) | F::Xor(v) => for g in v { form(g, f) },
            F::Prob(v) => for (_, g) in v { form(g, f) },
            F::Forall(_, g) | F::Exists(_, g) => form(g, f),
        }
    }
    for a in d.acts.iter_mut() { if let Some(g) = &mut a.pre { form(g, f); } if let Some(g) = &mut a.eff { form(g, f); } }
    for m in d.meths.iter_mut() { f(&mut m.terms); if let Some(g) = &mut m.pre { form(g, f); } for s in m.net.subs.iter_mut() { f(&mut s.args); } }
    if let Some(p) = q {
        if let Some((_, t)) = &mut p.htn { for s in t.subs.iter_mut() { f(&mut s.args); } }
        for a in p.init.iter_mut() { f(&mut a.args); }
        if let Some(g) = &mut p.goal { form(g, f); }
    }
}
fn un(d: u8) -> Sym { par(v(d), None) }
/// A second base model: untyped, no typing of constants, nested connectives, several methods per task, other orderings.
pub fn base_dom2() -> Dom {
    Dom {
        reqs: vec![3],
        types: vec![],
        consts: vec![sym(c(0), None), sym(c(1), None)],
        preds: vec![Pred { name: p(0), line: 0, params: vec![un(0), un(1), un(2)] }, Pred { name: p(1), line: 0, params: vec![un(0)] }],
        funcs: vec![],
        tasks: vec![Pred { name: k(0), line: 0, params: vec![] }, Pred { name: k(1), line: 0, params: vec![un(0), un(1)] }],
        acts: vec![
            Act { name: a(0), line: 0, params: vec![un(0), un(1), un(2)], pre: Some(F::Not(Box::new(F::And(vec![F::Or(vec![at(0, vec![va(2), va(1), va(0)]), F::Xor(vec![at(1, vec![va(2)])])]), F::Exists(vec![un(3)], Box::new(F::And(vec![at(1, vec![va(3)]), F::Forall(vec![un(2)], Box::new(F::Not(Box::new(at(1, vec![va(2)])))))])))])))), eff: Some(at(0, vec![va(0), con(c(1)), va(1)])) },
            Act { name: a(1), line: 0, params: vec![], pre: None, eff: Some(F::Not(Box::new(at(1, vec![con(c(0))])))) },
            Act { name: a(2), line: 0, params: vec![un(0)], pre: Some(F::Empty), eff: None },
        ],
        meths: vec![
            Meth { name: m(0), line: 0, params: vec![un(0), un(1), un(2)], task: k(1), task_line: 0, terms: vec![va(0), va(2)], pre: Some(F::Or(vec![at(1, vec![va(1)]), F::Not(Box::new(at(0, vec![va(0), va(1), con(c(0))])))])), net: net(vec![sub(Some(s(0)), a(2), vec![va(1)]), sub(Some(s(1)), k(1), vec![va(2), va(0)])], Form::Single, vec![(s(0), s(1))]) },
            Meth { name: m(1), line: 0, params: vec![un(0), un(1)], task: k(1), task_line: 0, terms: vec![va(0), va(1)], pre: None, net: Net { subs: vec![sub(None, a(1), vec![])], form: Form::Ordered, ord: vec![], ord_line: 0, cons: Some(vec![(false, va(0), va(1)), (true, va(1), va(1))]), style: 0 } },
            Meth { name: m(2), line: 0, params: vec![], task: k(0), task_line: 0, terms: vec![], pre: Some(at(1, vec![con(c(1))])), net: net(vec![sub(Some(s(0)), k(0), vec![]), sub(Some(s(1)), a(0), vec![con(c(0)), con(c(0)), con(c(1))])], Form::AndList, vec![]) },
            Meth { name: m(3), line: 0, params: vec![un(0)], task: k(0), task_line: 0, terms: vec![], pre: None, net: net(vec![sub(Some(s(0)), k(0), vec![]), sub(Some(s(1)), k(1), vec![va(0), va(0)]), sub(Some(s(2)), a(1), vec![])], Form::Chain, vec![(s(0), s(1)), (s(0), s(2))]) },
        ],
    }
}
pub fn base_prob2() -> Prob {
    Prob {
        reqs: vec![3, 1],
        objs: vec![sym(o(0), None), sym(o(1), None)],
        htn: Some((None, net(vec![sub(None, k(1), vec![con(o(0)), con(c(1))]), sub(None, a(2), vec![con(o(1))])], Form::Ordered, vec![]))),
        init: vec![atom(p(0), vec![con(o(0)), con(o(1)), con(c(0))]), atom(p(1), vec![con(c(1))])],
        goal: Some(F::Forall(vec![un(0)], Box::new(at(1, vec![va(0)])))),
    }
}
pub fn base(variant: u64) -> (Dom, Option<Prob>) {
    match variant { 0 => (base_dom(), Some(base_prob())), 1 => (base_dom2(), Some(base_prob2())), _ => (base_dom2(), Some(Prob { goal: Some(F::Or(vec![at(1, vec![con(o(1))]), F::Not(Box::new(F::And(vec![at(0, vec![con(o(1)), con(c(0)), con(o(0))])])))])), htn: None, ..base_prob2() })) }
}
/// Two names become symbolic: the first of categories m1, the second (later or of another list) of categories m2.
pub fn focus2(d: &mut Dom, q: &mut Option<Prob>, m1: u32, m2: u32, letters: bool) {
    let (mut n1, mut n2) = (0u32, 0u32);
    visit(d, q, &mut |_, c| { if m1 & bit(c) != 0 { n1 += 1; } if m2 & bit(c) != 0 { n2 += 1; } });
    let i = sx::pick(n1);
    let j = sx::pick(n2);
    if m1 == m2 { sx::assume(i < j); }
    focus_at(d, q, m1, letters, i);
    focus_at(d, q, m2, letters, j);
}
/// Changes the length of one argument or parameter list.
pub fn arity(d: &mut Dom, q: &mut Option<Prob>) {
    let mut n = 0u32;
    vlists(d, q, &mut |_| n += 1);
    let np = (d.preds.len() + d.tasks.len() + d.acts.len()) as u32;
    let k = sx::pick(n + np);
    let op = sx::pick(3);
    if k < n {
        let mut i = 0;
        vlists(d, q, &mut |l| {
            if i == k {
                match op {
                    0 => { let x = l.pop(); sx::assume(x.is_some()); }
                    1 => { let x = l.last().cloned(); sx::assume(x.is_some()); l.push(x.unwrap()); }
                    _ => { let y = l.first().cloned(); l.push(con(c(0))); if let Some(y) = y { l.push(y); } }
                }
            }
            i += 1;
        });
    } else {
        let k = (k - n) as usize;
        let (a, b) = (d.preds.len(), d.tasks.len());
        let l = if k < a { &mut d.preds[k].params } else if k < a + b { &mut d.tasks[k - a].params } else { &mut d.acts[k - a - b].params };
        match op {
            0 => { let x = l.pop(); sx::assume(x.is_some()); }
            1 => { let ty = l.last().and_then(|x| x.ty.clone()); l.push(par(v(4), ty)); }
            _ => { let ty = l.first().and_then(|x| x.ty.clone()); l.insert(0, par(v(4), ty.clone())); l.push(par(v(5), ty)); }
        }
    }
}
/// A type name t<digit> below t<n>, as a symbolic byte.
fn anyt(n: u64) -> Name { vec![b't', sx::range(b'0', b'0' + n as u8 - 1)] }
fn pick_ty(n: u64, untyped: bool) -> Option<Name> { if untyped && sx::pick(8) == 0 { None } else { Some(anyt(n)) } }
/// Every place at which an argument meets a formal parameter. Types: t0 (root) and t1..t{n-1} with symbolic parents;
/// the declared types of the argument (`f`) and of the parameter (`e`) are symbolic, or absent.
pub const SITES: u32 = 26;
pub fn typing(n: u64, flat: bool) -> (Dom, Option<Prob>) { typing_of(n, flat, false) }
/// fixed: instead of symbolic parents a chain of n types declared from either end, or a diamond under a chain (t0 with two parents)
pub fn typing_of(n: u64, flat: bool, fixed: bool) -> (Dom, Option<Prob>) {
    let mut types = vec![];
    if fixed {
        let ch = |i: u64| sym(nm(b't', i as u8), Some(nm(b't', i as u8 + 1)));
        match sx::pick(3) {
            0 => for i in 0..n - 1 { types.push(ch(i)); },
            1 => for i in (0..n - 1).rev() { types.push(ch(i)); },
            _ => {
                // t0 - t1, t0 - t2, t1 - t3, t2 - t3, t3 - t4, ...
                types.push(ch(0));
                types.push(sym(nm(b't', 1), Some(nm(b't', 3))));
                types.push(sym(nm(b't', 0), Some(nm(b't', 2))));
                for i in 2..n - 1 { types.push(ch(i)); }
            }
        }
    }
    for i in 1..if fixed { 0 } else { n } { types.push(sym(nm(b't', i as u8), Some(if flat && i == 1 { nm(b't', 0) } else { anyt(n) }))); }
    if !fixed { types.push(sym(nm(b't', 0), None)); }
    sx::assume(!Types::new(&types).cyclic);
    let site = sx::pick(SITES);
    let mode = sx::pick(3);
    let f = if mode == 1 { None } else { Some(anyt(n)) };
    let e = if mode == 2 { None } else { Some(anyt(n)) };
    let w = || t(0);
    // the formal parameter is one of three, the others are of type t0
    let last = mode != 0; // an untyped parameter is written last
    let formal = || if last { vec![par(v(0), w()), par(v(2), w()), par(v(1), e.clone())] } else { vec![par(v(0), w()), par(v(1), e.clone()), par(v(2), w())] };
    let one = || vec![par(v(0), e.clone())];
    let mut d = Dom { types, ..Default::default() };
    d.consts = vec![sym(c(0), w()), sym(c(1), f.clone())];
    d.preds = vec![Pred { name: p(0), line: 0, params: formal() }, Pred { name: p(1), line: 0, params: one() }];
    d.tasks = vec![Pred { name: k(0), line: 0, params: formal() }, Pred { name: k(1), line: 0, params: one() }, Pred { name: k(2), line: 0, params: vec![] }];
    d.acts = vec![Act { name: a(0), line: 0, params: formal(), pre: None, eff: None }, Act { name: a(1), line: 0, params: one(), pre: None, eff: None }];
    let pars = || vec![par(v(3), w()), par(v(4), f.clone())];
    let three = |x: Arg, y: Arg| if last { vec![x.clone(), x, y] } else { vec![x.clone(), y, x] };
    let vargs = || three(va(3), va(4));
    let cargs = || three(con(c(0)), con(c(1)));
    let oargs = || three(con(o(0)), con(o(1)));
    let mut q = None;
    let mut act = |pre: Option<F>, eff: Option<F>| d.acts.push(Act { name: a(2), line: 0, params: pars(), pre, eff });
    match site {
        0 => act(Some(at(0, vargs())), None),
        1 => act(Some(F::And(vec![at(0, cargs())])), None),
        2 => act(Some(F::Not(Box::new(at(1, vec![va(4)])))), None),
        3 => act(None, Some(F::And(vec![at(0, vargs())]))),
        4 => act(None, Some(F::Not(Box::new(at(1, vec![con(c(1))]))))),
        5 => act(None, Some(F::Prob(vec![("0.5", at(0, vargs()))]))),
        6 => act(Some(F::Or(vec![F::Xor(vec![at(1, vec![va(4)])])])), None),
        _ => {}
    }
    let mth = |pre: Option<F>, task: u8, terms: Vec<Arg>, n: Net| Meth { name: m(0), line: 0, params: pars(), task: k(task), task_line: 0, terms, pre, net: n };
    let none = || net(vec![], Form::Ordered, vec![]);
    match site {
        7 => d.meths.push(mth(Some(at(0, vargs())), 2, vec![], none())),
        8 => d.meths.push(mth(Some(F::And(vec![at(1, vec![con(c(1))])])), 2, vec![], none())),
        9 => d.meths.push(mth(None, 0, vargs(), none())),
        10 => d.meths.push(mth(None, 1, vec![con(c(1))], none())),
        11 => d.meths.push(mth(None, 2, vec![], net(vec![sub(None, k(0), vargs())], Form::Ordered, vec![]))),
        12 => d.meths.push(mth(None, 2, vec![], net(vec![sub(Some(s(0)), k(1), vec![con(c(1))])], Form::AndList, vec![]))),
        13 => d.meths.push(mth(None, 2, vec![], net(vec![sub(None, a(1), vec![va(4)]), sub(None, k(2), vec![])], Form::Ordered, vec![]))),
        14 => d.meths.push(mth(None, 2, vec![], net(vec![sub(Some(s(0)), k(2), vec![]), sub(Some(s(1)), a(0), cargs())], Form::Single, vec![(s(0), s(1))]))),
        _ => {}
    }
    if site >= 15 {
        let mut pr = Prob { objs: vec![sym(o(0), w()), sym(o(1), f.clone())], ..Default::default() };
        let h = |ps: Option<Vec<Sym>>, n: Net| Some((ps, n));
        match site {
            15 => pr.init.push(atom(p(0), oargs())),
            16 => pr.init.push(atom(p(1), vec![con(c(1))])),
            17 => pr.goal = Some(at(1, vec![con(o(1))])),
            18 => pr.goal = Some(F::And(vec![F::Not(Box::new(at(0, cargs())))])),
            19 => pr.htn = h(None, net(vec![sub(None, k(0), oargs())], Form::Ordered, vec![])),
            20 => pr.htn = h(None, net(vec![sub(Some(s(0)), k(1), vec![con(c(1))])], Form::AndList, vec![])),
            21 => pr.htn = h(Some(pars()), net(vec![sub(None, k(0), vargs())], Form::Ordered, vec![])),
            22 => pr.htn = h(Some(pars()), net(vec![sub(Some(s(0)), k(2), vec![]), sub(Some(s(1)), a(1), vec![va(4)])], Form::AndList, vec![])),
            23 => pr.htn = h(None, net(vec![sub(None, a(0), oargs())], Form::Ordered, vec![])),
            24 => pr.htn = h(None, net(vec![sub(None, a(1), vec![con(c(1))])], Form::Ordered, vec![])),
            _ => pr.goal = Some(F::Or(vec![F::Xor(vec![at(0, oargs())]), F::Empty])),
        }
        q = Some(pr);
    }
    (d, q)
}
/// Names that may be those of constants, parameters and objects at once: which of the declarations an argument means.
pub fn scopes() -> (Dom, Option<Prob>) {
    let x = || -> Name { vec![b'x', sx::range(b'0', b'1')] };
    let site = sx::pick(12);
    let bare = sx::pick(3); // which of constant and parameter (or object) is not typed
    let ty = |i: u32| -> Option<Name> { if bare == i { None } else { Some(anyt(2)) } };
    let formal = || if sx::pick(4) == 3 { vec![par(v(0), None)] } else { vec![par(v(0), Some(anyt(2)))] };
    let (cn, pn) = (x(), x());
    let arg = || if sx::flip() { var(x()) } else { con(x()) };
    let mut d = Dom { types: vec![sym(nm(b't', 1), t(0)), sym(nm(b't', 0), None)], consts: vec![sym(cn.clone(), ty(1))], ..Default::default() };
    let ps = || vec![par(pn.clone(), ty(2))];
    let none = || net(vec![], Form::Ordered, vec![]);
    let one = |tk: Name, a: Arg| net(vec![sub(Some(s(0)), tk, vec![a])], Form::AndList, vec![]);
    let mut q = None;
    let f = || F::Atom(atom(p(0), vec![arg()]));
    if matches!(site, 0..=2 | 6 | 7 | 11) { d.preds.push(Pred { name: p(0), line: 0, params: formal() }); }
    if matches!(site, 3 | 4 | 8 | 9) { d.tasks.push(Pred { name: k(0), line: 0, params: formal() }); }
    if matches!(site, 5 | 10) { d.acts.push(Act { name: a(0), line: 0, params: formal(), pre: None, eff: None }); }
    d.tasks.push(Pred { name: k(1), line: 0, params: vec![] });
    let me = |task: Name, terms: Vec<Arg>, pre: Option<F>, n: Net| Meth { name: m(0), line: 0, params: ps(), task, task_line: 0, terms, pre, net: n };
    match site {
        0 => d.acts.push(Act { name: a(1), line: 0, params: ps(), pre: Some(f()), eff: None }),
        1 => d.acts.push(Act { name: a(1), line: 0, params: ps(), pre: None, eff: Some(F::And(vec![f()])) }),
        2 => d.meths.push(me(k(1), vec![], Some(F::Not(Box::new(f()))), none())),
        3 => d.meths.push(me(k(0), vec![arg()], None, none())),
        4 => d.meths.push(me(k(1), vec![], None, one(k(0), arg()))),
        5 => d.meths.push(me(k(1), vec![], None, one(a(0), arg()))),
        _ => {
            let on = pn.clone();
            // objects and constants of one name would be two declarations of it
            if site != 9 { sx::assume(on != cn); }
            let objs = vec![sym(on, ty(2))];
            q = Some(match site {
                6 => Prob { objs, init: vec![atom(p(0), vec![arg()])], ..Default::default() },
                7 => Prob { objs, goal: Some(f()), ..Default::default() },
                8 => Prob { objs, htn: Some((None, one(k(0), arg()))), ..Default::default() },
                9 => Prob { objs: vec![sym(nm(b'o', 0), t(0))], htn: Some((Some(ps()), one(k(0), arg()))), ..Default::default() },
                10 => Prob { htn: Some((Some(ps()), one(a(0), arg()))), ..Default::default() },
                _ => Prob { objs, goal: Some(F::And(vec![F::Or(vec![f()])])), ..Default::default() },
            });
        }
    }
    (d, q)
}
/// A type block with n declarations whose names and parents are symbolic over m names; an action uses one of them.
pub fn hierarchy(n: u64, m: u64) -> (Dom, Option<Prob>) {
    let mut types = vec![];
    let style = sx::pick(3);
    for i in 0..n {
        let last = i + 1 == n;
        let name = if last || style == 2 { anyt(m) } else { nm(b't', i as u8) };
        types.push(sym(name, if last && style == 1 { None } else { Some(anyt(m)) }));
    }
    // one shared annotation: "a b - t"
    if style == 2 && n >= 2 { types[0].g = true; types[0].ty = types[1].ty.clone(); }
    let d = Dom { types, acts: vec![Act { name: a(0), line: 0, params: vec![], pre: None, eff: None }], ..Default::default() };
    (d, None)
}
/// A chain of n types, declared from either end, one of which (any) has a symbolic parent instead.
pub fn type_chain(n: u64) -> (Dom, Option<Prob>) {
    let up = sx::flip();
    let odd = sx::pick(n as u32) as u64;
    let mut types: Vec<Sym> = (0..n).map(|i| sym(nm(b't', i as u8), Some(if i == odd { anyt(n + 1) } else { nm(b't', i as u8 + 1) }))).collect();
    if up { types.reverse(); }
    (Dom { types, acts: vec![Act { name: a(0), line: 0, params: vec![], pre: None, eff: None }], ..Default::default() }, None)
}
/// Long orderings: n subtasks one after the other, stated from either end, or one of them before all others; one more edge between one of five and any, stated first, last or between.
pub fn long_orderings(n: u64) -> (Dom, Option<Prob>) {
    const L: &[u8; 62] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    let id = |i: u64| -> Name { vec![b's', L[i as usize]] };
    let any = || -> Name { id([0, 1, n / 2, n - 2, n - 1][sx::pick(5) as usize]) };
    let (place, shape) = (sx::pick(2), sx::pick(3));
    let mut ord: Vec<(Name, Name)> = match shape {
        0 => (1..n).map(|i| (id(i - 1), id(i))).collect(),
        1 => (1..n).rev().map(|i| (id(i - 1), id(i))).collect(),
        _ => (1..n).map(|i| (id(0), id(i))).collect(),
    };
    let i = [0, n as usize / 2, n as usize - 1][sx::pick(3) as usize];
    // the other end is any
    let other = vec![b's', sx::of(&L[..n as usize])];
    ord.insert(i, if sx::flip() { (any(), other) } else { (other, any()) });
    let nt = net((0..n).map(|i| sub(Some(id(i)), a(0), vec![])).collect(), Form::AndList, ord);
    let mut d = Dom { acts: vec![Act { name: a(0), line: 0, params: vec![], pre: None, eff: None }], ..Default::default() };
    d.tasks = vec![Pred { name: k(0), line: 0, params: vec![] }];
    if place == 0 {
        d.meths.push(Meth { name: m(0), line: 0, params: vec![], task: k(0), task_line: 0, terms: vec![], pre: None, net: nt });
        return (d, None);
    }
    (d, Some(Prob { htn: Some((None, nt)), ..Default::default() }))
}
/// Ordering constraints: e symbolic edges over n subtasks, in a method or in the initial task network.
pub fn orderings(n: u64, e: u64) -> (Dom, Option<Prob>) {
    let place = sx::pick(2);
    let form = if e == 15 { 0 } else { sx::pick(3) };
    let anys = || -> Name { vec![b's', sx::range(b'0', b'0' + n as u8 - 1)] };
    let subs = (0..n).map(|i| sub(Some(s(i as u8)), a((i % 2) as u8), vec![])).collect();
    let chain = e == 15; // all subtasks in a chain, with one symbolic edge at any place
    let mut ord: Vec<(Name, Name)> = match form { 2 => vec![(anys(), anys())], _ if chain => (1..n).map(|i| (s(i as u8 - 1), s(i as u8))).collect(), _ => (0..e).map(|_| (anys(), anys())).collect() };
    if chain { let i = sx::pick(n as u32) as usize; ord.insert(i, (anys(), anys())); if sx::flip() { ord.reverse(); } }
    let form = match form { 0 => Form::AndList, 1 => Form::Chain, _ => Form::Single };
    let nt = net(subs, form, ord);
    let mut d = Dom { acts: (0..2).map(|i| Act { name: a(i), line: 0, params: vec![], pre: None, eff: None }).collect(), ..Default::default() };
    d.tasks = vec![Pred { name: k(0), line: 0, params: vec![] }];
    // a second method without a cycle on either side
    let fine = |i: u8| Meth { name: m(i), line: 0, params: vec![], task: k(0), task_line: 0, terms: vec![], pre: None, net: net(vec![sub(Some(s(0)), a(0), vec![]), sub(Some(s(1)), a(1), vec![])], Form::AndList, vec![(s(1), s(0))]) };
    d.meths.push(fine(0));
    let mut q = None;
    if place == 0 {
        d.meths.push(Meth { net: nt, ..fine(1) });
        d.meths.push(fine(2));
    } else {
        q = Some(Prob { htn: Some((None, nt)), ..Default::default() });
    }
    (d, q)
}
