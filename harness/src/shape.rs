//! Generators of shapes: formulas, typed lists, task networks and blocks, with symbolic names.
use crate::model::*;
use crate::sx;

fn nm(l: u8) -> Name { vec![l, sx::range(b'0', b'9')] }
fn name(l: u8, d: u8) -> Name { vec![l, b'0' + d] }
fn arg() -> Arg { let v = sx::flip(); Arg { name: nm(if v { b'v' } else { b'c' }), var: v, line: 0, ty: None, ty_line: 0 } }
fn fixed_arg(i: u32) -> Arg { Arg { name: nm(if i % 2 == 0 { b'v' } else { b'c' }), var: i % 2 == 0, line: 0, ty: None, ty_line: 0 } }
const W: [&str; 6] = ["0.5", "1", "0.125", "007", "10.0", "0.25"];

fn leaf() -> F {
    match sx::pick(5) {
        0 => F::Empty,
        1 => F::Atom(atom(nm(b'p'), vec![])),
        2 => F::Atom(atom(nm(b'p'), vec![fixed_arg(0)])),
        3 => F::Atom(atom(nm(b'p'), vec![fixed_arg(0), fixed_arg(1), fixed_arg(2)])),
        _ => F::Eq(fixed_arg(0), fixed_arg(1)),
    }
}
fn nonempty(f: F) -> F { if let F::Empty = f { F::Atom(atom(nm(b'p'), vec![])) } else { f } }
/// `w`: children of a connective
pub fn formula(depth: u32, w: u32) -> F {
    if depth == 0 { return leaf(); }
    let list = |w: u32| -> Vec<F> { let k = sx::pick(w + 1); (0..k).map(|i| if i == 0 { formula(depth - 1, 1) } else { leaf() }).collect() };
    match sx::pick(8) {
        0 => leaf(),
        1 => F::Not(Box::new(formula(depth - 1, w))),
        2 => F::And(list(w)),
        3 => F::Or(list(w)),
        4 => F::Xor(list(w)),
        5 => F::Forall(vars(), Box::new(formula(depth - 1, w))),
        6 => F::Exists(vars(), Box::new(formula(depth - 1, w))),
        _ => { let k = sx::pick(w + 1); let o = sx::pick(3) as usize; F::Prob((0..k).map(|i| (W[(o * 2 + i as usize) % 6], nonempty(if i == 0 { formula(depth - 1, 1) } else { leaf() }))).collect()) }
    }
}
/// What is around a formula at one level: 0 not, 1 and, 2 or, 3 oneof, 4 forall, 5 exists, 6 probabilistic; 7 and 8: with a neighbour
pub const AROUND: u32 = 9;
pub fn around(k: u32, f: F, other: &dyn Fn() -> F) -> F {
    match k {
        0 => F::Not(Box::new(f)), 1 => F::And(vec![f]), 2 => F::Or(vec![f]), 3 => F::Xor(vec![f]),
        4 => F::Forall(vec![par(name(b'w', 0), None)], Box::new(f)), 5 => F::Exists(vec![par(name(b'w', 0), None)], Box::new(f)),
        6 => F::Prob(vec![("0.5", f)]), 7 => F::And(vec![other(), f]), _ => F::Or(vec![f, other()]),
    }
}
/// f, n levels down: all levels are alike but for one, which may be anything.
pub fn nested(n: u32, f: F, other: &dyn Fn() -> F, quant: bool) -> F {
    let ok: Vec<u32> = (0..AROUND).filter(|k| quant || !matches!(k, 4 | 5)).collect();
    let all = ok[sx::pick(ok.len() as u32) as usize];
    let odd = sx::pick(n + 1);
    let one = if odd == n { all } else { ok[sx::pick(ok.len() as u32) as usize] };
    let mut f = f;
    for i in 0..n { f = around(if i == odd { one } else { all }, f, other); }
    f
}
/// A deep formula in one of the places of a formula.
pub fn with_nested(n: u32) -> (Dom, Option<Prob>) {
    let mut d = Dom::default();
    let mut q = None;
    let site = sx::pick(4);
    let f = nested(n, F::Atom(atom(nm(b'p'), vec![fixed_arg(0)])), &|| F::Atom(atom(name(b'p', 1), vec![])), true);
    match site {
        0 => d.acts.push(act(Some(f), None)),
        1 => d.acts.push(act(None, Some(f))),
        2 => d.meths.push(meth(Some(f), net0())),
        _ => q = Some(Prob { goal: Some(f), ..Default::default() }),
    }
    (d, q)
}
/// A probabilistic effect with a weight of one or two (symbolic) digits, or one of many digits.
pub fn with_number() -> (Dom, Option<Prob>) {
    let digit = || b'0' + sx::pick(10) as u8;
    let w: Vec<u8> = match sx::pick(4) {
        0 => vec![digit()],
        1 => vec![digit(), digit()],
        2 => vec![digit(), b'.', digit(), b"05"[sx::pick(2) as usize]],
        _ => [&b"255"[..], b"256", b"65536", b"2147483647", b"2147483648", b"4294967296", b"9007199254740993", b"9223372036854775807", b"0000000000000000000000000000001", b"1234567.5", b"0.12345678", b"0.30000000000000004", b"4294967296.5"][sx::pick(13) as usize].to_vec(),
    };
    let w: &'static str = Box::leak(String::from_utf8(w).unwrap_or_default().into_boxed_str());
    let f = F::Prob(vec![("1", F::Atom(atom(nm(b'p'), vec![]))), (w, F::Atom(atom(nm(b'p'), vec![])))]);
    (Dom { acts: vec![act(None, Some(f))], ..Default::default() }, None)
}
fn vars() -> Vec<Sym> { match sx::pick(3) { 0 => vec![], 1 => vec![par(nm(b'v'), None)], _ => vec![par(nm(b'v'), Some(nm(b't'))), par(nm(b'w'), None)] } }
fn act(pre: Option<F>, eff: Option<F>) -> Act { Act { name: nm(b'a'), line: 0, params: vec![], pre, eff } }
fn meth(pre: Option<F>, net: Net) -> Meth { Meth { name: nm(b'm'), line: 0, params: vec![], task: nm(b'k'), task_line: 0, terms: vec![], pre, net } }
fn net0() -> Net { net(vec![], Form::Ordered, vec![]) }
/// The formula in one of the places of a formula; a neighbour after it.
pub fn with_formula(depth: u32, w: u32) -> (Dom, Option<Prob>) {
    let mut d = Dom::default();
    let mut q = None;
    let site = sx::pick(4);
    let f = formula(depth, w);
    match site {
        0 => { d.acts.push(act(Some(f), Some(F::Not(Box::new(F::Atom(atom(nm(b'p'), vec![]))))))); }
        1 => { d.acts.push(act(None, Some(f))); }
        2 => { d.meths.push(meth(Some(f), net(vec![sub(None, nm(b'k'), vec![])], Form::AndList, vec![]))); }
        _ => { q = Some(Prob { goal: Some(f), ..Default::default() }); }
    }
    d.preds.push(Pred { name: nm(b'p'), line: 0, params: vec![] });
    d.meths.push(meth(None, net0()));
    (d, q)
}
/// Up to n names; `g`: the annotation of the next one counts.
pub fn typed_list(n: u32, var: bool, letter: u8) -> Vec<Sym> {
    let k = sx::pick(n + 1);
    let typed = sx::pick(k + 1);
    let mut v: Vec<Sym> = vec![];
    for i in 0..k {
        let ty = if i < typed { Some(nm(b't')) } else { None };
        let mut s = Sym { name: nm(letter), var, line: 0, ty, ty_line: 0, g: false };
        if i + 1 < typed { s.g = sx::flip(); }
        v.push(s);
    }
    for i in (1..v.len()).rev() { if v[i - 1].g { v[i - 1].ty = v[i].ty.clone(); } }
    v
}
pub const LISTS: u32 = 11;
pub fn with_list(n: u32) -> (Dom, Option<Prob>) {
    let mut d = Dom::default();
    let mut q = None;
    let site = sx::pick(LISTS);
    let l = typed_list(n, !matches!(site, 0 | 1 | 8), match site { 0 => b't', 1 => b'c', 8 => b'o', _ => b'v' });
    let other = || Pred { name: nm(b'n'), line: 0, params: vec![par(nm(b'v'), None)] };
    match site {
        0 => d.types = l,
        1 => d.consts = l,
        2 => d.preds = vec![other(), Pred { name: nm(b'p'), line: 0, params: l }, other()],
        3 => d.funcs = vec![other(), Pred { name: nm(b'f'), line: 0, params: l }, other()],
        4 => d.tasks = vec![Pred { name: nm(b'k'), line: 0, params: l }, other()],
        5 => d.acts = vec![Act { params: l, ..act(None, None) }, act(None, Some(F::Empty))],
        6 => d.meths = vec![Meth { params: l, terms: vec![fixed_arg(0)], ..meth(None, net0()) }],
        7 => q = Some(Prob { htn: Some((Some(l), net(vec![sub(None, nm(b'k'), vec![])], Form::Ordered, vec![]))), ..Default::default() }),
        8 => q = Some(Prob { objs: l, ..Default::default() }),
        9 => d.acts = vec![act(Some(F::Forall(l, Box::new(F::Atom(atom(nm(b'p'), vec![]))))), None)],
        _ => d.acts = vec![act(Some(F::Exists(l, Box::new(F::Eq(fixed_arg(0), fixed_arg(2))))), None)],
    }
    (d, q)
}
/// Networks of up to n subtasks, e ordering edges and 2 constraints, in every notation.
pub fn network(n: u32, e: u32, c: u32) -> Net {
    let k = sx::pick(n + 1);
    let mut subs = vec![];
    for i in 0..k {
        let id = if sx::flip() { Some(nm(b's')) } else { None };
        let na = sx::pick(if i == 0 { 3 } else { 2 });
        subs.push(sub(id, nm(b'k'), (0..na).map(fixed_arg).collect()));
    }
    let form = match sx::pick(4) { 0 => Form::Ordered, 1 => Form::AndList, 2 => Form::Single, _ => Form::Chain };
    let ne = match form { Form::Ordered => 0, Form::AndList => sx::pick(e + 1), Form::Single => 1, Form::Chain => 1 + sx::pick(e) };
    let ord = (0..ne).map(|_| (nm(b's'), nm(b's'))).collect();
    let cons = match sx::pick(c + 2) { 0 => None, m => Some((1..m).map(|i| (sx::flip(), fixed_arg(i), fixed_arg(i + 1))).collect::<Vec<_>>()) };
    let mut style = 0;
    if k == 1 && sx::flip() { style |= 1; }
    if let Some(x) = &cons { if x.len() < 2 && sx::flip() { style |= 2; } if form != Form::Ordered && sx::flip() { style |= 8; } }
    if form == Form::AndList && ne == 0 && sx::flip() { style |= 4; }
    let mut t = net(subs, form, ord);
    t.cons = cons;
    t.style = style;
    t
}
pub fn with_network(n: u32, e: u32, c: u32) -> (Dom, Option<Prob>) {
    let mut d = Dom::default();
    let mut q = None;
    let site = sx::pick(4);
    let mut t = network(n, e, c);
    // a method without precondition and an initial network without parameters state their subtasks
    if t.subs.is_empty() && (site == 1 || site == 3) && t.form == Form::Ordered && t.cons.is_none() && sx::flip() { t.style |= 16; }
    match site {
        0 => d.meths.push(meth(None, t)),
        1 => d.meths.push(Meth { terms: vec![fixed_arg(0)], ..meth(Some(F::Atom(atom(nm(b'p'), vec![fixed_arg(1)]))), t) }),
        2 => q = Some(Prob { htn: Some((None, t)), init: vec![atom(nm(b'p'), vec![fixed_arg(1)])], ..Default::default() }),
        _ => q = Some(Prob { htn: Some((Some(vec![par(nm(b'v'), None)]), t)), init: vec![atom(nm(b'p'), vec![])], goal: Some(F::Empty), ..Default::default() }),
    }
    d.acts.push(act(None, None));
    (d, q)
}
/// One block of every kind, in an arbitrary order; a block may be split in two (predicates, functions, types, constants, requirements).
pub fn blocks() -> Dom {
    let two = |l: u8| vec![Sym { name: nm(l), var: false, line: 0, ty: None, ty_line: 0, g: false }, Sym { name: nm(l), var: false, line: 0, ty: Some(nm(b't')), ty_line: 0, g: false }];
    let p = |l: u8| Pred { name: nm(l), line: 0, params: vec![] };
    let mut d = Dom { reqs: vec![3, 0], types: two(b't'), consts: two(b'c'), preds: vec![p(b'p'), p(b'p')], funcs: vec![p(b'f'), p(b'f')], tasks: vec![p(b'k'), p(b'k')], acts: vec![act(None, None), act(Some(F::Empty), None)], meths: vec![meth(None, net0()), meth(None, net0())] };
    d.types.reverse(); d.consts.reverse();
    d
}
pub fn split_print(d: &mut Dom, order: &[usize], cut: usize) -> Vec<u8> {
    let mut sep = |t: &mut Vec<u8>| { t.push(b'\n'); 1 };
    let mut p = Pr::new(&mut sep);
    p.open("domain", "d");
    let mut rest: Option<Dom> = None;
    for b in order {
        if *b == cut {
            // the first half here, the second at the end
            let mut one = d.clone();
            let mut two = Dom::default();
            match b {
                0 => two.reqs = one.reqs.split_off(1),
                1 => two.types = one.types.split_off(1),
                2 => two.consts = one.consts.split_off(1),
                3 => two.preds = one.preds.split_off(1),
                4 => two.funcs = one.funcs.split_off(1),
                5 => two.tasks = one.tasks.split_off(1),
                6 => two.acts = one.acts.split_off(1),
                _ => two.meths = one.meths.split_off(1),
            }
            p.block(&mut one, *b);
            match b { 1 => d.types[0] = one.types[0].clone(), 2 => d.consts[0] = one.consts[0].clone(), 3 => d.preds[0] = one.preds[0].clone(), 4 => d.funcs[0] = one.funcs[0].clone(), 5 => d.tasks[0] = one.tasks[0].clone(), 6 => d.acts[0] = one.acts[0].clone(), 7 => d.meths[0] = one.meths[0].clone(), _ => {} }
            rest = Some(two);
        } else { p.block(d, *b); }
    }
    if let Some(mut two) = rest {
        p.block(&mut two, cut);
        match cut { 1 => d.types[1] = two.types[0].clone(), 2 => d.consts[1] = two.consts[0].clone(), 3 => d.preds[1] = two.preds[0].clone(), 4 => d.funcs[1] = two.funcs[0].clone(), 5 => d.tasks[1] = two.tasks[0].clone(), 6 => d.acts[1] = two.acts[0].clone(), 7 => d.meths[1] = two.meths[0].clone(), _ => {} }
    }
    p.s(")");
    p.text
}
/// An order of n blocks: block i moved to another place, or (full) any permutation.
pub fn order(n: usize, full: bool) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    if !full {
        let b = left.remove(sx::pick(n as u32) as usize);
        left.insert(sx::pick(n as u32) as usize, b);
        if sx::flip() { left.reverse(); }
        return left;
    }
    let mut o = vec![];
    while !left.is_empty() { o.push(left.remove(sx::pick(left.len() as u32) as usize)); }
    o
}
/// The problem with every kind of block.
pub fn prob_blocks() -> Prob {
    Prob { reqs: vec![1, 3], objs: vec![sym(nm(b'o'), Some(nm(b't'))), sym(nm(b'o'), None)], htn: Some((Some(vec![par(nm(b'v'), None)]), net(vec![sub(None, nm(b'k'), vec![]), sub(None, nm(b'a'), vec![])], Form::AndList, vec![]))), init: vec![atom(nm(b'p'), vec![]), atom(name(b'p', 1), vec![fixed_arg(1)])], goal: Some(F::And(vec![F::Atom(atom(nm(b'p'), vec![arg()]))])) }
}
