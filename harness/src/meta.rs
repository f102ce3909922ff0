//! Relations between runs: determinism, order of declarations, independence from the problem, opacity of names.
use crate::gen::*;
use crate::layout::{same_error, same_warnings};
use crate::model::*;
use crate::sx;
use hddl_analyzer::HDDLAnalyzer as A;

/// Everything the interfaces say about a domain and a problem, as text.
pub struct Out { pub verdict: Vec<Vec<u8>>, pub meta: Vec<u8>, pub json: Vec<u8> }
pub fn out(dt: &Vec<u8>, qt: Option<&Vec<u8>>) -> Out {
    let verdict = match A::verify(dt, qt) {
        Ok(w) => { let mut v = vec![b"ok".to_vec()]; v.extend(w.iter().map(|x| x.to_string().into_bytes())); v }
        Err(e) => vec![b"error".to_vec(), e.to_string().into_bytes()],
    };
    let meta = match A::get_metadata(dt, qt) { Ok(m) => m.to_string().into_bytes(), Err(e) => e.to_string().into_bytes() };
    let json = match A::to_json(dt, qt) { Ok(j) => j.into_bytes(), Err(e) => e.to_string().into_bytes() };
    Out { verdict, meta, json }
}
fn same_list(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for (x, y) in a.iter().zip(b) { r &= eq(x, y); } r }
pub fn compare(a: &Out, b: &Out, what: &str) {
    sx::obs(a.verdict.len() as u64);
    sx::check(same_list(&a.verdict, &b.verdict), &format!("{what}: same verdict, error and warnings"));
    sx::check(eq(&a.meta, &b.meta), &format!("{what}: same metadata"));
    sx::check(eq(&a.json, &b.json), &format!("{what}: same JSON"));
}
fn texts(d: &mut Dom, q: &mut Option<Prob>) -> (Vec<u8>, Option<Vec<u8>>) {
    let dt = print_dom(d);
    let qt = q.as_mut().map(|q| print_prob(q));
    sx::note("domain", &dt);
    if let Some(t) = &qt { sx::note("problem", t); }
    (dt, qt)
}
/// The concrete mutants of a base model: nothing, one name unknown, all names of one category unknown, or three neighbouring ones.
pub fn spoil(d: &mut Dom, q: &mut Option<Prob>, mode: u64, stride: u32) {
    match mode {
        0 => {}
        1 => {
            let mut n = 0u32;
            visit(d, q, &mut |_, _| n += 1);
            let k = sx::pick((n + stride - 1) / stride) * stride;
            let mut i = 0u32;
            visit(d, q, &mut |x, _| { if i == k { *x = n_("z9"); } i += 1; });
        }
        // three neighbours of a category of references become different unknown names
        3 => {
            const REFS: [C; 9] = [C::TypePar, C::TypeRef, C::PredRef, C::TaskRef, C::SubRef, C::Arg, C::GArg, C::GPredRef, C::GSubRef];
            let c = REFS[sx::pick(9) as usize] as u32;
            let mut n = 0u32;
            visit(d, q, &mut |_, y| if y as u32 == c { n += 1; });
            sx::assume(n > 1);
            let k = sx::pick((n - 1 + stride - 1) / stride) * stride;
            let mut i = 0u32;
            visit(d, q, &mut |x, y| if y as u32 == c { if i >= k && i < k + 3 { *x = vec![b'z', b'0' + (i - k) as u8]; } i += 1; });
        }
        _ => {
            // references to nothing, or declarations all alike, by category
            let c = sx::pick(22);
            let mut i = 0u8;
            visit(d, q, &mut |x, y| if y as u32 == c { *x = if matches!(y, C::TypeDecl | C::TypePar | C::ConstDecl | C::PredDecl | C::PredPar | C::TaskDecl | C::TaskPar | C::ActDecl | C::ActPar | C::MethDecl | C::MethPar | C::ObjDecl | C::HtnPar) { vec![x[0], b'0' + i % 2] } else { vec![b'z', b'0' + i % 10] }; i += 1; });
        }
    }
}
fn n_(s: &str) -> Name { s.as_bytes().to_vec() }

/// The same run under two orders of hashing.
pub fn deterministic(d: &mut Dom, q: &mut Option<Prob>) {
    let (dt, qt) = texts(d, q);
    sx::hash_tab(&[0, 1, 2, 3]);
    let a = out(&dt, qt.as_ref()); // once for all the second runs
    // an arbitrary injective assignment of table positions to the keys' digests
    let p = [sx::range(0, 3), sx::range(0, 3), sx::range(0, 3), sx::range(0, 3)];
    for i in 0..4 { for j in 0..i { sx::assume(p[i] != p[j]); } }
    sx::hash_tab(&p);
    let b = out(&dt, qt.as_ref());
    sx::note("first", &a.meta);
    sx::note("second", &b.meta);
    compare(&a, &b, "repeated");
}

/// The verdict on the domain does not depend on the problem.
pub fn independent(d: &mut Dom, own: &mut Option<Prob>) {
    let (dt, qt) = texts(d, own);
    independent_text(&dt, qt);
}
pub fn independent_text(dt: &Vec<u8>, qt: Option<Vec<u8>>) {
    let q = match sx::pick(5) {
        0 => match qt { Some(q) => q, None => b"(define (problem q) (:domain d) (:objects o) (:htn) (:init) (:goal ()))".to_vec() },
        1 => { let k = sx::pick(3); (0..k).map(|_| sx::of(b"( \n;)a0:?")).collect() }
        2 => dt.clone(),
        3 => b"(define (problem q)\n(:domain e)\n(:objects o - t9)\n(:htn :subtasks (and (k9 o)))\n(:init (p9 o)))".to_vec(),
        _ => b"(define (problem q) (:domain d) (:objects".to_vec(),
    };
    sx::note("the problem", &q);
    let id = |l: u64| l;
    match (A::verify(dt, None), A::verify(dt, Some(&q))) {
        (Err(a), Err(b)) => { sx::obs(1); sx::check(same_error(&a, &b, &id) && a.to_string() == b.to_string(), "error in the domain: the same with a problem"); }
        (Err(_), Ok(_)) => sx::check(false, "error in the domain: also with a problem"),
        (Ok(a), Ok(b)) => { sx::obs(2); sx::check(same_warnings(&a, &b, &id), "warnings about the domain: the same with a problem"); }
        (Ok(_), Err(_)) => sx::obs(3),
    }
    let m = |q: Option<&Vec<u8>>| match A::get_metadata(dt, q) { Ok(m) => m.to_string(), Err(e) => format!("error {e}") };
    sx::check(eq(m(None).as_bytes(), m(Some(&q)).as_bytes()), "metadata: the same with a problem");
    let d0 = crate::syn::DOM0.as_bytes().to_vec();
    match (A::to_json(dt, None), A::to_json(dt, Some(&q))) {
        (Err(a), Err(b)) => sx::check(a.to_string() == b.to_string(), "export: same error with a problem"),
        (Err(_), Ok(_)) => sx::check(false, "export: error in the domain also with a problem"),
        (Ok(a), Ok(b)) => {
            let (x, y) = (crate::json::parse(a.as_bytes()), crate::json::parse(b.as_bytes()));
            match (x, y) { (Some(x), Some(y)) => sx::check(crate::json::same_member(&x, &y, b"domain"), "export: the same domain with a problem"), _ => sx::check(false, "the output is JSON") }
            match A::to_json(&d0, Some(&q)) {
                Ok(c) => match (crate::json::parse(b.as_bytes()), crate::json::parse(c.as_bytes())) { (Some(x), Some(y)) => sx::check(crate::json::same_member(&x, &y, b"problem"), "export: the same problem with another domain"), _ => sx::check(false, "the output is JSON") },
                Err(_) => sx::check(false, "export: a problem accepted with one domain and not with another"),
            }
        }
        (Ok(_), Err(a)) => match A::to_json(&d0, Some(&q)) { Ok(_) => sx::check(false, "export: a problem accepted with one domain and not with another"), Err(b) => sx::check(a.to_string() == b.to_string(), "export: same error in the problem with another domain") },
    }
}

/// Whole words equal to `x` replaced by `y`.
fn subst(t: &[u8], x: &[u8], y: &[u8]) -> Vec<u8> {
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'-';
    let mut o = Vec::with_capacity(t.len() + 64);
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(x) && (i == 0 || !w(t[i - 1])) && (i + x.len() == t.len() || !w(t[i + x.len()])) { o.extend_from_slice(y); i += x.len(); } else { o.push(t[i]); i += 1; }
    }
    o
}
/// A name of length n that is none of the words of the language: of one character, any; of more, lower-case letters (`wide`: any).
fn fresh(n: u32, wide: bool) -> Name {
    let first: Vec<u8> = (0..128u8).filter(|c| if wide || n == 1 { c.is_ascii_alphabetic() || *c == b'_' } else { c.is_ascii_lowercase() }).collect();
    let rest: Vec<u8> = (0..128u8).filter(|c| if wide { c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-' } else { c.is_ascii_lowercase() }).collect();
    let mut v = vec![sx::of(&first)];
    for _ in 1..n { v.push(sx::of(&rest)); }
    for (w, _) in crate::syn::WORDS { if w.as_bytes()[0] != b':' && w.len() == v.len() { sx::assume(w.as_bytes() != &v[..]); } }
    v
}
fn names_of(dt: &[u8], qt: Option<&Vec<u8>>) -> Vec<Name> {
    let mut names: Vec<Name> = vec![n_("d"), n_("q")];
    let mut add = |t: &[u8]| for w in t.split(|c| *c == b'\n') {
        let w = if w.first() == Some(&b'?') { &w[1..] } else { w };
        if w.len() == 2 && w[0].is_ascii_alphabetic() && w[1].is_ascii_digit() && !names.iter().any(|n| n == w) { names.push(w.to_vec()); }
    };
    add(dt);
    if let Some(t) = qt { add(t); }
    names
}
/// One name of a (concrete) model replaced everywhere by an arbitrary other one.
pub fn renamed(d: &mut Dom, q: &mut Option<Prob>, lens: &[u32], step: u32, wide: bool) {
    replaced(d, q, step, &mut |_, _| fresh(lens[sx::pick(lens.len() as u32) as usize], wide));
}
/// One name replaced by another one that differs from a third, or from a word of the language, in capitals or in one character more or less.
pub fn near(d: &mut Dom, q: &mut Option<Prob>, step: u32) {
    let (rest, first) = (b"0aZ_-", b"aZ_");
    replaced(d, q, step, &mut |names, i| {
        let words = crate::syn::WORDS;
        let j = sx::pick((names.len() + words.len()) as u32) as usize;
        sx::assume(j != i);
        let mut z = if j < names.len() { names[j].clone() } else { words[j - names.len()].0.as_bytes().to_vec() };
        let key = z[0] == b':';
        if key { z.remove(0); }
        match sx::pick(if key { 5 } else { 4 }) {
            0 => z[0] = z[0].to_ascii_uppercase(),
            1 => z.push(sx::of(rest)),
            2 => z.insert(0, sx::of(first)),
            3 => { sx::assume(z.len() > 1); z.pop(); }
            _ => {}
        }
        for (w, _) in words { if w.as_bytes()[0] != b':' && w.len() == z.len() { sx::assume(w.as_bytes() != &z[..]); } }
        z
    });
}
fn replaced(d: &mut Dom, q: &mut Option<Prob>, step: u32, by: &mut dyn FnMut(&[Name], usize) -> Name) {
    let (dt, qt) = texts(d, q);
    // one and the same (constant) hash function for both runs
    sx::hash_tab(&[0, 0, 0, 0]);
    let a = out(&dt, qt.as_ref());
    let names = names_of(&dt, qt.as_ref());
    let i = (sx::pick((names.len() as u32 + step - 1) / step) * step) as usize;
    let x = names[i].clone();
    let y = by(&names, i);
    for (j, n) in names.iter().enumerate() { if j != i && n.len() == y.len() { sx::assume(n[..] != y[..]); } }
    let dt2 = subst(&dt, &x, &y);
    let qt2 = qt.as_ref().map(|t| subst(t, &x, &y));
    sx::note("replaced", &x);
    sx::note("by", &y);
    let b = out(&dt2, qt2.as_ref());
    sx::note("first", &a.verdict.join(&b"\n"[..]));
    sx::note("second", &b.verdict.join(&b"\n"[..]));
    let r = Out { verdict: a.verdict.iter().enumerate().map(|(i, t)| if i == 0 { t.clone() } else { subst(t, &x, &y) }).collect(), meta: subst(&a.meta, &x, &y), json: subst(&a.json, &x, &y) };
    compare(&r, &b, "renamed");
}
/// Two names that agree but for one character are different: a chain of length `n` of common characters.
pub fn long(d: &mut Dom, q: &mut Option<Prob>, n: u32) {
    // every name is extended by the same arbitrary characters, at its beginning or at its end
    let (dt, qt) = texts(d, q);
    sx::hash_tab(&[0, 0, 0, 0]);
    let a = out(&dt, qt.as_ref());
    let pre = sx::flip();
    let first: Vec<u8> = (0..128u8).filter(|c| c.is_ascii_alphabetic() || *c == b'_').collect();
    let rest: Vec<u8> = (0..128u8).filter(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-').collect();
    let mut ext: Name = vec![];
    for i in 0..n { let s = if i == 0 && pre { &first } else { &rest }; ext.push(if i < 1 { sx::of(s) } else { b'x' }); }
    let change = |t: &[u8]| -> Vec<u8> {
        let mut o = Vec::with_capacity(t.len() * 2);
        let name = |w: &[u8]| w.len() == 2 && w[0].is_ascii_alphabetic() && w[1].is_ascii_digit();
        let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'-';
        let mut i = 0;
        while i < t.len() {
            if i + 2 <= t.len() && name(&t[i..i + 2]) && (i == 0 || !w(t[i - 1])) && (i + 2 == t.len() || !w(t[i + 2])) {
                if pre { o.extend_from_slice(&ext); }
                o.extend_from_slice(&t[i..i + 2]);
                if !pre { o.extend_from_slice(&ext); }
                i += 2;
            } else { o.push(t[i]); i += 1; }
        }
        o
    };
    let dt2 = change(&dt);
    let qt2 = qt.as_ref().map(|t| change(t));
    sx::note("changed", &dt2);
    let b = out(&dt2, qt2.as_ref());
    let r = Out { verdict: a.verdict.iter().enumerate().map(|(i, t)| if i == 0 { t.clone() } else { change(t) }).collect(), meta: change(&a.meta), json: change(&a.json) };
    compare(&r, &b, "longer names");
}

/// A typed list in another order; what has no annotation stays at the end.
fn turn(v: &mut Vec<Sym>, rev: bool) {
    let (mut a, mut b): (Vec<Sym>, Vec<Sym>) = v.iter().map(|x| Sym { g: false, ..x.clone() }).partition(|x| x.ty.is_some());
    for l in [&mut a, &mut b] { if rev { l.reverse(); } else if !l.is_empty() { l.rotate_left(1); } }
    a.extend(b);
    *v = a;
}
/// The same declarations in two orders.
pub fn reordered(d: &mut Dom, q: &mut Option<Prob>) {
    let (dt, qt) = texts(d, q);
    let mut e = d.clone();
    let mut order: Vec<usize> = (0..8).collect();
    let mut po: Vec<usize> = (0..5).collect();
    match sx::pick(21) {
        0 => { order.reverse(); po.reverse(); }
        x @ 1..=8 => { let b = order.remove(x as usize - 1); order.push(b); let b = po.remove((x as usize - 1) % 5); po.push(b); }
        x @ 9..=15 => { let b = order.remove(x as usize - 8); order.insert(0, b); let b = po.remove((x as usize - 9) % 5); po.insert(0, b); }
        // the elements of a kind the other way round
        16 => { turn(&mut e.types, true); turn(&mut e.consts, true); if let Some(p) = q { turn(&mut p.objs, true); } }
        17 => { e.preds.reverse(); e.funcs.reverse(); if let Some(p) = q { p.init.reverse(); } }
        18 => { e.tasks.reverse(); e.acts.reverse(); }
        19 => { e.meths.reverse(); }
        // the tasks after everything else, the actions before
        _ => { e.tasks.rotate_left(1.min(d.tasks.len())); e.acts.rotate_left(1.min(d.acts.len())); e.meths.rotate_left(1.min(d.meths.len())); turn(&mut e.types, false); }
    }
    let mut sep = |t: &mut Vec<u8>| { t.push(b'\n'); 1 };
    let mut p = Pr::new(&mut sep);
    p.dom_order(&mut e, &order);
    let dt2 = p.text;
    let qt2 = q.as_mut().map(|q| { let mut sep = |t: &mut Vec<u8>| { t.push(b'\n'); 1 }; let mut p = Pr::new(&mut sep); p.prob_order(q, &po); p.text });
    sx::note("reordered", &dt2);
    let syms = |w: &[hddl_analyzer::WarningType]| -> Vec<Vec<u8>> { w.iter().map(|x| match x { hddl_analyzer::WarningType::NoPrimitiveRefinement(i) => i.symbol.clone().into_bytes(), o => o.to_string().into_bytes() }).collect() };
    let set = |a: &[Vec<u8>], b: &[Vec<u8>]| { let mut r = a.len() == b.len(); for x in a { let mut f = false; for y in b { f |= eq(x, y); } r &= f; } r };
    match (A::verify(&dt, qt.as_ref()), A::verify(&dt2, qt2.as_ref())) {
        (Ok(a), Ok(b)) => { sx::obs(1); sx::check(set(&syms(&a), &syms(&b)), "same warnings in any order of declarations"); }
        (Err(a), Err(b)) => { sx::obs(2); sx::note("error 1", a.to_string().as_bytes()); sx::note("error 2", b.to_string().as_bytes()); }
        (a, b) => { sx::obs(3); for (n, r) in [("verdict 1", a), ("verdict 2", b)] { if let Err(e) = r { sx::note(n, e.to_string().as_bytes()); } } sx::check(false, "accepted in any order of declarations, or in none"); }
    }
    match (A::get_metadata(&dt, None), A::get_metadata(&dt2, None)) {
        (Ok(a), Ok(b)) => {
            let n = |v: &[String]| -> Vec<Vec<u8>> { v.iter().map(|x| x.clone().into_bytes()).collect() };
            sx::check(set(&n(&a.nullables), &n(&b.nullables)), "same nullable tasks in any order of declarations");
            let k = |s: String| s.split('\n').next().unwrap_or("").to_string();
            sx::check(k(a.recursion.to_string()) == k(b.recursion.to_string()), "same kind of recursion in any order of declarations");
            sx::check(a.n_actions == b.n_actions && a.n_tasks == b.n_tasks && a.n_methods == b.n_methods && a.domain_name == b.domain_name, "same numbers in any order of declarations");
        }
        (Err(_), Err(_)) => {}
        _ => sx::check(false, "metadata in any order of declarations, or in none"),
    }
}
