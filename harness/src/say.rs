//! What the messages shown to a user say.
use crate::model::*;
use crate::sx;
use hddl_analyzer::{HDDLAnalyzer as A, ParsingError as E, WarningType as W};

/// The words of a text, without quotes and marks around them.
fn words(t: &[u8]) -> Vec<&[u8]> {
    let mark = |c: u8| matches!(c, b'\'' | b'"' | b'`' | b'.' | b',' | b':' | b';' | b'(' | b')' | b'[' | b']');
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        if matches!(t[i], b' ' | b'\n' | b'\t') { i += 1; continue; }
        let mut j = i;
        while j < t.len() && !matches!(t[j], b' ' | b'\n' | b'\t') { j += 1; }
        let (mut a, mut b) = (i, j);
        while a < b && mark(t[a]) { a += 1; }
        while b > a && mark(t[b - 1]) { b -= 1; }
        if a < b { o.push(&t[a..b]); }
        i = j;
    }
    o
}
/// Do the groups of words occur in this order in the text?
pub fn says(text: &[u8], groups: &[&[&[u8]]]) -> bool {
    let ws = words(text);
    let mut m = vec![true; ws.len() + 1];
    for g in groups {
        let mut n = vec![false; ws.len() + 1];
        for i in 1..=ws.len() {
            let mut here = false;
            if i >= g.len() {
                here = m[i - g.len()];
                for (k, w) in g.iter().enumerate() { here &= eq(ws[i - g.len() + k], w); }
            }
            n[i] = n[i - 1] | here;
        }
        m = n;
    }
    m[ws.len()]
}
fn num(n: u64) -> Vec<u8> { n.to_string().into_bytes() }

/// The message of an error of the model states its kind, place, and all of its details.
pub fn error(e: &E) {
    let s = match e { E::Semantic(s) => s, _ => return };
    let text = e.to_string();
    let t = text.as_bytes();
    sx::note("message", t);
    let a = actual(s);
    sx::obs(a.k as u64);
    sx::cover(1 + a.k as u32);
    let (l1, l2, ne, nf) = (num(a.l1), num(a.l2), num(a.e), num(a.f));
    let sym: &[&[u8]] = &[&a.sym];
    let at: &[&[u8]] = &[b"line", &l1];
    let kind: &[&[u8]] = match a.k {
        K::DupObj | K::UndObj => &[b"object"], K::DupReq => &[b"requirement"], K::DupPred | K::UndPred | K::ArPred => &[b"predicate"], K::DupAct => &[b"action"], K::DupTask => &[b"compound", b"task"],
        K::DupMeth => &[b"method"], K::DupPar | K::UndPar => &[b"parameter"], K::UndType => &[b"type"], K::UndSub => &[b"subtask"], K::UndTask => &[b"task"], K::ArTask => &[b"Task"],
        K::TyPred | K::TyTask => &[b"Type", b"error"], K::CycType => &[b"Type", b"hierarchy", b"is", b"cyclic"], K::CycOrd => &[b"ordering", b"is", b"cyclic"],
    };
    let ok = match a.k {
        K::DupObj | K::DupPred | K::DupAct | K::DupTask | K::DupMeth | K::DupPar => says(t, &[kind, sym, at, &[b"line", &l2]]),
        K::DupReq => { let w = &a.sym[1..]; says(t, &[kind, &[w]]) }
        K::UndPred | K::UndType | K::UndSub | K::UndTask | K::UndPar | K::UndObj => says(t, &[at, kind, sym, &[b"not", b"defined"]]),
        K::ArPred | K::ArTask => says(t, &[at, kind, sym, &[&ne], &[&nf]]),
        K::TyPred | K::TyTask => match (&a.te, &a.tf) {
            (Some(x), Some(y)) => says(t, &[at, kind, sym, &[b"Expected"], &[x], &[b"found"], &[y]]),
            (Some(x), None) => says(t, &[at, kind, sym, &[b"Expected"], &[x], &[b"not", b"find"]]),
            (None, Some(y)) => says(t, &[at, kind, sym, &[b"Expected", b"no", b"type"], &[b"found"], &[y]]),
            _ => false,
        },
        K::CycType => says(t, &[kind]),
        K::CycOrd => says(t, &[at, kind]),
    };
    sx::check(ok, &format!("the message states the {:?} with its place and details", a.k));
}
pub fn warning(w: &W) {
    if let W::NoPrimitiveRefinement(i) = w {
        let t = w.to_string();
        sx::note("warning", t.as_bytes());
        let l = num(i.position.line as u64);
        sx::check(says(t.as_bytes(), &[&[b"line", &l], &[b"compound", b"task"], &[i.symbol.as_bytes()], &[b"primitive", b"refinement"]]), "the warning states the task and its line");
    }
}
pub fn metadata(dt: &Vec<u8>) {
    match A::get_metadata(dt, None) {
        Err(e) => error(&e),
        Ok(m) => {
            sx::obs(m.nullables.len() as u64);
            let text = m.to_string();
            let t = text.as_bytes();
            sx::note("metadata", t);
            let (na, nt, nm) = (num(m.n_actions as u64), num(m.n_tasks as u64), num(m.n_methods as u64));
            sx::check(says(t, &[&[b"actions", &na], &[b"abstract", b"tasks", &nt], &[b"methods", &nm]]), "metadata states the numbers of actions, tasks and methods");
            let rec = m.recursion.to_string();
            let rec = words(rec.as_bytes());
            sx::check(!rec.is_empty() && says(t, &[&[b"Hierarchy", b"type"], &rec]), "metadata states the kind of recursion and the cycle");
            let mut g: Vec<&[u8]> = vec![b"Nullable", b"Tasks"];
            if m.nullables.is_empty() { g.push(b"None"); }
            for x in &m.nullables { g.push(x.as_bytes()); }
            g.push(b"Number");
            sx::check(says(t, &[&g]), "metadata lists the nullable tasks and no others");
        }
    }
}
pub fn model(d: &mut Dom, q: &mut Option<Prob>) {
    let dt = print_dom(d);
    sx::note("domain", &dt);
    let qt = q.as_mut().map(|q| print_prob(q));
    if let Some(t) = &qt { sx::note("problem", t); }
    match A::verify(&dt, qt.as_ref()) {
        Ok(w) => for x in &w { warning(x); },
        Err(e) => error(&e),
    }
    metadata(&dt);
}
/// Messages for malformed texts.
pub fn text(t: &Vec<u8>, problem: bool) {
    sx::note("text", t);
    let d0 = crate::syn::DOM0.as_bytes().to_vec();
    let r = if problem { A::to_json(&d0, Some(t)) } else { A::to_json(t, None) };
    if let Err(e) = r {
        let m = e.to_string();
        let m = m.as_bytes();
        sx::note("message", m);
        match &e {
            E::Lexiacal(l) => {
                let n = num(l.position.line as u64);
                sx::obs(1000 + l.position.line as u64);
                let pre = [b"line ".as_slice(), &n, b": '", l.lexeme.as_bytes(), b"'"].concat();
                sx::check(m.len() >= pre.len() && eq(&m[..pre.len()], &pre), "the message states the line and quotes the word");
            }
            E::Syntactic(s) => {
                let n = num(s.position.line as u64);
                sx::obs(2000 + s.position.line as u64);
                let pre = [b"line ".as_slice(), &n, b": expected '", s.expected.as_bytes(), b"', but found '", s.found.as_bytes(), b"'"].concat();
                sx::check(m.len() >= pre.len() && eq(&m[..pre.len()], &pre), "the message states the line, what was expected and what was found");
            }
            _ => sx::check(false, "an error of syntax is not one of the model"),
        }
    }
}
