//! Every interface answers on every text: no panic, no out-of-bounds access, no endless loop.
use crate::model::*;
use crate::sx;
use crate::syn::{tokens, DOCS, DOM0};
use hddl_analyzer::{verif, HDDLAnalyzer as A};

pub const Q0: &str = "(define (problem q) (:domain d) (:objects o) (:htn :subtasks (and)) (:init ) (:goal (and)))";
fn shown(r: Result<Vec<hddl_analyzer::WarningType>, hddl_analyzer::ParsingError>) -> u64 {
    match r { Ok(w) => { for x in &w { sx::obs(x.to_string().len() as u64); } 1 } Err(e) => { let s = e.to_string(); sx::check(!s.is_empty(), "an error has a message"); 2 } }
}
/// apis: 1 verify, 2 to_json, 4 metadata, 8 language server
pub fn all(t: &Vec<u8>, other: Option<&Vec<u8>>, problem: bool, apis: u64) {
    sx::note("text", t);
    let d0 = DOM0.as_bytes().to_vec();
    if !problem {
        if apis & 1 != 0 { sx::obs(shown(A::verify(t, None))); if let Some(q) = other { sx::obs(shown(A::verify(t, Some(q)))); } }
        if apis & 2 != 0 { sx::obs(A::to_json(t, other).is_ok() as u64); }
        if apis & 4 != 0 { match A::get_metadata(t, other) { Ok(m) => sx::obs(m.to_string().len() as u64), Err(e) => sx::obs(1000000 + e.to_string().len() as u64) } }
        if apis & 8 != 0 {
            let _ = verif::diagnose_domain(t);
            sx::obs(verif::classify(t) as u64);
            if let Some(q) = other { let _ = verif::diagnose_problem(Some(t), q); }
        }
    } else {
        let d = other.unwrap_or(&d0);
        if apis & 1 != 0 { sx::obs(shown(A::verify(d, Some(t)))); }
        if apis & 2 != 0 { sx::obs(A::to_json(d, Some(t)).is_ok() as u64); }
        if apis & 4 != 0 { match A::get_metadata(d, Some(t)) { Ok(m) => sx::obs(m.to_string().len() as u64), Err(e) => sx::obs(1000000 + e.to_string().len() as u64) } }
        if apis & 8 != 0 { let _ = verif::diagnose_problem(Some(d), t); let _ = verif::diagnose_problem(None, t); sx::obs(verif::classify(t) as u64); }
    }
}
fn bytes(n: u32) -> Vec<u8> { (0..n).map(|_| sx::byte()).collect() }
/// Representatives of the kinds of bytes.
pub const SOME: &[u8] = b"();?:-<=>._09az \n\t!\x00\x7f\x80\xa9\xc3\xe2\xf0\xff";
/// 0: up to n arbitrary bytes; 1: at any offset of the document n bytes replaced by arbitrary ones; 2: n inserted; 3: cut off at any
/// offset, with up to n arbitrary bytes appended; 4: up to n bytes of the kinds above; 5: one token removed, repeated or
/// exchanged with the next, or the text ends there
pub fn text(doc: usize, mode: u32, n: u32) -> Vec<u8> {
    if mode == 0 { let k = sx::pick(n + 1); return bytes(k); }
    if mode == 4 { let k = sx::pick(n + 1); return (0..k).map(|_| sx::of(SOME)).collect(); }
    if mode == 5 { return crate::syn::mutate(doc, 60, 0); }
    let toks = tokens(DOCS[doc]);
    let mut s = Vec::with_capacity(1024);
    for (i, t) in toks.iter().enumerate() {
        let p = |t: &Vec<u8>| t == b"(" || t == b")";
        if i > 0 && !p(t) && !p(&toks[i - 1]) { s.push(if i % 7 == 0 { b'\n' } else { b' ' }); }
        s.extend_from_slice(t);
    }
    let at = sx::pick(s.len() as u32 + 1) as usize;
    match mode {
        1 => { let x = bytes(n); for (k, c) in x.into_iter().enumerate() { if at + k < s.len() { s[at + k] = c; } } }
        2 => { let tail = s.split_off(at); s.extend(bytes(n)); s.extend(tail); }
        _ => { s.truncate(at); let k = sx::pick(n + 1); s.extend(bytes(k)); }
    }
    s
}
pub fn model(d: &mut Dom, q: &mut Option<Prob>, apis: u64) {
    let dt = print_dom(d);
    let qt = q.as_mut().map(|q| print_prob(q));
    if let Some(t) = &qt { sx::note("problem", t); }
    all(&dt, qt.as_ref(), false, apis);
    if let Some(t) = &qt { all(t, Some(&dt), true, apis & 8); }
}
/// Nested formulas; natively only (the depth is outside what is explored symbolically).
pub fn deep(n: u64) {
    let mut t = b"(define (domain d) (:action a :parameters () :precondition ".to_vec();
    for _ in 0..n { t.extend_from_slice(b"(not "); }
    t.extend_from_slice(b"(and)");
    for _ in 0..n { t.push(b')'); }
    t.extend_from_slice(b"))");
    sx::obs(shown(A::verify(&t, None)));
}
