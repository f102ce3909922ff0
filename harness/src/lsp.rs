//! The diagnosis of the language server against the verdict of verification.
use crate::model::*;
use crate::sx;
use crate::syn::{Lex, DOM0};
use hddl_analyzer::{verif, HDDLAnalyzer as A, ParsingError as E};
use tower_lsp::lsp_types::*;

pub fn items(r: &DocumentDiagnosticReportResult) -> Option<&Vec<Diagnostic>> {
    match r { DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(f)) => Some(&f.full_document_diagnostic_report.items), _ => None }
}
/// (line of the defect, line of the first declaration), 0: none
fn lines(e: &E) -> (u64, u64) {
    match e {
        E::Lexiacal(l) => (l.position.line as u64, 0),
        E::Syntactic(s) => (s.position.line as u64, 0),
        E::Semantic(s) => { let a = actual(s); if a.l2 != 0 { (a.l2, a.l1) } else { (a.l1, 0) } }
    }
}
/// Does the item show the error?
fn shows(d: &Diagnostic, e: &E, name: &str) {
    let m = e.to_string();
    sx::note("error", m.as_bytes());
    sx::note("item", d.message.as_bytes());
    sx::check(eq(m.as_bytes(), d.message.as_bytes()), &format!("{name}: the item states the error of verification"));
    let (l, first) = lines(e);
    if l != 0 {
        let r = &d.range;
        sx::obs(r.start.line as u64);
        sx::check((r.start.line as u64 + 1 == l) & (r.start.character == 0), &format!("{name}: the item begins at the line of the error"));
        sx::check((r.end.line as u64 == l) & (r.end.character == 0), &format!("{name}: the item is the line of the error"));
        sx::check(d.severity == Some(DiagnosticSeverity::ERROR), &format!("{name}: the item is an error"));
    }
    if first != 0 {
        match &d.related_information {
            Some(v) if v.len() == 1 => sx::check((v[0].location.range.start.line as u64 + 1 == first) & (v[0].location.range.end.line as u64 == first), &format!("{name}: the first declaration is related")),
            _ => sx::check(false, &format!("{name}: the first declaration is related")),
        }
    }
}
/// The items are exactly the errors.
pub fn same(r: &DocumentDiagnosticReportResult, errors: &[&E], name: &str) {
    match items(r) {
        None => sx::check(false, &format!("{name}: a full report")),
        Some(v) => {
            sx::obs(v.len() as u64);
            sx::check(v.len() == errors.len(), &format!("{name}: an item for every error and nothing else"));
            if v.len() == errors.len() { for (d, e) in v.iter().zip(errors) { shows(d, e, name); } }
        }
    }
}
/// A domain in the editor.
pub fn domain(t: &Vec<u8>) {
    let r = verif::diagnose_domain(t);
    match A::verify(t, None) {
        Ok(_) => { sx::obs(1); same(&r, &[], "domain without defects"); }
        Err(E::Syntactic(_)) if matches!(Lex::new(t).document(), Ok(1)) => { sx::obs(5); same(&r, &[], "a problem where a domain is needed"); }
        Err(e) => { sx::obs(2); same(&r, &[&e], "domain"); }
    }
}
/// A problem in the editor, with or without its domain.
pub fn problem(d: Option<&Vec<u8>>, t: &Vec<u8>) {
    let r = verif::diagnose_problem(d, t);
    let syn = A::to_json(&DOM0.as_bytes().to_vec(), Some(t)).err();
    // a domain given as the problem is not an error of syntax
    let wrong = syn.is_some() && matches!(Lex::new(t).document(), Ok(0));
    let syn = if wrong { None } else { syn };
    match d {
        None => { sx::obs(3); match &syn { None => same(&r, &[], "problem without its domain"), Some(e) => same(&r, &[e], "problem without its domain") } }
        Some(d) => match A::verify(d, None) {
            Err(e) => {
                sx::obs(4);
                let wrong = matches!(e, E::Syntactic(_)) && matches!(Lex::new(d).document(), Ok(1));
                let mut v = if wrong { vec![] } else { vec![&e] };
                if let Some(s) = &syn { v.push(s); }
                same(&r, &v, "problem of a defective domain");
            }
            Ok(_) => match A::verify(d, Some(t)) {
                Ok(_) => { sx::obs(6); same(&r, &[], "problem without defects"); }
                Err(e) => { sx::obs(7); if wrong { same(&r, &[], "a domain where a problem is needed") } else { same(&r, &[&e], "problem") } }
            },
        },
    }
}
/// The kind of a document as its first words state it.
pub fn kind(t: &Vec<u8>) {
    let mut l = Lex::new(t);
    let k = l.kind();
    sx::obs(k as u64);
    sx::check(verif::classify(t) as u64 == k as u64, "the kind of a file is what its first words state");
}
pub fn model(d: &mut Dom, q: &mut Option<Prob>) {
    let dt = print_dom(d);
    sx::note("domain", &dt);
    domain(&dt);
    kind(&dt);
    if let Some(q) = q {
        let qt = print_prob(q);
        sx::note("problem", &qt);
        problem(Some(&dt), &qt);
        problem(None, &qt);
        kind(&qt);
    }
}
/// what: 1 as a domain, 2 as a problem alone, 4 as the problem of a correct domain, 8 as the domain of a wrong problem, 16 kind
pub fn text(t: &Vec<u8>, what: u64) {
    sx::note("text", t);
    if what & 1 != 0 { domain(t); }
    if what & 2 != 0 { problem(None, t); }
    if what & 4 != 0 { problem(Some(&DOM0.as_bytes().to_vec()), t); }
    if what & 8 != 0 {
        problem(Some(t), &b"(define (problem q)\n(:domain d)\n(:goal (p9)))".to_vec());
        problem(Some(t), &b"(define (problem q)\n(:domain d)\n\n(:".to_vec());
    }
    if what & 16 != 0 { kind(t); }
}
