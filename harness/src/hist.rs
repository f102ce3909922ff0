//! Histories of an editor session through the request handler of the language server.
use crate::lsp::items;
use crate::model::eq;
use crate::sx;
use hddl_analyzer::{verif, RequestHandler};
use std::future::Future;
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};
use tower_lsp::lsp_types::*;
use futures::Stream;
use tower_lsp::{ClientSocket, LanguageServer, LspService};

/// Runs a request to its end; the client takes the messages of the server as they come.
fn now<F: Future>(socket: &mut ClientSocket, f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let mut c = Context::from_waker(Waker::noop());
    for _ in 0..8 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut c) { return Some(x); }
        while let Poll::Ready(Some(_)) = std::pin::Pin::new(&mut *socket).poll_next(&mut c) {}
    }
    None
}
/// Contents: a domain, a problem, something else, with one arbitrary character in each; nothing (4), and one that begins with a comment in other letters (5).
fn content(kinds: u32) -> String {
    let c = if kinds > 2 { sx::of(b"(); a0\n:?") } else { sx::of(b"( \n") };
    let kind = sx::pick(kinds);
    if kind == 4 { return String::new(); }
    let (a, b): (&[u8], &[u8]) = match kind { 0 => (b"(define (domain d) (:predicates (p))\n", b")"), 1 => (b"(define (problem q) (:domain d)\n", b")"), 2 => (b"(define ", b"domain d))"), 5 => ("; \u{e9}\u{2200}\u{1f600}\n(define ".as_bytes(), b"(domain d)\n (:types t9 - t9))"), _ => (b"", b"(define (domain d)\n (:types t9 - t9))") };
    let mut v = a.to_vec();
    v.push(c);
    v.extend_from_slice(b);
    String::from_utf8(v).unwrap_or_default()
}
fn range_eq(a: &Range, b: &Range) -> bool { (a.start.line == b.start.line) & (a.start.character == b.start.character) & (a.end.line == b.end.line) & (a.end.character == b.end.character) }
fn same(a: &DocumentDiagnosticReportResult, b: &DocumentDiagnosticReportResult) -> bool {
    match (items(a), items(b)) {
        (Some(x), Some(y)) => {
            if x.len() != y.len() { return false; }
            let mut r = true;
            for (p, q) in x.iter().zip(y) { r &= eq(p.message.as_bytes(), q.message.as_bytes()) & range_eq(&p.range, &q.range) & (p.severity == q.severity); }
            r
        }
        _ => false,
    }
}
/// The diagnosis a content deserves.
fn deserved(t: &[u8]) -> Option<DocumentDiagnosticReportResult> {
    let v = t.to_vec();
    match crate::syn::Lex::new(&v).kind() { 0 => Some(verif::diagnose_domain(&v)), 1 => Some(verif::diagnose_problem(None, &v)), _ => None }
}
fn matches_content(r: &DocumentDiagnosticReportResult, t: &[u8]) -> bool { match deserved(t) { Some(d) => same(r, &d), None => items(r).is_some_and(|v| v.is_empty()) } }
/// Documents whose names are alike.
const ALIKE: [[&str; 3]; 9] = [
    ["untitled:a", "untitled:b", "untitled:c"], ["untitled:x/a.hddl", "untitled:y/a.hddl", "untitled:x/y/a.hddl"], ["untitled:a.hddl", "untitled:A.hddl", "untitled:a.HDDL"],
    ["untitled:a?x", "untitled:a?y", "untitled:a"], ["untitled:a#x", "untitled:a#y", "untitled:a"], ["untitled:a.hddl", "vscode:a.hddl", "git:a.hddl"],
    ["untitled:a.hddl", "untitled:a.pddl", "untitled:a"], ["untitled:a%20b", "untitled:a", "untitled:a%2520b"], ["x://h/a.hddl", "x://i/a.hddl", "x://h:1/a.hddl"]];
/// `n` steps, then a diagnosis of every document.
pub fn run(n: u32, uris: u32, kinds: u32, ops: u32, alike: bool) {
    let names = if alike { ALIKE[1 + sx::pick(ALIKE.len() as u32 - 1) as usize] } else { ALIKE[0] };
    let urls: Vec<Url> = names.iter().take(uris as usize).map(|u| Url::parse(u).unwrap()).collect();
    let (service, mut socket) = LspService::new(RequestHandler::new);
    let h = service.inner();
    let mut docs: Vec<Option<String>> = urls.iter().map(|_| None).collect();
    let mut log = vec![];
    let diagnose = |i: usize, docs: &Vec<Option<String>>, socket: &mut ClientSocket| {
        let p = DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri: urls[i].clone() }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
        let r = match now(socket, h.diagnostic(p)) { Some(r) => r, None => { sx::check(false, "a request for diagnosis is answered"); return; } };
        match (&docs[i], r) {
            (None, r) => { sx::obs(1); sx::check(r.is_err(), "a document that was never opened is refused"); }
            (Some(_), Err(_)) => sx::check(false, "an opened document is diagnosed"),
            (Some(t), Ok(r)) => {
                sx::note("document", t.as_bytes());
                sx::obs(2);
                sx::check(matches_content(&r, t.as_bytes()), "the diagnosis is that of the latest content of the document, and empty for what is not HDDL");
            }
        }
    };
    for _ in 0..n {
        let i = sx::pick(uris) as usize;
        let op = sx::pick(ops);
        // the number of the version is the client's affair
        let k = sx::range(0, 9);
        log.push(b'0' + op as u8);
        log.push(b'a' + i as u8);
        let uri = urls[i].clone();
        let done = match op {
            0 => { let t = content(kinds); docs[i] = Some(t.clone()); now(&mut socket, h.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri, language_id: String::new(), version: k as i32, text: t } })) }
            1 | 2 | 6 => {
                // one, two or three changes, the last holds the content
                let mut cs = vec![];
                if op == 6 { cs.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: String::new() }); }
                if op != 1 { cs.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: "(define (domain x))".to_string() }); }
                let t = content(kinds);
                docs[i] = Some(t.clone());
                cs.push(TextDocumentContentChangeEvent { range: None, range_length: None, text: t });
                now(&mut socket, h.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri, version: k as i32 }, content_changes: cs }))
            }
            3 => { let t = content(kinds); docs[i] = Some(t.clone()); now(&mut socket, h.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri }, text: Some(t) })) }
            7 => now(&mut socket, h.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri, version: k as i32 }, content_changes: vec![] })),
            4 => now(&mut socket, h.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri }, text: None })),
            _ => { diagnose(i, &docs, &mut socket); Some(()) }
        };
        sx::check(done.is_some(), "a notification is processed");
    }
    sx::note("history", &log);
    for i in 0..uris as usize { diagnose(i, &docs, &mut socket); }
}

/// Many documents (`a`: how many), each changed a number of times; then one more change, and a diagnosis of one of them.
pub fn many(docs: u32, changes: u32) {
    let urls: Vec<Url> = (0..docs).map(|i| Url::parse(&format!("untitled:w/d{i}.hddl")).unwrap()).collect();
    let (service, mut socket) = LspService::new(RequestHandler::new);
    let h = service.inner();
    // every content has an error in a line of its own
    let text = |i: u32, k: u32| -> String { let mut t = "(define (domain d)".to_string(); for _ in 0..i * (changes + 2) + k { t.push('\n'); } t.push_str("(:types t9 - t9 -))"); t };
    let change = |socket: &mut ClientSocket, i: u32, k: u32| {
        let uri = urls[i as usize].clone();
        let r = if k == 0 { now(socket, h.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri, language_id: String::new(), version: 1, text: text(i, k) } })) }
        else { now(socket, h.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri, version: k as i32 + 1 }, content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: text(i, k) }] })) };
        sx::check(r.is_some(), "a notification is processed");
    };
    let mut last = vec![0; docs as usize];
    let whole = sx::flip();
    if whole { for i in 0..docs { for k in 0..=changes { change(&mut socket, i, k); last[i as usize] = k; } } }
    else { for k in 0..=changes { for i in 0..docs { change(&mut socket, i, k); last[i as usize] = k; } } }
    let i = sx::pick(docs);
    change(&mut socket, i, changes + 1);
    last[i as usize] = changes + 1;
    for i in [sx::pick(docs), i] {
        let p = DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri: urls[i as usize].clone() }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
        match now(&mut socket, h.diagnostic(p)) { Some(Ok(r)) => { sx::obs(1); sx::check(matches_content(&r, text(i, last[i as usize]).as_bytes()), "of many documents, the diagnosis is that of the latest content"); } _ => sx::check(false, "of many documents, an opened one is diagnosed") }
    }
}
/// A content that is long: the error comes after `n` characters of a comment.
pub fn long(n: u32) {
    let u = Url::parse("untitled:w/d.hddl").unwrap();
    let (service, mut socket) = LspService::new(RequestHandler::new);
    let h = service.inner();
    let at = sx::pick(3);
    let pad = |k: u32| -> String { if k != at { return String::new(); } let mut s = ";".to_string(); for _ in 0..n { s.push('x'); } s.push('\n'); s };
    let problem = sx::flip();
    let mut t = pad(0);
    t.push_str(if problem { "(define (problem q) (:domain d)\n" } else { "(define (domain d)\n" });
    t.push_str(&pad(1));
    t.push_str(if problem { "(:goal (p))\n" } else { "(:types t)\n" });
    t.push_str(&pad(2));
    t.push(sx::of(b"(: a)") as char);
    t.push(')');
    let text = t.clone();
    now(&mut socket, h.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: u.clone(), language_id: String::new(), version: 1, text: text } }));
    if sx::flip() { now(&mut socket, h.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri: u.clone(), version: 2 }, content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: t.clone() }] })); }
    let p = DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri: u.clone() }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
    match now(&mut socket, h.diagnostic(p)) { Some(Ok(r)) => { sx::obs(1); sx::check(matches_content(&r, t.as_bytes()), "the diagnosis is that of the whole content"); } _ => sx::check(false, "a long document is diagnosed") }
}

enum Job<'a> { Write(usize, Pin<Box<dyn Future<Output = ()> + Send + 'a>>), Ask(usize, Pin<Box<dyn Future<Output = tower_lsp::jsonrpc::Result<DocumentDiagnosticReportResult>> + Send + 'a>>) }
/// `k` requests at the same time, polled in any order; the client takes messages at any time. After `n` steps the rest is done in turn.
/// ask: the first request is a diagnosis, the others write to documents of their own.
pub fn concurrent(k: usize, n: u32, uris: usize, lazy: bool, ask: bool) {
    let urls: Vec<Url> = ["untitled:a", "untitled:b", "untitled:c", "untitled:d", "untitled:e"].iter().take(uris).map(|u| Url::parse(u).unwrap()).collect();
    let (service, mut socket) = LspService::new(RequestHandler::new);
    let h = service.inner();
    // contents: each write's own error tells it from the others
    let text = |i: usize| -> String { let mut t = "(define (domain d)\n".to_string(); for _ in 0..i { t.push('\n'); } t.push_str("(:types t9 - u9)\n(:action a0 :parameters (?x - z9)))"); t };
    for u in &urls { now(&mut socket, h.did_open(DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: u.clone(), language_id: String::new(), version: 0, text: text(0) } })); }
    // (document, content, first and last step), the opening first
    let mut writes: Vec<(usize, usize, u32, u32)> = (0..uris).map(|u| (u, 0, 0, 0)).collect();
    let mut jobs: Vec<Option<Job>> = vec![];
    let mut span: Vec<(usize, u32, u32)> = vec![]; // document, start, end
    let mut log = vec![];
    for i in 0..k {
        let u = if ask { i % uris } else { sx::pick(uris as u32) as usize };
        let uri = urls[u].clone();
        let op = if !ask { sx::pick(3) } else if i == 0 { 2 } else { sx::pick(2) };
        log.push(b'0' + op as u8);
        log.push(b'a' + u as u8);
        jobs.push(Some(match op {
            0 => { writes.push((u, i + 1, !0, !0)); Job::Write(writes.len() - 1, h.did_change(DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier { uri, version: 1 }, content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: text(i + 1) }] })) }
            1 => { writes.push((u, i + 1, !0, !0)); Job::Write(writes.len() - 1, h.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri }, text: Some(text(i + 1)) })) }
            _ => { span.push((u, !0, !0)); Job::Ask(span.len() - 1, h.diagnostic(DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() })) }
        }));
    }
    let mut answers: Vec<(usize, DocumentDiagnosticReportResult)> = vec![];
    let mut c = Context::from_waker(Waker::noop());
    let mut free = 0;
    let mut step = 1u32;
    while jobs.iter().any(|j| j.is_some()) {
        // a lazy client takes messages only after some rounds
        let who = if step <= n { sx::pick(k as u32 + 1) as usize } else { free += 1; if lazy && free < 4 * k { (free - 1) % k } else { (free - 1) % (k + 1) } };
        if free > 64 * (k + 1) { sx::note("schedule", &log); sx::check(false, "all requests come to an end"); return; }
        log.push(b'0' + who as u8);
        if who == k { let _ = std::pin::Pin::new(&mut socket).poll_next(&mut c); step += 1; continue; }
        let Some(j) = &mut jobs[who] else { sx::assume(step > n); step += 1; continue };
        let done = match j {
            Job::Write(w, f) => { let r = &mut writes[*w]; if r.2 == !0 { r.2 = step; } let d = f.as_mut().poll(&mut c).is_ready(); if d { r.3 = step; } d }
            Job::Ask(a, f) => {
                let r = &mut span[*a];
                if r.1 == !0 { r.1 = step; }
                match f.as_mut().poll(&mut c) { Poll::Ready(x) => { r.2 = step; match x { Ok(x) => answers.push((*a, x)), Err(_) => sx::check(false, "an opened document is diagnosed") } true } Poll::Pending => false }
            }
        };
        if done { jobs[who] = None; }
        step += 1;
    }
    sx::obs(step as u64);
    sx::note("schedule", &log);
    // a content may be seen that was not overwritten before the question and whose writing began before the answer
    let sees = |u: usize, from: u32, to: u32, r: &DocumentDiagnosticReportResult| writes.iter().any(|w| w.0 == u && w.2 <= to && !writes.iter().any(|v| v.0 == u && w.3 < v.2 && v.3 < from) && matches_content(r, text(w.1).as_bytes()));
    for (a, r) in &answers { let (u, from, to) = span[*a]; sx::check(sees(u, from, to, r), "the diagnosis is that of a content the document had in the meantime"); }
    for u in 0..uris {
        let p = DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri: urls[u].clone() }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
        match now(&mut socket, h.diagnostic(p)) { Some(Ok(r)) => sx::check(sees(u, !0 - 1, !0, &r), "in the end the diagnosis is that of the last content"), _ => sx::check(false, "in the end a document is diagnosed") }
    }
}

/// A problem in a folder with other files: it is diagnosed against the domain among them.
pub fn folder(n: u32) {
    let mut dir = sx::dir();
    let sub = sx::pick(3);
    dir.push_str(["", "/a b.hddl", "/x/d"][sub as usize]);
    let url = |f: &str| Url::parse(&format!("file://{dir}/{f}")).unwrap();
    let (service, mut socket) = LspService::new(RequestHandler::new);
    let h = service.inner();
    let header = if n >> 8 > 0 { let mut s = b";".to_vec(); s.resize((n >> 8) as usize, b'x'); s.push(b'\n'); s } else { vec![] };
    let n = n & 255;
    let dom = |k: u32, c: u8| -> Vec<u8> {
        let mut v = header.clone();
        v.extend_from_slice(& match k { 0 => b"(define (domain d) (:predicates (p ?x))\n".to_vec(), 1 => b"(define (domain d) (:types t9 - t9 t9 - u9)\n(:predicates (p ?x - y9))".to_vec(), 2 => b"(define (domain d) (:predicates (q ?x))\n(".to_vec(),
            // a comment that is not UTF-8
            _ => { let mut t = b"(define (domain d) (:predicates (p ?x ?y))\n;".to_vec(); t.push(sx::of(b"\xe9\xff")); t.push(b'\n'); t } });
        v.push(c);
        v.extend_from_slice(b")");
        v
    };
    // the domain, if there is one: name and content
    let mut domain = None;
    let ext = sx::pick(4); // 0 none, 1 hddl, 2 pddl, 3 a name that is not one of HDDL
    if ext > 0 {
        let c = sx::of(b" )\n;a");
        let t = dom(sx::pick(4), c);
        let name = ["", "d.hddl", "z.pddl", "d.txt"][ext as usize];
        let is = crate::syn::Lex::new(&t).kind() == 0;
        domain = Some((format!("{dir}/{name}"), t.clone(), ext < 3 && is));
    }
    // the other files
    let others: Vec<(&str, &str)> = vec![("a.hddl", "(define (problem r) (:domain d))"), ("b.pddl", "(not hddl"), ("e.hddl", ""), ("hddl", "(define (domain no) (:predicates (p ?x ?y)))"), ("g.md", "(define (domain no))"), ("s.hddl/d.hddl", "(define (domain no))"), ("t/d.hddl", "(define (domain no))")];
    let some: Vec<(&str, &str)> = { let m = if n == 1 { (1 << sx::pick(8)) & 127 } else { sx::pick(1 << n.min(7)) }; others.into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1).collect() };
    let late = sx::flip();
    if !late { if let Some((f, t, _)) = &domain { sx::file(f, t); } }
    for (f, t) in &some { sx::file(&format!("{dir}/{f}"), t.as_bytes()); }
    if late { if let Some((f, t, _)) = &domain { sx::file(f, t); } }
    // the problem; the last character is arbitrary
    let mut p = b"(define (problem q) (:domain d)\n(:objects o)\n(:init (p o))".to_vec();
    p.push(sx::of(b"( )\na"));
    p.extend_from_slice(b")");
    sx::note("problem", &p);
    if let Some((f, t, _)) = &domain { sx::note(f, t); }
    let u = url("q.hddl");
    let s = String::from_utf8(p.clone()).unwrap_or_default();
    let how = sx::pick(3);
    if how > 0 { sx::file(&format!("{dir}/q.hddl"), if how == 2 { &p } else { b"(define (problem old) (:domain" }); }
    let open = |text: String| DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: u.clone(), language_id: String::new(), version: 0, text } };
    if how < 2 { now(&mut socket, h.did_open(open(s))); }
    else { now(&mut socket, h.did_open(open("old".to_string()))); now(&mut socket, h.did_save(DidSaveTextDocumentParams { text_document: TextDocumentIdentifier { uri: u.clone() }, text: None })); }
    let q = DocumentDiagnosticParams { text_document: TextDocumentIdentifier { uri: u.clone() }, identifier: None, previous_result_id: None, work_done_progress_params: Default::default(), partial_result_params: Default::default() };
    match now(&mut socket, h.diagnostic(q)) {
        Some(Ok(r)) => {
            if crate::syn::Lex::new(&p).kind() != 1 { sx::check(items(&r).is_some_and(|v| v.is_empty()), "nothing is said about what is not HDDL"); return; }
            let exp = match &domain { Some((_, t, true)) => { sx::obs(1); verif::diagnose_problem(Some(t), &p) } _ => { sx::obs(2); verif::diagnose_problem(None, &p) } };
            sx::check(same(&r, &exp), "a problem is diagnosed against the domain of its folder");
        }
        _ => sx::check(false, "a problem is diagnosed"),
    }
}
