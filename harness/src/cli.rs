//! The command line tool against the library.
use crate::model::eq;
use crate::sx;
use hddl_analyzer::HDDLAnalyzer as A;
// a copy made by lib/build_ir.py on every run, `main` made public
#[path = "../../target/tool/main.rs"]
mod tool;

/// What an output file held before.
static OLD: [u8; 30000] = [b'x'; 30000];

fn run(args: &[&str]) -> (Vec<u8>, Vec<u8>) {
    if let Ok(mut v) = clap::ARGV.lock() { *v = args.iter().map(|s| s.into()).collect(); }
    sx::capture(true);
    let _ = tool::main();
    { use std::io::Write; let _ = std::io::stdout().flush(); }
    sx::capture(false);
    (sx::out(1), sx::out(2))
}
/// Position after the first occurrence of `w` in `t` from `i` on.
fn after(t: &[u8], i: usize, w: &[u8]) -> Option<usize> { (i..=t.len().checked_sub(w.len())?).find(|k| eq(&t[*k..*k + w.len()], w)).map(|k| k + w.len()) }
/// The texts occur in this order.
fn in_order(t: &[u8], ws: &[Vec<u8>]) -> bool { let mut i = 0; for w in ws { match after(t, i, w) { Some(k) => i = k, None => return false } } true }
fn refused(out: &[u8], err: &[u8], text: Option<&[u8]>, what: &str) {
    sx::check(after(out, 0, b"[Ok]").is_none(), &format!("{what}: not announced as correct"));
    sx::check(after(err, 0, b"[Error]").is_some(), &format!("{what}: announced as an error"));
    if let Some(t) = text { sx::check(after(err, 0, t).is_some(), &format!("{what}: the error of the library is shown")); }
}
/// what: 0 verify, 1 metadata, 2 to_json, 3 to_json into a file; missing: 1 the domain, 2 the problem does not exist
pub fn judge(what: u32, d: &Vec<u8>, q: Option<&Vec<u8>>, missing: u32) {
    let dir = sx::dir();
    let (df, qf, of) = (format!("{dir}/d.hddl"), format!("{dir}/q.hddl"), format!("{dir}/o.json"));
    if missing != 1 { sx::file(&df, d); }
    if let Some(q) = q { if missing != 2 { sx::file(&qf, q); } }
    let mut args: Vec<&str> = vec!["hddl_analyzer", ["verify", "metadata", "to_json", "to_json"][what as usize], &df];
    if q.is_some() { args.push(if sx::flip() { "-p" } else { "--problem-path" }); args.push(&qf); }
    let before: &[u8] = if what == 3 && sx::flip() { &OLD } else { b"" };
    if what == 3 { args.push(if before.is_empty() { "-o" } else { "--output-file" }); args.push(&of); }
    if !before.is_empty() { sx::file(&of, before); }
    let (out, err) = run(&args);
    sx::note("stdout", &out);
    sx::note("stderr", &err);
    if what != 3 && missing == 0 { sx::obs(out.len() as u64); }
    if missing == 1 || (missing == 2 && what != 1) { refused(&out, &err, None, "missing file"); return; }
    match what {
        0 => match A::verify(d, q) {
            Ok(w) => {
                sx::check(err.is_empty(), "verify: no error shown for a correct model");
                let mut ws: Vec<Vec<u8>> = vec![];
                for x in &w { ws.push(b"[Warning]".to_vec()); ws.push(x.to_string().into_bytes()); }
                ws.push(b"[Ok]".to_vec());
                sx::check(in_order(&out, &ws), "verify: all warnings are shown, then the verdict");
                let mut n = 0;
                let mut i = 0;
                while let Some(k) = after(&out, i, b"[Warning]") { n += 1; i = k; }
                sx::check(n == w.len(), "verify: no other warnings are shown");
            }
            Err(e) => refused(&out, &err, Some(e.to_string().as_bytes()), "verify"),
        },
        1 => match A::get_metadata(d, None) {
            Ok(m) => { sx::check(eq(&out, m.to_string().as_bytes()), "metadata: as the library gives it"); sx::check(err.is_empty(), "metadata: no error shown"); }
            Err(e) => refused(&out, &err, Some(e.to_string().as_bytes()), "metadata"),
        },
        _ => match A::to_json(d, q) {
            Ok(j) => {
                sx::check(err.is_empty(), "to_json: no error shown");
                if what == 2 { sx::check(in_order(&out, &[b"[Ok]".to_vec(), j.clone().into_bytes()]), "to_json: the JSON is shown"); }
                else { let f = sx::read(&of); sx::check(eq(&f, j.as_bytes()), "to_json: the file holds the JSON"); }
            }
            Err(e) => {
                refused(&out, &err, Some(e.to_string().as_bytes()), "to_json");
                if what == 3 { sx::check(eq(&sx::read(&of), before), "to_json: nothing is written for a malformed text"); }
            }
        },
    }
}
