//! The same tokens in two layouts: one token per line, and an arbitrary one. Line n of the first is the line of token n in the second.
use crate::model::{actual, eq};
use crate::sx;
use crate::syn::{tokens, DOCS, DOM0};
use hddl_analyzer::{HDDLAnalyzer as A, ParsingError as E};

fn paren(t: &[u8]) -> bool { t == b"(" || t == b")" }
/// Sequence of blanks: (bytes, newlines)
fn blanks(n: u32, out: &mut Vec<u8>) -> u64 {
    let mut l = 0;
    for _ in 0..n { let c = sx::of(b" \t\r\n"); l += (c == b'\n') as u64; out.push(c); }
    l
}
fn comment(n: u32, out: &mut Vec<u8>) {
    out.push(b';');
    let any: Vec<u8> = (0..=255u8).filter(|c| *c != b'\n').collect();
    for _ in 0..n { out.push(sx::of(&any)); }
}
/// kinds: 1 blanks, 2 comments, 4 nothing next to a parenthesis, 8 long gaps (hundreds of blanks, of lines, of comments, a long comment),
/// 16 very many lines before the text or in its middle. Returns the text and the line of every token and of the end.
pub fn lay(t: &[Vec<u8>], kinds: u32, n: u32, rests: u32) -> (Vec<u8>, Vec<u64>) {
    let gap = if kinds == 16 { sx::pick(2) as usize * t.len() / 2 } else { sx::pick(t.len() as u32 + 1) as usize };
    let ks: Vec<u32> = (0..5).filter(|k| kinds >> k & 1 == 1).collect();
    let kind = ks[sx::pick(ks.len() as u32) as usize];
    let rest = sx::pick(rests); // the other separators: a blank, a newline, as little as possible
    let mut o = Vec::with_capacity(2048);
    let mut lines = vec![];
    let mut line = 1u64;
    for i in 0..=t.len() {
        let glue = i == 0 || i == t.len() || paren(&t[i - 1]) || paren(&t[i]);
        if i == gap {
            match kind {
                0 => { let k = sx::pick(n) + 1; line += blanks(k, &mut o); }
                1 => {
                    // blanks, a comment and its newline, blanks
                    let k = sx::pick(n + 1);
                    let pre = sx::pick(2);
                    line += blanks(pre, &mut o);
                    comment(k, &mut o);
                    if i < t.len() || sx::flip() { o.push(b'\n'); line += 1; }
                    if sx::flip() { if *o.last().unwrap() == b'\n' { o.extend_from_slice(b";;\n"); line += 1; } }
                }
                2 => { sx::assume(glue); }
                3 => { let m = if i == 0 { 20 } else { 1 }; match sx::pick(4) {
                    0 => for j in 0..300 * m { o.push(b" \t\r"[j % 3]); },
                    1 => { for _ in 0..300 * m { o.push(b'\n'); } line += 300 * m as u64; }
                    2 => { for j in 0..40 * m { o.extend_from_slice(&[b';', b'0' + (j % 70) as u8, b';', b')', b'"', b'\n']); } line += 40 * m as u64; }
                    _ => { o.push(b';'); for j in 0..300 * m { o.push(b"; (a)"[j % 5]); } o.push(b'\n'); line += 1; }
                } }
                _ => { for _ in 0..70000 { o.push(b'\n'); } line += 70000; }
            }
        } else if i > 0 {
            match rest { 0 => o.push(b' '), 1 => { o.push(b'\n'); line += 1; } _ => if !glue { o.push(b'\t'); } }
        }
        lines.push(line);
        if i < t.len() { o.extend_from_slice(&t[i]); }
    }
    (o, lines)
}
fn by_line(t: &[Vec<u8>]) -> Vec<u8> { let mut o = Vec::with_capacity(1024); for x in t { o.extend_from_slice(x); o.push(b'\n'); } o }

/// Are the errors the same, at the corresponding lines?
pub fn same_error(a: &E, b: &E, map: &dyn Fn(u64) -> u64) -> bool {
    match (a, b) {
        (E::Lexiacal(x), E::Lexiacal(y)) => (map(x.position.line as u64) == y.position.line as u64) & eq(x.lexeme.as_bytes(), y.lexeme.as_bytes()),
        (E::Syntactic(x), E::Syntactic(y)) => (map(x.position.line as u64) == y.position.line as u64) & eq(x.found.as_bytes(), y.found.as_bytes()) & eq(x.expected.as_bytes(), y.expected.as_bytes()),
        (E::Semantic(x), E::Semantic(y)) => {
            let (x, y) = (actual(x), actual(y));
            let m = |l: u64| if l == 0 { 0 } else { map(l) };
            let o = |a: &Option<Vec<u8>>, b: &Option<Vec<u8>>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => eq(a, b), _ => false };
            if x.k != y.k { return false; }
            eq(&x.sym, &y.sym) & (m(x.l1) == y.l1) & (m(x.l2) == y.l2) & (x.e == y.e) & (x.f == y.f) & o(&x.te, &y.te) & o(&x.tf, &y.tf)
        }
        _ => false,
    }
}
pub fn same_warnings(a: &[hddl_analyzer::WarningType], b: &[hddl_analyzer::WarningType], map: &dyn Fn(u64) -> u64) -> bool {
    use hddl_analyzer::WarningType::*;
    if a.len() != b.len() { return false; }
    let mut r = true;
    for (x, y) in a.iter().zip(b) {
        r &= match (x, y) {
            (NoPrimitiveRefinement(x), NoPrimitiveRefinement(y)) => eq(x.symbol.as_bytes(), y.symbol.as_bytes()) & (map(x.position.line as u64) == y.position.line as u64),
            _ => eq(x.to_string().as_bytes(), y.to_string().as_bytes()),
        };
    }
    r
}
/// Both texts are treated alike. `map`: lines of the first to lines of the second.
pub fn alike(t1: &Vec<u8>, t2: &Vec<u8>, problem: bool, map: &dyn Fn(u64) -> u64, what: &str) {
    let d0 = DOM0.as_bytes().to_vec();
    sx::note("text", t1);
    sx::note("laid out", t2);
    let js = |t: &Vec<u8>| if problem { A::to_json(&d0, Some(t)) } else { A::to_json(t, None) };
    match (js(t1), js(t2)) {
        (Ok(a), Ok(b)) => {
            sx::obs(1);
            sx::cover(0);
            match (crate::json::parse(a.as_bytes()), crate::json::parse(b.as_bytes())) {
                (Some(a), Some(b)) => sx::check(crate::json::same_mapped(&a, &b, map), &format!("{what}: same content, every position the line of its token")),
                _ => sx::check(false, "the output is JSON"),
            }
            let vf = |t: &Vec<u8>| if problem { A::verify(&d0, Some(t)) } else { A::verify(t, None) };
            match (vf(t1), vf(t2)) {
                (Ok(a), Ok(b)) => { sx::obs(2); sx::check(same_warnings(&a, &b, map), &format!("{what}: same warnings")); }
                (Err(a), Err(b)) => { sx::obs(3); sx::cover(1); sx::check(same_error(&a, &b, map), &format!("{what}: same error, at the line of its token")); }
                _ => sx::check(false, &format!("{what}: same verdict")),
            }
        }
        (Err(a), Err(b)) => {
            sx::obs(4);
            sx::cover(2);
            sx::note("error 1", a.to_string().as_bytes());
            sx::note("error 2", b.to_string().as_bytes());
            sx::check(same_error(&a, &b, map), &format!("{what}: same error, at the line of its token"));
        }
        _ => sx::check(false, &format!("{what}: accepted in both or in neither")),
    }
}
/// broken: one token is deleted first
pub fn run(doc: usize, broken: bool, kinds: u32, n: u32, rests: u32) {
    let mut t = tokens(DOCS[doc]);
    if broken { t.remove(sx::pick(t.len() as u32) as usize); }
    let (t2, lines) = lay(&t, kinds, n, rests);
    let t1 = by_line(&t);
    alike(&t1, &t2, doc >= 4, &|l| { let i = l as usize - 1; if i < lines.len() { lines[i] } else { u64::MAX } }, "layout");
}
