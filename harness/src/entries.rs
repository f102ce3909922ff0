//! The entry points explored by the symbolic executor.
use crate::gen::*;
use crate::model::*;
use crate::sx;

/// The four highest bits of `a` of every entry: the layout of models (model.rs).
macro_rules! entries {
    ($($name:ident => $f:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64) { set_layout((a >> 60) as u8); $f(a & (1 << 60) - 1, b) })*
        pub fn run(e: &str, a: u64, b: u64) { match e { $(stringify!($name) => $name(a, b),)* _ => panic!("unknown entry {e}") } }
    };
}
entries! {
    sx_focus => focus1;
    sx_focus2 => focus_2;
    sx_arity => arity1;
    sx_reqs => reqs;
    sx_lists => lists1;
    sx_typing => typing1;
    sx_types => types1;
    sx_order => order1;
    sx_scopes => scopes1;
    sx_tdg => tdg1;
    sx_syn => syn1;
    sx_tdgfocus => tdg_focus;
    sx_json => json1;
    sx_robust => robust1;
    sx_robmodel => robust_model;
    sx_deep => deep1;
    sx_layout => layout1;
    sx_jfocus => json_focus;
    sx_determ => determ1;
    sx_reorder => reorder1;
    sx_indep => indep1;
    sx_rename => rename1;
    sx_lspmodel => lsp_model;
    sx_lsptext => lsp_text;
    sx_lsplay => lsp_lay;
    sx_lsphist => lsp_hist;
    sx_lspmany => lsp_many;
    sx_lsplong => lsp_long;
    sx_lspconc => lsp_conc;
    sx_lspfolder => lsp_folder;
    sx_nested => nested1;
    sx_saymodel => say_model;
    sx_saytext => say_text;
    sx_sayreqs => say_reqs;
    sx_cli => cli1;
    sx_climodel => cli_model;
    sx_clibyte => cli_byte;
}
const KS: &[&[K]] = &[DUP, UND, PAR, AR, TY, CT, CO, ALLK];
/// a: kinds | mode << 4 | variant << 8
fn ks(a: u64) -> &'static [K] { KS[(a & 15) as usize] }
fn mode(a: u64) -> u64 { a >> 4 & 3 }
fn variant(a: u64) -> (Dom, Option<Prob>) { base(a >> 8 & 3) }

pub fn run_model(d: &mut Dom, q: &mut Option<Prob>, a: u64, name: &str) {
    let dt = print_dom(d);
    sx::note("domain", &dt);
    let qt = q.as_mut().map(|q| print_prob(q));
    if let Some(t) = &qt { sx::note("problem", t); }
    let ds = defects(d, q.as_ref());
    judge(&dt, qt.as_ref(), &ds, ks(a), mode(a), name);
}
/// b: category mask | 1 << 32: names that differ from others in a character more or in capitals | 1 << 33: arguments annotated with types
fn focus1(a: u64, b: u64) {
    let (mut d, mut q) = variant(a);
    if b >> 33 & 1 == 1 { annotate(&mut d, &mut q); }
    if b >> 32 & 1 == 1 { focus_near(&mut d, &mut q, b as u32) } else { focus(&mut d, &mut q, b as u32, true) }
    run_model(&mut d, &mut q, a, "focus");
}
/// b: category masks
fn focus_2(a: u64, b: u64) {
    let (mut d, mut q) = variant(a);
    focus2(&mut d, &mut q, b as u32, (b >> 32) as u32, true);
    run_model(&mut d, &mut q, a, "focus2");
}
fn arity1(a: u64, b: u64) {
    if b == 1 << 32 { let (mut d, mut q) = big_arity(); return run_model(&mut d, &mut q, a, "many arguments"); }
    let (mut d, mut q) = variant(a);
    arity(&mut d, &mut q);
    if b != 0 { focus(&mut d, &mut q, b as u32, true); }
    run_model(&mut d, &mut q, a, "arity");
}
/// b: length
fn lists1(a: u64, b: u64) { let (mut d, mut q) = lists(b); run_model(&mut d, &mut q, a, "lists"); }
/// Requirement lists of length up to b.
fn reqs(a: u64, b: u64) {
    let mut d = Dom::default();
    let k = sx::pick(b as u32 + 1);
    for _ in 0..k { d.reqs.push(sx::pick(7) as usize); }
    d.acts = vec![Act { name: nm(b'a', 0), line: 0, params: vec![], pre: None, eff: None }];
    run_model(&mut d, &mut None, a, "requirements");
}

/// b: number of types | 256 if the first is a child of the root
fn typing1(a: u64, b: u64) { let (mut d, mut q) = typing_of(b & 15, b & 256 != 0, b & 512 != 0); run_model(&mut d, &mut q, a, "typing"); }
/// b: depth
fn nested1(a: u64, b: u64) { let (mut d, mut q) = deep(b as u32); run_model(&mut d, &mut q, a, "nested"); }
/// b: declarations | names << 4
fn types1(a: u64, b: u64) { let (mut d, mut q) = if b >> 4 == 0 { type_chain(b) } else { hierarchy(b & 15, b >> 4) }; run_model(&mut d, &mut q, a, "types"); }
fn scopes1(a: u64, _b: u64) { let (mut d, mut q) = scopes(); run_model(&mut d, &mut q, a, "scopes"); }
/// b: subtasks | edges << 4, or 256 | subtasks << 9: a long network
fn order1(a: u64, b: u64) { let (mut d, mut q) = if b >> 8 & 1 == 1 { long_orderings(b >> 9) } else { orderings(b & 15, b >> 4) }; run_model(&mut d, &mut q, a, "ordering"); }

/// a: what; b: tasks | actions << 4 | methods << 8 | subtasks << 12 | heads << 16 | edges << 20 | rest << 24
fn tdg1(a: u64, b: u64) { let mut d = if b < 16 { crate::tdg::chain(b) } else if b >> 32 == 1 { crate::tdg::deep(b & 255) } else { crate::tdg::gen(b & 15, b >> 4 & 15, b >> 8 & 15, b >> 12 & 15, b >> 16 & 15, b >> 20 & 15, b >> 24 & 15) }; crate::tdg::run(&mut d, a); }
/// a: what | variant << 8; b: category mask
fn tdg_focus(a: u64, b: u64) {
    let (mut d, _) = variant(a);
    focus(&mut d, &mut None, b as u32, true);
    crate::tdg::run(&mut d, a & 255);
}
/// a: what; b: document | ops << 4 | bytes << 12
fn syn1(a: u64, b: u64) {
    let doc = (b & 15) as usize;
    let t = crate::syn::mutate(doc, (b >> 4 & 255) as u32, (b >> 12) as u32);
    crate::syn::judge(&t, doc >= 4, a);
}

fn json_judge(d: &mut Dom, q: &mut Option<Prob>) {
    let dt = print_dom(d);
    sx::note("domain", &dt);
    let qt = q.as_mut().map(|q| print_prob(q));
    if let Some(t) = &qt { sx::note("problem", t); }
    crate::json::judge(&dt, qt.as_ref(), d, q.as_ref());
}
/// a: 0 formulas (b: depth | width << 4), 1 typed lists (b: length), 2 networks (b: subtasks | edges << 4 | constraints << 8),
/// 3 order of domain blocks (b: any permutation), 4 order of problem blocks, 5 requirements, 6 deep formulas (b: depth), 7 numbers
fn json1(a: u64, b: u64) {
    use crate::shape::*;
    match a {
        0 => { let (mut d, mut q) = with_formula((b & 15) as u32, (b >> 4) as u32); json_judge(&mut d, &mut q); }
        1 => { let (mut d, mut q) = with_list(b as u32); json_judge(&mut d, &mut q); }
        2 => { let (mut d, mut q) = with_network((b & 15) as u32, (b >> 4 & 15) as u32, (b >> 8) as u32); json_judge(&mut d, &mut q); }
        3 => {
            let mut d = blocks();
            let o = order(8, b & 1 != 0);
            let cut = sx::pick(9) as usize;
            let t = split_print(&mut d, &o, cut);
            sx::note("domain", &t);
            crate::json::judge(&t, None, &d, None);
        }
        4 => {
            let mut d = Dom::default();
            let dt = print_dom(&mut d);
            let mut p = prob_blocks();
            let o = order(5, true);
            let n = 6 - sx::pick(2) as usize; // all or the first five
            let o: Vec<usize> = o.into_iter().take(n).collect();
            let mut sep = |t: &mut Vec<u8>| { t.push(b'\n'); 1 };
            let mut pr = Pr::new(&mut sep);
            pr.prob_order(&mut p, &o);
            let t = pr.text;
            sx::note("problem", &t);
            crate::json::judge(&dt, Some(&t), &d, Some(&p));
        }
        6 => { let (mut d, mut q) = with_nested(b as u32); json_judge(&mut d, &mut q); }
        7 => { let (mut d, mut q) = with_number(); json_judge(&mut d, &mut q); }
        _ => {
            let mut d = Dom::default();
            let k = sx::pick(b as u32 + 1);
            for _ in 0..k { d.reqs.push(sx::pick(7) as usize); }
            let mut q = Some(Prob { reqs: d.reqs.clone(), ..Default::default() });
            json_judge(&mut d, &mut q);
        }
    }
}
/// a: variant << 8; b: category mask | 1 << 33: arguments annotated with types
fn json_focus(a: u64, b: u64) {
    let (mut d, mut q) = variant(a);
    if b >> 33 & 1 == 1 { annotate(&mut d, &mut q); }
    focus(&mut d, &mut q, b as u32, true);
    json_judge(&mut d, &mut q);
}

/// a: kinds | bytes << 4 | layouts of the rest << 8; b: document | broken << 4
fn layout1(a: u64, b: u64) { crate::layout::run((b & 15) as usize, b & 16 != 0, (a & 15 | a >> 16 << 4) as u32, (a >> 4 & 15) as u32, (a >> 8 & 255) as u32); }

/// a: interfaces; b: document | mode << 4 | bytes << 8
fn robust1(a: u64, b: u64) {
    let doc = (b & 15) as usize;
    let t = crate::robust::text(doc, (b >> 4 & 15) as u32, (b >> 8) as u32);
    crate::robust::all(&t, None, doc >= 4, a);
}
/// a: interfaces | generator << 8 (0-2 focus of a base model, 3-5 argument lists of a base model, 6 typing, 7 hierarchy, 8 orderings,
/// 9 methods, 13 lists, 14 deep hierarchies); b: as for the generator
fn robust_model(a: u64, b: u64) {
    let (mut d, mut q) = match a >> 8 {
        g @ 0..=2 => { let (mut d, mut q) = base(g); focus(&mut d, &mut q, b as u32, true); (d, q) }
        g @ 3..=5 => { let (mut d, mut q) = base(g - 3); arity(&mut d, &mut q); (d, q) }
        6 => typing(b & 15, b & 256 != 0),
        7 => hierarchy(b & 15, b >> 4),
        8 => orderings(b & 15, b >> 4),
        13 => lists(b),
        14 => (crate::tdg::deep(b), None),
        _ => (crate::tdg::gen(b & 15, b >> 4 & 15, b >> 8 & 15, b >> 12 & 15, b >> 16 & 15, b >> 20 & 15, b >> 24 & 15), None),
    };
    crate::robust::model(&mut d, &mut q, a & 255);
}
fn deep1(a: u64, _b: u64) { crate::robust::deep(a); }

/// a: generator (0-2 base model, 3-5 argument lists, 6 typing, 7 hierarchy, 8 orderings, 9 methods, 10-12 focus of a base model, 13 lists, 14 deep hierarchies, 15 scopes)
/// | mode of spoiling a base model << 4 | stride << 8; b: as for the generator
fn model_gen(a: u64, b: u64) -> (Dom, Option<Prob>) {
    match a & 15 {
        g @ 0..=2 => { let (mut d, mut q) = base(g); crate::meta::spoil(&mut d, &mut q, a >> 4 & 15, (a >> 8 & 255) as u32); (d, q) }
        g @ 3..=5 => { let (mut d, mut q) = base(g - 3); arity(&mut d, &mut q); (d, q) }
        6 => typing(b & 15, b & 256 != 0),
        7 => hierarchy(b & 15, b >> 4),
        8 => orderings(b & 15, b >> 4),
        9 => (crate::tdg::gen(b & 15, b >> 4 & 15, b >> 8 & 15, b >> 12 & 15, b >> 16 & 15, b >> 20 & 15, b >> 24 & 15), None),
        13 => lists(b),
        14 => (crate::tdg::deep(b), None),
        15 => scopes(),
        g => { let (mut d, mut q) = base(g - 10); focus(&mut d, &mut q, b as u32, true); (d, q) }
    }
}
fn determ1(a: u64, b: u64) { let (mut d, mut q) = model_gen(a, b); crate::meta::deterministic(&mut d, &mut q); }
fn reorder1(a: u64, b: u64) { let (mut d, mut q) = model_gen(a, b); crate::meta::reordered(&mut d, &mut q); }
/// a: as model_gen, 15: document b with a token changed
fn indep1(a: u64, b: u64) {
    if a & 15 == 15 { let t = crate::syn::mutate((b & 15) as usize, (b >> 4 & 255) as u32, (b >> 12) as u32); sx::note("text", &t); return crate::meta::independent_text(&t, None); }
    let (mut d, mut q) = model_gen(a, b); crate::meta::independent(&mut d, &mut q);
}
/// b: lengths of names (a bit each, bit 0: 1) | step << 32 | 1 << 61: names close to others and to words | 1 << 62: any characters | 1 << 63: all names extended instead (bits: by how much)
fn rename1(a: u64, b: u64) {
    let (mut d, mut q) = model_gen(a, 0);
    let lens: Vec<u32> = (0..32).filter(|i| b >> i & 1 == 1).map(|i| i + 1).collect();
    if b >> 61 & 1 == 1 { return crate::meta::near(&mut d, &mut q, (b >> 32 & 255) as u32); }
    if b >> 63 == 1 { let n = lens[sx::pick(lens.len() as u32) as usize]; crate::meta::long(&mut d, &mut q, n); }
    else { crate::meta::renamed(&mut d, &mut q, &lens, (b >> 32 & 255) as u32, b >> 62 & 1 == 1); }
}

fn say_model(a: u64, b: u64) { let (mut d, mut q) = model_gen(a, b); crate::say::model(&mut d, &mut q); }
/// b: document | ops << 4 | bytes << 12
fn say_text(_a: u64, b: u64) { let t = crate::syn::mutate((b & 15) as usize, (b >> 4 & 255) as u32, (b >> 12) as u32); crate::say::text(&t, b & 15 >= 4); }
fn say_reqs(_a: u64, b: u64) {
    let mut d = Dom::default();
    let k = sx::pick(b as u32 + 1);
    for _ in 0..k { d.reqs.push(sx::pick(7) as usize); }
    crate::say::model(&mut d, &mut None);
}
/// a, b: as model_gen
fn lsp_model(a: u64, b: u64) { let (mut d, mut q) = model_gen(a, b); crate::lsp::model(&mut d, &mut q); }
/// a: what; b: document | ops << 4 | bytes << 12
fn lsp_text(a: u64, b: u64) { let t = crate::syn::mutate((b & 15) as usize, (b >> 4 & 255) as u32, (b >> 12) as u32); crate::lsp::text(&t, a); }
/// a: what | kinds << 8 | bytes << 12 | layouts << 16; b: document | broken << 4
fn lsp_lay(a: u64, b: u64) {
    let doc = (b & 15) as usize;
    let mut t = crate::syn::tokens(crate::syn::DOCS[doc]);
    if b & 16 != 0 { t.remove(sx::pick(t.len() as u32) as usize); }
    let (t2, _) = crate::layout::lay(&t, (a >> 8 & 15) as u32, (a >> 12 & 15) as u32, (a >> 16 & 15) as u32);
    crate::lsp::text(&t2, a & 255);
}
/// a: steps; b: documents | kinds of contents << 4 | operations << 8 | 1 << 12: documents with similar names
fn lsp_hist(a: u64, b: u64) { crate::hist::run(a as u32, (b & 15) as u32, (b >> 4 & 15) as u32, (b >> 8 & 15) as u32, b >> 12 & 1 == 1); }
fn lsp_many(a: u64, b: u64) { crate::hist::many(a as u32, b as u32); }
fn lsp_long(a: u64, _b: u64) { crate::hist::long(a as u32); }
/// a: requests | documents << 8 | 1 << 16: the client takes messages late | 1 << 17: a diagnosis first, then changes of documents of their own; b: free steps
fn lsp_conc(a: u64, b: u64) { crate::hist::concurrent((a & 255) as usize, b as u32, (a >> 8 & 255) as usize, a >> 16 & 1 == 1, a >> 17 & 1 == 1); }

#[cfg(feature = "ext")]
fn cli(what: u32, d: &Vec<u8>, q: Option<&Vec<u8>>, missing: u32) { crate::cli::judge(what, d, q, missing) }
#[cfg(not(feature = "ext"))]
fn cli(_: u32, _: &Vec<u8>, _: Option<&Vec<u8>>, _: u32) {}
/// a: commands (a bit each) | 16: a file may be missing | 32: the document is the problem; b: document | ops << 4 | bytes << 12
fn cli1(a: u64, b: u64) {
    let cs: Vec<u32> = (0..4).filter(|i| a >> i & 1 == 1).collect();
    let what = cs[sx::pick(cs.len() as u32) as usize];
    let missing = if a & 16 != 0 { sx::pick(3) } else { 0 };
    let doc = (b & 15) as usize;
    let t = crate::syn::mutate(doc, (b >> 4 & 255) as u32, (b >> 12) as u32);
    sx::note("text", &t);
    if a & 32 != 0 { cli(what, &crate::syn::DOM0.as_bytes().to_vec(), Some(&t), missing) }
    else if sx::flip() { cli(what, &t, None, if missing == 2 { 0 } else { missing }) }
    else { cli(what, &t, Some(&crate::robust::Q0.as_bytes().to_vec()), missing) }
}
/// An arbitrary byte in a comment of the domain or the problem.
fn cli_byte(_a: u64, _b: u64) {
    let (mut d, mut q) = (crate::syn::DOM0.as_bytes().to_vec(), crate::robust::Q0.as_bytes().to_vec());
    let problem = sx::flip();
    {
        let t = if problem { &mut q } else { &mut d };
        let at = match sx::pick(3) { 0 => 0, 1 => t.iter().position(|c| *c == b' ').unwrap_or(0), _ => t.len() };
        let c = [b';', sx::byte(), b'\n'];
        t.splice(at..at, c);
        sx::note("text", t);
    }
    let what = sx::pick(4);
    if problem || sx::flip() { cli(what, &d, Some(&q), 0) } else { cli(what, &d, None, 0) }
}
/// a: as model_gen | commands << 16; b: as model_gen
fn cli_model(a: u64, b: u64) {
    let cs: Vec<u32> = (0..4).filter(|i| a >> (16 + i) & 1 == 1).collect();
    let what = cs[sx::pick(cs.len() as u32) as usize];
    let (mut d, mut q) = model_gen(a & 0xffff, b);
    let dt = print_dom(&mut d);
    let qt = q.as_mut().map(|q| print_prob(q));
    sx::note("domain", &dt);
    if let Some(t) = &qt { sx::note("problem", t); }
    cli(what, &dt, qt.as_ref(), 0);
}
/// a: how many other files there may be
fn lsp_folder(a: u64, _b: u64) { crate::hist::folder(a as u32); }
