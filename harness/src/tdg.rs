//! Reference semantics of the task hierarchy: refinability, nullability, kinds of recursion. All conditions are
//! boolean formulas over the (symbolic) names; nothing here branches on them.
use crate::model::*;
use crate::sx;

/// One method, resolved against the declared tasks: `head[t]`, `sub[i][t]` (t: compound tasks first, then actions).
pub struct RMeth { pub name: Name, pub head: Vec<bool>, pub sub: Vec<Vec<bool>>, pub before: Option<Vec<Vec<bool>>> }
pub struct H { pub tasks: Vec<Name>, pub comp: usize, pub meths: Vec<RMeth>, pub lines: Vec<u64> }
impl H {
    pub fn new(d: &Dom) -> H {
        let mut tasks: Vec<Name> = d.tasks.iter().map(|t| t.name.clone()).collect();
        tasks.extend(d.acts.iter().map(|a| a.name.clone()));
        let res = |n: &Name| -> Vec<bool> { tasks.iter().map(|t| eq(t, n)).collect() };
        let meths = d.meths.iter().map(|m| {
            let k = m.net.subs.len();
            let before = if m.net.form == Form::Ordered { None } else {
                let has = |i: usize, id: &Name| match &m.net.subs[i].id { Some(x) => eq(x, id), None => false };
                let mut r = vec![vec![false; k]; k];
                for i in 0..k { for j in 0..k { let mut e = false; for (a, b) in &m.net.ord { e |= has(i, a) & has(j, b); } r[i][j] = e; } }
                for x in 0..k { for i in 0..k { for j in 0..k { r[i][j] |= r[i][x] & r[x][j]; } } }
                Some(r)
            };
            RMeth { name: m.name.clone(), head: res(&m.task), sub: m.net.subs.iter().map(|s| res(&s.task)).collect(), before }
        }).collect();
        H { comp: d.tasks.len(), tasks, meths, lines: d.tasks.iter().map(|t| t.line).collect() }
    }
    /// Least fixpoint: a compound task with a method all of whose subtasks are in the set; actions count as `prim`.
    fn fix(&self, prim: bool) -> Vec<bool> {
        let mut s: Vec<bool> = (0..self.tasks.len()).map(|i| i >= self.comp && prim).collect();
        for _ in 0..self.comp {
            let mut n = s.clone();
            for m in &self.meths {
                let mut all = true;
                for sb in &m.sub { let mut x = false; for t in 0..self.tasks.len() { x |= sb[t] & s[t]; } all &= x; }
                for t in 0..self.comp { n[t] |= m.head[t] & all; }
            }
            s = n;
        }
        s
    }
    pub fn refinable(&self) -> Vec<bool> { self.fix(true) }
    pub fn nullable(&self) -> Vec<bool> { self.fix(false) }
    /// Conditions on a step of a cycle: method m contains task t; what precedes its (earliest) occurrence is
    /// nullable; something else remains; what remains is nullable.
    fn step(&self, m: usize, t: usize, null: &[bool]) -> (bool, bool, bool, bool) {
        let m = &self.meths[m];
        let k = m.sub.len();
        let nul: Vec<bool> = m.sub.iter().map(|s| { let mut x = false; for u in 0..self.tasks.len() { x |= s[u] & null[u]; } x }).collect();
        let (mut has, mut pre, mut more, mut suf) = (false, false, false, false);
        match &m.before {
            None => {
                let mut pn = true;
                for i in 0..k {
                    let here = m.sub[i][t] & !has;
                    let mut sn = true;
                    for j in i + 1..k { sn &= nul[j]; }
                    pre |= here & pn;
                    more |= here & (i + 1 < k);
                    suf |= here & sn;
                    has |= m.sub[i][t];
                    pn &= nul[i];
                }
            }
            Some(b) => {
                let cnt: Vec<u64> = (0..k).map(|i| { let mut c = 0u64; for j in 0..k { c += (b[j][i]) as u64; } c }).collect();
                for i in 0..k {
                    // the first occurrence with the fewest predecessors
                    let mut best = m.sub[i][t];
                    for j in 0..k { if j != i { best &= !(m.sub[j][t] & if j < i { cnt[j] <= cnt[i] } else { cnt[j] < cnt[i] }); } }
                    let (mut pn, mut sn, mut mo) = (true, true, false);
                    for j in 0..k { if j != i { pn &= !b[j][i] | nul[j]; sn &= b[j][i] | nul[j]; mo |= !b[j][i]; } }
                    has |= best; pre |= best & pn; more |= best & mo; suf |= best & sn;
                }
            }
        }
        (has, pre, more, suf)
    }
    /// Is this sequence of (task, method) steps a cycle through different tasks, and of which kind?
    /// -> (cycle, nullable prefix, anything in the suffix, nullable suffix)
    pub fn cycle(&self, p: &[(usize, usize)], null: &[bool]) -> (bool, bool, bool, bool) {
        let (mut c, mut pre, mut more, mut suf) = (true, true, false, true);
        for i in 0..p.len() {
            let (t, m) = p[i];
            let nx = p[(i + 1) % p.len()].0;
            c &= self.meths[m].head[t];
            let s = self.step(m, nx, null);
            c &= s.0; pre &= s.1; more |= s.2; suf &= s.3;
        }
        (c, pre, more, suf)
    }
    fn paths(&self, prune: bool, cur: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)])) {
        for t in 0..self.comp {
            if cur.iter().any(|(u, _)| *u == t) { continue; }
            if !cur.is_empty() && t < cur[0].0 { continue; } // rotations are the same cycle
            if prune && !cur.is_empty() {
                let mut has = false;
                for s in &self.meths[cur[cur.len() - 1].1].sub { has |= s[t]; }
                if !has { continue; }
            }
            for m in 0..self.meths.len() {
                if prune && !self.meths[m].head[t] { continue; }
                cur.push((t, m));
                f(cur);
                self.paths(prune, cur, f);
                cur.pop();
            }
        }
    }
    /// Which kinds of cycles exist: [any, nullable prefix, empty, grow and shrink]
    /// prune: split the paths on which steps there are, instead of one formula over all of them
    pub fn kinds(&self, null: &[bool], prune: bool) -> [bool; 4] {
        let mut k = [false; 4];
        self.paths(prune, &mut vec![], &mut |p| {
            let (c, pre, more, suf) = self.cycle(p, null);
            k[0] |= c; k[1] |= c & pre; k[2] |= c & pre & !more; k[3] |= c & pre & more & suf;
        });
        k
    }
}
fn index(v: &[Name], n: &[u8]) -> usize { for i in 0..v.len() { if v[i] == n { return i; } } usize::MAX }

/// The text of a recursion kind, parsed back: (kind, steps).
fn parse_kind(h: &H, s: &str) -> Option<(u64, Vec<(usize, usize)>)> {
    let (head, cyc) = match s.find("\n\tCycle: ") { Some(i) => (&s[..i], Some(&s[i + 9..])), None => (s, None) };
    let k = match head { "Non-recursive" => 0, "Recursive" => 1, "Growing empty prefix recursion" => 2, "Empty recursion" => 3, "Grow and shrink recursion" => 4, _ => return None };
    let mut steps: Vec<(usize, usize)> = vec![];
    if let Some(c) = cyc {
        let mut names: Vec<(bool, Name)> = vec![];
        let b = c.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let (m, e) = match b[i] { b'[' => (false, b']'), b'(' => (true, b')'), _ => { i += 1; continue; } };
            let mut w = vec![];
            i += 1;
            while i < b.len() && b[i] != e { w.push(b[i]); i += 1; }
            names.push((m, w));
        }
        let mn: Vec<Name> = h.meths.iter().map(|m| m.name.clone()).collect();
        if names.len() < 3 || names.len() % 2 == 0 { return None; }
        let mut j = 0;
        while j + 2 < names.len() {
            if names[j].0 || !names[j + 1].0 { return None; }
            let (t, m) = (index(&h.tasks, &names[j].1), index(&mn, &names[j + 1].1));
            if t >= h.comp || m >= mn.len() { return None; }
            steps.push((t, m));
            j += 2;
        }
        if names[names.len() - 1].1 != names[0].1 { return None; }
        for x in 0..steps.len() { for y in 0..x { if steps[x].0 == steps[y].0 { return None; } } }
    }
    if (k == 0) != steps.is_empty() { return None; }
    Some((k, steps))
}

pub const NUL: u64 = 1;
pub const REC: u64 = 2;
pub const WARN: u64 = 4;
pub const COUNT: u64 = 8;
/// what: which of the results are checked
pub fn run(d: &mut Dom, what: u64) {
    let dt = print_dom(d);
    sx::note("domain", &dt);
    let h = H::new(d);
    if what & WARN != 0 {
        if let Ok(w) = hddl_analyzer::HDDLAnalyzer::verify(&dt, None) {
            let r = h.refinable();
            sx::obs(w.len() as u64);
            let mut seen = vec![false; h.comp];
            let mut last = 0;
            for x in &w {
                match x {
                    hddl_analyzer::WarningType::NoPrimitiveRefinement(i) => {
                        let t = index(&h.tasks, i.symbol.as_bytes());
                        sx::check(t < h.comp, "warning names a compound task");
                        if t >= h.comp { return; }
                        sx::check(!seen[t], "warned once");
                        sx::check(i.position.line as u64 == h.lines[t], "warning states the line of the task's declaration");
                        sx::check(t >= last, "warnings in declaration order");
                        seen[t] = true; last = t;
                    }
                    _ => {}
                }
            }
            let mut ok = true;
            for t in 0..h.comp { ok &= seen[t] != r[t]; }
            sx::check(ok, "warned exactly about the tasks without a refinement");
            sx::cover(if w.is_empty() { 0 } else { 1 });
        }
    }
    if what & (NUL | REC | COUNT) != 0 {
        let r = hddl_analyzer::HDDLAnalyzer::get_metadata(&dt, None);
        let ds = defects(d, None);
        match r {
            Err(hddl_analyzer::ParsingError::Semantic(e)) => {
                let a = actual(&e);
                sx::obs(100 + a.k as u64);
                if what & COUNT != 0 { sx::check(matches!(a.k, K::UndSub | K::UndTask) && genuine(&a, &ds, true), "metadata refused because of an undeclared task"); }
            }
            Err(_) => sx::check(false, "metadata of a well-formed domain refused"),
            Ok(md) => {
                if what & COUNT != 0 {
                    sx::check(!any(&ds, &[K::UndSub, K::UndTask]), "metadata of a domain with undeclared tasks");
                    sx::check(md.domain_name == "d" && md.n_actions as usize == d.acts.len() && md.n_tasks as usize == d.tasks.len() && md.n_methods as usize == d.meths.len(), "name and numbers of actions, tasks, methods");
                }
                let null = h.nullable();
                if what & NUL != 0 {
                    let mut seen = vec![false; h.comp];
                    let mut last = 0;
                    for x in &md.nullables {
                        let t = index(&h.tasks, x.as_bytes());
                        sx::check(t < h.comp, "nullables are compound tasks");
                        if t >= h.comp { return; }
                        sx::check(!seen[t] && t >= last, "nullables in declaration order");
                        seen[t] = true; last = t;
                    }
                    let mut ok = true;
                    for t in 0..h.comp { ok &= seen[t] == null[t]; }
                    sx::obs(md.nullables.len() as u64);
                    sx::check(ok, "exactly the nullable tasks are listed");
                }
                if what & REC != 0 {
                    let text = md.recursion.to_string();
                    match parse_kind(&h, &text) {
                        None => { sx::note("recursion", text.as_bytes()); sx::check(false, "recursion kind with a cycle of the hierarchy") }
                        Some((k, steps)) => {
                            sx::obs(k);
                            sx::cover(2 + k as u32);
                            sx::note("recursion", text.as_bytes());
                            let e = h.kinds(&null, h.comp > 3);
                            let right = match k { 0 => !e[0], 1 => e[0] & !e[1], 2 => e[1] & !e[2] & !e[3], 3 => e[2] & !e[3], _ => e[3] };
                            sx::check(right, "kind of recursion");
                            if k > 0 {
                                let (c, pre, more, suf) = h.cycle(&steps, &null);
                                sx::check(c, "the cycle exists");
                                let kind = match k { 1 => !pre, 2 => pre & more & !suf, 3 => pre & !more, _ => pre & more & suf };
                                sx::check(kind, "the cycle is of the stated kind");
                            }
                        }
                    }
                }
            }
        }
    }
}

/// nt compound tasks x0.., na actions (the names following), nm methods with up to ns subtasks over all of them.
/// rest: if not 0, the other methods than the first have fewer than this many subtasks, and are totally ordered
/// heads: 0 method i belongs to task i mod nt, 1 arbitrary; partial: 0 totally ordered, e > 0: up to e orderings
pub fn gen(nt: u64, na: u64, nmeth: u64, ns: u64, heads: u64, edges: u64, rest: u64) -> Dom {
    let x = |i: u64| vec![b'x', b'0' + i as u8];
    let any = |k: u64| vec![b'x', sx::range(b'0', b'0' + k as u8 - 1)];
    let mut d = Dom::default();
    for i in 0..nt { d.tasks.push(Pred { name: x(i), line: 0, params: vec![] }); }
    for i in 0..na { d.acts.push(Act { name: x(nt + i), line: 0, params: vec![], pre: None, eff: None }); }
    for i in 0..nmeth {
        let k = sx::pick(if i > 0 && rest > 0 { rest as u32 } else { ns as u32 + 1 }) as u64;
        let task = if heads == 0 { x(i % nt) } else { any(nt) };
        let part = edges > 0 && (i == 0 || (rest == 0 && sx::flip()));
        let id = |j: u64| vec![b's', b'0' + j as u8];
        let subs = (0..k).map(|j| sub(if part { Some(id(j)) } else { None }, any(nt + na), vec![])).collect();
        let mut ord = vec![];
        if part && k > 1 {
            let n = sx::pick(edges as u32 + 1);
            for _ in 0..n { ord.push((vec![b's', sx::range(b'0', b'0' + k as u8 - 1)], vec![b's', sx::range(b'0', b'0' + k as u8 - 1)])); }
            sx::assume(!cyclic(&ord));
        }
        d.meths.push(Meth { name: vec![b'm', b'0' + i as u8], line: 0, params: vec![], task, task_line: 0, terms: vec![], pre: None, net: net(subs, if part { Form::AndList } else { Form::Ordered }, ord) });
    }
    d
}

/// A chain of n compound tasks, declared from either end: the method of each has the next one as a subtask; the last one's method has
/// no subtask, an action or any task; one method of the chain has another subtask, any, before or after; possibly an additional method
/// of one subtask (any), of the first or the last task.
pub fn chain(n: u64) -> Dom {
    let up = sx::flip();
    let x = |i: u64| vec![b'x', b'0' + if i < n && up { n - 1 - i } else { i } as u8];
    let any = || vec![b'x', sx::range(b'0', b'0' + n as u8)];
    let mut d = Dom::default();
    for i in 0..n { d.tasks.push(Pred { name: vec![b'x', b'0' + i as u8], line: 0, params: vec![] }); }
    d.acts.push(Act { name: x(n), line: 0, params: vec![], pre: None, eff: None });
    let odd = sx::pick(n as u32) as u64;
    let side = sx::pick(2);
    let last = sx::pick(3);
    let extra = sx::pick(3);
    let mut meth = |task: Name, subs: Vec<Name>| {
        let i = d.meths.len() as u8;
        d.meths.push(Meth { name: vec![b'm', b'0' + i], line: 0, params: vec![], task, task_line: 0, terms: vec![], pre: None, net: net(subs.into_iter().map(|t| sub(None, t, vec![])).collect(), Form::Ordered, vec![]) });
    };
    for i in 0..n {
        let mut subs = vec![];
        if i + 1 < n { subs.push(x(i + 1)); } else { match last { 0 => {} 1 => subs.push(x(n)), _ => subs.push(any()) } }
        if i == odd { if side == 0 { subs.insert(0, any()); } else { subs.push(any()); } }
        meth(x(i), subs);
    }
    match extra { 0 => {} 1 => meth(x(0), vec![any()]), _ => meth(x(n - 1), vec![any()]) }
    d
}

/// A chain of n compound tasks, declared from either end; each link of the form (next), (next e), (e next next) or (x next) with e nullable and x an
/// action; the last task has no subtask, an action, one of three tasks again, or no method; one link has another subtask.
pub fn deep(n: u64) -> Dom {
    let up = sx::flip();
    let x = |i: u64| vec![b'x', b'A' + if up { n - 1 - i } else { i } as u8];
    let (e, act) = (vec![b'e', b'0'], vec![b'a', b'0']);
    let mut d = Dom::default();
    for i in 0..n { d.tasks.push(Pred { name: vec![b'x', b'A' + i as u8], line: 0, params: vec![] }); }
    d.tasks.push(Pred { name: e.clone(), line: 0, params: vec![] });
    d.acts.push(Act { name: act.clone(), line: 0, params: vec![], pre: None, eff: None });
    let link = sx::pick(4);
    let odd = sx::pick(4);
    let odd = if odd == 3 { n } else { odd as u64 * (n - 2) / 2 };
    let other = vec![sx::of(b"ea"), b'0'];
    let last = sx::pick(6);
    let mut meth = |task: Name, subs: Vec<Name>| {
        let i = d.meths.len() as u8;
        d.meths.push(Meth { name: vec![b'm', b'A' + i], line: 0, params: vec![], task, task_line: 0, terms: vec![], pre: None, net: net(subs.into_iter().map(|t| sub(None, t, vec![])).collect(), Form::Ordered, vec![]) });
    };
    meth(e.clone(), vec![]);
    for i in 0..n {
        let mut subs = if i + 1 < n {
            let nx = x(i + 1);
            match link { 0 => vec![nx], 1 => vec![nx, e.clone()], 2 => vec![e.clone(), nx.clone(), nx], _ => vec![act.clone(), nx] }
        } else { match last { 0 => vec![], 1 => vec![act.clone()], 2 => vec![x(0)], 3 => vec![x(n / 2)], 4 => vec![x(n - 1)], _ => continue } };
        if i == odd { subs.push(other.clone()); }
        meth(x(i), subs);
    }
    d
}
