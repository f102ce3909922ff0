//! Reference lexer and recogniser of the accepted HDDL dialect (ASCII), written against the language, not the parser.
use crate::sx;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T { Lp, Rp, Dash, Id, Num, And, Or, Xor, Not, Forall, Exists, Imply, Prob, Eq, Lt, Gt, Le, Ge, Req, Eof,
    Define, Domain, Problem, Requirements, Objects, Types, Constants, Predicates, Functions, Init, Htn, Task, Action, Parameters, Method, Precondition, Effect, Subtasks, Ordered, Ordering, Constraints, Goal }
/// Words introduced by ':' or, for the last group, plain.
pub const WORDS: &[(&str, T)] = &[
    (":negative-preconditions", T::Req), (":strips", T::Req), (":hierarchy", T::Req), (":equality", T::Req), (":method-preconditions", T::Req), (":typing", T::Req), (":universal-preconditions", T::Req),
    (":requirements", T::Requirements), (":objects", T::Objects), (":types", T::Types), (":constants", T::Constants), (":predicates", T::Predicates), (":functions", T::Functions), (":init", T::Init), (":htn", T::Htn),
    (":task", T::Task), (":action", T::Action), (":parameters", T::Parameters), (":method", T::Method), (":precondition", T::Precondition), (":effect", T::Effect), (":subtasks", T::Subtasks), (":tasks", T::Subtasks),
    (":ordered-subtasks", T::Ordered), (":ordered-tasks", T::Ordered), (":ordering", T::Ordering), (":order", T::Ordering), (":constraints", T::Constraints), (":goal", T::Goal), (":domain", T::Domain), (":problem", T::Problem),
    ("define", T::Define), ("domain", T::Domain), ("problem", T::Problem),
    ("and", T::And), ("or", T::Or), ("oneof", T::Xor), ("not", T::Not), ("forall", T::Forall), ("exists", T::Exists), ("imply", T::Imply), ("probabilistic", T::Prob),
];
/// Where the text stops being HDDL: line and, for an invalid word, the word.
#[derive(Clone, Debug)]
pub struct Bad { pub line: u64, pub lexical: bool, pub word: Vec<u8>, pub tok: T }
pub struct Lex<'a> { s: &'a [u8], i: usize, line: u64, peeked: Option<(T, Vec<u8>)> }
fn blank(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\n' | b'\r') }
fn name_char(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'-' }
impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Lex<'a> { Lex { s, i: 0, line: 1, peeked: None } }
    fn word(&mut self) -> (Vec<u8>, bool) {
        let mut w = vec![];
        let mut ok = true;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if blank(c) || c == b'(' || c == b')' || c == b';' { break; }
            ok &= name_char(c);
            w.push(c);
            self.i += 1;
        }
        (w, ok)
    }
    fn bad(&self, word: &[u8]) -> Bad { Bad { line: self.line, lexical: true, word: word.to_vec(), tok: T::Eof } }
    fn lex(&mut self) -> Result<(T, Vec<u8>), Bad> {
        loop {
            if self.i >= self.s.len() { return Ok((T::Eof, vec![])); }
            let c = self.s[self.i];
            if c == b'\n' { self.line += 1; }
            if blank(c) { self.i += 1; continue; }
            if c == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        let c = self.s[self.i];
        let one = |t: T| Ok((t, vec![c]));
        match c {
            b'(' => { self.i += 1; one(T::Lp) }
            b')' => { self.i += 1; one(T::Rp) }
            b'-' => { self.i += 1; one(T::Dash) }
            b'=' => { self.i += 1; one(T::Eq) }
            b'<' | b'>' => {
                self.i += 1;
                if self.i < self.s.len() && self.s[self.i] == b'=' { self.i += 1; return one(if c == b'<' { T::Le } else { T::Ge }); }
                one(if c == b'<' { T::Lt } else { T::Gt })
            }
            b'?' => {
                self.i += 1;
                let (w, ok) = self.word();
                if w.is_empty() { return Err(self.bad(b"?")); }
                if !ok { return Err(self.bad(&w)); }
                Ok((T::Id, w))
            }
            b':' => {
                self.i += 1;
                let (w, ok) = self.word();
                if !ok { return Err(self.bad(&w)); }
                for (k, t) in WORDS { if k.as_bytes()[0] == b':' && k.as_bytes()[1..] == w[..] { return Ok((*t, w)); } }
                Err(self.bad(&w))
            }
            b'0'..=b'9' => {
                let mut w = vec![];
                let mut dot = false;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || (self.s[self.i] == b'.' && !dot)) { dot |= self.s[self.i] == b'.'; w.push(self.s[self.i]); self.i += 1; }
                if w[w.len() - 1] == b'.' { return Err(self.bad(&w)); }
                Ok((T::Num, w))
            }
            _ => {
                let (w, ok) = self.word();
                if !ok { return Err(self.bad(&w)); }
                for (k, t) in WORDS { if k.as_bytes()[0] != b':' && k.as_bytes() == &w[..] { return Ok((*t, w)); } }
                Ok((T::Id, w))
            }
        }
    }
    fn next(&mut self) -> Result<(T, Vec<u8>), Bad> { if let Some(t) = self.peeked.take() { return Ok(t); } self.lex() }
    fn peek(&mut self) -> Result<T, Bad> { if self.peeked.is_none() { let t = self.lex()?; self.peeked = Some(t); } Ok(self.peeked.as_ref().unwrap().0) }
    fn no<X>(&self, t: (T, Vec<u8>)) -> Result<X, Bad> { Err(Bad { line: self.line, lexical: false, word: t.1, tok: t.0 }) }
    fn want(&mut self, t: T) -> Result<(), Bad> { let x = self.next()?; if x.0 == t { Ok(()) } else { self.no(x) } }
    fn offend<X>(&mut self) -> Result<X, Bad> { let x = self.next()?; self.no(x) }
    fn words(&mut self, w: &[T]) -> Result<(), Bad> { for t in w { self.want(*t)?; } Ok(()) }

    /// What the first words say: 0 domain, 1 problem, 2 neither
    pub fn kind(&mut self) -> u64 {
        if self.words(&[T::Lp, T::Define, T::Lp]).is_err() { return 2; }
        match self.next() { Ok((T::Domain, _)) => 0, Ok((T::Problem, _)) => 1, _ => 2 }
    }
    /// 0 domain, 1 problem
    pub fn document(&mut self) -> Result<u64, Bad> {
        self.words(&[T::Lp, T::Define, T::Lp])?;
        let kind = match self.next()? { (T::Domain, _) => 0, (T::Problem, _) => 1, t => return self.no(t) };
        self.words(&[T::Id, T::Rp])?;
        if kind == 1 { self.words(&[T::Lp, T::Domain, T::Id, T::Rp])?; }
        loop {
            let t = self.next()?;
            match t.0 {
                T::Rp => return Ok(kind),
                T::Eof if kind == 1 => return Ok(kind),
                T::Lp => { if kind == 0 { self.domain_block()? } else { self.problem_block()? } }
                _ => return self.no(t),
            }
        }
    }
    fn domain_block(&mut self) -> Result<(), Bad> {
        let t = self.next()?;
        match t.0 {
            T::Predicates | T::Functions => self.atoms(),
            T::Task => { self.header()?; self.want(T::Rp) }
            T::Method => {
                self.words(&[T::Id, T::Parameters, T::Lp])?; self.list()?;
                self.words(&[T::Task, T::Lp, T::Id])?; self.list()?;
                match self.peek()? {
                    T::Precondition => { self.next()?; self.formula()?; self.network() }
                    T::Subtasks | T::Ordered => self.network(),
                    _ => self.offend(),
                }
            }
            T::Action => {
                self.header()?;
                if self.peek()? == T::Precondition { self.next()?; self.formula()?; }
                if self.peek()? == T::Effect { self.next()?; self.formula()?; }
                self.want(T::Rp)
            }
            T::Requirements => self.requirements(),
            T::Types | T::Constants => self.list(),
            _ => self.no(t),
        }
    }
    fn problem_block(&mut self) -> Result<(), Bad> {
        let t = self.next()?;
        match t.0 {
            T::Requirements => self.requirements(),
            T::Objects => self.list(),
            T::Init => self.atoms(),
            T::Goal => { self.formula()?; self.want(T::Rp) }
            T::Htn => match self.peek()? {
                T::Parameters => { self.next()?; self.want(T::Lp)?; self.list()?; self.network() }
                T::Subtasks | T::Ordered | T::Rp => self.network(),
                _ => self.offend(),
            },
            _ => self.no(t),
        }
    }
    fn requirements(&mut self) -> Result<(), Bad> { loop { let t = self.next()?; match t.0 { T::Req => {} T::Rp => return Ok(()), _ => return self.no(t) } } }
    fn header(&mut self) -> Result<(), Bad> { self.words(&[T::Id, T::Parameters, T::Lp])?; self.list() }
    /// names with optional type annotations up to ')'
    fn list(&mut self) -> Result<(), Bad> { loop { let t = self.next()?; match t.0 { T::Id => {} T::Dash => self.want(T::Id)?, T::Rp => return Ok(()), _ => return self.no(t) } } }
    fn names(&mut self) -> Result<(), Bad> { loop { let t = self.next()?; match t.0 { T::Id => {} T::Rp => return Ok(()), _ => return self.no(t) } } }
    fn atoms(&mut self) -> Result<(), Bad> { loop { let t = self.next()?; match t.0 { T::Lp => { self.want(T::Id)?; self.list()? } T::Rp => return Ok(()), _ => return self.no(t) } } }
    fn formula(&mut self) -> Result<bool, Bad> {
        self.want(T::Lp)?;
        let t = self.next()?;
        match t.0 {
            T::Rp => return Ok(true),
            T::Id => self.list()?,
            T::Not => { self.formula()?; self.want(T::Rp)? }
            T::And | T::Or | T::Xor => { while self.peek()? != T::Rp { self.formula()?; } self.next()?; }
            T::Eq => self.words(&[T::Id, T::Id, T::Rp])?,
            T::Forall | T::Exists => { self.want(T::Lp)?; self.list()?; self.formula()?; self.want(T::Rp)? }
            T::Prob => loop {
                let t = self.next()?;
                match t.0 { T::Rp => break, T::Num => if self.formula()? { return self.no((T::Rp, b")".to_vec())); }, _ => return self.no(t) }
            },
            _ => return self.no(t),
        }
        Ok(false)
    }
    fn network(&mut self) -> Result<(), Bad> {
        let t = self.next()?;
        match t.0 {
            T::Rp => Ok(()),
            T::Ordered => {
                self.subtasks()?;
                if self.peek()? == T::Constraints { self.next()?; self.constraints()?; }
                self.want(T::Rp)
            }
            T::Subtasks => {
                self.subtasks()?;
                loop {
                    let t = self.next()?;
                    match t.0 {
                        T::Ordering => {
                            self.want(T::Lp)?;
                            let t = self.next()?;
                            match t.0 {
                                T::Rp => {}
                                T::Lt => { self.want(T::Id)?; self.names()? }
                                T::And => loop { let t = self.next()?; match t.0 { T::Lp => { self.words(&[T::Lt, T::Id])?; self.names()? } T::Rp => break, _ => return self.no(t) } },
                                _ => return self.no(t),
                            }
                        }
                        T::Constraints => self.constraints()?,
                        T::Rp => return Ok(()),
                        _ => return self.no(t),
                    }
                }
            }
            _ => self.no(t),
        }
    }
    fn subtasks(&mut self) -> Result<(), Bad> {
        self.want(T::Lp)?;
        match self.peek()? {
            T::Id => self.subtask(),
            T::Rp => { self.next()?; Ok(()) }
            T::And => { self.next()?; loop { let t = self.next()?; match t.0 { T::Lp => self.subtask()?, T::Rp => return Ok(()), _ => return self.no(t) } } }
            _ => self.offend(),
        }
    }
    fn subtask(&mut self) -> Result<(), Bad> {
        self.want(T::Id)?;
        match self.peek()? { T::Lp => { self.next()?; self.want(T::Id)?; self.names()?; self.want(T::Rp) } _ => self.names() }
    }
    fn constraints(&mut self) -> Result<(), Bad> {
        self.want(T::Lp)?;
        match self.peek()? {
            T::Rp => { self.next()?; Ok(()) }
            T::And => { self.next()?; loop { let t = self.next()?; match t.0 { T::Lp => self.constraint()?, T::Rp => return Ok(()), _ => return self.no(t) } } }
            T::Not | T::Eq => self.constraint(),
            _ => self.offend(),
        }
    }
    fn constraint(&mut self) -> Result<(), Bad> {
        let t = self.next()?;
        match t.0 { T::Not => self.words(&[T::Lp, T::Eq, T::Id, T::Id, T::Rp, T::Rp]), T::Eq => self.words(&[T::Id, T::Id, T::Rp]), _ => self.no(t) }
    }
}

pub const DOM0: &str = "(define (domain d))";
/// Documents that between them use every construct; tokens separated by blanks.
pub const DOCS: &[&str] = &[
    "( define ( domain d ) ( :requirements :strips :typing ) ( :types a b - c d ) ( :constants k - a ) ( :predicates ( p ?x - a ?y ) ( q ) ) ( :functions ( f ?x ) ) ( :task t :parameters ( ?x - a ) ) ( :action ac :parameters ( ?x - a ) :precondition ( p ?x k ) :effect ( not ( q ) ) ) )",
    "( define ( domain d ) ( :method m :parameters ( ?x ) :task ( t ?x ) :precondition ( q ) :subtasks ( and ( s0 ( t ?x ) ) ( t ?x ) ( u ) ) :ordering ( and ( < s0 s1 s2 ) ( < s1 s2 ) ) :constraints ( and ( not ( = ?x ?y ) ) ( = ?x ?y ) ) ) )",
    "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :ordered-subtasks ( a x ) :constraints ( = x y ) ) ( :method n :parameters ( ) :task ( t ) :subtasks ( s ( a x ) ) :ordering ( < a b ) :constraints ( not ( = a b ) ) ) ( :method o :parameters ( ) :task ( t ) :precondition ( ) ) )",
    "( define ( domain d ) ( :action a :parameters ( ) :precondition ( and ( or ( p x ) ( oneof ( q ) ) ) ( forall ( ?x - a ) ( p ?x ) ) ( exists ( ?y ) ( not ( q ) ) ) ( = x y ) ( ) ) :effect ( probabilistic 0.5 ( p x ) 1 ( and ) ) ) ( :action b :parameters ( ) ) )",
    "( define ( problem q ) ( :domain d ) ( :requirements :strips ) ( :objects a b - t c ) ( :htn :parameters ( ?x ) :ordered-tasks ( and ( t0 ( a ?x ) ) ) ) ( :init ( p a ) ( q ) ) ( :goal ( and ( p a ) ) ) )",
    "( define ( problem q ) ( :domain d ) ( :htn :tasks ( and ( t0 ( a ) ) ( b ) ) :order ( ) :constraints ( ) ) ( :goal ( not ( p a ) ) ) ( :htn ) ( :htn :parameters ( ) ) )",
];
pub fn tokens(d: &str) -> Vec<Vec<u8>> { d.split(' ').map(|t| t.as_bytes().to_vec()).collect() }

/// Any ASCII character, of the digits only 0 and 9.
pub fn any_char() -> u8 { let v: Vec<u8> = (0..128u8).filter(|c| !(b'1'..=b'8').contains(c)).collect(); sx::of(&v) }
/// Does `w` occur in `t` as a whole word?
fn has_word(t: &[u8], w: &[u8]) -> bool {
    let name = |c: u8| c.is_ascii_alphanumeric() || c == b'-' || c == b'_';
    let n = w.len();
    if n == 0 { return true; }
    let whole = !w.iter().all(|c| name(*c)) && !w.starts_with(b":");
    (0..(t.len() + 1).saturating_sub(n)).any(|i| crate::model::eq(&t[i..i + n], w) && (whole || ((i == 0 || !name(t[i - 1])) && (i + n == t.len() || !name(t[i + n])))))
}
/// A token that may be anything: 1..=n arbitrary ASCII bytes, or one of the words of the language.
pub fn any_token(n: u32, words: bool) -> Vec<u8> {
    let k = sx::pick(n + words as u32);
    if k == n { let w = sx::pick(WORDS.len() as u32) as usize; return WORDS[w].0.as_bytes().to_vec(); }
    (0..=k).map(|_| any_char()).collect()
}
/// ops: 1 replace, 2 insert, 4 delete, 8 duplicate, 16 exchange with the next, 32 end the text after it; 64: words only;
/// 128: instead of all that, up to two tokens replaced by up to n one-character tokens
pub fn mutate(doc: usize, ops: u32, n: u32) -> Vec<u8> {
    let mut t = tokens(DOCS[doc]);
    if ops & 128 != 0 {
        let i = sx::pick(t.len() as u32 + 1) as usize;
        let r = sx::pick(3) as usize;
        sx::assume(i + r <= t.len());
        let k = sx::pick(n) + 1;
        let new: Vec<Vec<u8>> = (0..k).map(|_| vec![sx::of(b"()-x0<=>")]).collect();
        t.splice(i..i + r, new);
        return lines(&t);
    }
    let all: Vec<u32> = (0..6).filter(|i| ops >> i & 1 == 1).collect();
    let op = all[sx::pick(all.len() as u32) as usize];
    let i = sx::pick(t.len() as u32) as usize;
    let tok = |words: bool| if ops & 64 != 0 { WORDS[sx::pick(WORDS.len() as u32) as usize].0.as_bytes().to_vec() } else { any_token(n, words) };
    match op {
        0 => { t[i] = tok(false); }
        1 => { let x = tok(false); t.insert(i, x); }
        2 => { t.remove(i); }
        3 => { let x = t[i].clone(); t.insert(i, x); }
        4 => { let m = t.len(); sx::assume(i + 1 < m); t.swap(i, i + 1); }
        _ => { t.truncate(i); }
    }
    lines(&t)
}
fn lines(t: &[Vec<u8>]) -> Vec<u8> {
    let mut s = Vec::with_capacity(1024);
    for (j, x) in t.iter().enumerate() { if j > 0 { s.push(b'\n'); } s.extend_from_slice(x); }
    s
}
pub const ACCEPT: u64 = 1;
pub const LINE: u64 = 2;
fn has(hay: &[u8], w: &[u8]) -> bool {
    let mut r = false;
    if w.len() <= hay.len() { for i in 0..=hay.len() - w.len() { r |= crate::model::eq(&hay[i..i + w.len()], w); } }
    r
}
/// The implementation's verdict on the syntax of a text against the recogniser's.
pub fn judge(text: &Vec<u8>, problem: bool, what: u64) {
    sx::note("text", text);
    let d0 = DOM0.as_bytes().to_vec();
    let r = if problem { hddl_analyzer::HDDLAnalyzer::to_json(&d0, Some(text)) } else { hddl_analyzer::HDDLAnalyzer::to_json(text, None) };
    let mut exp = Lex::new(text).document();
    if let Ok(k) = exp { if (k == 1) != problem { exp = Err(Bad { line: 1, lexical: false, word: vec![], tok: T::Define }); } }
    match &exp { Ok(_) => { sx::obs(1); sx::cover(0); } Err(b) => { sx::obs(2 + b.line); sx::cover(if b.lexical { 1 } else { 2 }); } }
    if what & ACCEPT != 0 {
        if exp.is_ok() { sx::check(r.is_ok(), "well-formed text is accepted"); } else { sx::check(r.is_err(), "malformed text is rejected"); }
    }
    if what & LINE != 0 {
        if let (Err(b), Err(e)) = (&exp, &r) {
            sx::note("error", e.to_string().as_bytes());
            match e {
                hddl_analyzer::ParsingError::Lexiacal(l) => {
                    sx::check(b.lexical, "a lexical error is reported for an invalid word");
                    sx::check(l.position.line as u64 == b.line, "lexical error states the line of the word");
                    sx::check(crate::model::eq(l.lexeme.as_bytes(), &b.word), "lexical error states the word");
                }
                hddl_analyzer::ParsingError::Syntactic(s) => {
                    sx::check(!b.lexical, "a syntactic error is reported for an unexpected token");
                    sx::check(s.position.line as u64 == b.line, "syntactic error states the line of the unexpected token");
                    let f = s.found.as_bytes();
                    let says = match b.tok {
                        T::Eof => true,
                        T::Num => { let z = b.word.iter().take_while(|c| **c == b'0').count(); b.word.contains(&b'.') || has_word(f, &b.word[z.min(b.word.len() - 1)..]) }
                        T::Subtasks => has_word(f, b"tasks"),
                        T::Ordered => has(f, b":ordered-") && has_word(f, b"tasks"),
                        T::Ordering => has_word(f, b"ordering") || has_word(f, b"order"),
                        _ => has_word(f, &b.word),
                    };
                    sx::check(says, "syntactic error states what was found");
                    if b.tok == T::Eof { sx::check(s.found == "End of file", "syntactic error states that the text ended"); }
                }
                _ => sx::check(false, "a syntax error is not a semantic one"),
            }
            let pre = format!("line {}:", b.line);
            sx::check(e.to_string().starts_with(&pre), "message starts with the line");
        }
    }
}
