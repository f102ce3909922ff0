//! Symbolic executor: state, memory, path conditions, instruction semantics.
use crate::expr::{self, *};
use crate::ir::{self, *};
use crate::solver::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, RwLock};

#[derive(Clone, Default)]
pub struct Obj { pub data: Vec<u8>, pub sym: BTreeMap<u32, (E, u8)>, pub ro: bool }
const CH: usize = 32;
#[derive(Clone)]
pub struct Mem { chunks: Vec<Arc<Vec<Option<Arc<Obj>>>>>, next: u32, free: Vec<u32>, pub live: u64 }
impl Mem {
    pub fn new() -> Self { Mem { chunks: vec![], next: 0, free: vec![], live: 0 } }
    pub fn add(&mut self, o: Obj) -> u32 {
        self.live += o.data.len() as u64;
        let id = if let Some(i) = self.free.pop() { i } else { let i = self.next; self.next += 1; i };
        let (c, s) = (id as usize / CH, id as usize % CH);
        if c >= self.chunks.len() { self.chunks.push(Arc::new(vec![None; CH])); }
        Arc::make_mut(&mut self.chunks[c])[s] = Some(Arc::new(o));
        id
    }
    pub fn del(&mut self, id: u32) -> bool {
        let (c, s) = (id as usize / CH, id as usize % CH);
        if c >= self.chunks.len() || self.chunks[c][s].is_none() { return false; }
        if let Some(o) = Arc::make_mut(&mut self.chunks[c])[s].take() { self.live -= o.data.len() as u64; }
        self.free.push(id);
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> { self.chunks.get(id as usize / CH)?[id as usize % CH].as_deref() }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let c = Arc::make_mut(c);
        c[id as usize % CH].as_mut().map(Arc::make_mut)
    }
}

#[derive(Clone)]
pub struct Frame { pub f: u32, pub pc: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub dst: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub doms: Vec<[u64; 4]>, pub births: Vec<[u64; 4]>,
    pub wit: Vec<u8>,
    pub steps: u64,
    pub obs: Vec<Val>,
    pub notes: Vec<(String, Vec<Val>)>,
    pub covers: u64,
    pub hashtab: Option<Vec<Val>>,
    pub depth: u32,
    pub vfs: Vec<(Vec<u8>, Arc<Vec<Val>>)>,
    pub fds: Vec<Option<(usize, usize)>>,
    pub out: [Vec<Val>; 2],
    pub dirs: Vec<(Vec<Vec<u8>>, usize)>,
    pub errno: u64,
}

pub enum End { Done, Assume, Panic(String), Fail(String), Hang, Ub(String), Unsup(String), Stop }
pub type R<T> = Result<T, End>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Alloc, AllocZ, Dealloc, Realloc, Panic, PanicNoLoc, HashWrite, HashNum, HashFinish, Nop, RandKeys,
    SxByte, SxRange, SxIn, SxPick, SxAssume, SxCheck, SxObs, SxNote, SxCover, SxHashTab, SxConc, SxIsSym, SxFile, SxOut, SxIte, SxRead, SxDir, Opendir, Readdir, Getcwd, Strerror,
    Memcmp, Bcmp, Memcpy, Memmove, Memset, Strlen, Memchr, Memrchr,
    Write, Abort, Exit, Intr(u8), Zero, Errno, Open, Read, Close, Fstat, Stat, Statx, Lseek, Getenv, MinusOne, Poll,
    Undef,
}

pub struct Report { pub kind: String, pub msg: String, pub bytes: Vec<u8>, pub notes: Vec<String>, pub stack: Vec<String>, pub cut: bool }
pub struct Sample { pub bytes: Vec<u8>, pub obs: Vec<u64> }
#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub assume_dead: u64, pub steps: u64, pub forks: u64, pub checks_concrete: u64, pub checks_sym: u64,
    pub queries: u64, pub solver_time: f64, pub cache_hits: u64, pub dom_hits: u64, pub wit_hits: u64, pub unknown: u64, pub slowest: f64,
    pub pathq: u64, pub concretized: u64, pub maxvars: u64, pub covers: u64, pub maxsteps: u64, pub funcs: HashSet<u32>,
}
pub struct Shared {
    pub m: Module,
    pub ext: Vec<Option<Ext>>,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub stop: AtomicBool,
    pub done: AtomicBool,
    pub cache: Vec<RwLock<HashMap<u128, Option<Vec<(u16, u8)>>>>>,
    pub reports: Mutex<Vec<Report>>,
    pub samples: Mutex<(u64, Vec<Sample>)>,
    pub stats: Mutex<Stats>,
    pub unsup: Mutex<HashMap<String, u64>>,
    pub nworkers: usize,
    pub step_limit: u64,
    pub known: Vec<String>,
    pub max_samples: usize,
    pub paths: AtomicU64,
    pub covers: AtomicU64,
    pub max_reports: usize,
    pub forkprof: Mutex<HashMap<(u32, u32), u64>>,
    pub profile: bool,
    pub seed: u64,
    pub trace: bool,
}

pub fn mkval(v: u128, w: u32) -> Val { if w <= 64 { Val::I(v as u64) } else { Val::W(Arc::new(v)) } }
pub fn from_e(e: E) -> Val { if let Some(v) = konst(&e) { mkval(v, e.w) } else { Val::S(e) } }
pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => cst(*x as u128, w),
        Val::W(x) => cst(**x, w),
        Val::S(e) => { if e.w == w { e.clone() } else if e.w > w { extract(e, 0, w) } else { zext(e, w) } }
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
fn cval(v: &Val) -> Option<u128> { match v { Val::I(x) => Some(*x as u128), Val::W(x) => Some(**x), _ => None } }

pub fn classify(name: &str, body: bool) -> Option<Ext> {
    use Ext::*;
    let has = |s: &str| name.contains(s);
    if has("___rust_alloc_zeroed") || name == "__rust_alloc_zeroed" { return Some(AllocZ); }
    if has("___rust_no_alloc_shim") || has("__rust_no_alloc_shim") { return Some(Nop); }
    if has("___rust_alloc_error_handler") || has("___rg_oom") { return Some(PanicNoLoc); }
    if has("___rust_alloc") || name == "__rust_alloc" { return Some(Alloc); }
    if has("___rust_dealloc") || name == "__rust_dealloc" { return Some(Dealloc); }
    if has("___rust_realloc") || name == "__rust_realloc" { return Some(Realloc); }
    if name.ends_with("9panicking9panic_fmt") || name.ends_with("9panicking18panic_nounwind_fmt") { return Some(Panic); }
    if has("rust_begin_unwind") || has("rust_panic_with_hook") || has("___rust_start_panic") { return Some(PanicNoLoc); }
    if has("3sys6random") && has("hashmap_random_keys") { return Some(RandKeys); }
    if has("6Hasher") && (has("4hash3sip") || has("10FoldHasher")) {
        // generic instances carry the instantiating crate as a suffix
        let stem = match name.rfind("6Hasher") { Some(i) => &name[i + 7..], None => "" };
        let stem = stem.split("Cs").next().unwrap();
        match stem {
            "5write" | "9write_str" => return Some(HashWrite),
            "6finish" => return Some(HashFinish),
            "8write_u8" | "9write_u16" | "9write_u32" | "9write_u64" | "10write_u128" | "11write_usize" => return Some(HashNum),
            _ => {}
        }
    }
    if body { return None; }
    Some(match name {
        "sx_byte" => SxByte, "sx_range" => SxRange, "sx_in" => SxIn, "sx_pick" => SxPick, "sx_assume" => SxAssume, "sx_check" => SxCheck,
        "sx_obs" => SxObs, "sx_note" => SxNote, "sx_cover" => SxCover, "sx_hash_tab" => SxHashTab, "sx_conc" => SxConc, "sx_is_sym" => SxIsSym,
        "sx_file" => SxFile, "sx_out" => SxOut, "sx_read" => SxRead, "sx_dir" => SxDir, "sx_capture" => Nop, "opendir" => Opendir, "readdir64" | "readdir" => Readdir, "closedir" => Zero, "dirfd" => Zero, "getcwd" => Getcwd, "__xpg_strerror_r" | "strerror_r" => Strerror, "sx_ite" => SxIte,
        "memcmp" => Memcmp, "bcmp" => Bcmp, "memcpy" => Memcpy, "memmove" => Memmove, "memset" => Memset, "strlen" => Strlen, "memchr" => Memchr, "memrchr" => Memrchr,
        "write" => Write, "abort" => Abort, "exit" | "_exit" => Exit, "__errno_location" => Errno,
        "open64" | "open" => Open, "read" => Read, "close" => Close, "fstat64" | "fstat" => Fstat, "lseek64" => Lseek, "getenv" => Getenv, "poll" => Poll,
        "statx" => Statx, "stat64" | "lstat64" | "stat" | "lstat" => Stat, "sched_getaffinity" => MinusOne,
        "fcntl" | "sigaction" | "signal" | "pthread_self" | "sysconf" | "__cxa_thread_atexit_impl" | "syscall" | "gettid" => Zero,
        n if n.starts_with("llvm.") => {
            let table: &[(&str, u8)] = &[
                ("llvm.memcpy", 0), ("llvm.memmove", 1), ("llvm.memset", 2), ("llvm.umax", 3), ("llvm.umin", 4), ("llvm.smax", 5), ("llvm.smin", 6),
                ("llvm.uadd.with.overflow", 7), ("llvm.usub.with.overflow", 8), ("llvm.umul.with.overflow", 9), ("llvm.sadd.with.overflow", 10), ("llvm.ssub.with.overflow", 11), ("llvm.smul.with.overflow", 12),
                ("llvm.uadd.sat", 13), ("llvm.usub.sat", 14), ("llvm.ctlz", 15), ("llvm.cttz", 16), ("llvm.ctpop", 17), ("llvm.bswap", 18), ("llvm.bitreverse", 19), ("llvm.fshl", 20), ("llvm.fshr", 21),
                ("llvm.ucmp", 22), ("llvm.scmp", 23), ("llvm.abs", 24), ("llvm.expect", 25), ("llvm.threadlocal.address", 26), ("llvm.x86.sse2.pmovmskb", 27), ("llvm.vector.reduce.or", 28), ("llvm.vector.reduce.and", 29),
                ("llvm.vector.reduce.add", 30), ("llvm.is.constant", 31), ("llvm.trap", 32), ("llvm.fabs", 33), ("llvm.ptrmask", 34), ("llvm.launder", 25), ("llvm.strip", 25), ("llvm.sadd.sat", 35), ("llvm.ssub.sat", 36), ("llvm.load.relative", 37), ("llvm.objectsize", 38), ("llvm.vector.reduce.umax", 39),
            ];
            for (p, i) in table { if n.starts_with(p) { return Some(Intr(*i)); } }
            if ["llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.x86.sse2.pause", "llvm.prefetch", "llvm.invariant", "llvm.donothing", "llvm.va", "llvm.stack", "llvm.fake"].iter().any(|p| n.starts_with(p)) { return Some(Nop); }
            Undef
        }
        _ => Undef,
    })
}

pub struct W<'a> { pub s: &'a Shared, pub z: Z3, pub local: Vec<State>, pub st: Stats, seen: Vec<bool>, rng: u64 }

macro_rules! bail { ($($t:tt)*) => { return Err(End::Unsup(format!($($t)*))) } }

impl<'a> W<'a> {
    pub fn new(s: &'a Shared) -> Self { W { s, z: Z3::new(), local: vec![], st: Stats::default(), seen: vec![false; s.m.funcs.len()], rng: 88172645463325252 ^ s.seed.wrapping_mul(0x9E3779B97F4A7C15) } }

    // ---------- path conditions ----------
    fn indom(d: &[u64; 4], v: u8) -> bool { d[v as usize >> 6] >> (v & 63) & 1 == 1 }
    /// A witness for pc ∧ c, if any.
    fn sat(&mut self, st: &State, c: &E) -> R<Option<Vec<u8>>> {
        if let Some(v) = konst(c) { return Ok(if v == 1 { Some(st.wit.clone()) } else { None }); }
        if eval(c, &st.wit) == 1 { self.st.wit_hits += 1; return Ok(Some(st.wit.clone())); }
        if let Some((i, s)) = unary_set(c) {
            let d = &st.doms[i as usize];
            let x = [s[0] & d[0], s[1] & d[1], s[2] & d[2], s[3] & d[3]];
            if x == [0; 4] { self.st.dom_hits += 1; return Ok(None); }
            let bit = 1u128 << i;
            let rel: Vec<&E> = st.cons.iter().filter(|e| e.vars & bit != 0).collect();
            let mut tries = 0;
            let mut w = st.wit.clone();
            for v in 0..=255u8 {
                if Self::indom(&x, v) {
                    w[i as usize] = v;
                    if rel.iter().all(|e| eval(e, &w) == 1) { self.st.dom_hits += 1; return Ok(Some(w)); }
                    tries += 1;
                    if tries > 6 { break; }
                }
            }
        }
        self.query(st, c)
    }
    fn query(&mut self, st: &State, c: &E) -> R<Option<Vec<u8>>> {
        // independence slice
        let mut vars = c.vars;
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (k, e) in st.cons.iter().enumerate() {
                if !used[k] && e.vars & vars != 0 { used[k] = true; if e.vars | vars != vars { vars |= e.vars; } ch = true; }
            }
            if !ch { break; }
        }
        let mut cs: Vec<E> = st.cons.iter().enumerate().filter(|(k, _)| used[*k]).map(|(_, e)| e.clone()).collect();
        cs.push(c.clone());
        let mut doms = vec![];
        for i in 0..st.doms.len() { if vars >> i & 1 == 1 && st.doms[i] != [!0; 4] { doms.push((i as u16, st.doms[i])); } }
        let mut hs: Vec<u128> = cs.iter().map(|e| e.hash).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = 0x51ed_270b_u128;
        let mut mixin = |v: u128| { key = (key ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835); key ^= key >> 59; };
        for h in hs { mixin(h); }
        for (i, d) in &doms { mixin(*i as u128 + 1); for q in d { mixin(*q as u128 + 7); } }
        let shard = &self.s.cache[(key >> 40) as usize % self.s.cache.len()];
        if let Some(r) = shard.read().unwrap().get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.as_ref().map(|m| { let mut w = st.wit.clone(); for (i, v) in m { w[*i as usize] = *v; } w }));
        }
        match self.z.check(&cs, &doms, &st.births, vars) {
            Res::Unsat => { shard.write().unwrap().insert(key, None); Ok(None) }
            Res::Sat(m) => {
                let mut w = st.wit.clone();
                for (i, v) in &m { w[*i as usize] = *v; }
                // the model must satisfy the engine's own reading of the constraints
                if !cs.iter().all(|e| eval(e, &w) == 1) { bail!("internal: z3 model disagrees with evaluator"); }
                shard.write().unwrap().insert(key, Some(m));
                Ok(Some(w))
            }
            Res::Unknown => Err(End::Unsup("solver unknown".into())),
        }
    }
    fn add(&mut self, st: &mut State, c: &E) {
        if konst(c).is_some() { return; }
        if let Some((i, s)) = unary_set(c) { let d = &mut st.doms[i as usize]; for k in 0..4 { d[k] &= s[k]; } return; }
        if let K::Bin(Bin::And, a, b) = &c.k { if c.w == 1 { let (a, b) = (a.clone(), b.clone()); self.add(st, &a); self.add(st, &b); return; } }
        if !st.cons.iter().any(|e| e.hash == c.hash) { st.cons.push(c.clone()); }
    }
    fn push(&mut self, st: State) {
        self.st.forks += 1;
        if self.s.profile { if let Some(f) = st.frames.last() { *self.s.forkprof.lock().unwrap().entry((f.f, f.pc)).or_insert(0) += 1; } }
        if self.s.idle.load(Relaxed) > 0 && self.local.len() > 0 {
            let mut q = self.s.queue.lock().unwrap();
            // share the oldest local state, keep the newest
            let old = self.local.remove(0);
            q.push(old);
            self.s.cv.notify_one();
        }
        if self.s.idle.load(Relaxed) > 0 && self.local.is_empty() {
            let mut q = self.s.queue.lock().unwrap();
            q.push(st);
            self.s.cv.notify_one();
            return;
        }
        self.local.push(st);
    }
    /// Decide a branch; forks when both sides are feasible (the other side re-executes the instruction).
    fn branch(&mut self, st: &mut State, c: &E) -> R<bool> {
        if let Some(v) = konst(c) { return Ok(v == 1); }
        let cur = eval(c, &st.wit) == 1;
        let (mine, other) = if cur { (c.clone(), not(c)) } else { (not(c), c.clone()) };
        if let Some(w) = self.sat(st, &other)? {
            let mut o = st.clone();
            o.wit = w;
            self.add(&mut o, &other);
            self.push(o);
            self.add(st, &mine);
        }
        Ok(cur)
    }
    /// acc = rotl7(acc, 3) ^ fold7(byte), kept in the first byte of the hasher
    fn hash_mix(&mut self, st: &mut State, h: u64, v: &Val) -> R<()> {
        let acc = self.ld(st, h, &Ty::Int(8))?;
        let r = match (&acc, v) {
            (Val::I(x), Val::I(b)) => { let x = x & 0x7f; Val::I(((x << 3 | x >> 4) ^ (b & 0x7f) ^ (b >> 7 & 1)) & 0x7f) }
            _ => {
                let f = |v: &Val| match v { Val::S(e) => e.clone(), Val::I(x) => cst(*x as u128, 8), _ => cst(0, 8) };
                let (x, b) = (bin(Bin::And, &f(&acc), &cst(0x7f, 8)), f(v));
                let x = bin(Bin::And, &bin(Bin::Or, &bin(Bin::Shl, &x, &cst(3, 8)), &bin(Bin::LShr, &x, &cst(4, 8))), &cst(0x7f, 8));
                let b = bin(Bin::Xor, &bin(Bin::And, &b, &cst(0x7f, 8)), &bin(Bin::LShr, &b, &cst(7, 8)));
                Val::S(bin(Bin::Xor, &x, &b))
            }
        };
        self.stv(st, h, &Ty::Int(8), &r)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::S(e) => {
                let k = eval(e, &st.wit);
                let c = cmp(Cmp::Eq, e, &cst(k, e.w));
                self.st.concretized += 1;
                self.branch(st, &c)?;
                Ok(k as u64)
            }
            Val::A(_) => bail!("aggregate concretisation"),
        }
    }
    fn conc_val(&mut self, st: &mut State, v: &Val, w: u32) -> R<Val> {
        match v {
            Val::S(e) => { let k = eval(e, &st.wit); let c = cmp(Cmp::Eq, e, &cst(k, e.w)); self.branch(st, &c)?; Ok(mkval(k, w)) }
            Val::A(a) => { let mut o = vec![]; for x in a.iter() { o.push(self.conc_val(st, x, w)?); } Ok(Val::A(Arc::new(o))) }
            x => Ok(x.clone()),
        }
    }
    fn assume(&mut self, st: &mut State, c: &E) -> R<()> {
        if let Some(v) = konst(c) { return if v == 1 { Ok(()) } else { Err(End::Assume) }; }
        match self.sat(st, c)? { None => Err(End::Assume), Some(w) => { st.wit = w; self.add(st, c); Ok(()) } }
    }
    fn newvar(&mut self, st: &mut State, dom: [u64; 4]) -> R<E> {
        let i = st.doms.len();
        if i >= MAXVARS { bail!("too many symbolic bytes"); }
        let first = (0..=255u8).find(|v| Self::indom(&dom, *v));
        let Some(f) = first else { return Err(End::Assume) };
        st.doms.push(dom);
        st.births.push(dom);
        st.wit[i] = f;
        Ok(var(i as u16))
    }

    // ---------- memory ----------
    fn obj<'b>(&self, st: &'b State, a: u64, n: u64) -> R<(&'b Obj, usize)> {
        let id = (a >> 32).wrapping_sub(1) as u32;
        let off = a & 0xffff_ffff;
        match st.mem.get(id) {
            Some(o) if off + n <= o.data.len() as u64 => Ok((o, off as usize)),
            Some(o) => Err(End::Ub(format!("out-of-bounds access at offset {off}+{n} of object of {} bytes", o.data.len()))),
            None => Err(End::Ub(format!("access through invalid pointer {a:#x}"))),
        }
    }
    fn objm<'b>(&self, st: &'b mut State, a: u64, n: u64) -> R<(&'b mut Obj, usize)> {
        let id = (a >> 32).wrapping_sub(1) as u32;
        let off = a & 0xffff_ffff;
        match st.mem.get_mut(id) {
            Some(o) if off + n <= o.data.len() as u64 => if o.ro { Err(End::Ub("write to constant".into())) } else { Ok((o, off as usize)) },
            Some(o) => Err(End::Ub(format!("out-of-bounds write at offset {off}+{n} of object of {} bytes", o.data.len()))),
            None => Err(End::Ub(format!("write through invalid pointer {a:#x}"))),
        }
    }
    fn ld_int(o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if o.sym.is_empty() || o.sym.range(off as u32..(off + n) as u32).next().is_none() {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b) & mask(w);
            return mkval(v, w);
        }
        // whole expression stored in one piece?
        if let Some((e, 0)) = o.sym.get(&(off as u32)) {
            if e.w == n as u32 * 8 && (1..n).all(|k| matches!(o.sym.get(&((off + k) as u32)), Some((f, j)) if *j as usize == k && f.hash == e.hash)) {
                return from_e(extract(e, 0, w));
            }
        }
        let byte = |k: usize| -> E { match o.sym.get(&((off + k) as u32)) { Some((e, j)) => extract(e, *j as u32 * 8, 8), None => cst(o.data[off + k] as u128, 8) } };
        let mut acc = byte(0);
        for k in 1..n { acc = concat(&byte(k), &acc); }
        from_e(extract(&acc, 0, w))
    }
    fn st_int(o: &mut Obj, off: usize, n: usize, v: &Val) -> R<()> {
        match v {
            Val::I(x) => o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
            Val::W(x) => o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]),
            Val::S(e) => {
                let e = zext(e, n as u32 * 8);
                if n <= 1 { o.sym.insert(off as u32, (e, 0)); return Ok(()); }
                for k in 0..n {
                    let b = extract(&e, k as u32 * 8, 8);
                    if let Some(c) = konst(&b) { o.data[off + k] = c as u8; o.sym.remove(&((off + k) as u32)); }
                    else { o.sym.insert((off + k) as u32, (e.clone(), k as u8)); }
                }
                return Ok(());
            }
            Val::A(_) => bail!("store aggregate as int"),
        }
        if !o.sym.is_empty() { for k in 0..n { o.sym.remove(&((off + k) as u32)); } }
        Ok(())
    }
    fn ld(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => { let n = t.store_size(); let (o, off) = self.obj(st, a, n)?; Ok(Self::ld_int(o, off, n as usize, *w)) }
            Ty::Ptr | Ty::Double => { let (o, off) = self.obj(st, a, 8)?; Ok(Self::ld_int(o, off, 8, 64)) }
            Ty::Float => { let (o, off) = self.obj(st, a, 4)?; Ok(Self::ld_int(o, off, 4, 32)) }
            Ty::Vec(n, e) => {
                if matches!(**e, Ty::Int(w) if w % 8 != 0) { bail!("load of vector of odd ints"); }
                let s = e.size();
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n as u64 { v.push(self.ld(st, a + i * s, e)?); }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Arr(n, e) => { let s = e.size(); let mut v = vec![]; for i in 0..*n { v.push(self.ld(st, a + i * s, e)?); } Ok(Val::A(Arc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for (i, ft) in f.iter().enumerate() { v.push(self.ld(st, a + t.field_off(i), ft)?); } Ok(Val::A(Arc::new(v))) }
            _ => bail!("load type"),
        }
    }
    fn stv(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float, _) => { let n = t.store_size(); let (o, off) = self.objm(st, a, n)?; Self::st_int(o, off, n as usize, v) }
            (Ty::Vec(_, e), Val::A(x)) => { let s = e.size(); for (i, y) in x.iter().enumerate() { self.stv(st, a + i as u64 * s, e, y)?; } Ok(()) }
            (Ty::Arr(_, e), Val::A(x)) => { let s = e.size(); for (i, y) in x.iter().enumerate() { self.stv(st, a + i as u64 * s, e, y)?; } Ok(()) }
            (Ty::Struct(f, _), Val::A(x)) => { for (i, y) in x.iter().enumerate() { self.stv(st, a + t.field_off(i), &f[i], y)?; } Ok(()) }
            _ => bail!("store type"),
        }
    }
    /// Load through a symbolic address: a function of one byte over a constant table becomes a table expression.
    fn ld_sym(&mut self, st: &mut State, e: &E, t: &Ty) -> R<Val> {
        if e.vars.count_ones() == 1 && matches!(t, Ty::Int(w) if *w <= 64) || (e.vars.count_ones() == 1 && *t == Ty::Ptr && false) {
            let w = t.bits();
            let i = e.vars.trailing_zeros() as usize;
            let dom = st.doms[i];
            let n = t.store_size();
            let mut tabv = vec![0u64; 256];
            let mut asg = st.wit.clone();
            let mut ok = true;
            let mut any = None;
            let mut bad = vec![];
            for v in 0..=255u8 {
                if !Self::indom(&dom, v) { bad.push(v); continue; }
                asg[i] = v;
                let a = eval(e, &asg) as u64;
                match self.obj(st, a, n) {
                    Ok((o, off)) => match Self::ld_int(o, off, n as usize, w) { Val::I(x) => { tabv[v as usize] = x; any = Some(x); } _ => { ok = false; break; } },
                    Err(_) => { ok = false; break; }
                }
            }
            if ok { if let Some(x) = any { for v in bad { tabv[v as usize] = x; } return Ok(from_e(tab(i as u16, tabv, w))); } }
        }
        let a = self.conc(st, &Val::S(e.clone()))?;
        self.ld(st, a, t)
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (o, so) = self.obj(st, s, n)?;
        let data = o.data[so..so + n as usize].to_vec();
        let sym: Vec<(u32, (E, u8))> = if o.sym.is_empty() { vec![] } else { o.sym.range(so as u32..(so as u64 + n) as u32).map(|(k, v)| (*k - so as u32, v.clone())).collect() };
        let (o, doff) = self.objm(st, d, n)?;
        o.data[doff..doff + n as usize].copy_from_slice(&data);
        if !o.sym.is_empty() { let ks: Vec<u32> = o.sym.range(doff as u32..(doff as u64 + n) as u32).map(|(k, _)| *k).collect(); for k in ks { o.sym.remove(&k); } }
        for (k, v) in sym { o.sym.insert(k + doff as u32, v); }
        Ok(())
    }
    fn byte(&self, st: &State, a: u64) -> R<Val> { let (o, off) = self.obj(st, a, 1)?; Ok(Self::ld_int(o, off, 1, 8)) }
    fn bytes(&self, st: &State, a: u64, n: u64) -> R<Vec<Val>> { (0..n).map(|i| self.byte(st, a + i)).collect() }
    fn cbytes(&self, st: &State, a: u64, n: u64) -> Vec<u8> {
        (0..n).map(|i| match self.byte(st, a + i) { Ok(Val::I(x)) => x as u8, Ok(Val::S(e)) => eval(&e, &st.wit) as u8, _ => b'?' }).collect()
    }

    // ---------- execution ----------
    #[inline]
    fn rd(fr: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() } }

    fn goto(fr: &mut Frame, e: &Edge) {
        if e.copies.len() == 1 { let v = Self::rd(fr, &e.copies[0].1); fr.regs[e.copies[0].0 as usize] = v; }
        else if !e.copies.is_empty() {
            let vals: Vec<Val> = e.copies.iter().map(|(_, o)| Self::rd(fr, o)).collect();
            for ((d, _), v) in e.copies.iter().zip(vals) { fr.regs[*d as usize] = v; }
        }
        fr.pc = e.target;
    }
    pub fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>) -> R<()> {
        let fun = &self.s.m.funcs[f as usize];
        if !self.seen[f as usize] { self.seen[f as usize] = true; self.st.funcs.insert(f); }
        if st.frames.len() > 4000 { return Err(End::Hang); }
        let mut regs = args;
        regs.resize(fun.nregs.max(fun.nparams) as usize, Val::I(0));
        st.frames.push(Frame { f, pc: 0, regs, allocas: vec![], dst });
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas { st.mem.del(a); }
        let Some(top) = st.frames.last_mut() else { return Err(End::Done) };
        if let (Some(d), Some(v)) = (fr.dst, v) { top.regs[d as usize] = v; }
        let I::Call { normal, .. } = &self.s.m.funcs[top.f as usize].code[top.pc as usize] else { unreachable!() };
        if let Some(e) = normal { Self::goto(top, e); } else { top.pc += 1; }
        Ok(())
    }

    pub fn run(&mut self, st: &mut State) -> End {
        let s0 = st.steps;
        let r = loop {
            match self.steps(st) { Ok(()) => {} Err(e) => break e }
        };
        self.st.steps += st.steps - s0;
        r
    }
    fn steps(&mut self, st: &mut State) -> R<()> {
        let m = &self.s.m;
        let mut n = 0u64;
        loop {
            n += 1;
            if n & 0xfff == 0 && (self.s.stop.load(Relaxed)) { return Err(End::Stop); }
            st.steps += 1;
            if st.steps > self.s.step_limit { return Err(End::Hang); }
            let fi = st.frames.len() - 1;
            let (ff, pc) = { let fr = &st.frames[fi]; (fr.f, fr.pc) };
            let inst = &m.funcs[ff as usize].code[pc as usize];
            macro_rules! rd { ($o:expr) => { Self::rd(&st.frames[fi], $o) } }
            macro_rules! wr { ($d:expr, $v:expr) => {{ let v = $v; let fr = &mut st.frames[fi]; fr.regs[*$d as usize] = v; fr.pc += 1; }} }
            match inst {
                I::Bin { op, w, lanes, d, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    let r = if *lanes == 0 { self.bin(*op, &x, &y, *w)? } else {
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { bail!("vector operand") };
                        let mut v = vec![];
                        for (p, q) in x.iter().zip(y.iter()) { v.push(self.bin(*op, p, q, *w)?); }
                        Val::A(Arc::new(v))
                    };
                    wr!(d, r);
                }
                I::Icmp { op, swap, neg, w, lanes, d, a, b } => {
                    let (mut x, mut y) = (rd!(a), rd!(b));
                    if *swap { std::mem::swap(&mut x, &mut y); }
                    let r = if *lanes == 0 { Self::icmp(*op, *neg, &x, &y, *w) } else {
                        let (Val::A(x), Val::A(y)) = (&x, &y) else { bail!("vector operand") };
                        Val::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| Self::icmp(*op, *neg, p, q, *w)).collect()))
                    };
                    wr!(d, r);
                }
                I::Br(e) => { let fr = &mut st.frames[fi]; Self::goto(fr, e); }
                I::CondBr { c, t, f } => {
                    let b = match rd!(c) { Val::I(x) => x & 1 == 1, Val::S(e) => { let e = if e.w == 1 { e } else { extract(&e, 0, 1) }; self.branch(st, &e)? } _ => bail!("branch") };
                    let fr = &mut st.frames[fi];
                    Self::goto(fr, if b { t } else { f });
                }
                I::Switch { v, w, cases, def } => {
                    let e = match rd!(v) {
                        Val::S(e) => {
                            // group by target
                            let mut other = cst(1, 1);
                            let cur = eval(&e, &st.wit);
                            let mut groups: Vec<(u32, &Edge, E, bool)> = vec![];
                            for (c, ed) in cases {
                                let q = cmp(Cmp::Eq, &e, &cst(*c, *w));
                                other = and(&other, &not(&q));
                                if let Some(g) = groups.iter_mut().find(|g| g.0 == ed.target && ed.copies.is_empty()) { g.2 = or(&g.2, &q); g.3 |= cur == *c; }
                                else { groups.push((ed.target, ed, q, cur == *c)); }
                            }
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == def.target && def.copies.is_empty()) { g.2 = or(&g.2, &other); g.3 |= eval(&other, &st.wit) == 1; }
                            else { let h = eval(&other, &st.wit) == 1; groups.push((def.target, def, other, h)); }
                            let mut mine = None;
                            for (_, ed, q, cur) in &groups {
                                if *cur { mine = Some((*ed, q.clone())); continue; }
                                if let Some(w2) = self.sat(st, q)? {
                                    let mut o = st.clone();
                                    o.wit = w2;
                                    self.add(&mut o, q);
                                    Self::goto(&mut o.frames[fi], ed);
                                    self.push(o);
                                }
                            }
                            let (ed, q) = mine.unwrap();
                            self.add(st, &q);
                            ed
                        }
                        x => { let k = cval(&x).unwrap(); cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(def) }
                    };
                    let fr = &mut st.frames[fi];
                    Self::goto(fr, e);
                }
                I::Load { d, ty, p } => {
                    let r = match rd!(p) { Val::S(e) => self.ld_sym(st, &e, ty)?, Val::I(a) => self.ld(st, a, ty)?, _ => bail!("address") };
                    wr!(d, r);
                }
                I::Store { ty, v, p } => {
                    let a = rd!(p);
                    let a = self.conc(st, &a)?;
                    let v = rd!(v);
                    self.stv(st, a, ty, &v)?;
                    st.frames[fi].pc += 1;
                }
                I::Gep { d, base, off, idx } => {
                    let b = rd!(base);
                    let mut acc = *off;
                    let mut se: Option<E> = None;
                    match &b { Val::I(x) => acc = acc.wrapping_add(*x), Val::S(e) => se = Some(e.clone()), _ => bail!("vector gep") }
                    for (o, w, s) in idx {
                        match rd!(o) {
                            Val::I(x) => acc = acc.wrapping_add((sx(x as u128, *w) as u64).wrapping_mul(*s)),
                            Val::S(e) => { let x = expr::bin(Bin::Mul, &sext(&e, 64), &cst(*s as u128, 64)); se = Some(match se { None => x, Some(y) => expr::bin(Bin::Add, &y, &x) }); }
                            _ => bail!("gep index"),
                        }
                    }
                    let r = match se { None => Val::I(acc), Some(e) => from_e(expr::bin(Bin::Add, &e, &cst(acc as u128, 64))) };
                    wr!(d, r);
                }
                I::Cast { k, from, to, d, a } => { let x = rd!(a); let r = self.cast(st, *k, from, to, &x)?; wr!(d, r); }
                I::Select { d, c, ty, lanes, t, f } => {
                    let cv = rd!(c);
                    let r = if *lanes == 0 {
                        match cv {
                            Val::I(x) => if x & 1 == 1 { rd!(t) } else { rd!(f) },
                            Val::S(e) => {
                                let (x, y) = (rd!(t), rd!(f));
                                match ty {
                                    Ty::Int(w) => from_e(ite(&e, &to_e(&x, *w), &to_e(&y, *w))),
                                    _ => { let same = matches!((&x, &y), (Val::I(p), Val::I(q)) if p == q); if same { x } else if self.branch(st, &e)? { x } else { y } }
                                }
                            }
                            _ => bail!("select"),
                        }
                    } else {
                        let (Val::A(cv), Val::A(x), Val::A(y)) = (cv, rd!(t), rd!(f)) else { bail!("vselect") };
                        let Ty::Vec(_, et) = ty else { bail!("vselect") };
                        let w = et.bits();
                        Val::A(Arc::new((0..cv.len()).map(|i| match &cv[i] { Val::I(b) => if *b & 1 == 1 { x[i].clone() } else { y[i].clone() }, Val::S(e) => from_e(ite(e, &to_e(&x[i], w), &to_e(&y[i], w))), _ => panic!() }).collect()))
                    };
                    wr!(d, r);
                }
                I::Mov { d, a } => { let x = rd!(a); wr!(d, x); }
                I::Alloca { d, size, n } => {
                    let k = match n { None => 1, Some(o) => { let v = rd!(o); self.conc(st, &v)? } };
                    let id = st.mem.add(Obj { data: vec![0; (*size * k) as usize], ..Default::default() });
                    st.frames[fi].allocas.push(id);
                    wr!(d, Val::I(obj_addr(id)));
                }
                I::Call { d, rty, callee, args, normal } => {
                    let target = match callee {
                        Callee::F(f) => *f,
                        Callee::Ptr(o) => {
                            let v = rd!(o);
                            let a = self.conc(st, &v)?;
                            let i = (a & !FBASE) >> 4;
                            if a & FBASE != FBASE || i >= m.funcs.len() as u64 { return Err(End::Ub(format!("call through invalid pointer {a:#x}"))); }
                            i as u32
                        }
                        Callee::Asm(t) => {
                            // comments that pin a register pass their operand through
                            let z = if args.len() == 1 && t.starts_with("/*") { rd!(&args[0].0) } else if args.is_empty() || t.starts_with('|') { ir::zero(rty) } else { bail!("inline assembly {t}") };
                            let fr = &mut st.frames[fi];
                            if let Some(d) = d { fr.regs[*d as usize] = z; }
                            fr.pc += 1;
                            continue;
                        }
                    };
                    if let Some(x) = self.s.ext[target as usize] {
                        let av: Vec<Val> = args.iter().map(|(o, _)| rd!(o)).collect();
                        let r = self.ext(st, x, target, &av, args, rty)?;
                        let fr = &mut st.frames[fi];
                        if let Some(d) = d { fr.regs[*d as usize] = r; }
                        if let Some(e) = normal { Self::goto(fr, e); } else { fr.pc += 1; }
                    } else {
                        let fun = &m.funcs[target as usize];
                        let mut regs: Vec<Val> = Vec::with_capacity(fun.nregs.max(fun.nparams) as usize);
                        for (o, _) in args { regs.push(rd!(o)); }
                        if regs.len() != fun.nparams as usize && !matches!(fun.code[0], I::Unsup(_)) { bail!("argument count calling {}", fun.name); }
                        self.enter(st, target, regs, *d)?;
                    }
                }
                I::Ret(v) => { let v = v.as_ref().map(|o| rd!(o)); self.ret(st, v)?; }
                I::ExtractVal { d, a, path } => {
                    let mut v = rd!(a);
                    for i in path { v = match &v { Val::A(x) => x[*i as usize].clone(), _ => bail!("extractvalue") }; }
                    wr!(d, v);
                }
                I::InsertVal { d, a, v, path } => {
                    fn put(a: &Val, v: Val, p: &[u32]) -> Val { if p.is_empty() { return v; } let Val::A(x) = a else { panic!() }; let mut y = (**x).clone(); y[p[0] as usize] = put(&y[p[0] as usize].clone(), v, &p[1..]); Val::A(Arc::new(y)) }
                    let r = put(&rd!(a), rd!(v), path);
                    wr!(d, r);
                }
                I::ExtractElt { d, a, i } => { let k = rd!(i); let k = self.conc(st, &k)?; let Val::A(x) = rd!(a) else { bail!("extractelement") }; wr!(d, x[k as usize].clone()); }
                I::InsertElt { d, a, v, i } => { let k = rd!(i); let k = self.conc(st, &k)?; let Val::A(x) = rd!(a) else { bail!("insertelement") }; let mut y = (*x).clone(); y[k as usize] = rd!(v); wr!(d, Val::A(Arc::new(y))); }
                I::Shuffle { d, a, b, m } => {
                    let (Val::A(x), Val::A(y)) = (rd!(a), rd!(b)) else { bail!("shuffle") };
                    let r = m.iter().map(|i| { let i = *i as usize; if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() } }).collect();
                    wr!(d, Val::A(Arc::new(r)));
                }
                I::AtomicRmw { d, op, ty, p, v } => {
                    let a = rd!(p);
                    let a = self.conc(st, &a)?;
                    let w = ty.bits();
                    let old = self.ld(st, a, ty)?;
                    let x = rd!(v);
                    let new = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(Bin::Add, &old, &x, w)?, "sub" => self.bin(Bin::Sub, &old, &x, w)?, "and" => self.bin(Bin::And, &old, &x, w)?, "or" => self.bin(Bin::Or, &old, &x, w)?, "xor" => self.bin(Bin::Xor, &old, &x, w)?,
                        "umax" | "umin" | "max" | "min" => { let c = if op.starts_with('u') { Cmp::Ult } else { Cmp::Slt }; let e = expr::cmp(c, &to_e(&old, w), &to_e(&x, w)); let (p, q) = if op.ends_with("max") { (&x, &old) } else { (&old, &x) }; from_e(ite(&e, &to_e(p, w), &to_e(q, w))) }
                        o => bail!("atomicrmw {o}"),
                    };
                    self.stv(st, a, ty, &new)?;
                    wr!(d, old);
                }
                I::CmpXchg { d, ty, p, e, n } => {
                    let a = rd!(p);
                    let a = self.conc(st, &a)?;
                    let old = self.ld(st, a, ty)?;
                    let c = expr::cmp(Cmp::Eq, &to_e(&old, ty.bits()), &to_e(&rd!(e), ty.bits()));
                    let b = self.branch(st, &c)?;
                    if b { let nv = rd!(n); self.stv(st, a, ty, &nv)?; }
                    wr!(d, Val::A(Arc::new(vec![old, Val::I(b as u64)])));
                }
                I::FBin { op, dbl, d, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    fn f<T: std::ops::Add<Output = T> + std::ops::Sub<Output = T> + std::ops::Mul<Output = T> + std::ops::Div<Output = T> + std::ops::Rem<Output = T>>(op: u8, x: T, y: T) -> T {
                        if op == b'a'.wrapping_add(b'd') { x + y } else if op == b's'.wrapping_add(b'u') { x - y } else if op == b'm'.wrapping_add(b'u') { x * y } else if op == b'd'.wrapping_add(b'i') { x / y } else { x % y }
                    }
                    let r = if *dbl { f(*op, f64::from_bits(x), f64::from_bits(y)).to_bits() } else { f(*op, f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64 };
                    wr!(d, Val::I(r));
                }
                I::FNeg { dbl, d, a } => { let x = rd!(a); let x = self.conc(st, &x)?; wr!(d, Val::I(if *dbl { x ^ (1 << 63) } else { x ^ (1 << 31) })); }
                I::FCmp { pred, dbl, d, a, b } => {
                    let (x, y) = (rd!(a), rd!(b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => x != y, "uno" => un, p => bail!("fcmp {p}") };
                    wr!(d, Val::I(r as u64));
                }
                I::Nop => st.frames[fi].pc += 1,
                I::Unreachable => return Err(End::Ub("unreachable code reached".into())),
                I::Unsup(s) => bail!("{s}"),
            }
        }
    }
    fn bin(&mut self, op: Bin, a: &Val, b: &Val, w: u32) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                match op {
                    Bin::Add => return Ok(Val::I(x.wrapping_add(*y) & m)),
                    Bin::Sub => return Ok(Val::I(x.wrapping_sub(*y) & m)),
                    Bin::And => return Ok(Val::I(x & y)),
                    Bin::Or => return Ok(Val::I(x | y)),
                    Bin::Xor => return Ok(Val::I((x ^ y) & m)),
                    _ => {}
                }
            }
        }
        if let (Some(x), Some(y)) = (cval(a), cval(b)) {
            return match bin_c(op, x, y, w) { Some(v) => Ok(mkval(v, w)), None => Err(End::Ub("division by zero".into())) };
        }
        Ok(from_e(expr::bin(op, &to_e(a, w), &to_e(b, w))))
    }
    fn icmp(op: Cmp, neg: bool, a: &Val, b: &Val, w: u32) -> Val {
        if let (Some(x), Some(y)) = (cval(a), cval(b)) { return Val::I((cmp_c(op, x, y, w) ^ neg) as u64); }
        let e = expr::cmp(op, &to_e(a, w), &to_e(b, w));
        from_e(if neg { not(&e) } else { e })
    }
    fn cast(&mut self, st: &mut State, k: ir::Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        use ir::Cast::*;
        if k == Bitcast { return self.bitcast(from, to, v); }
        if let (Ty::Vec(_, f), Ty::Vec(_, t), Val::A(x)) = (from, to, v) {
            let mut o = vec![];
            for y in x.iter() { o.push(self.cast(st, k, f, t, y)?); }
            return Ok(Val::A(Arc::new(o)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match k {
            Zext => match v { Val::S(e) => from_e(zext(&to_e(&Val::S(e.clone()), fw), tw)), x => mkval(cval(x).unwrap(), tw) },
            Sext => match v { Val::S(e) => from_e(sext(e, tw)), x => mkval(sx(cval(x).unwrap(), fw) as u128 & mask(tw), tw) },
            Trunc => match v { Val::S(e) => from_e(extract(e, 0, tw)), x => mkval(cval(x).unwrap() & mask(tw), tw) },
            _ => {
                let x = match v { Val::W(x) => **x, o => self.conc(st, o)? as u128 };
                let getf = |x: u128| if *from == Ty::Double { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let putf = |f: f64| if *to == Ty::Double { f.to_bits() } else { (f as f32).to_bits() as u64 };
                match k {
                    UiToFp => Val::I(if *to == Ty::Double { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 }),
                    SiToFp => { let s = sx(x, fw); Val::I(if *to == Ty::Double { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 }) }
                    FpToUi => mkval(getf(x) as u128 & mask(tw), tw),
                    FpToSi => mkval((getf(x) as i128) as u128 & mask(tw), tw),
                    FpExt | FpTrunc => Val::I(putf(getf(x))),
                    _ => unreachable!(),
                }
            }
        })
    }
    fn bitcast(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        match (from, to) {
            (Ty::Vec(n, f), Ty::Vec(m, t)) => {
                if n == m { return Ok(v.clone()); }
                let i = self.bitcast(from, &Ty::Int(n * f.bits()), v)?;
                let _ = (m, t);
                self.bitcast(&Ty::Int(n * f.bits()), to, &i)
            }
            (Ty::Vec(_, f), Ty::Int(w)) => {
                let Val::A(x) = v else { bail!("bitcast") };
                let fw = f.bits();
                if x.iter().all(|y| cval(y).is_some()) && *w <= 128 {
                    let mut acc = 0u128;
                    for (i, y) in x.iter().enumerate() { acc |= cval(y).unwrap() << (i as u32 * fw); }
                    return Ok(mkval(acc, *w));
                }
                let mut acc = to_e(&x[0], fw);
                for y in &x[1..] { acc = concat(&to_e(y, fw), &acc); }
                Ok(from_e(acc))
            }
            (Ty::Int(_), Ty::Vec(n, t)) => {
                let tw = t.bits();
                Ok(Val::A(Arc::new((0..*n).map(|i| match v { Val::S(e) => from_e(extract(e, i * tw, tw)), x => mkval((cval(x).unwrap() >> (i * tw)) & mask(tw), tw) }).collect())))
            }
            _ => Ok(v.clone()),
        }
    }
    fn loc(&self, st: &State, v: Option<&Val>) -> String {
        let Some(Val::I(a)) = v else { return "?".into() };
        let q = |o: u64, n: u64| -> Option<u64> { let (b, off) = self.obj(st, a + o, n).ok()?; match Self::ld_int(b, off, n as usize, n as u32 * 8) { Val::I(x) => Some(x), _ => None } };
        let (Some(p), Some(l), Some(line), Some(col)) = (q(0, 8), q(8, 8), q(16, 4), q(20, 4)) else { return "?".into() };
        if l > 300 { return "?".into(); }
        format!("{}:{}:{}", String::from_utf8_lossy(&self.cbytes(st, p, l)), line, col)
    }
    fn ext(&mut self, st: &mut State, x: Ext, f: u32, a: &[Val], args: &[(Opd, Ty)], rty: &Ty) -> R<Val> {
        use Ext::*;
        let unit = Val::I(0);
        Ok(match x {
            Nop => ir::zero(rty),
            Alloc | AllocZ => {
                let n = self.conc(st, &a[0])?;
                if n > 64 << 20 { return Err(End::Hang); }
                if st.mem.live > 256 << 20 { return Err(End::Hang); }
                Val::I(obj_addr(st.mem.add(Obj { data: vec![0; n as usize], ..Default::default() })))
            }
            Dealloc => { let p = self.conc(st, &a[0])?; if p & 0xffff_ffff != 0 || !st.mem.del((p >> 32).wrapping_sub(1) as u32) { return Err(End::Ub("invalid free".into())); } unit }
            Realloc => {
                let (p, old, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[3])?);
                if n > 64 << 20 || st.mem.live > 256 << 20 { return Err(End::Hang); }
                let id = st.mem.add(Obj { data: vec![0; n as usize], ..Default::default() });
                self.copy(st, obj_addr(id), p, old.min(n))?;
                st.mem.del((p >> 32).wrapping_sub(1) as u32);
                Val::I(obj_addr(id))
            }
            Panic => { let l = self.loc(st, a.last()); return Err(End::Panic(l)); }
            PanicNoLoc => return Err(End::Panic("?".into())),
            Abort => return Err(End::Panic("abort".into())),
            Exit => { let c = self.conc(st, &a[0])?; st.obs.push(Val::I(0xE0000000 + c)); return Err(End::Done); }
            RandKeys => match rty { Ty::Struct(..) => Val::A(Arc::new(vec![Val::I(1), Val::I(2)])), _ => { if let Some(Val::I(p)) = a.first() { let p = *p; self.stv(st, p, &Ty::Int(64), &Val::I(1))?; self.stv(st, p + 8, &Ty::Int(64), &Val::I(2))?; } unit } },
            // hashers: an arbitrary but fixed function of everything written (the model's hash function), either
            // the linear 7-bit digest below or, under sx_hash_tab, the table chosen by the harness
            HashWrite => {
                let (h, p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                if st.hashtab.is_some() {
                    let mut skip = n == 0;
                    // the 0xff terminator of str hashing does not count
                    if n == 1 { if let Val::I(0xff) = self.byte(st, p)? { skip = true; } }
                    if !skip {
                        // key digest: first byte of integers, last byte of strings
                        let v = self.byte(st, if n == 4 || n == 8 { p } else { p + n - 1 })?;
                        self.stv(st, h, &Ty::Int(8), &v)?;
                    }
                } else {
                    for k in 0..n { let v = self.byte(st, p + k)?; self.hash_mix(st, h, &v)?; }
                    self.hash_mix(st, h, &Val::I(n & 0x7f))?;
                }
                unit
            }
            HashNum => {
                let h = self.conc(st, &a[0])?;
                let v = self.conc(st, &a[1])?;
                if st.hashtab.is_some() { if v != 0xff { self.stv(st, h, &Ty::Int(8), &Val::I(v & 0xff))?; } }
                else { for k in 0..8 { self.hash_mix(st, h, &Val::I(v >> (8 * k) & 0xff))?; } }
                unit
            }
            HashFinish => {
                let h = self.conc(st, &a[0])?;
                let k = self.ld(st, h, &Ty::Int(8))?;
                match &st.hashtab {
                    // the top seven bits are the tag of the table slot
                    None => match &k {
                        Val::S(e) => Val::S(bin(Bin::Shl, &zext(&bin(Bin::And, e, &cst(0x7f, 8)), 64), &cst(57, 64))),
                        x => Val::I((self.conc(st, x)? & 0x7f) << 57),
                    },
                    Some(t) => {
                        let t = t.clone();
                        let k = self.conc(st, &k)? as usize;
                        let v = t[k % t.len()].clone();
                        let v = self.conc(st, &v)?;
                        Val::I(v)
                    }
                }
            }
            SxByte => { let e = self.newvar(st, [!0; 4])?; Val::S(e) }
            SxRange => {
                let (lo, hi) = (self.conc(st, &a[0])? as u8, self.conc(st, &a[1])? as u8);
                let mut d = [0u64; 4];
                for v in lo..=hi { d[v as usize >> 6] |= 1 << (v & 63); }
                if lo == hi { let e = self.newvar(st, d)?; let _ = e; Val::I(lo as u64) } else { Val::S(self.newvar(st, d)?) }
            }
            SxIn => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let mut d = [0u64; 4];
                for c in self.cbytes(st, p, n) { d[c as usize >> 6] |= 1 << (c & 63); }
                Val::S(self.newvar(st, d)?)
            }
            SxPick => {
                // the variable is created once; alternatives continue after the call
                let n = self.conc(st, &a[0])?;
                let mut d = [0u64; 4];
                for v in 0..n { d[v as usize >> 6] |= 1 << (v & 63); }
                let e = self.newvar(st, d)?;
                let i = e.vars.trailing_zeros() as usize;
                let fi = st.frames.len() - 1;
                let (ff, pc) = (st.frames[fi].f, st.frames[fi].pc);
                let I::Call { d: dst, normal, .. } = &self.s.m.funcs[ff as usize].code[pc as usize] else { unreachable!() };
                for v in (1..n).rev() {
                    let mut o = st.clone();
                    o.doms[i] = [0; 4];
                    o.doms[i][v as usize >> 6] |= 1 << (v & 63);
                    o.wit[i] = v as u8;
                    let fr = &mut o.frames[fi];
                    if let Some(d) = dst { fr.regs[*d as usize] = Val::I(v); }
                    if let Some(e) = normal { Self::goto(fr, e); } else { fr.pc += 1; }
                    self.push(o);
                }
                st.doms[i] = [1, 0, 0, 0];
                st.wit[i] = 0;
                Val::I(0)
            }
            SxAssume => { let e = to_e(&a[0], 1); let e = if let Val::S(s) = &a[0] { if s.w > 1 { not(&cmp(Cmp::Eq, s, &cst(0, s.w))) } else { e } } else { cst((cval(&a[0]).unwrap() != 0) as u128, 1) }; self.assume(st, &e)?; unit }
            SxCheck => {
                let e = match &a[0] { Val::S(s) => not(&cmp(Cmp::Eq, s, &cst(0, s.w))), v => cst((cval(v).unwrap() != 0) as u128, 1) };
                let msg = |w: &Self, st: &State| { let (Val::I(p), Val::I(n)) = (&a[1], &a[2]) else { return "?".to_string() }; String::from_utf8_lossy(&w.cbytes(st, *p, *n)).to_string() };
                match konst(&e) {
                    Some(1) => self.st.checks_concrete += 1,
                    Some(_) => { self.st.checks_concrete += 1; let m = msg(self, st); return Err(End::Fail(m)); }
                    None => {
                        self.st.checks_sym += 1;
                        // always the solver's verdict, no shortcut
                        if let Some(w) = self.query(st, &not(&e))? {
                            let mut o = st.clone();
                            o.wit = w;
                            let m = msg(self, &o);
                            self.report("check", m, &o, false);
                        }
                        self.assume(st, &e)?;
                    }
                }
                unit
            }
            SxObs => { st.obs.push(a[0].clone()); unit }
            SxNote => {
                let (tp, tn, p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let t = String::from_utf8_lossy(&self.cbytes(st, tp, tn)).to_string();
                let b = self.bytes(st, p, n)?;
                if st.notes.len() < 40 { st.notes.push((t, b)); }
                unit
            }
            SxCover => { let i = self.conc(st, &a[0])?; st.covers |= 1 << i; unit }
            SxHashTab => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                st.hashtab = if n == 0 { None } else { Some(self.bytes(st, p, n)?) };
                unit
            }
            SxConc => Val::I(self.conc(st, &a[0])?),
            SxIsSym => Val::I(1),
            SxIte => { let c = match &a[0] { Val::S(s) => not(&cmp(Cmp::Eq, s, &cst(0, s.w))), v => cst((cval(v).unwrap() != 0) as u128, 1) }; from_e(ite(&c, &to_e(&a[1], 64), &to_e(&a[2], 64))) }
            SxFile => {
                let (np, nn, p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let name = self.cbytes(st, np, nn);
                let b = self.bytes(st, p, n)?;
                st.vfs.push((name, Arc::new(b)));
                unit
            }
            SxOut => {
                // copy captured output into a buffer: (fd, ptr, cap) -> len
                let (fd, p, cap) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let out = std::mem::take(&mut st.out[if fd == 1 { 0 } else { 1 }]);
                let n = out.len().min(cap as usize);
                for (i, v) in out.iter().take(n).enumerate() { self.stv(st, p + i as u64, &Ty::Int(8), v)?; }
                Val::I(n as u64)
            }
            SxRead => {
                let (np, nn, p, cap) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let name = self.cbytes(st, np, nn);
                let data = match st.vfs.iter().rev().find(|f| f.0 == name) { Some(f) => f.1.clone(), None => return Ok(Val::I(0)) };
                let n = data.len().min(cap as usize);
                for i in 0..n { self.stv(st, p + i as u64, &Ty::Int(8), &data[i])?; }
                Val::I(n as u64)
            }
            SxDir => {
                let p = self.conc(st, &a[0])?;
                for (i, c) in b"/w".iter().enumerate() { self.stv(st, p + i as u64, &Ty::Int(8), &Val::I(*c as u64))?; }
                Val::I(2)
            }
            Strerror => {
                let p = self.conc(st, &a[1])?;
                for (i, c) in b"system error\0".iter().enumerate() { self.stv(st, p + i as u64, &Ty::Int(8), &Val::I(*c as u64))?; }
                Val::I(0)
            }
            Getcwd => {
                let p = self.conc(st, &a[0])?;
                for (i, c) in b"/w\0".iter().enumerate() { self.stv(st, p + i as u64, &Ty::Int(8), &Val::I(*c as u64))?; }
                a[0].clone()
            }
            Opendir => {
                let mut name = self.cstr(st, &a[0])?;
                if name.last() != Some(&b'/') { name.push(b'/'); }
                // entries in the order of their creation; a folder ends in '/'
                let mut l: Vec<Vec<u8>> = vec![];
                for f in st.vfs.iter().filter(|f| f.0.len() > name.len() && f.0.starts_with(&name)) {
                    let e = &f.0[name.len()..];
                    let e = match e.iter().position(|c| *c == b'/') { Some(i) => e[..=i].to_vec(), None => e.to_vec() };
                    if !l.contains(&e) { l.push(e); }
                }
                if l.is_empty() && name != b"/w/" { self.set_errno(st, 2)?; return Ok(Val::I(0)); }
                st.dirs.push((l, 0));
                Val::I(0x7d00_0000 + st.dirs.len() as u64)
            }
            Readdir => {
                let i = (self.conc(st, &a[0])? - 0x7d00_0001) as usize;
                let Some((l, k)) = st.dirs.get_mut(i) else { bail!("readdir") };
                if *k >= l.len() { return Ok(Val::I(0)); }
                *k += 1;
                // ino, off, reclen, type (a regular file or a folder), name
                let mut d = vec![0u8; 280];
                d[0] = *k as u8;
                d[16..18].copy_from_slice(&280u16.to_le_bytes());
                d[18] = 8;
                let mut n = l[*k - 1].clone();
                if n.last() == Some(&b'/') { n.pop(); d[18] = 4; }
                d[19..19 + n.len()].copy_from_slice(&n);
                let id = st.mem.add(Obj { data: d, ..Default::default() });
                Val::I(obj_addr(id))
            }
            Memcmp | Bcmp => {
                let n = self.conc(st, &a[2])?;
                let (p, q) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                if n == 0 { return Ok(Val::I(0)); }
                {
                    let (o, off) = self.obj(st, p, n)?;
                    let (o2, off2) = self.obj(st, q, n)?;
                    if o.sym.is_empty() && o2.sym.is_empty() {
                        let r = o.data[off..off + n as usize].cmp(&o2.data[off2..off2 + n as usize]);
                        return Ok(Val::I(match r { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 }));
                    }
                }
                let (u, v) = (self.bytes(st, p, n)?, self.bytes(st, q, n)?);
                if x == Bcmp {
                    let mut e = cst(1, 1);
                    for (s, t) in u.iter().zip(&v) { e = and(&e, &cmp(Cmp::Eq, &to_e(s, 8), &to_e(t, 8))); if konst(&e) == Some(0) { break; } }
                    from_e(ite(&e, &cst(0, 32), &cst(1, 32)))
                } else {
                    let mut acc = cst(0, 32);
                    for (s, t) in u.iter().zip(&v).rev() {
                        let (s, t) = (to_e(s, 8), to_e(t, 8));
                        acc = ite(&cmp(Cmp::Eq, &s, &t), &acc, &ite(&cmp(Cmp::Ult, &s, &t), &cst(0xffff_ffff, 32), &cst(1, 32)));
                    }
                    from_e(acc)
                }
            }
            Memcpy | Memmove => { let n = self.conc(st, &a[2])?; let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); self.copy(st, d, s, n)?; a[0].clone() }
            Memset => { self.memset(st, a)?; a[0].clone() }
            Strlen => { let p = self.conc(st, &a[0])?; let mut n = 0; loop { let b = self.byte(st, p + n)?; let c = to_e(&b, 8); if self.branch(st, &cmp(Cmp::Eq, &c, &cst(0, 8)))? { break; } n += 1; } Val::I(n) }
            Memchr | Memrchr => bail!("memchr"),
            Write => {
                let (fd, p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let b = self.bytes(st, p, n)?;
                if fd == 1 || fd == 2 { st.out[fd as usize - 1].extend(b); }
                else if let Some(Some((f, _))) = st.fds.get((fd as usize).wrapping_sub(10)).cloned() { Arc::make_mut(&mut st.vfs[f].1).extend(b); }
                Val::I(n)
            }
            Open => {
                let name = self.cstr(st, &a[0])?;
                let flags = self.conc(st, &a[1])?;
                match st.vfs.iter().position(|f| f.0 == name) {
                    Some(i) => { if flags & 0o1000 != 0 { st.vfs[i].1 = Arc::new(vec![]); } st.fds.push(Some((i, 0))); Val::I(9 + st.fds.len() as u64) }
                    None if flags & 0o100 != 0 => { st.vfs.push((name, Arc::new(vec![]))); st.fds.push(Some((st.vfs.len() - 1, 0))); Val::I(9 + st.fds.len() as u64) }
                    None if self.find(st, &name).is_some() => { st.fds.push(Some((usize::MAX, 0))); Val::I(9 + st.fds.len() as u64) }
                    None => { self.set_errno(st, 2)?; Val::I(0xffff_ffff) }
                }
            }
            Read => {
                let (fd, p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let Some(Some((f, pos))) = st.fds.get((fd as usize).wrapping_sub(10)).cloned() else { return Ok(Val::I(!0)) };
                if f == usize::MAX { self.set_errno(st, 21)?; return Ok(Val::I(!0)); }
                let data = st.vfs[f].1.clone();
                let k = (data.len() - pos).min(n as usize);
                for i in 0..k { self.stv(st, p + i as u64, &Ty::Int(8), &data[pos + i])?; }
                st.fds[fd as usize - 10] = Some((f, pos + k));
                Val::I(k as u64)
            }
            Close => Val::I(0),
            Fstat => {
                let fd = self.conc(st, &a[0])?;
                let Some(Some((f, _))) = st.fds.get((fd as usize).wrapping_sub(10)).cloned() else { self.set_errno(st, 9)?; return Ok(mkval(mask(rty.bits()), rty.bits())) };
                let b = self.conc(st, &a[1])?;
                let n = st.vfs.get(f).map(|x| x.1.len() as u64);
                self.put_stat(st, b, n, 24, Ty::Int(32), 48, 144)?;
                Val::I(0)
            }
            Stat => {
                let name = self.cstr(st, &a[0])?;
                let b = self.conc(st, &a[1])?;
                match self.find(st, &name) {
                    Some(n) => { self.put_stat(st, b, n, 24, Ty::Int(32), 48, 144)?; Val::I(0) }
                    None => { self.set_errno(st, 2)?; mkval(mask(rty.bits()), rty.bits()) }
                }
            }
            Statx => {
                if self.conc(st, &a[1])? == 0 { self.set_errno(st, 14)?; return Ok(mkval(mask(rty.bits()), rty.bits())); }
                let name = self.cstr(st, &a[1])?;
                let b = self.conc(st, &a[4])?;
                let fd = self.conc(st, &a[0])? as u32 as usize;
                let n = if name.is_empty() { match st.fds.get(fd.wrapping_sub(10)) { Some(Some((f, _))) => Some(st.vfs.get(*f).map(|x| x.1.len() as u64)), _ => None } } else { self.find(st, &name) };
                match n {
                    Some(n) => { self.put_stat(st, b, n, 28, Ty::Int(16), 40, 256)?; self.stv(st, b, &Ty::Int(32), &Val::I(0x7ff))?; Val::I(0) }
                    None => { self.set_errno(st, 2)?; mkval(mask(rty.bits()), rty.bits()) }
                }
            }
            Lseek | MinusOne => mkval(mask(rty.bits()), rty.bits()),
            Getenv => Val::I(0),
            Poll => Val::I(0),
            Zero => ir::zero(rty),
            Errno => Val::I(self.errno(st)),
            Intr(k) => return self.intr(st, k, f, a, args, rty),
            Undef => bail!("call to undefined function {}", self.s.m.funcs[f as usize].name),
        })
    }
    /// a file (Some(size)) or a folder (None)
    fn find(&self, st: &State, name: &[u8]) -> Option<Option<u64>> {
        if let Some(f) = st.vfs.iter().find(|f| f.0 == name) { return Some(Some(f.1.len() as u64)); }
        let mut d = name.to_vec();
        if d.last() != Some(&b'/') { d.push(b'/'); }
        if d == b"/w/" || st.vfs.iter().any(|f| f.0.starts_with(&d)) { Some(None) } else { None }
    }
    /// size: of a file; None: a folder
    fn put_stat(&mut self, st: &mut State, b: u64, size: Option<u64>, mode_at: u64, mode: Ty, size_at: u64, len: u64) -> R<()> {
        self.memset(st, &[Val::I(b), Val::I(0), Val::I(len)])?;
        self.stv(st, b + mode_at, &mode, &Val::I(if size.is_some() { 0o100644 } else { 0o040755 }))?;
        self.stv(st, b + size_at, &Ty::Int(64), &Val::I(size.unwrap_or(4096)))
    }
    fn errno(&mut self, st: &mut State) -> u64 { if st.errno == 0 { let id = st.mem.add(Obj { data: vec![2, 0, 0, 0], ..Default::default() }); st.errno = obj_addr(id); } st.errno }
    fn set_errno(&mut self, st: &mut State, v: u64) -> R<()> { let p = self.errno(st); self.stv(st, p, &Ty::Int(32), &Val::I(v)) }
    fn cstr(&mut self, st: &mut State, p: &Val) -> R<Vec<u8>> {
        let p = self.conc(st, p)?;
        let mut n = 0;
        while !matches!(self.byte(st, p + n)?, Val::I(0)) { n += 1; }
        Ok(self.cbytes(st, p, n))
    }
    fn memset(&mut self, st: &mut State, a: &[Val]) -> R<()> {
        let n = self.conc(st, &a[2])?;
        let d = self.conc(st, &a[0])?;
        if n == 0 { return Ok(()); }
        match &a[1] {
            Val::I(x) => {
                let (o, off) = self.objm(st, d, n)?;
                o.data[off..off + n as usize].fill(*x as u8);
                if !o.sym.is_empty() { let ks: Vec<u32> = o.sym.range(off as u32..(off as u64 + n) as u32).map(|(k, _)| *k).collect(); for k in ks { o.sym.remove(&k); } }
            }
            v => { let e = from_e(to_e(v, 8)); for i in 0..n { self.stv(st, d + i, &Ty::Int(8), &e)?; } }
        }
        Ok(())
    }
    fn intr(&mut self, st: &mut State, k: u8, f: u32, a: &[Val], args: &[(Opd, Ty)], rty: &Ty) -> R<Val> {
        let name = &self.s.m.funcs[f as usize].name;
        // elementwise on vectors
        if k >= 3 && k <= 24 && !(7..=12).contains(&k) {
            if let Ty::Vec(n, et) = rty {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let ai: Vec<Val> = a.iter().map(|v| match v { Val::A(x) => x[i].clone(), o => o.clone() }).collect();
                    let targs: Vec<(Opd, Ty)> = args.iter().map(|(o, t)| (o.clone(), match t { Ty::Vec(_, e) => (**e).clone(), t => t.clone() })).collect();
                    out.push(self.intr(st, k, f, &ai, &targs, et)?);
                }
                return Ok(Val::A(Arc::new(out)));
            }
        }
        let w = args.first().map(|x| x.1.bits()).unwrap_or(0);
        let both = |a: &[Val]| -> (E, E) { (to_e(&a[0], w), to_e(&a[1], w)) };
        Ok(match k {
            0 | 1 => { let n = self.conc(st, &a[2])?; let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?); self.copy(st, d, s, n)?; Val::I(0) }
            2 => { self.memset(st, a)?; Val::I(0) }
            3..=6 => {
                let (x, y) = both(a);
                let c = match k { 3 => cmp(Cmp::Ult, &y, &x), 4 => cmp(Cmp::Ult, &x, &y), 5 => cmp(Cmp::Slt, &y, &x), _ => cmp(Cmp::Slt, &x, &y) };
                from_e(ite(&c, &x, &y))
            }
            7..=12 => {
                let signed = k >= 10;
                let op = match (k - 7) % 3 { 0 => Bin::Add, 1 => Bin::Sub, _ => Bin::Mul };
                if let (Some(x), Some(y)) = (cval(&a[0]), cval(&a[1])) {
                    let r = bin_c(op, x, y, w).unwrap();
                    let o = if signed {
                        let (p, q) = (sx(x, w), sx(y, w));
                        match op { Bin::Add => p.checked_add(q), Bin::Sub => p.checked_sub(q), _ => p.checked_mul(q) }.map(|v| sx(v as u128 & mask(w), w) != v).unwrap_or(true)
                    } else {
                        match op { Bin::Add => x.checked_add(y), Bin::Sub => x.checked_sub(y), _ => x.checked_mul(y) }.map(|v| v > mask(w)).unwrap_or(true)
                    };
                    return Ok(Val::A(Arc::new(vec![mkval(r, w), Val::I(o as u64)])));
                }
                let (x, y) = both(a);
                let r = expr::bin(op, &x, &y);
                let w2 = if op == Bin::Mul { 2 * w } else { w + 1 };
                if w2 > 128 { bail!("wide overflow") }
                let o = match (signed, op) {
                    (false, Bin::Add) => cmp(Cmp::Ult, &r, &x),
                    (false, Bin::Sub) => cmp(Cmp::Ult, &x, &y),
                    (false, _) => not(&cmp(Cmp::Eq, &extract(&expr::bin(op, &zext(&x, w2), &zext(&y, w2)), w, w), &cst(0, w))),
                    (true, _) => not(&cmp(Cmp::Eq, &expr::bin(op, &sext(&x, w2), &sext(&y, w2)), &sext(&r, w2))),
                };
                Val::A(Arc::new(vec![from_e(r), from_e(o)]))
            }
            13 => { let (x, y) = both(a); let r = expr::bin(Bin::Add, &x, &y); from_e(ite(&cmp(Cmp::Ult, &r, &x), &cst(mask(w), w), &r)) }
            14 => { let (x, y) = both(a); from_e(ite(&cmp(Cmp::Ult, &x, &y), &cst(0, w), &expr::bin(Bin::Sub, &x, &y))) }
            15..=19 => {
                let x = match &a[0] {
                    Val::S(e) if k == 18 => { let n = w / 8; let mut acc = extract(e, 0, 8); for i in 1..n { acc = concat(&acc, &extract(e, i * 8, 8)); } return Ok(from_e(acc)); }
                    Val::S(e) if k == 15 || k == 16 => {
                        // nested ite
                        let mut acc = cst(w as u128, w);
                        for i in 0..w { let b = if k == 15 { i } else { w - 1 - i }; acc = ite(&extract(e, b, 1), &cst((if k == 15 { w - 1 - b } else { b }) as u128, w), &acc); }
                        return Ok(from_e(acc));
                    }
                    v => { let v2 = self.conc_val(st, v, w)?; cval(&v2).unwrap() }
                };
                let r = match k {
                    15 => if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 },
                    16 => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                    17 => x.count_ones() as u128,
                    18 => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                };
                mkval(r, w)
            }
            20 | 21 => {
                let (x, y) = both(a);
                let s = match cval(&a[2]) { Some(s) => s % w as u128, None => self.conc(st, &a[2])? as u128 % w as u128 } as u32;
                if s == 0 { return Ok(if k == 20 { a[0].clone() } else { a[1].clone() }); }
                let sh = if k == 20 { s } else { w - s };
                // (x:y) << sh, high part
                from_e(concat(&extract(&x, 0, w - sh), &extract(&y, w - sh, sh)))
            }
            22 | 23 => {
                let (x, y) = both(a);
                let rw = rty.bits();
                let c = if k == 22 { Cmp::Ult } else { Cmp::Slt };
                from_e(ite(&cmp(Cmp::Eq, &x, &y), &cst(0, rw), &ite(&cmp(c, &x, &y), &cst(mask(rw), rw), &cst(1, rw))))
            }
            24 => { let x = to_e(&a[0], w); from_e(ite(&cmp(Cmp::Slt, &x, &cst(0, w)), &expr::bin(Bin::Sub, &cst(0, w), &x), &x)) }
            25 | 26 => a[0].clone(),
            27 => {
                let Val::A(x) = &a[0] else { bail!("pmovmskb") };
                let mut acc: Option<E> = None;
                for y in x.iter() { let b = extract(&to_e(y, 8), 7, 1); acc = Some(match acc { None => b, Some(p) => concat(&b, &p) }); }
                from_e(zext(&acc.unwrap(), 32))
            }
            28..=30 | 39 => {
                let Val::A(x) = &a[0] else { bail!("reduce") };
                let Ty::Vec(_, et) = &args[0].1 else { bail!("reduce") };
                let w = et.bits();
                let mut acc = to_e(&x[0], w);
                for y in &x[1..] { let y = to_e(y, w); acc = match k { 28 => or(&acc, &y), 29 => expr::bin(Bin::And, &acc, &y), 30 => expr::bin(Bin::Add, &acc, &y), _ => ite(&cmp(Cmp::Ult, &acc, &y), &y, &acc) }; }
                from_e(acc)
            }
            31 => Val::I(0),
            32 => return Err(End::Panic("trap".into())),
            33 => { let x = self.conc(st, &a[0])?; Val::I(if *rty == Ty::Double { x & !(1 << 63) } else { x & !(1 << 31) }) }
            34 => self.bin(Bin::And, &a[0], &a[1], 64)?,
            37 => {
                let (p, o) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let v = self.ld(st, p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.conc(st, &v)?;
                Val::I(p.wrapping_add(sx(v as u128, 32) as u64))
            }
            _ => bail!("intrinsic {name}"),
        })
    }

    // ---------- reporting ----------
    pub fn report(&mut self, kind: &str, msg: String, st: &State, cut: bool) {
        let mut r = self.s.reports.lock().unwrap();
        if r.iter().filter(|x| x.kind == kind && x.msg == msg).count() >= 3 { return; }
        let notes = st.notes.iter().map(|(t, b)| format!("{}: {}", t, String::from_utf8_lossy(&b.iter().map(|v| match v { Val::I(x) => *x as u8, Val::S(e) => eval(e, &st.wit) as u8, _ => b'?' }).collect::<Vec<u8>>()))).collect();
        let stack = st.frames.iter().rev().take(25).map(|f| self.s.m.funcs[f.f as usize].name.clone()).collect();
        let known = self.s.known.iter().any(|k| msg.contains(k.as_str()));
        r.push(Report { kind: kind.into(), msg, bytes: st.wit[..st.doms.len()].to_vec(), notes, stack, cut });
        let fresh = r.iter().filter(|x| !self.s.known.iter().any(|k| x.msg.contains(k.as_str()))).count();
        if !known && fresh >= self.s.max_reports { self.s.stop.store(true, Relaxed); self.s.cv.notify_all(); }
    }
    pub fn finish(&mut self, st: State, e: End) {
        if st.steps > self.st.maxsteps { self.st.maxsteps = st.steps; }
        self.st.maxvars = self.st.maxvars.max(st.doms.len() as u64);
        match e {
            End::Done => {
                self.st.paths += 1;
                let n = self.s.paths.fetch_add(1, Relaxed) + 1;
                self.s.covers.fetch_or(st.covers, Relaxed);
                self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                let k = self.s.max_samples as u64;
                let take = n <= k || self.rng % n < k;
                if take {
                    let obs = st.obs.iter().map(|v| match v { Val::I(x) => *x, Val::W(x) => **x as u64, Val::S(e) => eval(e, &st.wit) as u64, _ => 0 }).collect();
                    let s = Sample { bytes: st.wit[..st.doms.len()].to_vec(), obs };
                    let mut g = self.s.samples.lock().unwrap();
                    if g.1.len() < self.s.max_samples { g.1.push(s); } else if k > 0 { let i = (self.rng >> 20) as usize % self.s.max_samples; g.1[i] = s; }
                }
            }
            End::Assume => self.st.assume_dead += 1,
            End::Panic(l) => { self.st.paths += 1; self.s.paths.fetch_add(1, Relaxed); self.report("panic", format!("panic at {l}"), &st, true) }
            End::Fail(m) => { self.st.paths += 1; self.s.paths.fetch_add(1, Relaxed); self.report("check", m, &st, true) }
            End::Hang => self.report("hang", format!("no result within {} steps", self.s.step_limit), &st, true),
            End::Ub(m) => self.report("ub", m, &st, true),
            End::Unsup(m) => {
                let mut g = self.s.unsup.lock().unwrap();
                let stack: Vec<String> = st.frames.iter().rev().take(if self.s.trace { 30 } else { 4 }).map(|f| self.s.m.funcs[f.f as usize].name.clone()).collect();
                *g.entry(format!("{m} in {}", stack.join(" < "))).or_insert(0) += 1;
            }
            End::Stop => {}
        }
    }
    pub fn work(&mut self) {
        loop {
            let st = if let Some(s) = self.local.pop() { Some(s) } else {
                let mut q = self.s.queue.lock().unwrap();
                let mut out = None;
                let mut am_idle = false;
                loop {
                    if self.s.stop.load(Relaxed) || self.s.done.load(Relaxed) { break; }
                    if let Some(s) = q.pop() { out = Some(s); break; }
                    if !am_idle { am_idle = true; let k = self.s.idle.fetch_add(1, SeqCst) + 1; if k == self.s.nworkers { self.s.done.store(true, SeqCst); self.s.cv.notify_all(); break; } }
                    q = self.s.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                }
                if am_idle && out.is_some() { self.s.idle.fetch_sub(1, SeqCst); }
                out
            };
            let Some(mut st) = st else { break };
            if self.s.stop.load(Relaxed) { break; }
            let e = self.run(&mut st);
            self.finish(st, e);
        }
        self.st.queries = self.z.queries;
        self.st.solver_time = self.z.time;
        self.st.unknown = self.z.unknown;
        self.st.slowest = self.z.slow;
    }
}
