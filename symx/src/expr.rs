//! Bit-vector expressions over symbolic input bytes.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

pub type E = Arc<Expr>;
pub const MAXVARS: usize = 128;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }

pub enum K {
    Const(u128),
    Var(u16),
    Bin(Bin, E, E),
    Cmp(Cmp, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u32),
    Concat(E, E),
    /// table lookup: the value of a function of one symbolic byte
    Tab(u16, Arc<Vec<u64>>),
}
pub struct Expr {
    pub k: K,
    pub w: u32,
    pub hash: u128,
    pub vars: u128,
    pub size: u32,
    set: OnceLock<[u64; 4]>,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn mix(h: u128, v: u128) -> u128 {
    let mut x = h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
    x ^= x >> 61;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93_C2B2_AE3D_27D4_EB4F);
    x ^ (x >> 67)
}

fn mk(k: K, w: u32) -> E {
    let (tag, a, b, c, vars, size): (u128, u128, u128, u128, u128, u32) = match &k {
        K::Const(v) => (1, *v, 0, 0, 0, 1),
        K::Var(i) => (2, *i as u128, 0, 0, 1u128 << *i, 1),
        K::Bin(o, x, y) => (3 + ((*o as u128) << 8), x.hash, y.hash, 0, x.vars | y.vars, x.size.saturating_add(y.size).saturating_add(1)),
        K::Cmp(o, x, y) => (4 + ((*o as u128) << 8), x.hash, y.hash, 0, x.vars | y.vars, x.size.saturating_add(y.size).saturating_add(1)),
        K::Ite(x, y, z) => (5, x.hash, y.hash, z.hash, x.vars | y.vars | z.vars, x.size.saturating_add(y.size).saturating_add(z.size).saturating_add(1)),
        K::Zext(x) => (6, x.hash, 0, 0, x.vars, x.size.saturating_add(1)),
        K::Sext(x) => (7, x.hash, 0, 0, x.vars, x.size.saturating_add(1)),
        K::Extract(x, l) => (8, x.hash, *l as u128, 0, x.vars, x.size.saturating_add(1)),
        K::Concat(x, y) => (9, x.hash, y.hash, 0, x.vars | y.vars, x.size.saturating_add(y.size).saturating_add(1)),
        K::Tab(i, t) => {
            let mut h = 77u128;
            for v in t.iter() { h = mix(h, *v as u128); }
            (10, *i as u128, h, 0, 1u128 << *i, 2)
        }
    };
    let hash = mix(mix(mix(mix(mix(0x1234_5678, tag), a), b), c), w as u128);
    Arc::new(Expr { k, w, hash, vars, size, set: OnceLock::new() })
}

pub fn cst(v: u128, w: u32) -> E { mk(K::Const(v & mask(w)), w) }
pub fn var(i: u16) -> E { mk(K::Var(i), 8) }
pub fn konst(e: &E) -> Option<u128> { if let K::Const(v) = e.k { Some(v) } else { None } }

/// Collapse functions of one byte into a table.
fn fin(e: E) -> E {
    if e.size > 6 && e.w <= 64 && e.vars.count_ones() == 1 {
        let i = e.vars.trailing_zeros() as u16;
        let mut a = [0u8; MAXVARS];
        let mut t = Vec::with_capacity(256);
        for v in 0..256u32 {
            a[i as usize] = v as u8;
            t.push(eval(&e, &a) as u64);
        }
        return tab(i, t, e.w);
    }
    e
}
pub fn tab(i: u16, t: Vec<u64>, w: u32) -> E {
    if t.iter().all(|v| *v == t[0]) { return cst(t[0] as u128, w); }
    if w == 8 && t.iter().enumerate().all(|(n, v)| *v == n as u64) { return var(i); }
    mk(K::Tab(i, Arc::new(t)), w)
}

pub fn bin_c(o: Bin, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match o {
        Bin::Add => a.wrapping_add(b) & m,
        Bin::Sub => a.wrapping_sub(b) & m,
        Bin::Mul => a.wrapping_mul(b) & m,
        Bin::UDiv => if b == 0 { return None } else { a / b },
        Bin::URem => if b == 0 { return None } else { a % b },
        Bin::SDiv => if b == 0 { return None } else { (sx(a, w).wrapping_div(sx(b, w)) as u128) & m },
        Bin::SRem => if b == 0 { return None } else { (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m },
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => { let s = sx(a, w); ((if b >= w as u128 { s >> 127 } else { s >> b }) as u128) & m }
    })
}
pub fn cmp_c(o: Cmp, a: u128, b: u128, w: u32) -> bool {
    match o {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sx(a, w) < sx(b, w),
        Cmp::Sle => sx(a, w) <= sx(b, w),
    }
}

pub fn not(e: &E) -> E { debug_assert!(e.w == 1); bin(Bin::Xor, e, &cst(1, 1)) }
pub fn and(a: &E, b: &E) -> E { bin(Bin::And, a, b) }
pub fn or(a: &E, b: &E) -> E { bin(Bin::Or, a, b) }

pub fn bin(o: Bin, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    let (ca, cb) = (konst(a), konst(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(v) = bin_c(o, x, y, w) { return cst(v, w); }
    }
    // canonical: constant on the right for commutative operators
    if ca.is_some() && cb.is_none() && matches!(o, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor) {
        return bin(o, b, a);
    }
    if let Some(y) = cb {
        match o {
            Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if y == 0 => return a.clone(),
            Bin::And | Bin::Mul if y == 0 => return b.clone(),
            Bin::And if y == mask(w) => return a.clone(),
            Bin::Or if y == mask(w) => return b.clone(),
            Bin::Mul | Bin::UDiv if y == 1 => return a.clone(),
            Bin::Sub => return bin(Bin::Add, a, &cst((0u128).wrapping_sub(y), w)),
            _ => {}
        }
        if o == Bin::And {
            if let K::Zext(i) = &a.k {
                if y & mask(i.w) == mask(i.w) { return a.clone(); }
                return zext(&bin(Bin::And, i, &cst(y, i.w)), w);
            }
        }
        if o == Bin::Xor && w == 1 {
            // not
            match &a.k {
                K::Bin(Bin::Xor, p, q) if konst(q) == Some(1) => return p.clone(),
                K::Cmp(Cmp::Ult, p, q) => return cmp(Cmp::Ule, q, p),
                K::Cmp(Cmp::Ule, p, q) => return cmp(Cmp::Ult, q, p),
                K::Cmp(Cmp::Slt, p, q) => return cmp(Cmp::Sle, q, p),
                K::Cmp(Cmp::Sle, p, q) => return cmp(Cmp::Slt, q, p),
                K::Ite(c, t, f) if konst(t).is_some() || konst(f).is_some() => return ite(c, &not(t), &not(f)),
                _ => {}
            }
        }
        if let K::Bin(o2, p, q) = &a.k {
            if *o2 == o && matches!(o, Bin::Add | Bin::And | Bin::Or | Bin::Xor) {
                if let Some(z) = konst(q) { return bin(o, p, &cst(bin_c(o, z, y, w).unwrap(), w)); }
            }
        }
        if let K::Ite(c, t, f) = &a.k {
            if konst(t).is_some() && konst(f).is_some() {
                if let (Some(x), Some(z)) = (bin_c(o, konst(t).unwrap(), y, w), bin_c(o, konst(f).unwrap(), y, w)) {
                    return ite(c, &cst(x, w), &cst(z, w));
                }
            }
        }
        if let K::Concat(h, l) = &a.k {
            match o {
                Bin::LShr if y >= l.w as u128 && y < w as u128 => {
                    let r = bin(Bin::LShr, h, &cst(y - l.w as u128, h.w));
                    return zext(&r, w);
                }
                Bin::And | Bin::Or | Bin::Xor => {
                    return concat(&bin(o, h, &cst(y >> l.w, h.w)), &bin(o, l, &cst(y, l.w)));
                }
                _ => {}
            }
        }
        if o == Bin::LShr {
            if let K::Zext(i) = &a.k {
                if y >= i.w as u128 { return cst(0, w); }
            }
        }
        if o == Bin::Shl && y < w as u128 && y > 0 {
            if let K::Zext(i) = &a.k {
                if i.w + y as u32 <= w { return zext(&concat(i, &cst(0, y as u32)), w); }
            }
        }
    }
    if a.hash == b.hash {
        match o {
            Bin::And | Bin::Or => return a.clone(),
            Bin::Xor | Bin::Sub => return cst(0, w),
            _ => {}
        }
    }
    if matches!(o, Bin::And | Bin::Or | Bin::Xor) {
        if let (K::Zext(i), K::Zext(j)) = (&a.k, &b.k) { if i.w == j.w { return zext(&bin(o, i, j), w); } }
        if w == 1 {
            // absorption and complement
            for (x, y) in [(a, b), (b, a)] {
                if let K::Bin(o2, p, q) = &y.k {
                    if p.hash == x.hash || q.hash == x.hash {
                        if *o2 == o && o != Bin::Xor { return y.clone(); }
                        if (o == Bin::And && *o2 == Bin::Or) || (o == Bin::Or && *o2 == Bin::And) { return x.clone(); }
                    }
                    if *o2 == Bin::Xor && konst(q) == Some(1) && p.hash == x.hash { return cst((o != Bin::And) as u128, 1); }
                }
            }
        }
    }
    // or of disjoint zext/concat parts (byte assembly)
    if matches!(o, Bin::Or | Bin::Add | Bin::Xor) {
        if let Some(e) = disjoint_or(a, b).or_else(|| disjoint_or(b, a)) { return e; }
    }
    fin(mk(K::Bin(o, a.clone(), b.clone()), w))
}
/// a has zero low bits where b lives
fn disjoint_or(a: &E, b: &E) -> Option<E> {
    let w = a.w;
    let K::Zext(bi) = &b.k else { return None };
    let (body, low) = match &a.k {
        K::Concat(h, l) if konst(l) == Some(0) => (h.clone(), l.w),
        K::Zext(i) => match &i.k { K::Concat(h, l) if konst(l) == Some(0) => (h.clone(), l.w), _ => return None },
        _ => return None,
    };
    if bi.w > low { return None; }
    Some(zext(&concat(&body, &zext(bi, low)), w))
}

pub fn cmp(o: Cmp, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    let (ca, cb) = (konst(a), konst(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(cmp_c(o, x, y, w) as u128, 1); }
    if a.hash == b.hash { return cst(matches!(o, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1); }
    if o == Cmp::Eq {
        if ca.is_some() { return cmp(o, b, a); }
        if let Some(y) = cb {
            if w == 1 { return if y == 1 { a.clone() } else { not(a) }; }
            match &a.k {
                K::Zext(i) => return if y > mask(i.w) { cst(0, 1) } else { cmp(Cmp::Eq, i, &cst(y, i.w)) },
                K::Concat(h, l) => return and(&cmp(Cmp::Eq, h, &cst(y >> l.w, h.w)), &cmp(Cmp::Eq, l, &cst(y, l.w))),
                K::Ite(c, t, f) => {
                    if konst(t).is_some() || konst(f).is_some() {
                        return ite(c, &cmp(Cmp::Eq, t, b), &cmp(Cmp::Eq, f, b));
                    }
                }
                K::Bin(Bin::Add, p, q) => if let Some(z) = konst(q) { return cmp(Cmp::Eq, p, &cst(y.wrapping_sub(z), w)); },
                K::Bin(Bin::Xor, p, q) => if let Some(z) = konst(q) { return cmp(Cmp::Eq, p, &cst(y ^ z, w)); } else if y == 0 { return cmp(Cmp::Eq, p, q) },
                K::Bin(Bin::Or, p, q) if y == 0 => return and(&cmp(Cmp::Eq, p, b), &cmp(Cmp::Eq, q, b)),
                _ => {}
            }
        } else {
            match (&a.k, &b.k) {
                (K::Zext(i), K::Zext(j)) if i.w == j.w => return cmp(o, i, j),
                (K::Concat(h, l), K::Concat(g, m)) if l.w == m.w => return and(&cmp(Cmp::Eq, h, g), &cmp(Cmp::Eq, l, m)),
                _ => {}
            }
            if a.hash > b.hash { return fin(mk(K::Cmp(o, b.clone(), a.clone()), 1)); }
        }
    } else if matches!(o, Cmp::Ult | Cmp::Ule) {
        if let (K::Zext(i), K::Zext(j)) = (&a.k, &b.k) { if i.w == j.w { return cmp(o, i, j); } }
        if let (K::Zext(i), Some(y)) = (&a.k, cb) { return if y > mask(i.w) { cst(1, 1) } else { cmp(o, i, &cst(y, i.w)) }; }
        if let (Some(x), K::Zext(j)) = (ca, &b.k) { return if x > mask(j.w) { cst(0, 1) } else { cmp(o, &cst(x, j.w), j) }; }
        if o == Cmp::Ult && cb == Some(0) { return cst(0, 1); }
        if o == Cmp::Ule && ca == Some(0) { return cst(1, 1); }
        if o == Cmp::Ule && cb == Some(mask(w)) { return cst(1, 1); }
        if o == Cmp::Ult && cb == Some(1) { return cmp(Cmp::Eq, a, &cst(0, w)); }
        if o == Cmp::Ule && cb == Some(0) { return cmp(Cmp::Eq, a, b); }
    }
    if let (K::Ite(c, t, f), Some(_)) = (&a.k, cb) {
        if konst(t).is_some() && konst(f).is_some() { return ite(c, &cmp(o, t, b), &cmp(o, f, b)); }
    }
    if let (Some(_), K::Ite(c, t, f)) = (ca, &b.k) {
        if konst(t).is_some() && konst(f).is_some() { return ite(c, &cmp(o, a, t), &cmp(o, a, f)); }
    }
    fin(mk(K::Cmp(o, a.clone(), b.clone()), 1))
}

pub fn ite(c: &E, t: &E, f: &E) -> E {
    debug_assert_eq!(t.w, f.w);
    if let Some(v) = konst(c) { return if v == 1 { t.clone() } else { f.clone() }; }
    if t.hash == f.hash { return t.clone(); }
    if t.w == 1 {
        match (konst(t), konst(f)) {
            (Some(1), Some(_)) => return c.clone(),
            (Some(_), Some(_)) => return not(c),
            (Some(1), None) => return or(c, f),
            (Some(_), None) => return and(&not(c), f),
            (None, Some(1)) => return or(&not(c), t),
            (None, Some(_)) => return and(c, t),
            _ => {}
        }
    }
    if let K::Ite(c2, t2, _) = &t.k { if c2.hash == c.hash { return ite(c, t2, f); } }
    if let K::Ite(c2, _, f2) = &f.k { if c2.hash == c.hash { return ite(c, t, f2); } }
    if let K::Bin(Bin::Xor, n, o) = &c.k { if konst(o) == Some(1) { return ite(n, f, t); } }
    fin(mk(K::Ite(c.clone(), t.clone(), f.clone()), t.w))
}
pub fn zext(e: &E, w: u32) -> E {
    if e.w == w { return e.clone(); }
    match &e.k {
        K::Const(v) => cst(*v, w),
        K::Zext(i) => zext(i, w),
        K::Tab(i, t) if w <= 64 => mk(K::Tab(*i, t.clone()), w),
        K::Concat(h, l) if konst(h) == Some(0) => zext(l, w),
        _ => fin(mk(K::Zext(e.clone()), w)),
    }
}
pub fn sext(e: &E, w: u32) -> E {
    if e.w == w { return e.clone(); }
    match &e.k {
        K::Const(v) => cst(sx(*v, e.w) as u128, w),
        K::Zext(i) => zext(i, w),
        _ => fin(mk(K::Sext(e.clone()), w)),
    }
}
thread_local!(static EXMEMO: std::cell::RefCell<HashMap<(u128, u32, u32), E>> = std::cell::RefCell::new(HashMap::new()));
pub fn extract(e: &E, lo: u32, w: u32) -> E {
    if lo == 0 && w == e.w { return e.clone(); }
    if e.size <= 40 { return extract1(e, lo, w); }
    let key = (e.hash, lo, w);
    if let Some(r) = EXMEMO.with(|m| m.borrow().get(&key).cloned()) { return r; }
    let r = extract1(e, lo, w);
    EXMEMO.with(|m| { let mut m = m.borrow_mut(); if m.len() > 200_000 { m.clear(); } m.insert(key, r.clone()); });
    r
}
fn extract1(e: &E, lo: u32, w: u32) -> E {
    match &e.k {
        K::Const(v) => cst(v >> lo, w),
        K::Zext(i) => {
            if lo >= i.w { return cst(0, w); }
            if lo + w <= i.w { return extract(i, lo, w); }
            if lo == 0 { return zext(i, w); }
            zext(&extract(i, lo, i.w - lo), w)
        }
        K::Sext(i) if lo + w <= i.w => extract(i, lo, w),
        K::Extract(i, l2) => extract(i, lo + l2, w),
        K::Concat(h, l) => {
            if lo >= l.w { return extract(h, lo - l.w, w); }
            if lo + w <= l.w { return extract(l, lo, w); }
            concat(&extract(h, 0, lo + w - l.w), &extract(l, lo, l.w - lo))
        }
        K::Ite(c, t, f) if konst(t).is_some() || konst(f).is_some() => ite(c, &extract(t, lo, w), &extract(f, lo, w)),
        K::Bin(o @ (Bin::And | Bin::Or | Bin::Xor), a, b) => bin(*o, &extract(a, lo, w), &extract(b, lo, w)),
        K::Bin(o @ (Bin::Add | Bin::Sub | Bin::Mul), a, b) if lo == 0 => bin(*o, &extract(a, 0, w), &extract(b, 0, w)),
        K::Tab(i, t) => tab(*i, t.iter().map(|v| ((*v as u128 >> lo) & mask(w)) as u64).collect(), w),
        _ => fin(mk(K::Extract(e.clone(), lo), w)),
    }
}
pub fn concat(h: &E, l: &E) -> E {
    let w = h.w + l.w;
    if let Some(x) = konst(h) {
        if let Some(y) = konst(l) { return cst((x << l.w) | y, w); }
        if x == 0 { return zext(l, w); }
    }
    if let (K::Extract(a, la), K::Extract(b, lb)) = (&h.k, &l.k) {
        if a.hash == b.hash && lb + l.w == *la { return extract(a, *lb, w); }
    }
    fin(mk(K::Concat(h.clone(), l.clone()), w))
}

pub fn eval(e: &E, a: &[u8]) -> u128 {
    if e.size <= 200 { return ev(e, a, &mut None); }
    let mut memo = Some(HashMap::new());
    ev(e, a, &mut memo)
}
fn ev(e: &E, a: &[u8], memo: &mut Option<HashMap<u128, u128>>) -> u128 {
    if e.size > 16 {
        if let Some(m) = memo { if let Some(v) = m.get(&e.hash) { return *v; } }
    }
    let r = match &e.k {
        K::Const(v) => *v,
        K::Var(i) => a[*i as usize] as u128,
        K::Bin(o, x, y) => {
            let p = ev(x, a, memo);
            let q = ev(y, a, memo);
            // SMT-LIB semantics for division by zero (never reached on a path: guarded)
            bin_c(*o, p, q, e.w).unwrap_or_else(|| match o { Bin::UDiv => mask(e.w), Bin::SDiv => if sx(p, e.w) < 0 { 1 } else { mask(e.w) }, _ => p })
        }
        K::Cmp(o, x, y) => cmp_c(*o, ev(x, a, memo), ev(y, a, memo), x.w) as u128,
        K::Ite(c, t, f) => if ev(c, a, memo) == 1 { ev(t, a, memo) } else { ev(f, a, memo) },
        K::Zext(x) => ev(x, a, memo),
        K::Sext(x) => (sx(ev(x, a, memo), x.w) as u128) & mask(e.w),
        K::Extract(x, l) => (ev(x, a, memo) >> l) & mask(e.w),
        K::Concat(h, l) => (ev(h, a, memo) << l.w) | ev(l, a, memo),
        K::Tab(i, t) => t[a[*i as usize] as usize] as u128,
    };
    if e.size > 16 { if let Some(m) = memo { m.insert(e.hash, r); } }
    r
}

/// For a boolean function of one byte: the set of values for which it holds.
pub fn unary_set(e: &E) -> Option<(u16, [u64; 4])> {
    if e.w != 1 || e.vars.count_ones() != 1 { return None; }
    let i = e.vars.trailing_zeros() as u16;
    let s = e.set.get_or_init(|| {
        let mut a = [0u8; MAXVARS];
        let mut s = [0u64; 4];
        for v in 0..256usize {
            a[i as usize] = v as u8;
            if eval(e, &a) == 1 { s[v >> 6] |= 1 << (v & 63); }
        }
        s
    });
    Some((i, *s))
}
