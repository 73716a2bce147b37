//! Bit-level polynomials over GF(2) of degree at most two: a canonical form that decides equality of XOR-heavy
//! expressions (GHASH, AES mixing, CRC-like code) without search.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Mono = (u32, u32); // (0,0) = 1, (0,a) = a, (a,b) with 0 < a < b
type Poly = Rc<Vec<Mono>>;

pub struct Anf<'a> {
    c: &'a Ctx,
    stop: HashSet<Id>,
    atoms: HashMap<(Id, u32), u32>,
    names: Vec<Id>,
    pub alias: HashMap<Id, Id>,
    memo: HashMap<Id, Rc<Vec<Poly>>>,
    work: usize,
    limit: usize,
    zero: Poly,
    one: Poly,
}

fn xor(a: &Poly, b: &Poly) -> Poly {
    if a.is_empty() { return b.clone(); }
    if b.is_empty() { return a.clone(); }
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] { o.push(a[i]); i += 1 } else if b[j] < a[i] { o.push(b[j]); j += 1 } else { i += 1; j += 1 }
    }
    o.extend_from_slice(&a[i..]);
    o.extend_from_slice(&b[j..]);
    Rc::new(o)
}

/// The degree-one case with dense vectors: decides long affine computations (data symbolic, multiplier constant).
pub fn affine(c: &Ctx, alias: &HashMap<Id, Id>, pairs: &[(Id, Id)]) -> Option<Vec<(bool, Vec<Id>)>> {
    let roots: Vec<Id> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let (owner, memo) = affine_rows(c, alias, &roots, 20000, 2_000_000, 300_000_000)?;
    Some(pairs.iter().map(|(a, b)| {
        let mut d: HashSet<Id> = HashSet::new();
        let mut same = true;
        for (p, q) in memo[a].iter().zip(memo[b].iter()) {
            if p == q { continue; }
            same = false;
            for i in 1..=owner.len() { if (p[i / 64] ^ q[i / 64]) >> (i % 64) & 1 == 1 && c.n(owner[i - 1]).op != Op::Var { d.insert(owner[i - 1]); } }
        }
        (same, d.into_iter().collect())
    }).collect())
}

/// A conjunction of equations a = b, each affine over GF(2) in the bits of other terms, in reduced row echelon form:
/// the rows (as sets of term bits, with the constant) whose sums are all 0; None inside: contradictory.
#[allow(clippy::type_complexity)]
pub fn reduced(c: &Ctx, eqs: &[(Id, Id)]) -> Option<Option<Vec<(bool, Vec<(Id, u32)>)>>> {
    let roots: Vec<Id> = eqs.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let (owner, memo) = affine_rows(c, &HashMap::new(), &roots, 600, 200_000, 20_000_000)?;
    let mut rows: Vec<Vec<u64>> = vec![];
    for (a, b) in eqs { for (p, q) in memo[a].iter().zip(memo[b].iter()) { let r: Vec<u64> = p.iter().zip(q.iter()).map(|(x, y)| x ^ y).collect(); if r.iter().any(|x| *x != 0) { rows.push(r); } } }
    let mut done: Vec<(usize, Vec<u64>)> = vec![];
    for mut r in rows {
        for (p, d) in &done { if r[p / 64] >> (p % 64) & 1 == 1 { for (x, y) in r.iter_mut().zip(d) { *x ^= y; } } }
        if r.iter().all(|x| *x == 0) { continue; }
        let Some(p) = (1..=owner.len()).find(|i| r[i / 64] >> (i % 64) & 1 == 1) else { return Some(None) };
        for (_, d) in done.iter_mut() { if d[p / 64] >> (p % 64) & 1 == 1 { for (x, y) in d.iter_mut().zip(&r) { *x ^= y; } } }
        done.push((p, r));
    }
    done.sort_by_key(|d| d.0);
    let start = |i: usize| { let mut k = i; while k > 1 && owner[k - 2] == owner[i - 1] { k -= 1 } (i - k) as u32 };
    Some(Some(done.iter().map(|(_, r)| (r[0] & 1 == 1, (1..=owner.len()).filter(|i| r[i / 64] >> (i % 64) & 1 == 1).map(|i| (owner[i - 1], start(i))).collect())).collect()))
}

type Rows = (Vec<Id>, HashMap<Id, Rc<Vec<Rc<Vec<u64>>>>>);
fn affine_rows(c: &Ctx, alias: &HashMap<Id, Id>, roots: &[Id], max_owner: usize, max_nodes: usize, max_cells: usize) -> Option<Rows> {
    let mut h = Anf::new(c, HashSet::new(), 0);
    h.alias = alias.clone();
    let mut base: HashMap<Id, usize> = HashMap::new();
    let mut owner: Vec<Id> = vec![];
    let mut seen = HashSet::new();
    let mut st: Vec<Id> = roots.to_vec();
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        if seen.len() > max_nodes { return None; }
        if h.routes(x) { let (a, k) = c.n(x).args(); for i in 0..k { st.push(a[i]); } continue; }
        let x = *alias.get(&x).unwrap_or(&x);
        if !base.contains_key(&x) { base.insert(x, owner.len() + 1); for _ in 0..c.w(x) { owner.push(x); } }
        if owner.len() > max_owner { return None; }
    }
    let nw = owner.len() / 64 + 1;
    type D = Rc<Vec<u64>>;
    let zero: D = Rc::new(vec![0; nw]);
    let one: D = { let mut v = vec![0; nw]; v[0] = 1; Rc::new(v) };
    let cells = std::cell::Cell::new(0usize);
    let xr = |a: &D, b: &D| -> D { cells.set(cells.get() + nw); if **a == *zero { b.clone() } else if **b == *zero { a.clone() } else { Rc::new(a.iter().zip(b.iter()).map(|(x, y)| x ^ y).collect()) } };
    let and = |a: &D, b: &D| -> Option<D> {
        if **a == *zero || **b == *zero { Some(zero.clone()) } else if **a == *one { Some(b.clone()) } else if **b == *one || a == b { Some(a.clone()) } else { None }
    };
    let mut memo: HashMap<Id, Rc<Vec<D>>> = HashMap::new();
    {
        for &root in roots {
            let mut st = vec![root];
            while let Some(&e) = st.last() {
                if memo.contains_key(&e) { st.pop(); continue; }
                let n = c.n(e);
                let w = n.w as usize;
                if cells.get() > max_cells { return None; }
                if !h.routes(e) {
                    let r = base[alias.get(&e).unwrap_or(&e)];
                    memo.insert(e, Rc::new((0..w).map(|i| { let mut v = vec![0u64; nw]; let k = r + i; v[k / 64] |= 1 << (k % 64); Rc::new(v) }).collect()));
                    st.pop();
                    continue;
                }
                let (ar, k) = n.args();
                let mut ok = true;
                for i in 0..k { if !memo.contains_key(&ar[i]) { st.push(ar[i]); ok = false; } }
                if !ok { continue; }
                st.pop();
                let g: Vec<Rc<Vec<D>>> = (0..k).map(|i| memo[&ar[i]].clone()).collect();
                let mut v: Vec<D> = Vec::with_capacity(w);
                let bit = |b: bool| if b { one.clone() } else { zero.clone() };
                match n.op {
                    Op::Const => { let x = n.cval(); for i in 0..w { v.push(bit(x >> i & 1 == 1)); } }
                    Op::Not => for i in 0..w { v.push(xr(&g[0][i], &one)); },
                    Op::Xor => for i in 0..w { v.push(xr(&g[0][i], &g[1][i])); },
                    Op::And => for i in 0..w { v.push(and(&g[0][i], &g[1][i])?); },
                    Op::Or => for i in 0..w { v.push(xr(&xr(&g[0][i], &g[1][i]), &and(&g[0][i], &g[1][i])?)); },
                    Op::Concat => { v.extend_from_slice(&g[1]); v.extend_from_slice(&g[0]); }
                    Op::Extract => { let lo = n.c as usize; v.extend_from_slice(&g[0][lo..lo + w]); }
                    Op::SExt => { v.extend_from_slice(&g[0]); let top = g[0].last().unwrap().clone(); while v.len() < w { v.push(top.clone()); } }
                    Op::Shl | Op::LShr | Op::AShr => {
                        let s = c.is_const(n.b).unwrap().min(w as u128) as usize;
                        for i in 0..w {
                            v.push(match n.op {
                                Op::Shl => if i >= s { g[0][i - s].clone() } else { zero.clone() },
                                Op::LShr => if i + s < w { g[0][i + s].clone() } else { zero.clone() },
                                _ => g[0][(i + s).min(w - 1)].clone(),
                            });
                        }
                    }
                    Op::Sub => for _ in 0..w { v.push(g[1][0].clone()); },
                    Op::Mul => {
                        let (k, p) = match c.is_const(n.b) { Some(k) => (k, g[0][0].clone()), None => (c.is_const(n.a).unwrap(), g[1][0].clone()) };
                        for i in 0..w { v.push(if k >> i & 1 == 1 { p.clone() } else { zero.clone() }); }
                    }
                    Op::Eq => v.push(xr(&xr(&g[0][0], &g[1][0]), &one)),
                    Op::Ite => for i in 0..w { let d = xr(&g[1][i], &g[2][i]); v.push(xr(&g[2][i], &and(&g[0][0], &d)?)); },
                    _ => unreachable!(),
                }
                if v.len() != w { return None; }
                memo.insert(e, Rc::new(v));
            }
        }
    }
    Some((owner, memo))
}

impl<'a> Anf<'a> {
    pub fn new(c: &'a Ctx, stop: HashSet<Id>, limit: usize) -> Anf<'a> {
        Anf { c, stop, atoms: HashMap::new(), names: vec![], alias: HashMap::new(), memo: HashMap::new(), work: 0, limit, zero: Rc::new(vec![]), one: Rc::new(vec![(0, 0)]) }
    }
    fn atom(&mut self, e: Id, bit: u32) -> Poly {
        let k = self.atoms.len() as u32 + 1;
        let e = *self.alias.get(&e).unwrap_or(&e);
        let a = *self.atoms.entry((e, bit)).or_insert(k);
        if a == k { self.names.push(e); }
        Rc::new(vec![(0, a)])
    }
    fn and(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.is_empty() || b.is_empty() { return Some(self.zero.clone()); }
        if a.len() == 1 && a[0] == (0, 0) { return Some(b.clone()); }
        if b.len() == 1 && b[0] == (0, 0) { return Some(a.clone()); }
        if a == b { return Some(a.clone()); }
        self.work += a.len() * b.len();
        if self.work > self.limit { return None; }
        let mut v = Vec::with_capacity(a.len() * b.len());
        for x in a.iter() {
            for y in b.iter() {
                let m = if *x == (0, 0) { *y } else if *y == (0, 0) { *x } else if x == y { *x }
                    else if x.0 == 0 && y.0 == 0 { (x.1.min(y.1), x.1.max(y.1)) }
                    else if x.0 == 0 && (x.1 == y.0 || x.1 == y.1) { *y }
                    else if y.0 == 0 && (y.1 == x.0 || y.1 == x.1) { *x }
                    else { return None; };
                v.push(m);
            }
        }
        v.sort_unstable();
        let mut o: Vec<Mono> = Vec::with_capacity(v.len());
        for m in v { if o.last() == Some(&m) { o.pop(); } else { o.push(m); } }
        Some(Rc::new(o))
    }
    fn x(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        self.work += a.len() + b.len();
        if self.work > self.limit { return None; }
        Some(xor(a, b))
    }
    pub fn affordable(&self) -> bool { self.work <= self.limit }
    /// the non-bitwise terms that occur in the difference of two polynomials
    pub fn diff_atoms(&self, a: &Poly, b: &Poly, out: &mut HashSet<Id>) {
        for m in xor(a, b).iter() { for k in [m.0, m.1] { if k > 0 { let e = self.names[k as usize - 1]; if self.c.n(e).op != Op::Var { out.insert(e); } } } }
    }
    fn routes(&self, e: Id) -> bool {
        let n = self.c.n(e);
        if self.stop.contains(&e) || self.alias.contains_key(&e) { return false; }
        match n.op {
            Op::Const | Op::Not | Op::And | Op::Or | Op::Xor | Op::Concat | Op::Extract | Op::SExt | Op::Ite => true,
            Op::Shl | Op::LShr | Op::AShr => self.c.is_const(n.b).is_some(),
            Op::Sub => self.c.is_const(n.a) == Some(0) && self.bit_only(n.b),
            Op::Eq => self.c.w(n.a) == 1,
            Op::Mul => (self.c.is_const(n.b).is_some() && self.bit_only(n.a)) || (self.c.is_const(n.a).is_some() && self.bit_only(n.b)),
            _ => false,
        }
    }
    fn bit_only(&self, e: Id) -> bool {
        let n = self.c.n(e);
        n.w == 1 || match n.op { Op::Concat => self.c.is_const(n.a) == Some(0) && self.bit_only(n.b), Op::And => self.c.is_const(n.a) == Some(1) || self.c.is_const(n.b) == Some(1), Op::Const => n.cval() <= 1, _ => false }
    }
    pub fn get(&mut self, root: Id) -> Option<Rc<Vec<Poly>>> {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.memo.contains_key(&e) { st.pop(); continue; }
            let n = self.c.n(e);
            let w = n.w;
            if !self.routes(e) {
                let v: Vec<Poly> = (0..w).map(|i| self.atom(e, i)).collect();
                self.memo.insert(e, Rc::new(v));
                st.pop();
                continue;
            }
            let (a, k) = n.args();
            let mut ok = true;
            for i in 0..k { if !self.memo.contains_key(&a[i]) { st.push(a[i]); ok = false; } }
            if !ok { continue; }
            st.pop();
            let ar: Vec<Rc<Vec<Poly>>> = (0..k).map(|i| self.memo[&a[i]].clone()).collect();
            let mut v: Vec<Poly> = Vec::with_capacity(w as usize);
            match n.op {
                Op::Const => { let x = n.cval(); for i in 0..w { v.push(if x >> i & 1 == 1 { self.one.clone() } else { self.zero.clone() }); } }
                Op::Not => for i in 0..w as usize { let o = self.one.clone(); v.push(self.x(&ar[0][i], &o)?); },
                Op::Xor => for i in 0..w as usize { v.push(self.x(&ar[0][i], &ar[1][i])?); },
                Op::And => for i in 0..w as usize { v.push(self.and(&ar[0][i], &ar[1][i])?); },
                Op::Or => for i in 0..w as usize { let p = self.and(&ar[0][i], &ar[1][i])?; let q = self.x(&ar[0][i], &ar[1][i])?; v.push(self.x(&p, &q)?); },
                Op::Concat => { v.extend_from_slice(&ar[1]); v.extend_from_slice(&ar[0]); }
                Op::Extract => { let lo = n.c as usize; v.extend_from_slice(&ar[0][lo..lo + w as usize]); }
                Op::SExt => { v.extend_from_slice(&ar[0]); let top = ar[0].last().unwrap().clone(); while v.len() < w as usize { v.push(top.clone()); } }
                Op::Shl | Op::LShr | Op::AShr => {
                    let s = self.c.is_const(n.b).unwrap().min(w as u128) as usize;
                    let w = w as usize;
                    for i in 0..w {
                        v.push(match n.op {
                            Op::Shl => if i >= s { ar[0][i - s].clone() } else { self.zero.clone() },
                            Op::LShr => if i + s < w { ar[0][i + s].clone() } else { self.zero.clone() },
                            _ => ar[0][(i + s).min(w - 1)].clone(),
                        });
                    }
                }
                Op::Sub => for _ in 0..w { v.push(ar[1][0].clone()); },
                Op::Mul => {
                    let (k, p) = match self.c.is_const(n.b) { Some(k) => (k, ar[0][0].clone()), None => (self.c.is_const(n.a).unwrap(), ar[1][0].clone()) };
                    for i in 0..w { v.push(if k >> i & 1 == 1 { p.clone() } else { self.zero.clone() }); }
                }
                Op::Eq => { let p = self.x(&ar[0][0], &ar[1][0])?; let o = self.one.clone(); v.push(self.x(&p, &o)?); }
                Op::Ite => {
                    let g = ar[0][0].clone();
                    for i in 0..w as usize { let d = self.x(&ar[1][i], &ar[2][i])?; let t = self.and(&g, &d)?; v.push(self.x(&ar[2][i], &t)?); }
                }
                _ => unreachable!(),
            }
            if v.len() != w as usize { return None; }
            self.memo.insert(e, Rc::new(v));
        }
        Some(self.memo[&root].clone())
    }
}

/// Some(true): equal for sure. Some(false): different polynomials over terms that both sides share (so equality would
/// have to come from a relation between those terms). None: nothing known.
pub fn equal(c: &Ctx, a: Id, b: Id, limit: usize, merged: &HashSet<Id>) -> Option<bool> {
    let w = c.w(a);
    let mut res = None;
    // stop at the topmost shared nodes that were found equal before, then at the topmost wide shared nodes
    let mut sa = HashSet::new();
    let mut st = vec![a];
    while let Some(x) = st.pop() { if sa.len() > 100_000 { return None; } if !sa.insert(x) { continue; } let (r, k) = c.n(x).args(); for i in 0..k { st.push(r[i]); } }
    let mut tries = vec![0, w, (w / 2).max(8), 8];
    tries.dedup();
    for wide in tries {
        // terms that turned out to be a bad place to stop (one side sees through them, the other does not)
        let mut banned: HashSet<Id> = HashSet::new();
        for _ in 0..if wide == 0 { 6 } else { 1 } {
            let mut stop = HashSet::new();
            let mut seen = HashSet::new();
            let mut st = vec![b];
            while let Some(x) = st.pop() {
                if seen.len() > 100_000 { return None; }
                if !seen.insert(x) { continue; }
                let (r, k) = c.n(x).args();
                if x != b && x != a && k > 0 && (if wide == 0 { merged.contains(&x) && c.w(x) >= 8 } else { c.w(x) >= wide }) && sa.contains(&x) && !banned.contains(&x) { stop.insert(x); continue; }
                for i in 0..k { st.push(r[i]); }
            }
            let mut f = Anf::new(c, stop, limit);
            let (Some(p), Some(q)) = (f.get(a), f.get(b)) else { break };
            if p == q { return Some(true); }
            let mut d = HashSet::new();
            for (u, v) in p.iter().zip(q.iter()) { f.diff_atoms(u, v, &mut d); }
            let stops: Vec<Id> = d.iter().copied().filter(|e| f.stop.contains(e)).collect();
            if stops.is_empty() { if d.iter().all(|e| sa.contains(e) && seen.contains(e)) { res = Some(false); } break; }
            let narrow: Vec<Id> = stops.iter().copied().filter(|e| c.w(*e) < 64).collect();
            banned.extend(if narrow.is_empty() { stops } else { narrow });
        }
    }
    res
}
