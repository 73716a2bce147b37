//! Hash-consed bit-vector expression DAG with simplification and evaluation.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, SExt, Eq, Ult, Ule, Slt, Sle, Ite, Select, Uf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

impl Node {
    pub fn cval(&self) -> u128 {
        (self.a as u128) | (self.b as u128) << 32 | (self.c as u128) << 64 | (self.d as u128) << 96
    }
    /// number of expression arguments
    pub fn args(&self) -> ([Id; 3], usize) {
        match self.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Not | Op::Extract | Op::SExt => ([self.a, 0, 0], 1),
            Op::Select => ([self.b, 0, 0], 1),
            Op::Ite => ([self.a, self.b, self.c], 3),
            Op::Uf => {
                // a = uf id (function), b,c args (c may be 0 = none)
                if self.d == 1 { ([self.b, 0, 0], 1) } else { ([self.b, self.c, 0], 2) }
            }
            _ => ([self.a, self.b, 0], 2),
        }
    }
}

pub struct Table {
    pub data: Vec<u128>,
    pub w: u32,
    pub iw: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    map: HashMap<Node, Id, std::hash::BuildHasherDefault<Fx>>,
    pub vars: Vec<(String, u32, Id)>,
    pub tables: Vec<Table>,
    table_map: HashMap<(Vec<u128>, u32, u32), u32>,
    supp: HashMap<Id, Rc<Vec<u32>>>,
    pub t: Id,
    pub f: Id,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0.rotate_left(26) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

fn ones(w: u32) -> u128 { mask(u128::MAX, w) }
fn fill(v: u128) -> u128 { if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() } }

/// An assignment to the variables, with memoised node values.
#[derive(Clone)]
pub struct Model {
    pub vals: HashMap<u32, u128>,
    memo: HashMap<Id, u128, std::hash::BuildHasherDefault<Fx>>,
}

impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Self { Model { vals, memo: Default::default() } }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![], range: vec![], map: Default::default(), vars: vec![], tables: vec![], table_map: HashMap::new(),
            supp: HashMap::new(), t: 0, f: 0,
        };
        c.f = c.cst(0, 1);
        c.t = c.cst(1, 1);
        c
    }
    #[inline]
    pub fn n(&self, e: Id) -> Node { self.nodes[e as usize] }
    #[inline]
    pub fn w(&self, e: Id) -> u32 { self.nodes[e as usize].w }
    #[inline]
    pub fn is_const(&self, e: Id) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.cval()) } else { None }
    }

    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, d: u32) -> Id {
        let n = Node { op, w, a, b, c, d };
        if let Some(i) = self.map.get(&n) { return *i; }
        let i = self.nodes.len() as Id;
        let r = self.mk_range(&n);
        self.nodes.push(n);
        self.range.push(r);
        self.map.insert(n, i);
        if r.0 == r.1 && op != Op::Const {
            let k = self.cst(r.0, w);
            self.map.insert(n, k);
            return k;
        }
        i
    }

    fn mk_range(&self, n: &Node) -> (u128, u128) {
        let m = ones(n.w);
        let r = |e: u32| self.range[e as usize];
        match n.op {
            Op::Const => (n.cval(), n.cval()),
            Op::Concat => {
                let lw = self.w(n.b);
                if n.w > 128 { return (0, m); }
                let (a, b) = (r(n.a), r(n.b));
                ((a.0 << lw) | b.0, (a.1 << lw) | b.1)
            }
            Op::And => { let (a, b) = (r(n.a), r(n.b)); (0, a.1.min(b.1)) }
            Op::Or => { let (a, b) = (r(n.a), r(n.b)); (a.0.max(b.0), fill(a.1 | b.1)) }
            Op::Xor => { let (a, b) = (r(n.a), r(n.b)); (0, fill(a.1 | b.1)) }
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_add(b.1) { Some(h) if h <= m => (a.0 + b.0, h), _ => {
                    // both sides wrap for sure (adding a negative constant)
                    match a.0.checked_add(b.0) { Some(l) if l > m && n.w < 128 => (l & m, (a.1 + b.1) & m), _ => (0, m) }
                } }
            }
            Op::Sub => { let (a, b) = (r(n.a), r(n.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) } }
            Op::Mul => { let (a, b) = (r(n.a), r(n.b)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) } }
            Op::UDiv => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) } }
            Op::URem => { let (a, b) = (r(n.a), r(n.b)); if b.0 > 0 { (0, a.1.min(b.1 - 1)) } else { (0, m) } }
            Op::Shl => (0, m),
            Op::LShr => (0, r(n.a).1),
            Op::Extract => {
                let a = r(n.a);
                if n.c == 0 && a.1 <= m { a } else if n.c < 128 { (0, (a.1 >> n.c).min(m)) } else { (0, m) }
            }
            Op::Ite => { let (a, b) = (r(n.b), r(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
            Op::Select => {
                let t = &self.tables[n.a as usize];
                (*t.data.iter().min().unwrap(), *t.data.iter().max().unwrap())
            }
            Op::Not => { let a = r(n.a); (m - a.1, m - a.0) }
            _ => (0, m),
        }
    }

    pub fn cst(&mut self, v: u128, w: u32) -> Id {
        let v = mask(v, w);
        let n = Node { op: Op::Const, w, a: v as u32, b: (v >> 32) as u32, c: (v >> 64) as u32, d: (v >> 96) as u32 };
        if let Some(i) = self.map.get(&n) { return *i; }
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.range.push((v, v));
        self.map.insert(n, i);
        i
    }
    pub fn var(&mut self, name: &str, w: u32) -> Id {
        let k = self.vars.len() as u32;
        let id = self.mk(Op::Var, w, k, 0, 0, 0);
        self.vars.push((name.to_string(), w, id));
        id
    }
    pub fn table(&mut self, data: Vec<u128>, w: u32, iw: u32) -> u32 {
        let key = (data, w, iw);
        if let Some(k) = self.table_map.get(&key) { return *k; }
        let k = self.tables.len() as u32;
        self.tables.push(Table { data: key.0.clone(), w, iw });
        self.table_map.insert(key, k);
        k
    }
    pub fn select(&mut self, table: u32, idx: Id) -> Id {
        if let Some(k) = self.is_const(idx) {
            let t = &self.tables[table as usize];
            let v = t.data[(k as usize).min(t.data.len() - 1)];
            let w = t.w;
            return self.cst(v, w);
        }
        let w = self.tables[table as usize].w;
        let n = self.n(idx);
        if n.op == Op::Select {
            // a table of a table is a table
            let (t, u) = (&self.tables[table as usize], &self.tables[n.a as usize]);
            let data: Vec<u128> = u.data.iter().map(|i| t.data[(*i as usize).min(t.data.len() - 1)]).collect();
            let iw = u.iw;
            let k = self.table(data, w, iw);
            return self.select(k, n.b);
        }
        let t = &self.tables[table as usize];
        let full = n.w < 20 && t.data.len() == 1 << n.w;
        if full && t.data.iter().all(|v| *v == t.data[0]) { let v = t.data[0]; return self.cst(v, w); }
        if full && n.w == w && t.data.iter().enumerate().all(|(i, v)| i as u128 == *v) { return idx; }
        self.mk(Op::Select, w, table, idx, 0, 0)
    }
    pub fn uf(&mut self, f: u32, w: u32, a: Id, b: Option<Id>) -> Id {
        match b { Some(b) => self.mk(Op::Uf, w, f, a, b, 2), None => self.mk(Op::Uf, w, f, a, 0, 1) }
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        match n.op {
            Op::Const => self.cst(!n.cval(), n.w),
            Op::Not => n.a,
            Op::Ult => self.ule(n.b, n.a),
            Op::Ule => self.ult(n.b, n.a),
            Op::Slt => self.sle(n.b, n.a),
            Op::Sle => self.slt(n.b, n.a),
            Op::Xor if self.is_const(n.b).is_some() => { let k = self.is_const(n.b).unwrap(); let k = self.cst(!k, n.w); self.xor(n.a, k) }
            Op::Ite if n.w > 1 && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() => {
                let (x, y) = (self.not(n.b), self.not(n.c));
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    pub fn neg(&mut self, a: Id) -> Id { let w = self.w(a); let z = self.cst(0, w); self.sub(z, a) }

    pub fn add(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 { return self.xor(a, b); }
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x.wrapping_add(y), w); }
            if y == 0 { return a; }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(k) = self.is_const(n.b) {
                    let k2 = self.cst(k.wrapping_add(y), w);
                    return self.add(n.a, k2);
                }
            }
            if n.op == Op::Ite {
                if let (Some(x1), Some(x2)) = (self.is_const(n.b), self.is_const(n.c)) {
                    let (p, q) = (self.cst(x1.wrapping_add(y), w), self.cst(x2.wrapping_add(y), w));
                    return self.ite(n.a, p, q);
                }
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // keep constants outermost
        if na.op == Op::Add && self.is_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.is_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        if na.op == Op::Sub && na.b == b { return na.a; }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Sub && self.is_const(na.a) == Some(0) { return self.sub(b, na.b); }
        if nb.op == Op::Sub && self.is_const(nb.a) == Some(0) { return self.sub(a, nb.b); }
        if na.op == Op::And && nb.op == Op::And && self.and_disjoint(&na, &nb) { return self.or(a, b); }
        // disjoint bits: a + b = a | b when segments allow
        if (na.op == Op::Concat || nb.op == Op::Concat) && self.disjoint(a, b) { return self.or(a, b); }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    fn and_disjoint(&mut self, na: &Node, nb: &Node) -> bool {
        for p in [na.a, na.b] { for q in [nb.a, nb.b] {
            let (np, nq) = (self.n(p), self.n(q));
            if (np.op == Op::Not && np.a == q) || (nq.op == Op::Not && nq.a == p) { return true; }
        } }
        false
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        if a == b { return self.cst(0, w); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x.wrapping_sub(y), w); }
            let k = self.cst(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add {
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
            if self.is_const(na.b).is_some() { let s = self.sub(na.a, b); return self.add(s, na.b); }
        }
        if nb.op == Op::Add {
            if let Some(k) = self.is_const(nb.b) { let s = self.sub(a, nb.a); let k = self.cst(k.wrapping_neg(), w); return self.add(s, k); }
            if nb.a == a { return self.neg(nb.b); }
            if nb.b == a { return self.neg(nb.a); }
            if na.op == Op::Add {
                // (x + y) - (x + z)
                if na.a == nb.a { return self.sub(na.b, nb.b); }
                if na.a == nb.b { return self.sub(na.b, nb.a); }
                if na.b == nb.a { return self.sub(na.a, nb.b); }
                if na.b == nb.b { return self.sub(na.a, nb.a); }
            }
        }
        if nb.op == Op::Sub && nb.a == a { return nb.b; }
        if self.is_const(a) == Some(0) {
            if nb.op == Op::Sub { return self.sub(nb.b, nb.a); }
            if nb.op == Op::Concat && self.w(nb.b) == 1 && self.is_const(nb.a) == Some(0) {
                let (o, z) = (self.cst(u128::MAX, w), self.cst(0, w));
                return self.ite(nb.b, o, z);
            }
            if nb.op == Op::Ite {
                if let (Some(x), Some(y)) = (self.is_const(nb.b), self.is_const(nb.c)) {
                    let (x, y) = (self.cst(x.wrapping_neg(), w), self.cst(y.wrapping_neg(), w));
                    return self.ite(nb.a, x, y);
                }
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if w == 1 { return self.and(a, b); }
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x.wrapping_mul(y), w); }
            if y == 0 { return b; }
            if y == 1 { return a; }
            if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.shl(a, k); }
            if y == ones(w) { return self.neg(a); }
            let n = self.n(a);
            if n.op == Op::Concat && self.w(n.b) == 1 && self.is_const(n.a) == Some(0) {
                let z = self.cst(0, w);
                return self.ite(n.b, b, z);
            }
            return self.mk(Op::Mul, w, a, b, 0, 0);
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Concat && self.w(n.b) == 1 && self.is_const(n.a) == Some(0) {
                let z = self.cst(0, w);
                return self.ite(n.b, y, z);
            }
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if y == 0 { return self.cst(u128::MAX, w); }
            if let Some(x) = self.is_const(a) { return self.cst(x / y, w); }
            if y == 1 { return a; }
            if y.is_power_of_two() { let k = self.cst(y.trailing_zeros() as u128, w); return self.lshr(a, k); }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.is_const(b) {
            if y == 0 { return a; }
            if let Some(x) = self.is_const(a) { return self.cst(x % y, w); }
            if y.is_power_of_two() { let k = self.cst(y - 1, w); return self.and(a, k); }
            if self.range[a as usize].1 < y { return a; }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 { return self.cst(sext(x, w).wrapping_div(sext(y, w)) as u128, w); }
        }
        if self.nonneg(a) && self.nonneg(b) { return self.udiv(a, b); }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if y != 0 { return self.cst(sext(x, w).wrapping_rem(sext(y, w)) as u128, w); }
        }
        if self.nonneg(a) && self.nonneg(b) { return self.urem(a, b); }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    fn nonneg(&self, a: Id) -> bool { let w = self.w(a); w <= 128 && self.range[a as usize].1 >> (w - 1) == 0 }

    // ---- bit-vector segments
    fn segs(&self, e: Id, out: &mut Vec<(Id, u32)>) {
        let mut e = e;
        loop {
            let n = self.n(e);
            if n.op == Op::Concat {
                out.push((n.a, self.w(n.a)));
                e = n.b;
            } else { out.push((e, n.w)); return; }
        }
    }
    fn bounds(&self, e: Id) -> Vec<u32> {
        // low boundary positions of segments (excluding 0)
        let mut v = vec![];
        let mut pos = self.w(e);
        let mut s = vec![];
        self.segs(e, &mut s);
        for (_, w) in &s { pos -= w; if pos > 0 { v.push(pos); } }
        v
    }
    fn trivial_seg(&self, e: Id) -> bool {
        let mut s = vec![];
        self.segs(e, &mut s);
        s.len() > 1 && s.iter().any(|(x, w)| match self.is_const(*x) { Some(v) => v == 0 || v == ones(*w), None => false })
    }
    fn disjoint(&self, a: Id, b: Id) -> bool {
        let mut cuts = self.bounds(a);
        cuts.extend(self.bounds(b));
        if cuts.is_empty() { return false; }
        let zero_mask = |e: Id| -> u128 {
            if self.w(e) > 128 { return 0; }
            let mut pos = self.w(e);
            let mut s = vec![];
            self.segs(e, &mut s);
            let mut m = 0u128;
            for (x, w) in s {
                pos -= w;
                if let Some(v) = self.is_const(x) { m |= mask(!v, w) << pos; }
            }
            m
        };
        (zero_mask(a) | zero_mask(b)) == ones(self.w(a))
    }
    fn bitwise_segs(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        if !(self.trivial_seg(a) || self.trivial_seg(b)) {
            return None;
        }
        let w = self.w(a);
        let mut cuts = self.bounds(a);
        cuts.extend(self.bounds(b));
        cuts.push(0);
        cuts.sort_unstable_by(|x, y| y.cmp(x));
        cuts.dedup();
        let mut hi = w;
        let mut acc: Option<Id> = None;
        let mut parts = vec![];
        for lo in cuts {
            let x = self.extract(a, hi - 1, lo);
            let y = self.extract(b, hi - 1, lo);
            let z = match op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            parts.push(z);
            hi = lo;
        }
        for p in parts.into_iter().rev() { acc = Some(match acc { None => p, Some(l) => self.concat(p, l) }); }
        acc
    }

    pub fn and(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b { return a; }
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x & y, w); }
            if y == 0 { return b; }
            if y == ones(w) { return a; }
            let n = self.n(a);
            if n.op == Op::And { if let Some(k) = self.is_const(n.b) { let k = self.cst(k & y, w); return self.and(n.a, k); } }
            if n.op == Op::Ite { if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) { let (p, q) = (self.cst(p & y, w), self.cst(q & y, w)); return self.ite(n.a, p, q); } }
            // split the mask into runs
            if let Some(e) = self.mask_runs(a, y, true) { return e; }
            return self.mk(Op::And, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(0, w); }
        if w == 1 {
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
            if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
        } else {
            for (n, o) in [(na, b), (nb, a)] {
                if n.op == Op::Ite {
                    let (x, y) = (self.is_const(n.b), self.is_const(n.c));
                    if x == Some(ones(w)) && y == Some(0) { let z = n.c; return self.ite(n.a, o, z); }
                    if y == Some(ones(w)) && x == Some(0) { let z = n.b; return self.ite(n.a, z, o); }
                }
            }
            if let Some(e) = self.bitwise_segs(Op::And, a, b) { return e; }
        }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    fn mask_runs(&mut self, a: Id, y: u128, and: bool) -> Option<Id> {
        let w = self.w(a);
        let mut runs = vec![]; // (bit, hi, lo) from high to low
        let mut hi = w;
        while hi > 0 {
            let bit = (y >> (hi - 1)) & 1;
            let mut lo = hi - 1;
            while lo > 0 && (y >> (lo - 1)) & 1 == bit { lo -= 1; }
            runs.push((bit == 1, hi - 1, lo));
            hi = lo;
        }
        if runs.len() > 5 && self.n(a).op != Op::Concat { return None; }
        let mut acc: Option<Id> = None;
        for (bit, h, l) in runs.into_iter().rev() {
            let p = if bit == and { self.extract(a, h, l) } else if and { self.cst(0, h - l + 1) } else { self.cst(u128::MAX, h - l + 1) };
            acc = Some(match acc { None => p, Some(x) => self.concat(p, x) });
        }
        acc
    }
    pub fn or(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b { return a; }
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x | y, w); }
            if y == 0 { return a; }
            if y == ones(w) { return b; }
            let n = self.n(a);
            if n.op == Op::Ite { if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) { let (p, q) = (self.cst(p | y, w), self.cst(q | y, w)); return self.ite(n.a, p, q); } }
            if let Some(e) = self.mask_runs(a, y, false) { return e; }
            return self.mk(Op::Or, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(u128::MAX, w); }
        if w == 1 {
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
            if na.op == Op::And && (na.a == b || na.b == b) { return b; }
            // (c & x) | (!c & x)  -> x
            if na.op == Op::And && nb.op == Op::And {
                for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                    for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                        if q == s && (self.not(p) == r) { return q; }
                    }
                }
            }
            // c | (!c & x) -> c | x
            for (x, n) in [(a, nb), (b, na)] {
                if n.op == Op::And {
                    let nx = self.not(x);
                    if n.a == nx { return self.or(x, n.b); }
                    if n.b == nx { return self.or(x, n.a); }
                }
            }
        } else if let Some(e) = self.bitwise_segs(Op::Or, a, b) { return e; }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if let Some(y) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return self.cst(x ^ y, w); }
            if y == 0 { return a; }
            if y == ones(w) { return self.not(a); }
            let n = self.n(a);
            if n.op == Op::Xor { if let Some(k) = self.is_const(n.b) { let k = self.cst(k ^ y, w); return self.xor(n.a, k); } }
            if n.op == Op::Not { let k = self.cst(!y, w); return self.xor(n.a, k); }
            if n.op == Op::Ite { if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) { let (p, q) = (self.cst(p ^ y, w), self.cst(q ^ y, w)); return self.ite(n.a, p, q); } }
            if n.op == Op::Concat { if let Some(e) = self.bitwise_segs(Op::Xor, a, b) { return e; } }
            return self.mk(Op::Xor, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if w > 1 && na.op == Op::And && nb.op == Op::And && self.and_disjoint(&na, &nb) { return self.or(a, b); }
        if na.op == Op::Not && nb.op == Op::Not { return self.xor(na.a, nb.a); }
        if na.op == Op::Not { let x = self.xor(na.a, b); return self.not(x); }
        if nb.op == Op::Not { let x = self.xor(a, nb.a); return self.not(x); }
        if na.op == Op::Xor && na.a == b { return na.b; }
        if na.op == Op::Xor && na.b == b { return na.a; }
        if nb.op == Op::Xor && nb.a == a { return nb.b; }
        if nb.op == Op::Xor && nb.b == a { return nb.a; }
        // constants outermost
        if na.op == Op::Xor && self.is_const(na.b).is_some() { let x = self.xor(na.a, b); return self.xor(x, na.b); }
        if nb.op == Op::Xor && self.is_const(nb.b).is_some() { let x = self.xor(a, nb.a); return self.xor(x, nb.b); }
        if w > 1 { if let Some(e) = self.bitwise_segs(Op::Xor, a, b) { return e; } }
        if a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // merge with first segment of b
        let (first, rest) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let nf = self.n(first);
        let merged = if na.op == Op::Const && nf.op == Op::Const && na.w + nf.w <= 128 {
            Some(self.cst(na.cval() << nf.w | nf.cval(), na.w + nf.w))
        } else if na.op == Op::Extract && nf.op == Op::Extract && na.a == nf.a && na.c == nf.c + nf.w {
            Some(self.extract(na.a, na.c + na.w - 1, nf.c))
        } else if na.op == Op::Ite && nf.op == Op::Ite && na.a == nf.a && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) && (self.is_const(nf.b).is_some() || self.is_const(nf.c).is_some()) && na.w > 1 && nf.w > 1 {
            let x = self.concat(na.b, nf.b);
            let y = self.concat(na.c, nf.c);
            Some(self.ite(na.a, x, y))
        } else if na.op == nf.op && matches!(na.op, Op::Xor | Op::And | Op::Or) {
            // recombine bytewise operations on adjacent slices of the same words
            let adj = |s: &Self, x: Id, y: Id| { let (p, q) = (s.n(x), s.n(y)); (p.op == Op::Extract && q.op == Op::Extract && p.a == q.a && p.c == q.c + q.w) || (p.op == Op::Const && q.op == Op::Const && p.w + q.w <= 128) };
            let mut r = None;
            for (p, q) in [(nf.a, nf.b), (nf.b, nf.a)] {
                if adj(self, na.a, p) && adj(self, na.b, q) {
                    let x = self.concat(na.a, p);
                    let y = self.concat(na.b, q);
                    r = Some(match na.op { Op::Xor => self.xor(x, y), Op::And => self.and(x, y), _ => self.or(x, y) });
                    break;
                }
            }
            match r { Some(e) if self.n(e).op != Op::Concat => Some(e), _ => None }
        } else { None };
        if let Some(m) = merged {
            return match rest { None => m, Some(r) => self.concat(m, r) };
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        let z = self.cst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n(a);
        if n.w == w { return a; }
        if let Some(k) = self.is_const(a) { return self.cst(sext(k, n.w) as u128, w); }
        if n.w == 1 { let (o, z) = (self.cst(u128::MAX, w), self.cst(0, w)); return self.ite(a, o, z); }
        if self.nonneg(a) { return self.zext(a, w); }
        if n.op == Op::Ite { if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) { let (p, q) = (self.cst(sext(p, n.w) as u128, w), self.cst(sext(q, n.w) as u128, w)); return self.ite(n.a, p, q); } }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, e: Id, hi: u32, lo: u32) -> Id {
        let n = self.n(e);
        debug_assert!(hi < n.w && lo <= hi);
        if lo == 0 && hi + 1 == n.w { return e; }
        let w = hi - lo + 1;
        match n.op {
            Op::Const => { let v = n.cval() >> lo; return self.cst(v, w); }
            Op::Extract => return self.extract(n.a, hi + n.c, lo + n.c),
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw { return self.extract(n.b, hi, lo); }
                if lo >= lw { return self.extract(n.a, hi - lw, lo - lw); }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let simp = |s: &Self, x: Id| matches!(s.n(x).op, Op::Const | Op::Concat);
                if simp(self, n.a) || simp(self, n.b) {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
                }
            }
            Op::Not => {
                let x = self.extract(n.a, hi, lo);
                return self.not(x);
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if hi < aw { return self.extract(n.a, hi, lo); }
                if lo < aw { let x = self.extract(n.a, aw - 1, lo); return self.sext(x, w); }
                let s = self.extract(n.a, aw - 1, aw - 1);
                return self.sext(s, w);
            }
            Op::Ite => {
                let simp = |s: &Self, x: Id| matches!(s.n(x).op, Op::Const | Op::Concat);
                if simp(self, n.b) && simp(self, n.c) || self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if n.w <= 128 {
            let r = self.range[e as usize];
            if lo < 128 && (r.0 >> lo) == (r.1 >> lo) { return self.cst(r.0 >> lo, w); }
        }
        self.mk(Op::Extract, w, e, 0, lo, 0)
    }
    pub fn shl(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(s) {
            if k >= w as u128 { return self.cst(0, w); }
            let k = k as u32;
            if k == 0 { return a; }
            let x = self.extract(a, w - 1 - k, 0);
            let z = self.cst(0, k);
            return self.concat(x, z);
        }
        if self.is_const(a) == Some(0) { return a; }
        self.mk(Op::Shl, w, a, s, 0, 0)
    }
    pub fn lshr(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(s) {
            if k >= w as u128 { return self.cst(0, w); }
            let k = k as u32;
            if k == 0 { return a; }
            let x = self.extract(a, w - 1, k);
            return self.zext(x, w);
        }
        if self.is_const(a) == Some(0) { return a; }
        self.mk(Op::LShr, w, a, s, 0, 0)
    }
    pub fn ashr(&mut self, a: Id, s: Id) -> Id {
        let w = self.w(a);
        if let Some(k) = self.is_const(s) {
            let k = k.min(w as u128 - 1) as u32;
            if k == 0 { return a; }
            let x = self.extract(a, w - 1, k);
            return self.sext(x, w);
        }
        if self.nonneg(a) { return self.lshr(a, s); }
        self.mk(Op::AShr, w, a, s, 0, 0)
    }
    pub fn eq(&mut self, mut a: Id, mut b: Id) -> Id {
        if a == b { return self.t; }
        let w = self.w(a);
        if self.is_const(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if w == 1 {
            if let Some(k) = self.is_const(b) { return if k == 1 { a } else { self.not(a) }; }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if w <= 128 && (ra.1 < rb.0 || rb.1 < ra.0) { return self.f; }
        if let Some(k) = self.is_const(b) {
            if let Some(x) = self.is_const(a) { return if x == k { self.t } else { self.f }; }
            match na.op {
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hk = self.cst(k >> lw, w - lw);
                    let lk = self.cst(k, lw);
                    let h = self.eq(na.a, hk);
                    if h == self.f { return h; }
                    let l = self.eq(na.b, lk);
                    return self.and(h, l);
                }
                Op::Add => if let Some(c) = self.is_const(na.b) { let k = self.cst(k.wrapping_sub(c), w); return self.eq(na.a, k); },
                Op::Xor => {
                    if let Some(c) = self.is_const(na.b) { let k = self.cst(k ^ c, w); return self.eq(na.a, k); }
                    if k == 0 { return self.eq(na.a, na.b); }
                }
                Op::Sub => {
                    if k == 0 { return self.eq(na.a, na.b); }
                    if let Some(c) = self.is_const(na.a) { let k = self.cst(c.wrapping_sub(k), w); return self.eq(na.b, k); }
                }
                Op::Not => { let k = self.cst(!k, w); return self.eq(na.a, k); }
                Op::Or if k == 0 => { let x = self.eq(na.a, b); let y = self.eq(na.b, b); return self.and(x, y); }
                Op::Ite => {
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::SExt => {
                    let aw = self.w(na.a);
                    if sext(k, w) == sext(mask(k, aw), aw) || (w == 128 && k as i128 == sext(mask(k, aw), aw)) {
                        let k = self.cst(k, aw);
                        return self.eq(na.a, k);
                    } else { return self.f; }
                }
                Op::Select => {
                    let t = &self.tables[na.a as usize];
                    if !t.data.contains(&k) { return self.f; }
                }
                _ => {}
            }
        } else if na.op == Op::Concat && nb.op == Op::Concat {
            let (lw, lw2) = (self.w(na.b), self.w(nb.b));
            if lw == lw2 {
                let h = self.eq(na.a, nb.a);
                if h == self.f { return h; }
                let l = self.eq(na.b, nb.b);
                return self.and(h, l);
            } else if self.is_const(na.a).is_some() || self.is_const(nb.a).is_some() {
                let lo = lw.max(lw2);
                let (x, y) = (self.extract(a, w - 1, lo), self.extract(b, w - 1, lo));
                let h = self.eq(x, y);
                if h == self.f { return h; }
                let (x, y) = (self.extract(a, lo - 1, 0), self.extract(b, lo - 1, 0));
                let l = self.eq(x, y);
                return self.and(h, l);
            }
        } else {
            // x ^ y == x
            for (p, q) in [(na, b), (nb, a)] {
                if p.op == Op::Xor && (p.a == q || p.b == q) { let z = self.cst(0, w); return self.eq(if p.a == q { p.b } else { p.a }, z); }
            }
            if na.op == Op::Xor && nb.op == Op::Xor {
                // cancel common terms of the two sides
                let (mut todo, mut leaves, mut k, mut n) = (vec![a, b], std::collections::BTreeSet::new(), 0u128, 0);
                while let Some(x) = todo.pop() {
                    let nx = self.n(x);
                    n += 1;
                    if n > 600 { break; }
                    match nx.op {
                        Op::Xor => { todo.push(nx.a); todo.push(nx.b); }
                        Op::Not => { k ^= ones(w); todo.push(nx.a); }
                        Op::Const => k ^= nx.cval(),
                        _ => if !leaves.remove(&x) { leaves.insert(x); },
                    }
                }
                if n <= 600 && leaves.len() <= 2 && w <= 128 {
                    let kc = self.cst(k, w);
                    let v: Vec<Id> = leaves.into_iter().collect();
                    return match v.len() {
                        0 => if k == 0 { self.t } else { self.f },
                        1 => self.eq(v[0], kc),
                        _ => { let y = self.xor(v[1], kc); if self.n(y).op == Op::Xor { let (l, r) = (v[0].min(y), v[0].max(y)); self.mk(Op::Eq, 1, l, r, 0, 0) } else { self.eq(v[0], y) } }
                    };
                }
            }
            // x + c == x
            if na.op == Op::Add && na.a == b && self.is_const(na.b).is_some() { return self.f; }
            if nb.op == Op::Add && nb.a == a && self.is_const(nb.b).is_some() { return self.f; }
            if na.op == Op::Add && nb.op == Op::Add {
                if let (Some(x), Some(y)) = (self.is_const(na.b), self.is_const(nb.b)) {
                    if na.a == nb.a { return if x == y { self.t } else { self.f }; }
                    let k = self.cst(x.wrapping_sub(y), w);
                    let l = self.add(na.a, k);
                    let (mut l, mut r) = (l, nb.a);
                    if l > r { std::mem::swap(&mut l, &mut r); }
                    return self.mk(Op::Eq, 1, l, r, 0, 0);
                }
            }
        }
        if self.is_const(b).is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.f; }
        let w = self.w(a);
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if w <= 128 {
            if ra.1 < rb.0 { return self.t; }
            if ra.0 >= rb.1 { return self.f; }
        }
        if let Some(k) = self.is_const(b) {
            if k == 1 { let z = self.cst(0, w); return self.eq(a, z); }
            if k == ones(w) { let e = self.eq(a, b); return self.not(e); }
        }
        if let Some(k) = self.is_const(a) {
            if k == 0 { let e = self.eq(b, a); return self.not(e); }
        }
        // x + k < x is overflow; x < x + k its absence
        if w <= 128 {
            for (x, y, less) in [(a, b, false), (b, a, true)] {
                let (op, p, q) = { let n = self.n(x); (n.op, n.a, n.b) };
                if op == Op::Add {
                    let k = if p == y { self.is_const(q) } else if q == y { self.is_const(p) } else { None };
                    if let Some(k) = k {
                        if k != 0 {
                            let m = self.cst(mask(u128::MAX, w) - k, w);
                            let o = self.ult(m, y);
                            return if less { self.not(o) } else { o };
                        }
                    }
                }
            }
        }
        // strip common known-zero high bits
        if w <= 128 {
            let m = ra.1.max(rb.1);
            let nw = (128 - m.leading_zeros()).max(1);
            if nw < w && (self.n(a).op == Op::Concat || self.is_const(a).is_some()) && (self.n(b).op == Op::Concat || self.is_const(b).is_some()) {
                let (x, y) = (self.extract(a, nw - 1, 0), self.extract(b, nw - 1, 0));
                return self.ult(x, y);
            }
        }
        let n = self.n(a);
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() && self.is_const(b).is_some() {
            let (x, y) = (self.ult(n.b, b), self.ult(n.c, b));
            return self.ite(n.a, x, y);
        }
        let n = self.n(b);
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() && self.is_const(a).is_some() {
            let (x, y) = (self.ult(a, n.b), self.ult(a, n.c));
            return self.ite(n.a, x, y);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.t; }
        let w = self.w(a);
        if w == 1 { let na = self.not(a); return self.or(na, b); }
        // normalise to ult with constants
        if let Some(k) = self.is_const(b) {
            if k == ones(w) { return self.t; }
            let k = self.cst(k + 1, w);
            return self.ult(a, k);
        }
        if let Some(k) = self.is_const(a) {
            if k == 0 { return self.t; }
            let k = self.cst(k - 1, w);
            return self.ult(k, b);
        }
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if w <= 128 {
            if ra.1 <= rb.0 { return self.t; }
            if ra.0 > rb.1 { return self.f; }
        }
        self.mk(Op::Ule, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.f; }
        let w = self.w(a);
        if w == 1 { let nb = self.not(b); return self.and(a, nb); }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return if sext(x, w) < sext(y, w) { self.t } else { self.f }; }
        if self.is_const(b) == Some(0) { return self.extract(a, w - 1, w - 1); }
        if self.is_const(a) == Some(ones(w)) { let s = self.extract(b, w - 1, w - 1); return self.not(s); }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        if a == b { return self.t; }
        let w = self.w(a);
        if w == 1 { let nb = self.not(b); return self.or(a, nb); }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return if sext(x, w) <= sext(y, w) { self.t } else { self.f }; }
        if let Some(k) = self.is_const(b) {
            if k == ones(w) >> 1 { return self.t; }
            let k = self.cst(k.wrapping_add(1), w);
            return self.slt(a, k);
        }
        if let Some(k) = self.is_const(a) {
            if k == 1u128 << (w - 1) { return self.t; }
            let k = self.cst(k.wrapping_sub(1), w);
            return self.slt(k, b);
        }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b); }
        self.mk(Op::Sle, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b { return a; }
        if let Some(k) = self.is_const(c) { return if k == 1 { a } else { b }; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.is_const(a), self.is_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::Ite && na.c == b { let cc = self.and(c, na.a); return self.ite(cc, na.b, b); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        // same-shape concats: select per segment if a segment is shared
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && (na.a == nb.a || na.b == nb.b) {
            let h = self.ite(c, na.a, nb.a);
            let l = self.ite(c, na.b, nb.b);
            return self.concat(h, l);
        }
        if w > 1 && na.op == Op::Concat && nb.op == Op::Const && self.is_const(na.a) == Some(0) {
            let lw = self.w(na.b);
            if w <= 128 && nb.cval() >> lw == 0 { let k = self.cst(nb.cval(), lw); let l = self.ite(c, na.b, k); return self.zext(l, w); }
        }
        if w > 1 && nb.op == Op::Concat && na.op == Op::Const && self.is_const(nb.a) == Some(0) {
            let lw = self.w(nb.b);
            if w <= 128 && na.cval() >> lw == 0 { let k = self.cst(na.cval(), lw); let l = self.ite(c, k, nb.b); return self.zext(l, w); }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// Rebuild a node with new arguments (used by sweeping).
    pub fn rebuild(&mut self, n: &Node, a: &[Id]) -> Id {
        match n.op {
            Op::Const => { let v = n.cval(); self.cst(v, n.w) }
            Op::Var => self.mk(Op::Var, n.w, n.a, 0, 0, 0),
            Op::Not => self.not(a[0]),
            Op::Add => self.add(a[0], a[1]),
            Op::Sub => self.sub(a[0], a[1]),
            Op::Mul => self.mul(a[0], a[1]),
            Op::UDiv => self.udiv(a[0], a[1]),
            Op::URem => self.urem(a[0], a[1]),
            Op::SDiv => self.sdiv(a[0], a[1]),
            Op::SRem => self.srem(a[0], a[1]),
            Op::And => self.and(a[0], a[1]),
            Op::Or => self.or(a[0], a[1]),
            Op::Xor => self.xor(a[0], a[1]),
            Op::Shl => self.shl(a[0], a[1]),
            Op::LShr => self.lshr(a[0], a[1]),
            Op::AShr => self.ashr(a[0], a[1]),
            Op::Concat => self.concat(a[0], a[1]),
            Op::Extract => self.extract(a[0], n.c + n.w - 1, n.c),
            Op::SExt => self.sext(a[0], n.w),
            Op::Eq => self.eq(a[0], a[1]),
            Op::Ult => self.ult(a[0], a[1]),
            Op::Ule => self.ule(a[0], a[1]),
            Op::Slt => self.slt(a[0], a[1]),
            Op::Sle => self.sle(a[0], a[1]),
            Op::Ite => self.ite(a[0], a[1], a[2]),
            Op::Select => self.select(n.a, a[0]),
            Op::Uf => if n.d == 1 { self.uf(n.a, n.w, a[0], None) } else { self.uf(n.a, n.w, a[0], Some(a[1])) },
        }
    }

    /// Value of one node given argument values.
    pub fn apply(&self, n: &Node, v: [u128; 3]) -> u128 {
        let w = n.w;
        let aw = |i: usize| self.w(n.args().0[i]);
        match n.op {
            Op::Const => n.cval(),
            Op::Var => 0,
            Op::Not => mask(!v[0], w),
            Op::Add => mask(v[0].wrapping_add(v[1]), w),
            Op::Sub => mask(v[0].wrapping_sub(v[1]), w),
            Op::Mul => mask(v[0].wrapping_mul(v[1]), w),
            Op::UDiv => if v[1] == 0 { ones(w) } else { v[0] / v[1] },
            Op::URem => if v[1] == 0 { v[0] } else { v[0] % v[1] },
            Op::SDiv => { let (x, y) = (sext(v[0], w), sext(v[1], w)); if y == 0 { if x < 0 { 1 } else { ones(w) } } else { mask(x.wrapping_div(y) as u128, w) } }
            Op::SRem => { let (x, y) = (sext(v[0], w), sext(v[1], w)); if y == 0 { v[0] } else { mask(x.wrapping_rem(y) as u128, w) } }
            Op::And => v[0] & v[1],
            Op::Or => v[0] | v[1],
            Op::Xor => v[0] ^ v[1],
            Op::Shl => if v[1] >= w as u128 { 0 } else { mask(v[0] << v[1], w) },
            Op::LShr => if v[1] >= w as u128 { 0 } else { v[0] >> v[1] },
            Op::AShr => { let s = v[1].min(w as u128 - 1) as u32; mask((sext(v[0], w) >> s) as u128, w) }
            Op::Concat => { let lw = aw(1); if lw >= 128 { v[1] } else { (v[0] << lw) | v[1] } }
            Op::Extract => if n.c >= 128 { 0 } else { mask(v[0] >> n.c, w) },
            Op::SExt => mask(sext(v[0], aw(0)) as u128, w),
            Op::Eq => (v[0] == v[1]) as u128,
            Op::Ult => (v[0] < v[1]) as u128,
            Op::Ule => (v[0] <= v[1]) as u128,
            Op::Slt => { let k = aw(0); (sext(v[0], k) < sext(v[1], k)) as u128 }
            Op::Sle => { let k = aw(0); (sext(v[0], k) <= sext(v[1], k)) as u128 }
            Op::Ite => if v[0] == 1 { v[1] } else { v[2] },
            Op::Select => { let t = &self.tables[n.a as usize]; t.data[(v[0] as usize).min(t.data.len() - 1)] }
            Op::Uf => {
                let mut h = 0xcbf29ce484222325u128 ^ ((n.a as u128) << 64) ^ v[0].wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
                h ^= v[1].wrapping_mul(0xC2B2AE3D27D4EB4F165667B19E3779F9);
                h ^= h >> 61;
                h = h.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
                h ^= h >> 67;
                mask(h, w)
            }
        }
    }

    pub fn eval(&self, m: &mut Model, e: Id) -> u128 {
        if let Some(v) = self.is_const(e) { return v; }
        if let Some(v) = m.memo.get(&e) { return *v; }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if m.memo.contains_key(&x) { st.pop(); continue; }
            let n = self.nodes[x as usize];
            let v = match n.op {
                Op::Const => n.cval(),
                Op::Var => mask(*m.vals.get(&n.a).unwrap_or(&0), n.w),
                _ => {
                    let (a, k) = n.args();
                    let mut v = [0u128; 3];
                    let mut ok = true;
                    for i in 0..k {
                        if let Some(c) = self.is_const(a[i]) { v[i] = c; }
                        else if let Some(y) = m.memo.get(&a[i]) { v[i] = *y; } else { st.push(a[i]); ok = false; }
                    }
                    if !ok { continue; }
                    self.apply(&n, v)
                }
            };
            m.memo.insert(x, v);
            st.pop();
        }
        m.memo[&e]
    }

    /// Whether every variable an expression depends on is among these; stops at the first that is not.
    pub fn within(&self, e: Id, vars: &HashMap<u32, u128>) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = self.n(x);
            if n.op == Op::Var { if !vars.contains_key(&n.a) { return false; } continue; }
            if let Some(s) = self.supp.get(&x) { if s.iter().any(|v| !vars.contains_key(v)) { return false; } continue; }
            let (a, k) = n.args();
            for i in 0..k { st.push(a[i]); }
        }
        true
    }
    /// Variables an expression depends on.
    pub fn support(&mut self, e: Id) -> Rc<Vec<u32>> {
        if let Some(s) = self.supp.get(&e) { return s.clone(); }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            let n = self.n(x);
            if n.op == Op::Var { out.push(n.a); continue; }
            if x != e { if let Some(s) = self.supp.get(&x) { out.extend(s.iter()); continue; } }
            let (a, k) = n.args();
            for i in 0..k { st.push(a[i]); }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.supp.insert(e, r.clone());
        r
    }
    pub fn cone(&self, roots: &[Id]) -> Vec<Id> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Id> = roots.to_vec();
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            out.push(x);
            let (a, k) = self.n(x).args();
            for i in 0..k { st.push(a[i]); }
        }
        out.sort_unstable();
        out
    }

    pub fn cone_cut(&self, roots: &[Id], cut: &std::collections::HashSet<Id>) -> Vec<Id> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Id> = roots.to_vec();
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            out.push(x);
            if cut.contains(&x) { continue; }
            let (a, k) = self.n(x).args();
            for i in 0..k { st.push(a[i]); }
        }
        out.sort_unstable();
        out
    }

    pub fn show(&self, e: Id, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.cval(), n.w),
            Op::Var => self.vars[n.a as usize].0.clone(),
            _ => {
                if depth == 0 { return format!("n{}", e); }
                let (a, k) = n.args();
                let s: Vec<String> = (0..k).map(|i| self.show(a[i], depth - 1)).collect();
                match n.op {
                    Op::Extract => format!("{}[{}:{}]", s[0], n.c + n.w - 1, n.c),
                    Op::Select => format!("T{}[{}]", n.a, s[0]),
                    _ => format!("({:?} {})", n.op, s.join(" ")),
                }
            }
        }
    }
}
