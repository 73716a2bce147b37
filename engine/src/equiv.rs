//! Equivalence of expression pairs: direct query, random simulation, then SAT sweeping (merging internal nodes
//! bottom-up with small queries over cuts), then a final query on the reduced expressions.
use crate::exec::Exec;
use crate::expr::*;
use crate::solver::Answer;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub enum Res { Equal, Differ(HashMap<u32, u128>), Unknown(String) }

pub struct Opts { pub patterns: usize, pub local_ms: u64, pub final_ms: u64, pub max_local: usize }
impl Default for Opts { fn default() -> Self { Opts { patterns: 40, local_ms: 1500, final_ms: 60000, max_local: 4000 } } }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
}

struct Sim { pats: Vec<HashMap<u32, u128>>, memo: Fm<Id, Rc<Vec<u128>>> }
impl Sim {
    /// fingerprint of the simulated values (only used to propose candidates)
    fn sig(&mut self, c: &Ctx, e: Id) -> u128 {
        let v = self.get(c, e);
        let (mut h, mut g) = (0x9E3779B97F4A7C15u64, 0xC2B2AE3D27D4EB4Fu64);
        for x in v.iter() {
            h = (h ^ *x as u64).wrapping_mul(0xff51afd7ed558ccd).rotate_left(29);
            g = (g ^ (*x >> 64) as u64 ^ h).wrapping_mul(0xc4ceb9fe1a85ec53).rotate_left(31);
        }
        (h as u128) << 64 | g as u128
    }
    fn get(&mut self, c: &Ctx, e: Id) -> Rc<Vec<u128>> {
        if let Some(v) = self.memo.get(&e) { return v.clone(); }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.memo.contains_key(&x) { st.pop(); continue; }
            let n = c.n(x);
            let (a, k) = n.args();
            let mut ok = true;
            for i in 0..k { if !self.memo.contains_key(&a[i]) { st.push(a[i]); ok = false; } }
            if !ok { continue; }
            let np = self.pats.len();
            let mut v = Vec::with_capacity(np);
            match n.op {
                Op::Const => v = vec![n.cval(); np],
                Op::Var => for p in &self.pats { v.push(crate::ir::mask(*p.get(&n.a).unwrap_or(&0), n.w)); },
                _ => {
                    let ar: Vec<Rc<Vec<u128>>> = (0..k).map(|i| self.memo[&a[i]].clone()).collect();
                    for j in 0..np {
                        let mut w = [0u128; 3];
                        for i in 0..k { w[i] = ar[i][j]; }
                        v.push(c.apply(&n, w));
                    }
                }
            }
            self.memo.insert(x, Rc::new(v));
            st.pop();
        }
        self.memo[&e].clone()
    }
}

type Fm<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
type Lin = Rc<(Vec<(Id, u128)>, u128)>;

pub fn prove(x: &mut Exec, pre: &[Id], pairs: &[(Id, Id)], name: &str) -> Res {
    let mut pairs: Vec<(Id, Id)> = pairs.iter().copied().filter(|(a, b)| a != b).collect();
    pairs.dedup();
    if pairs.is_empty() { return Res::Equal; }
    let roots: Vec<Id> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let cone = x.c.cone(&roots);
    let vars: Vec<u32> = cone.iter().filter(|e| x.c.n(**e).op == Op::Var).map(|e| x.c.n(*e).a).collect();
    let vset: HashSet<u32> = vars.iter().copied().collect();
    // path condition restricted to conjuncts connected with these variables
    let pre: Vec<Id> = {
        let mut vs = vset.clone();
        let mut rest: Vec<Id> = pre.to_vec();
        let mut out = vec![];
        loop {
            let mut ch = false;
            let mut keep = vec![];
            for e in rest { let s = x.c.support(e); if s.iter().any(|v| vs.contains(v)) { vs.extend(s.iter()); out.push(e); ch = true; } else { keep.push(e); } }
            rest = keep;
            if !ch { break; }
        }
        out
    };
    // 1. simulation
    let mut rng = Rng(0x9E3779B97F4A7C15 ^ (cone.len() as u64));
    let np = x.sweep.patterns;
    let mut base: Option<HashMap<u32, u128>> = None;
    let mut pvars: HashSet<u32> = HashSet::new();
    for e in &pre { pvars.extend(x.c.support(*e).iter()); }
    let mut pats: Vec<HashMap<u32, u128>> = vec![];
    let mut tries = 0;
    while pats.len() < np && tries < 4 * np {
        let mut m: HashMap<u32, u128> = HashMap::new();
        for v in vars.iter().chain(pvars.iter()) {
            let w = x.c.vars[*v as usize].1;
            let r = (rng.next() as u128) | (rng.next() as u128) << 64;
            let k = rng.next() % 16;
            let val = match (tries, k) { (0, _) => 0, (1, _) => u128::MAX, (_, 0) => 0, (_, 1) => u128::MAX, _ => r };
            m.insert(*v, crate::ir::mask(val, w));
        }
        tries += 1;
        if !pre.is_empty() {
            let mut md = Model::new(m.clone());
            if !pre.iter().all(|e| x.c.eval(&mut md, *e) == 1) {
                if base.is_none() {
                    match x.s.check(&x.c, &pre) {
                        Answer::Sat(b) => base = Some(b),
                        Answer::Unsat => return Res::Equal,
                        Answer::Unknown(e) => return Res::Unknown(format!("path condition: {}", e)),
                    }
                }
                for v in &pvars { if let Some(k) = base.as_ref().unwrap().get(v) { m.insert(*v, *k); } }
                let mut md = Model::new(m.clone());
                if !pre.iter().all(|e| x.c.eval(&mut md, *e) == 1) { continue; }
            }
        }
        pats.push(m);
    }
    let mut sim = Sim { pats, memo: Default::default() };
    for (a, b) in &pairs {
        let (u, v) = (sim.get(&x.c, *a), sim.get(&x.c, *b));
        for j in 0..u.len() { if u[j] != v[j] { return Res::Differ(sim.pats[j].clone()); } }
    }
    // 2a. GF(2) normal form (decides XOR-heavy code outright, up to the equality of its non-XOR parts)
    let before = pairs.len();
    let mut alias: HashMap<Id, Id> = HashMap::new();
    let strip = |c: &Ctx, mut e: Id| { loop { let n = c.n(e); match n.op { Op::Concat => e = n.b, Op::Extract => e = n.a, _ => return n.op } } };
    let bitwise = pairs.iter().all(|(a, b)| [*a, *b].iter().all(|e| matches!(strip(&x.c, *e), Op::Xor | Op::Ite | Op::And | Op::Or)));
    if bitwise { match gf2(x, &pre, &mut sim, &mut alias, &pairs, 60_000_000, name) {
        Gf::Open(l) => pairs = l,
        Gf::TooBig => {}
    } }
    if pairs.is_empty() {
        x.sweep_log.push(format!("{}: {} pairs equal by GF(2) normal form, {} sub-terms matched", name, before, alias.len()));
        return Res::Equal;
    }
    // 2. direct query when small
    let t0 = std::time::Instant::now();
    if cone.len() <= 1500 {
        let mut open = vec![];
        for (a, b) in &pairs {
            let e = x.c.eq(*a, *b);
            let ne = x.c.not(e);
            let mut q = pre.clone();
            q.push(ne);
            match x.s.check_t(&x.c, &q, 400, 0) {
                Answer::Unsat => {}
                Answer::Sat(m) => return Res::Differ(m),
                Answer::Unknown(_) => { open.push((*a, *b)); if open.len() > 1 { open = pairs.clone(); break; } }
            }
        }
        if open.is_empty() { return Res::Equal; }
        pairs = open;
    }
    // 3. sweeping
    let q0 = x.s.queries;
    let mut rep: Fm<Id, Id> = Default::default();
    let mut classes: Fm<(u32, u128), Vec<Id>> = Default::default();
    let mut lins: Fm<Id, Lin> = Default::default();
    let mut lin_rep: HashMap<(u32, Lin), Id> = HashMap::new();
    let mut tried: HashSet<(Id, Id)> = HashSet::new();
    let mut joined: HashSet<Id> = HashSet::new();
    let mut hits = 0usize;
    let mut fails = 0usize;
    let roots: Vec<Id> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
    let cone = x.c.cone(&roots);
    for &e in &cone {
        if let Some(d) = x.deadline { if std::time::Instant::now() > d { return Res::Unknown("time budget exhausted while sweeping".into()); } }
        let n = x.c.n(e);
        if n.op == Op::Const || n.op == Op::Var { rep.insert(e, e); if n.op == Op::Var { let s = sim.sig(&x.c, e); classes.entry((n.w, s)).or_default().push(e); } continue; }
        let (a, k) = n.args();
        let ar: Vec<Id> = (0..k).map(|i| rep[&a[i]]).collect();
        let mut r = if ar.iter().zip(a.iter()).all(|(p, q)| p == q) { e } else { x.c.rebuild(&n, &ar) };
        if let Some(q) = rep.get(&r) { r = *q; }
        if x.c.is_const(r).is_some() { rep.insert(e, r); rep.insert(r, r); continue; }
        // linear forms
        let rn = x.c.n(r);
        if matches!(rn.op, Op::Add | Op::Sub) {
            let l = lin_of(&x.c, r, &mut lins, &rep);
            if l.0.len() < 2000 {
                match lin_rep.get(&(rn.w, l.clone())) { Some(q) => { r = *q; } None => { lin_rep.insert((rn.w, l), r); } }
            }
        }
        let sig = sim.get(&x.c, r);
        let key = (n.w, sim.sig(&x.c, r));
        let cl = classes.entry(key).or_default().clone();
        if cl.contains(&r) { rep.insert(e, r); rep.insert(r, r); continue; }
        let mut merged = None;
        // constant?
        if n.w > 1 && sig.iter().all(|v| *v == sig[0]) && cl.is_empty() {
            let k = x.c.cst(sig[0], n.w);
            if local_equal(x, &pre, r, k) { merged = Some(k); }
        }
        if n.w == 1 && sig.iter().all(|v| *v == sig[0]) {
            let k = x.c.cst(sig[0], 1);
            if tried.insert((r, k)) { if local_equal(x, &pre, r, k) { merged = Some(k); } }
        } else {
            for f in cl.iter().take(4) {
                if !tried.insert((r, *f)) { continue; }
                let g = if xorish(&x.c, r) { crate::anf::equal(&x.c, r, *f, if n.w >= 64 { 60_000_000 } else { 8_000_000 }, &joined) } else { None };
                if x.trace && n.w >= 64 && !(g == Some(true)) { eprintln!("wide gf2 {:?} {:?} w{}: {} <> {}", g, n.op, n.w, x.c.show(r, 3), x.c.show(*f, 3)); }
                if g == Some(false) { continue; }
                let t1 = std::time::Instant::now();
                let ok = g == Some(true) || lin_equal(x, &pre, r, *f, &mut lins, &rep) || local_equal(x, &pre, r, *f);
                if x.trace && t1.elapsed().as_secs_f64() > 0.1 { eprintln!("slow {} {:.1}s gf2 {:?} {:?} w{}: {} <> {}", ok, t1.elapsed().as_secs_f64(), g, n.op, n.w, x.c.show(r, 2), x.c.show(*f, 2)); }
                if ok { merged = Some(*f); break; }
            }
        }
        match merged {
            Some(f) => { hits += 1; joined.insert(f); rep.insert(e, f); rep.insert(r, f); }
            None => { if !cl.is_empty() { fails += 1; } classes.get_mut(&key).unwrap().push(r); rep.insert(e, r); rep.insert(r, r); }
        }
    }
    // 4. final
    let mut left = vec![];
    for (a, b) in &pairs { let (p, q) = (rep[a], rep[b]); if p != q { left.push((p, q)); } }
    left.retain(|(p, q)| !(xorish(&x.c, *p) && crate::anf::equal(&x.c, *p, *q, 60_000_000, &joined) == Some(true)));
    let nl = left.len();
    let mut res = Res::Equal;
    for (p, q) in left {
        let e = x.c.eq(p, q);
        let ne = x.c.not(e);
        let mut qs = pre.clone();
        qs.push(ne);
        let fm = x.sweep.final_ms;
        match x.s.check_t(&x.c, &qs, fm, fm) {
            Answer::Unsat => {}
            Answer::Sat(m) => { res = Res::Differ(m); break; }
            Answer::Unknown(u) => { res = Res::Unknown(format!("{} ({} nodes, {} merged, {} failed)", u, cone.len(), hits, fails)); break; }
        }
    }
    if x.sweep_log.len() < 200 || x.trace {
        let msg = format!("{}: {} nodes, {} merged by local queries, {} candidates rejected, {} final pairs, {} queries, {:.2}s", name, cone.len(), hits, fails, nl, x.s.queries - q0, t0.elapsed().as_secs_f64());
        if x.trace { eprintln!("sweep {}", msg); }
        x.sweep_log.push(msg);
    }
    res
}

fn lin_of(c: &Ctx, e: Id, memo: &mut Fm<Id, Lin>, rep: &Fm<Id, Id>) -> Lin {
    if let Some(l) = memo.get(&e) { return l.clone(); }
    let n = c.n(e);
    let w = n.w;
    let get = |x: Id, memo: &mut Fm<Id, Lin>| -> Lin {
        let x = *rep.get(&x).unwrap_or(&x);
        if let Some(l) = memo.get(&x) { return l.clone(); }
        if let Some(k) = c.is_const(x) { return Rc::new((vec![], k)); }
        Rc::new((vec![(x, 1)], 0))
    };
    let (la, lb) = (get(n.a, memo), get(n.b, memo));
    let neg = n.op == Op::Sub;
    let mut m: std::collections::BTreeMap<Id, u128> = la.0.iter().copied().collect();
    for (a, k) in &lb.0 {
        let k = if neg { k.wrapping_neg() } else { *k };
        let v = m.entry(*a).or_insert(0);
        *v = crate::ir::mask(v.wrapping_add(k), w);
    }
    m.retain(|_, v| *v != 0);
    let k = crate::ir::mask(if neg { la.1.wrapping_sub(lb.1) } else { la.1.wrapping_add(lb.1) }, w);
    let l: Lin = Rc::new((m.into_iter().collect(), k));
    memo.insert(e, l.clone());
    l
}

/// Compare two sums by their linear difference when it is short: the shared terms disappear.
fn lin_equal(x: &mut Exec, pre: &[Id], a: Id, b: Id, lins: &mut Fm<Id, Lin>, rep: &Fm<Id, Id>) -> bool {
    let (na, nb) = (x.c.n(a), x.c.n(b));
    let is = |o: Op| matches!(o, Op::Add | Op::Sub);
    if !is(na.op) && !is(nb.op) { return false; }
    let w = na.w;
    let (la, lb) = (
        if is(na.op) { lin_of(&x.c, a, lins, rep) } else { Rc::new((vec![(a, 1)], 0)) },
        if is(nb.op) { lin_of(&x.c, b, lins, rep) } else { Rc::new((vec![(b, 1)], 0)) },
    );
    let mut m: std::collections::BTreeMap<Id, u128> = la.0.iter().copied().collect();
    for (t, k) in &lb.0 { let v = m.entry(*t).or_insert(0); *v = crate::ir::mask(v.wrapping_sub(*k), w); }
    m.retain(|_, v| *v != 0);
    if m.len() > 12 { return false; }
    let k = crate::ir::mask(la.1.wrapping_sub(lb.1), w);
    let half = 1u128 << (w - 1);
    let (mut p, mut q) = (x.c.cst(0, w), x.c.cst(0, w));
    for (t, v) in m {
        if v < half { let vc = x.c.cst(v, w); let e = x.c.mul(t, vc); p = x.c.add(p, e); }
        else { let vc = x.c.cst(v.wrapping_neg(), w); let e = x.c.mul(t, vc); q = x.c.add(q, e); }
    }
    let kc = x.c.cst(k, w);
    p = x.c.add(p, kc);
    if p == a && q == b { return false; }
    local_equal(x, pre, p, q)
}

/// Nodes within a bounded expansion of the roots; the frontier becomes the cut.
fn expand(c: &Ctx, roots: &[Id], budget: usize) -> HashSet<Id> {
    // expand in order of decreasing id (topologically latest first) so reconvergence is found early
    let mut heap: std::collections::BTreeSet<Id> = roots.iter().copied().collect();
    let mut done = 0;
    let mut cut = HashSet::new();
    let mut seen: HashSet<Id> = heap.iter().copied().collect();
    while let Some(x) = heap.pop_last() {
        let (a, k) = c.n(x).args();
        if k == 0 { continue; }
        if done >= budget && !roots.contains(&x) { cut.insert(x); continue; }
        done += 1;
        for i in 0..k { if seen.insert(a[i]) { heap.insert(a[i]); } }
    }
    cut
}

/// Cut at the topmost nodes shared by both cones.
fn common_cut(c: &Ctx, a: Id, b: Id) -> HashSet<Id> {
    let lim = 20000;
    let mut sa = HashSet::new();
    let mut st = vec![a];
    while let Some(x) = st.pop() { if !sa.insert(x) || sa.len() > lim { continue; } let (r, k) = c.n(x).args(); for i in 0..k { st.push(r[i]); } }
    let mut cut = HashSet::new();
    let mut seen = HashSet::new();
    let mut st = vec![b];
    while let Some(x) = st.pop() {
        if !seen.insert(x) { continue; }
        let (r, k) = c.n(x).args();
        if x != b && x != a && k > 0 && sa.contains(&x) { cut.insert(x); continue; }
        for i in 0..k { st.push(r[i]); }
    }
    cut
}

fn local_equal(x: &mut Exec, pre: &[Id], a: Id, b: Id) -> bool {
    let e = x.c.eq(a, b);
    if e == x.c.t { return true; }
    if e == x.c.f { return false; }
    let ne = x.c.not(e);
    let ms = x.sweep.local_ms;
    if x.c.is_const(b).is_none() {
        let cut = common_cut(&x.c, a, b);
        if !cut.is_empty() {
            let size = x.c.cone_cut(&[ne], &cut).len();
            if size <= x.sweep.max_local && x.s.unsat_cut(&x.c, &[ne], &cut, ms) { return true; }
        }
    }
    for budget in [24, 120] {
        let cut = expand(&x.c, &[a, b, ne], budget);
        if cut.is_empty() { break; }
        if x.s.unsat_cut(&x.c, &[ne], &cut, ms) { return true; }
    }
    let cone = x.c.cone(&[ne]);
    if cone.len() <= x.sweep.max_local {
        let mut q = pre.to_vec();
        q.push(ne);
        if let Answer::Unsat = x.s.check_t(&x.c, &q, ms, 0) { return true; }
    }
    false
}

enum Gf { Open(Vec<(Id, Id)>), TooBig }

/// Decide pairs by their GF(2) polynomials; returns the undecided ones.
fn gf2(x: &mut Exec, pre: &[Id], sim: &mut Sim, alias: &mut HashMap<Id, Id>, pairs: &[(Id, Id)], limit: usize, name: &str) -> Gf {
    let mut pairs: Vec<(Id, Id)> = pairs.to_vec();
    for round in 0..3 {
        let mut need: Vec<(Id, Id)> = vec![];
        let mut open = vec![];
        let total = pairs.len();
        {
            let mut f = crate::anf::Anf::new(&x.c, HashSet::new(), limit);
            f.alias = alias.clone();
            let mut left: HashSet<Id> = HashSet::new();
            let mut open_unknown = 0;
            let lin = crate::anf::affine(&x.c, alias, &pairs);
            if let Some(l) = &lin { for ((a, b), (same, d)) in pairs.iter().zip(l) { if !same { open.push((*a, *b)); left.extend(d.iter()); } } }
            for (a, b) in if lin.is_some() { &[][..] } else { &pairs[..] } {
                let r = if f.affordable() { match (f.get(*a), f.get(*b)) { (Some(p), Some(q)) => Some((p, q)), _ => None } } else { None };
                match r {
                    Some((p, q)) if p == q => {}
                    Some((p, q)) => { open.push((*a, *b)); for (u, v) in p.iter().zip(q.iter()) { f.diff_atoms(u, v, &mut left); } }
                    None => { open.push((*a, *b)); open_unknown += 1; }
                }
            }
            if !f.affordable() && open_unknown > 0 { return Gf::TooBig; }
            let mut by: HashMap<(u32, u128), Id> = HashMap::new();
            let mut l: Vec<Id> = left.into_iter().collect();
            l.sort_unstable();
            for e in l {
                if pairs.iter().any(|(a, b)| *a == e || *b == e) { continue; }
                let k = (x.c.w(e), sim.sig(&x.c, e));
                match by.get(&k) { Some(o) => need.push((*o, e)), None => { by.insert(k, e); } }
            }
        }
        pairs = open;
        if pairs.is_empty() { break; }
        if x.trace { eprintln!("anf {}: round {}, {} of {} pairs left, {} sub-terms to match", name, round, pairs.len(), total, need.len()); }
        if need.is_empty() || need.len() > 4000 { break; }
        match prove(x, pre, &need, &format!("{} (parts)", name)) { Res::Equal => for (o, e) in need { alias.insert(e, o); }, _ => break }
    }
    Gf::Open(pairs)
}

fn xorish(c: &Ctx, e: Id) -> bool { matches!(c.n(e).op, Op::Xor | Op::Ite | Op::Concat | Op::And | Op::Or | Op::Extract) }
