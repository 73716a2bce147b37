//! Symbolic executor: forking (path enumeration) and merging (ITE joins) over the linked IR.
use crate::expr::*;
use crate::ir::*;
use crate::prog::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub const CONC: Id = u32::MAX;
pub const UNDEF: Id = u32::MAX - 1;
const PG: usize = 256;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG],
    sym: Option<Box<[Id; PG]>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pages: Vec<Rc<Page>>,
    heap: bool,
    freed: bool,
    constant: bool,
}

impl Obj {
    fn zero(size: u64, z: &Rc<Page>, heap: bool) -> Obj {
        Obj { size, pages: vec![z.clone(); (size as usize + PG - 1) / PG], heap, freed: false, constant: false }
    }
    #[inline]
    fn get(&self, o: u64) -> (u8, Id) {
        let p = &self.pages[o as usize / PG];
        let k = o as usize % PG;
        (p.data[k], match &p.sym { Some(s) => s[k], None => CONC })
    }
    #[inline]
    fn set(&mut self, o: u64, b: u8, id: Id) {
        let p = Rc::make_mut(&mut self.pages[o as usize / PG]);
        let k = o as usize % PG;
        p.data[k] = b;
        match &mut p.sym {
            Some(s) => s[k] = id,
            None => if id != CONC { let mut s = Box::new([CONC; PG]); s[k] = id; p.sym = Some(s); },
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    locals: Vec<Val>,
    block: u32,
    pc: u32,
    ret: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pc: Vec<Id>,
    known: Rc<HashMap<Id, bool>>,
    pins: Rc<HashMap<Id, u128>>,
    fixed: Rc<HashMap<u32, u128>>,
    model: Option<Box<Model>>,
    arrived: bool,
    merge: u8,
    panics_ok: bool,
    occ: Rc<BTreeMap<String, u32>>,
    syms: Rc<Vec<(String, Vec<Id>)>>,
    nheap: u32,
    pub dead: bool,
    trace: Rc<Vec<String>>,
}

pub enum Ev {
    Fork(Vec<State>),
    Branch(Vec<(Id, u32)>),
    End(String),
    Violation(String, String), // kind/id, detail
    Error(String),
}
type Rz<T> = Result<T, Ev>;

#[derive(Clone, Copy)]
struct Stop { depth: usize, block: Option<u32> }

pub struct Violation {
    pub id: String,
    pub detail: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: BTreeMap<String, u64>,
    pub insts: u64,
    pub sym_insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub unmerged: u64,
    pub checks: u64,
    pub checks_syntactic: u64,
    pub checks_solver: u64,
    pub checks_sweep: u64,
    pub reach: BTreeMap<String, u64>,
    pub check_ids: BTreeMap<String, u64>,
    pub undef_reads: u64,
    pub max_depth: usize,
}

pub struct Exec {
    pub c: Ctx,
    pub s: Solver,
    pub p: Rc<Program>,
    pub st: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub called: HashSet<u32>,
    zero: Rc<Page>,
    undef: Rc<Page>,
    symvars: HashMap<String, Vec<Id>>,
    ext_kind: Vec<String>,
    pub max_viol: usize,
    pub max_paths: u64,
    pub max_insts: u64,
    pub deadline: Option<std::time::Instant>,
    pub mux_limit: u64,
    pub fork_limit: usize,
    pub trace: bool,
    linear: HashMap<Id, Id>,
    pub overrides: HashMap<u32, u32>,
    pub sweep: crate::equiv::Opts,
    pub anf_hits: u64, pub sweep_log: Vec<String>,
    nundef: u32,
    slots_floor: u32,
    seen_viol: HashSet<String>,
    pub merge_all_paths: bool,
    pub keep_going: bool,
    pub splits: HashMap<String, (u64, u64)>,
    pub max_wit: usize,
    pub witnesses: Vec<Vec<(String, Vec<u8>)>>,
    wit_seen: u64,
}

fn bin_c(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    Some(mask(match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => { if b == 0 { return None; } a / b }
        BinOp::URem => { if b == 0 { return None; } a % b }
        BinOp::SDiv => { let y = sext(b, w); if y == 0 { return None; } sext(a, w).wrapping_div(y) as u128 }
        BinOp::SRem => { let y = sext(b, w); if y == 0 { return None; } sext(a, w).wrapping_rem(y) as u128 }
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => (sext(a, w) >> b.min(w as u128 - 1).min(127)) as u128,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    }, w))
}
fn icmp_c(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b, Pred::Ne => a != b,
        Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w), Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w), Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

impl Exec {
    pub fn new(p: Rc<Program>) -> Exec {
        let zero = Rc::new(Page { data: [0; PG], sym: None });
        let undef = Rc::new(Page { data: [0; PG], sym: Some(Box::new([UNDEF; PG])) });
        let ext_kind = p.exts.iter().map(|n| classify(n)).collect();
        Exec {
            c: Ctx::new(), s: Solver::new(), p, st: Stats::default(), violations: vec![], errors: vec![], called: HashSet::new(), zero, undef,
            symvars: HashMap::new(), ext_kind, max_viol: 3, max_paths: u64::MAX, max_insts: u64::MAX, deadline: None, mux_limit: 300, fork_limit: 70000, trace: false, linear: HashMap::new(),
            overrides: HashMap::new(), sweep: Default::default(), anf_hits: 0, sweep_log: vec![], nundef: 0, slots_floor: 0, seen_viol: HashSet::new(), merge_all_paths: false, keep_going: false, splits: Default::default(), max_wit: 0, witnesses: vec![], wit_seen: 0,
        }
    }

    // ------------------------------------------------------------ top level
    pub fn run_entry(&mut self, name: &str) -> Result<(), String> {
        let p = self.p.clone();
        let fi = *p.fn_index.get(name).ok_or_else(|| format!("no harness function {}", name))?;
        let mut objs: Vec<Option<Rc<Obj>>> = vec![None; SLOT_DYN as usize];
        // globals: one object with the initial image
        let mut pages = vec![];
        for ch in p.gmem.chunks(PG) {
            let mut d = [0u8; PG];
            d[..ch.len()].copy_from_slice(ch);
            pages.push(if ch.iter().all(|x| *x == 0) { self.zero.clone() } else { Rc::new(Page { data: d, sym: None }) });
        }
        objs[SLOT_GLOB as usize] = Some(Rc::new(Obj { size: p.gmem.len() as u64, pages, heap: false, freed: false, constant: false }));
        let fr = self.frame(fi, vec![], None);
        let st = State {
            frames: vec![fr], objs, free: vec![], pc: vec![], known: Default::default(), pins: Default::default(), fixed: Default::default(),
            model: Some(Box::new(Model::new(HashMap::new()))), arrived: false, merge: 0, panics_ok: false, occ: Default::default(), syms: Default::default(), nheap: 0, dead: false,
            trace: Default::default(),
        };
        self.run(vec![st], None);
        Ok(())
    }

    fn frame(&mut self, fi: u32, args: Vec<Val>, ret: Option<u32>) -> Frame {
        self.called.insert(fi);
        let f = &self.p.funcs[fi as usize];
        let mut locals = vec![Val::Undef; f.f.nlocals as usize];
        for (i, v) in args.into_iter().enumerate() { if let Some((_, l)) = f.f.params.get(i) { locals[*l as usize] = v; } }
        Frame { func: fi, locals, block: 0, pc: 0, ret, allocas: vec![] }
    }

    fn out_of_budget(&self) -> Option<String> {
        if self.st.insts > self.max_insts { return Some("instruction budget exhausted".into()); }
        if self.st.paths > self.max_paths { return Some("path budget exhausted".into()); }
        if let Some(d) = self.deadline { if std::time::Instant::now() > d { return Some("time budget exhausted".into()); } }
        None
    }

    fn run(&mut self, init: Vec<State>, stop: Option<Stop>) -> Vec<State> {
        let mut work = init;
        let mut reached = vec![];
        'outer: while let Some(mut st) = work.pop() {
            if !self.errors.is_empty() || (self.violations.len() >= self.max_viol) { return reached; }
            if let Some(e) = self.out_of_budget() { self.errors.push(e); return reached; }
            loop {
                if st.arrived {
                    if let Some(sp) = stop {
                        if st.frames.len() == sp.depth && sp.block.map_or(true, |b| st.frames[sp.depth - 1].block == b) {
                            reached.push(st);
                            continue 'outer;
                        }
                    }
                    st.arrived = false;
                }
                match self.run_insts(&mut st) {
                    Ok(()) => {}
                    Err(Ev::Fork(ch)) => {
                        self.st.forks += ch.len() as u64 - 1;
                        work.extend(ch);
                        continue 'outer;
                    }
                    Err(Ev::Branch(targets)) => {
                        let res = self.branch_merge(st, targets);
                        work.extend(res);
                        continue 'outer;
                    }
                    Err(Ev::End(why)) => {
                        if self.max_wit > 0 && why == "returned" { self.witness(&mut st); }
                        self.st.paths += 1;
                        *self.st.ended.entry(why).or_insert(0) += 1;
                        continue 'outer;
                    }
                    Err(Ev::Violation(id, detail)) => {
                        self.report(&mut st, id, detail);
                        continue 'outer;
                    }
                    Err(Ev::Error(e)) => {
                        let w = self.stack(&st).join(" < ");
                        self.errors.push(format!("{} [in {}]", e, w));
                        return reached;
                    }
                }
            }
        }
        reached
    }

    /// keep the concrete inputs of a few completed paths (spread over the run) for native cross-validation
    fn witness(&mut self, st: &mut State) {
        self.wit_seen += 1;
        let n = self.wit_seen;
        let slot = if self.witnesses.len() < self.max_wit { self.witnesses.len() } else if n & (n - 1) == 0 { (n.trailing_zeros() as usize) % self.max_wit } else { return };
        match self.ensure_model(st) { Ok(true) => {} _ => return }
        let mut m = st.model.take().unwrap();
        let mut inputs = vec![];
        for (n, v) in st.syms.clone().iter() { inputs.push((n.clone(), v.iter().map(|e| self.c.eval(&mut m, *e) as u8).collect::<Vec<u8>>())); }
        st.model = Some(m);
        if slot < self.witnesses.len() { self.witnesses[slot] = inputs; } else { self.witnesses.push(inputs); }
    }

    fn branch_merge(&mut self, st: State, targets: Vec<(Id, u32)>) -> Vec<State> {
        let depth = st.frames.len();
        let (fi, blk) = { let f = st.frames.last().unwrap(); (f.func, f.block) };
        let stop = match self.p.funcs[fi as usize].ipdom[blk as usize] {
            Some(b) => Stop { depth, block: Some(b) },
            None => Stop { depth: depth - 1, block: None },
        };
        if stop.depth == 0 {
            // returning from the harness: no join point, explore separately
            return targets.into_iter().map(|(cond, b)| { let mut x = st.clone(); self.assume(&mut x, cond); self.jump(&mut x, b); x }).collect();
        }
        let base_pc = st.pc.len();
        let (k0, p0, f0) = (st.known.clone(), st.pins.clone(), st.fixed.clone());
        let mut res: Vec<State> = vec![];
        for (cond, b) in targets {
            let mut x = st.clone();
            self.assume(&mut x, cond);
            self.jump(&mut x, b);
            let r = self.run(vec![x], Some(stop));
            for y in &r { self.slots_floor = self.slots_floor.max(y.objs.len() as u32); }
            res.extend(r);
            if !self.errors.is_empty() || self.violations.len() >= self.max_viol { return vec![]; }
        }
        // merge pairwise
        let mut out: Vec<State> = vec![];
        for y in res {
            let mut y = Some(y);
            for o in out.iter_mut() {
                if let Some(b) = y.take() {
                    match self.try_merge(o, b, base_pc, stop, &k0, &p0, &f0) { Ok(()) => { self.st.merges += 1; } Err(b) => y = Some(*b) }
                } else { break; }
            }
            if let Some(y) = y { if !out.is_empty() { self.st.unmerged += 1; } out.push(y); }
        }
        for o in out.iter_mut() { o.arrived = true; }
        out
    }

    fn ite_val(&mut self, ty: &Ty, g: Id, a: &Val, b: &Val) -> Option<Val> {
        match (a, b) {
            (Val::Undef, x) => Some(x.clone()),
            (x, Val::Undef) => Some(x.clone()),
            (Val::C(x), Val::C(y)) if x == y => Some(Val::C(*x)),
            (Val::E(x), Val::E(y)) if x == y => Some(Val::E(*x)),
            (Val::Agg(x), Val::Agg(y)) => {
                if Rc::ptr_eq(x, y) { return Some(Val::Agg(x.clone())); }
                let mut v = vec![];
                for i in 0..x.len() {
                    let et = match ty { Ty::Struct(f, _) => f[i].clone(), Ty::Array(_, e) => (**e).clone(), _ => return None };
                    v.push(self.ite_val(&et, g, &x[i], &y[i])?);
                }
                Some(Val::Agg(Rc::new(v)))
            }
            _ => {
                let w = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, _ => return None };
                let (x, y) = (self.id(a, w), self.id(b, w));
                let r = self.c.ite(g, x, y);
                Some(self.mkv(r))
            }
        }
    }

    fn conj(&mut self, v: &[Id]) -> Id {
        let mut r = self.c.t;
        for x in v { r = self.c.and(r, *x); }
        r
    }

    fn try_merge(&mut self, a: &mut State, b: State, base_pc: usize, stop: Stop, k0: &Rc<HashMap<Id, bool>>, p0: &Rc<HashMap<Id, u128>>, f0: &Rc<HashMap<u32, u128>>) -> Result<(), Box<State>> {
        if a.frames.len() != b.frames.len() || a.merge != b.merge || a.panics_ok != b.panics_ok { return Err(Box::new(b)); }
        if a.occ != b.occ { return Err(Box::new(b)); }
        if a.pc.len() < base_pc || b.pc.len() < base_pc { return Err(Box::new(b)); }
        let ga = { let v = a.pc[base_pc..].to_vec(); self.conj(&v) };
        let gb = { let v = b.pc[base_pc..].to_vec(); self.conj(&v) };
        // guard: prefer the simpler side
        // objects
        let n = a.objs.len().max(b.objs.len());
        let mut newobjs: Vec<(usize, Option<Rc<Obj>>)> = vec![];
        for i in 0..n {
            let x = a.objs.get(i).and_then(|o| o.as_ref());
            let y = b.objs.get(i).and_then(|o| o.as_ref());
            match (x, y) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) { continue; }
                    if x.size != y.size || x.freed != y.freed || x.heap != y.heap {
                        // a freed block on one side only: keep the live one (accesses through it were checked on its own path)
                        return Err(Box::new(b));
                    }
                    let mut m = (**x).clone();
                    for pi in 0..m.pages.len() {
                        if Rc::ptr_eq(&x.pages[pi], &y.pages[pi]) { continue; }
                        let (px, py) = (x.pages[pi].clone(), y.pages[pi].clone());
                        let lim = ((x.size as usize) - pi * PG).min(PG);
                        for k in 0..lim {
                            let (dx, sx) = (px.data[k], px.sym.as_ref().map_or(CONC, |s| s[k]));
                            let (dy, sy) = (py.data[k], py.sym.as_ref().map_or(CONC, |s| s[k]));
                            if sx == sy && (sx != CONC || dx == dy) { continue; }
                            let o = (pi * PG + k) as u64;
                            if sx == UNDEF { m.set(o, dy, sy); continue; }
                            if sy == UNDEF { continue; }
                            let ix = if sx == CONC { self.c.cst(dx as u128, 8) } else { sx };
                            let iy = if sy == CONC { self.c.cst(dy as u128, 8) } else { sy };
                            let r = self.c.ite(ga, ix, iy);
                            match self.c.is_const(r) { Some(v) => m.set(o, v as u8, CONC), None => m.set(o, 0, r) }
                        }
                    }
                    newobjs.push((i, Some(Rc::new(m))));
                }
                (Some(_), None) => {}
                (None, Some(y)) => newobjs.push((i, Some(y.clone()))),
            }
        }
        // locals of the frame at the join
        let d = stop.depth;
        let fidx = a.frames[d - 1].func as usize;
        let prog = self.p.clone();
        let f = &prog.funcs[fidx];
        if a.frames[d - 1].block != b.frames[d - 1].block || a.frames[d - 1].pc != b.frames[d - 1].pc { return Err(Box::new(b)); }
        let mut newloc: Vec<(usize, Val)> = vec![];
        let cand: Vec<u32> = match stop.block {
            Some(bl) => f.live_in[bl as usize].clone(),
            None => {
                // returned to the middle of a block: everything may be live, only the call's result can differ
                (0..f.f.nlocals).collect()
            }
        };
        for l in cand {
            let (x, y) = (&a.frames[d - 1].locals[l as usize].clone(), &b.frames[d - 1].locals[l as usize].clone());
            match self.ite_val(&f.local_ty[l as usize], ga, x, y) { Some(v) => newloc.push((l as usize, v)), None => return Err(Box::new(b)) }
        }
        if a.frames[d - 1].allocas != b.frames[d - 1].allocas { return Err(Box::new(b)); }
        for (l, v) in newloc { a.frames[d - 1].locals[l] = v; }
        a.objs.resize(n, None);
        for (i, o) in newobjs { a.objs[i] = o; }
        let objs = &a.objs;
        a.free.retain(|i| objs[*i as usize].is_none());
        let g = self.c.or(ga, gb);
        a.pc.truncate(base_pc);
        a.known = k0.clone();
        a.pins = p0.clone();
        a.fixed = f0.clone();
        if g != self.c.t { self.assume(a, g); }
        if a.model.is_none() { a.model = b.model; }
        if b.syms.len() > a.syms.len() { a.syms = b.syms; }
        a.nheap = a.nheap.max(b.nheap);
        Ok(())
    }

    // ------------------------------------------------------------ path condition
    fn pin(&mut self, st: &mut State, e: Id, v: u128) {
        let n = self.c.n(e);
        match n.op {
            Op::Const => return,
            Op::Var => { Rc::make_mut(&mut st.fixed).insert(n.a, v); }
            Op::Concat => { let lw = self.c.w(n.b); self.pin(st, n.a, v >> lw); self.pin(st, n.b, mask(v, lw)); }
            Op::Add => if let Some(k) = self.c.is_const(n.b) { self.pin(st, n.a, mask(v.wrapping_sub(k), n.w)); },
            Op::Not => self.pin(st, n.a, mask(!v, n.w)),
            Op::Xor => if let Some(k) = self.c.is_const(n.b) { self.pin(st, n.a, v ^ k); },
            _ => {}
        }
        Rc::make_mut(&mut st.pins).insert(e, v);
    }
    /// Add a condition to the path.
    fn assume(&mut self, st: &mut State, cond: Id) {
        if cond == self.c.t { return; }
        let n = self.c.n(cond);
        if n.op == Op::And && n.w == 1 { self.assume(st, n.a); self.assume(st, n.b); return; }
        if st.known.get(&cond) == Some(&true) { return; }
        st.pc.push(cond);
        Rc::make_mut(&mut st.known).insert(cond, true);
        let nc = self.c.not(cond);
        Rc::make_mut(&mut st.known).insert(nc, false);
        if n.op == Op::Eq { if let Some(k) = self.c.is_const(n.b) { self.pin(st, n.a, k); } }
        if n.op == Op::Var { self.pin(st, cond, 1); }
        if n.op == Op::Not && self.c.n(n.a).op == Op::Var { self.pin(st, n.a, 0); }
        if let Some(m) = st.model.as_mut() { if self.c.eval(m, cond) != 1 { st.model = None; } }
    }
    fn slice(&mut self, st: &State, cond: Id) -> Vec<Id> {
        let mut vars: HashSet<u32> = self.c.support(cond).iter().copied().collect();
        let mut rest: Vec<(Id, Rc<Vec<u32>>)> = st.pc.iter().map(|e| (*e, self.c.support(*e))).collect();
        let mut out = vec![];
        loop {
            let mut ch = false;
            rest.retain(|(e, s)| {
                if s.iter().any(|v| vars.contains(v)) { vars.extend(s.iter()); out.push(*e); ch = true; false } else { true }
            });
            if !ch { break; }
        }
        out
    }
    fn query(&mut self, st: &State, cond: Id) -> Answer {
        let mut q = self.slice(st, cond);
        q.push(cond);
        self.s.check(&self.c, &q)
    }
    fn with_model(&self, st: &State, m: &HashMap<u32, u128>) -> Option<Box<Model>> {
        st.model.as_ref().map(|old| { let mut v = old.vals.clone(); v.extend(m.iter().map(|(a, b)| (*a, *b))); Box::new(Model::new(v)) })
    }
    /// Ensure the state has a model of its path condition. Ok(false) = path infeasible.
    fn ensure_model(&mut self, st: &mut State) -> Rz<bool> {
        if st.model.is_some() { return Ok(true); }
        match self.s.check(&self.c, &st.pc) {
            Answer::Sat(m) => { st.model = Some(Box::new(Model::new(m))); Ok(true) }
            Answer::Unsat => Ok(false),
            Answer::Unknown(e) => Err(Ev::Error(format!("solver could not decide a path condition: {}", e))),
        }
    }

    fn trivially(&mut self, st: &mut State, cond: Id) -> Option<bool> {
        if let Some(k) = self.c.is_const(cond) { return Some(k == 1); }
        if let Some(k) = st.known.get(&cond) { return Some(*k); }
        if !st.fixed.is_empty() {
            if self.c.within(cond, &st.fixed) {
                let mut m = Model::new(st.fixed.as_ref().clone());
                return Some(self.c.eval(&mut m, cond) == 1);
            }
        }
        None
    }

    /// Which sides of a condition are feasible: (true side, false side) with models.
    fn sides(&mut self, st: &mut State, cond: Id) -> Rz<(Option<Option<Box<Model>>>, Option<Option<Box<Model>>>)> {
        if let Some(b) = self.trivially(st, cond) { let m = st.model.clone(); return Ok(if b { (Some(m), None) } else { (None, Some(m)) }); }
        let nc = self.c.not(cond);
        if !self.ensure_model(st)? { return Ok((None, None)); }
        let b = { let mut m = st.model.take().unwrap(); let b = self.c.eval(&mut m, cond) == 1; st.model = Some(m); b };
        let other = if b { nc } else { cond };
        if self.trace { eprintln!("branch {} @ {:?}", self.c.show(cond, 11), self.stack(st)); }
        let o = match self.query(st, other) {
            Answer::Unsat => { Rc::make_mut(&mut st.known).insert(cond, b); Rc::make_mut(&mut st.known).insert(nc, !b); None }
            Answer::Sat(m) => Some(self.with_model(st, &m)),
            Answer::Unknown(e) => {
                if st.merge > 0 { Some(None) } else { return Err(Ev::Error(format!("solver could not decide a branch: {}", e))); }
            }
        };
        let me = Some(st.model.clone());
        Ok(if b { (me, o) } else { (o, me) })
    }

    /// A large conjunction of equations that are affine over GF(2) (a tag comparison), as its reduced system; else itself.
    fn linear(&mut self, cond: Id) -> Id {
        if self.c.is_const(cond).is_some() { return cond; }
        if let Some(r) = self.linear.get(&cond) { return *r; }
        let mut r = cond;
        if self.c.n(cond).op == Op::Not { let a = self.c.n(cond).a; let l = self.linear(a); r = self.c.not(l); }
        else if self.big(cond) {
            let mut eqs = vec![];
            let mut st = vec![(cond, None)];
            let mut ok = true;
            while let Some((e, v)) = st.pop() {
                let n = self.c.n(e);
                match (n.op, v) {
                    (Op::And, None) => { st.push((n.a, None)); st.push((n.b, None)); }
                    (Op::Eq, None) if self.c.is_const(n.b) == Some(0) => st.push((n.a, Some(()))),
                    (Op::Eq, None) if self.c.is_const(n.a) == Some(0) => st.push((n.b, Some(()))),
                    (Op::Or, Some(())) | (Op::Concat, Some(())) => { st.push((n.a, Some(()))); st.push((n.b, Some(()))); }
                    (Op::Eq, None) => eqs.push((n.a, n.b)),
                    (_, Some(())) => { let z = self.c.cst(0, n.w); eqs.push((e, z)); }
                    _ => { ok = false; break; }
                }
            }
            if ok {
                match crate::anf::reduced(&self.c, &eqs) {
                    None => {}
                    Some(None) => r = self.c.cst(0, 1),
                    Some(Some(rows)) => {
                        r = self.c.cst(1, 1);
                        for (k, bits) in rows {
                            let mut x = self.c.cst(!k as u128, 1);
                            for (e, b) in bits { let y = self.c.extract(e, b, b); x = self.c.xor(x, y); }
                            r = self.c.and(r, x);
                        }
                    }
                }
            }
        }
        self.linear.insert(cond, r);
        r
    }
    fn big(&self, e: Id) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() { if !seen.insert(x) { continue; } if seen.len() > 300 { return true; } let (a, k) = self.c.n(x).args(); for i in 0..k { st.push(a[i]); } }
        false
    }

    fn decide(&mut self, st: &mut State, cond: Id) -> Rz<bool> {
        let cond = self.linear(cond);
        match self.sides(st, cond)? {
            (Some(_), None) => Ok(true),
            (None, Some(_)) => Ok(false),
            (None, None) => Err(Ev::End("infeasible".into())),
            (Some(mt), Some(mf)) => {
                let nc = self.c.not(cond);
                let mut a = st.clone();
                a.model = mt;
                self.assume(&mut a, cond);
                let mut b = st.clone();
                b.model = mf;
                self.assume(&mut b, nc);
                Err(Ev::Fork(vec![b, a]))
            }
        }
    }

    /// Concrete value of an expression on this path, forking over every feasible value.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> Rz<u128> {
        let e = match v { Val::C(x) => return Ok(*x), Val::E(e) => *e, Val::Undef => return Err(Ev::Error("undefined value used as address or length".into())), _ => return Err(Ev::Error("aggregate as scalar".into())) };
        let _ = w;
        if let Some(k) = self.c.is_const(e) { return Ok(k); }
        if let Some(k) = st.pins.get(&e) { return Ok(*k); }
        if self.c.within(e, &st.fixed) {
            let mut m = Model::new(st.fixed.as_ref().clone());
            return Ok(self.c.eval(&mut m, e));
        }
        if !self.ensure_model(st)? { return Err(Ev::End("infeasible".into())); }
        let w = self.c.w(e);
        let mut vals: Vec<(u128, Option<Box<Model>>)> = vec![];
        let mut excl = st.clone();
        {
            let mut m = st.model.take().unwrap();
            let k = self.c.eval(&mut m, e);
            st.model = Some(m);
            vals.push((k, st.model.clone()));
        }
        loop {
            let k = vals.last().unwrap().0;
            let kc = self.c.cst(k, w);
            let eq = self.c.eq(e, kc);
            let ne = self.c.not(eq);
            excl.model = None;
            excl.pc.push(ne);
            match self.query(&excl, ne) {
                Answer::Unsat => break,
                Answer::Sat(m) => {
                    let md = self.with_model(st, &m).unwrap();
                    let mut md = md;
                    let k = self.c.eval(&mut md, e);
                    vals.push((k, Some(md)));
                    if vals.len() > self.fork_limit { return Err(Ev::Error(format!("more than {} feasible values for {}", self.fork_limit, self.c.show(e, 4)))); }
                }
                Answer::Unknown(x) => return Err(Ev::Error(format!("solver could not enumerate a length or address: {}", x))),
            }
        }
        if vals.len() == 1 {
            let k = vals[0].0;
            self.pin(st, e, k);
            return Ok(k);
        }
        vals.sort_by_key(|v| std::cmp::Reverse(v.0));
        let mut ch = vec![];
        for (k, m) in vals {
            let mut x = st.clone();
            x.model = m;
            let kc = self.c.cst(k, w);
            let eq = self.c.eq(e, kc);
            self.assume(&mut x, eq);
            self.pin(&mut x, e, k);
            ch.push(x);
        }
        Err(Ev::Fork(ch))
    }

    // ------------------------------------------------------------ values
    #[inline]
    pub fn id(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(x) => self.c.cst(*x, w),
            Val::E(e) => *e,
            Val::Undef => { self.st.undef_reads += 1; self.c.cst(0, w) }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    fn mkv(&self, e: Id) -> Val { match self.c.is_const(e) { Some(k) => Val::C(k), None => Val::E(e) } }

    #[inline]
    fn op(&self, st: &State, o: &Operand) -> Val {
        let f = st.frames.last().unwrap();
        match o { Operand::Local(x) => f.locals[*x as usize].clone(), Operand::Const(c) => self.p.funcs[f.func as usize].consts[*c as usize].clone() }
    }

    // ------------------------------------------------------------ memory
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool, init: Rc<Page>) -> u64 {
        let o = Rc::new(Obj::zero(size, &init, heap));
        if !heap { if let Some(i) = st.free.pop() { st.objs[i as usize] = Some(o); return (i as u64) << 32; } }
        while (st.objs.len() as u32) < self.slots_floor { st.objs.push(None); }
        st.objs.push(Some(o));
        ((st.objs.len() - 1) as u64) << 32
    }

    fn oob(&self, what: &str, addr: u64, n: u64) -> Ev { Ev::Violation("memory".into(), format!("{} of {} bytes at {:#x} is outside any live object", what, n, addr)) }

    fn chk(&self, st: &State, addr: u64, n: u64, what: &str) -> Rz<()> {
        let (slot, off) = ((addr >> 32) as usize, addr & 0xffff_ffff);
        match st.objs.get(slot) {
            Some(Some(o)) if !o.freed && off + n <= o.size => {
                if slot as u64 == SLOT_GLOB {
                    let i = self.p.globs.partition_point(|g| g.off <= off);
                    if i == 0 { return Err(self.oob(what, addr, n)); }
                    let g = &self.p.globs[i - 1];
                    if off + n > g.off + g.size { return Err(self.oob(what, addr, n)); }
                    if what == "write" && g.constant { return Err(Ev::Violation("memory".into(), format!("write to constant {}", g.name))); }
                }
                Ok(())
            }
            _ => Err(self.oob(what, addr, n)),
        }
    }

    fn rd_bytes(&mut self, st: &mut State, addr: u64, n: u64) -> Val {
        // caller checked bounds; n <= 16
        let (slot, off) = ((addr >> 32) as usize, addr & 0xffff_ffff);
        let o = st.objs[slot].as_ref().unwrap().clone();
        let mut v: u128 = 0;
        let mut symbolic = false;
        let mut nund = 0;
        for i in 0..n {
            let (b, s) = o.get(off + i);
            if s == CONC { v |= (b as u128) << (8 * i); } else { symbolic = true; if s == UNDEF { nund += 1; } }
        }
        if !symbolic { return Val::C(v); }
        if nund == n { return Val::Undef; }
        let mut acc: Option<Id> = None;
        for i in 0..n {
            let (b, s) = o.get(off + i);
            let e = if s == CONC { self.c.cst(b as u128, 8) } else if s == UNDEF {
                self.nundef += 1;
                let nm = format!("undef{}", self.nundef);
                let e = self.c.var(&nm, 8);
                let oo = Rc::make_mut(st.objs[slot].as_mut().unwrap());
                oo.set(off + i, 0, e);
                e
            } else { s };
            acc = Some(match acc { None => e, Some(a) => self.c.concat(e, a) });
        }
        let e = acc.unwrap();
        if let Some(k) = st.pins.get(&e) { return Val::C(*k); }
        self.mkv(e)
    }

    fn wr_val(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) {
        let (slot, off) = ((addr >> 32) as usize, addr & 0xffff_ffff);
        match v {
            Val::C(x) => {
                let o = Rc::make_mut(st.objs[slot].as_mut().unwrap());
                let pi = off as usize / PG;
                let k = off as usize % PG;
                if k + n as usize <= PG {
                    let p = Rc::make_mut(&mut o.pages[pi]);
                    for i in 0..n as usize { p.data[k + i] = (x >> (8 * i)) as u8; }
                    if let Some(s) = &mut p.sym { for i in 0..n as usize { s[k + i] = CONC; } }
                } else {
                    for i in 0..n { o.set(off + i, (x >> (8 * i)) as u8, CONC); }
                }
            }
            Val::Undef => { let o = Rc::make_mut(st.objs[slot].as_mut().unwrap()); for i in 0..n { o.set(off + i, 0, UNDEF); } }
            Val::E(e) => {
                let w = self.c.w(*e);
                let e = if (w as u64) < 8 * n { self.c.zext(*e, (8 * n) as u32) } else { *e };
                for i in 0..n {
                    let b = self.c.extract(e, (8 * i + 7) as u32, (8 * i) as u32);
                    let o = Rc::make_mut(st.objs[slot].as_mut().unwrap());
                    match self.c.is_const(b) { Some(k) => o.set(off + i, k as u8, CONC), None => o.set(off + i, 0, b) }
                }
            }
            Val::Agg(_) => panic!(),
        }
    }

    /// Base slots an address may point into.
    fn bases(&mut self, e: Id, out: &mut Vec<(Id, u64)>, g: Id) -> bool {
        let n = self.c.n(e);
        match n.op {
            Op::Const => { out.push((g, ((n.cval() as u64).wrapping_add(1 << 31)) >> 32)); true }
            Op::Add if self.c.is_const(n.b).is_some() => {
                let k = self.c.is_const(n.b).unwrap() as u64;
                let s = k.wrapping_add(1 << 31) >> 32;
                if s != 0 && s < 0xffff_ffff { out.push((g, s)); return true; }
                self.bases(n.a, out, g)
            }
            Op::Add => {
                let k = out.len();
                if self.bases(n.a, out, g) && out[k..].iter().all(|x| x.1 >= 2 && x.1 != 0xffff_ffff) { return true; }
                out.truncate(k);
                if self.bases(n.b, out, g) && out[k..].iter().all(|x| x.1 >= 2 && x.1 != 0xffff_ffff) { return true; }
                out.truncate(k);
                false
            }
            Op::Sub => self.bases(n.a, out, g),
            Op::Ite => {
                let nc = self.c.not(n.a);
                let (ga, gb) = (self.c.and(g, n.a), self.c.and(g, nc));
                self.bases(n.b, out, ga) && self.bases(n.c, out, gb)
            }
            _ => false,
        }
    }

    /// Resolve an address: concrete, or a single object with a symbolic offset.
    fn resolve(&mut self, st: &mut State, a: &Val, n: u64, what: &str) -> Rz<Result<u64, (u64, Id)>> {
        let e = match a {
            Val::C(x) => { self.chk(st, *x as u64, n, what)?; return Ok(Ok(*x as u64)); }
            Val::E(e) => *e,
            _ => return Err(Ev::Error("undefined address".into())),
        };
        if let Some(k) = st.pins.get(&e).copied() { self.chk(st, k as u64, n, what)?; return Ok(Ok(k as u64)); }
        if self.c.within(e, &st.fixed) {
            let mut m = Model::new(st.fixed.as_ref().clone());
            let k = self.c.eval(&mut m, e) as u64;
            self.chk(st, k, n, what)?;
            return Ok(Ok(k));
        }
        let mut bs = vec![];
        let t = self.c.t;
        let ok = self.bases(e, &mut bs, t);
        if ok {
            let mut slots: Vec<u64> = bs.iter().map(|b| b.1).collect();
            slots.sort_unstable();
            slots.dedup();
            if slots.len() > 1 {
                // decide between the objects
                for (g, _) in &bs { if *g != t { let g = *g; self.decide(st, g)?; } }
                // all guards decided: find the one that holds
                let mut hit = None;
                for (g, s) in &bs { if self.trivially(st, *g) == Some(true) { hit = Some(*s); } }
                match hit { Some(s) => slots = vec![s], None => return Err(Ev::Error("pointer join".into())) }
            }
            let slot = slots[0];
            let live = matches!(st.objs.get(slot as usize), Some(Some(o)) if !o.freed);
            if !live { return Err(self.oob(what, slot << 32, n)); }
            // (base, size) of the pointed-to object; for globals find the enclosing definition
            let (base, size) = if slot == SLOT_GLOB {
                if !self.ensure_model(st)? { return Err(Ev::End("infeasible".into())); }
                let mut m = st.model.take().unwrap();
                let v = self.c.eval(&mut m, e) as u64;
                st.model = Some(m);
                let off = v.wrapping_sub(SLOT_GLOB << 32);
                let i = self.p.globs.partition_point(|g| g.off <= off);
                if i == 0 { return Err(self.oob(what, v, n)); }
                let g = &self.p.globs[i - 1];
                if what == "write" && g.constant { return Err(Ev::Violation("memory".into(), format!("write to constant {}", g.name))); }
                ((slot << 32) + g.off, g.size)
            } else { (slot << 32, st.objs[slot as usize].as_ref().unwrap().size) };
            let bc = self.c.cst(base as u128, 64);
            let off = self.c.sub(e, bc);
            if let Some(k) = self.c.is_const(off) { let ad = base.wrapping_add(k as u64); self.chk(st, ad, n, what)?; return Ok(Ok(ad)); }
            if size < n { return Err(self.oob(what, base, n)); }
            let lim = self.c.cst((size - n) as u128, 64);
            let inb = self.c.ule(off, lim);
            if !self.decide(st, inb)? { return Err(Ev::Violation("memory".into(), format!("{} of {} bytes beyond an object of {} bytes", what, n, size))); }
            return Ok(Err((base, off)));
        }
        let k = self.concretize(st, a, 64)? as u64;
        self.chk(st, k, n, what)?;
        Ok(Ok(k))
    }

    /// feasible offset range [lo, hi], step
    fn off_range(&mut self, off: Id, max: u64) -> (u64, u64, u64) {
        let r = self.c.range[off as usize];
        let mut step = 1u64;
        while step < 16 {
            let k = step.trailing_zeros();
            let b = self.c.extract(off, k, k);
            if self.c.is_const(b) == Some(0) { step *= 2 } else { break; }
        }
        ((r.0 as u64 + step - 1) / step * step, (r.1 as u64).min(max), step)
    }

    fn load_scalar(&mut self, st: &mut State, a: &Val, n: u64) -> Rz<Val> {
        match self.resolve(st, a, n, "read")? {
            Ok(addr) => Ok(self.rd_bytes(st, addr, n)),
            Err((base, off)) => {
                let (slot, bo) = ((base >> 32) as usize, base & 0xffff_ffff);
                let size = if slot as u64 == SLOT_GLOB { let i = self.p.globs.partition_point(|g| g.off <= bo); self.p.globs[i - 1].size } else { st.objs[slot].as_ref().unwrap().size };
                let (lo, hi, step) = self.off_range(off, size - n);
                let cnt = (hi - lo) / step + 1;
                // all concrete?
                if cnt <= 65536 {
                    let mut data = Vec::with_capacity(cnt as usize);
                    let o = st.objs[slot].as_ref().unwrap().clone();
                    let mut allc = true;
                    'l: for k in 0..cnt {
                        let mut v = 0u128;
                        for i in 0..n { let (b, s) = o.get(bo + lo + k * step + i); if s != CONC { allc = false; break 'l; } v |= (b as u128) << (8 * i); }
                        data.push(v);
                    }
                    if allc && self.mux_limit > 1 && (st.merge > 0 || cnt <= 4096) {
                        // index = (off - lo) / step
                        let lc = self.c.cst(lo as u128, 64);
                        let d = self.c.sub(off, lc);
                        let ib = (64 - (cnt - 1).leading_zeros()).max(1);
                        let sh = step.trailing_zeros();
                        let idx = self.c.extract(d, (sh + ib - 1).min(63), sh);
                        let iw = self.c.w(idx);
                        let t = self.c.table(data, (8 * n) as u32, iw);
                        let e = self.c.select(t, idx);
                        return Ok(self.mkv(e));
                    }
                }
                if st.merge > 0 && cnt <= self.mux_limit {
                    let mut acc: Option<Id> = None;
                    for k in 0..cnt {
                        let o = lo + k * step;
                        let v = self.rd_bytes(st, base + o, n);
                        let v = self.id(&v, (8 * n) as u32);
                        acc = Some(match acc { None => v, Some(x) => { let oc = self.c.cst(o as u128, 64); let g = self.c.eq(off, oc); self.c.ite(g, v, x) } });
                    }
                    let e = acc.unwrap();
                    return Ok(self.mkv(e));
                }
                let k = self.concretize(st, &Val::E(off), 64)? as u64;
                Ok(self.rd_bytes(st, base + k, n))
            }
        }
    }

    fn store_scalar(&mut self, st: &mut State, a: &Val, n: u64, v: &Val) -> Rz<()> {
        match self.resolve(st, a, n, "write")? {
            Ok(addr) => { self.wr_val(st, addr, n, v); Ok(()) }
            Err((base, off)) => {
                let (slot, bo) = ((base >> 32) as usize, base & 0xffff_ffff);
                let size = if slot as u64 == SLOT_GLOB { let i = self.p.globs.partition_point(|g| g.off <= bo); self.p.globs[i - 1].size } else { st.objs[slot].as_ref().unwrap().size };
                let (lo, hi, step) = self.off_range(off, size - n);
                let cnt = (hi - lo) / step + 1;
                if st.merge > 0 && cnt <= self.mux_limit {
                    let nv = self.id(v, (8 * n) as u32);
                    let w = self.c.w(nv);
                    let nv = if (w as u64) < 8 * n { self.c.zext(nv, (8 * n) as u32) } else { nv };
                    for k in 0..cnt {
                        let o = lo + k * step;
                        let oc = self.c.cst(o as u128, 64);
                        let g = self.c.eq(off, oc);
                        let old = self.rd_bytes(st, base + o, n);
                        let old = self.id(&old, (8 * n) as u32);
                        let r = self.c.ite(g, nv, old);
                        let r = self.mkv(r);
                        self.wr_val(st, base + o, n, &r);
                    }
                    return Ok(());
                }
                let k = self.concretize(st, &Val::E(off), 64)? as u64;
                self.wr_val(st, base + k, n, v);
                Ok(())
            }
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, a: &Val) -> Rz<Val> {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size();
                if n > 16 { return Err(Ev::Error("load wider than 128 bits".into())); }
                let v = self.load_scalar(st, a, n)?;
                Ok(match v {
                    Val::C(x) => Val::C(mask(x, *w)),
                    Val::E(e) if (*w as u64) < 8 * n => { let e = self.c.extract(e, w - 1, 0); self.mkv(e) }
                    v => v,
                })
            }
            Ty::Ptr => self.load_scalar(st, a, 8),
            Ty::Struct(f, _) => {
                let (o, _) = ty.struct_layout();
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() { let p = self.padd(a, o[i]); v.push(self.load(st, t, &p)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Array(n, t) => {
                let mut v = vec![];
                for i in 0..*n { let p = self.padd(a, i * t.size()); v.push(self.load(st, t, &p)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Err(Ev::Error(format!("load of {:?}", ty))),
        }
    }
    fn padd(&mut self, a: &Val, k: u64) -> Val {
        match a {
            Val::C(x) => Val::C((*x as u64).wrapping_add(k) as u128),
            Val::E(e) => { let kc = self.c.cst(k as u128, 64); let r = self.c.add(*e, kc); self.mkv(r) }
            v => v.clone(),
        }
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: &Val) -> Rz<()> {
        match ty {
            Ty::Int(_) => { let n = ty.store_size(); if n > 16 { return Err(Ev::Error("store wider than 128 bits".into())); } self.store_scalar(st, a, n, v) }
            Ty::Ptr => self.store_scalar(st, a, 8, v),
            Ty::Struct(f, _) => {
                if matches!(v, Val::Undef) { return Ok(()); }
                let (o, _) = ty.struct_layout();
                if let Val::Agg(x) = v { for (i, t) in f.iter().enumerate() { let p = self.padd(a, o[i]); self.store(st, t, &x[i], &p)?; } }
                Ok(())
            }
            Ty::Array(n, t) => {
                if let Val::Agg(x) = v { for i in 0..*n { let p = self.padd(a, i * t.size()); self.store(st, t, &x[i as usize], &p)?; } }
                Ok(())
            }
            _ => Err(Ev::Error(format!("store of {:?}", ty))),
        }
    }

    fn mem_copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Rz<()> {
        if n == 0 { return Ok(()); }
        self.chk(st, s, n, "read")?;
        self.chk(st, d, n, "write")?;
        let so = st.objs[(s >> 32) as usize].as_ref().unwrap().clone();
        let (ds, doff, soff) = ((d >> 32) as usize, d & 0xffff_ffff, s & 0xffff_ffff);
        let o = Rc::make_mut(st.objs[ds].as_mut().unwrap());
        // whole-page sharing when aligned
        let mut i = 0;
        while i < n {
            let (po, qo) = ((doff + i) as usize, (soff + i) as usize);
            if po % PG == 0 && qo % PG == 0 && n - i >= PG as u64 {
                o.pages[po / PG] = so.pages[qo / PG].clone();
                i += PG as u64;
                continue;
            }
            let run = (PG - po % PG).min(PG - qo % PG).min((n - i) as usize);
            let sp = so.pages[qo / PG].clone();
            let dp = Rc::make_mut(&mut o.pages[po / PG]);
            let (a, b) = (po % PG, qo % PG);
            dp.data[a..a + run].copy_from_slice(&sp.data[b..b + run]);
            match (&mut dp.sym, &sp.sym) {
                (Some(x), Some(y)) => x[a..a + run].copy_from_slice(&y[b..b + run]),
                (Some(x), None) => x[a..a + run].fill(CONC),
                (None, Some(y)) => if y[b..b + run].iter().any(|k| *k != CONC) {
                    let mut x = Box::new([CONC; PG]);
                    x[a..a + run].copy_from_slice(&y[b..b + run]);
                    dp.sym = Some(x);
                },
                (None, None) => {}
            }
            i += run as u64;
        }
        Ok(())
    }

    pub fn byte(&mut self, st: &State, addr: u64) -> Rz<Id> {
        self.chk(st, addr, 1, "read")?;
        let (b, s) = st.objs[(addr >> 32) as usize].as_ref().unwrap().get(addr & 0xffff_ffff);
        Ok(if s == CONC || s == UNDEF { self.c.cst(b as u128, 8) } else { s })
    }
    fn cstr(&mut self, st: &State, addr: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n { match self.byte(st, addr + i) { Ok(e) => v.push(self.c.is_const(e).unwrap_or(b'?' as u128) as u8), Err(_) => break } }
        String::from_utf8_lossy(&v).into_owned()
    }

    // ------------------------------------------------------------ reporting
    pub fn stack(&self, st: &State) -> Vec<String> { st.frames.iter().rev().map(|f| self.p.funcs[f.func as usize].f.name.clone()).collect() }

    fn report(&mut self, st: &mut State, id: String, detail: String) {
        match self.ensure_model(st) {
            Ok(true) => {}
            Ok(false) => { self.st.paths += 1; *self.st.ended.entry("infeasible".into()).or_insert(0) += 1; return; }
            Err(_) => { self.errors.push(format!("cannot confirm a violation of {}: {}", id, detail)); return; }
        }
        let mut m = st.model.take().unwrap();
        for e in st.pc.clone() {
            if self.c.eval(&mut m, e) != 1 { self.errors.push("internal: model does not satisfy its path condition".into()); return; }
        }
        let mut inputs = vec![];
        for (n, v) in st.syms.clone().iter() { inputs.push((n.clone(), v.iter().map(|e| self.c.eval(&mut m, *e) as u8).collect())); }
        let stack = self.stack(st);
        let key = format!("{}|{}|{}", id, detail.split(": ").next().unwrap_or_default(), stack.first().cloned().unwrap_or_default());
        if self.keep_going && !self.seen_viol.insert(key) { self.st.paths += 1; return; }
        self.violations.push(Violation { id, detail, inputs, stack });
    }

    // ------------------------------------------------------------ control flow
    fn jump(&mut self, st: &mut State, to: u32) {
        let prog = self.p.clone();
        let fr = st.frames.last_mut().unwrap();
        let f = &prog.funcs[fr.func as usize];
        let from = fr.block;
        let nphi = f.first[to as usize] as usize;
        if nphi > 0 {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(nphi);
            for (d, i) in &f.f.blocks[to as usize].insts[..nphi] {
                if let Inst::Phi(_, v) = i {
                    let o = &v.iter().find(|x| x.1 == from).expect("phi pred").0;
                    let x = match o { Operand::Local(x) => fr.locals[*x as usize].clone(), Operand::Const(c) => f.consts[*c as usize].clone() };
                    vals.push((d.unwrap(), x));
                }
            }
            for (d, v) in vals { fr.locals[d as usize] = v; }
        }
        fr.block = to;
        fr.pc = nphi as u32;
        st.arrived = true;
    }

    /// Execute until a control transfer that may be a join point, or an event.
    fn run_insts(&mut self, st: &mut State) -> Rz<()> {
        let prog = self.p.clone();
        loop {
            let fr = st.frames.last().unwrap();
            let f = &prog.funcs[fr.func as usize];
            let (dest, ins) = &f.f.blocks[fr.block as usize].insts[fr.pc as usize];
            self.st.insts += 1;
            let v: Option<Val> = match ins {
                Inst::Bin(op, t, a, b) => Some(self.binop(st, *op, t, a, b)?),
                Inst::ICmp(p, t, a, b) => {
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    let w = match t { Ty::Int(w) => *w, Ty::Ptr => 64, _ => return Err(Ev::Error(format!("icmp {:?}", t))) };
                    Some(match (&x, &y) {
                        (Val::C(x), Val::C(y)) => Val::C(icmp_c(*p, w, *x, *y) as u128),
                        _ => {
                            self.st.sym_insts += 1;
                            let (x, y) = (self.id(&x, w), self.id(&y, w));
                            let r = self.icmp_e(*p, x, y);
                            self.mkv(r)
                        }
                    })
                }
                Inst::Cast(op, t, a, t2) => {
                    let x = self.op(st, a);
                    let (w1, w2) = (t.bits(), t2.bits());
                    Some(match x {
                        Val::C(x) => Val::C(match op { CastOp::SExt => mask(sext(x, w1) as u128, w2), _ => mask(x, w2) }),
                        Val::E(e) => {
                            self.st.sym_insts += 1;
                            let r = match op {
                                CastOp::Trunc => self.c.extract(e, w2 - 1, 0),
                                CastOp::ZExt => self.c.zext(e, w2),
                                CastOp::SExt => self.c.sext(e, w2),
                                _ => if w1 == w2 { e } else if w1 > w2 { self.c.extract(e, w2 - 1, 0) } else { self.c.zext(e, w2) },
                            };
                            self.mkv(r)
                        }
                        v => v,
                    })
                }
                Inst::Select(_, c, t, a, b) => {
                    let cv = self.op(st, c);
                    let (x, y) = (self.op(st, a), self.op(st, b));
                    Some(match cv {
                        Val::C(k) => if k == 1 { x } else { y },
                        Val::E(g) => match self.trivially(st, g) {
                            Some(true) => x,
                            Some(false) => y,
                            None => {
                                self.st.sym_insts += 1;
                                // selecting between pointers or lengths: fork in path mode so they stay concrete
                                if st.merge == 0 && (*t == Ty::Ptr) && !same(&x, &y) { if self.decide(st, g)? { x } else { y } }
                                else { match self.ite_val(t, g, &x, &y) { Some(v) => v, None => return Err(Ev::Error("select".into())) } }
                            }
                        },
                        Val::Undef => x,
                        _ => return Err(Ev::Error("select cond".into())),
                    })
                }
                Inst::Gep(b, off, ix) => {
                    let mut base = self.op(st, b);
                    if *off != 0 { base = self.padd(&base, *off); }
                    for (o, w, scale) in ix {
                        let i = self.op(st, o);
                        base = match (&base, &i) {
                            (Val::C(x), Val::C(y)) => Val::C((*x as u64).wrapping_add((sext(*y, *w) as u64).wrapping_mul(*scale)) as u128),
                            (Val::Undef, _) => Val::Undef,
                            _ => {
                                self.st.sym_insts += 1;
                                let bx = self.id(&base, 64);
                                let iv = self.id(&i, *w);
                                let i64v = if *w < 64 { self.c.sext(iv, 64) } else if *w > 64 { self.c.extract(iv, 63, 0) } else { iv };
                                let sc = self.c.cst(*scale as u128, 64);
                                let m = self.c.mul(i64v, sc);
                                let r = self.c.add(bx, m);
                                self.mkv(r)
                            }
                        };
                    }
                    Some(base)
                }
                Inst::Load(t, a) => { let a = self.op(st, a); Some(self.load(st, t, &a)?) }
                Inst::Store(t, v, a) => { let (v, a) = (self.op(st, v), self.op(st, a)); self.store(st, t, &v, &a)?; None }
                Inst::Alloca(n, cnt) => {
                    let k = match cnt { Some(o) => { let v = self.op(st, o); self.concretize(st, &v, 64)? as u64 } None => 1 };
                    let u = self.undef.clone();
                    let a = self.alloc(st, n * k, false, u);
                    st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                    Some(Val::C(a as u128))
                }
                Inst::Call(rt, callee, args) => {
                    match self.call(st, rt, callee, args, *dest)? {
                        CallRes::Entered => continue,
                        CallRes::Val(v) => v,
                    }
                }
                Inst::ExtractValue(a, ix) => {
                    let mut v = self.op(st, a);
                    for k in ix { v = match v { Val::Agg(x) => x[*k as usize].clone(), Val::Undef => Val::Undef, _ => return Err(Ev::Error("extractvalue".into())) }; }
                    Some(v)
                }
                Inst::InsertValue(a, _, v, ix, t) => {
                    let (a, v) = (self.op(st, a), self.op(st, v));
                    Some(insert_val(a, t, &v, ix))
                }
                Inst::Freeze(a) => {
                    let v = self.op(st, a);
                    Some(if let Val::Undef = v { Val::C(0) } else { v })
                }
                Inst::Fence => None,
                Inst::AtomicRmw(op, t, a, v) => {
                    let (a, v) = (self.op(st, a), self.op(st, v));
                    let old = self.load(st, t, &a)?;
                    let w = t.bits();
                    let (x, y) = (self.id(&old, w), self.id(&v, w));
                    let r = match op.as_str() {
                        "xchg" => y, "add" => self.c.add(x, y), "sub" => self.c.sub(x, y), "and" => self.c.and(x, y), "or" => self.c.or(x, y), "xor" => self.c.xor(x, y),
                        _ => return Err(Ev::Error(format!("atomicrmw {}", op))),
                    };
                    let r = self.mkv(r);
                    self.store(st, t, &r, &a)?;
                    Some(old)
                }
                Inst::CmpXchg(t, a, e, n) => {
                    let (a, e, n) = (self.op(st, a), self.op(st, e), self.op(st, n));
                    let old = self.load(st, t, &a)?;
                    let w = t.bits();
                    let (x, y) = (self.id(&old, w), self.id(&e, w));
                    let g = self.c.eq(x, y);
                    let ok = self.decide(st, g)?;
                    if ok { self.store(st, t, &n, &a)?; }
                    Some(Val::Agg(Rc::new(vec![old, Val::C(ok as u128)])))
                }
                Inst::Ret(v) => {
                    let rv = match v { Some((_, o)) => Some(self.op(st, o)), None => None };
                    let fr = st.frames.pop().unwrap();
                    for a in fr.allocas { st.objs[a as usize] = None; st.free.push(a); }
                    if st.frames.is_empty() { return Err(Ev::End("returned".into())); }
                    let up = st.frames.last_mut().unwrap();
                    if let (Some(d), Some(v)) = (fr.ret, rv) { up.locals[d as usize] = v; }
                    st.arrived = true;
                    return Ok(());
                }
                Inst::Br(b) => { self.jump(st, *b); return Ok(()); }
                Inst::CondBr(c, a, b) => {
                    let cv = self.op(st, c);
                    match cv {
                        Val::C(k) => { let t = if k == 1 { *a } else { *b }; self.jump(st, t); return Ok(()); }
                        Val::E(g) => {
                            let both = f.live_exit[*a as usize] && f.live_exit[*b as usize];
                            if st.merge > 0 && both {
                                let (t, e) = self.sides(st, g)?;
                                match (t, e) {
                                    (Some(_), None) => { self.jump(st, *a); return Ok(()); }
                                    (None, Some(_)) => { self.jump(st, *b); return Ok(()); }
                                    (None, None) => return Err(Ev::End("infeasible".into())),
                                    _ => { let ng = self.c.not(g); return Err(Ev::Branch(vec![(g, *a), (ng, *b)])); }
                                }
                            }
                            let t = if self.decide(st, g)? { *a } else { *b };
                            self.jump(st, t);
                            return Ok(());
                        }
                        _ => return Err(Ev::Error(format!("branch on undefined value in {}", f.f.name))),
                    }
                }
                Inst::Switch(t, v, d, cs) => {
                    let x = self.op(st, v);
                    match x {
                        Val::C(k) => { let to = cs.iter().find(|c| c.0 == k).map_or(*d, |c| c.1); self.jump(st, to); return Ok(()); }
                        Val::E(e) => {
                            let w = t.bits();
                            // group cases by target
                            let mut groups: Vec<(u32, Id)> = vec![];
                            let mut none = self.c.t;
                            for (k, b) in cs {
                                let kc = self.c.cst(*k, w);
                                let g = self.c.eq(e, kc);
                                let ng = self.c.not(g);
                                none = self.c.and(none, ng);
                                match groups.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = self.c.or(x.1, g), None => groups.push((*b, g)) }
                            }
                            match groups.iter_mut().find(|x| x.0 == *d) { Some(x) => x.1 = self.c.or(x.1, none), None => groups.push((*d, none)) }
                            if st.merge > 0 {
                                let mut ts = vec![];
                                for (b, g) in &groups {
                                    let (t, _) = self.sides(st, *g)?;
                                    if t.is_some() { ts.push((*g, *b)); }
                                }
                                if ts.len() == 1 { self.jump(st, ts[0].1); return Ok(()); }
                                if ts.is_empty() { return Err(Ev::End("infeasible".into())); }
                                return Err(Ev::Branch(ts));
                            }
                            let k = groups.len();
                            for (i, (b, g)) in groups.iter().enumerate() {
                                if i + 1 == k || self.decide(st, *g)? { self.jump(st, *b); return Ok(()); }
                            }
                            unreachable!()
                        }
                        _ => return Err(Ev::Error(format!("switch on undefined value in {}", f.f.name))),
                    }
                }
                Inst::Unreachable => return Err(Ev::Violation("unreachable".into(), format!("reached an unreachable instruction in {}", f.f.name))),
                Inst::Phi(..) => unreachable!(),
                Inst::ExtractElem(..) | Inst::InsertElem(..) | Inst::Shuffle(..) => return Err(Ev::Error("vector instruction".into())),
                Inst::Unsupported(e) => return Err(Ev::Error(format!("unsupported IR: {}", e))),
            };
            let fr = st.frames.last_mut().unwrap();
            if let (Some(d), Some(v)) = (dest, v) { fr.locals[*d as usize] = v; }
            fr.pc += 1;
        }
    }

    fn icmp_e(&mut self, p: Pred, x: Id, y: Id) -> Id {
        match p {
            Pred::Eq => self.c.eq(x, y),
            Pred::Ne => { let e = self.c.eq(x, y); self.c.not(e) }
            Pred::Ult => self.c.ult(x, y),
            Pred::Ule => self.c.ule(x, y),
            Pred::Ugt => self.c.ult(y, x),
            Pred::Uge => self.c.ule(y, x),
            Pred::Slt => self.c.slt(x, y),
            Pred::Sle => self.c.sle(x, y),
            Pred::Sgt => self.c.slt(y, x),
            Pred::Sge => self.c.sle(y, x),
        }
    }

    fn binop(&mut self, st: &mut State, op: BinOp, t: &Ty, a: &Operand, b: &Operand) -> Rz<Val> {
        let (x, y) = (self.op(st, a), self.op(st, b));
        let w = match t { Ty::Int(w) => *w, _ => return Err(Ev::Error(format!("arithmetic on {:?}", t))) };
        if let (Val::C(x), Val::C(y)) = (&x, &y) {
            return match bin_c(op, w, *x, *y) { Some(v) => Ok(Val::C(v)), None => Err(Ev::Violation("panic".into(), "division by zero".into())) };
        }
        if matches!((&x, &y), (Val::Undef, Val::Undef)) { return Ok(Val::Undef); }
        self.st.sym_insts += 1;
        let (x, y) = (self.id(&x, w), self.id(&y, w));
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
            let z = self.c.cst(0, w);
            let e = self.c.eq(y, z);
            if self.decide(st, e)? { return Err(Ev::Violation("panic".into(), "division by zero".into())); }
        }
        let c = &mut self.c;
        let r = match op {
            BinOp::Add => c.add(x, y), BinOp::Sub => c.sub(x, y), BinOp::Mul => c.mul(x, y),
            BinOp::UDiv => c.udiv(x, y), BinOp::URem => c.urem(x, y), BinOp::SDiv => c.sdiv(x, y), BinOp::SRem => c.srem(x, y),
            BinOp::Shl => c.shl(x, y), BinOp::LShr => c.lshr(x, y), BinOp::AShr => c.ashr(x, y),
            BinOp::And => c.and(x, y), BinOp::Or => c.or(x, y), BinOp::Xor => c.xor(x, y),
        };
        Ok(self.mkv(r))
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, rt: &Ty, callee: &Callee, args: &[(Ty, Operand)], dest: Option<u32>) -> Rz<CallRes> {
        let fi = match callee {
            Callee::Fn(k) => Some(*k),
            Callee::Ext(k) => {
                let kind = self.ext_kind[*k as usize].clone();
                let av: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
                // harness-provided stub for an external symbol
                let stub = format!("vfstub_{}", self.p.exts[*k as usize]);
                if let Some(fi) = self.p.fn_index.get(&stub) { Some(*fi) }
                else { return Ok(CallRes::Val(self.builtin(st, &kind, *k, rt, args, &av)?)); }
            }
            Callee::Indirect(o) => {
                let v = self.op(st, o);
                let a = self.concretize(st, &v, 64)? as u64;
                if a >> 32 != SLOT_FN || a & 0x4000_0000 != 0 { return Err(Ev::Violation("memory".into(), format!("call through a bad function pointer {:#x}", a))); }
                let k = ((a & 0xffff_ffff) - 16) / 16;
                Some(k as u32)
            }
            Callee::Direct(n) => return Err(Ev::Error(format!("call {}", n))),
        };
        let mut fi = fi.unwrap();
        if let Some(o) = self.overrides.get(&fi) { fi = *o; }
        if st.frames.len() > 400 { return Err(Ev::Error("call depth".into())); }
        let av: Vec<Val> = args.iter().map(|(_, o)| self.op(st, o)).collect();
        st.frames.last_mut().unwrap().pc += 1;
        let fr = self.frame(fi, av, dest);
        st.frames.push(fr);
        if st.frames.len() > self.st.max_depth { self.st.max_depth = st.frames.len(); }
        Ok(CallRes::Entered)
    }

    fn vu(&mut self, st: &mut State, v: &Val) -> Rz<u64> { Ok(self.concretize(st, v, 64)? as u64) }

    fn fresh(&mut self, st: &mut State, name: &str, n: usize) -> Vec<Id> {
        let occ = Rc::make_mut(&mut st.occ);
        let k = occ.entry(name.to_string()).or_insert(0);
        let full = format!("{}#{}", name, k);
        *k += 1;
        let key = format!("{}/{}", full, n);
        let v = match self.symvars.get(&key) {
            Some(v) => v.clone(),
            None => {
                let v: Vec<Id> = (0..n).map(|i| self.c.var(&format!("{}[{}]", full, i), 8)).collect();
                self.symvars.insert(key, v.clone());
                v
            }
        };
        Rc::make_mut(&mut st.syms).push((full, v.clone()));
        v
    }

    fn loc_of(&mut self, st: &State, args: &[Val]) -> String {
        // core::panic::Location { file: &str, line: u32, col: u32 }
        let mut out = String::new();
        for a in args {
            if let Val::C(p) = a {
                let p = *p as u64;
                if p >> 32 != SLOT_GLOB || self.chk(st, p, 24, "read").is_err() { continue; }
                let mut rd = |e: &mut Exec, q: u64, n: u64| -> u64 { (0..n).map(|i| e.byte(st, q + i).ok().and_then(|x| e.c.is_const(x)).unwrap_or(0) as u64 * (1u64 << (8 * i))).sum() };
                let (fp, fl, line, col) = (rd(self, p, 8), rd(self, p + 8, 8), rd(self, p + 16, 4), rd(self, p + 20, 4));
                if fp >> 32 == SLOT_GLOB && fl > 0 && fl < 400 && self.chk(st, fp, fl, "read").is_ok() && line > 0 && line < 100000 {
                    let s = self.cstr(st, fp, fl);
                    if s.contains(".rs") { out = format!("{}:{}:{}", s.trim_end_matches('\0'), line, col); }
                }
            }
        }
        out
    }
    fn msg_of(&mut self, st: &State, args: &[Val]) -> String {
        if let (Some(Val::C(p)), Some(Val::C(n))) = (args.get(0), args.get(1)) {
            let (p, n) = (*p as u64, *n as u64);
            if p >> 32 == SLOT_GLOB && n < 300 && self.chk(st, p, n, "read").is_ok() { return self.cstr(st, p, n); }
        }
        String::new()
    }

    fn builtin(&mut self, st: &mut State, kind: &str, k: u32, rt: &Ty, args: &[(Ty, Operand)], a: &[Val]) -> Rz<Option<Val>> {
        match kind {
            "nop" => Ok(None),
            "id" => Ok(Some(a[0].clone())),
            "memcpy" | "memmove" | "c_memcpy" => {
                let n = self.vu(st, &a[2])?;
                if n > 0 {
                    let d = self.vu(st, &a[0])?;
                    let s = self.vu(st, &a[1])?;
                    self.mem_copy(st, d, s, n)?;
                }
                Ok(if kind == "c_memcpy" { Some(a[0].clone()) } else { None })
            }
            "memset" | "c_memset" => {
                let n = self.vu(st, &a[2])?;
                if n > 0 {
                    let d = self.vu(st, &a[0])?;
                    self.chk(st, d, n, "write")?;
                    let v = match &a[1] { Val::C(x) => Val::C(mask(*x, 8)), Val::E(e) => { let e = self.c.extract(*e, 7, 0); self.mkv(e) } v => v.clone() };
                    if let (Val::C(0), true) = (&v, n >= 2 * PG as u64) {
                        let o = Rc::make_mut(st.objs[(d >> 32) as usize].as_mut().unwrap());
                        let off = d & 0xffff_ffff;
                        let mut i = 0;
                        while i < n {
                            let p = (off + i) as usize;
                            if p % PG == 0 && n - i >= PG as u64 { o.pages[p / PG] = self.zero.clone(); i += PG as u64; } else { o.set(off + i, 0, CONC); i += 1; }
                        }
                    } else { for i in 0..n { self.wr_val(st, d + i, 1, &v); } }
                }
                Ok(if kind == "c_memset" { Some(a[0].clone()) } else { None })
            }
            "bcmp" | "memcmp" => {
                let n = self.vu(st, &a[2])?;
                if n == 0 { return Ok(Some(Val::C(0))); }
                let (p, q) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?);
                if kind == "bcmp" {
                    let mut all = self.c.t;
                    for i in 0..n { let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?); let e = self.c.eq(x, y); all = self.c.and(all, e); }
                    let (z, o) = (self.c.cst(0, 32), self.c.cst(1, 32));
                    let r = self.c.ite(all, z, o);
                    return Ok(Some(self.mkv(r)));
                }
                let mut r = self.c.cst(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.byte(st, p + i)?, self.byte(st, q + i)?);
                    let e = self.c.eq(x, y);
                    let l = self.c.ult(x, y);
                    let (m1, o) = (self.c.cst(u128::MAX, 32), self.c.cst(1, 32));
                    let d = self.c.ite(l, m1, o);
                    r = self.c.ite(e, r, d);
                }
                Ok(Some(self.mkv(r)))
            }
            "strlen" => {
                let p = self.vu(st, &a[0])?;
                let mut i = 0;
                loop {
                    let b = self.byte(st, p + i)?;
                    let z = self.c.cst(0, 8);
                    let e = self.c.eq(b, z);
                    if self.decide(st, e)? { return Ok(Some(Val::C(i as u128))); }
                    i += 1;
                }
            }
            "alloc" | "alloc_zeroed" => {
                let n = self.vu(st, &a[0])?;
                if n > 1 << 30 { return Err(Ev::Violation("memory".into(), format!("allocation of {} bytes", n))); }
                let init = if kind == "alloc" { self.undef.clone() } else { self.zero.clone() };
                let p = self.alloc(st, n, true, init);
                Ok(Some(Val::C(p as u128)))
            }
            "realloc" => {
                let (p, old, new) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?, self.vu(st, &a[3])?);
                let init = self.undef.clone();
                let q = self.alloc(st, new, true, init);
                self.mem_copy(st, q, p, old.min(new))?;
                self.dealloc(st, p)?;
                Ok(Some(Val::C(q as u128)))
            }
            "dealloc" => { let p = self.vu(st, &a[0])?; self.dealloc(st, p)?; Ok(None) }
            "panic" => {
                let loc = self.loc_of(st, a);
                let msg = self.msg_of(st, a);
                if st.panics_ok { return Err(Ev::End("panic-allowed".into())); }
                let nm = &self.p.exts[k as usize];
                let short = short_name(nm);
                Err(Ev::Violation("panic".into(), format!("panic ({}) {} at {}", short, msg, loc)))
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = args[0].0.bits();
                match &a[0] {
                    Val::C(x) => Ok(Some(Val::C(match kind {
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                        "ctpop" => x.count_ones() as u128,
                        "bswap" => { let n = w / 8; let mut r = 0; for i in 0..n { r |= ((x >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); } r }
                        _ => x.reverse_bits() >> (128 - w),
                    }))),
                    Val::E(e) => {
                        let e = *e;
                        let r = match kind {
                            "bswap" => { let mut acc = self.c.extract(e, 7, 0); for i in 1..w / 8 { let b = self.c.extract(e, 8 * i + 7, 8 * i); acc = self.c.concat(acc, b); } acc }
                            "bitreverse" => { let mut acc = self.c.extract(e, 0, 0); for i in 1..w { let b = self.c.extract(e, i, i); acc = self.c.concat(acc, b); } acc }
                            "ctpop" => { let mut acc = self.c.cst(0, w); for i in 0..w { let b = self.c.extract(e, i, i); let b = if w > 1 { self.c.zext(b, w) } else { b }; acc = self.c.add(acc, b); } acc }
                            _ => {
                                let mut acc = self.c.cst(w as u128, w);
                                for j in 0..w {
                                    let i = if kind == "ctlz" { j } else { w - 1 - j };
                                    let b = self.c.extract(e, i, i);
                                    let v = self.c.cst(if kind == "ctlz" { w - 1 - i } else { i } as u128, w);
                                    acc = self.c.ite(b, v, acc);
                                }
                                acc
                            }
                        };
                        Ok(Some(self.mkv(r)))
                    }
                    v => Ok(Some(v.clone())),
                }
            }
            "fshl" | "fshr" => {
                let w = args[0].0.bits();
                if let (Val::C(x), Val::C(y), Val::C(s)) = (&a[0], &a[1], &a[2]) {
                    let s = (*s % w as u128) as u32;
                    let (hi, lo) = (*x, *y);
                    let r = if kind == "fshl" { if s == 0 { hi } else { (hi << s) | (lo >> (w - s)) } } else if s == 0 { lo } else { (lo >> s) | (hi << (w - s)) };
                    return Ok(Some(Val::C(mask(r, w))));
                }
                let s = self.concretize(st, &a[2], w)?;
                let s = (s % w as u128) as u32;
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let k = if kind == "fshl" { s } else { (w - s) % w };
                let r = if kind == "fshr" && s == 0 { y } else if k == 0 { x } else { let h = self.c.extract(x, w - 1 - k, 0); let l = self.c.extract(y, w - 1, w - k); self.c.concat(h, l) };
                Ok(Some(self.mkv(r)))
            }
            "umin" | "umax" | "smin" | "smax" | "usub.sat" | "uadd.sat" | "abs" | "ucmp" | "scmp" => {
                let w = args[0].0.bits();
                let x = self.id(&a[0], w);
                let y = if kind == "abs" { x } else { self.id(&a[1], w) };
                let r = match kind {
                    "umin" => { let g = self.c.ult(x, y); self.c.ite(g, x, y) }
                    "umax" => { let g = self.c.ult(x, y); self.c.ite(g, y, x) }
                    "smin" => { let g = self.c.slt(x, y); self.c.ite(g, x, y) }
                    "smax" => { let g = self.c.slt(x, y); self.c.ite(g, y, x) }
                    "usub.sat" => { let g = self.c.ult(x, y); let d = self.c.sub(x, y); let z = self.c.cst(0, w); self.c.ite(g, z, d) }
                    "uadd.sat" => { let s = self.c.add(x, y); let g = self.c.ult(s, x); let m = self.c.cst(u128::MAX, w); self.c.ite(g, m, s) }
                    "abs" => { let s = self.c.extract(x, w - 1, w - 1); let n = self.c.neg(x); self.c.ite(s, n, x) }
                    _ => {
                        let rw = rt.bits();
                        let (lt, gt) = if kind == "ucmp" { (self.c.ult(x, y), self.c.ult(y, x)) } else { (self.c.slt(x, y), self.c.slt(y, x)) };
                        let (m, z, o) = (self.c.cst(u128::MAX, rw), self.c.cst(0, rw), self.c.cst(1, rw));
                        let g = self.c.ite(gt, o, z);
                        self.c.ite(lt, m, g)
                    }
                };
                Ok(Some(self.mkv(r)))
            }
            "uadd.o" | "usub.o" | "umul.o" | "sadd.o" | "ssub.o" | "smul.o" => {
                let w = args[0].0.bits();
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let (r, o) = match kind {
                    "uadd.o" => { let r = self.c.add(x, y); let (rx, ry) = (self.c.range[x as usize], self.c.range[y as usize]); let o = if rx.1.checked_add(ry.1).map_or(false, |s| s <= mask(u128::MAX, w)) { self.c.f } else { let nx = self.c.not(x); self.c.ult(nx, y) }; (r, o) }
                    "usub.o" => { let r = self.c.sub(x, y); let o = self.c.ult(x, y); (r, o) }
                    "umul.o" => {
                        let r = self.c.mul(x, y);
                        let (rx, ry) = (self.c.range[x as usize], self.c.range[y as usize]);
                        let o = if rx.1.checked_mul(ry.1).map_or(false, |s| s <= mask(u128::MAX, w)) { self.c.f } else if w <= 64 {
                            let (X, Y) = (self.c.zext(x, 2 * w), self.c.zext(y, 2 * w));
                            let p = self.c.mul(X, Y);
                            let h = self.c.extract(p, 2 * w - 1, w);
                            let z = self.c.cst(0, w);
                            let e = self.c.eq(h, z);
                            self.c.not(e)
                        } else { return Err(Ev::Error("umul.with.overflow wider than 64".into())) };
                        (r, o)
                    }
                    "sadd.o" | "ssub.o" => {
                        let r = if kind == "sadd.o" { self.c.add(x, y) } else { self.c.sub(x, y) };
                        let (X, Y) = (self.c.sext(x, w + 1), self.c.sext(y, w + 1));
                        let R = if kind == "sadd.o" { self.c.add(X, Y) } else { self.c.sub(X, Y) };
                        let r2 = self.c.sext(r, w + 1);
                        let e = self.c.eq(R, r2);
                        (r, self.c.not(e))
                    }
                    _ => {
                        let r = self.c.mul(x, y);
                        let (X, Y) = (self.c.sext(x, 2 * w), self.c.sext(y, 2 * w));
                        let R = self.c.mul(X, Y);
                        let r2 = self.c.sext(r, 2 * w);
                        let e = self.c.eq(R, r2);
                        (r, self.c.not(e))
                    }
                };
                let (r, o) = (self.mkv(r), self.mkv(o));
                Ok(Some(Val::Agg(Rc::new(vec![r, o]))))
            }
            "load.relative" => {
                let (p, o) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?);
                self.chk(st, p.wrapping_add(o), 4, "read")?;
                let v = self.rd_bytes(st, p.wrapping_add(o), 4);
                let v = self.vu(st, &v)?;
                Ok(Some(Val::C(p.wrapping_add(v as u32 as i32 as i64 as u64) as u128)))
            }
            "objectsize" => Ok(Some(Val::C(u64::MAX as u128))),
            // ---------------------------------------------------- harness intrinsics
            "vf_sym" => {
                let (p, n) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?);
                let (np, nl) = (self.vu(st, &a[2])?, self.vu(st, &a[3])?);
                let name = self.cstr(st, np, nl);
                self.chk(st, p, n, "write")?;
                let v = self.fresh(st, &name, n as usize);
                for (i, e) in v.iter().enumerate() { self.wr_val(st, p + i as u64, 1, &Val::E(*e)); }
                Ok(None)
            }
            "vf_pick" => {
                // nondeterministic choice in 0..n, explored exhaustively
                let n = self.vu(st, &a[0])?;
                let (np, nl) = (self.vu(st, &a[1])?, self.vu(st, &a[2])?);
                let name = self.cstr(st, np, nl);
                let occ = *st.occ.get(&name).unwrap_or(&0);
                let mut ch = vec![];
                let split = self.splits.get(&name).copied();
                for v in (0..n).rev() {
                    if let Some((i, m)) = split { if v % m != i { continue; } }
                    let mut x = st.clone();
                    *Rc::make_mut(&mut x.occ).entry(name.clone()).or_insert(0) += 1;
                    let bytes: Vec<Id> = (0..8).map(|i| self.c.cst(((v >> (8 * i)) & 0xff) as u128, 8)).collect();
                    Rc::make_mut(&mut x.syms).push((format!("{}#{}", name, occ), bytes));
                    self.finish_call(&mut x, Some(Val::C(v as u128)));
                    ch.push(x);
                }
                Err(Ev::Fork(ch))
            }
            "vf_assume" => {
                match &a[0] {
                    Val::C(k) => if *k & 1 == 1 { Ok(None) } else { Err(Ev::End("assumption".into())) },
                    Val::E(e) => {
                        let g = if self.c.w(*e) > 1 { self.c.extract(*e, 0, 0) } else { *e };
                        let g = self.linear(g);
                        match self.sides(st, g)? {
                            (Some(m), f) => { if f.is_some() { st.model = m; self.assume(st, g); } Ok(None) }
                            (None, _) => Err(Ev::End("assumption".into())),
                        }
                    }
                    _ => Err(Ev::Error("assume on undefined value".into())),
                }
            }
            "vf_check" => {
                let (np, nl) = (self.vu(st, &a[1])?, self.vu(st, &a[2])?);
                let name = self.cstr(st, np, nl);
                self.st.checks += 1;
                *self.st.check_ids.entry(name.clone()).or_insert(0) += 1;
                match &a[0] {
                    Val::C(k) => if *k & 1 == 1 { self.st.checks_syntactic += 1; Ok(None) } else { Err(Ev::Violation(name, "assertion is false".into())) },
                    Val::E(e) => {
                        let g = if self.c.w(*e) > 1 { self.c.extract(*e, 0, 0) } else { *e };
                        let g = self.linear(g);
                        if self.trivially(st, g) == Some(true) { self.st.checks_syntactic += 1; return Ok(None); }
                        let ng = self.c.not(g);
                        self.st.checks_solver += 1;
                        match self.query(st, ng) {
                            Answer::Unsat => { Rc::make_mut(&mut st.known).insert(g, true); Ok(None) }
                            Answer::Sat(m) => {
                                st.model = self.with_model(st, &m);
                                self.assume(st, ng);
                                Err(Ev::Violation(name, "assertion can be false".into()))
                            }
                            Answer::Unknown(_) => {
                                let pre = st.pc.clone();
                                match crate::equiv::prove(self, &pre, &[(g, self.c.t)], &name) {
                                    crate::equiv::Res::Equal => { self.st.checks_sweep += 1; Ok(None) }
                                    crate::equiv::Res::Differ(m) => { st.model = Some(Box::new(Model::new(m))); self.assume(st, ng); Err(Ev::Violation(name, "assertion can be false".into())) }
                                    crate::equiv::Res::Unknown(e) => Err(Ev::Error(format!("check {} undecided: {}", name, e))),
                                }
                            }
                        }
                    }
                    _ => Err(Ev::Error(format!("check {} on an undefined value", name))),
                }
            }
            "vf_check_eq" => {
                let (p, q, n) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?, self.vu(st, &a[2])?);
                let (np, nl) = (self.vu(st, &a[3])?, self.vu(st, &a[4])?);
                let name = self.cstr(st, np, nl);
                self.st.checks += 1;
                *self.st.check_ids.entry(name.clone()).or_insert(0) += 1;
                let mut pairs = vec![];
                let mut i = 0;
                let mut same = true;
                while i < n {
                    let k = if n - i >= 8 { 8 } else { 1 };
                    self.chk(st, p + i, k, "read")?;
                    self.chk(st, q + i, k, "read")?;
                    let (x, y) = (self.rd_bytes(st, p + i, k), self.rd_bytes(st, q + i, k));
                    if matches!(x, Val::Undef) || matches!(y, Val::Undef) { return Err(Ev::Error(format!("check {} on undefined bytes", name))); }
                    let (x, y) = (self.id(&x, 8 * k as u32), self.id(&y, 8 * k as u32));
                    if x != y { same = false; pairs.push((x, y)); }
                    i += k;
                }
                if same { self.st.checks_syntactic += 1; return Ok(None); }
                // first a plain query with a short limit, then sweeping
                let pre = st.pc.clone();
                match crate::equiv::prove(self, &pre, &pairs, &name) {
                    crate::equiv::Res::Equal => { self.st.checks_sweep += 1; Ok(None) }
                    crate::equiv::Res::Differ(m) => {
                        let mut v = st.model.as_ref().map(|m| m.vals.clone()).unwrap_or_default();
                        v.extend(m);
                        st.model = Some(Box::new(Model::new(v)));
                        let mut all = self.c.t;
                        for (x, y) in &pairs { let e = self.c.eq(*x, *y); all = self.c.and(all, e); }
                        let ng = self.c.not(all);
                        self.assume(st, ng);
                        let mut mm = st.model.take().unwrap_or_else(|| Box::new(Model::new(HashMap::new())));
                        let mut det = String::new();
                        for (x, y) in pairs.iter().take(4) { let (u, v) = (self.c.eval(&mut mm, *x), self.c.eval(&mut mm, *y)); if u != v { det.push_str(&format!(" {:x}!={:x}", u, v)); } }
                        st.model = Some(mm);
                        Err(Ev::Violation(name, format!("values differ:{}", det)))
                    }
                    crate::equiv::Res::Unknown(e) => Err(Ev::Error(format!("check {} undecided: {}", name, e))),
                }
            }
            "vf_reach" => {
                let (np, nl) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?);
                let name = self.cstr(st, np, nl);
                if self.ensure_model(st)? { *self.st.reach.entry(name).or_insert(0) += 1; }
                Ok(None)
            }
            "vf_merge" => { let v = self.vu(st, &a[0])?; st.merge = v as u8; Ok(None) }
            "vf_is_symbolic" => Ok(Some(Val::C(1))),
            "vf_skip" => Err(Ev::End("skipped".into())),
            "vf_panics_ok" => { let v = self.vu(st, &a[0])?; st.panics_ok = v != 0; Ok(None) }
            "vf_concretize" => { let v = self.vu(st, &a[0])?; Ok(Some(Val::C(v as u128))) }
            "vf_mux" => { let v = self.vu(st, &a[0])?; self.mux_limit = v; Ok(None) }
            "vf_log" => {
                let (np, nl) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?);
                let name = self.cstr(st, np, nl);
                let v = match &a[2] { Val::C(x) => format!("{:#x}", x), Val::E(e) => self.c.show(*e, 5), v => format!("{:?}", v) };
                if self.trace { eprintln!("log {} = {}", name, v); }
                Ok(None)
            }
            "vf_opaque" => {
                // (id, in ptr, in len, out ptr, out len): uninterpreted function of the input bytes, one fresh
                // output per distinct input expression vector
                let (f, p, n, q, m) = (self.vu(st, &a[0])?, self.vu(st, &a[1])?, self.vu(st, &a[2])?, self.vu(st, &a[3])?, self.vu(st, &a[4])?);
                let mut key = vec![];
                for i in 0..n { key.push(self.byte(st, p + i)?); }
                let nm = format!("opaque{}({})", f, key.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                let kk = format!("{}/{}", nm, m);
                let v = match self.symvars.get(&kk) {
                    Some(v) => v.clone(),
                    None => { let v: Vec<Id> = (0..m).map(|i| self.c.var(&format!("opaque{}_{}[{}]", f, self.symvars.len(), i), 8)).collect(); self.symvars.insert(kk, v.clone()); v }
                };
                self.chk(st, q, m, "write")?;
                for (i, e) in v.iter().enumerate() { self.wr_val(st, q + i as u64, 1, &Val::E(*e)); }
                Ok(None)
            }
            _ => Err(Ev::Error(format!("unmodelled external function {}", self.p.exts[k as usize]))),
        }
    }

    /// complete the call instruction at the top frame with a value (for forks that must not re-execute)
    fn finish_call(&mut self, st: &mut State, v: Option<Val>) {
        let prog = self.p.clone();
        let fr = st.frames.last_mut().unwrap();
        let (dest, _) = &prog.funcs[fr.func as usize].f.blocks[fr.block as usize].insts[fr.pc as usize];
        if let (Some(d), Some(v)) = (dest, v) { fr.locals[*d as usize] = v; }
        fr.pc += 1;
    }

    fn dealloc(&mut self, st: &mut State, p: u64) -> Rz<()> {
        let s = (p >> 32) as usize;
        match st.objs.get(s) {
            Some(Some(o)) if o.heap && !o.freed && p & 0xffff_ffff == 0 => {
                st.objs[s] = Some(Rc::new(Obj { size: 0, pages: vec![], heap: true, freed: true, constant: false }));
                Ok(())
            }
            _ => Err(Ev::Violation("memory".into(), format!("invalid free of {:#x}", p))),
        }
    }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) { (Val::C(x), Val::C(y)) => x == y, (Val::E(x), Val::E(y)) => x == y, _ => false }
}

pub enum CallRes { Entered, Val(Option<Val>) }

fn insert_val(a: Val, t: &Ty, v: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return v.clone(); }
    let k = ix[0] as usize;
    let (n, et) = match t { Ty::Struct(f, _) => (f.len(), f[k].clone()), Ty::Array(n, e) => (*n as usize, (**e).clone()), _ => panic!() };
    let mut x = match a { Val::Agg(x) => (*x).clone(), _ => vec![Val::Undef; n] };
    let old = x[k].clone();
    x[k] = insert_val(old, &et, v, &ix[1..]);
    Val::Agg(Rc::new(x))
}

fn short_name(n: &str) -> String {
    for k in ["panic_bounds_check", "panic_const_add_overflow", "panic_const_sub_overflow", "panic_const_mul_overflow", "panic_const_shl_overflow", "panic_const_shr_overflow",
        "panic_const_div_by_zero", "panic_const_rem_by_zero", "panic_const_neg_overflow", "panic_nounwind", "panic_fmt", "unwrap_failed", "expect_failed", "slice_index_fail", "copy_from_slice", "handle_alloc_error", "handle_error", "assert_failed", "misaligned"] {
        if n.contains(k) { return k.to_string(); }
    }
    "panic".into()
}

fn classify(n: &str) -> String {
    let s = |x: &str| x.to_string();
    if let Some(r) = n.strip_prefix("__vf_") { return format!("vf_{}", r); }
    if let Some(r) = n.strip_prefix("llvm.") {
        for (p, k) in [("memcpy", "memcpy"), ("memmove", "memmove"), ("memset", "memset"), ("assume", "nop"), ("lifetime", "nop"), ("experimental.noalias", "nop"), ("dbg", "nop"), ("donothing", "nop"), ("sideeffect", "nop"), ("prefetch", "nop"),
            ("expect", "id"), ("ctlz", "ctlz"), ("cttz", "cttz"), ("ctpop", "ctpop"), ("bswap", "bswap"), ("bitreverse", "bitreverse"), ("fshl", "fshl"), ("fshr", "fshr"),
            ("umin", "umin"), ("umax", "umax"), ("smin", "smin"), ("smax", "smax"), ("usub.sat", "usub.sat"), ("uadd.sat", "uadd.sat"), ("abs", "abs"), ("ucmp", "ucmp"), ("scmp", "scmp"),
            ("uadd.with.overflow", "uadd.o"), ("usub.with.overflow", "usub.o"), ("umul.with.overflow", "umul.o"), ("sadd.with.overflow", "sadd.o"), ("ssub.with.overflow", "ssub.o"), ("smul.with.overflow", "smul.o"),
            ("load.relative", "load.relative"), ("objectsize", "objectsize"), ("ptrmask", "unknown"), ("trap", "panic"), ("threadlocal.address", "id")] {
            if r.starts_with(p) { return s(k); }
        }
        return s("unknown");
    }
    if n == "__asm" { return s("nop"); }
    if n.contains("__rust_alloc_zeroed") { return s("alloc_zeroed"); }
    if n.contains("__rust_alloc_error_handler") || n.contains("handle_alloc_error") { return s("panic"); }
    if n.contains("__rust_no_alloc_shim") { return s("nop"); }
    if n.contains("___rust_alloc") || n.contains("__rust_alloc") { return s("alloc"); }
    if n.contains("__rust_dealloc") { return s("dealloc"); }
    if n.contains("__rust_realloc") { return s("realloc"); }
    if n.contains("9panicking") || n.contains("unwrap_failed") || n.contains("expect_failed") || n.contains("slice_index_fail") || n.contains("handle_error") || n.contains("len_mismatch_fail") || n.contains("_fail") { return s("panic"); }
    match n { "bcmp" => s("bcmp"), "memcmp" => s("memcmp"), "strlen" => s("strlen"), "memcpy" | "memmove" => s("c_memcpy"), "memset" => s("c_memset"), _ => s("unknown") }
}
