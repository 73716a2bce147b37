//! Linked program: functions with resolved constants, global memory image, CFG analyses.
use crate::ir::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(u32),
    Agg(Rc<Vec<Val>>),
    Undef,
}

pub struct XFunc {
    pub f: Func,
    pub consts: Vec<Val>,
    pub local_ty: Vec<Ty>,
    /// immediate post-dominator per block (None = function exit), over blocks that can reach a return
    pub ipdom: Vec<Option<u32>>,
    pub live_exit: Vec<bool>,
    pub first: Vec<u32>, // first non-phi
    pub live_in: Vec<Vec<u32>>,
}

pub struct Glob {
    pub name: String,
    pub off: u64,
    pub size: u64,
    pub constant: bool,
}

pub struct Program {
    pub funcs: Vec<XFunc>,
    pub fn_index: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub globs: Vec<Glob>, // sorted by off
    pub gmem: Vec<u8>,
}

pub const SLOT_FN: u64 = 1;
pub const SLOT_GLOB: u64 = 2;
pub const SLOT_DYN: u64 = 16;

struct Linker {
    mods: Vec<Module>,
    sym: HashMap<String, (usize, usize, bool)>, // name -> (module, idx, is_fn)
    local: Vec<HashMap<String, (usize, bool)>>,
    fn_ids: HashMap<(usize, usize), u32>,
    g_off: HashMap<(usize, usize), u64>,
    exts: Vec<String>,
    ext_ix: HashMap<String, u32>,
    extaddr: HashMap<String, u64>,
}

enum Res { Fn(u32), Glob(u64), Ext(String) }

impl Linker {
    fn resolve(&self, m: usize, name: &str) -> Res {
        let hit = self.local[m].get(name).map(|(i, f)| (m, *i, *f)).or_else(|| self.sym.get(name).copied());
        match hit {
            Some((mm, i, true)) => Res::Fn(self.fn_ids[&(mm, i)]),
            Some((mm, i, false)) => Res::Glob((SLOT_GLOB << 32) + self.g_off[&(mm, i)]),
            None => {
                for (a, c) in &self.mods[m].aliases {
                    if a == name { if let Cst::Global(g) = c { return self.resolve(m, g); } }
                }
                Res::Ext(name.to_string())
            }
        }
    }
    fn addr(&mut self, m: usize, name: &str) -> u64 {
        match self.resolve(m, name) {
            Res::Fn(k) => (SLOT_FN << 32) + 16 + 16 * k as u64,
            Res::Glob(a) => a,
            Res::Ext(n) => {
                // address of an unmodelled symbol: place it in the function slot's upper half
                let k = self.extaddr.len() as u64;
                *self.extaddr.entry(n).or_insert((SLOT_FN << 32) + 0x4000_0000 + 16 * k)
            }
        }
    }
    fn val(&mut self, m: usize, ty: &Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => match ty { Ty::Int(w) => Val::C(mask(*v, *w)), Ty::Ptr => Val::C(mask(*v, 64)), Ty::Float(w) => Val::C(mask(*v, *w)), _ => Val::Undef },
            Cst::Undef => match ty {
                Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| self.val(m, t, &Cst::Undef)).collect())),
                Ty::Array(n, t) => Val::Agg(Rc::new((0..*n).map(|_| self.val(m, t, &Cst::Undef)).collect())),
                _ => Val::Undef,
            },
            Cst::Zero => match ty {
                Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| self.val(m, t, &Cst::Zero)).collect())),
                Ty::Array(n, t) => Val::Agg(Rc::new((0..*n).map(|_| self.val(m, t, &Cst::Zero)).collect())),
                _ => Val::C(0),
            },
            Cst::Null => Val::C(0),
            Cst::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            Cst::Agg(v) => Val::Agg(Rc::new(v.iter().map(|(t, c)| self.val(m, t, c)).collect())),
            Cst::Global(g) => Val::C(self.addr(m, g) as u128),
            _ => Val::C(mask(self.num(m, ty, c) as u128, if let Ty::Int(w) = ty { *w } else { 64 })),
        }
    }
    fn num(&mut self, m: usize, ty: &Ty, c: &Cst) -> i128 {
        match c {
            Cst::Int(v) => if let Ty::Int(w) = ty { sext(*v, *w) } else { *v as i128 },
            Cst::Zero | Cst::Null | Cst::Undef => 0,
            Cst::Global(g) => self.addr(m, g) as i128,
            Cst::Gep(t, b, idx) => {
                let mut a = self.num(m, &Ty::Ptr, b);
                let mut t = t.clone();
                for (k, (it, ic)) in idx.iter().enumerate() {
                    let v = self.num(m, it, ic);
                    if k == 0 { a += v * t.size() as i128; continue; }
                    match t.clone() {
                        Ty::Array(_, e) => { a += v * e.size() as i128; t = (*e).clone(); }
                        Ty::Struct(f, _) => { let (o, _) = t.struct_layout(); a += o[v as usize] as i128; t = f[v as usize].clone(); }
                        _ => panic!("const gep"),
                    }
                }
                a
            }
            Cst::Cast(op, ft, c, tt) => {
                let v = self.num(m, ft, c);
                match (op.as_str(), tt) {
                    ("zext", _) => mask(v as u128, ft.bits()) as i128,
                    (_, Ty::Int(w)) => sext(v as u128, *w),
                    _ => v,
                }
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.num(m, t, a), self.num(m, t, b));
                let r = match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "and" => x & y, "or" => x | y, "xor" => x ^ y, _ => x << y };
                if let Ty::Int(w) = t { sext(r as u128, *w) } else { r }
            }
            _ => panic!("const expr {:?}", c),
        }
    }
    fn write(&mut self, m: usize, mem: &mut [u8], ty: &Ty, c: &Cst) {
        match (ty, c) {
            (_, Cst::Zero) | (_, Cst::Undef) | (_, Cst::Null) => {}
            (Ty::Array(..), Cst::Bytes(b)) => mem[..b.len()].copy_from_slice(b),
            (Ty::Array(_, e), Cst::Agg(v)) => {
                let s = e.size() as usize;
                for (i, (t, c)) in v.iter().enumerate() { self.write(m, &mut mem[i * s..], t, c); }
            }
            (Ty::Struct(..), Cst::Agg(v)) => {
                let (o, _) = ty.struct_layout();
                for (i, (t, c)) in v.iter().enumerate() { self.write(m, &mut mem[o[i] as usize..], t, c); }
            }
            _ => {
                let v = self.num(m, ty, c);
                let n = ty.store_size() as usize;
                mem[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
}

pub fn link(texts: &[String]) -> Result<Program, String> {
    let mut mods = vec![];
    for (i, t) in texts.iter().enumerate() { mods.push(parse_module(t, i)?); }
    let mut lk = Linker { mods: vec![], sym: HashMap::new(), local: vec![], fn_ids: HashMap::new(), g_off: HashMap::new(), exts: vec![], ext_ix: HashMap::new(), extaddr: HashMap::new() };
    let mut globs: Vec<Glob> = vec![];
    let mut off = 64u64;
    let mut nf = 0u32;
    for (mi, m) in mods.iter().enumerate() {
        let mut loc = HashMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            if g.init.is_none() { continue; }
            if g.internal { loc.insert(g.name.clone(), (i, false)); } else { lk.sym.entry(g.name.clone()).or_insert((mi, i, false)); }
            let al = g.align.max(16);
            off = (off + al - 1) / al * al;
            lk.g_off.insert((mi, i), off);
            globs.push(Glob { name: g.name.clone(), off, size: g.ty.size(), constant: g.constant });
            off += g.ty.size() + 32;
        }
        for (i, f) in m.funcs.iter().enumerate() {
            if f.internal { loc.insert(f.name.clone(), (i, true)); } else { lk.sym.entry(f.name.clone()).or_insert((mi, i, true)); }
            lk.fn_ids.insert((mi, i), nf);
            nf += 1;
        }
        lk.local.push(loc);
    }
    lk.mods = mods;
    let mut gmem = vec![0u8; off as usize + 64];
    for mi in 0..lk.mods.len() {
        for i in 0..lk.mods[mi].globals.len() {
            if lk.mods[mi].globals[i].init.is_none() { continue; }
            let o = lk.g_off[&(mi, i)] as usize;
            let (ty, c) = (lk.mods[mi].globals[i].ty.clone(), lk.mods[mi].globals[i].init.clone().unwrap());
            lk.write(mi, &mut gmem[o..], &ty, &c);
        }
    }
    let mut funcs = vec![];
    let mut fn_index = HashMap::new();
    for mi in 0..lk.mods.len() {
        let fs = std::mem::take(&mut lk.mods[mi].funcs);
        // keep lookup tables valid: only names are needed from here on
        for mut f in fs {
            let consts: Vec<Val> = { let cs = f.consts.clone(); cs.iter().map(|(t, c)| lk.val(mi, t, c)).collect() };
            for b in f.blocks.iter_mut() {
                for (_, ins) in b.insts.iter_mut() {
                    if let Inst::Call(_, callee, _) = ins {
                        if let Callee::Direct(n) = callee {
                            let r = match lk.resolve(mi, n) {
                                Res::Fn(k) => Callee::Fn(k),
                                _ => {
                                    let n = n.clone();
                                    let l = lk.exts.len() as u32;
                                    let k = *lk.ext_ix.entry(n.clone()).or_insert(l);
                                    if k == l { lk.exts.push(n); }
                                    Callee::Ext(k)
                                }
                            };
                            *callee = r;
                        }
                    }
                }
            }
            let idx = funcs.len() as u32;
            if !f.internal { fn_index.entry(f.name.clone()).or_insert(idx); }
            funcs.push(analyse(f, consts));
        }
    }
    Ok(Program { funcs, fn_index, exts: lk.exts, globs, gmem })
}

pub fn succs(f: &Func, b: usize) -> Vec<u32> {
    match &f.blocks[b].insts.last().unwrap().1 {
        Inst::Br(x) => vec![*x],
        Inst::CondBr(_, x, y) => vec![*x, *y],
        Inst::Switch(_, _, d, cs) => { let mut v = vec![*d]; v.extend(cs.iter().map(|c| c.1)); v }
        _ => vec![],
    }
}

fn ops_of(i: &Inst, out: &mut Vec<u32>) {
    let mut p = |o: &Operand| if let Operand::Local(x) = o { out.push(*x) };
    match i {
        Inst::Bin(_, _, a, b) | Inst::ICmp(_, _, a, b) => { p(a); p(b) }
        Inst::Cast(_, _, a, _) | Inst::Freeze(a) | Inst::Load(_, a) | Inst::ExtractValue(a, _) => p(a),
        Inst::Select(_, c, _, a, b) => { p(c); p(a); p(b) }
        Inst::Gep(b, _, ix) => { p(b); for x in ix { p(&x.0) } }
        Inst::Store(_, v, a) => { p(v); p(a) }
        Inst::Alloca(_, Some(c)) => p(c),
        Inst::Call(_, c, args) => { if let Callee::Indirect(o) = c { p(o) } for a in args { p(&a.1) } }
        Inst::InsertValue(a, _, v, _, _) => { p(a); p(v) }
        Inst::ExtractElem(a, b) => { p(a); p(b) }
        Inst::InsertElem(_, a, b, c) => { p(a); p(b); p(c) }
        Inst::Shuffle(_, a, b, _) => { p(a); p(b) }
        Inst::AtomicRmw(_, _, a, b) => { p(a); p(b) }
        Inst::CmpXchg(_, a, b, c) => { p(a); p(b); p(c) }
        Inst::Ret(Some((_, o))) => p(o),
        Inst::CondBr(c, _, _) => p(c),
        Inst::Switch(_, v, _, _) => p(v),
        _ => {}
    }
}

fn analyse(f: Func, consts: Vec<Val>) -> XFunc {
    let n = f.blocks.len();
    // local types
    let mut lt = vec![Ty::Void; f.nlocals as usize];
    for (t, l) in &f.params { lt[*l as usize] = t.clone(); }
    for _ in 0..2 {
        for b in &f.blocks {
            for (d, i) in &b.insts {
                let d = match d { Some(d) => *d as usize, None => continue };
                let opty = |o: &Operand| match o { Operand::Local(x) => lt[*x as usize].clone(), Operand::Const(c) => f.consts[*c as usize].0.clone() };
                lt[d] = match i {
                    Inst::Bin(_, t, _, _) => t.clone(),
                    Inst::ICmp(..) => Ty::Int(1),
                    Inst::Cast(_, _, _, t) => t.clone(),
                    Inst::Select(_, _, t, _, _) => t.clone(),
                    Inst::Gep(..) | Inst::Alloca(..) => Ty::Ptr,
                    Inst::Load(t, _) => t.clone(),
                    Inst::Call(t, _, _) => t.clone(),
                    Inst::Phi(t, _) => t.clone(),
                    Inst::ExtractValue(a, ix) => {
                        let mut t = opty(a);
                        for k in ix { t = match t { Ty::Struct(f, _) => f[*k as usize].clone(), Ty::Array(_, e) => (*e).clone(), _ => Ty::Void }; }
                        t
                    }
                    Inst::InsertValue(_, _, _, _, t) => t.clone(),
                    Inst::Freeze(a) => opty(a),
                    Inst::AtomicRmw(_, t, _, _) => t.clone(),
                    Inst::CmpXchg(t, _, _, _) => Ty::Struct(vec![t.clone(), Ty::Int(1)], false),
                    _ => Ty::Void,
                };
            }
        }
    }
    // which blocks reach a return
    let su: Vec<Vec<u32>> = (0..n).map(|b| succs(&f, b)).collect();
    let mut live = vec![false; n];
    for b in 0..n { if let Inst::Ret(_) = f.blocks[b].insts.last().unwrap().1 { live[b] = true; } }
    loop {
        let mut ch = false;
        for b in (0..n).rev() { if !live[b] && su[b].iter().any(|s| live[*s as usize]) { live[b] = true; ch = true; } }
        if !ch { break; }
    }
    // post dominators (Cooper-Harvey-Kennedy on the reversed CFG with a virtual exit = n)
    let mut preds_r: Vec<Vec<usize>> = vec![vec![]; n + 1]; // successors in CFG = predecessors in reverse
    let mut succ_r: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for b in 0..n {
        if !live[b] { continue; }
        let mut ss: Vec<usize> = su[b].iter().map(|x| *x as usize).filter(|x| live[*x]).collect();
        if let Inst::Ret(_) = f.blocks[b].insts.last().unwrap().1 { ss.push(n); }
        for s in ss { preds_r[b].push(s); succ_r[s].push(b); }
    }
    // postorder of reverse graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((x, k)) = st.pop() {
        if k < succ_r[x].len() {
            st.push((x, k + 1));
            let y = succ_r[x][k];
            if !seen[y] { seen[y] = true; st.push((y, 0)); }
        } else { order.push(x); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() { num[*x] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    loop {
        let mut ch = false;
        for &x in order.iter().rev() {
            if x == n { continue; }
            let mut new = usize::MAX;
            for &p in &preds_r[x] {
                if idom[p] == usize::MAX { continue; }
                if new == usize::MAX { new = p; continue; }
                let (mut a, mut b) = (p, new);
                while a != b {
                    while num[a] < num[b] { a = idom[a]; }
                    while num[b] < num[a] { b = idom[b]; }
                }
                new = a;
            }
            if new != usize::MAX && idom[x] != new { idom[x] = new; ch = true; }
        }
        if !ch { break; }
    }
    let ipdom: Vec<Option<u32>> = (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == n { None } else { Some(idom[b] as u32) }).collect();
    let first: Vec<u32> = f.blocks.iter().map(|b| b.insts.iter().position(|(_, i)| !matches!(i, Inst::Phi(..))).unwrap() as u32).collect();
    // liveness: values live at the first non-phi instruction of each block
    let words = (f.nlocals as usize + 63) / 64;
    let mut use_: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut def: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut phi_out: Vec<Vec<u64>> = vec![vec![0; words]; n]; // uses of successors' phis at the end of a block
    let mut phidef: Vec<Vec<u64>> = vec![vec![0; words]; n];
    let mut tmp = vec![];
    for b in 0..n {
        for (d, i) in &f.blocks[b].insts {
            if let Inst::Phi(_, v) = i {
                for (o, p) in v { if let Operand::Local(x) = o { phi_out[*p as usize][*x as usize / 64] |= 1 << (x % 64); } }
                if let Some(d) = d { phidef[b][*d as usize / 64] |= 1 << (d % 64); }
                continue;
            }
            tmp.clear();
            ops_of(i, &mut tmp);
            for x in &tmp { let (w, m) = (*x as usize / 64, 1u64 << (x % 64)); if def[b][w] & m == 0 { use_[b][w] |= m; } }
            if let Some(d) = d { def[b][*d as usize / 64] |= 1 << (d % 64); }
        }
    }
    let mut lin = use_.clone();
    loop {
        let mut ch = false;
        for b in (0..n).rev() {
            for w in 0..words {
                let mut o = phi_out[b][w];
                for s in &su[b] { o |= lin[*s as usize][w] & !phidef[*s as usize][w]; }
                let ni = use_[b][w] | (o & !def[b][w]);
                if ni != lin[b][w] { lin[b][w] = ni; ch = true; }
            }
        }
        if !ch { break; }
    }
    let live_in = (0..n).map(|b| { let mut v = vec![]; for w in 0..words { let mut x = lin[b][w]; while x != 0 { let k = x.trailing_zeros(); v.push((w * 64) as u32 + k); x &= x - 1; } } v }).collect();
    XFunc { f, consts, local_ty: lt, ipdom, live_exit: live, first, live_in }
}

/// Reachable function set from an entry (for evidence).
pub fn reachable(p: &Program, entry: u32) -> HashSet<u32> {
    let mut s = HashSet::new();
    let mut st = vec![entry];
    while let Some(x) = st.pop() {
        if !s.insert(x) { continue; }
        for b in &p.funcs[x as usize].f.blocks { for (_, i) in &b.insts { if let Inst::Call(_, Callee::Fn(k), _) = i { st.push(*k); } } }
    }
    s
}
