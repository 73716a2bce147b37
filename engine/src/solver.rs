//! SMT-LIB2 back end: persistent solver processes, query cache, statistics.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(HashMap<u32, u128>),
    Unsat,
    Unknown(String),
}

struct Proc {
    child: Arc<Mutex<Child>>,
    limit: Arc<Mutex<Option<Instant>>>,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}

impl Proc {
    fn start(cmd: &[&str]) -> Proc {
        let mut child = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", cmd[0], e));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let child = Arc::new(Mutex::new(child));
        let limit: Arc<Mutex<Option<Instant>>> = Default::default();
        // the solver's own time limit is not always honoured
        let (wc, wl) = (Arc::downgrade(&child), limit.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let Some(c) = wc.upgrade() else { return };
            if wl.lock().unwrap().map_or(false, |t| Instant::now() > t) { let _ = c.lock().unwrap().kill(); return }
        });
        Proc { child, limit, inp, out }
    }
    fn within(&self, ms: u64) { *self.limit.lock().unwrap() = Some(Instant::now() + Duration::from_millis(ms)); }
    fn done(&self) { *self.limit.lock().unwrap() = None; }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

pub struct Solver {
    main: Option<Proc>,
    main_cmd: Vec<String>,
    pub cache: HashMap<Vec<Id>, Answer>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub escalated: u64,
    pub cross: u64,
    pub time: f64,
    pub max_time: f64,
    pub quick_ms: u64,
    pub slow_ms: u64,
    pub cross_check: bool,
    pub dump: Option<String>,
    declared: u64,
    text_cache: HashMap<String, bool>,
}

fn bvconst(v: u128, w: u32) -> String {
    if w == 1 { return if v == 1 { "true".into() } else { "false".into() }; }
    if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) }
}

fn sort(w: u32) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }

/// SMT text for the cone of `asserts`.
pub fn smt_text(c: &Ctx, asserts: &[Id]) -> (String, Vec<u32>) { smt_text_cut(c, asserts, None) }

/// Same, with a set of nodes treated as free variables (constrained to their known range).
pub fn smt_text_cut(c: &Ctx, asserts: &[Id], cut: Option<&std::collections::HashSet<Id>>) -> (String, Vec<u32>) {
    let cone = match cut { None => c.cone(asserts), Some(k) => c.cone_cut(asserts, k) };
    let is_cut = |e: Id| cut.map_or(false, |k| k.contains(&e));
    // cut queries use position-based names so that equal shapes give equal text
    let pos: HashMap<Id, usize> = if cut.is_some() { cone.iter().enumerate().map(|(i, e)| (*e, i)).collect() } else { HashMap::new() };
    let nm_of = |e: Id| -> String { if cut.is_some() { format!("n{}", pos[&e]) } else { format!("n{}", e) } };
    let mut s = String::new();
    let mut vars = vec![];
    let mut tabs = std::collections::BTreeSet::new();
    let mut ufs = std::collections::BTreeMap::new();
    for &e in &cone {
        let n = c.n(e);
        if is_cut(e) { continue; }
        if n.op == Op::Select { tabs.insert(n.a); }
        if n.op == Op::Uf {
            let ws: Vec<u32> = { let (a, k) = n.args(); (0..k).map(|i| c.w(a[i])).collect() };
            ufs.insert(n.a, (ws, n.w));
        }
    }
    for t in tabs {
        let tb = &c.tables[t as usize];
        let _ = write!(s, "(define-fun T{} ((i {})) {} ", t, sort(tb.iw), sort(tb.w));
        // binary decision tree over index bits
        fn tree(tb: &Table, lo: usize, len: usize, s: &mut String) {
            if len == 1 {
                let k = lo.min(tb.data.len() - 1);
                s.push_str(&bvconst(tb.data[k], tb.w));
                return;
            }
            if lo + len > tb.data.len() && lo >= tb.data.len() {
                s.push_str(&bvconst(*tb.data.last().unwrap(), tb.w));
                return;
            }
            let bit = len.trailing_zeros() - 1;
            let _ = write!(s, "(ite (= ((_ extract {} {}) i) #b1) ", bit, bit);
            tree(tb, lo + len / 2, len / 2, s);
            s.push(' ');
            tree(tb, lo, len / 2, s);
            s.push(')');
        }
        let len = tb.data.len().next_power_of_two();
        if len == 1 { s.push_str(&bvconst(tb.data[0], tb.w)); } else { tree(tb, 0, len, &mut s); }
        s.push_str(")\n");
    }
    for (f, (ws, w)) in ufs {
        let _ = write!(s, "(declare-fun UF{} (", f);
        for x in ws { let _ = write!(s, "{} ", sort(x)); }
        let _ = writeln!(s, ") {})", sort(w));
    }
    let name = |e: Id| -> String {
        let n = c.n(e);
        match n.op { Op::Const => bvconst(n.cval(), n.w), Op::Var if cut.is_none() => format!("v{}", n.a), _ => nm_of(e) }
    };
    for &e in &cone {
        let n = c.n(e);
        if n.op == Op::Const { continue; }
        if is_cut(e) {
            let nm = nm_of(e);
            let _ = writeln!(s, "(declare-const {} {})", nm, sort(n.w));
            if n.w > 1 && n.w <= 128 {
                let (lo, hi) = c.range[e as usize];
                let m = crate::ir::mask(u128::MAX, n.w);
                if lo > 0 { let _ = writeln!(s, "(assert (bvule {} {}))", bvconst(lo, n.w), nm); }
                if hi < m { let _ = writeln!(s, "(assert (bvule {} {}))", nm, bvconst(hi, n.w)); }
            }
            continue;
        }
        if n.op == Op::Var {
            let _ = writeln!(s, "(declare-const {} {})", name(e), sort(n.w));
            vars.push(n.a);
            continue;
        }
        let (a, k) = n.args();
        let x = if k > 0 { name(a[0]) } else { String::new() };
        let y = if k > 1 { name(a[1]) } else { String::new() };
        let b1 = n.w == 1;
        let tobv = |e: Id| -> String { if c.w(e) == 1 { format!("(ite {} #b1 #b0)", name(e)) } else { name(e) } };
        let body = match n.op {
            Op::Not => if b1 { format!("(not {})", x) } else { format!("(bvnot {})", x) },
            Op::Add => format!("(bvadd {} {})", x, y),
            Op::Sub => format!("(bvsub {} {})", x, y),
            Op::Mul => format!("(bvmul {} {})", x, y),
            Op::UDiv => format!("(bvudiv {} {})", x, y),
            Op::URem => format!("(bvurem {} {})", x, y),
            Op::SDiv => format!("(bvsdiv {} {})", x, y),
            Op::SRem => format!("(bvsrem {} {})", x, y),
            Op::And => if b1 { format!("(and {} {})", x, y) } else { format!("(bvand {} {})", x, y) },
            Op::Or => if b1 { format!("(or {} {})", x, y) } else { format!("(bvor {} {})", x, y) },
            Op::Xor => if b1 { format!("(xor {} {})", x, y) } else { format!("(bvxor {} {})", x, y) },
            Op::Shl => format!("(bvshl {} {})", x, y),
            Op::LShr => format!("(bvlshr {} {})", x, y),
            Op::AShr => format!("(bvashr {} {})", x, y),
            Op::Concat => format!("(concat {} {})", tobv(a[0]), tobv(a[1])),
            Op::Extract => {
                let t = format!("((_ extract {} {}) {})", n.c + n.w - 1, n.c, x);
                if b1 { format!("(= {} #b1)", t) } else { t }
            }
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - c.w(a[0]), tobv(a[0])),
            Op::Eq => format!("(= {} {})", x, y),
            Op::Ult => format!("(bvult {} {})", x, y),
            Op::Ule => format!("(bvule {} {})", x, y),
            Op::Slt => format!("(bvslt {} {})", x, y),
            Op::Sle => format!("(bvsle {} {})", x, y),
            Op::Ite => format!("(ite {} {} {})", x, y, name(a[2])),
            Op::Select => format!("(T{} {})", n.a, x),
            Op::Uf => if k == 1 { format!("(UF{} {})", n.a, x) } else { format!("(UF{} {} {})", n.a, x, y) },
            Op::Const | Op::Var => unreachable!(),
        };
        let _ = writeln!(s, "(define-fun {} () {} {})", nm_of(e), sort(n.w), body);
    }
    for &e in asserts { let _ = writeln!(s, "(assert {})", name(e)); }
    (s, vars)
}

impl Solver {
    pub fn new() -> Self {
        let cmd = std::env::var("VSYM_SOLVER").unwrap_or_else(|_| "z3 -in".into());
        Solver {
            main: None, main_cmd: cmd.split_whitespace().map(|x| x.to_string()).collect(), cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0,
            cached: 0, escalated: 0, cross: 0, time: 0.0, max_time: 0.0, quick_ms: 3000, slow_ms: 60000, cross_check: false,
            dump: std::env::var("VSYM_DUMP").ok(), declared: 0, text_cache: HashMap::new(),
        }
    }

    pub fn check(&mut self, c: &Ctx, asserts: &[Id]) -> Answer { self.check_t(c, asserts, self.quick_ms, self.slow_ms) }

    pub fn check_t(&mut self, c: &Ctx, asserts: &[Id], quick: u64, slow: u64) -> Answer {
        let mut key: Vec<Id> = asserts.iter().copied().filter(|&e| e != c.t).collect();
        key.sort_unstable();
        key.dedup();
        if key.contains(&c.f) { return Answer::Unsat; }
        if key.is_empty() { return Answer::Sat(HashMap::new()); }
        if let Some(a) = self.cache.get(&key) {
            if !matches!(a, Answer::Unknown(_)) { self.cached += 1; return a.clone(); }
        }
        let t0 = Instant::now();
        let (text, vars) = smt_text(c, &key);
        let mut ans = self.run_main(c, &text, &vars, quick);
        if let Answer::Unknown(_) = ans {
            if slow > 0 {
                self.escalated += 1;
                ans = self.run_oneshot(c, &text, &vars, slow);
            }
        }
        if self.cross_check {
            if let Answer::Unsat = ans {
                // independent second opinion
                let r = self.run_cmd(&["cvc5", "--lang=smt2", "--tlimit=20000", "--produce-models"], c, &text, &vars, 25000);
                match r { Answer::Unsat => self.cross += 1, Answer::Sat(_) => panic!("SOLVER DISAGREEMENT on {}", text), _ => {} }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        match ans { Answer::Sat(_) => self.sat += 1, Answer::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        if let Some(d) = &self.dump {
            if dt > 1.0 { let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("(set-logic QF_BV)\n{}(check-sat)\n", text)); }
        }
        self.cache.insert(key, ans.clone());
        ans
    }

    /// Validity query over a cut: Unsat is conclusive, anything else is not.
    pub fn unsat_cut(&mut self, c: &Ctx, asserts: &[Id], cut: &std::collections::HashSet<Id>, ms: u64) -> bool {
        let t0 = Instant::now();
        let (text, _) = smt_text_cut(c, asserts, Some(cut));
        if let Some(r) = self.text_cache.get(&text) { self.cached += 1; return *r; }
        let ans = self.run_main_raw(c, &text, ms);
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/c{}.smt2", d, self.queries), format!("; {:.3} {:?}\n{}", dt, matches!(ans, Answer::Unsat), text)); }
        let r = match ans { Answer::Unsat => { self.unsat += 1; true } Answer::Sat(_) => { self.sat += 1; false } _ => { self.unknown += 1; false } };
        self.text_cache.insert(text, r);
        r
    }
    fn run_main_raw(&mut self, c: &Ctx, text: &str, ms: u64) -> Answer { self.run_main(c, text, &[], ms) }

    fn run_main(&mut self, c: &Ctx, text: &str, vars: &[u32], ms: u64) -> Answer {
        self.declared += 1;
        if self.declared > 5000 { self.main = None; self.declared = 0; }
        if self.main.is_none() {
            let cmd: Vec<&str> = self.main_cmd.iter().map(|s| s.as_str()).collect();
            self.main = Some(Proc::start(&cmd));
        }
        let p = self.main.as_mut().unwrap();
        let mut s = String::with_capacity(text.len() + 200);
        let _ = write!(s, "(reset)\n(set-option :timeout {})\n(set-logic QF_UFBV)\n", ms);
        s.push_str(text);
        s.push_str("(check-sat)\n");
        if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() { self.main = None; return Answer::Unknown("solver died".into()); }
        p.within(ms + ms / 2 + 3000);
        let r = Self::read_answer(p, c, vars);
        p.done();
        match r {
            Ok(a) => a,
            Err(e) => { self.main = None; Answer::Unknown(e) }
        }
    }

    fn read_answer(p: &mut Proc, c: &Ctx, vars: &[u32]) -> Result<Answer, String> {
        let mut line = String::new();
        loop {
            line.clear();
            if p.out.read_line(&mut line).map_err(|e| e.to_string())? == 0 { return Err("eof".into()); }
            let l = line.trim();
            if l.is_empty() { continue; }
            if l.starts_with("(error") { return Err(l.to_string()); }
            match l {
                "unsat" => return Ok(Answer::Unsat),
                "unknown" | "timeout" => return Ok(Answer::Unknown("timeout".into())),
                "sat" => break,
                _ => return Err(format!("solver said {}", l)),
            }
        }
        let mut m = HashMap::new();
        if vars.is_empty() { return Ok(Answer::Sat(m)); }
        let mut s = String::from("(get-value (");
        for v in vars { let _ = write!(s, "v{} ", v); }
        s.push_str("))\n(echo \"done\")\n");
        p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).map_err(|e| e.to_string())?;
        let mut txt = String::new();
        loop {
            line.clear();
            if p.out.read_line(&mut line).map_err(|e| e.to_string())? == 0 { return Err("eof".into()); }
            if line.trim() == "done" || line.trim() == "\"done\"" { break; }
            if line.contains("(error") { return Err(line.clone()); }
            txt.push_str(&line);
        }
        let toks: Vec<&str> = txt.split(|ch: char| ch.is_whitespace() || ch == '(' || ch == ')').filter(|t| !t.is_empty()).collect();
        let mut i = 0;
        while i < toks.len() {
            let t = toks[i];
            if let Some(k) = t.strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
                i += 1;
                let v = toks[i];
                let val = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() }
                    else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() }
                    else if v == "true" { 1 } else if v == "false" { 0 }
                    else if v == "_" { i += 1; toks[i].strip_prefix("bv").unwrap().parse().unwrap() }
                    else { return Err(format!("value {}", v)); };
                m.insert(k, val);
            }
            i += 1;
        }
        for v in vars { m.entry(*v).or_insert(0); }
        let _ = c;
        Ok(Answer::Sat(m))
    }

    fn run_oneshot(&mut self, c: &Ctx, text: &str, vars: &[u32], ms: u64) -> Answer {
        // portfolio: the newer z3 and cvc5 on the same text
        let r = self.run_cmd(&["z3-new", "-in", &format!("-T:{}", (ms / 1000).max(1))], c, text, vars, ms);
        if !matches!(r, Answer::Unknown(_)) { return r; }
        self.run_cmd(&["cvc5", "--lang=smt2", "--produce-models", &format!("--tlimit={}", ms)], c, text, vars, ms)
    }

    fn run_cmd(&mut self, cmd: &[&str], c: &Ctx, text: &str, vars: &[u32], ms: u64) -> Answer {
        let mut p = Proc::start(cmd);
        p.within(ms + ms / 2 + 3000);
        let s = format!("(set-option :produce-models true)\n(set-logic QF_UFBV)\n{}(check-sat)\n", text);
        if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() { return Answer::Unknown("solver died".into()); }
        match Self::read_answer(&mut p, c, vars) { Ok(a) => a, Err(e) => Answer::Unknown(e) }
    }
}
