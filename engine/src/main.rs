mod ir; mod expr; mod solver; mod prog; mod exec; mod anf;
mod equiv;
use std::fmt::Write as _;
use std::rc::Rc;

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

/// vsym --entry NAME --out FILE.json [--time S] [--insts N] file.ll...
fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let (mut entry, mut out, mut files) = (String::new(), String::new(), vec![]);
    let mut time = 800.0f64;
    let mut trace = false;
    let (mut maxv, mut cross, mut keep) = (1usize, false, false);
    let mut overrides: Vec<(String, String)> = vec![];
    let (mut quick, mut slow) = (3000u64, 60000u64);
    let mut list = false;
    let mut splits = std::collections::HashMap::new();
    let mut wit = 0usize;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--entry" => entry = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--time" => time = args.next().unwrap().parse().unwrap(),
            "--max-violations" => maxv = args.next().unwrap().parse().unwrap(),
            "--quick-ms" => quick = args.next().unwrap().parse().unwrap(),
            "--slow-ms" => slow = args.next().unwrap().parse().unwrap(),
            "--override" => { let s = args.next().unwrap(); let (x, y) = s.split_once('=').unwrap(); overrides.push((x.into(), y.into())); }
            "--split" => { let s = args.next().unwrap(); let (n, r) = s.split_once(':').unwrap(); let (i, m) = r.split_once('/').unwrap(); splits.insert(n.to_string(), (i.parse::<u64>().unwrap(), m.parse::<u64>().unwrap())); }
            "--witness" => wit = args.next().unwrap().parse().unwrap(),
            "--cross" => cross = true,
            "--keep-going" => keep = true,
            "--trace" => trace = true,
            "--list" => list = true,
            _ => files.push(a),
        }
    }
    let t0 = std::time::Instant::now();
    let texts: Vec<String> = files.iter().map(|f| std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{}: {}", f, e))).collect();
    let prog = match prog::link(&texts) { Ok(p) => Rc::new(p), Err(e) => { eprintln!("link: {}", e); return 2; } };
    if list { for f in &prog.funcs { println!("{}", f.f.name); } return 0; }
    let mut x = exec::Exec::new(prog.clone());
    x.trace = trace;
    x.splits = splits;
    x.max_wit = wit;
    x.max_viol = maxv;
    x.keep_going = keep;
    x.s.cross_check = cross;
    x.s.quick_ms = quick;
    x.s.slow_ms = slow;
    x.deadline = Some(t0 + std::time::Duration::from_secs_f64(time));
    for (pat, to) in overrides {
        let t = match prog.fn_index.get(&to) { Some(t) => *t, None => { eprintln!("override target {} missing", to); return 2; } };
        let mut hit = 0;
        for (i, f) in prog.funcs.iter().enumerate() { if f.f.name.contains(&pat) { x.overrides.insert(i as u32, t); hit += 1; } }
        if hit == 0 { x.errors.push(format!("override pattern {} matches no function", pat)); }
    }
    if let Err(e) = x.run_entry(&entry) { x.errors.push(e); }
    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::from("{\n");
    let _ = writeln!(j, "\"entry\": \"{}\",\n\"wall_s\": {:.3},", entry, wall);
    let _ = writeln!(j, "\"errors\": [{}],", x.errors.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(", "));
    let mut vs = vec![];
    for v in &x.violations {
        let ins: Vec<String> = v.inputs.iter().map(|(n, b)| format!("[\"{}\", \"{}\"]", esc(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
        vs.push(format!("{{\"id\": \"{}\", \"detail\": \"{}\", \"stack\": [{}], \"inputs\": [{}]}}", esc(&v.id), esc(&v.detail), v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "), ins.join(", ")));
    }
    let _ = writeln!(j, "\"violations\": [{}],", vs.join(",\n"));
    let ws: Vec<String> = x.witnesses.iter().map(|w| format!("[{}]", w.iter().map(|(n, b)| format!("[\"{}\", \"{}\"]", esc(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect::<Vec<_>>().join(", "))).collect();
    let _ = writeln!(j, "\"witnesses\": [{}],", ws.join(",\n"));
    let s = &x.st;
    let _ = writeln!(j, "\"paths\": {}, \"forks\": {}, \"merges\": {}, \"unmerged\": {}, \"insts\": {}, \"sym_insts\": {}, \"nodes\": {}, \"vars\": {}, \"undef_reads\": {},", s.paths, s.forks, s.merges, s.unmerged, s.insts, s.sym_insts, x.c.nodes.len(), x.c.vars.len(), s.undef_reads);
    let _ = writeln!(j, "\"checks\": {}, \"checks_syntactic\": {}, \"checks_solver\": {}, \"checks_sweep\": {},", s.checks, s.checks_syntactic, s.checks_solver, s.checks_sweep);
    let mp = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let _ = writeln!(j, "\"ended\": {{{}}},\n\"reach\": {{{}}},\n\"check_ids\": {{{}}},", mp(&s.ended), mp(&s.reach), mp(&s.check_ids));
    let q = &x.s;
    let _ = writeln!(j, "\"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"escalated\": {}, \"cross_checked\": {}, \"time_s\": {:.3}, \"max_s\": {:.3}}},", q.queries, q.sat, q.unsat, q.unknown, q.cached, q.escalated, q.cross, q.time, q.max_time);
    let _ = writeln!(j, "\"sweeps\": [{}],", x.sweep_log.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(", "));
    let mut fs: Vec<String> = x.called.iter().map(|f| prog.funcs[*f as usize].f.name.clone()).collect();
    fs.sort();
    let _ = writeln!(j, "\"functions\": [{}]", fs.iter().map(|e| format!("\"{}\"", esc(e))).collect::<Vec<_>>().join(", "));
    j.push('}');
    if out.is_empty() { println!("{}", j); } else { std::fs::write(&out, &j).unwrap(); }
    if !x.violations.is_empty() { 1 } else if !x.errors.is_empty() { 2 } else { 0 }
}
