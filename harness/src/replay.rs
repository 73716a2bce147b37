//! Native replay of a counterexample / witness: runs the same harness function on concrete inputs against the real
//! crate. Exit 0: every check passed. 10: a check failed or the code panicked. 11: an assumption failed.
use std::collections::HashMap;
fn hexd(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let path = std::env::args().nth(1).expect("usage: replay FILE");
    let text = std::fs::read_to_string(&path).expect("read");
    let mut entry = String::new();
    let mut inputs = HashMap::new();
    for l in text.lines() {
        let mut w = l.split(' ');
        match w.next() {
            Some("entry") => entry = w.next().unwrap().to_string(),
            Some("in") => { let n = w.next().unwrap().to_string(); inputs.insert(n, hexd(w.next().unwrap_or(""))); }
            _ => {}
        }
    }
    *vharness::vf::REP.lock().unwrap() = Some(vharness::vf::Rep { inputs, occ: HashMap::new(), panics_ok: false });
    std::panic::set_hook(Box::new(|i| {
        let ok = vharness::vf::REP.try_lock().map(|g| g.as_ref().unwrap().panics_ok).unwrap_or(false);
        println!("REPLAY panic {}{}", i, if ok { " (allowed)" } else { "" });
        std::process::exit(if ok { 0 } else { 10 });
    }));
    for (n, f) in vharness::entries() {
        if n == entry { f(); println!("REPLAY passed"); std::process::exit(0); }
    }
    println!("REPLAY unknown entry {}", entry);
    std::process::exit(3);
}
