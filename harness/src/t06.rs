//! T06: interrupted reads resume without loss.
use crate::{tls::*, vf};

/// delivers in pieces of n.a bytes; if n.b, every delivery is preceded by a failure
fn pieces(n: &mut Net, want: usize, have: usize) -> isize {
    if have == 0 { n.served = true; n.c |= 2; return -1 }
    if n.b > 0 && n.c & 1 == 0 { n.c |= 1; return if n.b == 1 { -1 } else { 0 } }
    n.c &= !1;
    vf::concretize(want.min(have).min(n.a)) as isize
}
static mut CUT: [usize; 3] = [0; 3];
/// delivers up to the next cut, where it fails (n.b: once; else it just comes short)
fn cuts(n: &mut Net, want: usize, have: usize) -> isize {
    if have == 0 { n.c |= 2; return -1 }
    let mut k = want.min(have);
    for i in 0..3 {
        let cut = unsafe { CUT[i] };
        if cut == n.in_pos && cut > 0 && n.b > i { unsafe { CUT[i] = 0 } return -1 }
        if cut > n.in_pos && cut < n.in_pos + k { k = cut - n.in_pos }
    }
    vf::concretize(k) as isize
}
fn late_alert(n: &mut Net) { let sh = server_hello(n.suite); record(n, 22, sh.s()); agree(n, sh.s()); record(n, 20, &[1]); let ee = enc_exts(|_| {}); seal(n, 0, 22, ee.s(), 0); seal(n, 1, 21, unsafe { &ALERT }, 0) }
static mut ALERT: [u8; 2] = [2, 80];
/// a message in three records, of which the second also holds the head of the next message
fn fragments(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, &sh.s()[..3]); record(n, 22, &sh.s()[3..60]); record(n, 22, &sh.s()[60..]);
    agree(n, sh.s());
    let mut w = W::<400>::new();
    w.put(loose_enc_exts().s()).put(loose_certificate_msg().s());
    seal(n, 0, 22, &w.s()[..4], 0); seal(n, 1, 22, &w.s()[4..8], 1); seal(n, 2, 22, &w.s()[8..], 0)
}
/// plaintext only: a ServerHello that is refused (its compression method is 1)
fn refused(n: &mut Net) {
    let mut sh = server_hello(n.suite);
    sh.b[4 + 2 + 32 + 1 + 2] = unsafe { ALERT[0] };
    record(n, 22, sh.s());
    n.hello_len = hello_records(n)
}
fn plain_alert(n: &mut Net) { record(n, 20, &[1]); record(n, 21, unsafe { &ALERT }); n.hello_len = hello_records(n) }
const FLIGHTS: [fn(&mut Net); 5] = [full_flight, fragments, late_alert, refused, plain_alert];
/// connects until the outcome is final or the stream is used up; every failing read is reported as such
fn run(flight: usize, bit: u8) {
    let n = net();
    n.serve = FLIGHTS[flight];
    n.check_reads = true;
    n.c = 0;
    let c = new_conn(bit);
    let mut rounds = 0;
    loop {
        let rc = unsafe { turtls_connect(c) };
        let prot = flight < 3;
        match outcome(c, rc, prot) {
            Outcome::Want(e) => { vf::check(e == E_READ, "T06.want-read"); vf::check(n.c & 2 == 0, "T06.stopped-short") }
            o => {
                let want = match flight { 0 | 1 => Outcome::Alert(46), 3 => Outcome::Alert(47), _ => Outcome::Peer(named(unsafe { ALERT[1] })) };
                if flight == 3 { vf::check(matches!(o, Outcome::Alert(_)), "T06.outcome") } else { vf::check(o == want, "T06.outcome") }
                break
            }
        }
        rounds += 1;
        vf::check(rounds < 2000, "T06.no-progress");
    }
    vf::check(n.in_pos == n.in_len, "T06.all-read");
    unsafe { turtls_free(c) }
}
fn setup(suites: usize) -> u8 {
    let (bit, suite) = if suites == 1 { (AESGCM, 0x1301) } else { suite_of(vf::pick(2, "suite")) };
    let n = net();
    n.suite = suite;
    quick_keys();
    unsafe {
        vf::sym(&mut *(&raw mut ALERT), "alert");
        vf::assume(ALERT[0] != 0);
        if suite == 0x1301 { OWN_AEAD = true; vf::sym(&mut *(&raw mut LOOSE), "loose") } else { ALERT = [2, 99] }
    }
    bit
}
entries! {
/// pieces of any size, with and without a failure before each
fn t06_pieces() {
    let n = net();
    let flight = vf::pick(5, "flight");
    let part = vf::pick(8, "part");
    n.b = vf::pick(3, "fail");
    let bit = setup(2);
    n.a = 1 + any(64, "size");
    vf::assume(n.a % 8 == part);
    n.on_read = pieces;
    run(flight, bit)
}
/// one cut anywhere
fn t06_one_cut() {
    let n = net();
    let flight = vf::pick(5, "flight");
    let part = vf::pick(8, "part");
    n.b = vf::pick(2, "fail");
    let bit = setup(2);
    let cut = 1 + any(450, "cut");
    vf::assume(cut % 8 == part);
    unsafe { CUT[0] = cut }
    n.on_read = cuts;
    run(flight, bit)
}
/// two cuts close to each other
fn t06_two_cuts() {
    let n = net();
    let flight = vf::pick(2, "flight");
    let part = vf::pick(8, "part");
    let bit = setup(1);
    let cut = 1 + any(450, "cut");
    vf::assume(cut % 8 == part);
    unsafe { CUT = [cut, cut + 1 + any(5, "gap"), 0] }
    n.b = 2;
    n.on_read = cuts;
    run(flight, bit)
}
}
