//! T11: a connection object that is used again starts afresh.
use crate::{spec::points::MULT, tls::*, vf};

static mut K: [usize; 2] = [0; 2];
static mut B: [u8; 40] = [0; 40];
const PROTOS: [u8; 6] = *b"\x02h2\x02ab";
/// the first connection's server
fn first(n: &mut Net) {
    let k = unsafe { K[0] };
    n.hello_len = hello_records(n);
    let mut sh = server_hello(n.suite);
    match k {
        2 => return record(n, 21, unsafe { &B[..2] }),                            // alert
        3 => { sh.b[4 + 34] = 9; record(n, 22, sh.s()); return }                  // refused
        4 => { record(n, 22, &sh.s()[..50]); raw(n, &[22, 3, 3, 0x7f, 0xff]); return } // too long a record
        5 => return record(n, 22, b"\x02\xff\xff\xff"),                            // too long a message
        _ => {}
    }
    // two messages in one record: what is left of it must not survive
    if k == 6 { sh.put(b"\x08\0\0\x02\0\0\x0b"); }
    if k == 6 { record(n, 22, sh.s()) } else { record(n, 22, sh.s()) }
    sh.n = server_hello(n.suite).n;
    agree(n, sh.s());
    if k == 6 { return }
    let ee = enc_exts(|w| { w.u16(16).u16(5).u16(3).put(b"\x02h2"); });
    match k {
        7 => seal(n, 0, 21, unsafe { &B[..2] }, 0),
        8 => { seal(n, 0, 22, ee.s(), 0); n.inp[n.in_len - 3] ^= 4 }
        9 => { seal(n, 0, 22, &ee.s()[..7], 0); seal(n, 1, 22, &ee.s()[7..9], 40) }
        10 => { let mut w = W::<400>::new(); w.put(ee.s()).put(&certificate_msg(certificate().s()).s()[..30]); seal(n, 0, 22, w.s(), 0) }
        _ => { seal(n, 0, 22, ee.s(), 0); seal(n, 1, 22, loose_certificate_msg().s(), 3) }
    }
}
/// the second connection's server: its flight, whole or with an answer that is refused
fn second(n: &mut Net) {
    let sh = server_hello(n.suite);
    if unsafe { K[1] } == 1 { let mut sh = sh; sh.b[4 + 34] = 9; n.hello_len = hello_records(n); return record(n, 22, sh.s()) }
    // in many small records, so that positions that were not reset show
    let mut p = 0;
    while p < sh.n { let e = (p + 41).min(sh.n); record(n, 22, &sh.s()[p..e]); p = e }
    agree(n, sh.s());
    let ee = enc_exts(|w| { w.u16(10).u16(4).u16(2).u16(23); });
    seal(n, 0, 22, &ee.s()[..2], 0);
    seal(n, 1, 22, &ee.s()[2..], 0);
    if unsafe { K[1] } == 2 { return }
    seal(n, 2, 22, certificate_msg(certificate().s()).s(), 0)
}
fn until(n: &mut Net, want: usize, have: usize) -> isize {
    if n.in_pos >= n.a || have == 0 { return -1 }
    vf::concretize(want.min(have).min(n.a - n.in_pos)) as isize
}
fn some_output(n: &mut Net, want: usize) -> isize {
    if n.served { return want as isize }
    if n.out_len >= n.b { return -1 }
    vf::concretize(want.min(n.b - n.out_len)) as isize
}
fn fresh(n: &mut Net) {
    n.out_len = 0; n.in_len = 0; n.in_pos = 0; n.served = false; n.closes = 0; n.hello_len = 0; n.reads = 0; n.writes = 0;
    n.on_read = read_all; n.on_write = write_all; n.a = 0; n.b = 0;
    n.rng_fail_at = usize::MAX
}
/// the second connection, on whichever object: returns how it went
fn again(c: *mut Conn, random: &[u8; 32]) -> Outcome {
    let n = net();
    fresh(n);
    n.serve = second;
    seed(&MULT[1], random);
    n.server_key = 3;
    let rc = unsafe { turtls_connect(c) };
    let mut o = outcome(c, rc, unsafe { K[1] } != 1);
    vf::check(n.rng_pos == 64, "T11.random-drawn");
    vf::check(unsafe { *turtls_app_proto(c) } == 0, "T11.no-protocol");
    if unsafe { K[1] } == 2 {
        vf::check(o == Outcome::Want(E_READ), "T11.resumable");
        vf::check(n.closes == 0, "T11.open");
        unsafe { turtls_close(c) }
        vf::check(n.closes == 1 && sent_alert(n, true) == Some(0), "T11.close");
        o = Outcome::Alert(0)
    }
    vf::check(n.in_pos == n.in_len, "T11.all-read");
    o
}
fn config(c: *mut Conn, bits: u8) { unsafe { let x = &mut *turtls_get_config(c); x.ciphers = bits; x.ext.app_protos = (&raw const PROTOS_S) as *const u8; x.ext.app_protos_len = 6 } }
static PROTOS_S: [u8; 6] = PROTOS;
static mut ANY: bool = false;
static mut OUT1: [u8; 1000] = [0; 1000];
fn all(k: usize, suite: usize, how: usize, prepare: impl Fn(&mut Net)) {
    let (bit, s) = suite_of(suite);
    let n = net();
    n.suite = s;
    unsafe {
        K = [k, how];
        if s == 0x1301 { OWN_AEAD = true; vf::sym(&mut *(&raw mut B), "alert") } else { B[1] = 40 }
        B[0] = 2;
    }
    quick_keys();
    n.serve = first;
    prepare(n);
    let c = unsafe { turtls_new(io()) };
    config(c, bit);
    unsafe {
        let rc = turtls_connect(c);
        vf::check(rc == -1, "T11.rc");
        // interrupted: given up
        let e = turtls_get_error(c);
        if e == E_READ || e == E_WRITE { vf::check(n.closes == 0, "T11.open"); n.on_write = write_all; turtls_close(c); vf::check(n.closes == 1, "T11.closed") }
        let mut random = [7u8; 32];
        if ANY { vf::sym(&mut random, "random") }
        let o = again(c, &random);
        vf::check(o == match K[1] { 0 => Outcome::Alert(46), 2 => Outcome::Alert(0), _ => o }, "T11.outcome");
        let len = n.out_len;
        vf::check(len <= 1000, "T11.length");
        OUT1[..len].copy_from_slice(&n.out[..len]);
        // a new object, the same peer and random source
        let d = turtls_new(io());
        config(d, bit);
        vf::check(again(d, &random) == o, "T11.same-outcome");
        vf::check(n.out_len == len, "T11.same-length");
        vf::check_eq(&n.out[..len], &OUT1[..len], "T11.same-output");
        turtls_free(c);
        turtls_free(d)
    }
}
entries! {
/// connections that failed on their own
fn t11_failed() {
    let k = 2 + vf::pick(10, "first");
    let s = vf::pick(2, "suite");
    all(k, s, vf::pick(3, "second"), |_| {})
}
/// any random of the second connection
fn t11_any_random() {
    unsafe { ANY = true }
    all([3, 8, 11][vf::pick(3, "first")], 0, vf::pick(2, "second"), |_| {})
}
/// connections given up while something was awaited from the peer, at any byte
fn t11_reading() {
    let k = [6, 9, 10, 11][vf::pick(4, "first")];
    let part = vf::pick(8, "part");
    let s = vf::pick(2, "suite");
    let at = any(260, "at");
    vf::assume(at % 8 == part);
    let at = vf::concretize(at);
    all(k, s, at % 3, |n| { n.a = at; n.on_read = until })
}
/// connections given up while the hello was being sent, at any byte
fn t11_writing() {
    let part = vf::pick(8, "part");
    let s = vf::pick(2, "suite");
    let at = any(170, "at");
    vf::assume(at % 8 == part);
    let at = vf::concretize(at);
    all(11, s, at % 3, |n| { n.b = at; n.on_write = some_output })
}
/// connections that could not begin, or whose alert could not be sent
fn t11_refused() {
    let k = vf::pick(4, "why");
    let s = vf::pick(2, "suite");
    let at = if k < 3 { k } else { any(24, "at") };
    let at = vf::concretize(at);
    all([11, 11, 3, 11][k], s, if k < 2 { vf::pick(3, "second") } else { at % 3 }, |n| match k {
        0 => n.rng_fail_at = 0,
        1 => n.rng_fail_at = 32,
        2 => n.on_write = no_alert,
        _ => { n.on_write = no_alert; n.b = at }
    })
}
}
/// after the hello only n.b bytes
fn no_alert(n: &mut Net, want: usize) -> isize {
    if !n.served { return want as isize }
    let sent = n.out_len - n.hello_len;
    if sent >= n.b { -1 } else { vf::concretize(want.min(n.b - sent)) as isize }
}
