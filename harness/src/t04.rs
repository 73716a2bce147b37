//! T04: the handshake traffic keys are those of RFC 8446 section 7.
use crate::{spec::points::{EDGE, FULL_CLI, MULT}, tls::*, vf};

static mut SYM: bool = false;
static mut ORDER: usize = 0;
static mut CCS: bool = false;
/// a ServerHello in records cut at n.a and n.b, then EncryptedExtensions with n.c bytes of padding
fn serve(n: &mut Net) {
    let mut r = SRANDOM;
    if unsafe { SYM } { any_random(&mut r) }
    let mut sh = W::<200>::new();
    let order = unsafe { ORDER };
    server_hello_with(&mut sh, n.suite, &r, |w| if order == 0 { ext_versions(w); ext_share(w, server_point()) } else { ext_share(w, server_point()); ext_versions(w) });
    let (a, b) = if n.a > 0 { (n.a, n.b.max(n.a)) } else { (sh.n, sh.n) };
    let ccs = unsafe { CCS };
    for (from, to) in [(0, a), (a, b), (b, sh.n)] { if from < to {
        if ccs { record(n, 20, &[1]) }
        record(n, 22, &sh.s()[from..to])
    } }
    agree(n, sh.s());
    if ccs { record(n, 20, &[1]) }
    let ee = enc_exts(|_| {});
    let pad = n.c;
    seal(n, 0, 22, ee.s(), pad);
}
fn run(bit: u8, setup: impl Fn(&mut Config)) {
    let n = net();
    n.serve = serve;
    let c = new_conn(bit);
    setup(unsafe { &mut *turtls_get_config(c) });
    let rc = unsafe { turtls_connect(c) };
    let o = outcome(c, rc, true);
    vf::check(o == Outcome::Want(E_READ), "T04.server-record-accepted");
    vf::check(n.in_pos == n.in_len, "T04.all-read");
    unsafe { turtls_close(c) }
    vf::check(n.closes == 1 && sent_alert(n, true) == Some(0), "T04.client-record");
    unsafe { turtls_free(c) }
}
fn sym_randoms(order: usize, a: usize, b: usize, pad: usize) {
    let n = net();
    n.suite = 0x1301;
    unsafe { OWN_AEAD = true; SYM = true; ORDER = order }
    let mut r = [0u8; 32];
    vf::sym(&mut r, "client_random");
    seed(&MULT[1], &r);
    n.server_key = 2;
    n.a = a; n.b = b; n.c = pad;
}
entries! {
/// AES suite, any two randoms: terms of the two key schedules coincide
fn t04_randoms() {
    let k = vf::pick(4, "way");
    sym_randoms(k % 2, [0, 1, 4, 100][k], [0, 2, 38, 101][k], [0, 1, 0, 5][k]);
    run(AESGCM, |_| {})
}
/// the same with a hello of several hash blocks: a symbolic server name and protocol
fn t04_config() {
    let k = vf::pick(3, "len");
    let len = [1usize, 37, 200][k];
    sym_randoms(0, 0, 0, 0);
    let mut name = [0u8; 256];
    vf::sym(&mut name[..len], "name");
    for i in 0..len { vf::assume(name[i] != 0) }
    let mut alpn = *b"\x02h2\x03xyz";
    vf::sym(&mut alpn[1..3], "alpn");
    run(if k == 1 { AESGCM | CHACHA } else { AESGCM }, |c| { c.ext.server_name = name.as_ptr(); c.ext.app_protos = alpn.as_ptr(); c.ext.app_protos_len = alpn.len() })
}
/// both suites against the reference models from end to end, for every way to cut the ServerHello in two
fn t04_cuts() {
    let (bit, suite) = suite_of(vf::pick(2, "suite"));
    let n = net();
    n.suite = suite;
    quick_keys();
    n.a = vf::pick(123, "cut");
    n.b = n.a;
    n.c = n.a % 3;
    unsafe { ORDER = n.a & 1; CCS = n.a % 5 == 0 }
    run(bit, |_| {})
}
/// key pairs: full-size scalars, and coordinates that begin or end with zero bytes
fn t04_key_pairs() {
    let (bit, suite) = suite_of(vf::pick(2, "suite"));
    let k = vf::pick(7, "keys");
    let n = net();
    n.suite = suite;
    if k == 6 { seed(&FULL_CLI, &RANDOM); n.server_key = 99 } else { seed(&EDGE[k][0], &RANDOM); n.server_key = 100 + k }
    run(bit, |_| {})
}
}
