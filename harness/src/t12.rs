//! T12: what the client sends once it has keys.
use crate::{tls::*, vf};

static mut K: [usize; 3] = [0; 3];
static mut PLAIN: [u8; 24] = [0; 24];
static mut SR: [u8; 32] = [0; 32];
const KINDS: usize = 12;
/// ways for the protected part of a handshake to end; 0 and 1 with a peer that is heard no more
fn flight(n: &mut Net) {
    let k = unsafe { K[0] };
    let mut w = W::<200>::new();
    server_hello_with(&mut w, n.suite, unsafe { &SR }, |w| { ext_versions(w); ext_share(w, server_point()) });
    record(n, 22, w.s());
    agree(n, w.s());
    let ee = loose_enc_exts();
    match k {
        0 => {}
        1 => seal(n, 0, 22, ee.s(), 0),
        2 => record(n, 22, ee.s()),                                    // not protected
        3 => { raw(n, &[23, 3, 3, 0, 16]); raw(n, &[0; 16]) }            // too short
        4 => raw(n, &[23, 3, 3, 0x41, 1]),                             // too long
        5 => seal(n, 0, 22, certificate_msg(certificate().s()).s(), 0), // another message
        6 => seal(n, 0, 23, ee.s(), 0),                                // another type
        7 => seal(n, 0, 22, b"\x08\0\0\x06\0\x04\0\x2b\0\0", 0),       // an unsolicited extension
        8 => { seal(n, 0, 22, ee.s(), 9); seal(n, 1, 22, b"\x0b\0\0\x01\x01", 0) }
        9 => { seal(n, 0, 22, ee.s(), 0); seal(n, 1, 20, b"\x01", 0) }
        10 => { seal(n, 0, 22, &ee.s()[..6], 0); seal(n, 1, 22, &ee.s()[6..], 0); seal(n, 2, 22, loose_certificate_msg().s(), 0) }
        _ => { seal(n, 0, 22, ee.s(), 0); record(n, 20, &[1]); seal(n, 1, 22, loose_certificate_msg().s(), 0) }
    }
}
/// the whole output, read as the server would: the hello, then protected alerts in sequence and nothing else
fn judge(c: *mut Conn, code: Option<u8>) {
    let n = net();
    let mut p = n.hello_len;
    let mut seq = 0;
    while p < n.out_len {
        vf::check(n.out_len >= p + 5 && n.out[p..p + 3] == [23, 3, 3], "T12.protected");
        let l = n.out[p + 3] as usize * 256 + n.out[p + 4] as usize;
        vf::check(l >= 17 && l <= 0x4000 + 256 && p + 5 + l <= n.out_len, "T12.record-length");
        let mut m = [0u8; 64];
        vf::check(l <= 64 + 16, "T12.short");
        let k = l - 16;
        m[..k].copy_from_slice(&n.out[p + 5..p + 5 + k]);
        let cli = n.keys.cli;
        let t = aead(n.suite, &cli, seq, &n.out[p..p + 5], &mut m[..k], false);
        vf::check(t[..] == n.out[p + 5 + k..p + 5 + l], "T12.tag");
        let mut e = k;
        while e > 0 && m[e - 1] == 0 { e -= 1 }
        vf::check(e == 3 && m[2] == 21 && m[0] == 2, "T12.inner");
        if let Some(a) = code { vf::check(m[1] == a, "T12.alert") } else { vf::check(m[1] as i32 == unsafe { turtls_get_tls_error(c) } && m[1] != 0, "T12.alert-reported") }
        seq += 1;
        p += 5 + l
    }
    vf::check(seq == 1 && n.closes == 1 && !n.late, "T12.one-record")
}
fn run(own: bool, name: usize) -> *mut Conn {
    let n = net();
    n.serve = flight;
    unsafe { OWN_AEAD = own }
    let c = new_conn(if n.suite == 0x1301 { AESGCM } else { CHACHA });
    static NAME: [u8; 9] = *b"some.host";
    static mut BUF: [u8; 40] = [0; 40];
    unsafe {
        if name > 0 { for i in 0..name { BUF[i] = NAME[i % 9] } (*turtls_get_config(c)).ext.server_name = &raw const BUF as *const u8 }
        vf::check(turtls_connect(c) == -1, "T12.rc")
    }
    c
}
fn finish(c: *mut Conn) {
    let n = net();
    unsafe {
        if K[0] < 2 {
            vf::check(turtls_get_error(c) == E_READ && n.out_len == n.hello_len, "T12.waiting");
            turtls_close(c);
            judge(c, Some(0))
        } else { vf::check(turtls_get_error(c) == E_TLS, "T12.error"); judge(c, None) }
        // nothing more, whatever is called
        let o = n.out_len;
        turtls_close(c);
        turtls_free(c);
        vf::check(n.out_len == o && n.closes == 1, "T12.nothing-after")
    }
}
fn pieces(n: &mut Net, want: usize) -> isize { if !n.served { want as isize } else { vf::concretize(want.min(n.a)) as isize } }
entries! {
/// any randoms (hence any keys) with AES-GCM
fn t12_any_keys() {
    unsafe { K[0] = vf::pick(KINDS, "kind"); any_random(&mut *(&raw mut SR)) }
    let n = net();
    n.suite = 0x1301;
    let mut r = RANDOM;
    vf::sym(&mut r, "client_random");
    quick_keys();
    for i in 0..32 { n.rng[32 + i] = r[i] }
    finish(run(true, 0))
}
/// both suites against the independent models, with different points and hellos
fn t12_models() {
    let k = vf::pick(KINDS, "kind");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let name = [0, 1, 33][vf::pick(3, "name")];
    unsafe { K[0] = k; SR = SRANDOM }
    let n = net();
    n.suite = suite;
    quick_keys();
    n.server_key = name % 4;
    finish(run(false, name))
}
/// the record accepted in pieces of any size
fn t12_pieces() {
    let k = vf::pick(KINDS, "kind");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    unsafe { K[0] = k; SR = SRANDOM }
    let n = net();
    n.suite = suite;
    quick_keys();
    n.a = 1 + any(25, "size");
    n.on_write = pieces;
    finish(run(true, 0))
}
/// two connections of one object: keys and sequence numbers of their own
fn t12_again() {
    let k = vf::pick(KINDS, "kind");
    let k2 = vf::pick(3, "second");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let n = net();
    n.suite = suite;
    quick_keys();
    unsafe {
        K[0] = k;
        SR = SRANDOM;
        let c = run(suite == 0x1301, 0);
        if k < 2 { turtls_close(c) }
        judge(c, if k < 2 { Some(0) } else { None });
        n.out_len = 0; n.in_len = 0; n.in_pos = 0; n.served = false; n.closes = 0; n.hello_len = 0;
        quick_keys();
        K[0] = [0, 7, 11][k2];
        if suite == 0x1301 { vf::sym(&mut *(&raw mut SR), "server_random"); vf::assume(SR[0] != HRR[0]); for i in 0..32 { n.rng[32 + i] = RANDOM[31 - i] } } else { SR[3] = 1 }
        vf::check(turtls_connect(c) == -1, "T12.rc");
        finish(c)
    }
}
}
