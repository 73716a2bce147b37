//! T08: a handshake message means the same however it is cut into records.
use crate::{tls::*, vf};

static mut CUT: [usize; 2] = [0; 2];
static mut KIND: usize = 0;
static mut TYPE: u8 = 0;
static mut BYTES: [u8; 8] = [0; 8];
fn pieces(total: usize, f: &mut dyn FnMut(usize, usize)) {
    let c = unsafe { CUT };
    let a = vf::concretize(c[0].min(total));
    let b = vf::concretize(c[1].min(total)).max(a);
    for (from, to) in [(0, a), (a, b), (b, total)] { if from < to { f(from, to) } }
}
fn cut_hello(n: &mut Net) {
    let sh = server_hello(n.suite);
    pieces(sh.n, &mut |a, b| record(net(), 22, &sh.s()[a..b]));
    agree(n, sh.s());
    seal(n, 0, 22, loose_enc_exts().s(), 0);
    seal(n, 1, 22, loose_certificate_msg().s(), 0)
}
/// EncryptedExtensions and Certificate as one stream, cut anywhere
fn cut_rest(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    let mut w = W::<600>::new();
    w.put(loose_enc_exts().s()).put(loose_certificate_msg().s());
    let mut seq = 0;
    pieces(w.n, &mut |a, b| { seal(net(), seq, 22, &w.s()[a..b], seq as usize % 2); seq += 1 })
}
fn bytewise(n: &mut Net) {
    let sh = server_hello(n.suite);
    for b in sh.s() { record(n, 22, &[*b]) }
    agree(n, sh.s());
    let mut w = W::<600>::new();
    w.put(loose_enc_exts().s()).put(loose_certificate_msg().s());
    let kind = unsafe { KIND };
    let mut at = 0;
    let mut seq = 0;
    while at < w.n { let k = (1 + (seq as usize * kind) % 3).min(w.n - at); seal(n, seq, 22, &w.s()[at..at + k], 0); seq += 1; at += k }
}
/// something else at the cut: an empty handshake record, or a record of another type
fn intruder(n: &mut Net) {
    let (kind, typ) = unsafe { (KIND, TYPE) };
    let b = unsafe { &BYTES[..if kind & 1 == 0 { 0 } else { 3 }] };
    let sh = server_hello(n.suite);
    if kind < 2 {
        let c = vf::concretize(unsafe { CUT[0] }.min(sh.n - 1));
        if c > 0 { record(n, 22, &sh.s()[..c]) }
        record(n, typ, b);
        record(n, 22, &sh.s()[c..]);
        n.hello_len = hello_records(n);
        return
    }
    record(n, 22, sh.s());
    agree(n, sh.s());
    let mut w = W::<600>::new();
    w.put(loose_enc_exts().s()).put(loose_certificate_msg().s());
    let c = vf::concretize(unsafe { CUT[0] }.min(w.n - 1));
    let mut seq = 0;
    if c > 0 { seal(n, 0, 22, &w.s()[..c], 0); seq = 1 }
    seal(n, seq, typ, b, 0);
    seal(n, seq + 1, 22, &w.s()[c..], 0)
}
/// bytes after the ServerHello in its own record
fn spans_key_change(n: &mut Net) {
    let sh = server_hello(n.suite);
    let mut w = W::<400>::new();
    w.put(sh.s());
    match unsafe { KIND } { 0 => { w.put(enc_exts(|_| {}).s()); } 1 => { w.put(unsafe { &BYTES[..1] }); } 2 => { w.put(unsafe { &BYTES[..4] }); } _ => { w.put(unsafe { &BYTES }); } }
    record(n, 22, w.s());
    agree(n, sh.s());
    seal(n, 0, 22, enc_exts(|_| {}).s(), 0);
    seal(n, 1, 22, certificate_msg(certificate().s()).s(), 0)
}
fn length_only(n: &mut Net) {
    let b = unsafe { BYTES };
    if unsafe { KIND } == 0 { record(n, 22, &[2, b[0], b[1], b[2]]); n.hello_len = hello_records(n); return }
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    if unsafe { KIND } == 1 { seal(n, 0, 22, &[8, b[0], b[1], b[2]], 0); return }
    seal(n, 0, 22, loose_enc_exts().s(), 0);
    seal(n, 1, 22, &[11, b[0], b[1], b[2]], 0)
}
static mut LONG: W<132000> = W { b: [0; 132000], n: 0 };
/// EncryptedExtensions longer than a record (an extension without meaning to the client makes up the length)
fn long(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    let w = unsafe { &mut *(&raw mut LONG) };
    let len = unsafe { CUT[0] };
    w.u8(8);
    let m = w.vec(3);
    let e = w.vec(2);
    w.u16(10);
    let x = w.vec(2);
    for i in 0..len - 10 { w.u8(i as u8); }
    w.end(x, 2);
    w.end(e, 2);
    w.end(m, 3);
    let mut at = 0;
    let mut seq = 0;
    while at < w.n { let k = (w.n - at).min(0x4000); seal(n, seq, 22, &w.s()[at..at + k], 0); at += k; seq += 1 }
    seal(n, seq, 22, certificate_msg(certificate().s()).s(), 0)
}
/// a Certificate message of the greatest size, with a long issuer
fn largest(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    seal(n, 0, 22, loose_enc_exts().s(), 0);
    let w = unsafe { &mut *(&raw mut LONG) };
    let total = unsafe { CUT[0] };
    w.u8(11);
    let m = w.vec(3);
    w.u8(0);
    let l = w.vec(3);
    let d = w.vec(3);
    w.put(&[0x30, 0x83]);
    let cert = w.vec(3);
    w.put(&[0x30, 0x83]);
    let tbs = w.vec(3);
    w.put(&[0xa0, 3, 2, 1, 2, 2, 1, 1, 0x30, 10, 6, 8]).put(&OID_ECDSA_SHA256);
    w.put(&[0x30, 0x83]);
    let issuer = w.vec(3);
    while w.n < total - 70 { w.u8(w.n as u8); }
    w.end(issuer, 3);
    w.put(&[0x30, 4, 0x17, 0, 0x18, 0, 0x30, 0, 0x30, 0, 0xa3, 0]);
    w.end(tbs, 3);
    w.put(&[0x30, 10, 6, 8]).put(&OID_ECDSA_SHA256).put(&[3, 9, 0, 0x30, 6, 2, 1, 5, 2, 1, 7]);
    w.end(cert, 3);
    w.end(d, 3);
    let x = w.vec(2);
    while w.n < total { w.u8(0); }
    w.end(x, 2);
    w.end(l, 3);
    w.end(m, 3);
    let (mut at, mut seq) = (0, 1);
    while at < w.n { let k = (w.n - at).min(0x4000); seal(n, seq, 22, &w.s()[at..at + k], 0); at += k; seq += 1 }
}
fn setup(serve: fn(&mut Net), suite: u16) -> *mut Conn {
    let n = net();
    n.suite = suite;
    quick_keys();
    if suite == 0x1301 { unsafe { OWN_AEAD = true; vf::sym(&mut *(&raw mut LOOSE), "loose") } }
    n.serve = serve;
    new_conn(if suite == 0x1301 { AESGCM } else { CHACHA })
}
fn accepted(c: *mut Conn) {
    let rc = unsafe { turtls_connect(c) };
    vf::check(outcome(c, rc, true) == Outcome::Alert(46), "T08.message-read");
    vf::check(net().in_pos == net().in_len, "T08.all-read");
    unsafe { turtls_free(c) }
}
fn rejected(c: *mut Conn, prot: bool) {
    let rc = unsafe { turtls_connect(c) };
    let o = outcome(c, rc, prot);
    vf::check(matches!(o, Outcome::Alert(_)), "T08.rejected");
    vf::check(o != Outcome::Alert(46), "T08.not-read-as-certificate");
    unsafe { turtls_free(c) }
}
fn two_cuts(max: usize) {
    let part = vf::pick(8, "part");
    let a = 1 + any(max, "cut");
    vf::assume(a % 8 == part);
    unsafe { CUT = [a, a + 1 + any(6, "gap")] }
}
entries! {
fn t08_server_hello() { two_cuts(122); accepted(setup(cut_hello, 0x1301)) }
fn t08_other_messages() { two_cuts(190); accepted(setup(cut_rest, 0x1301)) }
fn t08_bytewise() {
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    unsafe { KIND = vf::pick(3, "kind") }
    accepted(setup(bytewise, suite))
}
/// empty handshake records, and records of another type in and between messages
fn t08_intruders() {
    let part = vf::pick(8, "part");
    let kind = vf::pick(4, "kind");
    let c = setup(intruder, 0x1301);
    let mut t = [0u8; 1];
    vf::sym(&mut t, "type");
    let at = any(190, "cut");
    vf::assume(at % 8 == part && (at < 122 || kind >= 2));
    unsafe {
        KIND = kind;
        CUT[0] = at;
        vf::sym(&mut *(&raw mut BYTES), "bytes");
        TYPE = t[0];
        // an empty handshake record; anything of another type (a plaintext change_cipher_spec of one byte is another matter)
        if kind & 1 == 0 { vf::assume(t[0] == 22 || t[0] == 23 || t[0] == 0 || t[0] == 20 || t[0] == 21) } else { vf::assume(t[0] != 22) }
        // a zero type is padding: the record is then of the type of its last byte
        if t[0] == 0 && kind == 3 { vf::assume(BYTES[2] != 22) ; vf::assume(BYTES[2] != 0) ; vf::assume(BYTES[2] != 21) }
    }
    rejected(c, kind >= 2)
}
fn t08_spans_key_change() {
    unsafe { KIND = vf::pick(4, "kind") }
    let c = setup(spans_key_change, 0x1301);
    unsafe { vf::sym(&mut *(&raw mut BYTES), "bytes") }
    rejected(c, true)
}
/// message lengths: anything up to 2^17 in all is waited for, more is refused at once
fn t08_length() {
    let kind = vf::pick(3, "kind");
    let want = vf::pick(2, "fits") == 1;
    unsafe { KIND = kind }
    let c = setup(length_only, 0x1301);
    unsafe {
        vf::sym(&mut *(&raw mut BYTES), "length");
        let l = (BYTES[0] as usize) << 16 | (BYTES[1] as usize) << 8 | BYTES[2] as usize;
        vf::assume(l > 0 && (l <= 0x20000 - 4) == want);
    }
    vf::merge(true);
    let rc = unsafe { turtls_connect(c) };
    let o = outcome(c, rc, kind > 0);
    if want { vf::check(o == Outcome::Want(E_READ), "T08.waits") } else { vf::check(matches!(o, Outcome::Alert(_)), "T08.too-long") }
}
/// the largest message there may be
fn t08_largest() {
    let c = setup(largest, 0x1301);
    unsafe { CUT[0] = 0x20000 - vf::pick(2, "less") }
    accepted(c)
}
/// messages longer than a record, and at the size the buffer grows
fn t08_long() {
    let k = vf::pick(5, "len");
    let c = setup(long, 0x1301);
    unsafe { CUT[0] = [0x4000 - 3, 0x4000, 0x4001, 20000, 65537][k] }
    accepted(c)
}
}
