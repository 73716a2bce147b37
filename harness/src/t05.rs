//! T05: after the ServerHello only authentic, in-order records are used.
use crate::{tls::*, vf};

static mut K: usize = 0;
static mut D: [u8; 64] = [0; 64];
static mut SEQ: (u64, u64) = (0, 0);
fn hello_part(n: &mut Net) { let sh = server_hello(n.suite); record(n, 22, sh.s()); agree(n, sh.s()) }
fn ee() -> W<200> { unsafe { ALPN_EE } }
static mut ALPN_EE: W<200> = W { b: [0; 200], n: 0 };
static ALPN: [u8; 6] = *b"\x02h2\x02ab";
fn setup(serve: fn(&mut Net), suite: u16) -> *mut Conn {
    let n = net();
    n.suite = suite;
    quick_keys();
    if suite == 0x1301 { unsafe { OWN_AEAD = true } }
    n.serve = serve;
    unsafe { ALPN_EE = enc_exts(|w| { w.u16(16).u16(5).u16(3).put(b"\x02h2"); }) }
    let c = new_conn(if suite == 0x1301 { AESGCM } else { CHACHA });
    unsafe {
        let x = &mut (*turtls_get_config(c)).ext;
        x.app_protos = ALPN.as_ptr();
        x.app_protos_len = 6;
    }
    c
}
fn connect(c: *mut Conn) -> Outcome { let rc = unsafe { turtls_connect(c) }; outcome(c, rc, true) }
fn no_proto(c: *mut Conn) { vf::check(unsafe { *turtls_app_proto(c) } == 0, "T05.state-untouched") }
fn refused(c: *mut Conn) {
    let o = connect(c);
    vf::check(matches!(o, Outcome::Alert(_)), "T05.refused");
    vf::check(o != Outcome::Alert(46), "T05.not-read-as-certificate");
}

// -- alterations of the first record
fn altered(n: &mut Net) {
    hello_part(n);
    let start = n.in_len;
    let (k, d) = unsafe { (K, &D) };
    seal(n, 0, 22, ee().s(), 2);
    let len = n.in_len - start - 5;
    match k {
        WHOLE_TAG => for i in 0..16 { n.inp[start + 5 + len - 16 + i] ^= d[i] },
        PAIR => { n.inp[start + 5] ^= d[0]; n.inp[start + 5 + len - 1] ^= d[1] }
        WHOLE => {
            for i in 0..3 { n.inp[start + i] ^= d[i] }
            for i in 0..len { n.inp[start + 5 + i] ^= d[3 + i] }
            // not one of the records that carry the tag of a receiver that knows the key
            let mut hdr = [0; 5];
            let mut body = [0; 64];
            hdr.copy_from_slice(&n.inp[start..start + 5]);
            body[..len].copy_from_slice(&n.inp[start + 5..start + 5 + len]);
            let ser = n.keys.ser;
            let t = aead(n.suite, &ser, 0, &hdr, &mut body[..len - 16], false);
            vf::assume(t[..] != body[len - 16..len])
        }
        _ => n.inp[start + if k < 3 { k } else { 2 + k }] ^= d[0], // the type, the version, the body
    }
}
const WHOLE_TAG: usize = 100;
const PAIR: usize = 101;
const WHOLE: usize = 102;

// -- order of the records
fn ordered(n: &mut Net) {
    hello_part(n);
    let (k, s) = unsafe { (K, SEQ) };
    if k == 1 { seal(n, s.0, 22, certificate_msg(certificate().s()).s(), 0) }
    seal(n, s.0, 22, ee().s(), 0);
    if k == 2 { let t = n.keys.ser; n.keys.ser = n.keys.cli; seal(n, s.1, 22, certificate_msg(certificate().s()).s(), 0); n.keys.ser = t }
    else { seal(n, s.1, 22, certificate_msg(certificate().s()).s(), 0) }
}
/// a flight of many small records
fn many(n: &mut Net) {
    hello_part(n);
    let mut w = W::<700>::new();
    w.u8(8).u24(252).u16(250).u16(10).u16(246);
    for i in 0..246 { w.u8(i as u8); }
    w.put(certificate_msg(certificate().s()).s());
    let mut seq = 0;
    for b in w.s() { seal(n, seq, 22, &[*b], 0); seq += 1 }
    if unsafe { K } == 1 { n.in_len -= 23 * 5; let from = n.in_len - 23 * 100; for i in 0..23 { n.inp[n.in_len + i] = n.inp[from + i] } n.in_len += 23 }
}

// -- records that are not protected
fn bare(n: &mut Net) {
    hello_part(n);
    let (k, d) = unsafe { (K, &D) };
    if k == 9 { record(n, 20, &[1]); record(n, 20, &[1]); seal(n, 0, 22, ee().s(), 0); record(n, 20, &[1]); seal(n, 1, 22, certificate_msg(certificate().s()).s(), 0); return }
    if k & 1 == 1 { seal(n, 0, 22, ee().s(), 0) }
    let body = &d[1..];
    record(n, d[0], &body[..[0, 1, 2, 6, 30][k / 2]]);
    seal(n, (k & 1) as u64, 22, ee().s(), 0);
}
// -- padding, empty content
fn padded(n: &mut Net) {
    hello_part(n);
    let k = unsafe { K };
    seal(n, 0, 22, ee().s(), k);
    if k < 100 { seal(n, 1, 22, certificate_msg(certificate().s()).s(), 2 * k) } else { seal(n, 1, 22, certificate_msg(certificate().s()).s(), 0) }
}
static mut BIG: [u8; 16800] = [0; 16800];
fn empty(n: &mut Net) {
    hello_part(n);
    let (k, d) = unsafe { (K, &D) };
    let first = k & 1 == 0;
    if !first { seal(n, 0, 22, ee().s(), 0) }
    let seq = !first as u64;
    // only zeros; a type without content
    if k & 2 == 0 { seal(n, seq, 0, &[], [0, 1, 40, 300][k / 4]) } else { vf::assume(d[0] != 0); seal(n, seq, d[0], &[], [0, 1, 40, 300][k / 4]) }
    seal(n, seq + 1, 22, ee().s(), 0);
}
// -- sizes
fn sized(n: &mut Net) {
    hello_part(n);
    let d = unsafe { &D };
    raw(n, &[23, 3, 3, d[0], d[1]]);
    if unsafe { K } == 1 { let l = vf::concretize(d[0] as usize * 256 + d[1] as usize); raw(n, &d[2..2 + l]) }
}
fn content(n: &mut Net) {
    hello_part(n);
    let (k, s) = unsafe { (K, SEQ.0 as usize) };
    // EncryptedExtensions in a record with k bytes of content and s bytes of padding
    let mut w = W::<17000>::new();
    w.u8(8).u24(k - 4).u16((k - 6) as u16).u16(10).u16((k - 10) as u16);
    while w.n < k { w.u8(7); }
    if k <= 0x4000 || s == 0 { seal(n, 0, 22, w.s(), s) }
    seal(n, 1, 22, certificate_msg(certificate().s()).s(), 0);
}
entries! {
/// the first protected record with any bits of one byte, or of the whole tag, changed
fn t05_altered() {
    let at = vf::pick(40, "where");
    let c = setup(altered, 0x1301);
    unsafe {
        K = if at == 37 { WHOLE_TAG } else if at == 38 { PAIR } else if at == 39 { WHOLE } else { at };
        vf::sym(&mut *(&raw mut D), "delta");
        if at == 37 { let mut z = 0; for i in 0..16 { z |= D[i] } vf::assume(z != 0) }
        else if at == 39 { vf::assume(D[0] == 0) }
        else { vf::assume(D[0] != 0) }
        if at == 0 { vf::assume(D[0] != 23 ^ 21) } // becomes a plaintext alert: T09
    }
    refused(c);
    no_proto(c)
}
/// the same with Poly1305 (the changed byte fixed; C10 has any)
fn t05_altered_chacha() {
    let at = vf::pick(38, "where");
    let mask = vf::pick(3, "mask");
    let c = setup(altered, 0x1303);
    unsafe {
        K = at;
        if at == 37 { K = WHOLE_TAG; vf::sym(&mut *(&raw mut D), "delta"); let mut z = 0; for i in 0..16 { z |= D[i] } vf::assume(z != 0) }
        else { D[0] = [1, 0x80, 0x55][mask] }
    }
    refused(c);
    no_proto(c)
}
/// records under other sequence numbers or keys than the next
fn t05_order() {
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    const S: [(u64, u64, usize); 16] = [(1, 1, 0), (0, 0, 0), (0, 2, 0), (1, 0, 0), (2, 1, 0), (256, 1, 0), (0, 257, 0), (1 << 32, 1, 0), (0, (1 << 32) + 1, 0), (0, 1 << 56, 0), (0, 1 << 63, 0), (u64::MAX, 0, 0), (0, 1, 1), (1, 0, 1), (0, 1, 2), (0, 0, 2)];
    let k = vf::pick(16, "order");
    let c = setup(ordered, suite);
    unsafe { SEQ = (S[k].0, S[k].1); K = S[k].2 }
    refused(c)
}
/// sequence numbers beyond one byte
fn t05_many() {
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let k = vf::pick(2, "replay");
    let c = setup(many, suite);
    unsafe { K = k }
    if k == 1 { refused(c) } else { vf::check(connect(c) == Outcome::Alert(46), "T05.in-order-accepted") }
}
/// plaintext records of any type and content
fn t05_bare() {
    let k = vf::pick(10, "kind");
    let c = setup(bare, 0x1301);
    unsafe {
        K = k;
        vf::sym(&mut *(&raw mut D), "bytes");
        if k == 9 { vf::check(connect(c) == Outcome::Alert(46), "T05.ccs-dropped"); }
        else {
            // a record of application data type is a matter of its tag; a lone 1 is a change_cipher_spec
            vf::assume(D[0] != 23 && !(k / 2 == 1 && D[0] == 20 && D[1] == 1));
            refused(c);
            if k & 1 == 0 { no_proto(c) }
        }
    }
}
fn t05_padding() {
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let k = vf::pick(44, "pad");
    let c = setup(padded, suite);
    unsafe { K = if k < 40 { k } else { [256, 300, 5000, 0x4000 - 15][k - 40] } }
    vf::check(connect(c) == Outcome::Alert(46), "T05.padding-accepted");
    vf::check(unsafe { *turtls_app_proto(c) } == b'h', "T05.first-record-used")
}
/// no content
fn t05_empty() {
    let k = vf::pick(16, "kind");
    let c = setup(empty, 0x1301);
    unsafe { K = k; vf::sym(&mut *(&raw mut D), "bytes") }
    refused(c)
}
/// every record length: too short, too long, or waited for
fn t05_size() {
    let k = vf::pick(2, "short");
    let c = setup(sized, 0x1301);
    unsafe {
        K = k;
        vf::sym(&mut *(&raw mut D), "bytes");
        let l = D[0] as usize * 256 + D[1] as usize;
        if k == 1 { vf::assume(l < 17) }
        else { vf::assume(l >= 17) }
        let o = connect(c);
        if k == 1 || l > 0x4000 + 256 { vf::check(matches!(o, Outcome::Alert(_)), "T05.size-refused") } else { vf::check(o == Outcome::Want(E_READ), "T05.size-accepted") }
    }
}
/// up to 2^14 bytes of content, with padding up to the same limit
fn t05_content() {
    let k = vf::pick(6, "kind");
    let (len, pad, ok) = [(0x4000, 0, true), (0x4000 - 1, 1, true), (0x3f00, 0x100, true), (0x4001, 0, false), (0x4000, 1, false), (0x4000 + 200, 0, false)][k];
    let c = setup(content, 0x1301);
    unsafe { K = len; SEQ.0 = pad as u64 }
    let o = connect(c);
    if ok { vf::check(o == Outcome::Alert(46), "T05.full-record-accepted") } else { vf::check(matches!(o, Outcome::Alert(_)) && o != Outcome::Alert(46), "T05.oversized-refused") }
}
}
