//! T10: EncryptedExtensions and the application protocol.
use crate::{tls::*, vf};

static mut BODY: [u8; 600] = [0; 600];
static mut LEN: usize = 0;
static mut OFFER: [u8; 600] = [0; 600];
static mut OFFERED: usize = 0;
static mut NAME: bool = false;
/// the server's flight with BODY as the body of EncryptedExtensions
fn serve(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    let mut w = W::<700>::new();
    let b = unsafe { &BODY[..LEN] };
    w.u8(8).u24(b.len()).put(b);
    seal(n, 0, 22, w.s(), 0);
    seal(n, 1, 22, certificate_msg(certificate().s()).s(), 0)
}
fn u16at(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }
enum Judged { Refuse, Either, Accept(usize, usize) }
/// RFC 8446 section 4.3.1 and RFC 7301 with the offer; Accept: where the protocol is in the body (length 0: none)
fn judge(b: &[u8]) -> Judged {
    use Judged::*;
    if b.len() < 2 || u16at(b, 0) != b.len() - 2 { return Refuse }
    let mut i = 2;
    let (mut seen0, mut seen10, mut seen16) = (false, false, false);
    let mut proto = (0, 0);
    let mut either = false;
    while i < b.len() {
        if b.len() - i < 4 { return Refuse }
        let (t, l) = (u16at(b, i), u16at(b, i + 2));
        i += 4;
        if l > b.len() - i { return Refuse }
        let l = vf::concretize(l);
        let d = &b[i..i + l];
        match t {
            0 => { if seen0 || !unsafe { NAME } { return Refuse } seen0 = true; if l > 0 { either = true } }
            10 => { if seen10 { return Refuse } seen10 = true; if l < 4 || u16at(d, 0) != l - 2 || l % 2 == 1 { either = true } }
            16 => {
                if seen16 || unsafe { OFFERED } == 0 { return Refuse }
                seen16 = true;
                if l < 4 || u16at(d, 0) != l - 2 || d[2] as usize != l - 3 { return Refuse }
                if !offered(&d[3..]) { return Refuse }
                proto = (i + 3, l - 3)
            }
            _ => return Refuse,
        }
        i += l
    }
    if either { Either } else { Accept(proto.0, proto.1) }
}
fn offered(p: &[u8]) -> bool {
    let o = unsafe { &OFFER[..OFFERED] };
    let mut i = 0;
    let mut found = false;
    while i < o.len() {
        let l = o[i] as usize;
        if l == p.len() { let mut d = 0; for k in 0..l { d |= o[i + 1 + k] ^ p[k] } if d == 0 { found = true } }
        i += 1 + l
    }
    found
}
fn run() {
    let n = net();
    n.serve = serve;
    quick_keys();
    let c = new_conn(if n.suite == 0x1301 { AESGCM } else { CHACHA });
    unsafe {
        if n.suite == 0x1301 { OWN_AEAD = true }
        let x = &mut (*turtls_get_config(c)).ext;
        if OFFERED > 0 { x.app_protos = &raw const OFFER as *const u8; x.app_protos_len = OFFERED }
        if NAME { x.server_name = b"a.b\0".as_ptr() }
        let rc = turtls_connect(c);
        let o = outcome(c, rc, true);
        vf::check(matches!(o, Outcome::Alert(_)), "T10.outcome");
        let p = turtls_app_proto(c);
        match judge(&BODY[..LEN]) {
            Judged::Refuse => vf::check(o != Outcome::Alert(46), "T10.refused"),
            Judged::Either => {}
            Judged::Accept(at, len) => {
                vf::check(o == Outcome::Alert(46), "T10.accepted");
                for i in 0..len { vf::check(*p.add(i) == BODY[at + i], "T10.protocol") }
                vf::check(*p.add(len) == 0, "T10.terminated")
            }
        }
        turtls_free(c)
    }
}
fn offer(k: usize) {
    unsafe {
        NAME = k == 1 || k == 3;
        let l: &[u8] = [&b""[..], b"", b"\x02h2", b"\x01x\x02h2\x03abc"][k];
        OFFER[..l.len()].copy_from_slice(l);
        OFFERED = l.len()
    }
}
entries! {
/// any body of up to 16 bytes
fn t10_any() {
    let len = vf::pick(17, "len");
    offer(vf::pick(4, "offer"));
    net().suite = 0x1301;
    unsafe { LEN = len; vf::sym(&mut BODY[..len], "body") }
    run()
}
/// a list with a known shape, any contents
fn t10_shapes() {
    let k = vf::pick(7, "shape");
    offer(vf::pick(4, "offer"));
    net().suite = 0x1301;
    // lengths of the extensions' data
    let s: &[usize] = [&[5usize][..], &[5, 5], &[5, 0, 6], &[0, 5, 4], &[4, 0, 5], &[0, 0, 0, 0], &[10]][k];
    unsafe {
        let mut i = 2;
        for l in s {
            vf::sym(&mut BODY[i..i + 2], "type");
            vf::sym(&mut BODY[i + 4..i + 4 + *l], "data");
            vf::assume(BODY[i] == 0 && BODY[i + 1] < 64);
            BODY[i + 2] = 0;
            BODY[i + 3] = *l as u8;
            i += 4 + l
        }
        BODY[1] = (i - 2) as u8;
        LEN = i
    }
    run()
}
/// any protocol name of any length against an offer of any names
fn t10_names() {
    let k = vf::pick(6, "offer");
    let which = vf::pick(3, "len");
    net().suite = 0x1301;
    let o: &[usize] = [&[1usize][..], &[2], &[2, 2], &[1, 2, 3], &[6, 1], &[1, 1, 1, 1]][k];
    let len = [o[0], o[o.len() - 1], 4][which];
    if which == 1 && o[0] == len { vf::skip() }
    unsafe {
        let mut i = 0;
        for l in o { OFFER[i] = *l as u8; vf::sym(&mut OFFER[i + 1..i + 1 + l], "offered"); i += 1 + l }
        OFFERED = i;
        let mut w = W::<40>::new();
        w.u16(0).u16(16).u16(len as u16 + 3).u16(len as u16 + 1).u8(len as u8);
        let at = w.n;
        w.n += len;
        w.b[1] = (w.n - 2) as u8;
        vf::sym(&mut w.b[at..at + len], "name");
        for i in 0..len { vf::assume(w.b[at + i] != 0) }
        BODY[..w.n].copy_from_slice(w.s());
        LEN = w.n
    }
    run()
}
/// names up to 255 bytes, both suites
fn t10_long() {
    let len = [254usize, 255, 128, 256][vf::pick(4, "len")];
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let which = vf::pick(3, "which");
    net().suite = suite;
    unsafe {
        // offered: 3 bytes, then (if it can be) this length
        OFFER[..4].copy_from_slice(b"\x03abc");
        OFFER[4] = len as u8;
        for i in 0..len { OFFER[5 + i] = b'a' + (i % 23) as u8 }
        OFFERED = if len < 256 { 5 + len } else { 4 };
        let mut w = W::<600>::new();
        let l = len - if which == 1 { 1 } else { 0 };
        w.u16(4 + l as u16 + 3).u16(16).u16(l as u16 + 3).u16(l as u16 + 1).u8(l as u8);
        for i in 0..l { w.u8(OFFER[5 + i]); }
        if which == 2 { w.b[w.n - 1] ^= 1 }
        LEN = w.n;
        BODY[..w.n].copy_from_slice(w.s())
    }
    run()
}
}
