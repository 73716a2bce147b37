//! T03: only a ServerHello that answers the offer is accepted.
use crate::{spec::points::SHARES, tls::*, vf};

const MAX: usize = 700;
static mut BODY: [u8; MAX] = [0; MAX];
static mut LEN: usize = 0;
static mut TYPE: u8 = 2;
/// the offer
static mut SUITES: u8 = 3;
/// the share in the body, if any: its index
static mut SHARE: usize = 0;
fn u16at(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }
/// RFC 8446 sections 4.1.3, 4.2.1 and 4.2.8: the suite, if the message is acceptable
fn judge(b: &[u8]) -> Option<u16> {
    if unsafe { TYPE } != 2 || b.len() < 40 { return None }
    if b[2..34] == HRR { return None }
    if b[34] != 0 || b[37] != 0 { return None }
    let suite = u16at(b, 35) as u16;
    let ok = if suite == 0x1301 { AESGCM } else if suite == 0x1303 { CHACHA } else { 0 };
    if ok & unsafe { SUITES } == 0 { return None }
    if u16at(b, 38) != b.len() - 40 { return None }
    let mut i = 40;
    let (mut version, mut share) = (false, false);
    while i < b.len() {
        if b.len() - i < 4 { return None }
        let (t, l) = (u16at(b, i), u16at(b, i + 2));
        i += 4;
        if l > b.len() - i { return None }
        let l = vf::concretize(l);
        let d = &b[i..i + l];
        i += l;
        if t == 43 {
            if version || d != [3, 4] { return None }
            version = true
        } else if t == 51 {
            if share || l != 69 || d[..5] != [0, 0x17, 0, 65, 4] { return None }
            let s = unsafe { &SHARES[SHARE] };
            // the bytes of the point are concrete
            if d[5..37] != s.0 || d[37..] != s.1 || s.2.is_none() { return None }
            share = true
        } else { return None }
    }
    if version && share { Some(if suite == 0x1301 { 0x1301 } else { 0x1303 }) } else { None }
}
static mut ACCEPT: bool = false;
fn serve(n: &mut Net) {
    let b = unsafe { &mut *(&raw mut BODY) };
    let l = unsafe { LEN };
    let j = judge(&b[..l]);
    if j.is_some() { for i in 0..l { b[i] = vf::concretize(b[i] as usize) as u8 } }
    let mut w = W::<720>::new();
    w.u8(unsafe { TYPE }).u24(l).put(&b[..l]);
    record(n, 22, w.s());
    n.hello_len = hello_records(n);
    let Some(suite) = j else { return };
    unsafe { ACCEPT = true }
    n.suite = suite;
    let h = hello(n);
    n.keys = handshake_keys(unsafe { SHARES[SHARE].2.as_ref().unwrap() }, h.s(), w.s(), suite);
    seal(n, 0, 22, loose_enc_exts().s(), 0);
    seal(n, 1, 22, loose_certificate_msg().s(), 0)
}
fn run() {
    let n = net();
    n.serve = serve;
    quick_keys();
    let c = new_conn(unsafe { SUITES });
    unsafe {
        let rc = turtls_connect(c);
        let o = outcome(c, rc, ACCEPT);
        if ACCEPT { vf::reach("T03.accepted"); vf::check(o == Outcome::Alert(46), "T03.accepted") }
        else { vf::check(matches!(o, Outcome::Alert(_)), "T03.refused"); vf::check(o != Outcome::Alert(46), "T03.refused-at-hello") }
        turtls_free(c)
    }
}
/// a ServerHello body with these extensions: their types and data lengths
struct B { w: W<700>, e: usize }
fn begin(suite: u16) -> B {
    let mut w = W::new();
    w.u16(0x0303).put(&SRANDOM).u8(0).u16(suite).u8(0);
    let e = w.vec(2);
    B { w, e }
}
fn versions(w: &mut W<700>) { w.u16(43).u16(2).u16(0x0304); }
fn share(w: &mut W<700>) { let s = unsafe { &SHARES[SHARE] }; w.u16(51).u16(69).u16(GROUP).u16(65).u8(4).put(&s.0).put(&s.1); }
fn finish(mut b: B) {
    b.w.end(b.e, 2);
    unsafe { BODY[..b.w.n].copy_from_slice(b.w.s()); LEN = b.w.n }
}
fn suites(k: usize) { unsafe { SUITES = [3, AESGCM, CHACHA][k] } }
fn sym(from: usize, to: usize, name: &str) { unsafe { vf::sym(&mut BODY[from..to], name) } }
entries! {
/// every byte of an otherwise good message at its place but the random and the coordinates
fn t03_fields() {
    suites(vf::pick(3, "offer"));
    let order = vf::pick(2, "order");
    let mut b = begin(0x1301);
    if order == 0 { versions(&mut b.w); share(&mut b.w) } else { share(&mut b.w); versions(&mut b.w) }
    finish(b);
    sym(34, 40, "head");
    if order == 0 { sym(40, 55, "extensions") } else { sym(40, 49, "extensions"); sym(113, 119, "extensions") }
    run()
}
/// short messages, any bytes
fn t03_short() {
    let len = vf::pick(53, "len");
    suites(0);
    finish(begin(0x1303));
    unsafe { LEN = len }
    sym(34, 34.max(len), "rest");
    run()
}
/// lists with other shapes, any types and any contents but coordinates
fn t03_shapes() {
    let k = vf::pick(12, "shape");
    suites(0);
    // data lengths; 69 stands for a key share, whose type is fixed in half of the cases
    let s: &[usize] = [&[2usize, 69, 0][..], &[69, 2, 2], &[2, 2, 69], &[2, 69, 69], &[69, 69, 2], &[2], &[69], &[3, 69], &[69, 1], &[0, 2, 69, 0], &[2, 69, 5], &[2, 2, 69, 2]][k];
    let mut b = begin(0x1301);
    let mut at = [0usize; 8];
    for (i, l) in s.iter().enumerate() {
        at[i] = b.w.n;
        if *l == 69 { share(&mut b.w) } else { b.w.u16(43).u16(*l as u16); b.w.n += l }
    }
    finish(b);
    for (i, l) in s.iter().enumerate() {
        sym(at[i], at[i] + 2, "type");
        if *l == 69 { sym(at[i] + 4, at[i] + 9, "share") } else { sym(at[i] + 4, at[i] + 4 + l, "data") }
    }
    run()
}
/// key shares of other lengths, for any group
fn t03_share_lengths() {
    let k = vf::pick(14, "len");
    suites(0);
    let len = [0usize, 1, 2, 3, 4, 5, 32, 33, 64, 66, 67, 97, 129, 400][k];
    let mut b = begin(0x1303);
    versions(&mut b.w);
    b.w.u16(51);
    let e = b.w.vec(2);
    let at = b.w.n;
    if k % 2 == 0 { b.w.u16(GROUP).u16(len as u16); }
    for i in 0..len { b.w.u8(if k % 2 == 1 { 0 } else if i == 0 { 4 } else if i < 33 { SHARES[0].0[i - 1] } else if i < 65 { SHARES[0].1[i - 33] } else { 0 }); }
    b.w.end(e, 2);
    let end = b.w.n.min(at + 5);
    finish(b);
    sym(at, end, "share");
    run()
}
/// points on and off the curve
fn t03_points() {
    unsafe { SHARE = vf::pick(SHARES.len(), "point") }
    suites(0);
    let mut b = begin(if vf::pick(2, "suite") == 0 { 0x1301 } else { 0x1303 });
    versions(&mut b.w);
    share(&mut b.w);
    finish(b);
    run()
}
/// other handshake messages
fn t03_type() {
    suites(0);
    let mut b = begin(0x1301);
    versions(&mut b.w);
    share(&mut b.w);
    finish(b);
    unsafe { let mut t = [0]; vf::sym(&mut t, "type"); TYPE = t[0]; if vf::pick(2, "empty") == 1 { LEN = 0 } }
    run()
}
/// requests to retry, with any other contents
fn t03_retry() {
    suites(vf::pick(3, "offer"));
    let k = vf::pick(3, "extensions");
    let mut b = begin(0x1301);
    for i in 0..32 { b.w.b[2 + i] = HRR[i] }
    if k > 0 { versions(&mut b.w) }
    if k == 1 { share(&mut b.w) }
    if k == 2 { b.w.u16(51).u16(2).u16(GROUP); b.w.u16(44).u16(4).u16(2).u16(7); }
    finish(b);
    let near = vf::pick(2, "near");
    if near == 1 { vf::assume(k == 1); let i = vf::pick(4, "byte"); unsafe { BODY[2 + [0, 7, 30, 31][i]] ^= 1 } }
    else { sym(34, 38, "head") }
    run()
}
}
