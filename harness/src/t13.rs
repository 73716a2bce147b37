//! T13: Certificate messages are parsed strictly.
use crate::{tls::*, vf};

const MAX: usize = 1000;
static mut BODY: [u8; MAX] = [0; MAX];
static mut LEN: usize = 0;
/// where in BODY the DER headers and other fields are
static mut HEADS: [usize; 40] = [0; 40];
static mut N_HEADS: usize = 0;

#[derive(Clone, Copy, PartialEq)]
enum Judged { Refuse, Either, Accept }
use Judged::*;
fn num(b: &[u8], n: usize) -> usize { let mut v = 0; for i in 0..n { v = v << 8 | b[i] as usize } v }
/// one DER object at the start of b: its tag, its content, what follows, and whether its length is not as DER wants it
struct Obj<'a> { tag: u8, data: &'a [u8], rest: &'a [u8], lax: bool }
fn der(b: &[u8]) -> Option<Obj<'_>> {
    if b.len() < 2 { return None }
    let tag = b[0];
    // there is no such tag in what is looked at here
    if tag & 0x1f == 0x1f { return None }
    let (mut len, mut at, mut lax) = (b[1] as usize, 2, false);
    if b[1] >= 128 {
        let k = vf::concretize(b[1] as usize - 128);
        if k > b.len() - 2 { return None }
        let mut high = 0;
        len = 0;
        for i in 0..k { high |= len >> 40; len = len << 8 | b[2 + i] as usize }
        if high != 0 { return None }
        at += k;
        lax = len < 128 || b[2] == 0;
    }
    if len > b.len() - at { return None }
    let len = vf::concretize(len);
    Some(Obj { tag, data: &b[at..at + len], rest: &b[at + len..], lax })
}
struct Judge { lax: bool }
impl Judge {
    fn obj<'a>(&mut self, b: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
        let o = der(*b)?;
        if o.lax { self.lax = true }
        if tag != 0 && o.tag != tag { return None }
        *b = o.rest;
        Some(o.data)
    }
    fn end(&mut self, b: &[u8]) { if b.len() > 0 { self.lax = true } }
    fn algorithm(&mut self, mut b: &[u8]) -> Option<()> {
        let oid = self.obj(&mut b, 6)?;
        if oid != OID_ECDSA_SHA256 { return None }
        self.end(b);
        Some(())
    }
    fn scalar(&mut self, d: &[u8]) -> Option<()> {
        if d.len() == 0 || d[0] >= 0x80 { return None }
        let d = if d[0] == 0 { if d.len() == 1 || d[1] < 0x80 { return None } &d[1..] } else { d };
        if d.len() > 32 { return None }
        // less than the order, by long comparison from the least significant byte; not zero as the first byte is not
        let mut less = false;
        for i in 0..32 {
            let x = if i < d.len() { d[d.len() - 1 - i] } else { 0 };
            less = x < ORDER_LE[i] || (x == ORDER_LE[i] && less)
        }
        if less { Some(()) } else { None }
    }
    /// RFC 5280 section 4.1 and RFC 3279, as far as the client looks at it
    fn certificate(&mut self, mut b: &[u8]) -> Option<()> {
        let mut cert = self.obj(&mut b, 0x30)?;
        self.end(b);
        let mut tbs = self.obj(&mut cert, 0x30)?;
        let mut v = self.obj(&mut tbs, 0xa0)?;
        let version = self.obj(&mut v, 2)?;
        if version != [2] { return None }
        self.end(v);
        // tags of what the client does not look into are as they should be or it is left open what happens
        for tag in [2, 0x30, 0x30] { if self.any(&mut tbs)? != tag { self.lax = true } }
        let mut val = self.obj(&mut tbs, 0x30)?;
        for _ in 0..2 { let t = self.any(&mut val)?; if t != 0x17 && t != 0x18 { return None } }
        self.end(val);
        for tag in [0x30, 0x30] { if self.any(&mut tbs)? != tag { self.lax = true } }
        if tbs.len() == 0 { self.lax = true } else { if self.any(&mut tbs)? != 0xa3 { self.lax = true } self.end(tbs) }
        let alg = self.obj(&mut cert, 0x30)?;
        self.algorithm(alg)?;
        let sig = self.obj(&mut cert, 3)?;
        self.end(cert);
        if sig.len() == 0 || sig[0] != 0 { return None }
        let mut sig = &sig[1..];
        let mut rs = self.obj(&mut sig, 0x30)?;
        self.end(sig);
        let r = self.obj(&mut rs, 2)?;
        self.scalar(r)?;
        let s = self.obj(&mut rs, 2)?;
        self.scalar(s)?;
        self.end(rs);
        Some(())
    }
    fn any(&mut self, b: &mut &[u8]) -> Option<u8> { let o = der(*b)?; if o.lax { self.lax = true } *b = o.rest; Some(o.tag) }
    /// RFC 8446 section 4.4.2
    fn message(&mut self, b: &[u8]) -> Option<()> {
        if b.len() < 1 { return None }
        let c = vf::concretize(b[0] as usize);
        if c > 0 { self.lax = true }
        if b.len() < 1 + c + 3 { return None }
        let mut l = &b[1 + c + 3..];
        if num(&b[1 + c..], 3) != l.len() || l.len() == 0 { return None }
        // nothing after a refused entry can make up for it, but what is said of it may depend on the order
        while l.len() > 0 {
            if l.len() < 5 { return None }
            let k = num(l, 3);
            if k > l.len() - 5 { return None }
            let k = vf::concretize(k);
            let e = num(&l[3 + k..], 2);
            if e > l.len() - 5 - k { return None }
            let e = vf::concretize(e);
            if e > 0 { self.lax = true }
            self.certificate(&l[3..3 + k])?;
            l = &l[5 + k + e..]
        }
        Some(())
    }
}
fn serve(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    seal(n, 0, 22, enc_exts(|_| ()).s(), 0);
    let b = unsafe { &BODY[..LEN] };
    let mut w = W::<1100>::new();
    w.u8(11).u24(b.len()).put(b);
    seal(n, 1, 22, w.s(), 0)
}
fn run() {
    // a symbolic position is one path per value
    vf::mux(1);
    let n = net();
    n.serve = serve;
    n.suite = 0x1301;
    quick_keys();
    unsafe { OWN_AEAD = true }
    let c = new_conn(AESGCM);
    unsafe {
        let rc = turtls_connect(c);
        let o = outcome(c, rc, true);
        let refused = o == Outcome::Alert(50) || o == Outcome::Alert(42) || o == Outcome::Alert(43) || o == Outcome::Alert(47);
        let mut j = Judge { lax: false };
        let ok = j.message(&BODY[..LEN]).is_some();
        match if !ok { Refuse } else if j.lax { Either } else { Accept } {
            Refuse => vf::check(refused, "T13.refused"),
            Either => vf::check(refused || o == Outcome::Alert(46), "T13.ended"),
            Accept => { vf::check(o == Outcome::Alert(46), "T13.well-formed"); vf::reach("T13.well-formed") }
        }
        turtls_free(c)
    }
}
// ---- building messages
type C = W<MAX>;
fn head(w: &mut C) { unsafe { if N_HEADS < 40 { HEADS[N_HEADS] = w.n; N_HEADS += 1 } } }
/// an object with the length in k bytes (0: short form)
fn obj(w: &mut C, tag: u8, k: usize, f: impl Fn(&mut C)) {
    head(w);
    w.u8(tag);
    if k == 0 { w.u8(0); let s = w.n; f(w); w.end(s, 1) } else { w.u8(128 + k as u8); let s = w.vec(k); f(w); w.end(s, k) }
}
struct Make { form: usize, oid: &'static [u8], version: u8, r: usize, s: usize }
const PLAIN: Make = Make { form: 0, oid: &OID_ECDSA_SHA256, version: 2, r: 1, s: 1 };
/// scalars of this many bytes
fn scalar(w: &mut C, len: usize) { for i in 0..len { w.u8(if i == 0 { 5 } else { 0x80 + i as u8 }); } }
fn cert(w: &mut C, m: &Make) {
    let k = m.form;
    obj(w, 0x30, k, |w| {
        obj(w, 0x30, k, |w| {
            obj(w, 0xa0, 0, |w| obj(w, 2, 0, |w| { w.u8(m.version); }));
            obj(w, 2, 0, |w| { w.u8(1); });
            obj(w, 0x30, 0, |w| obj(w, 6, 0, |w| { w.put(&OID_ECDSA_SHA256); }));
            obj(w, 0x30, 0, |_| ());
            obj(w, 0x30, 0, |w| { obj(w, 0x17, 0, |w| { w.put(b"250101000000Z"); }); obj(w, 0x18, 0, |w| { w.put(b"20350101000000Z"); }) });
            obj(w, 0x30, 0, |_| ());
            obj(w, 0x30, 0, |_| ());
            obj(w, 0xa3, 0, |w| obj(w, 0x30, 0, |_| ()));
        });
        obj(w, 0x30, 0, |w| obj(w, 6, 0, |w| { w.put(m.oid); }));
        obj(w, 3, 0, |w| { w.u8(0); obj(w, 0x30, 0, |w| { obj(w, 2, 0, |w| scalar(w, m.r)); obj(w, 2, 0, |w| scalar(w, m.s)) }) });
    })
}
/// a message with these certificates
fn message(context: usize, certs: &[&dyn Fn(&mut C)], exts: usize) {
    let mut w = C::new();
    w.u8(context as u8);
    for _ in 0..context { w.u8(0xc0); }
    let l = w.vec(3);
    for c in certs {
        let e = w.vec(3);
        c(&mut w);
        w.end(e, 3);
        w.u16(exts as u16);
        for _ in 0..exts { w.u8(0); }
    }
    w.end(l, 3);
    unsafe { BODY[..w.n].copy_from_slice(w.s()); LEN = w.n }
}
fn sym(at: usize, n: usize, name: &str) { unsafe { vf::sym(&mut BODY[at..at + n], name) } }
const LEAST: usize = 21;
entries! {
/// short messages, any bytes
fn t13_short() {
    let len = vf::pick(11, "len");
    unsafe { LEN = len }
    sym(0, len, "body");
    run()
}
/// the fields around the certificates
fn t13_framing() {
    let k = vf::pick(8, "shape");
    let c = |w: &mut C| cert(w, &PLAIN);
    let e = |_: &mut C| ();
    let four = |w: &mut C| { w.put(&[0x30, 2, 5, 0]); };
    let end = || unsafe { LEN };
    match k {
        0 => { message(3, &[&c], 2); sym(0, 1, "context"); unsafe { vf::assume(BODY[0] < 6 || BODY[0] > 150) } }
        1 => { message(0, &[&c], 0); sym(1, 3, "list") }
        2 => { message(0, &[&c], 3); sym(4, 3, "certificate") }
        3 => { message(0, &[&c], 3); sym(end() - 5, 2, "extensions") }
        4 => { message(255, &[&c, &c], 0); sym(256, 3, "list"); sym(end() - 2, 2, "extensions") }
        5 => { message(0, &[&four, &e], 0); sym(0, 7, "lengths"); sym(11, 2, "extensions") }
        6 => { message(0, &[&e, &e], 1); sym(1, end() - 2, "all") }
        _ => { message(0, &[&c, &c, &e], 4); let at = (end() - 13 - 9) / 2 + 3; sym(at - 4, 6, "between") }
    }
    run()
}
/// the header of each object of a certificate
fn t13_headers() {
    let form = vf::pick(2, "form") * 2;
    message(0, &[&|w| cert(w, &Make { form, ..PLAIN })], 0);
    let h = vf::pick(LEAST, "object");
    vf::check(unsafe { N_HEADS } == LEAST, "T13.harness");
    let at = unsafe { HEADS[h] };
    if form == 0 { sym(at, if vf::pick(2, "more") == 1 { 3 } else { 2 }, "header") }
    // only the outer two can be in the long form
    else if h < 2 { sym(at + 2, 2, "length") }
    else { vf::skip() }
    run()
}
/// long forms of lengths
fn t13_long_form() {
    let k = [1usize, 2, 3, 4, 5, 6, 126, 127][vf::pick(8, "bytes")];
    let which = vf::pick(3, "object");
    let c = |w: &mut C| {
        if which == 0 {
            // all is well but for the form
            w.u8(0x30).u8(128 + k as u8);
            let s = w.vec(k);
            cert(w, &PLAIN);
            let l = w.n - s;
            for i in 0..k.min(4) { w.b[s - 1 - i] = (l >> (8 * i)) as u8 }
        } else {
            w.u8(0x30).u8(128 + k as u8);
            for _ in 0..if which == 1 { k } else { k - 1 } { w.u8(0); }
            if which == 1 { for _ in 0..20 { w.u8(0x30); } }
        }
    };
    message(0, &[&c], 0);
    if which == 1 { sym(1 + 3 + 3 + 2, k.min(6), "length") }
    run()
}
/// two neighbouring objects at once, the first with a length not far from the right one
fn t13_pairs() {
    message(0, &[&|w| cert(w, &PLAIN)], 0);
    let h = vf::pick(LEAST - 1, "object");
    unsafe {
        let (a, b) = (HEADS[h] + 1, HEADS[h + 1]);
        let was = BODY[a];
        sym(a, 1, "len");
        vf::assume(BODY[a].wrapping_sub(was).wrapping_add(3) < 7);
        sym(b, 2, "header")
    }
    run()
}
/// ... or any length
fn t13_pairs_far() {
    message(0, &[&|w| cert(w, &PLAIN)], 0);
    let h = vf::pick(LEAST - 1, "object");
    unsafe { sym(HEADS[h] + 1, 1, "len"); sym(HEADS[h + 1], 2, "header") }
    run()
}
/// any version and algorithm
fn t13_version() {
    let l = vf::pick(4, "len");
    message(0, &[&|w| cert(w, &Make { oid: &OID_ECDSA_SHA256[..8 - l], ..PLAIN })], 0);
    unsafe {
        if l == 3 { sym(HEADS[3], 3, "version") } else { sym(HEADS[3] + 2, 1, "version") }
        let oid = HEADS[LEAST - 5];
        vf::check(BODY[oid] == 6, "T13.harness");
        sym(oid + 2, 8 - l, "oid")
    }
    run()
}
/// any scalars of any length
fn t13_scalars() {
    let which = vf::pick(2, "which");
    let len = vf::pick(35, "len");
    let (r, s) = if which == 0 { (len, 1) } else { (2, len) };
    message(0, &[&|w| cert(w, &Make { r, s, ..PLAIN })], 0);
    unsafe {
        let at = HEADS[LEAST - 2 + which];
        vf::check(BODY[at] == 2 && BODY[at + 1] as usize == len, "T13.harness");
        sym(at + 2, len, "scalar");
        sym(HEADS[LEAST - 4] + 2, 1, "unused")
    }
    run()
}
/// a certificate cut short, the lengths around it fitting
fn t13_cut() {
    let c = |w: &mut C| cert(w, &PLAIN);
    let mut w = C::new();
    c(&mut w);
    let total = w.n;
    let at = any(256, "cut");
    vf::assume(at <= total && at % 8 == vf::pick(8, "part"));
    let at = vf::concretize(at);
    unsafe { N_HEADS = 0 }
    let how = vf::pick(3, "how");
    if how == 0 { message(0, &[&|x| { x.put(&w.b[..at]); }], 0) }
    else if how == 1 { message(0, &[&|x| cert(x, &PLAIN), &|x| { x.put(&w.b[..at]); }], 0) }
    // something inserted
    else { message(0, &[&|x| { x.put(&w.b[..at]); x.u8(0).put(&w.b[at..total]); }], 0); sym(7 + at, 1, "inserted") }
    run()
}
/// any one byte
fn t13_byte() {
    let pair = vf::pick(2, "certificate");
    let c = |w: &mut C| cert(w, &PLAIN);
    if pair == 0 { message(0, &[&c], 0) } else { message(0, &[&c, &c], 0) }
    let at = any(512, "at");
    vf::assume(at % 8 == vf::pick(8, "part"));
    let len = unsafe { LEN };
    vf::assume(at < len && (pair == 0 || at >= len / 2));
    let at = vf::concretize(at);
    sym(at, 1, "byte");
    run()
}
}
