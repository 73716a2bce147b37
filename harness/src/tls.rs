//! A TLS server, a network and a random source around the client's C interface (include/turtls.h).
//! The server side is written from RFC 8446 on the reference models in spec/, and knows nothing of the client's code.
use crate::{spec::{aes, chacha, hm, points::{Pt, EDGE, FULL_CLI, FULL_DH, FULL_SER, MULT}, poly, sha::sha256}, vf};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Io { pub write: extern "C" fn(*const u8, usize, *mut u8) -> isize, pub read: extern "C" fn(*mut u8, usize, *mut u8) -> isize, pub close: extern "C" fn(*mut u8), pub ctx: *mut u8 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Exts { pub server_name: *const u8, pub sig_algs: u16, pub sup_groups: u16, pub app_protos: *const u8, pub app_protos_len: usize }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Config { pub ext: Exts, pub ciphers: u8 }
pub enum Conn {}
pub const CHACHA: u8 = 1;
pub const AESGCM: u8 = 2;
// TurtlsError
pub const E_TLS: i32 = 0;
pub const E_PEER: i32 = 1;
pub const E_RNG: i32 = 2;
pub const E_READ: i32 = 3;
pub const E_WRITE: i32 = 4;
pub const E_ZERO: i32 = 5;
pub const E_MISSING: i32 = 6;
#[cfg_attr(feature = "replay", link(name = "turtls"))]
extern "C" {
    pub fn turtls_new(io: Io) -> *mut Conn;
    pub fn turtls_free(c: *mut Conn);
    pub fn turtls_connect(c: *mut Conn) -> i32;
    pub fn turtls_close(c: *mut Conn);
    pub fn turtls_get_config(c: *mut Conn) -> *mut Config;
    pub fn turtls_get_error(c: *const Conn) -> i32;
    pub fn turtls_get_tls_error(c: *const Conn) -> i32;
    pub fn turtls_app_proto(c: *const Conn) -> *const u8;
    pub fn turtls_stringify_alert(a: i32) -> *const u8;
}

pub const OUT: usize = 40000;
pub const IN: usize = 140000;
/// Everything outside the client. One connection at a time, hence static.
pub struct Net {
    /// what the client wrote, all of it
    pub out: [u8; OUT], pub out_len: usize,
    /// what the server sends; filled by `serve` when the client first reads
    pub inp: [u8; IN], pub in_len: usize, pub in_pos: usize,
    pub serve: fn(&mut Net), pub served: bool,
    /// called with the number of bytes asked for (and how many the peer has sent): how many to deliver, or -1
    pub on_read: fn(&mut Net, usize, usize) -> isize,
    pub on_write: fn(&mut Net, usize) -> isize,
    pub reads: usize, pub writes: usize, pub closes: usize,
    /// a read or a write after the connection was closed
    pub late: bool,
    /// a read past the end of the current record (checked when records are concrete)
    pub check_reads: bool,
    pub rng: [u8; 256], pub rng_len: usize, pub rng_pos: usize, pub rng_fail_at: usize,
    /// free for the entry's own use
    pub a: usize, pub b: usize, pub c: usize,
    pub keys: Keys,
    pub suite: u16,
    pub hello_len: usize,
    pub server_key: usize,
}
#[derive(Clone, Copy)]
pub struct Dir { pub key: [u8; 32], pub iv: [u8; 12] }
#[derive(Clone, Copy)]
pub struct Keys { pub cli: Dir, pub ser: Dir }
pub static mut NET: Net = Net { out: [0; OUT], out_len: 0, inp: [0; IN], in_len: 0, in_pos: 0, serve: no_serve, served: false, on_read: read_all, on_write: write_all,
    reads: 0, writes: 0, closes: 0, late: false, check_reads: false, rng: [0; 256], rng_len: 0, rng_pos: 0, rng_fail_at: usize::MAX, a: 0, b: 0, c: 0, keys: Keys { cli: Dir { key: [0; 32], iv: [0; 12] }, ser: Dir { key: [0; 32], iv: [0; 12] } }, suite: 0x1301, hello_len: 0, server_key: 3 };
pub fn net() -> &'static mut Net { unsafe { &mut *(&raw mut NET) } }
pub fn no_serve(_: &mut Net) {}
pub fn read_all(_: &mut Net, want: usize, have: usize) -> isize { if have == 0 { -1 } else if want < have { want as isize } else { have as isize } }
pub fn write_all(_: &mut Net, want: usize) -> isize { want as isize }
extern "C" fn cb_read(buf: *mut u8, amt: usize, _: *mut u8) -> isize {
    let n = net();
    if n.closes > 0 { n.late = true; return -1 }
    if !n.served { n.served = true; (n.serve)(n) }
    if n.check_reads { vf::check(amt <= record_left(n), "T06.asked-past-record") }
    n.reads += 1;
    let have = n.in_len - n.in_pos;
    let k = (n.on_read)(n, amt, have);
    if k <= 0 { return k }
    let k = k as usize;
    unsafe { core::ptr::copy_nonoverlapping(n.inp.as_ptr().add(n.in_pos), buf, k) }
    n.in_pos += k;
    k as isize
}
/// bytes of the record at in_pos that have not been delivered (its header first)
fn record_left(n: &Net) -> usize {
    let mut p = 0;
    loop {
        let hdr = n.in_pos - p;
        if hdr < 5 { return 5 - hdr }
        let end = p + 5 + (n.inp[p + 3] as usize) * 256 + n.inp[p + 4] as usize;
        if n.in_pos < end { return end - n.in_pos }
        p = end
    }
}
extern "C" fn cb_write(buf: *const u8, amt: usize, _: *mut u8) -> isize {
    let n = net();
    if n.closes > 0 { n.late = true; return -1 }
    n.writes += 1;
    let k = (n.on_write)(n, amt);
    if k <= 0 { return k }
    let k = k as usize;
    unsafe { core::ptr::copy_nonoverlapping(buf, n.out.as_mut_ptr().add(n.out_len), k) }
    n.out_len += k;
    k as isize
}
extern "C" fn cb_close(_: *mut u8) { net().closes += 1 }
pub fn io() -> Io { Io { write: cb_write, read: cb_read, close: cb_close, ctx: core::ptr::null_mut() } }

/// the system's random source: getrandom(2)
fn random(buf: *mut u8, len: usize) -> i64 {
    let n = net();
    if n.rng_pos >= n.rng_fail_at { return -1 }
    for i in 0..len {
        let b = if n.rng_pos < n.rng_len { n.rng[n.rng_pos] } else { 0x5a };
        n.rng_pos += 1;
        unsafe { *buf.add(i) = b }
    }
    len as i64
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn vfstub_syscall(num: i64, a: *mut u8, b: usize, _c: i64) -> i64 {
    if num == 318 { random(a, b) } else { -1 }
}
#[cfg(not(feature = "replay"))]
static mut ERRNO: i32 = 5;
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn vfstub___errno_location() -> *mut i32 { &raw mut ERRNO }
#[cfg(feature = "replay")]
#[no_mangle]
pub unsafe extern "C" fn syscall(num: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if num == 318 {
        let r = random(a as *mut u8, b as usize);
        if r < 0 { *__errno_location() = 5 }
        return r;
    }
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") num => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 { *__errno_location() = -r as i32; return -1 }
    r
}
#[cfg(feature = "replay")]
extern "C" { fn __errno_location() -> *mut i32; }

/// private key (little-endian as the client reads it), then the random of the hello
pub fn seed(key: &Pt, random: &[u8; 32]) {
    let n = net();
    for i in 0..32 { n.rng[i] = key.k[31 - i]; n.rng[32 + i] = random[i] }
    n.rng_len = 64;
    n.rng_pos = 0;
}
pub const RANDOM: [u8; 32] = *b"the thirty-two bytes of a random";
pub const SRANDOM: [u8; 32] = *b"SERVER random that is 32 bytes..";
/// client key 2 G, server key 3 G: the shared secret is the abscissa of 6 G
pub fn quick_keys() { seed(&MULT[1], &RANDOM); net().server_key = 2 }
pub fn server_point() -> &'static Pt { let n = net(); if n.server_key >= 100 { &EDGE[n.server_key - 100][1] } else if n.server_key == 99 { &FULL_SER } else { &MULT[n.server_key] } }
pub fn shared() -> &'static [u8; 32] { let n = net(); if n.server_key >= 100 { &EDGE[n.server_key - 100][2].x } else if n.server_key == 99 { &FULL_DH.x } else { &MULT[2 * (n.server_key + 1) - 1].x } }

// ---- writing bytes
#[derive(Clone, Copy)]
pub struct W<const N: usize> { pub b: [u8; N], pub n: usize }
impl<const N: usize> W<N> {
    pub fn new() -> Self { W { b: [0; N], n: 0 } }
    pub fn u8(&mut self, x: u8) -> &mut Self { self.b[self.n] = x; self.n += 1; self }
    pub fn u16(&mut self, x: u16) -> &mut Self { self.u8((x >> 8) as u8); self.u8(x as u8) }
    pub fn u24(&mut self, x: usize) -> &mut Self { self.u8((x >> 16) as u8); self.u16(x as u16) }
    pub fn put(&mut self, s: &[u8]) -> &mut Self { let n = self.n; self.b[n..n + s.len()].copy_from_slice(s); self.n += s.len(); self }
    pub fn s(&self) -> &[u8] { &self.b[..self.n] }
    /// start of a vector with a length of k bytes, to be closed with `end`
    pub fn vec(&mut self, k: usize) -> usize { for _ in 0..k { self.u8(0); } self.n }
    pub fn end(&mut self, start: usize, k: usize) { let l = self.n - start; for i in 0..k { self.b[start - 1 - i] = (l >> (8 * i)) as u8 } }
}
pub const GROUP: u16 = 0x17;
/// extensions of a ServerHello
pub fn ext_versions<const N: usize>(w: &mut W<N>) { w.u16(43).u16(2).u16(0x0304); }
pub fn ext_share<const N: usize>(w: &mut W<N>, p: &Pt) { w.u16(51).u16(69).u16(GROUP).u16(65).u8(4).put(&p.x).put(&p.y); }
/// a ServerHello message with the header, with the extensions written by f
pub fn server_hello_with<const N: usize>(w: &mut W<N>, suite: u16, random: &[u8; 32], f: impl Fn(&mut W<N>)) {
    w.u8(2);
    let m = w.vec(3);
    w.u16(0x0303).put(random).u8(0).u16(suite).u8(0);
    let e = w.vec(2);
    f(w);
    w.end(e, 2);
    w.end(m, 3);
}
pub fn server_hello(suite: u16) -> W<200> {
    let mut w = W::new();
    server_hello_with(&mut w, suite, &SRANDOM, |w| { ext_versions(w); ext_share(w, server_point()) });
    w
}
pub fn enc_exts(f: impl Fn(&mut W<200>)) -> W<200> {
    let mut w = W::new();
    w.u8(8);
    let m = w.vec(3);
    let e = w.vec(2);
    f(&mut w);
    w.end(e, 2);
    w.end(m, 3);
    w
}
pub fn record(n: &mut Net, typ: u8, body: &[u8]) { raw(n, &[typ, 3, 3, (body.len() >> 8) as u8, body.len() as u8]); raw(n, body) }
pub fn raw(n: &mut Net, body: &[u8]) { let k = n.in_len; n.inp[k..k + body.len()].copy_from_slice(body); n.in_len += body.len() }

// ---- key schedule (RFC 8446 section 7.1) and record protection (section 5.2)
fn own() -> bool { unsafe { OWN_AEAD } }
fn extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    if own() { return crylib::hkdf::extract::<32, 64, crylib::hash::Sha256>(ikm, salt) }
    hm::hmac::<32, 64>(sha256, salt, &[ikm])
}
fn hash(parts: &[&[u8]]) -> [u8; 32] {
    if !own() { return sha256(parts) }
    let mut w = W::<20000>::new();
    for p in parts { w.put(p); }
    <crylib::hash::Sha256 as crylib::hash::Hasher<32>>::hash(w.s())
}
pub fn expand_label(out: &mut [u8], secret: &[u8; 32], label: &[u8], ctx: &[u8]) {
    let mut w = W::<80>::new();
    w.u16(out.len() as u16).u8(6 + label.len() as u8).put(b"tls13 ").put(label).u8(ctx.len() as u8).put(ctx);
    if own() { return crylib::hkdf::expand::<32, 64, crylib::hash::Sha256>(out, secret, w.s()) }
    hm::expand::<32, 64>(sha256, out, secret, w.s())
}
pub fn derive(secret: &[u8; 32], label: &[u8], hash: &[u8; 32]) -> [u8; 32] { let mut o = [0; 32]; expand_label(&mut o, secret, label, hash); o }
fn dir(secret: &[u8; 32], key_len: usize) -> Dir {
    let mut d = Dir { key: [0; 32], iv: [0; 12] };
    expand_label(&mut d.key[..key_len], secret, b"key", b"");
    expand_label(&mut d.iv, secret, b"iv", b"");
    d
}
pub fn handshake_keys(dh: &[u8], client_hello: &[u8], server_hello: &[u8], suite: u16) -> Keys {
    let early = extract(&[0; 32], &[0; 32]);
    let salt = derive(&early, b"derived", &hash(&[]));
    let hs = extract(&salt, dh);
    let th = hash(&[client_hello, server_hello]);
    let kl = if suite == 0x1301 { 16 } else { 32 };
    Keys { cli: dir(&derive(&hs, b"c hs traffic", &th), kl), ser: dir(&derive(&hs, b"s hs traffic", &th), kl) }
}
pub fn nonce(d: &Dir, seq: u64) -> [u8; 12] { let mut n = d.iv; for i in 0..8 { n[4 + i] ^= (seq >> (8 * (7 - i))) as u8 } n }
/// tag, and data encrypted or decrypted in place
pub fn aead(suite: u16, d: &Dir, seq: u64, aad: &[u8], data: &mut [u8], encrypt: bool) -> [u8; 16] {
    let iv = nonce(d, seq);
    if unsafe { OWN_AEAD } { return own_aead(suite, d, &iv, aad, data, encrypt) }
    if suite == 0x1301 { return aes::gcm(&aes::Aes::new(&d.key[..16]), &iv, aad, data, encrypt, aes::gf_mul) }
    let otk = chacha::block(&d.key, 0, &iv);
    if encrypt { chacha::xor(&d.key, 1, &iv, data) }
    let t = poly::aead_tag(&otk, aad, data);
    if !encrypt { chacha::xor(&d.key, 1, &iv, data) }
    t
}
/// Use crylib's hashes, HKDF and AEADs for the server's side (their correctness is C01-C10) where the keys are symbolic.
pub static mut OWN_AEAD: bool = false;
fn own_aead(suite: u16, d: &Dir, iv: &[u8; 12], aad: &[u8], data: &mut [u8], encrypt: bool) -> [u8; 16] {
    use crylib::aead::{chacha::ChaCha20Poly1305, gcm::{Aes128, Gcm}, Aead};
    let mut k = [0u8; 16];
    k.copy_from_slice(&d.key[..16]);
    let run = |c: &dyn Fn(&mut [u8]) -> [u8; 16], data: &mut [u8]| if encrypt { c(data) } else {
        // both are stream ciphers with the tag over the ciphertext
        let mut p = [0u8; 300];
        let n = data.len();
        p[..n].copy_from_slice(data);
        c(&mut p[..n]);
        data.copy_from_slice(&p[..n]);
        c(&mut p[..n])
    };
    if suite == 0x1301 { let g = Gcm::<Aes128>::new(k); run(&|m| g.encrypt_inline(m, aad, iv), data) }
    else { let g = ChaCha20Poly1305::new(d.key); run(&|m| g.encrypt_inline(m, aad, iv), data) }
}
/// appends a protected record of the server: content, its type, zeros
pub fn seal(n: &mut Net, seq: u64, typ: u8, content: &[u8], pad: usize) {
    let len = content.len() + 1 + pad + 16;
    let hdr = [23, 3, 3, (len >> 8) as u8, len as u8];
    raw(n, &hdr);
    let at = n.in_len;
    raw(n, content);
    raw(n, &[typ]);
    for _ in 0..pad { raw(n, &[0]) }
    let (suite, d) = (n.suite, n.keys.ser);
    let end = n.in_len;
    let tag = aead(suite, &d, seq, &hdr, &mut n.inp[at..end], true);
    raw(n, &tag)
}
/// the ClientHello message (without record headers), reassembled from what the client sent first
pub fn hello(n: &Net) -> W<20000> {
    let mut w = W::new();
    let mut p = 0;
    loop {
        vf::check(n.out_len >= p + 5 && n.out[p] == 22, "tls.hello-sent");
        let l = (n.out[p + 3] as usize) * 256 + n.out[p + 4] as usize;
        w.put(&n.out[p + 5..p + 5 + l]);
        p += 5 + l;
        if w.n >= 4 && w.n >= 4 + (w.b[1] as usize) * 65536 + (w.b[2] as usize) * 256 + w.b[3] as usize { break }
    }
    w
}
/// length of the records that carry the hello
pub fn hello_records(n: &Net) -> usize {
    let (mut p, mut got, mut need) = (0, 0, 4);
    while got < need {
        let l = (n.out[p + 3] as usize) * 256 + n.out[p + 4] as usize;
        if p == 0 { need = 4 + (n.out[6] as usize) * 65536 + (n.out[7] as usize) * 256 + n.out[8] as usize }
        got += l;
        p += 5 + l
    }
    p
}
/// sets the keys for this hello exchange
pub fn agree(n: &mut Net, server_hello: &[u8]) {
    let h = hello(n);
    n.hello_len = hello_records(n);
    n.keys = handshake_keys(shared(), h.s(), server_hello, n.suite);
}

// ---- judging outcomes
/// what one failed (or interrupted) connect left behind, in terms of the property T09
#[derive(Clone, Copy, PartialEq)]
pub enum Outcome { Want(i32), Alert(u8), Peer(u8), Refused(i32) }
/// Checks the general contract of a connect that returned, and says what happened. `prot`: keys were established.
pub fn outcome(c: *mut Conn, rc: i32, prot: bool) -> Outcome {
    let n = net();
    let (e, a) = unsafe { (turtls_get_error(c), turtls_get_tls_error(c)) };
    vf::check(!n.late, "T09.io-after-close");
    vf::check(rc == -1, "tls.rc");
    vf::check(e >= 0 && e <= 6, "T09.error-code");
    if e == E_READ || e == E_WRITE {
        vf::check(n.closes == 0, "T09.closed-on-want");
        if n.hello_len > 0 { vf::check(n.out_len == n.hello_len, "T09.sent-on-want") }
        return Outcome::Want(e)
    }
    if e == E_TLS {
        vf::check(n.closes == 1, "T09.close-once");
        let sent = sent_alert(n, prot);
        vf::check(sent == Some(a as u8), "T09.alert-reported");
        vf::check(a != 0, "T09.alert-not-close");
        return Outcome::Alert(a as u8)
    }
    if e == E_PEER {
        vf::check(n.closes == 1, "T09.close-once-peer");
        if n.hello_len > 0 { vf::check(n.out_len == n.hello_len, "T09.sent-after-peer-alert") }
        return Outcome::Peer(a as u8)
    }
    Outcome::Refused(e)
}
/// the one alert record after the hello, if it is exactly that
pub fn sent_alert(n: &Net, prot: bool) -> Option<u8> {
    let r = &n.out[n.hello_len..n.out_len];
    if !prot { return if r.len() == 7 && r[..6] == [21, 3, 3, 0, 2, 2] { Some(r[6]) } else { None } }
    if r.len() < 5 + 19 || r[..3] != [23, 3, 3] || (r[3] as usize) * 256 + r[4] as usize != r.len() - 5 { return None }
    let mut m = [0u8; 300];
    let k = r.len() - 5 - 16;
    if k > 290 { return None }
    m[..k].copy_from_slice(&r[5..5 + k]);
    let t = aead(n.suite, &n.keys.cli, 0, &r[..5], &mut m[..k], false);
    if t[..] != r[5 + k..] { return None }
    // padding is allowed
    let mut e = k;
    while e > 0 && m[e - 1] == 0 { e -= 1 }
    if e == 3 && m[2] == 21 && m[0] == 2 { Some(m[1]) } else { None }
}
pub fn new_conn(suites: u8) -> *mut Conn {
    let c = unsafe { turtls_new(io()) };
    unsafe { (*turtls_get_config(c)).ciphers = suites }
    c
}
pub fn suite_of(k: usize) -> (u8, u16) { if k == 0 { (AESGCM, 0x1301) } else { (CHACHA, 0x1303) } }
pub fn cstr(p: *const u8) -> usize { let mut i = 0; while unsafe { *p.add(i) } != 0 { i += 1 } i }

/// any random but the one that makes a HelloRetryRequest
pub fn any_random(r: &mut [u8; 32]) { vf::sym(r, "server_random"); let mut d = 0; for i in 0..32 { d |= r[i] ^ HRR[i] } vf::assume(d != 0) }
pub const HRR: [u8; 32] = *b"\xcf\x21\xad\x74\xe5\x9a\x61\x11\xbe\x1d\x8c\x02\x1e\x65\xb8\x91\xc2\xa2\x11\x16\x7a\xbb\x8c\x5e\x07\x9e\x09\xe2\xc8\xa8\x33\x9c";

// ---- ready-made server flights
pub const OID_ECDSA_SHA256: [u8; 8] = [0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03, 0x02];
fn der<const N: usize>(w: &mut W<N>, tag: u8, f: impl Fn(&mut W<N>)) { w.u8(tag); let s = w.vec(1); f(w); w.end(s, 1) }
/// a minimal X.509 v3 certificate that follows the syntax (nothing in it is trusted)
pub fn certificate() -> W<220> {
    let mut w = W::new();
    der(&mut w, 0x30, |w| {
        der(w, 0x30, |w| {
            der(w, 0xa0, |w| { w.put(&[2, 1, 2]); });
            w.put(&[2, 1, 1]);
            der(w, 0x30, |w| der(w, 6, |w| { w.put(&OID_ECDSA_SHA256); }));
            w.put(&[0x30, 0]);
            der(w, 0x30, |w| { der(w, 0x17, |w| { w.put(b"250101000000Z"); }); der(w, 0x17, |w| { w.put(b"350101000000Z"); }) });
            w.put(&[0x30, 0]);
            w.put(&[0x30, 0]);
            w.put(&[0xa3, 2, 0x30, 0]);
        });
        der(w, 0x30, |w| der(w, 6, |w| { w.put(&OID_ECDSA_SHA256); }));
        der(w, 3, |w| { w.u8(0); der(w, 0x30, |w| { w.put(&[2, 1, 5, 2, 1, 7]); }) });
    });
    w
}
/// a Certificate message with one certificate
pub fn certificate_msg(cert: &[u8]) -> W<300> {
    let mut w = W::new();
    w.u8(11);
    let m = w.vec(3);
    w.u8(0);
    let l = w.vec(3);
    w.u24(cert.len()).put(cert).u16(0);
    w.end(l, 3);
    w.end(m, 3);
    w
}
/// EncryptedExtensions and Certificate with bytes the client has no use for, which the entry may make symbolic
pub static mut LOOSE: [u8; 4] = [0, 23, 1, 1];
pub fn loose_enc_exts() -> W<200> { let l = unsafe { LOOSE }; enc_exts(|w| { w.u16(10).u16(4).u16(2).put(&l[..2]); }) }
pub fn loose_certificate_msg() -> W<300> { let mut c = certificate(); c.b[11] = unsafe { LOOSE[3] }; certificate_msg(c.s()) }
/// ServerHello, change_cipher_spec, EncryptedExtensions and Certificate in a record each
pub fn full_flight(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    record(n, 20, &[1]);
    seal(n, 0, 22, loose_enc_exts().s(), 0);
    seal(n, 1, 22, loose_certificate_msg().s(), 3)
}
/// the client's whole output: one hello (as captured in `agree`), then one protected fatal alert
pub fn ended_with(c: *mut Conn, rc: i32, alert: u8) {
    let o = outcome(c, rc, true);
    vf::check(o == Outcome::Alert(alert), "tls.outcome");
}
/// a number below n, decided by the solver where it first matters
pub fn any(n: usize, name: &str) -> usize {
    let mut b = [0u8; 2];
    vf::sym(&mut b, name);
    let v = b[0] as usize + 256 * b[1] as usize;
    vf::assume(v < n);
    v
}
pub const ALERTS: [u8; 27] = [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112, 113, 115, 116, 120];
/// how the client names an alert of the peer: unknown codes become internal_error
pub fn named(a: u8) -> u8 { let mut k = 80; for x in ALERTS { if x == a { k = a } } k }
/// the order of P-256, little-endian
pub const ORDER_LE: [u8; 32] = *b"\x51\x25\x63\xfc\xc2\xca\xb9\xf3\x84\x9e\x17\xa7\xad\xfa\xe6\xbc\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x00\x00\xff\xff\xff\xff";
