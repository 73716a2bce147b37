//! T02: the ClientHello is well formed and says what was configured.
use crate::{spec::points::{Pt, EDGE, FULL_CLI, MULT}, tls::*, vf};

const MAX: usize = 66000;
static mut NAME: [u8; MAX] = [0; MAX];
static mut NAME_LEN: usize = 0;
static mut PROTOS: [u8; MAX] = [0; MAX];
static mut PROTOS_LEN: usize = 0;
static mut MSG: [u8; 70000] = [0; 70000];
fn u16at(b: &[u8], i: usize) -> usize { b[i] as usize * 256 + b[i + 1] as usize }
/// a length as the client wrote it, which is concrete unless it depends on the configuration
fn len(b: &[u8], i: usize) -> usize { vf::concretize(u16at(b, i)) }
/// the message in the records sent
fn message(n: &Net) -> &'static [u8] {
    let m = unsafe { &mut *(&raw mut MSG) };
    let (mut p, mut k) = (0, 0);
    while p < n.out_len {
        vf::check(n.out_len >= p + 5 && n.out[p] == 22 && n.out[p + 1] == 3 && (n.out[p + 2] == 3 || n.out[p + 2] == 1), "T02.record");
        let l = len(&n.out, p + 3);
        vf::check(l > 0 && l <= 0x4000 && p + 5 + l <= n.out_len, "T02.record-length");
        m[k..k + l].copy_from_slice(&n.out[p + 5..p + 5 + l]);
        k += l;
        p += 5 + l
    }
    &m[..k]
}
struct Seen { name: bool, versions: bool, groups: bool, share: bool, algs: bool, alpn: bool }
fn once(x: &mut bool) { vf::check(!*x, "T02.extension-twice"); *x = true }
/// the message against the configuration
fn check(m: &[u8], cfg: &Config, key: &Pt, random: &[u8]) {
    vf::check(m.len() >= 4 && m[0] == 1 && m[1] == vf::concretize(m[1] as usize) as u8 && m[1] as usize * 65536 + u16at(m, 2) == m.len() - 4, "T02.message-length");
    let b = &m[4..];
    vf::check(b.len() > 40 && b[..2] == [3, 3], "T02.legacy-version");
    vf::check_eq(&b[2..34], random, "T02.random");
    vf::check(b[34] == 0, "T02.session-id");
    let cl = len(b, 35);
    let (chacha, aes) = (cfg.ciphers & CHACHA != 0, cfg.ciphers & AESGCM != 0);
    vf::check(cl == 2 * (chacha as usize + aes as usize) && b.len() >= 37 + cl + 4, "T02.suites-length");
    let (mut c1, mut c3) = (false, false);
    let mut i = 37;
    while i < 37 + cl { let s = u16at(b, i); if s == 0x1301 { c1 = true } if s == 0x1303 { c3 = true } i += 2 }
    vf::check(c1 == aes && c3 == chacha, "T02.suites");
    vf::check(b[i] == 1 && b[i + 1] == 0, "T02.compression");
    vf::check(len(b, i + 2) == b.len() - i - 4, "T02.extensions-length");
    i += 4;
    let mut s = Seen { name: false, versions: false, groups: false, share: false, algs: false, alpn: false };
    while i < b.len() {
        vf::check(i + 4 <= b.len(), "T02.extension");
        let (t, l) = (len(b, i), len(b, i + 2));
        i += 4;
        vf::check(i + l <= b.len(), "T02.extension-length");
        let d = &b[i..i + l];
        i += l;
        match t {
            0 => {
                once(&mut s.name);
                let nl = unsafe { NAME_LEN };
                vf::check(l == nl + 5 && len(d, 0) == nl + 3 && d[2] == 0 && len(d, 3) == nl, "T02.server-name-lengths");
                vf::check_eq(&d[5..], unsafe { &NAME[..nl] }, "T02.server-name")
            }
            43 => { once(&mut s.versions); vf::check(d == [2, 3, 4], "T02.versions") }
            10 => { once(&mut s.groups); vf::check(d == [0, 2, 0, 0x17], "T02.groups") }
            13 => { once(&mut s.algs); vf::check(d == [0, 2, 4, 3], "T02.signature-algorithms") }
            51 => {
                once(&mut s.share);
                vf::check(l == 71 && d[..7] == [0, 69, 0, 0x17, 0, 65, 4], "T02.key-share");
                vf::check_eq(&d[7..39], &key.x, "T02.key-share-x");
                vf::check_eq(&d[39..], &key.y, "T02.key-share-y")
            }
            16 => {
                once(&mut s.alpn);
                let pl = unsafe { PROTOS_LEN };
                vf::check(l == pl + 2 && len(d, 0) == pl, "T02.protocols-length");
                vf::check_eq(&d[2..], unsafe { &PROTOS[..pl] }, "T02.protocols")
            }
            _ => vf::check(false, "T02.unknown-extension"),
        }
    }
    vf::check(s.versions && s.groups && s.share, "T02.mandatory");
    unsafe {
        vf::check(s.name == (!cfg.ext.server_name.is_null() && NAME_LEN > 0), "T02.server-name-sent");
        vf::check(s.alpn == (!cfg.ext.app_protos.is_null() && PROTOS_LEN > 0), "T02.protocols-sent");
    }
    vf::check(s.algs == (cfg.ext.sig_algs & 1 != 0), "T02.signature-algorithms-sent")
}
/// connects with a peer that says nothing and judges what was sent
fn run(f: impl Fn(&mut Config), key: &Pt, random: &[u8; 32]) {
    let n = net();
    seed(key, random);
    go(f, key, random)
}
fn go(f: impl Fn(&mut Config), key: &Pt, random: &[u8; 32]) {
    let n = net();
    unsafe {
        let c = turtls_new(io());
        let cfg = &mut *turtls_get_config(c);
        f(cfg);
        let cfg = *cfg;
        let rc = turtls_connect(c);
        vf::check(rc == -1, "T02.rc");
        let e = turtls_get_error(c);
        let exts = 7 + 8 + 75 + if cfg.ext.sig_algs & 1 != 0 { 8 } else { 0 } + if !cfg.ext.server_name.is_null() && NAME_LEN > 0 { 9 + NAME_LEN } else { 0 } + if !cfg.ext.app_protos.is_null() && PROTOS_LEN > 0 { 6 + PROTOS_LEN } else { 0 };
        let possible = cfg.ciphers & 3 != 0 && cfg.ext.sup_groups & 1 != 0 && exts <= 0xffff;
        if possible {
            vf::check(e == E_READ, "T02.sent");
            vf::check(n.closes == 0, "T02.open");
            check(message(n), &cfg, key, random);
            n.hello_len = n.out_len;
            // the same answer once more does not change what was sent
            let o = n.out_len;
            vf::check(turtls_connect(c) == -1 && n.out_len == o, "T02.sent-once")
        } else {
            vf::check(n.out_len == 0 && n.closes == 0 && n.reads == 0, "T02.refused-silently");
            vf::check(e == if exts > 0xffff && cfg.ciphers & 3 != 0 && cfg.ext.sup_groups & 1 != 0 { E_TLS } else { E_MISSING } || exts > 0xffff, "T02.refusal");
        }
        turtls_free(c)
    }
}
fn name(n: usize) { unsafe { for i in 0..n { NAME[i] = b'a' + (i % 26) as u8 } NAME[n] = 0; NAME_LEN = n } }
/// protocols of the given total length (0 or at least 2)
fn protos(n: usize) { unsafe {
    let mut i = 0;
    while i < n {
        let mut k = (n - i - 1).min(255);
        if n - i - 1 - k == 1 { k -= 1 }
        PROTOS[i] = k as u8;
        for j in 0..k { PROTOS[i + 1 + j] = b'A' + (j % 26) as u8 }
        i += 1 + k
    }
    PROTOS_LEN = n
} }
fn name_p(c: &mut Config) { c.ext.server_name = &raw const NAME as *const u8 }
fn protos_p(c: &mut Config) { c.ext.app_protos = &raw const PROTOS as *const u8; c.ext.app_protos_len = unsafe { PROTOS_LEN } }
entries! {
/// any suites, groups and signature algorithms, with or without a name and protocols
fn t02_bits() {
    let k = vf::pick(4, "names");
    let (ciphers, groups, algs) = (vf::u8_("ciphers"), vf::u16_("groups"), vf::u16_("algs"));
    if k & 1 != 0 { name(11) }
    if k & 2 != 0 { protos(9) }
    run(|c| {
        c.ciphers = ciphers;
        c.ext.sup_groups = groups;
        c.ext.sig_algs = algs;
        if k & 1 != 0 { name_p(c) }
        if k & 2 != 0 { protos_p(c) }
    }, &MULT[1], &RANDOM)
}
/// what a new object is configured with: everything that is supported, no name, no protocols
fn t02_default() {
    run(|c| {
        vf::check(c.ciphers & 3 == 3 && c.ext.sup_groups & 1 == 1 && c.ext.sig_algs & 1 == 1, "T02.defaults");
        vf::check(c.ext.server_name.is_null() && (c.ext.app_protos.is_null() || c.ext.app_protos_len == 0), "T02.default-names")
    }, &MULT[2], &SRANDOM)
}
/// names of any content and many lengths
fn t02_names() {
    let nl = [0usize, 1, 2, 3, 7, 8, 40, 64, 255, 256][vf::pick(10, "name")];
    let pl = [0usize, 2, 3, 5, 16, 17, 300][vf::pick(7, "protos")];
    let bits = vf::pick(3, "suites") as u8 + 1;
    unsafe {
        protos(pl);
        vf::sym(&mut NAME[..nl], "name");
        for i in 0..nl { vf::assume(NAME[i] != 0) }
        NAME[nl] = 0;
        NAME_LEN = nl;
        let mut i = 0;
        while i < pl { let l = PROTOS[i] as usize; vf::sym(&mut PROTOS[i + 1..i + 1 + l], "protos"); i += 1 + l }
    }
    run(|c| { c.ciphers = bits; name_p(c); protos_p(c) }, &MULT[1], &RANDOM)
}
/// null with a length, a pointer without
fn t02_absent() {
    let k = vf::pick(3, "how");
    unsafe { protos(if k == 0 { 0 } else { 5 }) }
    run(|c| match k {
        0 => { protos_p(c); c.ext.app_protos_len = 0 }
        1 => { c.ext.app_protos = core::ptr::null(); c.ext.app_protos_len = 5 }
        _ => { protos_p(c); c.ext.server_name = core::ptr::null() }
    }, &MULT[1], &RANDOM)
}
/// hellos of several records, up to the limit of the length fields
fn t02_large() {
    const N: [(usize, usize); 18] = [(16000, 0), (16193, 0), (16194, 0), (16195, 0), (16226, 0), (16227, 0), (16228, 0), (0, 16229), (0, 16230), (0, 16231), (20000, 12000), (32768, 0), (32400, 200), (32700, 20),
        // extensions of 65535 bytes and more: 98 + 9 + name, 98 + 6 + protos (not sent whole: see OUT)
        (65429, 0), (0, 65432), (65533, 0), (30000, 35500)];
    let k = vf::pick(18, "size");
    let (nl, pl) = N[k];
    name(nl);
    protos(pl);
    run(|c| { name_p(c); protos_p(c) }, &MULT[1], &RANDOM)
}
/// the largest hello that can be sent (only its first records are kept here)
fn t02_largest() {
    let k = vf::pick(2, "what");
    if k == 0 { name(65535 - 98 - 9) } else { protos(65535 - 98 - 6) }
    let n = net();
    n.on_write = bounded;
    seed(&MULT[1], &RANDOM);
    unsafe {
        let c = turtls_new(io());
        let cfg = &mut *turtls_get_config(c);
        if k == 0 { name_p(cfg) } else { protos_p(cfg) }
        let rc = turtls_connect(c);
        vf::check(rc == -1 && turtls_get_error(c) == E_WRITE, "T02.largest-sent");
        let total = 2 + 32 + 1 + 2 + 4 + 2 + 2 + 65535;
        vf::check(n.out[..5] == [22, 3, 3, 0x40, 0] && n.out[5] == 1 && n.out[6] == (total >> 16) as u8 && u16at(&n.out, 7) == total & 0xffff, "T02.largest-length");
        vf::check(u16at(&n.out, 9 + 43) == 65535, "T02.largest-extensions");
        turtls_close(c);
        turtls_free(c)
    }
}
/// any random bytes; key pairs of every size; private keys are taken modulo the order
fn t02_random() {
    let k = vf::pick(14, "key");
    let mut r = [0u8; 32];
    vf::sym(&mut r, "random");
    let p = if k < 6 { &EDGE[k][0] } else if k == 6 { &FULL_CLI } else if k < 12 { &MULT[[0, 1, 2, 6, 11][k - 7]] } else { &MULT[k - 12] };
    seed(p, &r);
    let n = net();
    if k >= 12 {
        // p + n
        let mut carry = 0;
        for i in 0..32 { let s = n.rng[i] as u32 + ORDER_LE[i] as u32 + carry; n.rng[i] = s as u8; carry = s >> 8 }
        vf::check(carry == 0, "T02.harness")
    }
    go(|_| {}, p, &r)
}
}
fn bounded(n: &mut Net, want: usize) -> isize { if n.out_len + want > OUT { -1 } else { want as isize } }
