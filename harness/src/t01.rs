//! T01: whatever the server sends, turtls_connect returns. (Panics, reads and writes outside objects, overflows and the like
//! are violations wherever they happen; every other TLS check decides the same for its inputs.)
use crate::{tls::*, vf};

const MAX: usize = 400;
static mut RAW: [u8; MAX] = [0; MAX];
static mut LEN: usize = 0;
static mut STAGE: usize = 0;
static mut TAIL: usize = 0;
fn stream(n: &mut Net) { raw(n, unsafe { &RAW[..LEN] }); n.in_len += unsafe { TAIL } }
/// as much of a good flight as says STAGE, then RAW
fn after(n: &mut Net) {
    let sh = server_hello(n.suite);
    record(n, 22, sh.s());
    agree(n, sh.s());
    if unsafe { STAGE } > 0 { seal(n, 0, 22, enc_exts(|_| ()).s(), 0) }
    stream(n)
}
/// the same, but RAW is sealed: content and its type, which is the first byte
fn sealed(n: &mut Net) {
    let stage = unsafe { STAGE };
    let l = unsafe { core::mem::replace(&mut LEN, 0) };
    let t = unsafe { core::mem::replace(&mut TAIL, 0) };
    after(n);
    let b = unsafe { &RAW[..l] };
    let at = stage as u64;
    // in one record or in two
    let cut = t.min(b.len() - 1);
    if cut > 0 { seal(n, at, b[0], &b[1..1 + cut], 0); seal(n, at + 1, b[0], &b[1 + cut..], 2) } else { seal(n, at, b[0], &b[1..], 1) }
}
/// stops at the end of the stream, in one of the ways a callback can say so
fn end_zero(_: &mut Net, want: usize, have: usize) -> isize { if have == 0 { 0 } else { want.min(have) as isize } }
fn bytewise(_: &mut Net, _: usize, have: usize) -> isize { if have == 0 { isize::MIN } else { 1 } }
static mut MUX: bool = true;
static mut READS: usize = 0;
fn run(serve: fn(&mut Net)) {
    if unsafe { MUX } { vf::mux(1) }
    let n = net();
    n.serve = serve;
    n.on_read = [read_all as fn(&mut Net, usize, usize) -> isize, end_zero, bytewise][unsafe { READS }];
    quick_keys();
    let c = new_conn(if n.suite == 0x1301 { AESGCM } else { CHACHA });
    unsafe {
        if n.suite == 0x1301 { OWN_AEAD = true }
        let rc = turtls_connect(c);
        vf::check(rc == -1, "T01.rc");
        let e = turtls_get_error(c);
        vf::check(e == E_TLS || e == E_PEER || e == E_READ, "T01.error");
        vf::check((n.closes == 1) == (e != E_READ), "T01.closed");
        if e == E_READ {
            // nothing was left unread, and trying again is no different
            vf::check(n.in_pos == n.in_len, "T01.waits-with-input");
            let r = n.reads;
            vf::check(turtls_connect(c) == -1 && turtls_get_error(c) == E_READ && n.reads <= r + 1, "T01.again")
        }
        turtls_close(c);
        vf::check(n.closes == 1, "T01.closed-once");
        turtls_free(c)
    }
}
entries! {
/// any stream of a few bytes
fn t01_stream() {
    let len = vf::pick(13, "len");
    unsafe { READS = vf::pick(3, "reads"); LEN = len; vf::sym(&mut RAW[..len], "stream") }
    run(stream)
}
/// a record of any type with any bytes at the front of a handshake message
fn t01_record() {
    let len = [1usize, 2, 3, 4, 5, 7, 40, 60, 200][vf::pick(9, "len")];
    let and = vf::pick(3, "and");
    unsafe {
        READS = len % 3;
        vf::sym(&mut RAW[..1], "type");
        RAW[4] = len as u8;
        let k = len.min(7);
        vf::sym(&mut RAW[5..5 + k], "bytes");
        LEN = 5 + len;
        // another record
        if and > 0 { vf::sym(&mut RAW[LEN..LEN + 1], "type"); RAW[LEN + 4] = and as u8 + 1; let l = LEN + 5; vf::sym(&mut RAW[l..l + 2 + and], "bytes"); LEN = l + 1 + and }
    }
    run(stream)
}
/// great lengths, with the bytes to fill them
fn t01_great() {
    let len = [0x3fffusize, 0x4000, 0x4001, 0x40ff, 0x4100, 0x4101, 0xffff][vf::pick(7, "len")];
    let msg = [0x1fffcusize, 0x1fffd, 0xffffff, 0x3ffc, 0x10000][vf::pick(5, "message")];
    let stage = vf::pick(2, "stage");
    let typ = vf::pick(3, "type");
    unsafe {
        if typ < 2 { RAW[0] = 22 + typ as u8 } else { vf::sym(&mut RAW[..1], "type"); vf::assume(RAW[0] != 22 && RAW[0] != 23) }
        RAW[3] = (len >> 8) as u8;
        RAW[4] = len as u8;
        RAW[5] = 2;
        RAW[6] = (msg >> 16) as u8;
        RAW[7] = (msg >> 8) as u8;
        RAW[8] = msg as u8;
        LEN = 9;
        TAIL = 0x10000
    }
    run(if stage == 0 { stream } else { after })
}
/// any ServerHello with our point, any random and legacy version
fn t01_hello() {
    let k = vf::pick(3, "then");
    let sh = server_hello(0x1301);
    unsafe {
        MUX = false;
        RAW[0] = 22;
        RAW[4] = sh.n as u8;
        RAW[5..5 + sh.n].copy_from_slice(sh.s());
        LEN = 5 + sh.n;
        vf::sym(&mut RAW[9..11], "legacy_version");
        vf::sym(&mut RAW[11..43], "random");
        // then nothing, or part of a record, or one in plaintext
        if k == 1 { vf::sym(&mut RAW[LEN..LEN + 3], "more"); LEN += 3 }
        if k == 2 { RAW[LEN] = 22; RAW[LEN + 4] = 1; LEN += 6 }
    }
    run(stream)
}
/// raw bytes after the key change
fn t01_after() {
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    net().suite = suite;
    let k = vf::pick(2, "stage");
    let len = [3usize, 5, 6, 21, 22, 23][vf::pick(6, "len")];
    unsafe {
        STAGE = k;
        READS = len % 3;
        LEN = len;
        if suite == 0x1301 || len < 21 { vf::sym(&mut RAW[..len.min(5)], "header") } else { RAW[1] = 3; RAW[2] = 3; RAW[4] = len as u8 - 5; vf::sym(&mut RAW[..1], "type"); vf::assume(RAW[0] != 23) }
        if suite == 0x1301 && len > 21 { RAW[0] = 23; RAW[3] = 0; RAW[4] = len as u8 - 5 }
        if suite == 0x1301 && len > 5 { vf::sym(&mut RAW[5..if len > 21 { len - 16 } else { len }], "body") }
    }
    run(after)
}
/// any protected content of a few bytes, in one record or in two
fn t01_sealed() {
    net().suite = 0x1301;
    let len = vf::pick(11, "len");
    unsafe {
        STAGE = vf::pick(2, "stage");
        READS = len % 2;
        TAIL = vf::pick(3, "cut") * 2;
        vf::sym(&mut RAW[..1 + len], "content");
        LEN = 1 + len
    }
    run(sealed)
}
/// messages of the handshake of any type with any content, larger than that
fn t01_messages() {
    net().suite = 0x1301;
    let len = [12usize, 20, 40][vf::pick(3, "len")];
    unsafe {
        STAGE = vf::pick(2, "stage");
        READS = len / 16;
        RAW[0] = 22;
        vf::sym(&mut RAW[1..2], "type");
        RAW[4] = len as u8;
        vf::sym(&mut RAW[5..5 + 9], "body");
        LEN = 5 + len;
        TAIL = vf::pick(2, "cut") * 3
    }
    run(sealed)
}
}
