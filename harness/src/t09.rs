//! T09: failures are reported truthfully, and close the connection once.
use crate::{tls::*, vf};

static mut B: [u8; 40] = [0; 40];
static mut K: [usize; 3] = [0; 3];
/// nothing more happens: no output, no second close
fn quiet(c: *mut Conn, f: impl Fn(*mut Conn)) {
    let n = net();
    let (o, k, r) = (n.out_len, n.closes, n.reads);
    f(c);
    vf::check(n.out_len == o && n.closes == k && n.reads == r && !n.late, "T09.quiet")
}
fn over(c: *mut Conn) { quiet(c, |c| unsafe { turtls_close(c) }); quiet(c, |c| unsafe { turtls_close(c) }); quiet(c, |c| unsafe { turtls_free(c) }) }
fn setup(serve: fn(&mut Net), suite: u16) -> *mut Conn {
    let n = net();
    n.suite = suite;
    quick_keys();
    n.serve = serve;
    if suite == 0x1301 { unsafe { OWN_AEAD = true } }
    new_conn(if suite == 0x1301 { AESGCM } else { CHACHA })
}
// -- alerts of the peer
/// K: [stage, length, how it is cut]
fn alerting(n: &mut Net) {
    let (stage, len) = unsafe { (K[0], K[1]) };
    let b = unsafe { &B[..len] };
    n.hello_len = hello_records(n);
    match stage {
        0 => record(n, 21, b),
        1 => { record(n, 20, &[1]); record(n, 21, b) }
        2 => { let sh = server_hello(n.suite); record(n, 22, &sh.s()[..70]); record(n, 21, b) } // in the middle of a message
        s => {
            let sh = server_hello(n.suite);
            record(n, 22, sh.s());
            agree(n, sh.s());
            if s == 3 { return seal(n, 0, 21, b, 0) }
            record(n, 20, &[1]);
            let ee = loose_enc_exts();
            if s == 4 { seal(n, 0, 22, ee.s(), 0); return seal(n, 1, 21, b, 7) }
            seal(n, 0, 22, &ee.s()[..5], 0);
            seal(n, 1, 21, b, 1)
        }
    }
}
// -- failures this side raises
fn failing(n: &mut Net) {
    let k = unsafe { K[0] };
    n.hello_len = hello_records(n);
    let mut sh = server_hello(n.suite);
    if k == 0 { sh.b[5] = 3; sh.b[4 + 34] = 1 }
    if k == 1 { return record(n, 22, b"\x08\0\0\x02\0\0") }
    if k == 2 { return record(n, 23, &[1; 20]) }
    if k == 3 { return raw(n, &[22, 3, 3, 0x40, 1]) }
    record(n, 22, sh.s());
    if k == 0 { return }
    agree(n, sh.s());
    let ee = loose_enc_exts();
    match k {
        4 => { seal(n, 0, 22, ee.s(), 0); n.inp[n.in_len - 1] ^= 1 }
        5 => seal(n, 0, 22, b"\x08\0\0\x02\0\x01", 0),
        6 => seal(n, 0, 22, b"\x0f\0\0\x02\0\0", 0),
        7 => { seal(n, 0, 22, ee.s(), 0); seal(n, 1, 22, b"\x0b\0\0\x02\0\0", 0) }
        _ => { seal(n, 0, 22, ee.s(), 0); seal(n, 1, 22, loose_certificate_msg().s(), 0) }
    }
}
/// the alert's own record is accepted in pieces of K[1] bytes up to K[2] bytes
fn stingy(n: &mut Net, want: usize) -> isize {
    if !n.served { return want as isize }
    let (piece, max) = unsafe { (K[1], K[2]) };
    let sent = n.out_len - n.hello_len;
    if sent >= max { return if max % 2 == 0 { -1 } else { 0 } }
    vf::concretize(want.min(piece).min(max - sent)) as isize
}
entries! {
/// any alert of the peer, at every stage, plain and sealed
fn t09_peer_alert() {
    let stage = vf::pick(6, "stage");
    let len = [2, 0, 1, 3, 40][vf::pick(5, "length")];
    let suite = if stage < 3 { suite_of(vf::pick(2, "suite")).1 } else { 0x1301 };
    let c = setup(alerting, suite);
    unsafe {
        K = [stage, len, 0];
        vf::sym(&mut *(&raw mut B), "bytes");
        // (a sealed record of nothing but a type has no content: refused as T05 has it)
        let rc = turtls_connect(c);
        let o = outcome(c, rc, stage >= 3);
        if len == 2 {
            if B[0] == 1 || B[0] == 2 { vf::check(o == Outcome::Peer(named(B[1])), "T09.peer-alert") }
            else { vf::check(matches!(o, Outcome::Peer(_) | Outcome::Alert(_)), "T09.peer-alert-level") }
        } else { vf::check(matches!(o, Outcome::Alert(_)), "T09.malformed-alert") }
        over(c)
    }
}
/// the same with ChaCha20-Poly1305, where the alert is one of the known codes or not
fn t09_peer_alert_chacha() {
    let stage = 3 + vf::pick(3, "stage");
    let code = [0, 10, 20, 40, 42, 46, 47, 50, 51, 70, 80, 86, 90, 109, 110, 120, 1, 19, 99, 200, 255][vf::pick(21, "code")];
    let c = setup(alerting, 0x1303);
    unsafe {
        K = [stage, 2, 0];
        B[0] = 2;
        B[1] = code;
        let rc = turtls_connect(c);
        vf::check(outcome(c, rc, true) == Outcome::Peer(named(code)), "T09.peer-alert");
        over(c)
    }
}
/// failures of this side, with the alert accepted in pieces, or only in part
fn t09_own_alert() {
    let k = vf::pick(9, "failure");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let how = vf::pick(2, "whole");
    let c = setup(failing, suite);
    let n = net();
    unsafe {
        K = [k, 1 + any(26, "piece"), if how == 0 { 100 } else { any(if k < 4 { 7 } else { 24 }, "accepted") }];
        if suite == 0x1301 { vf::sym(&mut *(&raw mut LOOSE), "loose") }
        n.on_write = stingy;
        let rc = turtls_connect(c);
        if how == 0 {
            let o = outcome(c, rc, k >= 4);
            vf::check(matches!(o, Outcome::Alert(_)), "T09.own-alert");
            if k == 4 { vf::check(o == Outcome::Alert(20), "T09.bad-record-mac") }
            if k == 3 { vf::check(o == Outcome::Alert(22), "T09.record-overflow") }
        } else {
            vf::check(rc == -1 && n.closes == 1 && turtls_get_error(c) == E_TLS && turtls_get_tls_error(c) != 0, "T09.own-error");
            vf::check(!n.late && n.out_len - n.hello_len == K[2], "T09.partial-alert");
            let s = &n.out[n.hello_len..n.out_len];
            let want = if k < 4 { [21, 3, 3, 0, 2, 2, turtls_get_tls_error(c) as u8] } else { [23, 3, 3, 0, 19, 0, 0] };
            for i in 0..s.len().min(if k < 4 { 7 } else { 5 }) { vf::check(s[i] == want[i], "T09.partial-alert-bytes") }
        }
        over(c)
    }
}
/// turtls_close at every stage of a connection
fn t09_close() {
    let stage = vf::pick(5, "stage");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let n = net();
    let c = setup(if stage == 1 { no_serve } else { full_flight }, suite);
    n.on_read = until;
    unsafe {
        // reading stops here; the protected part starts after the ServerHello's record
        let sh_end = 5 + server_hello(suite).n;
        n.a = match stage { 0 | 1 => 0, 2 => any(sh_end, "read"), 3 => sh_end + any(45, "read"), _ => sh_end };
        if stage == 0 { quiet(c, |c| turtls_close(c)); vf::check(n.closes == 0 && n.out_len == 0, "T09.close-unopened"); quiet(c, |c| turtls_free(c)) }
        else {
            let rc = turtls_connect(c);
            if stage == 1 { n.hello_len = n.out_len }
            vf::check(outcome(c, rc, stage > 2) == Outcome::Want(E_READ), "T09.want-read");
            let r = n.reads;
            turtls_close(c);
            vf::check(n.closes == 1 && !n.late && n.reads == r, "T09.closed-once");
            vf::check(sent_alert(n, stage > 2) == Some(0), "T09.close-notify");
            over(c)
        }
    }
}
/// turtls_close without a connection that could carry the alert
fn t09_close_unwritable() {
    let stage = vf::pick(2, "stage");
    let (_, suite) = suite_of(vf::pick(2, "suite"));
    let n = net();
    let c = setup(full_flight, suite);
    n.on_read = until;
    n.on_write = stingy;
    unsafe {
        n.a = [10, 5 + server_hello(suite).n + 9][stage];
        K = [0, 1 + any(26, "piece"), any([7, 24][stage], "accepted")];
        let rc = turtls_connect(c);
        vf::check(outcome(c, rc, true) == Outcome::Want(E_READ), "T09.want-read");
        turtls_close(c);
        vf::check(n.closes == 1 && !n.late && n.out_len - n.hello_len == K[2], "T09.closed-once");
        over(c)
    }
}
/// connections that cannot begin
fn t09_refusals() {
    let k = vf::pick(6, "why");
    let n = net();
    let c = setup(full_flight, 0x1301);
    unsafe {
        let cfg = &mut *turtls_get_config(c);
        let good = *cfg;
        let keys = n.rng;
        vf::sym(&mut *(&raw mut B), "config");
        let want = match k {
            0 => { n.rng_fail_at = 0; E_RNG }
            1 => { n.rng_fail_at = 32; E_RNG }
            2 => { for i in 0..32 { n.rng[i] = 0 } E_ZERO }
            // the order of the group is no private key either
            3 => { for i in 0..32 { n.rng[i] = ORDER_LE[i] } E_ZERO }
            4 => { cfg.ciphers = B[0]; vf::assume(B[0] & 3 == 0); E_MISSING }
            _ => { cfg.ext.sup_groups = B[0] as u16 * 256 + B[1] as u16; vf::assume(B[1] & 1 == 0); E_MISSING }
        };
        let rc = turtls_connect(c);
        vf::check(rc == -1 && turtls_get_error(c) == want, "T09.refused");
        vf::check(n.out_len == 0 && n.closes == 0 && n.reads == 0, "T09.refused-silently");
        quiet(c, |c| turtls_close(c));
        // and it is no obstacle to a connection
        *cfg = good;
        n.rng = keys;
        n.rng_pos = 0;
        n.rng_fail_at = usize::MAX;
        let rc = turtls_connect(c);
        vf::check(outcome(c, rc, true) == Outcome::Alert(46), "T09.works-after-refusal");
        over(c)
    }
}
/// every alert has a description of its own
fn t09_stringify() {
    let k = vf::pick(27, "alert");
    let mut b = [0u8; 1];
    vf::sym(&mut b, "other");
    vf::assume(b[0] != ALERTS[k]);
    let mut known = false;
    for x in ALERTS { if x == b[0] { known = true } }
    vf::assume(known);
    let other = vf::concretize(b[0] as usize) as i32;
    unsafe {
        let (p, q) = (turtls_stringify_alert(ALERTS[k] as i32), turtls_stringify_alert(other));
        let l = cstr(p);
        vf::check(l > 0 && l < 100, "T09.description");
        vf::check(p == turtls_stringify_alert(ALERTS[k] as i32), "T09.description-static");
        let (mut i, mut same) = (0, true);
        while i <= l { if *p.add(i) != *q.add(i) { same = false; break } i += 1 }
        vf::check(!same, "T09.description-distinct");
        for i in 0..l { vf::check(*p.add(i) >= 0x20 && *p.add(i) < 0x7f, "T09.description-printable") }
    }
}
}
/// delivers up to the position n.a
fn until(n: &mut Net, want: usize, _: usize) -> isize {
    if n.in_pos >= n.a { return -1 }
    vf::concretize(want.min(n.a - n.in_pos)) as isize
}
