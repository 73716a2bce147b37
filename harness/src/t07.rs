//! T07: interrupted writes resume without loss or repetition.
use crate::{tls::*, vf};

/// accepts at most n.a bytes at a time; with n.b, every write is refused once before
fn pieces(n: &mut Net, want: usize) -> isize {
    if n.b > 0 && n.c & 1 == 0 { n.c |= 1; return if n.b == 1 { -1 } else { 0 } }
    n.c &= !1;
    vf::concretize(want.min(n.a)) as isize
}
static mut CUT: [usize; 2] = [0; 2];
/// comes short at the cuts, where it fails n.b times
fn cuts(n: &mut Net, want: usize) -> isize {
    let mut k = want;
    for i in 0..2 {
        let cut = unsafe { CUT[i] };
        if cut == n.out_len && cut > 0 && n.b > i { unsafe { CUT[i] = 0 } return -1 }
        if cut > n.out_len && cut < n.out_len + k { k = cut - n.out_len }
    }
    vf::concretize(k) as isize
}
static mut NAME: [u8; 17002] = [0; 17002];
/// the stream so far is a hello in records of at most 2^14 bytes that carries this connection's random and name
fn check_hello(n: &Net, name: usize) {
    let mut p = 0;
    while p < n.out_len {
        vf::check(n.out_len >= p + 5 && n.out[p..p + 3] == [22, 3, 3], "T07.record-header");
        let l = n.out[p + 3] as usize * 256 + n.out[p + 4] as usize;
        vf::check(l > 0 && l <= 0x4000 && p + 5 + l <= n.out_len, "T07.record-length");
        p += 5 + l
    }
    vf::check(hello_records(n) == n.out_len, "T07.one-hello");
    let h = hello(n);
    let l = h.b[1] as usize * 65536 + h.b[2] as usize * 256 + h.b[3] as usize;
    vf::check(h.b[0] == 1 && h.n == 4 + l, "T07.hello-length");
    vf::check_eq(&h.b[6..38], &n.rng[32..64], "T07.random");
    if name > 0 {
        // server_name is somewhere in there, in one piece
        let (want, mut i) = (unsafe { &NAME[..name] }, 0);
        let mut found = false;
        while i + name <= h.n && !found {
            if h.b[i] == want[0] && h.b[i..i + name] == *want { found = true }
            i += 1
        }
        vf::check(found, "T07.name");
    }
}
fn connect(bit: u8, name: usize, finish: bool) {
    let n = net();
    n.serve = full_flight;
    let c = new_conn(bit);
    if name > 0 { unsafe {
        for i in 0..name { NAME[i] = b'a' + (i % 26) as u8 }
        NAME[0] = b'#';
        NAME[name] = 0;
        (*turtls_get_config(c)).ext.server_name = &raw const NAME as *const u8
    } }
    let mut rounds = 0;
    loop {
        let rc = unsafe { turtls_connect(c) };
        match outcome(c, rc, true) {
            Outcome::Want(e) if e == E_WRITE => { vf::check(!n.served, "T07.read-before-hello"); if !finish { break } }
            Outcome::Want(_) => vf::check(false, "T07.read-error"),
            _ if !finish => { vf::skip(); break }
            o => { vf::check(o == Outcome::Alert(46), "T07.handshake"); break }
        }
        rounds += 1;
        vf::check(rounds < 400, "T07.no-progress");
    }
    if finish {
        let end = n.out_len;
        n.out_len = n.hello_len;
        check_hello(n, name);
        n.out_len = end;
        vf::check(n.rng_pos == 64, "T07.random-used-once");
    } else {
        // closed in the middle of the hello: the peer can still read what follows as records
        n.on_write = write_all;
        let part = n.out_len;
        unsafe { turtls_close(c) }
        vf::check(n.closes == 1, "T07.closed");
        let mut p = 0;
        while p < n.out_len {
            vf::check(n.out_len >= p + 5 && n.out[p + 1..p + 3] == [3, 3], "T07.framing");
            let l = n.out[p + 3] as usize * 256 + n.out[p + 4] as usize;
            vf::check(p + 5 + l <= n.out_len, "T07.framing-length");
            if p + 5 + l == n.out_len { vf::check(n.out[p] == 21 && n.out[p + 5..n.out_len] == [2, 0], "T07.close-notify") } else { vf::check(n.out[p] == 22, "T07.hello-first") }
            p += 5 + l
        }
        vf::check(n.out_len > part, "T07.alert-sent")
    }
    unsafe { turtls_free(c) }
}
/// only while the hello is written; alerts go through in one piece
fn hello_only(n: &mut Net, want: usize) -> isize { if n.served { want as isize } else if unsafe { MODE } { cuts(n, want) } else { pieces(n, want) } }
static mut MODE: bool = false;
fn setup() -> u8 {
    let n = net();
    n.suite = 0x1301;
    quick_keys();
    unsafe { OWN_AEAD = true; vf::sym(&mut *(&raw mut LOOSE), "loose") }
    n.on_write = hello_only;
    AESGCM
}
entries! {
/// pieces of any size, with and without a refusal before each
fn t07_pieces() {
    let n = net();
    let part = vf::pick(8, "part");
    n.b = vf::pick(3, "fail");
    let name = [0, 3][vf::pick(2, "name")];
    let bit = setup();
    n.a = 1 + any(200, "size");
    vf::assume(n.a % 8 == part);
    connect(bit, name, true)
}
/// one or two cuts anywhere in the hello
fn t07_cuts() {
    let n = net();
    let part = vf::pick(8, "part");
    n.b = vf::pick(3, "fail");
    let bit = setup();
    let cut = 1 + any(180, "cut");
    vf::assume(cut % 8 == part);
    unsafe { MODE = true; CUT = [cut, cut + 1 + any(3, "gap")] }
    connect(bit, 0, true)
}
/// a hello of two records: large pieces, and one cut close to the ends of the records
fn t07_long() {
    let n = net();
    let k = vf::pick(8, "how");
    n.b = k % 3;
    let bit = setup();
    let o = any(7, "at");
    if k < 6 {
        let at = [4, 0x4000 + 5, 0x4000 + 9][k / 2];
        unsafe { MODE = true; CUT = [at + o - 3, at + o - 2] }
        n.b = k % 2;
    } else { n.a = [700, 9000][k - 6] + o * 1000; n.b = 1 }
    connect(bit, 17000, true)
}
/// turtls_close while the hello is being written
fn t07_close() {
    let n = net();
    let k = vf::pick(3, "where");
    let bit = setup();
    n.b = 1;
    let o = any(if k == 0 { 180 } else { 12 }, "at");
    unsafe { MODE = true; CUT = [1 + o + [0, 0x4000 - 1, 0x4000 + 400][k], 0] }
    connect(bit, if k == 0 { 0 } else { 17000 }, false)
}
}
