//! C11: unsigned big integers, everything but multiplication and division.
use crate::vf;
use core::cmp::Ordering;
use crylib::big_int::UBigInt;

/// sum of two numbers and a carry, digit by digit in 128-bit arithmetic
pub fn ref_add<const N: usize>(a: &[u64; N], b: &[u64; N], mut c: u64) -> ([u64; N], u64) {
    let mut r = [0; N];
    for i in 0..N {
        let t = a[i] as u128 + b[i] as u128 + c as u128;
        r[i] = t as u64;
        c = (t >> 64) as u64;
    }
    (r, c)
}
/// a - b = a + !b + 1; it borrows when that addition does not carry
pub fn ref_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut n = *b;
    for d in n.iter_mut() { *d = !*d }
    let (r, c) = ref_add(a, &n, 1);
    (r, c == 0)
}
/// compares from the most significant digit
pub fn ref_cmp<const N: usize>(a: &[u64; N], b: &[u64; N]) -> Ordering {
    for i in (0..N).rev() {
        if a[i] != b[i] { return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater } }
    }
    Ordering::Equal
}
fn addsub<const N: usize>() {
    let (a, b): ([u64; N], [u64; N]) = (vf::words("a"), vf::words("b"));
    let (x, y) = (UBigInt(a), UBigInt(b));
    let (s, c) = ref_add(&a, &b, 0);
    let (d, bo) = ref_sub(&a, &b);
    let (r, o) = x.overflowing_add(&y);
    vf::check_words(&r.0, &s, "C11.overflowing_add");
    vf::check(o == (c == 1), "C11.overflowing_add.flag");
    let mut z = x;
    let o = z.overflowing_add_assign(&y);
    vf::check_words(&z.0, &s, "C11.overflowing_add_assign");
    vf::check(o == (c == 1), "C11.overflowing_add_assign.flag");
    let (r, o) = x.overflowing_sub(&y);
    vf::check_words(&r.0, &d, "C11.overflowing_sub");
    vf::check(o == bo, "C11.overflowing_sub.flag");
    let mut z = x;
    let o = z.overflowing_sub_assign(&y);
    vf::check_words(&z.0, &d, "C11.overflowing_sub_assign");
    vf::check(o == bo, "C11.overflowing_sub_assign.flag");
    vf::check_words(&x.add(&y).0, &s, "C11.add");
    vf::check_words(&x.sub(&y).0, &d, "C11.sub");
    let mut z = x;
    z.add_assign(&y);
    vf::check_words(&z.0, &s, "C11.add_assign");
    let mut z = x;
    z.sub_assign(&y);
    vf::check_words(&z.0, &d, "C11.sub_assign");
    let (t, _) = ref_add(&a, &a, 0);
    vf::check_words(&x.double().0, &t, "C11.double");
    let mut z = x;
    z.double_assign();
    vf::check_words(&z.0, &t, "C11.double_assign");
}
fn order<const N: usize>() {
    let (a, b): ([u64; N], [u64; N]) = (vf::words("a"), vf::words("b"));
    let (x, y) = (UBigInt(a), UBigInt(b));
    let w = ref_cmp(&a, &b);
    vf::check(x.cmp(&y) == w, "C11.cmp");
    vf::check(x.partial_cmp(&y) == Some(w), "C11.partial_cmp");
    vf::check((x < y) == (w == Ordering::Less), "C11.lt");
    vf::check((x > y) == (w == Ordering::Greater), "C11.gt");
    vf::check((x <= y) == (w != Ordering::Greater), "C11.le");
    vf::check((x >= y) == (w != Ordering::Less), "C11.ge");
    vf::check((x == y) == (w == Ordering::Equal), "C11.eq");
}
fn bitwise<const N: usize>() {
    let (a, b): ([u64; N], [u64; N]) = (vf::words("a"), vf::words("b"));
    let (x, y) = (UBigInt(a), UBigInt(b));
    macro_rules! two { ($($f:ident $g:ident $n:literal $e:expr;)*) => { $({
        let e: fn(u64, u64) -> u64 = $e;
        let mut r = [0u64; N];
        for i in 0..N { r[i] = e(a[i], b[i]) }
        vf::check_words(&x.$f(&y).0, &r, concat!("C11.", $n));
        let mut z = x;
        z.$g(&y);
        vf::check_words(&z.0, &r, concat!("C11.", $n, "_assign"));
    })* } }
    two! { xor xor_assign "xor" |a, b| a ^ b; and and_assign "and" |a, b| a & b; or or_assign "or" |a, b| a | b;
        nor nor_assign "nor" |a, b| !(a | b); xnor xnor_assign "xnor" |a, b| !(a ^ b); nand nand_assign "nand" |a, b| !(a & b); }
    let mut n = a;
    for d in n.iter_mut() { *d = !*d }
    vf::check_words(&x.not().0, &n, "C11.not");
    let mut z = x;
    z.not_assign();
    vf::check_words(&z.0, &n, "C11.not_assign");
    let c = vf::boolean("c");
    let mut e = a;
    for d in e.iter_mut() { if !c { *d = 0 } }
    vf::check_words(&x.and_bool(c).0, &e, "C11.and_bool");
    let mut z = x;
    z.and_bool_assign(c);
    vf::check_words(&z.0, &e, "C11.and_bool_assign");
    vf::check(x.len() == N, "C11.len");
    vf::check_words(&UBigInt::<N>::from(a[0]).0[1..], &[0; N][1..], "C11.from_u64");
    vf::check(UBigInt::<N>::from(a[0]).0[0] == a[0], "C11.from_u64");
    let w: [u64; N] = x.into();
    vf::check_words(&w, &a, "C11.into");
    vf::check_words(&UBigInt::<N>::try_from(&a[..]).unwrap().0, &a, "C11.try_from");
    vf::check(UBigInt::<N>::try_from(&a[1..]).is_err(), "C11.try_from.short");
    let r: &UBigInt<N> = a.as_ref();
    vf::check_words(&r.0, &a, "C11.as_ref");
    vf::check_words(&UBigInt::<N>::ZERO.0, &[0; N], "C11.ZERO");
    vf::check_words(&UBigInt::<N>::MAX.0, &[u64::MAX; N], "C11.MAX");
    let mut one = [0; N];
    one[0] = 1;
    vf::check_words(&UBigInt::<N>::ONE.0, &one, "C11.ONE");
}
/// digit `i` of the number `a * 2^64` shifted right by `s` in 0..=64, i.e. bits 64*i+s.. of 0:a:0
fn window<const N: usize>(a: &[u64; N], i: usize, s: u64) -> u64 {
    let lo = if i == 0 { 0 } else { a[i - 1] };
    let hi = if i < N { a[i] } else { 0 };
    ((((hi as u128) << 64) | lo as u128) >> s) as u64
}
fn shifts<const N: usize>() {
    let a: [u64; N] = vf::words("a");
    let s = vf::u64_("s");
    let k = s % 64;
    let x = UBigInt(a);
    let (mut l, mut r) = ([0; N], [0; N]);
    for i in 0..N {
        l[i] = window(&a, i, 64 - k);
        r[i] = window(&a, i + 1, k);
    }
    vf::check_words(&x.shift_left(s).0, &l, "C11.shift_left");
    vf::check_words(&x.shift_right(s).0, &r, "C11.shift_right");
    let mut z = x;
    z.shift_left_assign(s);
    vf::check_words(&z.0, &l, "C11.shift_left_assign");
    let mut z = x;
    z.shift_right_assign(s);
    vf::check_words(&z.0, &r, "C11.shift_right_assign");
}
fn counts<const N: usize>() {
    let a: [u64; N] = vf::words("a");
    let x = UBigInt(a);
    // from the definition: the number of digits/bits is one more than the index of the highest nonzero one
    let (mut digits, mut bits) = (0usize, 0usize);
    for i in 0..N {
        if a[i] != 0 { digits = i + 1 }
        for j in 0..64 { bits = if a[i] >> j & 1 == 1 { i * 64 + j + 1 } else { bits } }
    }
    vf::check(x.count_digits() == digits, "C11.count_digits");
    vf::check(x.count_digits_fast() == digits, "C11.count_digits_fast");
    vf::check(x.count_bits() == bits, "C11.count_bits");
}
fn align<const N: usize>() {
    let a: [u64; N] = vf::words("a");
    let top = vf::pick(N, "top");
    vf::assume(a[top] != 0);
    for i in top + 1..N { vf::assume(a[i] == 0) }
    let mut z = UBigInt(a);
    let s = z.left_align();
    vf::check(s < 64, "C11.left_align.range");
    vf::check(z.0[top] >> 63 == 1, "C11.left_align.aligned");
    for i in 0..N { vf::check(z.0[i] == if i <= top { window(&a, i, 64 - s) } else { 0 }, "C11.left_align") }
}
fn bits<const N: usize>() {
    let a: [u64; N] = vf::words("a");
    let x = UBigInt(a);
    let i = vf::pick(64 * N, "bit");
    let v = vf::boolean("v");
    vf::check(x.get_bit(i) == (a[i / 64] >> (i % 64) & 1 == 1), "C11.get_bit");
    let mut z = x;
    z.set_bit(i, v);
    let mut e = a;
    e[i / 64] = if v { a[i / 64] | 1 << (i % 64) } else { a[i / 64] & !(1 << (i % 64)) };
    vf::check_words(&z.0, &e, "C11.set_bit");
    if i % 8 == 0 {
        let b = vf::u8_("b");
        let mut z = x;
        z.set_byte(i / 8, b);
        let mut e = [[0u8; 8]; N];
        for j in 0..N { e[j] = a[j].to_le_bytes() }
        e[i / 64][i / 8 % 8] = b;
        for j in 0..N { vf::check(z.0[j] == u64::from_le_bytes(e[j]), "C11.set_byte") }
    }
}
/// the same with an index that is itself symbolic
fn symbolic_index<const N: usize>() {
    let a: [u64; N] = vf::words("a");
    let i = vf::usize_("i");
    vf::assume(i < 64 * N);
    let mut w = false;
    for d in 0..N { if i / 64 == d { w = a[d] >> (i & 63) & 1 == 1 } }
    vf::check(UBigInt(a).get_bit(i) == w, "C11.get_bit");
}
fn resize<const N: usize, const M: usize>() {
    let a: [u64; N] = vf::words("a");
    let r: UBigInt<M> = UBigInt(a).resize();
    for i in 0..M { vf::check(r.0[i] == if i < N { a[i] } else { 0 }, "C11.resize") }
}
macro_rules! bytes { ($n:literal) => {{
    let b: [u8; 8 * $n] = vf::arr("bytes");
    let (x, y) = (UBigInt::<$n>::from_le_bytes(b), UBigInt::<$n>::from_be_bytes(b));
    for k in 0..8 * $n {
        vf::check((x.0[k / 8] >> (k % 8 * 8)) as u8 == b[k], "C11.from_le_bytes");
        vf::check((y.0[k / 8] >> (k % 8 * 8)) as u8 == b[8 * $n - 1 - k], "C11.from_be_bytes");
    }
    vf::check_eq(&x.to_le_bytes(), &b, "C11.to_le_bytes");
    vf::check_eq(&y.to_be_bytes(), &b, "C11.to_be_bytes");
    let a: [u64; $n] = vf::words("a");
    let s = vf::u64_("s");
    let w = UBigInt(a).widening_shift_left(s);
    for i in 0..$n + 1 { vf::check(w.0[i] == window(&a, i, 64 - s % 64), "C11.widening_shift_left") }
}} }
macro_rules! sizes { ($p:literal $f:ident: $($n:literal)*) => {{ const S: &[usize] = &[$($n),*]; let n = S[vf::pick(S.len(), "n")]; $(if n == $n { $f::<$n>() })* }} }
entries! {
fn c11_addsub() { sizes!("n" addsub: 1 2 3 4 5 6 7 8) }
fn c11_addsub_wide() { sizes!("n" addsub: 9 12 16) }
fn c11_order() { sizes!("n" order: 1 2 3 4 5 6 7 8) }
fn c11_bitwise() { sizes!("n" bitwise: 1 2 3 4 5 6 8) }
fn c11_shifts() { sizes!("n" shifts: 1 2 3 4 5 6 7 8 9) }
fn c11_counts() { vf::merge(true); sizes!("n" counts: 1 2 3 4 5) }
fn c11_counts_wide() { vf::merge(true); sizes!("n" counts: 6 8) }
fn c11_align() { sizes!("n" align: 1 2 3 4 8) }
fn c11_bits() { sizes!("n" bits: 1 2 3 4 8) }
fn c11_symbolic_index() { sizes!("n" symbolic_index: 1 2 4) }
fn c11_resize() {
    match vf::pick(8, "pair") {
        0 => resize::<4, 8>(), 1 => resize::<8, 4>(), 2 => resize::<3, 2>(), 3 => resize::<2, 3>(),
        4 => resize::<4, 4>(), 5 => resize::<1, 5>(), 6 => resize::<5, 1>(), _ => resize::<6, 3>(),
    }
}
fn c11_bytes() {
    match vf::pick(6, "n") { 0 => bytes!(2), 1 => bytes!(3), 2 => bytes!(4), 3 => bytes!(5), 4 => bytes!(6), _ => bytes!(8) }
}
}
