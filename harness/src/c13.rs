//! C13: signed big integers as two's complement numbers of 64 N + 1 bits (a sign bit above N digits).
use crate::{c11::{ref_add, ref_cmp, ref_sub}, vf};
use core::cmp::Ordering;
use crylib::big_int::{BigInt, UBigInt};

/// the two's complement pattern of a number: sign bit and digits
type Pat<const N: usize> = ([u64; N], bool);
fn make<const N: usize>(p: &Pat<N>) -> BigInt<N> {
    let x = BigInt::from(UBigInt(p.0));
    let neg = x.xor(&BigInt::MIN);
    if p.1 { neg } else { x }
}
fn read<const N: usize>(x: &BigInt<N>) -> Pat<N> {
    let neg = x.is_negative();
    let y = if neg { x.xor(&BigInt::MIN) } else { *x };
    (UBigInt::try_from(y).unwrap().0, neg)
}
fn same<const N: usize>(x: &BigInt<N>, p: &Pat<N>, name: &str) {
    let r = read(x);
    vf::check_words(&r.0, &p.0, name);
    vf::check(r.1 == p.1, name);
}
fn s_add<const N: usize>(a: &Pat<N>, b: &Pat<N>) -> Pat<N> {
    let (d, c) = ref_add(&a.0, &b.0, 0);
    (d, a.1 ^ b.1 ^ (c == 1))
}
fn s_neg<const N: usize>(a: &Pat<N>) -> Pat<N> {
    let mut n = a.0;
    for d in n.iter_mut() { *d = !*d }
    let (d, c) = ref_add(&n, &[0; N], 1);
    (d, !a.1 ^ (c == 1))
}
fn is_zero<const N: usize>(a: &Pat<N>) -> bool { !a.1 && a.0 == [0; N] }
fn sym<const N: usize>(d: &str, s: &str) -> Pat<N> { (vf::words(d), vf::boolean(s)) }

fn basics<const N: usize>() {
    let p: Pat<N> = sym("a", "na");
    let x = make(&p);
    vf::check(x.is_negative() == p.1, "C13.is_negative");
    vf::check(x.is_positive() == (!p.1 && p.0 != [0; N]), "C13.is_positive");
    vf::check(x.len() == N, "C13.len");
    let n: Pat<N> = { let mut d = p.0; for w in d.iter_mut() { *w = !*w } (d, !p.1) };
    same(&x.not(), &n, "C13.not");
    let mut y = x;
    y.not_assign();
    same(&y, &n, "C13.not_assign");
    same(&x.neg(), &s_neg(&p), "C13.neg");
    let mut y = x;
    y.neg_assign();
    same(&y, &s_neg(&p), "C13.neg_assign");
    // the magnitude of the least number is not representable
    if !(p.1 && p.0 == [0; N]) {
        let a = if p.1 { s_neg(&p) } else { p };
        same(&x.abs(), &a, "C13.abs");
        let mut y = x;
        y.abs_assign();
        same(&y, &a, "C13.abs_assign");
    }
    vf::check(UBigInt::try_from(x).is_err() == p.1, "C13.to_unsigned");
    let mut one = [0; N];
    one[0] = 1;
    same(&BigInt::<N>::ZERO, &([0; N], false), "C13.ZERO");
    same(&BigInt::<N>::ONE, &(one, false), "C13.ONE");
    same(&BigInt::<N>::NEG_ONE, &([u64::MAX; N], true), "C13.NEG_ONE");
    same(&BigInt::<N>::MAX, &([u64::MAX; N], false), "C13.MAX");
    same(&BigInt::<N>::MIN, &([0; N], true), "C13.MIN");
    same(&BigInt::<N>::default(), &([0; N], false), "C13.default");
}
fn addsub<const N: usize>() {
    let (p, q): (Pat<N>, Pat<N>) = (sym("a", "na"), sym("b", "nb"));
    let (x, y) = (make(&p), make(&q));
    let s = s_add(&p, &q);
    same(&x.add(&y), &s, "C13.add");
    let mut z = x;
    z.add_assign(&y);
    same(&z, &s, "C13.add_assign");
    let d = { let (d, b) = ref_sub(&p.0, &q.0); (d, p.1 ^ q.1 ^ b) };
    same(&x.sub(&y), &d, "C13.sub");
    let mut z = x;
    z.sub_assign(&y);
    same(&z, &d, "C13.sub_assign");
    let e: Pat<N> = { let mut d = p.0; for i in 0..N { d[i] ^= q.0[i] } (d, p.1 ^ q.1) };
    same(&x.xor(&y), &e, "C13.xor");
    let mut z = x;
    z.xor_assign(&y);
    same(&z, &e, "C13.xor_assign");
}
fn order<const N: usize>() {
    let (p, q): (Pat<N>, Pat<N>) = (sym("a", "na"), sym("b", "nb"));
    let (x, y) = (make(&p), make(&q));
    let w = if p.1 != q.1 { if p.1 { Ordering::Less } else { Ordering::Greater } } else { ref_cmp(&p.0, &q.0) };
    vf::check((x == y) == (w == Ordering::Equal), "C13.eq");
    vf::check((x < y) == (w == Ordering::Less), "C13.lt");
    vf::check((x > y) == (w == Ordering::Greater), "C13.gt");
    vf::check((x <= y) == (w != Ordering::Greater), "C13.le");
    vf::check((x >= y) == (w != Ordering::Less), "C13.ge");
    vf::check(x.cmp(&y) == w, "C13.cmp");
    vf::check(x.partial_cmp(&y) == Some(w), "C13.partial_cmp");
}
fn resize<const N: usize, const M: usize>() {
    let p: Pat<N> = sym("a", "na");
    let r: BigInt<M> = make(&p).resize();
    // the value is kept whenever it fits
    let mut fits = true;
    let mut d = [if p.1 { u64::MAX } else { 0 }; M];
    for i in 0..N { if i < M { d[i] = p.0[i] } else if p.0[i] != (if p.1 { u64::MAX } else { 0 }) { fits = false } }
    if fits { same(&r, &(d, p.1), "C13.resize") }
}
macro_rules! sizes { ($f:ident: $($n:literal)*) => {{ const S: &[usize] = &[$($n),*]; let n = S[vf::pick(S.len(), "n")]; $(if n == $n { $f::<$n>() })* }} }
entries! {
fn c13_basics() { sizes!(basics: 1 2 3 4 8) }
fn c13_addsub() { sizes!(addsub: 1 2 3 4 5 8) }
fn c13_order() { sizes!(order: 1 2 3 4 8) }
fn c13_resize() {
    match vf::pick(7, "pair") {
        0 => resize::<4, 8>(), 1 => resize::<8, 4>(), 2 => resize::<3, 2>(), 3 => resize::<2, 3>(),
        4 => resize::<4, 4>(), 5 => resize::<1, 5>(), _ => resize::<6, 3>(),
    }
}
}
