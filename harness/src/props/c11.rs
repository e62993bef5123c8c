//! C11: equality, hashing and ordering.
//!
//! Bounds. Operands of rank 0-3 with up to 8 elements and one of rank 4, strided with symbolic
//! strides and base, dense, constant or dynamic rank, owned arrays and views, in all combinations
//! of dense and strided. Elements are symbolic, with an equality that is neither symmetric nor
//! reflexive, so that operand order and identity shortcuts show. Dimensions that differ: any
//! ranks 0-3 and sizes up to 3. Hashing: the recorded stream of bytes is compared. Dynamic
//! shapes: ranks 0-3 in both representations, any 64-bit sizes. Larger: dense and
//! transposed operands with up to 24 elements. Outside: larger shapes.
use crate::model::{dims, tensor, Lay};
use crate::sym;
use mdarray::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

const N: usize = 9;

type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;
type C2<const X: usize, const Y: usize> = (Const<X>, Const<Y>);

fn array2<T, const X: usize, const Y: usize>(a: [[T; Y]; X]) -> Array<T, C2<X, Y>> {
    Array::from(a)
}

/// Elements with `A(x) == B(y)` if `x <= y`.
#[derive(Clone, Copy)]
pub struct A(u8);
#[derive(Clone, Copy)]
pub struct B(u8);

impl PartialEq<B> for A {
    fn eq(&self, other: &B) -> bool {
        self.0 <= other.0
    }
}

/// Element that is not equal to itself if zero.
#[derive(Clone, Copy)]
pub struct Z(u8);

impl PartialEq for Z {
    fn eq(&self, other: &Z) -> bool {
        self.0 == other.0 && self.0 != 0
    }
}

/// Element where equality ignores the highest bit, and so does the hash.
#[derive(Clone, Copy, Eq)]
pub struct H(u8);

impl PartialEq for H {
    fn eq(&self, other: &H) -> bool {
        self.0 & 127 == other.0 & 127
    }
}

impl Hash for H {
    fn hash<X: Hasher>(&self, state: &mut X) {
        state.write_u8(self.0 & 127)
    }
}

/// Hasher that records the bytes.
struct Rec {
    buf: [u8; 64],
    len: usize,
}

impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        for k in 0..bytes.len() {
            self.buf[self.len] = bytes[k];
            self.len += 1;
        }
    }
}

fn rec<T: Hash + ?Sized>(x: &T) -> Rec {
    let mut r = Rec { buf: [0; 64], len: 0 };
    x.hash(&mut r);
    r
}

fn same(a: &Rec, b: &Rec) {
    assert!(a.len == b.len);
    for k in 0..a.len {
        assert!(a.buf[k] == b.buf[k]);
    }
}

fn buf<T: Copy>(f: impl Fn(u8) -> T) -> [T; N] {
    let mut a = [f(0); N];
    for k in 0..N {
        a[k] = f(sym::u8());
    }
    a
}

/// Elementwise relation for arrays with the same dimensions.
fn all<T, U, const R: usize>(
    l: &Lay<R>,
    a: &[T],
    k: &Lay<R>,
    b: &[U],
    f: impl Fn(&T, &U) -> bool,
) -> bool {
    let mut e = true;
    for n in 0..l.len() {
        let i = l.unlin(n);
        e &= f(&a[l.pos(&i)], &b[k.pos(&i)]);
    }
    e
}

fn le(a: &A, b: &B) -> bool {
    a.0 <= b.0
}

/// Strided operands.
fn ss<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(A), buf(B));
    let (l, k) = (Lay::strided(d, N, 5), Lay::strided(d, N, 5));
    let e = all(&l, &a, &k, &b, le);
    assert!((l.view::<A, S>(&a) == k.view::<B, P>(&b)) == e);
}

/// Strided and dense operands.
fn sd<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(A), buf(B));
    let (l, k) = (Lay::strided(d, N, 5), Lay::dense(d));
    let e = all(&l, &a, &k, &b, le);
    assert!((l.view::<A, S>(&a) == k.dense_view::<B, P>(&b)) == e);
    let e = all(&k, &a, &l, &b, le);
    assert!((k.dense_view::<A, P>(&a) == l.view::<B, S>(&b)) == e);
}

/// Dense operands.
fn dd<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(A), buf(B));
    let l = Lay::dense(d);
    let e = all(&l, &a, &l, &b, le);
    assert!((l.dense_view::<A, S>(&a) == l.dense_view::<B, P>(&b)) == e);
}

/// Dense operands with an element type compared bytewise.
fn bytes<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(|x| x), buf(|x| x));
    let l = Lay::dense(d);
    let e = all(&l, &a, &l, &b, |x, y| x == y);
    assert!((l.dense_view::<u8, S>(&a) == l.dense_view::<u8, P>(&b)) == e);
    assert!((l.dense_view::<u8, S>(&a) != l.dense_view::<u8, P>(&b)) == !e);
}

/// Comparison with itself, and with a view of the same elements.
fn itself<S: Shape, const R: usize>(d: [usize; R]) {
    let a = buf(Z);
    let l = Lay::strided(d, N, 5);
    let v = l.view::<Z, S>(&a);
    let e = all(&l, &a, &l, &a, |x, y| x == y);
    assert!((v == v) == e);
    assert!((v == v.expr()) == e);
    let l = Lay::dense(d);
    let v = l.dense_view::<Z, S>(&a);
    let e = all(&l, &a, &l, &a, |x, y| x == y);
    assert!((v == v) == e);
}

/// Arrays with different dimensions are not equal, here for equal elements.
fn differ<S: Shape, P: Shape, const R: usize, const Q: usize>(d: [usize; R], max: usize, forms: usize) {
    let a = [0u8; 27];
    let (l, k) = (Lay::dense(d), Lay::dense(dims::<Q>(max)));
    let mut e = R == Q;
    for n in 0..R.min(Q) {
        e &= l.d[n] == k.d[n];
    }
    sym::assume(!e);
    match sym::upto(forms - 1) {
        0 => assert!(l.dense_view::<u8, S>(&a) != k.dense_view::<u8, P>(&a)),
        1 => assert!(l.view::<u8, S>(&a) != k.dense_view::<u8, P>(&a)),
        2 => assert!(l.dense_view::<u8, S>(&a) != k.view::<u8, P>(&a)),
        _ => assert!(l.view::<u8, S>(&a) != k.view::<u8, P>(&a)),
    }
}

/// Empty arrays with the same dimensions are equal.
fn empty<S: Shape, const R: usize>(d: [usize; R]) {
    let a = [A(1); 1];
    let b = [B(0); 1];
    let l = Lay { d, s: [1; R], base: 0 };
    let (v, w) = (l.view::<A, S>(&a), l.view::<B, S>(&b));
    assert!(v == w);
    assert!(v == l.dense_view::<B, S>(&b));
    assert!(l.dense_view::<A, S>(&a) == l.dense_view::<B, S>(&b));
    assert!(l.dense_view::<A, S>(&a) == w);
}

/// Equal arrays have the same hash.
fn hash<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(H), buf(H));
    let (l, k) = (Lay::strided(d, N, 5), Lay::strided(d, N, 5));
    let (v, w) = (l.view::<H, S>(&a), k.view::<H, P>(&b));
    sym::assume(all(&l, &a, &k, &b, |x, y| x == y));
    same(&rec(&v), &rec(&w));
    same(&rec(&v), &rec(&*v));
}

fn hash_dense<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let (a, b) = (buf(H), buf(H));
    let (l, k) = (Lay::strided(d, N, 5), Lay::dense(d));
    let (v, w) = (l.view::<H, S>(&a), k.dense_view::<H, P>(&b));
    sym::assume(all(&l, &a, &k, &b, |x, y| x == y));
    same(&rec(&v), &rec(&w));
    same(&rec(&w), &rec(&*w));
}

fn dyn_shape(r: usize) -> (DynRank, [usize; 3]) {
    let d = [sym::usize(), sym::usize(), sym::usize()];
    let s = if r == 4 { DynRank::One(d[0]) } else { DynRank::Dyn(Box::from(&d[..r])) };
    (s, d)
}

fn rank(r: usize) -> usize {
    if r == 4 { 1 } else { r }
}

/// Dynamic shapes compare as their lists of dimensions.
fn shapes(r: usize, q: usize) {
    let (s, d) = dyn_shape(r);
    let (p, k) = dyn_shape(q);
    let (r, q) = (rank(r), rank(q));
    let mut o = r.cmp(&q);
    for n in (0..r.min(q)).rev() {
        if d[n] != k[n] {
            o = d[n].cmp(&k[n]);
        }
    }
    assert!(s.cmp(&p) == o);
    assert!(s.partial_cmp(&p) == Some(o));
    assert!((s == p) == (o == Ordering::Equal));
    assert!((s < p) == (o == Ordering::Less));
    if o == Ordering::Equal {
        same(&rec(&s), &rec(&p));
    }
    let c = s.clone();
    assert!(c.rank() == r && c.dims().len() == r);
    for n in 0..r {
        assert!(c.dims()[n] == d[n] && c.dim(n) == d[n]);
    }
    let mut c = p;
    c.clone_from(&s);
    assert!(c == s && c.rank() == r);
    for n in 0..r {
        assert!(c.dim(n) == d[n]);
    }
}

/// Layout mappings are equal if shape and strides are.
fn mappings<S: Shape, const R: usize>() {
    let (mut d, mut k) = ([0; R], [0; R]);
    let (mut s, mut t) = ([0; R], [0; R]);
    let mut e = true;
    let mut f = true;
    for n in 0..R {
        (d[n], k[n]) = (sym::usize(), sym::usize());
        (s[n], t[n]) = (sym::usize() as isize, sym::usize() as isize);
        e &= d[n] == k[n];
        f &= s[n] == t[n];
    }
    let (a, b) = (DenseMapping::new(S::from_dims(&d)), DenseMapping::new(S::from_dims(&k)));
    assert!((a == b) == e);
    let v = StridedMapping::new(S::from_dims(&d), &s);
    let w = StridedMapping::new(S::from_dims(&k), &t);
    assert!((v == w) == (e && f));
    if e {
        same(&rec(&a), &rec(&b));
    }
    if e && f {
        same(&rec(&v), &rec(&w));
    }
}


fn many<T: Copy, const M: usize>(f: impl Fn(u8) -> T) -> [T; M] {
    std::array::from_fn(|_| f(sym::u8()))
}

harnesses! {
    holds quick larger_dd [46] {
        let (a, b) = (many::<_, 20>(A), many::<_, 20>(B));
        let l = Lay::dense([4, 5]);
        let e = all(&l, &a, &l, &b, le);
        assert!((l.dense_view::<A, S2>(&a) == l.dense_view::<B, S2>(&b)) == e);
        let l = Lay::dense([20]);
        assert!((l.dense_view::<A, S1>(&a) == l.dense_view::<B, S1>(&b)) == e);
    }
    holds quick larger_sd [46] {
        // Transposed compared to dense.
        let (a, b) = (many::<_, 15>(A), many::<_, 15>(B));
        let (l, k) = (Lay::dense([3, 5]), Lay { d: [3, 5], s: [1, 3], base: 0 });
        let e = all(&l, &a, &k, &b, le);
        assert!((l.dense_view::<A, S2>(&a) == k.view::<B, S2>(&b)) == e);
    }
    holds thorough larger_ds [46] {
        let (a, b) = (many::<_, 20>(A), many::<_, 20>(B));
        let (l, k) = (Lay::dense([4, 5]), Lay { d: [4, 5], s: [1, 4], base: 0 });
        let e = all(&k, &a, &l, &b, le);
        assert!((k.view::<A, S2>(&a) == l.dense_view::<B, S2>(&b)) == e);
    }
    holds quick larger_bytes [46] {
        let (a, b) = (many::<_, 24>(|x| x), many::<_, 24>(|x| x));
        let l = Lay::dense([2, 3, 4]);
        let e = all(&l, &a, &l, &b, |x, y| x == y);
        assert!((l.dense_view::<u8, S3>(&a) == l.dense_view::<u8, S3>(&b)) == e);
    }
    holds quick larger_hash [46] {
        // The same elements, dense and transposed.
        let a = many::<_, 18>(H);
        let mut b = [H(0); 18];
        for i in 0..3 {
            for j in 0..6 {
                b[i + 3 * j] = H(a[6 * i + j].0 ^ 128);
            }
        }
        let (l, k) = (Lay::dense([3, 6]), Lay { d: [3, 6], s: [1, 3], base: 0 });
        same(&rec(&l.dense_view::<H, S2>(&a)), &rec(&k.view::<H, S2>(&b)));
    }
    holds quick ss_0 [12] { ss::<(), (), 0>([]) }
    holds quick ss_1 [12] { ss::<S1, S1, 1>([3]) }
    holds thorough ss_1_4 [12] { ss::<S1, S1, 1>([4]) }
    holds quick ss_22 [20] { ss::<S2, S2, 2>([2, 2]) }
    holds thorough ss_23 [20] { ss::<S2, S2, 2>([2, 3]) }
    holds thorough ss_31 [20] { ss::<S2, S2, 2>([3, 1]) }
    holds thorough ss_13 [20] { ss::<S2, S2, 2>([1, 3]) }
    holds thorough ss_32 [20] { ss::<S2, S2, 2>([3, 2]) }
    holds quick ss_212 [26] { ss::<S3, S3, 3>([2, 1, 2]) }
    holds thorough ss_222 [26] { ss::<S3, S3, 3>([2, 2, 2]) }
    holds thorough ss_221 [26] { ss::<S3, S3, 3>([2, 2, 1]) }
    holds thorough ss_122 [26] { ss::<S3, S3, 3>([1, 2, 2]) }
    holds thorough ss_4 [34] { ss::<Rank<4>, Rank<4>, 4>([2, 1, 2, 2]) }
    holds quick ss_const [26] { ss::<C2<2, 2>, S2, 2>([2, 2]) }
    holds quick ss_dyn_0 [12] { ss::<DynRank, (), 0>([]) }
    holds quick ss_dyn_1 [12] { ss::<DynRank, S1, 1>([3]) }
    holds quick ss_dyn_2 [26] { ss::<S2, DynRank, 2>([2, 2]) }
    holds thorough ss_dyn_3 [26] { ss::<S3, DynRank, 3>([2, 1, 2]) }
    holds quick sd_0 [12] { sd::<(), (), 0>([]) }
    holds quick sd_1 [12] { sd::<S1, S1, 1>([3]) }
    holds quick sd_22 [20] { sd::<S2, S2, 2>([2, 2]) }
    holds thorough sd_23 [20] { sd::<S2, S2, 2>([2, 3]) }
    holds thorough sd_32 [20] { sd::<S2, S2, 2>([3, 2]) }
    holds thorough sd_212 [26] { sd::<S3, S3, 3>([2, 1, 2]) }
    holds thorough sd_222 [26] { sd::<S3, S3, 3>([2, 2, 2]) }
    holds thorough sd_dyn_2 [26] { sd::<DynRank, S2, 2>([2, 2]) }
    holds thorough sd_const_2 [26] { sd::<S2, C2<2, 3>, 2>([2, 3]) }
    holds quick dd_0 [12] { dd::<(), (), 0>([]) }
    holds quick dd_1 [12] { dd::<S1, S1, 1>([4]) }
    holds quick dd_23 [20] { dd::<S2, S2, 2>([2, 3]) }
    holds quick dd_32 [20] { dd::<S2, C2<3, 2>, 2>([3, 2]) }
    holds quick dd_222 [26] { dd::<S3, S3, 3>([2, 2, 2]) }
    holds quick dd_dyn_2 [26] { dd::<DynRank, S2, 2>([2, 3]) }
    holds quick dd_dyn_0 [12] { dd::<(), DynRank, 0>([]) }
    holds quick dd_4 [34] { dd::<Rank<4>, Rank<4>, 4>([2, 1, 2, 2]) }
    holds quick bytes_1 [12] { bytes::<S1, S1, 1>([4]) }
    holds quick bytes_2 [20] { bytes::<S2, S2, 2>([2, 3]) }
    holds quick bytes_3 [26] { bytes::<S3, S3, 3>([2, 1, 3]) }
    holds quick itself_1 [12] { itself::<S1, 1>([3]) }
    holds quick itself_2 [26] { itself::<S2, 2>([2, 2]) }
    holds quick differ_01 [20] { differ::<(), S1, 0, 1>([], 3, 4) }
    holds quick differ_10 [20] { differ::<S1, (), 1, 0>([1], 3, 4) }
    holds quick differ_11 [20] { differ::<S1, S1, 1, 1>([2], 3, 4) }
    holds quick differ_11_0 [20] { differ::<S1, S1, 1, 1>([0], 3, 4) }
    holds quick differ_12 [20] { differ::<S1, S2, 1, 2>([3], 3, 4) }
    holds quick differ_22 [20] { differ::<S2, S2, 2, 2>([2, 2], 3, 4) }
    holds quick differ_22_0 [20] { differ::<S2, S2, 2, 2>([0, 3], 3, 4) }
    holds quick differ_23 [30] { differ::<S2, S3, 2, 3>([2, 2], 3, 4) }
    holds thorough differ_33 [30] { differ::<S3, S3, 3, 3>([2, 1, 2], 2, 1) }
    holds thorough differ_33_all [30] { differ::<S3, S3, 3, 3>([2, 1, 3], 3, 4) }
    holds quick differ_dyn_12 [20] { differ::<DynRank, DynRank, 1, 2>([2], 3, 4) }
    holds thorough differ_dyn_22 [20] { differ::<DynRank, S2, 2, 2>([2, 2], 2, 4) }
    holds thorough differ_dyn_03 [30] { differ::<DynRank, S3, 0, 3>([], 3, 4) }
    holds quick empty_1 [12] { empty::<S1, 1>([0]) }
    holds quick empty_02 [26] { empty::<S2, 2>([0, 2]) }
    holds quick empty_20 [26] { empty::<S2, 2>([2, 0]) }
    holds thorough empty_201 [26] { empty::<S3, 3>([2, 0, 1]) }
    holds thorough empty_dyn_20 [26] { empty::<DynRank, 2>([2, 0]) }
    holds quick hash_0 [12] { hash::<(), (), 0>([]) }
    holds quick hash_1 [34] { hash::<S1, S1, 1>([3]) }
    holds quick hash_22 [34] { hash::<S2, S2, 2>([2, 2]) }
    holds thorough hash_23 [34] { hash::<S2, DynRank, 2>([2, 3]) }
    holds thorough hash_212 [42] { hash::<S3, S3, 3>([2, 1, 2]) }
    holds quick hash_sd_1 [34] { hash_dense::<S1, S1, 1>([3]) }
    holds quick hash_sd_23 [34] { hash_dense::<S2, S2, 2>([2, 3]) }
    holds quick hash_sd_212 [42] { hash_dense::<S3, S3, 3>([2, 1, 2]) }
    holds quick hash_sd_dyn [34] { hash_dense::<S2, DynRank, 2>([2, 2]) }
    holds quick hash_empty [34] {
        let a = [H(0); 1];
        let l = Lay { d: [2, 0], s: [1, 1], base: 0 };
        same(&rec(&l.view::<H, S2>(&a)), &rec(&l.dense_view::<H, DynRank>(&a)));
    }
    holds quick owned_array_tensor [26] {
        let (a, b) = (buf(A), buf(B));
        let l = Lay::dense([2, 2]);
        let e = all(&l, &a, &l, &b, le);
        let x = array2([[a[0], a[1]], [a[2], a[3]]]);
        let y = tensor::<B, S2, 2>(&b, [2, 2], 0);
        assert!((x == y) == e);
    }
    holds quick owned_tensor_array [26] {
        let (a, b) = (buf(A), buf(B));
        let l = Lay::dense([2, 2]);
        let e = all(&l, &a, &l, &b, le);
        let x = tensor::<A, S2, 2>(&a, [2, 2], 0);
        let y = array2([[b[0], b[1]], [b[2], b[3]]]);
        assert!((x == y) == e);
        assert!((x == y.expr()) == e);
        assert!((*x == y) == e);
    }
    holds quick owned_array_view [26] {
        let (a, mut b) = (buf(A), buf(B));
        let l = Lay::dense([2, 2]);
        let k = Lay::strided_mut([2, 2], N, 5);
        let e = all(&l, &a, &k, &b, le);
        let x = array2([[a[0], a[1]], [a[2], a[3]]]);
        assert!((x == k.view::<B, S2>(&b)) == e);
        assert!((x == k.view_mut::<B, S2>(&mut b)) == e);
    }
    holds quick owned_view_array [26] {
        let (mut a, b) = (buf(A), buf(B));
        let l = Lay::dense([2, 2]);
        let k = Lay::strided_mut([2, 2], N, 5);
        let e = all(&k, &a, &l, &b, le);
        let x = array2([[b[0], b[1]], [b[2], b[3]]]);
        assert!((k.view::<A, S2>(&a) == x) == e);
        assert!((k.view_mut::<A, S2>(&mut a) == x) == e);
    }
    holds quick owned_arrays [26] {
        let (a, b) = (buf(A), buf(B));
        let l = Lay::dense([3, 2]);
        let e = all(&l, &a, &l, &b, le);
        let x = array2([[a[0], a[1]], [a[2], a[3]], [a[4], a[5]]]);
        let y = array2([[b[0], b[1]], [b[2], b[3]], [b[4], b[5]]]);
        assert!((x == y) == e);
    }
    holds quick owned_tensors [26] {
        let (a, b) = (buf(A), buf(B));
        let l = Lay::dense([2, 2]);
        let e = all(&l, &a, &l, &b, le);
        let x = tensor::<A, S2, 2>(&a, [2, 2], 1);
        let y = tensor::<B, DynRank, 2>(&b, [2, 2], 0);
        assert!((x == y) == e);
    }
    holds quick owned_hash [50] {
        let (a, b) = (buf(H), buf(H));
        let l = Lay::dense([2, 2]);
        sym::assume(all(&l, &a, &l, &b, |x, y| x == y));
        let x = array2([[a[0], a[1]], [a[2], a[3]]]);
        let y = tensor::<H, S2, 2>(&b, [2, 2], 0);
        let v = rec(&x);
        same(&v, &rec(&y));
        let s: &Slice<H, C2<2, 2>> = x.borrow();
        same(&v, &rec(s));
        let s: &Slice<H, S2> = y.borrow();
        same(&v, &rec(s));
    }
    holds quick hash_view_mut [50] {
        let mut a = buf(H);
        let l = Lay::strided_mut([2, 2], N, 5);
        let v = rec(&l.view::<H, S2>(&a));
        same(&v, &rec(&l.view_mut::<H, S2>(&mut a)));
    }
    holds quick shape_00 [30] { shapes(0, 0) }
    holds quick shape_01 [30] { shapes(0, 1) }
    holds quick shape_04 [30] { shapes(0, 4) }
    holds quick shape_11 [30] { shapes(1, 1) }
    holds quick shape_14 [30] { shapes(1, 4) }
    holds quick shape_41 [30] { shapes(4, 1) }
    holds quick shape_44 [30] { shapes(4, 4) }
    holds quick shape_42 [30] { shapes(4, 2) }
    holds quick shape_24 [30] { shapes(2, 4) }
    holds quick shape_22 [30] { shapes(2, 2) }
    holds quick shape_23 [36] { shapes(2, 3) }
    holds quick shape_33 [36] { shapes(3, 3) }
    holds thorough shape_12 [30] { shapes(1, 2) }
    holds thorough shape_21 [30] { shapes(2, 1) }
    holds thorough shape_32 [36] { shapes(3, 2) }
    holds thorough shape_34 [36] { shapes(3, 4) }
    holds thorough shape_30 [36] { shapes(3, 0) }
    holds quick mapping_1 [40] { mappings::<S1, 1>() }
    holds quick mapping_2 [50] { mappings::<S2, 2>() }
    holds quick mapping_dyn [50] { mappings::<DynRank, 2>() }
}
