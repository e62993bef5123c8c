//! C14: shapes and layout mappings.
//!
//! Bounds. Shapes of static rank 0-6 and dynamic rank 0-4 with any 64-bit sizes, mixed constant
//! and dynamic dimensions, all ways to write a shape. Lengths and dense strides: sizes up to
//! 2^10 (rank 1-3) and up to 15 (rank 4-6). Strides: any 64-bit values as reported; contiguity for
//! sizes up to 3 and strides up to 16 in absolute value (rank 0-3). Rejected dimension numbers,
//! ranks up to 7 and constant sizes: any 64-bit values. Outside: lengths that overflow (the shape
//! of an existing array has none).
use crate::model::{dims, tensor, Lay};
use crate::sym;
use mdarray::*;

type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;
type M3 = (Const<2>, Dyn, Const<3>);

fn any<const R: usize>() -> [usize; R] {
    let mut d = [0; R];
    for k in 0..R {
        d[k] = sym::usize();
    }
    d
}

fn small<const R: usize>(bits: u32) -> [usize; R] {
    let mut d = [0; R];
    for k in 0..R {
        d[k] = sym::usize();
        sym::assume(d[k] < 1 << bits);
    }
    d
}

fn has<S: Shape, const R: usize>(s: &S, d: [usize; R]) {
    assert!(s.rank() == R);
    for k in 0..R {
        assert!(s.dim(k) == d[k]);
    }
}

/// A shape has the dimensions it is created from.
fn created<S: Shape, const R: usize>() {
    let d = any::<R>();
    let s = S::from_dims(&d);
    has(&s, d);
    has(&s.clone(), d);
    let m = DenseMapping::new(s.clone());
    has(m.shape(), d);
    assert!(m.rank() == R);
    for k in 0..R {
        assert!(m.dim(k) == d[k]);
    }
}

/// The length is the product of the dimensions.
fn length<S: Shape, const R: usize>(bits: u32) {
    let d = small::<R>(bits);
    let s = S::from_dims(&d);
    let mut n = 1;
    let mut zero = false;
    for k in 0..R {
        n *= d[k];
        zero |= d[k] == 0;
    }
    assert!(s.len() == n && s.is_empty() == zero);
    let m = DenseMapping::new(s);
    assert!(m.len() == n && m.is_empty() == zero && m.is_contiguous());
    let mut t = 1;
    for k in (0..R).rev() {
        assert!(m.stride(k) == t as isize);
        t *= d[k];
    }
}

/// A strided mapping has the given dimensions and strides.
fn strided<S: Shape, const R: usize>() {
    let d = any::<R>();
    let mut t = [0; R];
    for k in 0..R {
        t[k] = sym::usize() as isize;
    }
    let m = StridedMapping::new(S::from_dims(&d), &t);
    has(m.shape(), d);
    assert!(m.rank() == R && m.strides().len() == R);
    for k in 0..R {
        assert!(m.dim(k) == d[k] && m.stride(k) == t[k] && m.strides()[k] == t[k]);
    }
    let c = m.clone();
    has(c.shape(), d);
    for k in 0..R {
        assert!(c.stride(k) == t[k]);
    }
}

/// A strided mapping said to be contiguous has the elements in order, and one with the strides
/// of a dense array is said to be contiguous.
fn contiguous<S: Shape, const R: usize>() {
    let d = dims::<R>(3);
    let mut l = Lay { d, s: [0; R], base: 0 };
    for k in 0..R {
        l.s[k] = sym::signed(16);
    }
    let m = StridedMapping::new(S::from_dims(&d), &l.s);
    let e = Lay::dense(d);
    if m.is_contiguous() && l.len() > 0 {
        let i = l.index();
        assert!(l.pos(&i) == l.lin(&i));
    }
    if l.s == e.s {
        assert!(m.is_contiguous());
    }
    assert!(m.len() == l.len() && m.is_empty() == (l.len() == 0));
}

/// An array reports the shape and strides of its layout.
fn array<S: Shape, const R: usize>(max: usize) {
    let a = [0u8; 32];
    let l = Lay::strided(dims::<R>(max), 32, 8);
    let v = l.view::<u8, S>(&a);
    l.same_dims(&v);
    has(v.shape(), l.d);
    assert!(v.is_empty() == (l.len() == 0) && v.mapping().rank() == R);
    for k in 0..R {
        assert!(v.stride(k) == l.s[k] && v.mapping().stride(k) == l.s[k]);
        assert!(v.strides()[k] == l.s[k]);
    }
    assert!(v.as_ptr() == a.as_ptr().wrapping_offset(l.base));
    assert!(v.is_contiguous() == v.mapping().is_contiguous());
    let e = Lay::dense(l.d);
    sym::assume(e.len() <= 32);
    let v = e.dense_view::<u8, S>(&a);
    e.same_dims(&v);
    assert!(v.is_contiguous());
    for k in 0..R {
        assert!(v.stride(k) == e.s[k]);
    }
}

/// New tensors are empty, with the default shape.
fn fresh<S: Shape, const R: usize>(d: [usize; R]) {
    let c = sym::upto(3);
    let t = match sym::upto(2) {
        0 => Tensor::<u8, S>::new(),
        1 => Tensor::<u8, S>::default(),
        _ => {
            let t = Tensor::<u8, S>::with_capacity(c);
            assert!(t.capacity() >= c);
            t
        }
    };
    assert!(t.is_empty());
    Lay::dense(d).same_dims(&t);
    has(&S::default(), d);
}

harnesses! {
    holds quick created_0 [8] { created::<(), 0>() }
    holds quick created_1 [8] { created::<S1, 1>() }
    holds quick created_2 [8] { created::<S2, 2>() }
    holds quick created_3 [8] { created::<S3, 3>() }
    holds quick created_4 [8] { created::<Rank<4>, 4>() }
    holds quick created_5 [8] { created::<Rank<5>, 5>() }
    holds quick created_6 [8] { created::<Rank<6>, 6>() }
    holds quick created_dyn_0 [8] { created::<DynRank, 0>() }
    holds quick created_dyn_1 [8] { created::<DynRank, 1>() }
    holds quick created_dyn_2 [8] { created::<DynRank, 2>() }
    holds quick created_dyn_4 [8] { created::<DynRank, 4>() }
    holds quick created_const [8] {
        let n = sym::usize();
        has(&M3::from_dims(&[2, n, 3]), [2, n, 3]);
        has(&<(Dyn, Const<4>)>::from_dims(&[n, 4]), [n, 4]);
        has(&<(Const<4>, Dyn)>::from_dims(&[4, n]), [4, n]);
        has(&<(Const<5>,)>::from_dims(&[5]), [5]);
        has(&<(Const<1>, Const<2>, Const<3>, Const<4>, Const<5>, Const<6>)>::from_dims(&[1, 2, 3, 4, 5, 6]), [1, 2, 3, 4, 5, 6]);
        has(&<(Const<1>, Dyn, Const<3>, Dyn, Const<5>)>::from_dims(&[1, n, 3, 7, 5]), [1, n, 3, 7, 5]);
    }
    holds quick length_0 [8] { length::<(), 0>(1) }
    holds quick length_1 [8] { length::<S1, 1>(10) }
    holds quick length_2 [8] { length::<S2, 2>(10) }
    holds quick length_3 [8] { length::<S3, 3>(8) }
    holds thorough length_3_10 [8] { length::<S3, 3>(10) }
    holds quick length_4 [8] { length::<Rank<4>, 4>(4) }
    holds thorough length_5 [8] { length::<Rank<5>, 5>(4) }
    holds quick length_5_3 [8] { length::<Rank<5>, 5>(3) }
    holds quick length_6_2 [8] { length::<Rank<6>, 6>(2) }
    holds thorough length_6 [8] { length::<Rank<6>, 6>(4) }
    holds quick length_dyn_0 [8] { length::<DynRank, 0>(1) }
    holds quick length_dyn_1 [8] { length::<DynRank, 1>(10) }
    holds quick length_dyn_3 [8] { length::<DynRank, 3>(5) }
    holds quick length_const [8] {
        let n = sym::upto(200);
        let s = M3::from_dims(&[2, n, 3]);
        assert!(s.len() == 6 * n && s.is_empty() == (n == 0));
        assert!(<(Const<2>, Const<0>, Const<5>)>::default().len() == 0);
        assert!(<(Const<2>, Const<4>, Const<5>)>::default().len() == 40);
        let m = DenseMapping::new(s);
        assert!(m.stride(0) == 3 * n as isize && m.stride(1) == 3 && m.stride(2) == 1);
    }
    holds quick strided_0 [8] { strided::<(), 0>() }
    holds quick strided_1 [8] { strided::<S1, 1>() }
    holds quick strided_2 [8] { strided::<S2, 2>() }
    holds quick strided_3 [8] { strided::<S3, 3>() }
    holds quick strided_6 [8] { strided::<Rank<6>, 6>() }
    holds quick strided_dyn_0 [8] { strided::<DynRank, 0>() }
    holds quick strided_dyn_1 [8] { strided::<DynRank, 1>() }
    holds quick strided_dyn_3 [8] { strided::<DynRank, 3>() }
    holds quick contiguous_0 [26] { contiguous::<(), 0>() }
    holds quick contiguous_1 [26] { contiguous::<S1, 1>() }
    holds quick contiguous_2 [26] { contiguous::<S2, 2>() }
    holds quick contiguous_3 [26] { contiguous::<S3, 3>() }
    holds quick contiguous_dyn [26] { contiguous::<DynRank, 2>() }
    holds quick array_0 [8] { array::<(), 0>(3) }
    holds quick array_1 [8] { array::<S1, 1>(4) }
    holds quick array_2 [8] { array::<S2, 2>(3) }
    holds quick array_3 [8] { array::<S3, 3>(3) }
    holds quick array_dyn_1 [8] { array::<DynRank, 1>(4) }
    holds quick array_dyn_3 [8] { array::<DynRank, 3>(3) }
    holds quick array_dims [8] {
        let a = [0u8; 32];
        let l = Lay::strided(dims::<2>(3), 32, 8);
        let v = l.view::<u8, DynRank>(&a);
        assert!(v.dims().len() == 2 && v.dims()[0] == l.d[0] && v.dims()[1] == l.d[1]);
        assert!(v.shape().dims().len() == 2 && v.mapping().dims()[1] == l.d[1]);
        assert!(v.mapping().strides().len() == 2);
    }
    holds quick array_owned [12] {
        let a = [0u8; 8];
        let t = tensor::<u8, S2, 2>(&a, [2, 3], 2);
        Lay::dense([2, 3]).same_dims(&t);
        assert!(t.stride(0) == 3 && t.stride(1) == 1 && t.is_contiguous() && !t.is_empty());
        let t: Array<u8, (Const<2>, Const<0>)> = Array::from_elem(1);
        Lay::dense([2, 0]).same_dims(&t);
        assert!(t.is_empty() && t.stride(0) == 0 && t.stride(1) == 1);
    }
    holds quick forms_0 [8] {
        has(&[].into_shape(), []);
        has(&<&[usize; 0]>::into_shape(&[]), []);
        has(&().into_shape(), []);
        has(&Vec::new().into_shape(), []);
    }
    holds quick forms_1 [8] {
        let d = any::<1>();
        has(&d.into_shape(), d);
        has(&(&d).into_shape(), d);
        has(&(&d[..]).into_shape(), d);
        has(&d[0].into_shape(), d);
        has(&(d[0],).into_shape(), d);
        has(&Const::<3>.into_shape(), [3]);
        has(&DynRank::One(d[0]).into_shape(), d);
    }
    holds quick forms_2 [8] {
        let d = any::<2>();
        has(&d.into_shape(), d);
        has(&(&d).into_shape(), d);
        has(&(&d[..]).into_shape(), d);
        has(&(d[0], d[1]).into_shape(), d);
        has(&(d[0], Const::<7>).into_shape(), [d[0], 7]);
        has(&vec![d[0], d[1]].into_shape(), d);
        has(&vec![d[0], d[1]].into_boxed_slice().into_shape(), d);
    }
    holds quick forms_3 [8] {
        let d = any::<3>();
        has(&d.into_shape(), d);
        has(&(&d).into_shape(), d);
        has(&(Const::<2>, d[1], Const::<3>).into_shape(), [2, d[1], 3]);
        has(&DynRank::Dyn(Box::new(d)).into_shape(), d);
    }
    holds quick forms_456 [8] {
        let d = any::<6>();
        has(&[d[0], d[1], d[2], d[3]].into_shape(), [d[0], d[1], d[2], d[3]]);
        has(&[d[0], d[1], d[2], d[3], d[4]].into_shape(), [d[0], d[1], d[2], d[3], d[4]]);
        has(&d.into_shape(), d);
        has(&(&d).into_shape(), d);
    }
    holds quick fresh_1 [8] { fresh::<S1, 1>([0]) }
    holds quick fresh_3 [8] { fresh::<S3, 3>([0, 0, 0]) }
    holds quick fresh_dyn [8] { fresh::<DynRank, 1>([0]) }
    holds quick fresh_const [8] { fresh::<M3, 3>([2, 0, 3]) }
    holds quick fresh_const_0 [8] { fresh::<(Const<2>, Const<0>), 2>([2, 0]) }
    holds quick ranks [8] {
        assert!(<()>::RANK == Some(0) && DynRank::RANK.is_none());
        assert!(<(Dyn,)>::RANK == Some(1) && <(Const<3>,)>::RANK == Some(1));
        assert!(S2::RANK == Some(2) && <(Const<2>, Dyn)>::RANK == Some(2) && S3::RANK == Some(3));
        assert!(Rank::<4>::RANK == Some(4) && Rank::<5>::RANK == Some(5) && Rank::<6>::RANK == Some(6));
        assert!(<S3 as Shape>::Tail::RANK == Some(2) && <Rank<6> as Shape>::Tail::RANK == Some(5));
    }
    holds quick merged [8] {
        // Constant sizes are kept when shapes are combined.
        type A = (Const<2>, Dyn, Dyn);
        type B = (Dyn, Const<3>, Dyn);
        type M = <A as Shape>::Merge<B>;
        assert!(M::RANK == Some(3));
        assert!(<M as Shape>::Head::SIZE == Some(2));
        assert!(<<M as Shape>::Tail as Shape>::Head::SIZE == Some(3));
        assert!(<<<M as Shape>::Tail as Shape>::Tail as Shape>::Head::SIZE.is_none());
        assert!(<A as Shape>::Merge::<DynRank>::RANK.is_none());
        assert!(<<(Dyn, Const<2>, Const<4>) as Shape>::Reverse as Shape>::Head::SIZE == Some(4));
    }
    panics quick rank_less [10] {
        let d = [sym::usize(); 1];
        sym::before();
        S2::from_dims(&d);
    }
    panics quick rank_any [10] {
        let d = [sym::usize(); 7];
        let n = sym::upto(7);
        sym::assume(n != 3);
        sym::before();
        S3::from_dims(&d[..n]);
    }
    panics quick rank_any_1 [10] {
        let d = [sym::usize(); 7];
        let n = sym::upto(7);
        sym::assume(n != 1);
        sym::before();
        S1::from_dims(&d[..n]);
    }
    panics quick rank_any_0 [10] {
        let d = [sym::usize(); 7];
        let n = sym::within(1, 7);
        sym::before();
        <() as Shape>::from_dims(&d[..n]);
    }
    panics quick rank_any_6 [10] {
        let d = [sym::usize(); 7];
        let n = sym::upto(7);
        sym::assume(n != 6);
        sym::before();
        <Rank<6> as Shape>::from_dims(&d[..n]);
    }
    panics quick size_const [10] {
        let d = any::<3>();
        sym::assume(d[0] != 2 || d[2] != 3);
        sym::before();
        M3::from_dims(&d);
    }
    panics quick size_const_1 [10] {
        let d = any::<1>();
        sym::assume(d[0] != 5);
        sym::before();
        <(Const<5>,)>::from_dims(&d);
    }
    panics quick size_const_6 [50] {
        let d = any::<6>();
        sym::assume(d != [1, 2, 3, 4, 5, 6]);
        sym::before();
        <(Const<1>, Const<2>, Const<3>, Const<4>, Const<5>, Const<6>)>::from_dims(&d);
    }
    panics quick dim_shape [10] {
        let (d, k) = (any::<3>(), sym::usize());
        sym::assume(k >= 3);
        let s = S3::from_dims(&d);
        sym::before();
        s.dim(k);
    }
    panics quick dim_shape_0 [10] {
        let k = sym::usize();
        sym::before();
        ().dim(k);
    }
    panics quick dim_shape_dyn [10] {
        let (d, k) = (any::<2>(), sym::usize());
        sym::assume(k >= 2);
        let s = DynRank::from_dims(&d);
        sym::before();
        s.dim(k);
    }
    panics quick stride_dense [10] {
        let k = sym::usize();
        sym::assume(k >= 2);
        let m = DenseMapping::new([2, 3].into_shape());
        sym::before();
        m.stride(k);
    }
    panics quick stride_strided [10] {
        let k = sym::usize();
        sym::assume(k >= 2);
        let m = StridedMapping::new([2, 3].into_shape(), &[3, 1]);
        sym::before();
        m.stride(k);
    }
    panics quick stride_array [10] {
        let k = sym::usize();
        sym::assume(k >= 2);
        let a = [0u8; 4];
        let v = Lay::dense([2, 2]).view::<u8, S2>(&a);
        sym::before();
        v.stride(k);
    }
    panics quick dim_array [10] {
        let k = sym::usize();
        sym::assume(k >= 2);
        let a = [0u8; 4];
        let v = Lay::dense([2, 2]).view::<u8, S2>(&a);
        sym::before();
        v.dim(k);
    }
    panics quick strides_count [10] {
        let t = [1; 4];
        let n = sym::upto(4);
        sym::assume(n != 2);
        sym::before();
        StridedMapping::new([2, 3].into_shape(), &t[..n]);
    }
    panics quick strides_count_dyn [10] {
        let t = [1; 4];
        let n = sym::upto(4);
        sym::assume(n != 2);
        let s = (&[2, 3]).into_shape();
        sym::before();
        StridedMapping::new(s, &t[..n]);
    }
    panics quick fresh_full [10] {
        sym::before();
        Tensor::<u8, (Const<2>, Const<3>)>::new();
    }
    panics quick fresh_scalar [10] {
        sym::before();
        Tensor::<u8, ()>::new();
    }
    panics quick fresh_scalar_capacity [10] {
        let n = sym::upto(3);
        sym::before();
        Tensor::<u8, ()>::with_capacity(n);
    }
}
