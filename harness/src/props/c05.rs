//! C05: iteration gives each element exactly once in row-major order, with exact remaining
//! length at every point, and nothing after the end.
//!
//! Bounds. Shapes: rank 0, rank 1 up to 5 elements, rank 2 up to (3,3), rank 3 up to 12 elements,
//! rank 4 and 6 with dimensions up to 2, including each dimension being empty or having size 1;
//! strided layout with symbolic strides (positive, zero, negative) and base in a buffer of 32
//! elements, dense layout, constant and mixed dimensions, dynamic rank 0-3. Element-wise next,
//! fold, for_each, and fold, clone and size after any number of elements. iter, iter_mut, expr,
//! expr_mut and into_iter for slices, views, tensors and arrays. Larger fixed shapes
//! and strides: 33, 18, 5 x 4, 2 x 9, 3 x 4 x 2, with part of it by next and the rest by fold.
//! Outside: larger shapes.
use crate::model::{dims, Lay};
use crate::sym;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::*;

/// The position of each element in row-major order.
fn nth<const R: usize>(l: &Lay<R>, n: usize) -> usize {
    l.pos(&l.unlin(n))
}

/// Element-wise iteration from the start.
fn by_next<I: ExactSizeIterator, const R: usize>(
    mut it: I,
    l: &Lay<R>,
    data: *const u8,
    addr: impl Fn(I::Item) -> *const u8,
) {
    let len = l.len();
    for n in 0..len {
        assert!(it.size_hint() == (len - n, Some(len - n)));
        match it.next() {
            Some(x) => assert!(addr(x) == unsafe { data.add(nth(l, n)) }),
            None => assert!(false),
        }
    }
    for _ in 0..2 {
        assert!(it.size_hint() == (0, Some(0)) && it.len() == 0);
        assert!(it.next().is_none());
    }
}

/// First k elements one by one, the remaining elements with fold.
fn then_fold<I: ExactSizeIterator, const R: usize>(
    mut it: I,
    k: usize,
    l: &Lay<R>,
    data: *const u8,
    addr: impl Fn(I::Item) -> *const u8,
) {
    for n in 0..k {
        match it.next() {
            Some(x) => assert!(addr(x) == unsafe { data.add(nth(l, n)) }),
            None => assert!(false),
        }
    }
    let end = it.fold(k, |n, x| {
        assert!(n < l.len());
        assert!(addr(x) == unsafe { data.add(nth(l, n)) });
        n + 1
    });
    assert!(end == l.len());
}

fn shared<S: Shape, const R: usize>(d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let v = l.view::<u8, S>(&data);
    by_next(v.iter(), &l, p, |x| x);
    then_fold(v.into_iter(), 0, &l, p, |x| x);
}

fn mutable<S: Shape, const R: usize>(d: [usize; R], smax: isize) {
    let mut data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let mut v = l.view_mut::<u8, S>(&mut data);
    by_next(v.iter_mut(), &l, p, |x| x);
    then_fold(v.into_iter(), 0, &l, p, |x| x);
}

fn partial<S: Shape, const R: usize>(d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let v = l.view::<u8, S>(&data);
    let sel = sym::upto(l.len());
    for k in 0..=l.len() {
        if sel == k {
            then_fold(v.iter(), k, &l, p, |x| x);
        }
    }
}

fn dense<S: Shape, const R: usize>(d: [usize; R]) {
    let mut data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    by_next(v.iter(), &l, p, |x| x);
    by_next(v.expr_mut().into_iter(), &l, p, |x| x);
    then_fold(v.expr().into_iter(), 0, &l, p, |x| x);
}

/// Larger arrays of fixed shape: with `next`, and with `fold` after `k` elements.
fn larger<S: Shape, const R: usize>(l: Lay<R>, k: usize) {
    let data = [0u8; 255];
    let p = data.as_ptr();
    let v = l.view::<u8, S>(&data);
    by_next(v.iter(), &l, p, |x| x);
    then_fold(v.iter(), k, &l, p, |x| x);
}

fn larger_dense<S: Shape, const R: usize>(d: [usize; R], k: usize) {
    let data = [0u8; 255];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    let v = l.dense_view::<u8, S>(&data);
    by_next(v.iter(), &l, p, |x| x);
    then_fold(v.iter(), k, &l, p, |x| x);
}

/// Dense array with a symbolic shape.
fn dense_any<S: Shape, const R: usize>(d: [usize; R]) {
    let data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    let v = l.dense_view::<u8, S>(&data);
    let mut it = v.iter();
    let mut n = 0;
    while let Some(x) = it.next() {
        assert!(n < l.len());
        assert!(x as *const u8 == unsafe { p.add(n) });
        n += 1;
        assert!(it.len() == l.len() - n);
    }
    assert!(n == l.len());
}

fn cloned_iter<S: Shape, const R: usize>(d: [usize; R]) {
    let data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, 6);
    let v = l.view::<u8, S>(&data);
    let sel = sym::upto(l.len());
    for k in 0..=l.len() {
        if sel == k {
            let mut it = v.iter();
            for _ in 0..k {
                it.next();
            }
            let mut c = it.clone();
            for n in k..l.len() {
                assert!(it.next().unwrap() as *const u8 == unsafe { p.add(nth(&l, n)) });
            }
            assert!(it.next().is_none());
            for n in k..l.len() {
                assert!(c.len() == l.len() - n);
                assert!(c.next().unwrap() as *const u8 == unsafe { p.add(nth(&l, n)) });
            }
            assert!(c.next().is_none());
        }
    }
}

/// Moving out elements.
fn moved<A: IntoIterator<Item = u8>>(a: A, want: &[u8], k: usize)
where
    A::IntoIter: ExactSizeIterator,
{
    let mut it = a.into_iter();
    for n in 0..k {
        assert!(it.len() == want.len() - n);
        assert!(it.next() == Some(want[n]));
    }
    assert!(it.len() == want.len() - k);
    let end = it.fold(k, |n, x| {
        assert!(x == want[n]);
        n + 1
    });
    assert!(end == want.len());
}

harnesses! {
    holds quick larger_1 [40] { larger_dense::<Rank<1>, 1>([33], 3) }
    holds quick larger_1_strided [40] { larger::<Rank<1>, 1>(Lay { d: [18], s: [-3], base: 110 }, 9) }
    holds quick larger_2 [40] { larger::<Rank<2>, 2>(Lay { d: [5, 4], s: [-2, 17], base: 30 }, 7) }
    holds thorough larger_2_wide [40] { larger::<Rank<2>, 2>(Lay { d: [2, 9], s: [10, 1], base: 3 }, 0) }
    holds thorough larger_3 [40] { larger::<Rank<3>, 3>(Lay { d: [3, 4, 2], s: [60, 9, -2], base: 50 }, 13) }
    holds quick larger_dyn [40] { larger::<DynRank, 2>(Lay { d: [4, 5], s: [5, 1], base: 0 }, 17) }
    holds quick r0 [40] { shared::<(), 0>([], 9); mutable::<(), 0>([], 9); }
    holds quick r1_5 [40] { shared::<Rank<1>, 1>([5], 9) }
    holds quick r1_1 [40] { shared::<Rank<1>, 1>([1], 9); mutable::<Rank<1>, 1>([0], 9); }
    holds quick r2_23 [40] { shared::<Rank<2>, 2>([2, 3], 9) }
    holds quick r2_32 [40] { mutable::<Rank<2>, 2>([3, 2], 9) }
    holds quick r2_13_31 [40] { shared::<Rank<2>, 2>([1, 3], 9); mutable::<Rank<2>, 2>([3, 1], 9); }
    holds quick r2_empty [40] {
        shared::<Rank<2>, 2>([0, 3], 9);
        shared::<Rank<2>, 2>([3, 0], 9);
        mutable::<Rank<2>, 2>([2, 0], 9);
        mutable::<Rank<2>, 2>([0, 0], 9);
    }
    holds quick r3_222 [40] { shared::<Rank<3>, 3>([2, 2, 2], 5) }
    holds thorough r3_223 [40] { shared::<Rank<3>, 3>([2, 2, 3], 9) }
    holds quick r3_312 [40] { shared::<Rank<3>, 3>([3, 1, 2], 9) }
    holds quick r3_221 [40] { mutable::<Rank<3>, 3>([2, 2, 1], 9) }
    holds thorough r3_232 [40] { mutable::<Rank<3>, 3>([2, 3, 2], 9) }
    holds quick r3_131 [40] { mutable::<Rank<3>, 3>([1, 3, 1], 9) }
    holds quick r3_empty [40] {
        shared::<Rank<3>, 3>([0, 2, 3], 9);
        shared::<Rank<3>, 3>([2, 0, 3], 9);
        shared::<Rank<3>, 3>([2, 3, 0], 9);
        mutable::<Rank<3>, 3>([3, 0, 2], 9);
    }
    holds thorough r4 [40] { shared::<Rank<4>, 4>([2, 1, 2, 2], 5) }
    holds quick r6 [40] { shared::<Rank<6>, 6>([2, 1, 2, 1, 2, 1], 4) }
    holds thorough r6_122122 [40] { shared::<Rank<6>, 6>([1, 2, 2, 1, 2, 2], 4) }
    holds quick dyn_0_1 [40] { shared::<DynRank, 0>([], 9); shared::<DynRank, 1>([3], 9); }
    holds quick dyn_2 [40] { shared::<DynRank, 2>([2, 3], 9); }
    holds thorough dyn_3 [40] { mutable::<DynRank, 3>([2, 2, 2], 7); }
    holds quick dyn_empty [40] {
        shared::<DynRank, 2>([0, 3], 9);
        shared::<DynRank, 2>([3, 0], 9);
        shared::<DynRank, 3>([2, 0, 2], 9);
        shared::<DynRank, 1>([0], 9);
    }
    holds quick const_dims [40] { shared::<(Const<2>, Const<3>), 2>([2, 3], 9) }
    holds quick mixed_dims [40] { mutable::<(Dyn, Const<2>, Dyn), 3>([2, 2, 1], 7) }
    holds quick partial_1 [40] { partial::<Rank<1>, 1>([4], 9) }
    holds quick partial_2 [40] { partial::<Rank<2>, 2>([2, 2], 9) }
    holds quick partial_3 [40] { partial::<Rank<3>, 3>([2, 1, 2], 7) }
    holds thorough partial_3_222 [40] { partial::<Rank<3>, 3>([2, 2, 2], 7) }
    holds thorough partial_3_123 [40] { partial::<Rank<3>, 3>([1, 2, 3], 7) }
    holds quick partial_dyn [40] { partial::<DynRank, 2>([2, 2], 7) }
    holds quick dense_0 [40] { dense::<(), 0>([]) }
    holds quick dense_2 [40] { dense::<Rank<2>, 2>([3, 2]); dense::<Rank<2>, 2>([0, 3]); }
    holds quick dense_3 [40] { dense::<Rank<3>, 3>([2, 3, 2]); dense::<Rank<3>, 3>([2, 0, 3]); }
    holds thorough dense_6 [40] { dense::<Rank<6>, 6>([2, 1, 2, 1, 3, 1]) }
    holds quick dense_dyn [40] { dense::<DynRank, 0>([]); dense::<DynRank, 2>([2, 3]); }
    holds quick dense_const [40] { dense::<(Const<2>, Const<2>), 2>([2, 2]) }
    holds quick dense_any_2 [20] { dense_any::<Rank<2>, 2>(dims(3)) }
    holds quick dense_any_1 [20] { dense_any::<Rank<1>, 1>(dims(12)) }
    holds thorough clone_2 [40] { cloned_iter::<Rank<2>, 2>([2, 2]) }
    holds quick clone_3 [40] { cloned_iter::<Rank<3>, 3>([2, 1, 2]) }
    holds thorough clone_3_213 [40] { cloned_iter::<Rank<3>, 3>([2, 1, 3]) }
    holds quick move_array [40] {
        let x = [[sym::u8(), 1], [3, sym::u8()]];
        let w = [x[0][0], 1, 3, x[1][1]];
        split!(k in 1..=2, { moved(Array::<u8, (Const<2>, Const<2>)>::from(x), &w, k); });
    }
    holds quick move_tensor [40] {
        let w = [sym::u8(), 1, 2, sym::u8()];
        split!(k in 0..=4, {
            moved(Tensor::<u8, (Dyn,)>::from(&w[..]).into_shape([2, 2]), &w, k);
        });
    }
    holds quick move_tensor_dyn [40] {
        let w = [sym::u8(), sym::u8(), 2, 3];
        split!(k in 0..=4, {
            moved(Tensor::<u8, (Dyn,)>::from(&w[..]).into_shape(&[2, 2]), &w, k);
        });
    }
    holds quick move_empty [40] {
        moved(Tensor::<u8, (Dyn, Dyn)>::from_elem([0, 3], 1), &[], 0);
        moved(Tensor::<u8, (Dyn, Dyn)>::from_elem([3, 0], 1), &[], 0);
        moved(Tensor::<u8>::from_elem(&[2, 0, 2], 1), &[], 0);
        moved(Array::<u8, (Const<2>, Const<0>)>::from([[], []]), &[], 0);
    }
    holds quick by_reference [40] {
        let mut a = Array::<u8, (Const<2>, Const<3>)>::from([[0; 3]; 2]);
        let l = Lay::dense([2, 3]);
        let p = a.as_ptr();
        by_next((&a).into_iter(), &l, p, |x| x);
        by_next((&mut a).into_iter(), &l, p, |x| x);
        by_next((&a).into_expr().into_iter(), &l, p, |x| x);
    }
    holds quick by_reference_tensor [40] {
        let mut t = Tensor::<u8, (Dyn, Dyn)>::from_elem([2, 2], 1);
        let l = Lay::dense([2, 2]);
        let p = t.as_ptr();
        by_next((&t).into_iter(), &l, p, |x| x);
        by_next((&mut t).into_iter(), &l, p, |x| x);
        let v = t.view(.., ..);
        by_next((&v).into_iter(), &l, p, |x| x);
        let mut v = t.view_mut(.., ..);
        by_next((&v).into_iter(), &l, p, |x| x);
        by_next((&mut v).into_iter(), &l, p, |x| x);
    }
    holds quick free_functions [40] {
        let data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided([2, 3], 32, 9);
        let v = l.view::<u8, Rank<2>>(&data);
        let mut n = 0;
        expr::for_each(&v, |x| {
            assert!(x as *const u8 == unsafe { p.add(nth(&l, n)) });
            n += 1;
        });
        assert!(n == 6);
        let mut n = 0;
        v.expr().for_each(|x| {
            assert!(x as *const u8 == unsafe { p.add(nth(&l, n)) });
            n += 1;
        });
        assert!(n == 6);
        let n = expr::fold(v, 0, |n, x| {
            assert!(x as *const u8 == unsafe { p.add(nth(&l, n)) });
            n + 1
        });
        assert!(n == 6);
    }
    holds thorough r3_323 [60] { shared::<Rank<3>, 3>([3, 2, 3], 9) }
    holds thorough r4_partial [60] { partial::<Rank<4>, 4>([2, 2, 1, 3], 6) }
    holds thorough r5 [60] { mutable::<Rank<5>, 5>([2, 1, 3, 1, 2], 5) }
    holds thorough r6_all [100] { shared::<Rank<6>, 6>([2, 2, 2, 1, 2, 2], 3) }
    holds thorough dense_any_3 [40] { dense_any::<Rank<3>, 3>(dims(3)) }
}
