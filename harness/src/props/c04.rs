//! C04: reshape, flatten, permute, reorder, remap and the consuming variants.
//!
//! Bounds. Dense reshape: old rank 2 (dimensions 0..=4) to ranks 0-3, rank 3 (0..=3) to rank 2,
//! with every new shape of the same length, and with one inferred dimension; rejected shapes are
//! any 64-bit values. Strided reshape: a set of old and new shapes up to rank 3 and 12 elements
//! (thorough: 24; some with up to 45) that merge, split and regroup dimensions, with all strides up to 8 that allow
//! it, and all that do not. Permutation: all constant permutations for rank 2 and 3, some for
//! rank 4-6, any dynamic permutation for rank 1-3 and dynamic rank; rejected ones are any 64-bit
//! values. Reorder: ranks 0-6. Remap: strided to dense, dense to strided, static to dynamic rank
//! and back, to constant dimensions. Larger dimensions: dense rank 2 to ranks 1-2 (dimensions up
//! to 64), rank 1 to 3 (up to 255 and 16), inferred dimension, flatten, merge of two dimensions
//! (up to 16, stride up to 3), permute and reorder for rank 3 (up to 16), all with symbolic
//! dimensions and at most 255 elements. Outside: larger dimensions.
use crate::model::{dims, Lay};
use crate::sym::{self, before};
use mdarray::*;

type S2 = Rank<2>;
type S3 = Rank<3>;

/// Elements in the same row-major order at the same addresses.
fn same_order<const R: usize, const Q: usize, S: Shape, L: Layout>(
    old: &Lay<R>,
    new: [usize; Q],
    v: &Slice<u8, S, L>,
    data: *const u8,
) {
    let n = Lay { d: new, s: [0; Q], base: 0 };
    n.same_dims(v);
    if n.len() > 0 {
        let k = sym::u8() as usize;
        sym::assume(k < old.len());
        let p = old.pos(&old.unlin(k));
        assert!(&v[n.unlin(k)] as *const u8 == unsafe { data.add(p) });
    }
}

fn reshape_dense<S: Shape, const R: usize, const Q: usize>(d: [usize; R], new: [usize; Q])
where
    [usize; Q]: IntoShape,
{
    let mut data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    let n = Lay::dense(new);
    sym::assume(n.len() == l.len());
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    match sym::upto(4) {
        0 => n.agrees(&v.reshape(new), p),
        1 => n.agrees(&v.reshape_mut(new), p),
        2 => n.agrees(&v.reshape(&new[..]), p),
        3 => n.agrees(&v.as_slice().reshape(new), p),
        _ => n.agrees(&v.into_shape(new), p),
    }
}

/// Larger dimensions.
fn large_dense<S: Shape, const R: usize, const Q: usize>(max: usize, nmax: usize)
where
    [usize; Q]: IntoShape,
{
    let data = [0u8; 255];
    let (l, n) = (Lay::dense(dims::<R>(max)), Lay::dense(dims::<Q>(nmax)));
    sym::assume(l.len() <= 255 && n.len() == l.len());
    let v = l.dense_view::<u8, S>(&data);
    n.agrees(&v.reshape(n.d), data.as_ptr());
}

fn do_infer(max: usize) {
    let data = [0u8; 255];
    let (l, n) = (Lay::dense(dims::<2>(max)), Lay::dense(dims::<2>(127)));
    sym::assume(l.len() <= 255 && n.len() == l.len() && n.d[0] > 0);
    let v = l.dense_view::<u8, S2>(&data);
    n.agrees(&v.reshape([n.d[0], usize::MAX]), data.as_ptr());
}

fn do_flatten(max: usize) {
    let data = [0u8; 255];
    let l = Lay::dense(dims::<3>(max));
    sym::assume(l.len() <= 255);
    let n = Lay::dense([l.len()]);
    n.agrees(&l.dense_view::<u8, S3>(&data).into_flat(), data.as_ptr());
}

/// Merge of two larger dimensions with a stride.
fn do_merge(max: usize, smax: usize) {
    let data = [0u8; 255];
    let d = dims::<2>(max);
    let s = sym::within(1, smax) as isize;
    let l = Lay { d, s: [s * d[1] as isize, s], base: 0 };
    l.inside(255);
    let n = Lay { d: [d[0] * d[1]], s: [s], base: 0 };
    n.agrees(&l.view::<u8, S2>(&data).reshape(n.d), data.as_ptr());
}

/// Dimension k is inferred from the others.
fn infer<S: Shape, const R: usize>(d: [usize; R], k: usize, variant: usize) {
    let mut data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    let mut e = [sym::within(1, 4), sym::within(1, 4), sym::within(1, 4)];
    e[k] = 1;
    let o = e[0] * e[1] * e[2];
    e[k] = sym::upto(36);
    sym::assume(o * e[k] == l.len());
    let mut n = e;
    n[k] = usize::MAX;
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    match variant {
        0 => Lay::dense(e).agrees(&v.reshape(n), p),
        1 => Lay::dense(e).agrees(&v.reshape_mut(n), p),
        2 => Lay::dense(e).agrees(&v.reshape(&n[..]), p),
        _ => Lay::dense(e).agrees(&v.into_shape(n), p),
    }
}

trait AsSlice<T, S: Shape, L: Layout> {
    fn as_slice(&self) -> &Slice<T, S, L>;
}

impl<'a, T, S: Shape, L: Layout> AsSlice<T, S, L> for ViewMut<'a, T, S, L> {
    fn as_slice(&self) -> &Slice<T, S, L> {
        self
    }
}

/// Strided reshape where the conditions on the strides hold or not.
fn reshape_strided<const R: usize, const Q: usize>(
    d: [usize; R],
    new: [usize; Q],
    smax: isize,
    merges: &[[usize; 2]],
    variant: usize,
) where
    [usize; R]: IntoShape,
    [usize; Q]: IntoShape,
    <[usize; R] as IntoShape>::IntoShape: Shape,
{
    let mut data = [0u8; 48];
    let p = data.as_ptr();
    let l = Lay::strided(d, 48, smax);
    for &[a, b] in merges {
        sym::assume(l.s[a] == l.s[b] * d[b] as isize);
    }
    let mut v = l.view_mut::<u8, <[usize; R] as IntoShape>::IntoShape>(&mut data);
    match variant {
        0 => same_order(&l, new, &v.reshape(new), p),
        1 => same_order(&l, new, &v.reshape_mut(new), p),
        2 => same_order(&l, new, &v.into_shape(new), p),
        _ => same_order(&l, new, &v.into_dyn().into_shape(&new[..]), p),
    }
}

fn bad_reshape_strided<const R: usize, const Q: usize>(
    d: [usize; R],
    new: [usize; Q],
    merges: &[[usize; 2]],
) where
    [usize; R]: IntoShape,
    [usize; Q]: IntoShape,
{
    let data = [0u8; 48];
    let l = Lay::strided(d, 48, 8);
    let mut ok = true;
    for &[a, b] in merges {
        ok &= l.s[a] == l.s[b] * d[b] as isize;
    }
    sym::assume(!ok);
    let v = l.view::<u8, <[usize; R] as IntoShape>::IntoShape>(&data);
    before();
    let _ = v.reshape(new);
}

fn permute_const<P, S: Shape, const R: usize>(p: P, perm: [usize; R], d: [usize; R], smax: isize)
where
    P: IntoShape<IntoShape: mdarray::index::Permutation> + Copy,
{
    let mut data = [0u8; 32];
    let q = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let e = l.permuted(perm);
    let mut v = l.view_mut::<u8, S>(&mut data);
    match sym::upto(2) {
        0 => e.agrees(&v.permute(p), q),
        1 => e.agrees(&v.permute_mut(p), q),
        _ => e.agrees(&v.into_permuted(p), q),
    }
}

fn permute_dense<P, S: Shape, const R: usize>(p: P, perm: [usize; R], d: [usize; R])
where
    P: IntoShape<IntoShape: mdarray::index::Permutation> + Copy,
{
    let mut data = [0u8; 64];
    let q = data.as_ptr();
    let l = Lay::dense(d);
    sym::assume(l.len() <= 64);
    let e = l.permuted(perm);
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    e.agrees(&v.permute(p), q);
    e.agrees(&v.permute_mut(p), q);
}

/// Any permutation of R numbers.
fn perm<const R: usize>() -> [usize; R] {
    let mut p = [0; R];
    for i in 0..R {
        p[i] = sym::upto(R - 1);
        for j in 0..i {
            sym::assume(p[i] != p[j]);
        }
    }
    p
}

fn reorder<S: Shape, const R: usize>(d: [usize; R], smax: isize) {
    let mut data = [0u8; 32];
    let q = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let e = l.reversed();
    let mut v = l.view_mut::<u8, S>(&mut data);
    match sym::upto(2) {
        0 => e.agrees(&v.reorder(), q),
        1 => e.agrees(&v.reorder_mut(), q),
        _ => e.agrees(&v.into_reordered(), q),
    }
}

fn reorder_dense<S: Shape, const R: usize>(d: [usize; R]) {
    let mut data = [0u8; 64];
    let q = data.as_ptr();
    let l = Lay::dense(d);
    sym::assume(l.len() <= 64);
    let v = l.dense_view_mut::<u8, S>(&mut data);
    l.reversed().agrees(&v.reorder(), q);
    l.reversed().agrees(&v.into_reordered(), q);
}

fn to_dense<const R: usize, S: Shape>(d: [usize; R]) {
    let mut data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    sym::assume(l.len() <= 36);
    let mut v = l.view_mut::<u8, S>(&mut data);
    match sym::upto(3) {
        0 => {
            let x: View<u8, S, Dense> = v.remap();
            l.agrees(&x, p);
        }
        1 => {
            let x: ViewMut<u8, S, Dense> = v.remap_mut();
            l.agrees(&x, p);
        }
        2 => {
            let x: ViewMut<u8, DynRank, Dense> = v.into_mapping();
            l.agrees(&x, p);
        }
        _ => {
            let x: View<u8, DynRank, Strided> = v.remap();
            l.agrees(&x, p);
        }
    }
}

harnesses! {
    holds quick large_2_to_2 [10] { large_dense::<S2, 2, 2>(64, 64) }
    holds quick large_2_to_1 [10] { large_dense::<S2, 2, 1>(64, 255) }
    holds quick large_1_to_3 [10] { large_dense::<Rank<1>, 1, 3>(255, 16) }
    holds quick large_infer [10] { do_infer(32) }
    holds quick large_flatten [10] { do_flatten(16) }
    holds quick large_merge [10] { do_merge(16, 3) }
    holds quick large_permute [10] {
        let data = [0u8; 255];
        let l = Lay::dense(dims::<3>(16));
        sym::assume(l.len() <= 255);
        let v = l.dense_view::<u8, S3>(&data);
        l.permuted([2, 0, 1]).agrees(&v.permute((Const::<2>, Const::<0>, Const::<1>)), data.as_ptr());
    }
    holds quick large_reorder [10] {
        let data = [0u8; 255];
        let l = Lay::dense(dims::<2>(64));
        sym::assume(l.len() <= 255);
        l.reversed().agrees(&l.dense_view::<u8, S2>(&data).reorder(), data.as_ptr());
    }
    holds quick dense_2_to_2 [8] { reshape_dense::<S2, 2, 2>(dims(4), dims(12)) }
    holds quick dense_2_to_3 [8] { reshape_dense::<S2, 2, 3>(dims(4), dims(4)) }
    holds quick dense_2_to_1 [8] { reshape_dense::<S2, 2, 1>(dims(4), dims(16)) }
    holds quick dense_3_to_2 [8] { reshape_dense::<S3, 3, 2>(dims(3), dims(9)) }
    holds quick dense_1_to_0 [8] { reshape_dense::<Rank<1>, 1, 0>([1], []) }
    holds quick dense_0_to_2 [8] { reshape_dense::<(), 0, 2>([], [1, 1]) }
    holds quick dense_dyn_to_3 [8] { reshape_dense::<DynRank, 2, 3>(dims(3), dims(3)) }
    holds quick dense_1_to_6 [8] { 
        reshape_dense::<Rank<1>, 1, 6>(
            [sym::upto(12)], [1, sym::upto(3), 1, sym::upto(2), sym::upto(2), 1])
    }
    holds quick dense_const [8] {
        let mut a = Array::<u8, (Const<2>, Const<6>)>::from([[0; 6]; 2]);
        let p = a.as_ptr();
        let d = dims::<2>(12);
        sym::assume(d[0] * d[1] == 12);
        Lay::dense(d).agrees(&a.reshape(d), p);
        let x: View<u8, (Const<3>, Const<4>)> = a.reshape((Const::<3>, Const::<4>));
        Lay::dense([3, 4]).agrees(&x, p);
        let x: ViewMut<u8, (Dyn, Const<4>)> = a.reshape_mut((!0, Const::<4>));
        Lay::dense([3, 4]).agrees(&x, p);
        Lay::dense([12]).agrees(&a.flatten(), p);
    }
    holds quick dense_infer_0 [8] { infer::<S2, 2>([2, 6], 0, 0) }
    holds quick dense_infer_1 [8] { infer::<S2, 2>([sym::upto(3), 4], 1, 1) }
    holds quick dense_infer_2 [8] { infer::<S3, 3>([2, 3, sym::upto(2)], 2, 2) }
    holds quick dense_infer_dyn [8] { infer::<DynRank, 2>([sym::upto(3), 2], 1, 3) }
    holds thorough dense_infer_any [8] { infer::<S2, 2>(dims(6), 0, 0) }
    holds quick dense_flatten [8] {
        let mut data = [0u8; 27];
        let p = data.as_ptr();
        let l = Lay::dense(dims::<3>(3));
        let mut v = l.dense_view_mut::<u8, S3>(&mut data);
        let e = Lay::dense([l.len()]);
        e.agrees(&v.flatten(), p);
        e.agrees(&v.flatten_mut(), p);
        e.agrees(&v.into_flat(), p);
    }
    holds quick big_shape [8] {
        // All 64-bit shapes: the length is preserved.
        let data = [(); 1];
        let (a, b, c) = (sym::usize(), sym::usize(), sym::usize());
        let n = a as u128 * b as u128;
        sym::assume(n <= u16::MAX as u128 && a <= 255 && n == c as u128 && a != usize::MAX && b != usize::MAX);
        let v = unsafe { View::<(), S2>::new_unchecked(data.as_ptr(), DenseMapping::new((a, b))) };
        let x = v.reshape([c]);
        assert!(x.dim(0) == c && x.len() == c);
    }
    holds quick owned [12] {
        let d = dims::<2>(3);
        let n = dims::<3>(3);
        let l = Lay::dense(d);
        sym::assume(Lay::dense(n).len() == l.len());
        let t = unsafe {
            let mut v = Vec::<u8>::with_capacity(9);
            v.set_len(l.len());
            Tensor::<u8, (Dyn,)>::from(v).into_shape(d)
        };
        let p = t.as_ptr();
        let t = t.into_shape(n);
        Lay::dense(n).agrees(&t, p);
        let t = t.into_dyn();
        Lay::dense(n).agrees(&t, p);
        let t = t.into_shape([usize::MAX, 1]);
        Lay::dense([l.len(), 1]).agrees(&t, p);
        let t = t.into_flat();
        Lay::dense([l.len()]).agrees(&t, p);
    }
    holds quick owned_array [16] {
        let x: [[u8; 6]; 2] = [[sym::u8(), 1, 2, 3, 4, 5], [6, 7, 8, 9, sym::u8(), 11]];
        let a = Array::<u8, (Const<2>, Const<6>)>::from(x).into_shape::<(Const<3>, Const<4>)>();
        let i = Lay::dense([3, 4]).index();
        let k = i[0] * 4 + i[1];
        assert!(a[i] == x[k / 6][k % 6]);
    }
    holds quick strided_merge_23 [8] { reshape_strided([2, 3], [6], 8, &[[0, 1]], 0) }
    holds quick strided_regroup_23 [8] { reshape_strided([2, 3], [3, 2], 8, &[[0, 1]], 1) }
    holds quick strided_same_23 [8] { reshape_strided([2, 3], [2, 3], 9, &[], 2) }
    holds quick strided_split_4 [8] { reshape_strided([4, 2], [2, 2, 2], 8, &[], 0) }
    holds quick strided_split_6 [8] { reshape_strided([6], [3, 2], 8, &[], 1) }
    holds quick strided_merge_inner [8] { reshape_strided([2, 3, 2], [2, 6], 8, &[[1, 2]], 0) }
    holds quick strided_merge_outer [8] { reshape_strided([2, 3, 2], [6, 2], 8, &[[0, 1]], 2) }
    holds quick strided_regroup_232 [8] {
        reshape_strided([2, 3, 2], [3, 4], 8, &[[0, 1], [1, 2]], 0)
    }
    holds quick strided_units [8] { reshape_strided([1, 3, 1], [3], 9, &[], 0) }
    holds quick strided_add_units [8] { reshape_strided([2, 3], [1, 2, 1, 3, 1], 8, &[], 2) }
    holds quick strided_zero [8] { reshape_strided([2, 0, 3], [0, 5], 9, &[], 1) }
    holds quick strided_infer [8] {
        let data = [0u8; 48];
        let l = Lay::strided([2, 3, 2], 48, 8);
        sym::assume(l.s[1] == l.s[2] * 2);
        let x = l.view::<u8, S3>(&data).into_shape([2, usize::MAX]);
        same_order(&l, [2, 6], &x, data.as_ptr());
    }
    holds quick strided_larger [8] {
        reshape_strided([20], [2, 10], 2, &[], 0);
        reshape_strided([3, 8], [3, 2, 4], 4, &[], 2);
    }
    holds quick strided_larger_merge [8] {
        reshape_strided([4, 6], [8, 3], 12, &[[0, 1]], 1);
        reshape_strided([5, 9], [45], 9, &[[0, 1]], 0);
    }
    holds quick strided_from_0 [8] {
        reshape_strided([], [1], 0, &[], 0);
        reshape_strided([], [1, 1], 0, &[], 1);
        reshape_strided([], [1, 1, 1], 0, &[], 2);
        reshape_strided([1], [], 9, &[], 0);
    }
    holds quick strided_zeros [8] {
        reshape_strided([0, 2], [2, 0], 9, &[], 0);
        reshape_strided([2, 0], [0], 9, &[], 1);
        reshape_strided([0], [3, 0, 2], 9, &[], 2);
        reshape_strided([0, 2, 3], [2, 3, 0], 9, &[], 0);
    }
    holds quick strided_dyn [8] { reshape_strided([2, 3], [3, 2], 8, &[[0, 1]], 3) }
    holds quick strided_flatten [8] {
        let mut data = [0u8; 48];
        let p = data.as_ptr();
        let l = Lay::strided([3, 2], 48, 8);
        sym::assume(l.s[0] == l.s[1] * 2);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        match sym::upto(2) {
            0 => same_order(&l, [6], &v.flatten(), p),
            1 => same_order(&l, [6], &v.flatten_mut(), p),
            _ => same_order(&l, [6], &v.into_flat(), p),
        }
    }
    holds thorough strided_regroup_432 [10] {
        reshape_strided([4, 3, 2], [2, 6, 2], 8, &[[0, 1]], 0)
    }
    holds thorough strided_regroup_2223 [10] {
        reshape_strided([2, 2, 2, 3], [4, 6], 8, &[[0, 1], [2, 3]], 0)
    }
    holds thorough strided_split_all [10] { reshape_strided([8, 3], [2, 2, 2, 3, 1], 6, &[], 0) }
    holds thorough strided_six [10] {
        reshape_strided([2, 1, 2, 1, 3, 2], [4, 6], 8, &[[0, 2], [4, 5], [1, 2], [3, 4]], 0)
    }
    holds quick perm_10 [8] { permute_const::<_, S2, 2>((Const::<1>, Const::<0>), [1, 0], dims(4), 9) }
    holds quick perm_01 [8] { permute_const::<_, S2, 2>((Const::<0>, Const::<1>), [0, 1], dims(4), 9) }
    holds quick perm_120 [8] {
        permute_const::<_, S3, 3>((Const::<1>, Const::<2>, Const::<0>), [1, 2, 0], dims(2), 6)
    }
    holds quick perm_201 [8] {
        permute_const::<_, S3, 3>((Const::<2>, Const::<0>, Const::<1>), [2, 0, 1], dims(2), 6)
    }
    holds quick perm_021_dense [8] {
        permute_dense::<_, S3, 3>((Const::<0>, Const::<2>, Const::<1>), [0, 2, 1], dims(3))
    }
    holds quick perm_102_dense [8] {
        permute_dense::<_, S3, 3>((Const::<1>, Const::<0>, Const::<2>), [1, 0, 2], dims(3))
    }
    holds quick perm_210_dense [8] {
        permute_dense::<_, S3, 3>((Const::<2>, Const::<1>, Const::<0>), [2, 1, 0], dims(3))
    }
    holds quick perm_201_dense [8] {
        permute_dense::<_, S3, 3>((Const::<2>, Const::<0>, Const::<1>), [2, 0, 1], dims(3))
    }
    holds quick perm_3102_dense [8] {
        permute_dense::<_, Rank<4>, 4>(
            (Const::<3>, Const::<1>, Const::<0>, Const::<2>), [3, 1, 0, 2], dims(2))
    }
    holds quick perm_6_dense [8] {
        permute_dense::<_, Rank<6>, 6>(
            (Const::<4>, Const::<2>, Const::<5>, Const::<0>, Const::<1>, Const::<3>),
            [4, 2, 5, 0, 1, 3],
            [sym::upto(2), 2, sym::upto(2), 1, 2, sym::upto(2)])
    }
    holds quick perm_identity [8] {
        let data = [0u8; 27];
        let l = Lay::dense(dims::<3>(3));
        let v = l.dense_view::<u8, S3>(&data);
        let x: View<u8, S3, Dense> = v.permute((Const::<0>, Const::<1>, Const::<2>));
        l.agrees(&x, data.as_ptr());
    }
    holds quick perm_const_dims [8] {
        let data = [0u8; 24];
        let l = Lay::dense([2, sym::upto(4), 3]);
        let v = l.dense_view::<u8, (Const<2>, Dyn, Const<3>)>(&data);
        let x: View<u8, (Const<3>, Const<2>, Dyn), Strided> =
            v.permute((Const::<2>, Const::<0>, Const::<1>));
        l.permuted([2, 0, 1]).agrees(&x, data.as_ptr());
    }
    holds quick perm_any_2 [8] {
        let p = perm::<2>();
        permute_const::<_, S2, 2>(p, p, dims(3), 6);
    }
    holds quick perm_any_3 [8] {
        let p = perm::<3>();
        permute_dense::<_, S3, 3>(p, p, dims(2));
    }
    holds quick perm_any_dyn [8] {
        let p = perm::<3>();
        let data = [0u8; 8];
        let l = Lay::dense(dims(2));
        if sym::any_bool() {
            l.permuted(p).agrees(&l.dense_view::<u8, DynRank>(&data).permute(p), data.as_ptr());
        } else {
            l.permuted(p).agrees(&l.dense_view::<u8, S3>(&data).into_permuted(&p), data.as_ptr());
        }
    }
    holds quick reorder_0 [8] { reorder::<(), 0>([], 9) }
    holds quick reorder_1 [8] { reorder::<Rank<1>, 1>(dims(4), 9) }
    holds quick reorder_2 [8] { reorder::<S2, 2>(dims(3), 9) }
    holds quick reorder_3 [8] { reorder::<S3, 3>(dims(2), 6) }
    holds quick reorder_dyn [8] { reorder::<DynRank, 2>(dims(3), 6) }
    holds quick reorder_dense_1 [8] { reorder_dense::<Rank<1>, 1>(dims(36)) }
    holds quick reorder_dense_4 [8] { reorder_dense::<Rank<4>, 4>(dims(2)) }
    holds quick reorder_dense_5 [8] { reorder_dense::<Rank<5>, 5>(dims(2)) }
    holds quick reorder_dense_6 [8] {
        reorder_dense::<Rank<6>, 6>([sym::upto(2), 2, sym::upto(3), 1, 2, sym::upto(2)])
    }
    holds quick reorder_dense_dyn [8] { reorder_dense::<DynRank, 3>(dims(2)) }
    holds quick reorder_const [8] {
        let data = [0u8; 24];
        let l = Lay::dense([2, sym::upto(4), 3]);
        let v = l.dense_view::<u8, (Const<2>, Dyn, Const<3>)>(&data);
        let x: View<u8, (Const<3>, Dyn, Const<2>), Strided> = v.reorder();
        l.reversed().agrees(&x, data.as_ptr());
    }
    holds quick to_dense_1 [8] { to_dense::<1, Rank<1>>(dims(6)) }
    holds quick to_dense_3 [8] { to_dense::<3, S3>(dims(3)) }
    holds quick to_dense_dyn [8] { to_dense::<2, DynRank>(dims(4)) }
    holds quick remap_static_dyn [8] {
        let mut data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided(dims::<2>(3), 32, 6);
        let v = l.view_mut::<u8, S2>(&mut data);
        let x = v.into_dyn();
        l.agrees(&x, p);
        let y: View<u8, S2, Strided> = x.remap();
        l.agrees(&y, p);
    }
    holds quick remap_to_const [8] {
        let data = [0u8; 32];
        let l = Lay::strided([2, 3], 32, 9);
        let v = l.view::<u8, DynRank>(&data);
        let x: View<u8, (Const<2>, Dyn), Strided> = v.remap();
        l.agrees(&x, data.as_ptr());
        let y: View<u8, (Dyn, Const<3>), Strided> = x.into_mapping();
        l.agrees(&y, data.as_ptr());
    }
    panics quick bad_length [8] {
        let mut data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let n = [sym::usize(), sym::usize()];
        let w = n[0] as u128 * n[1] as u128;
        sym::assume(n[0] != usize::MAX && n[1] != usize::MAX && w != l.len() as u128);
        let mut v = l.dense_view_mut::<u8, S2>(&mut data);
        before();
        match sym::upto(3) {
            0 => { let _ = v.reshape(n); }
            1 => { let _ = v.reshape_mut(n); }
            2 => { let _ = v.reshape(&n[..]); }
            _ => { let _ = v.into_shape(n); }
        }
    }
    panics quick bad_length_strided [8] {
        let data = [0u8; 32];
        let l = Lay::strided([2, 3], 32, 9);
        let n = dims::<3>(9);
        sym::assume(n[0] * n[1] * n[2] != 6);
        let v = l.view::<u8, S2>(&data);
        before();
        let _ = v.reshape(n);
    }
    panics quick bad_infer [8] {
        // Not divisible by the other dimensions, or more than one inferred dimension.
        let data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let a = sym::usize();
        sym::assume(a == 0 || a == usize::MAX || l.len() % a != 0);
        let v = l.dense_view::<u8, S2>(&data);
        before();
        if sym::any_bool() {
            let _ = v.reshape([a, usize::MAX]);
        } else {
            let _ = v.into_shape([usize::MAX, a]);
        }
    }
    panics quick bad_length_const [8] {
        let data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        sym::assume(l.len() != 6);
        let v = l.dense_view::<u8, S2>(&data);
        before();
        let _ = v.reshape((Const::<2>, Const::<3>));
    }
    panics quick bad_length_owned [12] {
        let d = dims::<2>(3);
        let t = Tensor::<(), S2>::from_elem(d, ());
        let n = [sym::usize(), sym::usize()];
        let w = n[0] as u128 * n[1] as u128;
        sym::assume(n[0] != usize::MAX && n[1] != usize::MAX && w != t.len() as u128);
        before();
        let _ = t.into_shape(n);
    }
    panics quick bad_merge [8] { bad_reshape_strided([2, 3], [6], &[[0, 1]]) }
    panics quick bad_regroup [8] { bad_reshape_strided([2, 3], [3, 2], &[[0, 1]]) }
    panics quick bad_merge_inner [8] { bad_reshape_strided([2, 3, 2], [2, 6], &[[1, 2]]) }
    panics quick bad_merge_outer [8] { bad_reshape_strided([2, 3, 2], [6, 2], &[[0, 1]]) }
    panics quick bad_regroup_232 [8] { bad_reshape_strided([2, 3, 2], [3, 4], &[[0, 1], [1, 2]]) }
    panics quick bad_flatten [8] {
        let data = [0u8; 48];
        let l = Lay::strided([3, 2], 48, 8);
        sym::assume(l.s[0] != l.s[1] * 2);
        let v = l.view::<u8, S2>(&data);
        before();
        if sym::any_bool() {
            let _ = v.flatten();
        } else {
            let _ = v.into_flat();
        }
    }
    panics quick bad_perm [8] {
        let mut data = [0u8; 27];
        let l = Lay::dense(dims::<3>(3));
        let p = [sym::usize(), sym::usize(), sym::usize()];
        sym::assume(
            p[0] > 2 || p[1] > 2 || p[2] > 2 || p[0] == p[1] || p[0] == p[2] || p[1] == p[2]);
        let mut v = l.dense_view_mut::<u8, S3>(&mut data);
        before();
        match sym::upto(2) {
            0 => { let _ = v.permute(p); }
            1 => { let _ = v.permute_mut(p); }
            _ => { let _ = v.into_permuted(p); }
        }
    }
    panics quick bad_perm_dyn [8] {
        let data = [0u8; 9];
        let l = Lay::dense(dims::<2>(3));
        let n = sym::upto(4);
        let p = [sym::usize(), sym::usize(), sym::usize(), sym::usize()];
        sym::assume(n != 2 || p[0] > 1 || p[1] > 1 || p[0] == p[1]);
        let v = l.dense_view::<u8, DynRank>(&data);
        before();
        let _ = v.permute(&p[..n]);
    }
    panics quick bad_perm_const [8] {
        let data = [0u8; 9];
        let l = Lay::dense(dims::<2>(3));
        let v = l.dense_view::<u8, S2>(&data);
        before();
        match sym::upto(2) {
            0 => { let _ = v.permute((Const::<1>, Const::<1>)); }
            1 => { let _ = v.permute((Const::<0>, Const::<2>)); }
            _ => { let _ = v.permute((Const::<0>, Const::<0>)); }
        }
    }
    panics quick bad_to_dense [8] {
        // Some element is not at its place in a contiguous array.
        let mut data = [0u8; 32];
        let l = Lay::strided([2, 3], 32, 9);
        let i = l.index();
        sym::assume(l.pos(&i) as isize != l.base + l.lin(&i) as isize);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        before();
        match sym::upto(3) {
            0 => { let _: View<u8, S2, Dense> = v.remap(); }
            1 => { let _: ViewMut<u8, S2, Dense> = v.remap_mut(); }
            2 => { let _: ViewMut<u8, S2, Dense> = v.into_mapping(); }
            _ => { let _: View<u8, DynRank, Dense> = v.remap(); }
        }
    }
    panics quick bad_to_dense_any [8] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(3), 32, 6);
        let i = l.index();
        sym::assume(l.pos(&i) as isize != l.base + l.lin(&i) as isize);
        let v = l.view::<u8, S2>(&data);
        before();
        let _: View<u8, S2, Dense> = v.into_mapping();
    }
    panics quick bad_remap_rank [8] {
        let data = [0u8; 9];
        let l = Lay::dense(dims::<2>(3));
        let v = l.dense_view::<u8, DynRank>(&data);
        before();
        match sym::upto(2) {
            0 => { let _: View<u8, S3, Dense> = v.remap(); }
            1 => { let _: View<u8, Rank<1>, Strided> = v.remap(); }
            _ => { let _: View<u8, (), Dense> = v.into_mapping(); }
        }
    }
    panics quick bad_remap_const [8] {
        let data = [0u8; 9];
        let l = Lay::dense(dims::<2>(3));
        sym::assume(l.d[1] != 3);
        let v = l.dense_view::<u8, S2>(&data);
        before();
        if sym::any_bool() {
            let _: View<u8, (Dyn, Const<3>), Dense> = v.remap();
        } else {
            let _: View<u8, (Dyn, Const<3>), Strided> = v.into_mapping();
        }
    }
}
