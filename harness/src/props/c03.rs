//! C03: sub-views along a dimension: at, axis_at, row, col, diag, split_at, split_axis_at.
//!
//! Bounds. at, axis_at and split: parent arrays of rank 1-3 with every dimension symbolic (0..=6,
//! 0..=4, 0..=3), thorough also rank 4 and 6 (0..=2), strided with symbolic strides and base in a
//! buffer of 32 elements, or dense; constant and mixed dimensions and dynamic rank (2 and 3).
//! Every kind of axis: constant number, dynamic number, Cols and Rows. row, col and diag: strided
//! (2,3), (3,1) and (0,2) with symbolic strides (thorough: every shape up to (4,4)), dense with
//! every shape up to (6,6), constant (2,3), dynamic rank. Symbolic index, split position and
//! diagonal number (64-bit when rejected). Shared, mutable and consuming variants. Larger:
//! dense arrays of up to 255 elements with symbolic dimensions for each function. Views without
//! elements: no pointer leaves the (empty) memory. Outside: larger dimensions.
use crate::model::{dims, Lay};
use crate::sym::{self, before};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;

type S2 = Rank<2>;
type S3 = Rank<3>;

/// Symbolic index within bounds.
fn below(n: usize) -> usize {
    let i = sym::u8() as usize;
    sym::assume(i < n);
    i
}

fn axis_at<A: Axis, S: Shape, const R: usize, const M: usize>(a: A, k: usize, d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let l = Lay::strided(d, 32, smax);
    let i = below(d[k]);
    let v = l.view::<u8, S>(&data);
    let e = l.removed::<M>(k, i);
    e.agrees(&v.axis_at(a, i), data.as_ptr());
    e.agrees(&v.into_axis_at(a, i), data.as_ptr());
}

fn axis_at_mut<A: Axis, S: Shape, const R: usize, const M: usize>(a: A, k: usize, d: [usize; R], smax: isize) {
    let mut data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let i = below(d[k]);
    let mut v = l.view_mut::<u8, S>(&mut data);
    let e = l.removed::<M>(k, i);
    e.agrees(&v.axis_at_mut(a, i), p);
    e.agrees(&v.into_axis_at(a, i), p);
}

fn axis_at_dense<A: Axis, S: Shape, const R: usize, const M: usize>(a: A, k: usize, d: [usize; R]) {
    let mut data = [0u8; 64];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    sym::assume(l.len() <= 64);
    let i = below(d[k]);
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    let e = l.removed::<M>(k, i);
    e.agrees(&v.axis_at(a, i), p);
    e.agrees(&v.axis_at_mut(a, i), p);
}

fn split<A: Axis, S: Shape, const R: usize>(a: A, k: usize, d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let l = Lay::strided(d, 32, smax);
    let m = sym::upto(d[k]);
    let v = l.view::<u8, S>(&data);
    let (x, y) = v.split_axis_at(a, m);
    l.resized(k, 0, m).agrees(&x, data.as_ptr());
    l.resized(k, m, d[k] - m).agrees(&y, data.as_ptr());
}

fn split_mut<A: Axis, S: Shape, const R: usize>(a: A, k: usize, d: [usize; R], smax: isize) {
    let mut data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let m = sym::upto(d[k]);
    let mut v = l.view_mut::<u8, S>(&mut data);
    let (e, f) = (l.resized(k, 0, m), l.resized(k, m, d[k] - m));
    if sym::any_bool() {
        let (x, y) = v.split_axis_at_mut(a, m);
        e.agrees(&x, p);
        f.agrees(&y, p);
    } else {
        let (x, y) = v.into_split_axis_at(a, m);
        e.agrees(&x, p);
        f.agrees(&y, p);
    }
}

fn split_dense<A: Axis, S: Shape, const R: usize>(a: A, k: usize, d: [usize; R]) {
    let mut data = [0u8; 64];
    let p = data.as_ptr();
    let l = Lay::dense(d);
    sym::assume(l.len() <= 64);
    let m = sym::upto(d[k]);
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    let (x, y) = v.split_axis_at(a, m);
    l.resized(k, 0, m).agrees(&x, p);
    l.resized(k, m, d[k] - m).agrees(&y, p);
    let (x, y) = v.split_axis_at_mut(a, m);
    l.resized(k, 0, m).agrees(&x, p);
    l.resized(k, m, d[k] - m).agrees(&y, p);
}

/// The diagonal: elements (i, i + n) or (i - n, i).
fn diag_lay(l: &Lay<2>, n: isize) -> Lay<1> {
    let (r, c) = if n >= 0 { (0, n as usize) } else { (-n as usize, 0) };
    let (a, b) = (l.d[0] - r, l.d[1] - c);
    Lay {
        d: [if a < b { a } else { b }],
        s: [l.s[0] + l.s[1]],
        base: l.base + l.s[0] * r as isize + l.s[1] * c as isize,
    }
}

fn diag_index(d: &[usize; 2]) -> isize {
    let n = sym::u8() as i8 as isize;
    sym::assume(-(d[0] as isize) <= n && n <= d[1] as isize);
    n
}

/// Two dimensions, one case per shape.
fn shapes2(f: impl Fn(&Lay<2>)) {
    let sel = sym::upto(2);
    for n in 0..3 {
        if sel == n {
            let d = [[2, 3], [3, 1], [0, 2]][n];
            f(&Lay::strided(d, 32, 6));
        }
    }
}

fn strided2<S: Shape>(f: impl Fn(&Lay<2>, View<u8, S, Strided>, *const u8)) {
    let data = [0u8; 32];
    shapes2(|l| f(l, l.view::<u8, S>(&data), data.as_ptr()));
}

fn strided2_mut<S: Shape>(f: impl Fn(&Lay<2>, ViewMut<u8, S, Strided>, *const u8)) {
    let mut data = [0u8; 32];
    let p = data.as_mut_ptr();
    shapes2(|l| f(l, l.view_mut::<u8, S>(unsafe { &mut *(p as *mut [u8; 32]) }), p));
}

fn sym_strided2<S: Shape>(f: impl Fn(&Lay<2>, View<u8, S, Strided>, *const u8)) {
    let data = [0u8; 32];
    let l = Lay::strided(dims::<2>(3), 32, 6);
    f(&l, l.view::<u8, S>(&data), data.as_ptr());
}

fn sym_strided2_mut<S: Shape>(f: impl Fn(&Lay<2>, ViewMut<u8, S, Strided>, *const u8)) {
    let mut data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(dims::<2>(3), 32, 6);
    f(&l, l.view_mut::<u8, S>(&mut data), p);
}

fn any_strided2<S: Shape>(f: impl Fn(&Lay<2>, View<u8, S, Strided>, *const u8)) {
    let data = [0u8; 32];
    let l = Lay::strided(dims::<2>(4), 32, 9);
    f(&l, l.view::<u8, S>(&data), data.as_ptr());
}

/// Larger dimensions.
fn large<S: Shape, const R: usize>(max: usize, f: impl Fn(&Lay<R>, ViewMut<u8, S>, *const u8)) {
    let mut data = [0u8; 255];
    let p = data.as_ptr();
    let l = Lay::dense(dims::<R>(max));
    sym::assume(l.len() <= 255);
    f(&l, l.dense_view_mut::<u8, S>(&mut data), p);
}

fn dense2_mut<S: Shape>(f: impl Fn(&Lay<2>, ViewMut<u8, S>, *const u8)) {
    let mut data = [0u8; 36];
    let p = data.as_ptr();
    let l = Lay::dense(dims::<2>(6));
    f(&l, l.dense_view_mut::<u8, S>(&mut data), p);
}

harnesses! {
    holds quick at1 [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<1>(6), 32, 12);
        let i = below(l.d[0]);
        let v = l.view::<u8, Rank<1>>(&data);
        l.removed::<0>(0, i).agrees(&v.at(i), data.as_ptr());
        l.removed::<0>(0, i).agrees(&v.into_at(i), data.as_ptr());
    }
    holds quick at3 [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 9);
        let i = below(l.d[0]);
        let v = l.view::<u8, S3>(&data);
        l.removed::<2>(0, i).agrees(&v.at(i), data.as_ptr());
        l.removed::<2>(0, i).agrees(&v.into_at(i), data.as_ptr());
    }
    holds quick at3_mut [10] {
        let mut data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided(dims::<3>(3), 32, 9);
        let i = below(l.d[0]);
        let mut v = l.view_mut::<u8, S3>(&mut data);
        l.removed::<2>(0, i).agrees(&v.at_mut(i), p);
        l.removed::<2>(0, i).agrees(&v.into_at(i), p);
    }
    holds quick at_dense [10] {
        let mut data = [0u8; 27];
        let p = data.as_ptr();
        let l = Lay::dense(dims::<3>(3));
        let i = below(l.d[0]);
        let mut v = l.dense_view_mut::<u8, S3>(&mut data);
        let x: View<u8, (Dyn, Dyn), Dense> = v.at(i);
        l.removed::<2>(0, i).agrees(&x, p);
        l.removed::<2>(0, i).agrees(&v.at_mut(i), p);
    }
    holds thorough axis0_r2 [10] { axis_at::<_, S2, 2, 1>(Const::<0>, 0, dims(4), 9) }
    holds quick axis1_r2 [10] { axis_at::<_, S2, 2, 1>(Const::<1>, 1, dims(4), 9) }
    holds quick axis1_r3 [10] { axis_at::<_, S3, 3, 2>(Const::<1>, 1, dims(3), 9) }
    holds thorough axis2_r3 [10] { axis_at::<_, S3, 3, 2>(Const::<2>, 2, dims(3), 9) }
    holds quick cols_r3 [10] { axis_at::<_, S3, 3, 2>(Cols, 1, dims(3), 9) }
    holds quick rows_r3 [10] { axis_at::<_, S3, 3, 2>(Rows, 2, dims(3), 9) }
    holds thorough dyn_axis0_r3 [10] { axis_at::<_, S3, 3, 2>(0, 0, dims(2), 6) }
    holds quick dyn_axis1_r3 [10] { axis_at::<_, S3, 3, 2>(1, 1, dims(2), 6) }
    holds quick dyn_axis2_r3 [10] { axis_at::<_, S3, 3, 2>(2, 2, dims(2), 6) }
    holds thorough dyn_axis0_dyn_rank [10] { axis_at::<_, DynRank, 2, 1>(0, 0, dims(3), 6) }
    holds quick dyn_axis1_dyn_rank [10] { axis_at::<_, DynRank, 2, 1>(1, 1, dims(3), 6) }
    holds thorough axis3_r4 [10] { axis_at::<_, Rank<4>, 4, 3>(Const::<3>, 3, dims(2), 5) }
    holds quick axis_mut_r3 [10] { axis_at_mut::<_, S3, 3, 2>(Const::<1>, 1, dims(3), 9) }
    holds quick cols_mut_r2 [10] { axis_at_mut::<_, S2, 2, 1>(Cols, 0, dims(4), 9) }
    holds quick axis_dense_r3 [10] { axis_at_dense::<_, S3, 3, 2>(Const::<1>, 1, dims(3)) }
    holds thorough axis4_dense_r6 [10] { axis_at_dense::<_, Rank<6>, 6, 5>(Const::<4>, 4, dims(2)) }
    holds quick axis5_dense_r6 [10] { axis_at_dense::<_, Rank<6>, 6, 5>(Const::<5>, 5, dims(2)) }
    holds thorough axis_dense_r5 [10] { axis_at_dense::<_, Rank<5>, 5, 4>(Cols, 3, dims(2)) }
    holds quick axis_dense_dyn [10] { axis_at_dense::<_, DynRank, 3, 2>(Const::<1>, 1, dims(2)) }
    holds quick axis_const [10] { axis_at_dense::<_, (Const<2>, Const<3>), 2, 1>(Const::<1>, 1, [2, 3]) }
    holds quick axis_mixed [10] {
        axis_at::<_, (Dyn, Const<3>, Dyn), 3, 2>(Const::<0>, 0, [sym::upto(3), 3, sym::upto(2)], 6)
    }
    holds quick split0_r1 [10] { split::<_, Rank<1>, 1>(Const::<0>, 0, dims(6), 12) }
    holds quick split0_r2 [10] { split::<_, S2, 2>(Const::<0>, 0, dims(4), 9) }
    holds quick split1_r2 [10] { split::<_, S2, 2>(Const::<1>, 1, dims(4), 9) }
    holds thorough split1_r3 [10] { split::<_, S3, 3>(Const::<1>, 1, dims(2), 6) }
    holds thorough split_rows_r3 [10] { split::<_, S3, 3>(Rows, 2, dims(2), 6) }
    holds quick split_cols_r2 [10] { split::<_, S2, 2>(Cols, 0, dims(3), 9) }
    holds thorough split_dyn_axis0 [10] { split::<_, S2, 2>(0, 0, dims(3), 6) }
    holds quick split_dyn_axis1 [10] { split::<_, S2, 2>(1, 1, dims(3), 6) }
    holds quick split_dyn_rank [10] { split::<_, DynRank, 2>(Const::<1>, 1, dims(3), 6) }
    holds quick split_mut_r2 [10] { split_mut::<_, S2, 2>(Const::<1>, 1, dims(3), 6) }
    holds quick split_mut_r3 [10] { split_mut::<_, S3, 3>(Const::<0>, 0, dims(2), 4) }
    holds quick split_dense_r2 [10] { split_dense::<_, S2, 2>(Const::<0>, 0, dims(5)) }
    holds quick split_dense_r6_small [10] {
        split_dense::<_, Rank<6>, 6>(Const::<3>, 3, [1, 2, 1, sym::upto(3), 2, 1])
    }
    holds quick split_dense_r3 [10] { split_dense::<_, S3, 3>(Const::<2>, 2, dims(3)) }
    holds thorough split_dense_r6 [10] { split_dense::<_, Rank<6>, 6>(Const::<3>, 3, dims(2)) }
    holds quick split_const [10] { split_dense::<_, (Const<3>, Const<2>), 2>(Const::<0>, 0, [3, 2]) }
    holds quick split_at [10] {
        let mut data = [0u8; 27];
        let p = data.as_ptr();
        let l = Lay::dense(dims::<3>(3));
        let m = sym::upto(l.d[0]);
        let (e, f) = (l.resized(0, 0, m), l.resized(0, m, l.d[0] - m));
        let mut v = l.dense_view_mut::<u8, S3>(&mut data);
        {
            let (x, y): (DView<u8, 3>, DView<u8, 3>) = v.split_at(m);
            e.agrees(&x, p);
            f.agrees(&y, p);
        }
        {
            let (x, y) = v.split_at_mut(m);
            e.agrees(&x, p);
            f.agrees(&y, p);
        }
        let (x, y) = v.into_split_at(m);
        e.agrees(&x, p);
        f.agrees(&y, p);
    }
    holds quick split_at_strided [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(4), 32, 9);
        let m = sym::upto(l.d[0]);
        let (x, y) = l.view::<u8, S2>(&data).into_split_at(m);
        l.resized(0, 0, m).agrees(&x, data.as_ptr());
        l.resized(0, m, l.d[0] - m).agrees(&y, data.as_ptr());
    }
    holds quick row [10] {
        strided2::<S2>(|l, v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.row(i), p);
        });
    }
    holds quick into_row [10] {
        strided2::<S2>(|l, v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.into_row(i), p);
        });
    }
    holds quick col [10] {
        strided2::<S2>(|l, v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.col(i), p);
        });
    }
    holds quick into_col [10] {
        strided2::<S2>(|l, v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.into_col(i), p);
        });
    }
    holds quick diag [10] {
        strided2::<S2>(|l, v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.diag(i), p);
        });
    }
    holds quick into_diag [10] {
        sym_strided2::<S2>(|l, v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.into_diag(i), p);
        });
    }
    holds quick row_mut [10] {
        strided2_mut::<S2>(|l, mut v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.row_mut(i), p);
        });
    }
    holds quick into_row_mut [10] {
        strided2_mut::<S2>(|l, v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.into_row(i), p);
        });
    }
    holds quick col_mut [10] {
        strided2_mut::<S2>(|l, mut v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.col_mut(i), p);
        });
    }
    holds quick into_col_mut [10] {
        strided2_mut::<S2>(|l, v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.into_col(i), p);
        });
    }
    holds quick diag_mut [10] {
        strided2_mut::<S2>(|l, mut v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.diag_mut(i), p);
        });
    }
    holds quick into_diag_mut [10] {
        sym_strided2_mut::<S2>(|l, v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.into_diag(i), p);
        });
    }
    holds quick dense_row_col [10] {
        dense2_mut::<S2>(|l, mut v, p| {
            let (i, j) = (below(l.d[0]), below(l.d[1]));
            let x: View<u8, (Dyn,), Dense> = v.row(i);
            l.removed::<1>(0, i).agrees(&x, p);
            l.removed::<1>(1, j).agrees(&v.col(j), p);
            l.removed::<1>(0, i).agrees(&v.row_mut(i), p);
            l.removed::<1>(1, j).agrees(&v.col_mut(j), p);
        });
    }
    holds quick dense_diag [10] {
        dense2_mut::<S2>(|l, mut v, p| {
            let n = diag_index(&l.d);
            diag_lay(l, n).agrees(&v.diag(n), p);
            diag_lay(l, n).agrees(&v.diag_mut(n), p);
        });
    }
    holds quick large_row_col [10] {
        large::<S2, 2>(64, |l, v, p| {
            let (i, j) = (below(l.d[0]), below(l.d[1]));
            l.removed::<1>(0, i).agrees(&v.row(i), p);
            l.removed::<1>(1, j).agrees(&v.col(j), p);
        });
    }
    holds quick large_row_col_mut [10] {
        large::<S2, 2>(64, |l, mut v, p| {
            let (i, j) = (below(l.d[0]), below(l.d[1]));
            l.removed::<1>(0, i).agrees(&v.row_mut(i), p);
            l.removed::<1>(1, j).agrees(&v.col_mut(j), p);
        });
    }
    holds quick large_diag [10] {
        large::<S2, 2>(64, |l, mut v, p| {
            let n = diag_index(&l.d);
            if sym::any_bool() {
                diag_lay(l, n).agrees(&v.diag(n), p);
            } else {
                diag_lay(l, n).agrees(&v.diag_mut(n), p);
            }
        });
    }
    holds quick large_at [10] {
        large::<S3, 3>(16, |l, mut v, p| {
            let i = below(l.d[0]);
            if sym::any_bool() {
                l.removed::<2>(0, i).agrees(&v.at(i), p);
            } else {
                l.removed::<2>(0, i).agrees(&v.at_mut(i), p);
            }
        });
    }
    holds quick large_axis_at [10] {
        large::<S3, 3>(16, |l, v, p| {
            let i = below(l.d[1]);
            l.removed::<2>(1, i).agrees(&v.axis_at(Const::<1>, i), p);
        });
    }
    holds quick large_split [10] {
        large::<S2, 2>(64, |l, mut v, p| {
            let m = sym::upto(l.d[0]);
            if sym::any_bool() {
                let (x, y) = v.split_at(m);
                l.resized(0, 0, m).agrees(&x, p);
                l.resized(0, m, l.d[0] - m).agrees(&y, p);
            } else {
                let (x, y) = v.split_at_mut(m);
                l.resized(0, 0, m).agrees(&x, p);
                l.resized(0, m, l.d[0] - m).agrees(&y, p);
            }
        });
    }
    holds quick large_split_axis [10] {
        large::<S2, 2>(64, |l, v, p| {
            let m = sym::upto(l.d[1]);
            let (x, y) = v.split_axis_at(Const::<1>, m);
            l.resized(1, 0, m).agrees(&x, p);
            l.resized(1, m, l.d[1] - m).agrees(&y, p);
        });
    }
    holds quick within_empty [10] {
        // Without elements there is no memory, so that all pointers remain the same.
        let b = [0u8; 1];
        let e = &b[1..];
        let p = e.as_ptr();
        let l = Lay { d: [2, 0], s: [sym::signed(9), sym::signed(9)], base: 0 };
        let v = l.view::<u8, S2>(e);
        let i = below(2);
        assert!(v.at(i).as_ptr() == p);
        assert!(v.axis_at(Const::<0>, i).as_ptr() == p);
        assert!(v.row(i).as_ptr() == p);
        assert!(v.diag(-(i as isize)).as_ptr() == p);
        let (x, y) = v.split_at(i);
        assert!(x.as_ptr() == p && y.as_ptr() == p);
        let (x, y) = v.split_axis_at(Const::<0>, i + 1);
        assert!(x.as_ptr() == p && y.as_ptr() == p);
        let v = Lay::dense([0, 2]).dense_view::<u8, S2>(e);
        assert!(v.col(i).as_ptr() == p);
        assert!(v.axis_at(Const::<1>, i).as_ptr() == p);
        assert!(v.diag(i as isize).as_ptr() == p);
        let (x, y) = v.split_axis_at(Const::<1>, i + 1);
        assert!(x.as_ptr() == p && y.as_ptr() == p);
    }
    holds quick split_to_end [10] {
        // The second part is empty, also with its offset after the end.
        let b = [0u8; 6];
        let l = Lay::dense([2, 3]);
        let v = l.dense_view::<u8, S2>(&b);
        let (x, y) = v.split_at(2);
        assert!(x.as_ptr() == b.as_ptr() && x.len() == 6 && y.is_empty());
        let s = Lay { d: [2, 3], s: [3, 1], base: 0 };
        let (x, y) = s.view::<u8, S2>(&b).into_split_axis_at(Const::<1>, 3);
        assert!(x.as_ptr() == b.as_ptr() && x.len() == 6 && y.is_empty());
        let t = Lay { d: [2, 2], s: [4, 1], base: 0 };
        let w = t.view::<u8, S2>(&b);
        let (_, y) = w.split_at(2);
        assert!(y.is_empty());
        assert!(w.diag(2).is_empty() && w.diag(-2).is_empty());
    }
    holds quick const_row_col_diag [10] {
        let mut a = Array::<u8, (Const<2>, Const<3>)>::from([[0; 3]; 2]);
        let p = a.as_ptr();
        let l = Lay::dense([2, 3]);
        let (i, j) = (below(2), below(3));
        let n = diag_index(&l.d);
        let x: View<u8, (Const<3>,)> = a.row(i);
        l.removed::<1>(0, i).agrees(&x, p);
        let x: View<u8, (Const<2>,), Strided> = a.col(j);
        l.removed::<1>(1, j).agrees(&x, p);
        diag_lay(&l, n).agrees(&a.diag(n), p);
        diag_lay(&l, n).agrees(&a.diag_mut(n), p);
    }
    holds quick dyn_rank_row [10] {
        strided2::<DynRank>(|l, v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.row(i), p);
        });
    }
    holds quick dyn_rank_col [10] {
        strided2::<DynRank>(|l, v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.col(i), p);
        });
    }
    holds quick dyn_rank_diag [10] {
        strided2::<DynRank>(|l, v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.diag(i), p);
        });
    }
    holds thorough any_row [10] {
        any_strided2::<S2>(|l, v, p| {
            let i = below(l.d[0]);
            l.removed::<1>(0, i).agrees(&v.row(i), p);
        });
    }
    holds thorough any_col [10] {
        any_strided2::<S2>(|l, v, p| {
            let i = below(l.d[1]);
            l.removed::<1>(1, i).agrees(&v.into_col(i), p);
        });
    }
    holds thorough any_diag [10] {
        any_strided2::<S2>(|l, v, p| {
            let i = diag_index(&l.d);
            diag_lay(l, i).agrees(&v.diag(i), p);
        });
    }
    panics quick bad_at [10] {
        let mut data = [0u8; 32];
        let l = Lay::strided(dims::<2>(4), 32, 9);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        let i = sym::usize();
        sym::assume(i >= l.d[0]);
        before();
        if sym::any_bool() {
            let _ = v.at(i);
        } else {
            let _ = v.at_mut(i);
        }
    }
    panics quick bad_axis_at [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 9);
        let v = l.view::<u8, S3>(&data);
        let i = sym::usize();
        let sel = sym::upto(4);
        let k = if sel == 2 { 2 } else { 1 };
        sym::assume(i >= l.d[k]);
        before();
        match sel {
            0 => { let _ = v.axis_at(Const::<1>, i); }
            1 => { let _ = v.axis_at(1, i); }
            2 => { let _ = v.axis_at(Rows, i); }
            3 => { let _ = v.axis_at(Cols, i); }
            _ => { let _ = v.into_axis_at(Const::<1>, i); }
        }
    }
    panics quick bad_axis [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(4), 32, 9);
        let v = l.view::<u8, S2>(&data);
        let k = sym::usize();
        let i = sym::upto(3);
        sym::assume(k >= 2);
        before();
        if sym::any_bool() {
            let _ = v.axis_at(k, i);
        } else {
            let _ = v.split_axis_at(k, i);
        }
    }
    panics quick bad_axis_dyn_rank [10] {
        let data = [0u8; 32];
        let l = Lay::dense(dims::<2>(4));
        let v = l.dense_view::<u8, DynRank>(&data);
        let i = sym::upto(3);
        before();
        let _ = v.axis_at(Const::<2>, i);
    }
    panics quick bad_split [10] {
        let mut data = [0u8; 32];
        let l = Lay::strided(dims::<2>(4), 32, 9);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        let m = sym::usize();
        let sel = sym::upto(3);
        sym::assume(m > if sel < 2 { l.d[0] } else { l.d[1] });
        before();
        match sel {
            0 => { let _ = v.split_at(m); }
            1 => { let _ = v.split_at_mut(m); }
            2 => { let _ = v.split_axis_at(Const::<1>, m); }
            _ => { let _ = v.split_axis_at_mut(Rows, m); }
        }
    }
    panics quick bad_row [10] {
        strided2_mut::<S2>(|l, mut v, _| {
            let i = sym::usize();
            sym::assume(i >= l.d[0]);
            before();
            let _ = v.row(i);
        });
    }
    panics quick bad_row_mut [10] {
        strided2_mut::<S2>(|l, mut v, _| {
            let i = sym::usize();
            sym::assume(i >= l.d[0]);
            before();
            let _ = v.row_mut(i);
        });
    }
    panics quick bad_col [10] {
        strided2_mut::<S2>(|l, mut v, _| {
            let i = sym::usize();
            sym::assume(i >= l.d[1]);
            before();
            let _ = v.col(i);
        });
    }
    panics quick bad_col_mut [10] {
        strided2_mut::<S2>(|l, mut v, _| {
            let i = sym::usize();
            sym::assume(i >= l.d[1]);
            before();
            let _ = v.col_mut(i);
        });
    }
    panics quick bad_diag [10] {
        strided2::<S2>(|l, v, _| {
            let n = sym::usize() as isize;
            sym::assume(n > l.d[1] as isize || n < -(l.d[0] as isize));
            // The negation overflows, which is replayed without overflow checks: thorough.
            sym::assume(n != isize::MIN);
            before();
            let _ = v.diag(n);
        });
    }
    panics thorough bad_diag_min [10] {
        strided2::<S2>(|_, v, _| {
            before();
            let _ = v.diag(isize::MIN);
        });
    }
    panics quick bad_rank_row_col_diag [10] {
        let data = [0u8; 27];
        let l = Lay::dense(dims::<3>(3));
        let v = l.dense_view::<u8, S3>(&data);
        let sel = sym::upto(2);
        before();
        match sel {
            0 => { let _ = v.row(0); }
            1 => { let _ = v.col(0); }
            _ => { let _ = v.diag(0); }
        }
    }
}
