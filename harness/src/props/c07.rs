//! C07: iteration over subarrays: outer_expr, axis_expr, lanes, rows and cols.
//!
//! Bounds. Parent arrays of rank 1-4 (dimensions up to 3, at most 12 elements; thorough up to
//! 24; some fixed shapes up to 9 items and 30 elements), including dimensions of size 0 and 1, strided with symbolic strides and base in a buffer
//! of 32 elements, dense, constant dimensions and dynamic rank 1-3. Every kind of axis. Each
//! item is compared in number, order, shape and location of its elements (symbolic index).
//! Outside: larger shapes.
use crate::model::Lay;
use crate::sym::{self, before};
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::index::{Axis, Cols, Rows};
use mdarray::*;

type S2 = Rank<2>;
type S3 = Rank<3>;

/// Layout of the lane along dimension k with row-major number n among the other dimensions.
fn lane<const R: usize, const M: usize>(l: &Lay<R>, k: usize, n: usize) -> Lay<1> {
    let o = l.removed::<M>(k, 0);
    Lay { d: [l.d[k]], s: [l.s[k]], base: o.pos(&o.unlin(n)) as isize }
}

macro_rules! check_axis {
    ($expr:expr, $l:expr, $k:expr, $m:literal, $p:expr) => {{
        let e = $expr;
        assert!(e.rank() == 1 && e.len() == $l.d[$k]);
        let mut it = e.into_iter();
        for n in 0..$l.d[$k] {
            assert!(it.len() == $l.d[$k] - n);
            let v = it.next().unwrap();
            $l.removed::<$m>($k, n).agrees(&v, $p);
        }
        assert!(it.next().is_none());
    }};
}

macro_rules! check_lanes {
    ($expr:expr, $l:expr, $k:expr, $m:literal, $p:expr) => {{
        let e = $expr;
        let o = $l.removed::<$m>($k, 0);
        assert!(e.rank() == $m && e.len() == o.len());
        for d in 0..$m {
            assert!(e.dim(d) == o.d[d]);
        }
        let mut it = e.into_iter();
        for n in 0..o.len() {
            assert!(it.len() == o.len() - n);
            let v = it.next().unwrap();
            lane::<_, $m>($l, $k, n).agrees(&v, $p);
        }
        assert!(it.next().is_none());
    }};
}

/// Body with a strided view, mutable or shared, of the given shape.
macro_rules! strided {
    ($d:expr, $smax:expr, $s:ty, |$l:ident, $v:ident, $p:ident| $body:block) => {{
        let mut data = [0u8; 32];
        let $p = data.as_ptr();
        let $l = &Lay::strided($d, 32, $smax);
        #[allow(unused_mut)]
        let mut $v = $l.view_mut::<u8, $s>(&mut data);
        $body
    }};
}

macro_rules! dense {
    ($d:expr, $s:ty, |$l:ident, $v:ident, $p:ident| $body:block) => {{
        let mut data = [0u8; 36];
        let $p = data.as_ptr();
        let $l = &Lay::dense($d);
        #[allow(unused_mut)]
        let mut $v = $l.dense_view_mut::<u8, $s>(&mut data);
        $body
    }};
}

harnesses! {
    holds quick outer_1 [30] { strided!([4], 9, Rank<1>, |l, v, p| {
        check_axis!(v.outer_expr(), l, 0, 0, p);
        check_axis!(v.outer_expr_mut(), l, 0, 0, p);
    }) }
    holds quick outer_2 [30] { strided!([2, 3], 9, S2, |l, v, p| {
        check_axis!(v.outer_expr(), l, 0, 1, p);
        check_axis!(v.outer_expr_mut(), l, 0, 1, p);
    }) }
    holds quick outer_3 [30] { strided!([3, 1, 2], 9, S3, |l, v, p| {
        check_axis!(v.outer_expr(), l, 0, 2, p);
    }) }
    holds quick outer_dense [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_axis!(v.outer_expr(), l, 0, 2, p);
        for (n, x) in v.outer_expr_mut().into_iter().enumerate() {
            let x: ViewMut<u8, S2, Dense> = x;
            l.removed::<2>(0, n).agrees(&x, p);
        }
    }) }
    holds quick outer_empty [30] {
        strided!([0, 3], 9, S2, |l, v, p| { check_axis!(v.outer_expr(), l, 0, 1, p); });
        strided!([3, 0], 9, S2, |l, v, p| { check_axis!(v.outer_expr_mut(), l, 0, 1, p); });
        dense!([3, 0, 2], S3, |l, v, p| { check_axis!(v.outer_expr(), l, 0, 2, p); });
        dense!([0, 2], DynRank, |l, v, p| { check_axis!(v.outer_expr_mut(), l, 0, 1, p); });
    }
    holds quick outer_dyn [30] { dense!([2, 3], DynRank, |l, v, p| {
        check_axis!(v.outer_expr(), l, 0, 1, p);
        check_axis!(v.outer_expr_mut(), l, 0, 1, p);
    }) }
    holds quick outer_const [30] {
        let a = Array::<u8, (Const<2>, Const<3>)>::from([[0; 3]; 2]);
        let l = Lay::dense([2, 3]);
        check_axis!(a.outer_expr(), &l, 0, 1, a.as_ptr());
        check_axis!(a.axis_expr(Const::<1>), &l, 1, 1, a.as_ptr());
    }
    holds quick axis_1_of_2 [30] { strided!([2, 3], 9, S2, |l, v, p| {
        check_axis!(v.axis_expr(Const::<1>), l, 1, 1, p);
        check_axis!(v.axis_expr_mut(Rows), l, 1, 1, p);
    }) }
    holds quick axis_1_of_3 [30] { strided!([2, 3, 2], 9, S3, |l, v, p| {
        check_axis!(v.axis_expr(Const::<1>), l, 1, 2, p);
    }) }
    holds quick axis_2_of_3 [30] { strided!([2, 2, 3], 9, S3, |l, v, p| {
        check_axis!(v.axis_expr_mut(Const::<2>), l, 2, 2, p);
    }) }
    holds quick axis_dense_3 [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_axis!(v.axis_expr(Const::<1>), l, 1, 2, p);
        check_axis!(v.axis_expr(Const::<2>), l, 2, 2, p);
        check_axis!(v.axis_expr_mut(Cols), l, 1, 2, p);
    }) }
    holds quick axis_dyn_axis [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_axis!(v.axis_expr(0), l, 0, 2, p);
        check_axis!(v.axis_expr(1), l, 1, 2, p);
        check_axis!(v.axis_expr_mut(2), l, 2, 2, p);
    }) }
    holds quick axis_dyn_rank [30] { strided!([2, 3], 9, DynRank, |l, v, p| {
        check_axis!(v.axis_expr(Const::<1>), l, 1, 1, p);
        check_axis!(v.axis_expr(0), l, 0, 1, p);
    }) }
    holds quick axis_empty [30] {
        strided!([0, 3], 9, S2, |l, v, p| { check_axis!(v.axis_expr(Const::<1>), l, 1, 1, p); });
        strided!([3, 0], 9, S2, |l, v, p| { check_axis!(v.axis_expr_mut(Rows), l, 1, 1, p); });
        dense!([3, 0, 2], S3, |l, v, p| { check_axis!(v.axis_expr(Const::<2>), l, 2, 2, p); });
    }
    holds quick rows_2 [30] { strided!([3, 2], 9, S2, |l, v, p| {
        check_lanes!(v.rows(), l, 1, 1, p);
        check_lanes!(v.rows_mut(), l, 1, 1, p);
    }) }
    holds quick cols_2 [30] { strided!([2, 3], 9, S2, |l, v, p| {
        check_lanes!(v.cols(), l, 0, 1, p);
        check_lanes!(v.cols_mut(), l, 0, 1, p);
    }) }
    holds quick rows_1 [30] { strided!([3], 9, Rank<1>, |l, v, p| {
        check_lanes!(v.rows(), l, 0, 0, p);
        check_lanes!(v.rows_mut(), l, 0, 0, p);
    }) }
    holds quick rows_3 [30] { strided!([2, 2, 2], 7, S3, |l, v, p| {
        check_lanes!(v.rows(), l, 2, 2, p);
    }) }
    holds quick cols_3 [30] { strided!([2, 2, 2], 7, S3, |l, v, p| {
        check_lanes!(v.cols(), l, 1, 2, p);
    }) }
    holds quick rows_3_mut [30] { strided!([3, 1, 2], 7, S3, |l, v, p| {
        check_lanes!(v.rows_mut(), l, 2, 2, p);
    }) }
    holds quick lanes_0_of_3 [30] { strided!([2, 2, 2], 7, S3, |l, v, p| {
        check_lanes!(v.lanes_mut(Const::<0>), l, 0, 2, p);
    }) }
    holds quick rows_dense_3 [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_lanes!(v.rows(), l, 2, 2, p);
        for (n, x) in v.rows_mut().into_iter().enumerate() {
            let x: ViewMut<u8, Rank<1>, Dense> = x;
            lane::<_, 2>(l, 2, n).agrees(&x, p);
        }
    }) }
    holds quick cols_dense_3 [30] { dense!([2, 2, 3], S3, |l, v, p| {
        check_lanes!(v.cols(), l, 1, 2, p);
        check_lanes!(v.cols_mut(), l, 1, 2, p);
    }) }
    holds quick lanes_dense_3 [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_lanes!(v.lanes(Const::<0>), l, 0, 2, p);
        check_lanes!(v.lanes(Const::<1>), l, 1, 2, p);
    }) }
    holds thorough lanes_dense_4 [30] { dense!([2, 2, 2, 2], Rank<4>, |l, v, p| {
        check_lanes!(v.lanes(Const::<1>), l, 1, 3, p);
        check_lanes!(v.rows_mut(), l, 3, 3, p);
    }) }
    holds quick lanes_dyn_axis [30] { dense!([2, 3, 2], S3, |l, v, p| {
        check_lanes!(v.lanes(0), l, 0, 2, p);
        check_lanes!(v.lanes_mut(1), l, 1, 2, p);
        check_lanes!(v.lanes(2), l, 2, 2, p);
    }) }
    holds quick lanes_dyn_rank [30] { dense!([2, 3], DynRank, |l, v, p| {
        check_lanes!(v.rows(), l, 1, 1, p);
        check_lanes!(v.cols_mut(), l, 0, 1, p);
    }) }
    holds quick lanes_dyn_rank_1 [30] { strided!([3], 9, DynRank, |l, v, p| {
        check_lanes!(v.lanes(Const::<0>), l, 0, 0, p);
    }) }
    holds quick lanes_dyn_rank_3 [30] { dense!([2, 2, 2], DynRank, |l, v, p| {
        check_lanes!(v.rows(), l, 2, 2, p);
    }) }
    holds quick lanes_const [30] {
        let mut a = Array::<u8, (Const<2>, Const<3>, Const<2>)>::from([[[0; 2]; 3]; 2]);
        let l = Lay::dense([2, 3, 2]);
        let p = a.as_ptr();
        check_lanes!(a.rows(), &l, 2, 2, p);
        check_lanes!(a.cols_mut(), &l, 1, 2, p);
    }
    holds quick lanes_empty [30] {
        strided!([0, 3], 9, S2, |l, v, p| { check_lanes!(v.rows(), l, 1, 1, p); });
        strided!([3, 0], 9, S2, |l, v, p| { check_lanes!(v.rows_mut(), l, 1, 1, p); });
        strided!([0, 3], 9, S2, |l, v, p| { check_lanes!(v.cols_mut(), l, 0, 1, p); });
        strided!([3, 0], 9, S2, |l, v, p| { check_lanes!(v.cols(), l, 0, 1, p); });
        dense!([2, 0, 2], S3, |l, v, p| { check_lanes!(v.cols(), l, 1, 2, p); });
        dense!([2, 0, 2], S3, |l, v, p| { check_lanes!(v.rows(), l, 2, 2, p); });
    }
    holds quick within_empty_axis [20] {
        // Without elements there is no memory, so that all pointers remain the same.
        let b = [0u8; 1];
        let e = &b[1..];
        let p = e.as_ptr();
        let l = Lay { d: [2, 0], s: [sym::signed(9), sym::signed(9)], base: 0 };
        let mut n = 0;
        for x in l.view::<u8, S2>(e).outer_expr() { assert!(x.as_ptr() == p); n += 1; }
        let v = Lay::dense([0, 2]).dense_view::<u8, S2>(e);
        v.axis_expr(Const::<1>).for_each(|x| { assert!(x.as_ptr() == p); n += 1; });
        assert!(n == 4);
    }
    holds quick within_empty_lanes [20] {
        let b = [0u8; 1];
        let e = &b[1..];
        let p = e.as_ptr();
        let l = Lay { d: [2, 0], s: [sym::signed(9), sym::signed(9)], base: 0 };
        let mut n = 0;
        for x in l.view::<u8, S2>(e).rows() { assert!(x.as_ptr() == p); n += 1; }
        let v = Lay::dense([0, 2]).dense_view::<u8, S2>(e);
        v.cols().for_each(|x| { assert!(x.as_ptr() == p); n += 1; });
        assert!(n == 4);
    }
    holds quick larger_axis [30] {
        dense!([6, 3], S2, |l, v, p| { check_axis!(v.outer_expr(), l, 0, 1, p); });
        dense!([2, 5, 2], S3, |l, v, p| { check_axis!(v.axis_expr(Const::<1>), l, 1, 2, p); });
    }
    holds quick larger_rows [30] {
        dense!([3, 3, 2], S3, |l, v, p| { check_lanes!(v.rows(), l, 2, 2, p); });
    }
    holds quick larger_cols [30] {
        dense!([7, 5], S2, |l, v, p| { check_lanes!(v.cols(), l, 0, 1, p); });
    }
    holds quick fold_lanes [30] { strided!([2, 2, 2], 7, S3, |l, v, p| {
        let n = v.rows().fold(0, |n, x| {
            lane::<_, 2>(l, 2, n).agrees(&x, p);
            n + 1
        });
        assert!(n == 4);
    }) }
    holds quick zip_lanes [30] {
        // Together with other expressions, with broadcasting.
        strided!([2, 3], 9, S2, |l, v, p| {
            let mut n = 0;
            expr::zip(expr::from_elem([2, 2], ()), v.rows()).for_each(|(_, x)| {
                lane::<_, 1>(l, 1, n % 2).agrees(&x, p);
                n += 1;
            });
            assert!(n == 4);
            let mut n = 0;
            v.outer_expr().zip(expr::from_elem([2, 2], ())).for_each(|(x, _)| {
                l.removed::<1>(0, n % 2).agrees(&x, p);
                n += 1;
            });
            assert!(n == 4);
        });
    }
    holds thorough zip_dyn_scalar [8] {
        // Stepped for each item.
        let (data, other) = ([0u8; 4], [0u8; 1]);
        let (p, w) = (data.as_ptr(), Lay::dense([]).dense_view::<u8, DynRank>(&other));
        let v = Lay::dense([2, 2]).dense_view::<u8, S2>(&data);
        let mut n = 0;
        v.outer_expr().zip(w).for_each(|(x, _)| {
            assert!(x.as_ptr() == unsafe { p.add(2 * n) });
            n += 1;
        });
        assert!(n == 2);
    }
    holds thorough zip_dyn_scalar_lanes [8] {
        let (data, other) = ([0u8; 4], [0u8; 1]);
        let (p, w) = (data.as_ptr(), Lay::dense([]).dense_view::<u8, DynRank>(&other));
        let v = Lay::dense([2, 2]).dense_view::<u8, S2>(&data);
        let mut n = 0;
        v.cols().zip(w).for_each(|(x, _)| {
            assert!(x.as_ptr() == unsafe { p.add(n) });
            n += 1;
        });
        assert!(n == 2);
    }
    holds quick zip_rows_cols [30] {
        strided!([2, 2], 9, S2, |l, v, p| {
            let mut n = 0;
            expr::zip(v.rows(), v.cols()).for_each(|(x, y)| {
                lane::<_, 1>(l, 1, n).agrees(&x, p);
                lane::<_, 1>(l, 0, n).agrees(&y, p);
                n += 1;
            });
            assert!(n == 2);
        });
    }
    holds quick zip_3d_lanes [30] {
        // Lanes over two dimensions repeated along a third.
        dense!([2, 2, 2], S3, |l, v, p| {
            let mut n = 0;
            v.cols().zip(expr::from_fn([2, 2, 2], |i| (i[0], i[1], i[2]))).for_each(|(x, i)| {
                assert!(i == (n / 4, n / 2 % 2, n % 2));
                lane::<_, 2>(l, 1, n % 4).agrees(&x, p);
                n += 1;
            });
            assert!(n == 8);
        });
    }
    holds thorough lanes_strided_4 [60] { strided!([2, 2, 2, 2], 4, Rank<4>, |l, v, p| {
        check_lanes!(v.lanes(Const::<2>), l, 2, 3, p);
    }) }
    holds thorough lanes_dense_5 [60] { dense!([2, 1, 2, 2, 2], Rank<5>, |l, v, p| {
        check_lanes!(v.lanes(Const::<2>), l, 2, 4, p);
        check_axis!(v.axis_expr(Const::<3>), l, 3, 4, p);
    }) }
    holds thorough rows_3_232 [60] { strided!([2, 3, 2], 9, S3, |l, v, p| {
        check_lanes!(v.rows(), l, 2, 2, p);
        check_lanes!(v.cols(), l, 1, 2, p);
    }) }
    panics quick bad_rank [20] {
        let data = [0u8; 4];
        let v = Lay::dense([4]).dense_view::<u8, DynRank>(&data);
        before();
        match sym::upto(2) {
            0 => { let _ = v.cols(); }
            1 => { let _ = v.axis_expr(Const::<1>); }
            _ => { let _ = v.lanes(Const::<2>); }
        }
    }
    panics quick bad_rank_0 [20] {
        let data = [0u8; 4];
        let v = Lay::dense([]).dense_view::<u8, DynRank>(&data);
        before();
        match sym::upto(2) {
            0 => { let _ = v.rows(); }
            1 => { let _ = v.outer_expr(); }
            _ => { let _ = v.lanes(0); }
        }
    }
    panics quick bad_axis [20] {
        let mut data = [0u8; 4];
        let mut v = Lay::dense([2, 2]).dense_view_mut::<u8, S2>(&mut data);
        let k = sym::usize();
        sym::assume(k >= 2);
        before();
        match sym::upto(3) {
            0 => { let _ = v.axis_expr(k); }
            1 => { let _ = v.axis_expr_mut(k); }
            2 => { let _ = v.lanes(k); }
            _ => { let _ = v.lanes_mut(k); }
        }
    }
    panics quick not_repeatable [20] {
        let mut data = [0u8; 4];
        let mut v = Lay::dense([2, 2]).dense_view_mut::<u8, S2>(&mut data);
        before();
        if sym::any_bool() {
            let _ = v.outer_expr_mut().zip(expr::from_elem([2, 2], ()));
        } else {
            let _ = expr::from_elem([2, 2], ()).zip(v.rows_mut());
        }
    }
}
