//! C02: subarray views by index and range.
//!
//! Bounds. Parent arrays of rank 1 (dimension 0..=6), 2 (0..=4), 3 (0..=3), 4-6 (0..=2), strided
//! with symbolic strides and base in a buffer of 32 elements, or dense; also constant and mixed
//! dimensions. Per dimension a symbolic index, the full range, any of the six range types, or a
//! stepped range with symbolic step (-4..=4, -127..=127 in rank 1). Rank 1: every kind; rank 2:
//! all pairs of {index, full, range, step}; ranks 3-6: selected combinations. Rejected inputs: any
//! 64-bit index and range bounds, step zero. Larger: strided rank 1 (dimension up to 255), dense
//! rank 1 (255) and 2 (32, steps 16). Outside: larger dimensions, steps near the limits of
//! isize.
use crate::model::{dims, Lay};
use crate::sym::{self, before};
use mdarray::index::DimIndex;
use mdarray::*;
use std::ops::{
    Bound, Range, RangeBounds, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive,
};

/// Elements `start`, `start + step`, ... along one dimension. `drop`: dimension is removed.
#[derive(Clone, Copy)]
struct Sel {
    start: isize,
    step: isize,
    len: usize,
    drop: bool,
}

/// Kind of index along a dimension: a symbolic valid index with its meaning.
trait Ix {
    type I: DimIndex;
    fn make(n: usize) -> (Self::I, Sel);
}

/// Kind of range: a symbolic valid range with its limits.
trait Rg {
    type R: RangeBounds<usize>;
    fn range(n: usize) -> (Self::R, usize, usize);
    /// Range that is not valid for the size.
    fn bad(n: usize) -> Self::R;
}

struct Idx;
struct Full;
struct Ra;
struct RaFrom;
struct RaTo;
struct RaIncl;
struct RaToIncl;
struct RaBnd;
struct RaBndEx;
struct Step<R, const MAX: isize>(R);

fn upto2(n: usize) -> (usize, usize) {
    let (a, b) = (sym::u8() as usize, sym::u8() as usize);
    sym::assume(a <= b && b <= n);
    (a, b)
}

fn bad2(n: usize) -> (usize, usize) {
    let (a, b) = (sym::usize(), sym::usize());
    sym::assume(a > b || b > n);
    (a, b)
}

impl Rg for Full {
    type R = RangeFull;
    fn range(n: usize) -> (RangeFull, usize, usize) {
        (.., 0, n)
    }
    fn bad(_: usize) -> RangeFull {
        unreachable!()
    }
}
impl Rg for Ra {
    type R = Range<usize>;
    fn range(n: usize) -> (Range<usize>, usize, usize) {
        let (a, b) = upto2(n);
        (a..b, a, b)
    }
    fn bad(n: usize) -> Range<usize> {
        let (a, b) = bad2(n);
        a..b
    }
}
impl Rg for RaFrom {
    type R = RangeFrom<usize>;
    fn range(n: usize) -> (RangeFrom<usize>, usize, usize) {
        let a = sym::upto(n);
        (a.., a, n)
    }
    fn bad(n: usize) -> RangeFrom<usize> {
        let a = sym::usize();
        sym::assume(a > n);
        a..
    }
}
impl Rg for RaTo {
    type R = RangeTo<usize>;
    fn range(n: usize) -> (RangeTo<usize>, usize, usize) {
        let b = sym::upto(n);
        (..b, 0, b)
    }
    fn bad(n: usize) -> RangeTo<usize> {
        let b = sym::usize();
        sym::assume(b > n);
        ..b
    }
}
impl Rg for RaIncl {
    type R = RangeInclusive<usize>;
    fn range(n: usize) -> (RangeInclusive<usize>, usize, usize) {
        let (a, b) = upto2(n);
        sym::assume(b > 0);
        (a..=b - 1, a, b)
    }
    fn bad(n: usize) -> RangeInclusive<usize> {
        let (a, b) = (sym::usize(), sym::usize());
        sym::assume(b >= n || a > b + 1);
        a..=b
    }
}
impl Rg for RaToIncl {
    type R = RangeToInclusive<usize>;
    fn range(n: usize) -> (RangeToInclusive<usize>, usize, usize) {
        let b = sym::upto(n);
        sym::assume(b > 0);
        (..=b - 1, 0, b)
    }
    fn bad(n: usize) -> RangeToInclusive<usize> {
        let b = sym::usize();
        sym::assume(b >= n);
        ..=b
    }
}
impl Rg for RaBnd {
    type R = (Bound<usize>, Bound<usize>);
    fn range(n: usize) -> (Self::R, usize, usize) {
        let (a, b) = upto2(n);
        let hi = if sym::any_bool() || b == 0 { Bound::Excluded(b) } else { Bound::Included(b - 1) };
        ((Bound::Included(a), hi), a, b)
    }
    fn bad(n: usize) -> Self::R {
        let (a, b) = bad2(n);
        (Bound::Included(a), Bound::Excluded(b))
    }
}
impl Rg for RaBndEx {
    type R = (Bound<usize>, Bound<usize>);
    fn range(n: usize) -> (Self::R, usize, usize) {
        let (a, b) = upto2(n);
        sym::assume(a > 0);
        let hi = if sym::any_bool() { Bound::Excluded(b) } else { Bound::Unbounded };
        ((Bound::Excluded(a - 1), hi), a, if hi == Bound::Unbounded { n } else { b })
    }
    fn bad(n: usize) -> Self::R {
        let a = sym::usize();
        sym::assume(a >= n);
        (Bound::Excluded(a), Bound::Unbounded)
    }
}

impl Ix for Idx {
    type I = usize;
    fn make(n: usize) -> (usize, Sel) {
        let i = sym::u8() as usize;
        sym::assume(i < n);
        (i, Sel { start: i as isize, step: 0, len: 0, drop: true })
    }
}

macro_rules! ix_range {
    ($($t:ty),*) => {$(
        impl Ix for $t {
            type I = <$t as Rg>::R;
            fn make(n: usize) -> (Self::I, Sel) {
                let (r, a, b) = <$t>::range(n);
                (r, Sel { start: a as isize, step: 1, len: b - a, drop: false })
            }
        }
    )*};
}
ix_range!(Full, Ra, RaFrom, RaTo, RaIncl, RaToIncl, RaBnd, RaBndEx);

impl<R: Rg, const MAX: isize> Ix for Step<R, MAX> {
    type I = StepRange<R::R, isize>;
    fn make(n: usize) -> (Self::I, Sel) {
        let (r, a, b) = R::range(n);
        let s = sym::signed(MAX);
        sym::assume(s != 0);
        let len = (b - a).div_ceil(s.unsigned_abs());
        let start = if s > 0 { a as isize } else { b as isize - 1 };
        (step(r, s), Sel { start, step: s, len, drop: false })
    }
}

type St<R> = Step<R, 4>;

/// The view has the selected elements, in order, at the location they have in the parent.
fn check<const R: usize, S: Shape, L: Layout>(
    r: &Slice<u8, S, L>,
    l: &Lay<R>,
    sel: [Sel; R],
    data: *const u8,
) {
    let mut m = 0;
    let mut j = [0; R];
    let mut pos = l.base;
    let mut empty = false;
    for k in 0..R {
        if !sel[k].drop {
            assert!(r.dim(m) == sel[k].len);
            empty |= sel[k].len == 0;
            m += 1;
        }
    }
    assert!(r.rank() == m && r.is_empty() == empty);
    m = 0;
    for k in 0..R {
        let mut i = sel[k].start;
        if !sel[k].drop {
            j[m] = sym::u8() as usize;
            sym::assume(j[m] < sel[k].len);
            i += sel[k].step * j[m] as isize;
            m += 1;
        }
        pos += l.s[k] * i;
    }
    assert!(&r[&j[..m]] as *const u8 == unsafe { data.offset(pos) });
}

macro_rules! view_fns {
    ($strided:ident, $dense:ident, $smut:ident, $bad:ident, $badm:ident, $n:literal, ($($d:ident),*), ($($k:ident),*), ($($x:ident),*), ($($i:literal),*)) => {
        fn $strided<$($k: Ix),*>(d: [usize; $n], smax: isize) {
            let data = [0u8; 32];
            let l = Lay::strided(d, 32, smax);
            let v = l.view::<u8, ($($d,)*)>(&data);
            $(let $x = $k::make(d[$i]);)*
            check(&v.view($($x.0),*), &l, [$($x.1),*], data.as_ptr());
        }
        fn $dense<$($k: Ix),*>(d: [usize; $n]) {
            let data = [0u8; 36];
            let l = Lay::dense(d);
            sym::assume(l.len() <= 36);
            let v = l.dense_view::<u8, ($($d,)*)>(&data);
            $(let $x = $k::make(d[$i]);)*
            check(&v.into_view($($x.0),*), &l, [$($x.1),*], data.as_ptr());
        }
        /// Mutable views, and the view of a view.
        fn $smut<$($k: Ix),*>(d: [usize; $n], smax: isize) {
            let mut data = [0u8; 32];
            let p = data.as_ptr();
            let l = Lay::strided(d, 32, smax);
            let mut v = l.view_mut::<u8, ($($d,)*)>(&mut data);
            $(let $x = $k::make(d[$i]);)*
            if sym::any_bool() {
                check(&v.view_mut($($x.0),*), &l, [$($x.1),*], p);
            } else {
                check(&v.into_view($($x.0),*), &l, [$($x.1),*], p);
            }
        }
    };
}

view_fns!(s1, d1, m1, b1, bm1, 1, (Dyn), (A), (a), (0));
view_fns!(s2, d2, m2, b2, bm2, 2, (Dyn, Dyn), (A, B), (a, b), (0, 1));
view_fns!(s3, d3, m3, b3, bm3, 3, (Dyn, Dyn, Dyn), (A, B, C), (a, b, c), (0, 1, 2));
view_fns!(s4, d4, m4, b4, bm4, 4, (Dyn, Dyn, Dyn, Dyn), (A, B, C, D), (a, b, c, d_), (0, 1, 2, 3));
view_fns!(s5, d5, m5, b5, bm5, 5, (Dyn, Dyn, Dyn, Dyn, Dyn), (A, B, C, D, E), (a, b, c, d_, e), (0, 1, 2, 3, 4));
view_fns!(s6, d6, m6, b6, bm6, 6, (Dyn, Dyn, Dyn, Dyn, Dyn, Dyn), (A, B, C, D, E, F), (a, b, c, d_, e, f), (0, 1, 2, 3, 4, 5));

/// Larger dimensions.
fn large1<A: Ix>(max: usize, smax: isize) {
    let data = [0u8; 255];
    let l = Lay::strided(dims::<1>(max), 255, smax);
    let a = A::make(l.d[0]);
    check(&l.view::<u8, Rank<1>>(&data).view(a.0), &l, [a.1], data.as_ptr());
}

fn large1_dense<A: Ix>() {
    let data = [0u8; 255];
    let l = Lay::dense(dims::<1>(255));
    let a = A::make(l.d[0]);
    check(&l.dense_view::<u8, Rank<1>>(&data).view(a.0), &l, [a.1], data.as_ptr());
}

fn large2_dense<A: Ix, B: Ix>(max: usize) {
    let data = [0u8; 255];
    let l = Lay::dense(dims::<2>(max));
    sym::assume(l.len() <= 255);
    let (a, b) = (A::make(l.d[0]), B::make(l.d[1]));
    check(&l.dense_view::<u8, Rank<2>>(&data).view(a.0, b.0), &l, [a.1, b.1], data.as_ptr());
}

fn bad1<R: Rg>()
where
    R::R: DimIndex,
{
    let data = [0u8; 32];
    let l = Lay::strided(dims::<1>(6), 32, 8);
    let v = l.view::<u8, Rank<1>>(&data);
    let r = R::bad(l.d[0]);
    before();
    let _ = v.view(r);
}

fn bad_step<R: Rg>() {
    let data = [0u8; 32];
    let l = Lay::strided(dims::<1>(6), 32, 8);
    let v = l.view::<u8, Rank<1>>(&data);
    let r = step(R::bad(l.d[0]), sym::signed(4));
    before();
    let _ = v.view(r);
}

harnesses! {
    holds quick r1_index [10] { s1::<Idx>(dims(6), 12) }
    holds quick r1_full [10] { s1::<Full>(dims(6), 12) }
    holds quick r1_range [10] { s1::<Ra>(dims(6), 12) }
    holds quick r1_from [10] { s1::<RaFrom>(dims(6), 12) }
    holds quick r1_to [10] { s1::<RaTo>(dims(6), 12) }
    holds quick r1_incl [10] { s1::<RaIncl>(dims(6), 12) }
    holds quick r1_to_incl [10] { s1::<RaToIncl>(dims(6), 12) }
    holds quick r1_bound [10] { s1::<RaBnd>(dims(6), 12) }
    holds quick r1_bound_excl [10] { s1::<RaBndEx>(dims(6), 12) }
    holds quick r1_step_full [10] { s1::<Step<Full, 127>>(dims(6), 12) }
    holds quick r1_step_range [10] { s1::<Step<Ra, 127>>(dims(6), 12) }
    holds quick r1_step_incl [10] { s1::<St<RaIncl>>(dims(6), 12) }
    holds quick r1_step_from [10] { s1::<St<RaFrom>>(dims(6), 12) }
    holds quick r1_dense [10] { d1::<Ra>(dims(9)) }
    holds quick r1_dense_step [10] { d1::<St<Ra>>(dims(9)) }
    holds quick r1_mut [10] { m1::<St<RaTo>>(dims(6), 12) }
    holds quick r2_idx_idx [10] { s2::<Idx, Idx>(dims(4), 9) }
    holds quick r2_idx_full [10] { s2::<Idx, Full>(dims(4), 9) }
    holds quick r2_idx_range [10] { s2::<Idx, Ra>(dims(4), 9) }
    holds quick r2_idx_step [10] { s2::<Idx, St<Ra>>(dims(4), 9) }
    holds quick r2_full_idx [10] { s2::<Full, Idx>(dims(4), 9) }
    holds quick r2_full_full [10] { s2::<Full, Full>(dims(4), 9) }
    holds quick r2_full_range [10] { s2::<Full, Ra>(dims(4), 9) }
    holds quick r2_full_step [10] { s2::<Full, St<Ra>>(dims(4), 9) }
    holds quick r2_range_idx [10] { s2::<Ra, Idx>(dims(4), 9) }
    holds quick r2_range_full [10] { s2::<Ra, Full>(dims(4), 9) }
    holds quick r2_range_range [10] { s2::<Ra, Ra>(dims(4), 9) }
    holds quick r2_range_step [10] { s2::<Ra, St<Ra>>(dims(4), 9) }
    holds quick r2_step_idx [10] { s2::<St<Ra>, Idx>(dims(4), 9) }
    holds quick r2_step_full [10] { s2::<St<Ra>, Full>(dims(4), 9) }
    holds quick r2_step_range [10] { s2::<St<Ra>, Ra>(dims(4), 9) }
    holds quick r2_step_step [10] { s2::<St<Ra>, St<Ra>>(dims(4), 9) }
    holds quick r2_dense_idx_range [10] { d2::<Idx, Ra>(dims(5)) }
    holds quick r2_dense_full_idx [10] { d2::<Full, Idx>(dims(5)) }
    holds quick r2_dense_full_range [10] { d2::<Full, RaFrom>(dims(5)) }
    holds quick r2_dense_range_full [10] { d2::<Ra, Full>(dims(5)) }
    holds quick r2_dense_range_range [10] { d2::<Ra, Ra>(dims(5)) }
    holds quick r2_dense_step_full [10] { d2::<St<Ra>, Full>(dims(5)) }
    holds quick r2_mut_range_step [10] { m2::<Ra, Step<Ra, 2>>(dims(3), 6) }
    holds quick r2_mut_full_idx [10] { m2::<Full, Idx>(dims(4), 9) }
    holds quick r3_dense_range_full_full [10] { d3::<RaTo, Full, Full>(dims(3)) }
    holds quick r3_dense_idx_range_full [10] { d3::<Idx, Ra, Full>(dims(3)) }
    holds quick r3_dense_idx_idx_range [10] { d3::<Idx, Idx, RaIncl>(dims(3)) }
    holds quick r3_dense_range_idx_full [10] { d3::<Ra, Idx, Full>(dims(3)) }
    holds quick r3_dense_full_range_idx [10] { d3::<Full, Ra, Idx>(dims(3)) }
    holds quick r3_range_step_full [10] { s3::<Ra, St<RaFrom>, Full>(dims(3), 9) }
    holds quick r3_step_idx_range [10] { s3::<St<Full>, Idx, Ra>(dims(3), 9) }
    holds quick r3_range_range_range [10] { s3::<Ra, RaToIncl, RaFrom>(dims(3), 9) }
    holds quick r3_mut [10] { m3::<Ra, Idx, Step<Full, 2>>(dims(2), 6) }
    holds quick r4 [10] { s4::<Ra, Idx, St<Full>, RaFrom>(dims(2), 6) }
    holds quick r4_dense [10] { d4::<Idx, Ra, Full, Full>(dims(2)) }
    holds quick r5 [10] { s5::<Idx, Ra, Full, St<Full>, RaTo>(dims(2), 4) }
    holds quick r5_dense [10] { d5::<Idx, Idx, RaFrom, Full, Full>(dims(2)) }
    holds quick r6 [10] { s6::<RaFrom, Full, Idx, Step<Full, 2>, Idx, RaTo>(dims(2), 3) }
    holds quick r6_dense [10] { d6::<Ra, Full, Full, Full, Full, Full>(dims(2)) }
    holds quick large_1_range [10] { large1::<Ra>(255, 63) }
    holds thorough large_1_step [10] { large1::<Step<Ra, 100>>(64, 20) }
    holds quick large_1_dense_range [10] { large1_dense::<Ra>() }
    holds quick large_1_dense_step [10] { large1_dense::<Step<Ra, 127>>() }
    holds quick large_2_dense_range [10] { large2_dense::<Ra, Ra>(32) }
    holds quick large_2_dense_index [10] { large2_dense::<Full, Idx>(32) }
    holds quick large_2_dense_step [10] { large2_dense::<Step<Full, 16>, Step<Full, 16>>(16) }
    holds quick const_dims [10] {
        let data = [0u8; 32];
        let l = Lay::strided([2, 3], 32, 8);
        let v = l.view::<u8, (Const<2>, Const<3>)>(&data);
        let r = Ra::make(2);
        let i = Idx::make(2);
        let f = Sel { start: 0, step: 1, len: 3, drop: false };
        let p = data.as_ptr();
        if sym::any_bool() {
            check(&v.view(r.0, ..), &l, [r.1, f], p);
        } else {
            let x: View<u8, (Const<3>,), Strided> = v.view(i.0, ..);
            check(&x, &l, [i.1, f], p);
        }
    }
    holds quick const_dense [10] {
        let a = Array::<u8, (Const<3>, Const<2>)>::from([[0; 2]; 3]);
        let p = a.as_ptr();
        let l = Lay::dense([3, 2]);
        let r = Ra::make(3);
        let i = Idx::make(2);
        let f = |n| Sel { start: 0, step: 1, len: n, drop: false };
        if sym::any_bool() {
            let x: View<u8, (Dyn, Const<2>)> = a.view(r.0, ..);
            check(&x, &l, [r.1, f(2)], p);
        } else {
            let x: View<u8, (Const<3>,), Strided> = a.view(.., i.0);
            check(&x, &l, [f(3), i.1], p);
        }
    }
    holds quick nested [10] {
        // View of a view: the selections compose.
        let data = [0u8; 32];
        let l = Lay::strided(dims::<1>(6), 32, 8);
        let v = l.view::<u8, Rank<1>>(&data);
        let a = St::<Ra>::make(l.d[0]);
        let b = St::<Ra>::make(a.1.len);
        let r = v.into_view(a.0).into_view(b.0);
        let s = Sel {
            start: a.1.start + a.1.step * b.1.start,
            step: a.1.step * b.1.step,
            len: b.1.len,
            drop: false,
        };
        check(&r, &l, [s], data.as_ptr());
    }
    panics quick bad_range [10] { bad1::<Ra>() }
    panics quick bad_from [10] { bad1::<RaFrom>() }
    panics quick bad_to [10] { bad1::<RaTo>() }
    panics quick bad_incl [10] { bad1::<RaIncl>() }
    panics quick bad_to_incl [10] { bad1::<RaToIncl>() }
    panics quick bad_bound [10] { bad1::<RaBnd>() }
    panics quick bad_bound_excl [10] { bad1::<RaBndEx>() }
    panics quick bad_step_range [10] { bad_step::<Ra>() }
    panics quick bad_step_incl [10] { bad_step::<RaIncl>() }
    panics quick step_zero [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(4), 32, 8);
        let v = l.view::<u8, Rank<2>>(&data);
        let (a, b) = upto2(l.d[1]);
        before();
        let _ = v.view(.., step(a..b, 0));
    }
    panics quick bad_index3 [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 8);
        let v = l.view::<u8, Rank<3>>(&data);
        let (a, b, c) = (sym::usize(), sym::usize(), sym::usize());
        sym::assume(a >= l.d[0] || b >= l.d[1] || c >= l.d[2]);
        before();
        let _ = v.view(a, b, c);
    }
    panics quick bad_mixed3 [10] {
        let mut data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 8);
        let mut v = l.view_mut::<u8, Rank<3>>(&mut data);
        let (a, b, c, d, i) = (sym::usize(), sym::usize(), sym::usize(), sym::usize(), sym::usize());
        sym::assume(a > b || b > l.d[0] || i >= l.d[1] || c > d || d > l.d[2]);
        before();
        let _ = v.view_mut(a..b, i, c..d);
    }
    panics quick bad_dense2 [10] {
        let data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let v = l.dense_view::<u8, Rank<2>>(&data);
        let (a, b, c, d) = (sym::usize(), sym::usize(), sym::usize(), sym::usize());
        sym::assume(a > b || b > l.d[0] || c > d || d > l.d[1]);
        before();
        let _ = v.view(a..b, c..d);
    }
    panics quick bad_dense2_idx [10] {
        let data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let v = l.dense_view::<u8, Rank<2>>(&data);
        let (a, b, i) = (sym::usize(), sym::usize(), sym::usize());
        sym::assume(a > b || b > l.d[1] || i >= l.d[0]);
        before();
        let _ = v.into_view(i, a..b);
    }
    panics quick bad_index6 [10] {
        let data = [0u8; 64];
        let l = Lay::dense(dims::<6>(2));
        let v = l.dense_view::<u8, Rank<6>>(&data);
        let i = [sym::usize(), sym::usize(), sym::usize(), sym::usize(), sym::usize(), sym::usize()];
        sym::assume((0..6).any(|k| i[k] >= l.d[k]));
        before();
        let _ = v.view(i[0], i[1], i[2], i[3], i[4], i[5]);
    }
}
