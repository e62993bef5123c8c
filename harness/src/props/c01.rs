//! C01: element access.
//!
//! Bounds. Strided layout: ranks 1-4 with every dimension symbolic in 0..=5 (rank 1), 0..=4 (2),
//! 0..=3 (3), 0..=2 (4), rank 5 with symbolic dimensions in 1..=2, rank 6 with dimensions
//! (2,2,1,2,3,1) (thorough: 1..=2 each); symbolic strides
//! (positive, zero and negative) and base within a buffer of 32 elements, symbolic index.
//! Dense layout: ranks 0-6, up to 36 elements. Dynamic rank: actual ranks 0-3. Constant and mixed
//! constant/dynamic dimensions: (2,3) and (2,n,3). Indices that must be rejected: any 64-bit
//! values; index slices with any wrong length up to 6. Ranges: all seven range types, symbolic
//! bounds (64-bit when rejected). Larger: strided ranks 1 (dimension up to 255), 2 (16) and 3 (5)
//! in buffers of 255 or 127 elements, dense ranks 2 (64, 1024 elements) and 3 (16, 512 elements),
//! all symbolic. Outside: larger arrays, element types other than u8/u16/().
use crate::model::{at, dims, Lay};
use crate::sym::{self, before};
use mdarray::*;
use std::ops::Bound;

/// All ways to refer to the element with a valid index give the location in the model.
fn same<const R: usize, S: Shape, L: Layout>(v: &Slice<u8, S, L>, l: &Lay<R>, data: *const u8) {
    let i = l.index();
    let p = unsafe { data.add(l.pos(&i)) };
    let n = l.lin(&i);

    assert!(&v[i] as *const u8 == p);
    assert!(&v[&i[..]] as *const u8 == p);
    assert!(&v[n] as *const u8 == p);
    unsafe {
        assert!(v.get_unchecked(i) as *const u8 == p);
        assert!(v.get_unchecked(n) as *const u8 == p);
    }
}

fn same_mut<const R: usize, S: Shape, L: Layout>(
    v: &mut Slice<u8, S, L>,
    l: &Lay<R>,
    data: *const u8,
) {
    let i = l.index();
    let p = unsafe { data.add(l.pos(&i)) };
    let n = l.lin(&i);

    assert!(&mut v[i] as *mut u8 as *const u8 == p);
    assert!(&mut v[&i[..]] as *mut u8 as *const u8 == p);
    assert!(&mut v[n] as *mut u8 as *const u8 == p);
    unsafe {
        assert!(v.get_unchecked_mut(i) as *mut u8 as *const u8 == p);
        assert!(v.get_unchecked_mut(n) as *mut u8 as *const u8 == p);
    }
}

fn info<const R: usize, S: Shape, L: Layout>(v: &Slice<u8, S, L>, l: &Lay<R>, data: *const u8) {
    assert!(v.rank() == R && v.len() == l.len() && v.is_empty() == (l.len() == 0));
    assert!(v.as_ptr() == unsafe { data.offset(l.base) });
    for k in 0..R {
        assert!(v.dim(k) == l.d[k] && v.shape().dim(k) == l.d[k]);
        assert!(v.stride(k) == l.s[k]);
    }
}

fn strided<const R: usize, S: Shape>(d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let l = Lay::strided(d, 32, smax);
    let v = l.view::<u8, S>(&data);
    info(&v, &l, data.as_ptr());
    same(&v, &l, data.as_ptr());
}

/// Larger arrays: `N` elements in the buffer.
fn large<const R: usize, const N: usize, S: Shape>(max: usize, smax: isize) {
    let data = [0u8; N];
    let l = Lay::strided(dims::<R>(max), N, smax);
    let v = l.view::<u8, S>(&data);
    info(&v, &l, data.as_ptr());
    let i = l.index();
    assert!(&v[i] as *const u8 == unsafe { data.as_ptr().add(l.pos(&i)) });
}

fn large_dense<const R: usize, const N: usize, S: Shape>(max: usize) {
    let data = [0u8; N];
    let l = Lay::dense(dims::<R>(max));
    l.inside(N);
    let v = l.dense_view::<u8, S>(&data);
    info(&v, &l, data.as_ptr());
    let i = l.index();
    assert!(&v[i] as *const u8 == unsafe { data.as_ptr().add(l.pos(&i)) });
}

fn strided_mut<const R: usize, S: Shape>(d: [usize; R], smax: isize) {
    let mut data = [0u8; 32];
    let l = Lay::strided(d, 32, smax);
    let p = data.as_ptr();
    let mut v = l.view_mut::<u8, S>(&mut data);
    info(&v, &l, p);
    same_mut(&mut v, &l, p);
}

fn dense<const R: usize, S: Shape>(d: [usize; R]) {
    let data = [0u8; 36];
    let l = Lay::dense(d);
    sym::assume(l.len() <= 36);
    let v = l.dense_view::<u8, S>(&data);
    info(&v, &l, data.as_ptr());
    same(&v, &l, data.as_ptr());
}

fn dense_mut<const R: usize, S: Shape>(d: [usize; R]) {
    let mut data = [0u8; 36];
    let l = Lay::dense(d);
    sym::assume(l.len() <= 36);
    let p = data.as_ptr();
    let mut v = l.dense_view_mut::<u8, S>(&mut data);
    info(&v, &l, p);
    same_mut(&mut v, &l, p);
}

/// An index with at least one component out of bounds.
fn bad<const R: usize>(d: &[usize; R]) -> [usize; R] {
    let mut i = [0; R];
    let mut bad = false;
    for k in 0..R {
        i[k] = sym::usize();
        bad |= i[k] >= d[k];
    }
    sym::assume(bad);
    i
}

fn big(l: usize) -> usize {
    let n = sym::usize();
    sym::assume(n >= l);
    n
}

type S2 = Rank<2>;
type S3 = Rank<3>;
type C23 = (Const<2>, Const<3>);
type M23 = (Const<2>, Dyn, Const<3>);

/// The range index selects the elements `a..b` in row-major order.
fn range_is(x: &[u8], data: *const u8, a: usize, b: usize) {
    assert!(x.len() == b - a);
    assert!(x.as_ptr() == unsafe { data.add(a) });
}

fn ranges<S: Shape>(v: &mut Slice<u8, S>, data: *const u8) {
    let n = v.len();
    let (a, b) = (sym::u8() as usize, sym::u8() as usize);
    sym::assume(a <= b && b <= n);

    range_is(&v[a..b], data, a, b);
    range_is(&v[..b], data, 0, b);
    range_is(&v[a..], data, a, n);
    range_is(&v[..], data, 0, n);
    range_is(&v[(Bound::Included(a), Bound::Excluded(b))], data, a, b);
    range_is(&mut v[a..b], data, a, b);
    range_is(&mut v[..b], data, 0, b);
    range_is(&mut v[a..], data, a, n);
    range_is(&mut v[..], data, 0, n);
    unsafe {
        range_is(v.get_unchecked(a..b), data, a, b);
        range_is(v.get_unchecked_mut(a..b), data, a, b);
        range_is(v.get_unchecked(..b), data, 0, b);
        range_is(v.get_unchecked_mut(a..), data, a, n);
    }
    if a < b {
        range_is(&v[a..=b - 1], data, a, b);
        range_is(&v[..=b - 1], data, 0, b);
        range_is(&mut v[a..=b - 1], data, a, b);
        range_is(&mut v[..=b - 1], data, 0, b);
        range_is(&v[(Bound::Excluded(a), Bound::Included(b - 1))], data, a + 1, b);
    }
}

harnesses! {
    holds quick strided1 [10] { strided::<1, Rank<1>>(dims(5), 12) }
    holds quick strided2 [10] { strided::<2, S2>(dims(4), 12) }
    holds quick strided3 [10] { strided::<3, S3>(dims(3), 12) }
    holds quick strided4 [10] { strided::<4, Rank<4>>(dims(2), 6) }
    holds quick strided5 [10] {
        let d = dims(2);
        sym::assume(d.iter().all(|&x| x > 0));
        strided::<5, Rank<5>>(d, 3)
    }
    holds quick strided6 [10] { strided::<6, Rank<6>>([2, 2, 1, 2, 3, 1], 6) }
    holds thorough strided6_dims [10] {
        let d = dims(2);
        sym::assume(d.iter().all(|&x| x > 0));
        strided::<6, Rank<6>>(d, 6)
    }
    holds quick large1 [10] { large::<1, 255, Rank<1>>(255, 127) }
    holds quick large2 [10] { large::<2, 255, S2>(16, 63) }
    holds quick large3 [10] { large::<3, 127, S3>(5, 15) }
    holds quick large_dense2 [10] { large_dense::<2, 1024, S2>(64) }
    holds quick large_dense3 [10] { large_dense::<3, 512, S3>(16) }
    holds quick strided_mut2 [10] { strided_mut::<2, S2>(dims(4), 12) }
    holds quick strided_mut3 [10] { strided_mut::<3, S3>(dims(2), 12) }
    holds quick dense1 [10] { dense::<1, Rank<1>>(dims(8)) }
    holds quick dense2 [10] { dense::<2, S2>(dims(6)) }
    holds quick dense3 [10] { dense::<3, S3>(dims(3)) }
    holds quick dense4 [10] { dense::<4, Rank<4>>(dims(3)) }
    holds quick dense5 [10] { dense::<5, Rank<5>>(dims(2)) }
    holds quick dense6 [10] { dense::<6, Rank<6>>(dims(2)) }
    holds quick dense_mut2 [10] { dense_mut::<2, S2>(dims(5)) }
    holds quick dense_mut4 [10] { dense_mut::<4, Rank<4>>(dims(2)) }
    holds quick rank0 [10] {
        dense::<0, ()>([]);
        dense_mut::<0, ()>([]);
        let data = [0u8; 4];
        let b = sym::upto(3);
        let v = unsafe {
            View::<u8, (), Strided>::new_unchecked(data.as_ptr().add(b), StridedMapping::new((), &[]))
        };
        assert!(&v[[]] as *const u8 == at(&data, b) && &v[0] as *const u8 == at(&data, b));
    }
    holds quick dyn_rank [10] {
        strided::<2, DynRank>(dims(3), 8);
        dense_mut::<2, DynRank>(dims(4));
    }
    holds quick dyn_rank_13 [10] {
        dense::<3, DynRank>(dims(3));
        strided_mut::<1, DynRank>(dims(4), 8);
        dense::<0, DynRank>([]);
    }
    holds quick const_dims [10] {
        dense::<2, C23>([2, 3]);
        dense_mut::<2, C23>([2, 3]);
        strided::<2, C23>([2, 3], 10);
    }
    holds quick mixed_dims [10] {
        dense::<3, M23>([2, sym::upto(4), 3]);
        strided_mut::<3, M23>([2, sym::upto(4), 3], 6);
    }
    holds quick owned [40] {
        let mut t = DTensor::<u8, 2>::from([[1, 2, 3], [4, 5, 6]]);
        let mut a = Array::<u8, C23>::from([[1, 2, 3], [4, 5, 6]]);
        let l = Lay::dense([2, 3]);
        let i = l.index();
        let n = l.lin(&i);
        let x = n as u8 + 1;
        assert!(t[i] == x && t[&i[..]] == x && t[n] == x && t[n..][0] == x);
        assert!(a[i] == x && a[&i[..]] == x && a[n] == x && a[n..][0] == x);
        let y = sym::u8();
        t[i] = y;
        a[i] = y;
        let j = l.index();
        let z = if i == j { y } else { l.lin(&j) as u8 + 1 };
        assert!(t[j] == z && a[j] == z && a.0[j[0]][j[1]] == z);
        t[n] = x;
        a[&i[..]] = x;
        let m = l.lin(&j);
        assert!(t[j] == m as u8 + 1 && a[m] == m as u8 + 1);
    }
    holds quick wide_elem [10] {
        let data = [0u16; 24];
        let l = Lay::strided(dims::<2>(3), 24, 9);
        let v = l.view::<u16, S2>(&data);
        let i = l.index();
        assert!(&v[i] as *const u16 == at(&data, l.pos(&i)));
        assert!(&v[l.lin(&i)] as *const u16 == at(&data, l.pos(&i)));
    }
    holds quick range2 [10] {
        let mut data = [0u8; 12];
        let l = Lay::dense(dims::<2>(4));
        sym::assume(l.len() <= 12);
        let p = data.as_ptr();
        ranges(&mut l.dense_view_mut::<u8, S2>(&mut data), p);
    }
    holds quick range_dyn [10] {
        let mut data = [0u8; 12];
        let l = Lay::dense(dims::<3>(2));
        let p = data.as_ptr();
        ranges(&mut l.dense_view_mut::<u8, DynRank>(&mut data), p);
    }
    holds quick range_const [10] {
        let mut data = [0u8; 6];
        let l = Lay::dense([2, 3]);
        let p = data.as_ptr();
        ranges(&mut l.dense_view_mut::<u8, C23>(&mut data), p);
    }
    panics quick oob1 [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<1>(5), 32, 8);
        let v = l.view::<u8, Rank<1>>(&data);
        let i = bad(&l.d);
        before();
        let _ = &v[i];
    }
    panics quick oob3 [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 8);
        let v = l.view::<u8, S3>(&data);
        let i = bad(&l.d);
        before();
        let _ = &v[i];
    }
    panics quick oob3_mut [10] {
        let mut data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 8);
        let mut v = l.view_mut::<u8, S3>(&mut data);
        let i = bad(&l.d);
        before();
        let _ = &mut v[&i[..]];
    }
    panics quick oob_dense6 [10] {
        let data = [0u8; 64];
        let l = Lay::dense(dims::<6>(2));
        let v = l.dense_view::<u8, Rank<6>>(&data);
        let i = bad(&l.d);
        before();
        let _ = &v[&i[..]];
    }
    panics quick oob_dense2_mut [10] {
        let mut data = [0u8; 64];
        let l = Lay::dense(dims::<2>(6));
        let mut v = l.dense_view_mut::<u8, S2>(&mut data);
        let i = bad(&l.d);
        before();
        let _ = &mut v[i];
    }
    panics quick oob_const [10] {
        let mut a = Array::<u8, C23>::from([[0; 3]; 2]);
        let i = bad(&[2, 3]);
        before();
        if sym::any_bool() {
            let _ = &a[i];
        } else {
            let _ = &mut a[i];
        }
    }
    panics quick oob_dyn [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(3), 32, 8);
        let v = l.view::<u8, DynRank>(&data);
        let i = bad(&l.d);
        before();
        let _ = &v[i];
    }
    panics quick oob_linear_strided [10] {
        let mut data = [0u8; 32];
        let l = Lay::strided(dims::<3>(3), 32, 8);
        let mut v = l.view_mut::<u8, S3>(&mut data);
        let n = big(l.len());
        before();
        if sym::any_bool() {
            let _ = &v[n];
        } else {
            let _ = &mut v[n];
        }
    }
    panics quick oob_linear_dense [10] {
        let mut data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let mut v = l.dense_view_mut::<u8, S2>(&mut data);
        let n = big(l.len());
        before();
        if sym::any_bool() {
            let _ = &v[n];
        } else {
            let _ = &mut v[n];
        }
    }
    panics quick oob_linear_dyn [10] {
        let data = [0u8; 36];
        let l = Lay::dense(dims::<2>(6));
        let v = l.dense_view::<u8, DynRank>(&data);
        let n = big(l.len());
        before();
        let _ = &v[n];
    }
    panics quick wrong_rank [10] {
        let mut data = [0u8; 16];
        let l = Lay::dense(dims::<2>(4));
        let mut v = l.dense_view_mut::<u8, S2>(&mut data);
        let i = [0usize; 6];
        let n = sym::upto(6);
        sym::assume(n != 2);
        before();
        if sym::any_bool() {
            let _ = &v[&i[..n]];
        } else {
            let _ = &mut v[&i[..n]];
        }
    }
    panics quick wrong_rank_dyn [10] {
        let data = [0u8; 32];
        let l = Lay::strided(dims::<2>(3), 32, 8);
        let v = l.view::<u8, DynRank>(&data);
        let i = [0usize; 6];
        let n = sym::upto(6);
        sym::assume(n != 2);
        before();
        let _ = &v[&i[..n]];
    }
    panics quick bad_range [10] {
        let mut data = [0u8; 16];
        let l = Lay::dense(dims::<2>(4));
        let n = l.len();
        let mut v = l.dense_view_mut::<u8, S2>(&mut data);
        let (a, b) = (sym::usize(), sym::usize());
        let sel = sym::upto(6);
        if sel <= 1 {
            sym::assume(a > b || b > n);
        } else if sel == 2 {
            sym::assume(a > n);
        } else if sel == 3 {
            sym::assume(b > n);
        } else if sel == 4 {
            sym::assume(b >= n);
        } else {
            // The bound b is included: elements a..b + 1.
            sym::assume(b == usize::MAX || a > b + 1 || b >= n);
        }
        before();
        match sel {
            0 => { let _ = &v[a..b]; }
            1 => { let _ = &mut v[a..b]; }
            2 => { let _ = &v[a..]; }
            3 => { let _ = &mut v[..b]; }
            4 => { let _ = &v[..=b]; }
            5 => { let _ = &v[a..=b]; }
            _ => { let _ = &mut v[a..=b]; }
        }
    }
}
