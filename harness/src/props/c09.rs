//! C09: draining a range of a tensor.
//!
//! Bounds. Tensors of rank 1 (5 elements), 2 ((3,2), (2,3), (2,0)), 3 ((3,1,2)) and dynamic rank,
//! with constant inner dimensions. Range bounds symbolic within the first dimension, all range
//! types; taken completely, as expression, partly (any number of elements) or not at all, or
//! leaked. Elements u8 with symbolic values and 8-byte elements. Rejected: any 64-bit bounds that
//! do not fit, rank 0, constant first dimension. Larger: (20), (6,3) and (9,2). Outside:
//! larger shapes.
use crate::model::{equals, tensor, Lay};
use crate::sym;
use mdarray::expr::Expression;
use mdarray::{Const, Dyn, DynRank, Shape, Tensor};
use std::ops::Bound;

const N: usize = 8;

fn data() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

/// Symbolic range.
fn range(n: usize) -> (usize, usize) {
    let (s, e) = (sym::upto(n), sym::upto(n));
    sym::assume(s <= e);
    (s, e)
}

/// The elements outside of the range remain.
fn remains<S: Shape, const R: usize>(t: &Tensor<u8, S>, a: &[u8], d: [usize; R], s: usize, e: usize) {
    let l = Lay::dense(d);
    let mut n = d;
    n[0] -= e - s;
    equals(t, n, |mut i| {
        if i[0] >= s {
            i[0] += e - s
        }
        a[l.lin(&i)]
    });
}

/// Takes `k` elements of the drained range, or all.
fn drain<S: Shape, const R: usize>(d: [usize; R], s: usize, e: usize, k: usize) {
    let a = data();
    let l = Lay::dense(d);
    let inner = if d[0] > 0 { l.len() / d[0] } else { 0 };
    let mut t = tensor::<u8, S, R>(&a, d, 1);
    let mut n = 0;
    let x = t.drain(s..e);
    assert!(x.len() == inner * (e - s));
    assert!(x.rank() == R && x.dim(0) == e - s);
    for (j, y) in x.into_iter().enumerate() {
        assert!(j < inner * (e - s));
        assert!(y == a[s * inner + j]);
        n += 1;
        if n == k {
            break;
        }
    }
    assert!(n == if k > 0 && k < inner * (e - s) { k } else { inner * (e - s) });
    remains(&t, &a, d, s, e);
}

/// Drained range is dropped without taking elements.
fn dropped<S: Shape, const R: usize>(d: [usize; R]) {
    let a = data();
    let (s, e) = range(d[0]);
    let mut t = tensor::<u8, S, R>(&a, d, 1);
    let _ = t.drain(s..e);
    remains(&t, &a, d, s, e);
}

type D1 = (Dyn,);
type D2 = (Dyn, Dyn);
type D3 = (Dyn, Dyn, Dyn);

/// Range in the given form.
fn dropped_by<R: std::ops::RangeBounds<usize>>(r: R, s: usize, e: usize) {
    let a = data();
    let mut t = tensor::<u8, D2, 2>(&a, [3, 2], 0);
    drop(t.drain(r));
    remains(&t, &a, [3, 2], s, e);
}

fn wide<const R: usize, S: Shape>(d: [usize; R]) {
    let b = data();
    let a = b.map(|x| [x as u64, 1 + x as u64]);
    let (s, e) = range(d[0]);
    let mut t = tensor::<[u64; 2], S, R>(&a, d, 0);
    drop(t.drain(s..e));
    let l = Lay::dense(d);
    let mut n = d;
    n[0] -= e - s;
    equals(&t, n, |mut i| {
        if i[0] >= s {
            i[0] += e - s
        }
        a[l.lin(&i)]
    });
}

harnesses! {
    holds quick all_1 [20] { let (s, e) = range(4); drain::<D1, 1>([4], s, e, 0); }
    holds quick all_2 [20] { let (s, e) = range(3); drain::<D2, 2>([3, 2], s, e, 0); }
    holds quick all_3 [20] { let (s, e) = range(2); drain::<D3, 3>([2, 2, 2], s, e, 0); }
    holds quick all_dyn [20] { let (s, e) = range(2); drain::<DynRank, 2>([2, 2], s, e, 0); }
    holds quick all_const [20] { let (s, e) = range(3); drain::<(Dyn, Const<2>), 2>([3, 2], s, e, 0); }
    holds quick all_empty [20] {
        let (s, e) = range(2);
        drain::<D2, 2>([2, 0], s, e, 0);
        drain::<D2, 2>([0, 2], 0, 0, 0);
    }
    holds quick partial_1 [20] {
        let (s, e) = range(4);
        let k = sym::within(1, 4);
        drain::<D1, 1>([4], s, e, k);
    }
    holds quick partial_2 [20] {
        let k = sym::within(1, 4);
        let s = sym::upto(1);
        drain::<D2, 2>([3, 2], s, s + 2, k);
    }
    holds thorough partial_2_any [20] {
        let (s, e) = range(3);
        let k = sym::within(1, 6);
        drain::<D2, 2>([3, 2], s, e, k);
    }
    holds thorough partial_3 [20] {
        let (s, e) = range(2);
        let k = sym::within(1, 8);
        drain::<DynRank, 3>([2, 2, 2], s, e, k);
    }
    holds quick larger_1 [30] {
        let a: [u8; 20] = std::array::from_fn(|_| sym::u8());
        let s = sym::upto(20);
        let mut t = tensor::<u8, D1, 1>(&a, [20], 0);
        let e = sym::upto(20);
        sym::assume(s <= e);
        drop(t.drain(s..e));
        remains(&t, &a, [20], s, e);
    }
    holds quick larger_2 [30] {
        let a: [u8; 18] = std::array::from_fn(|_| sym::u8());
        let (s, e) = range(6);
        let mut t = tensor::<u8, D2, 2>(&a, [6, 3], 1);
        drop(t.drain(s..e));
        remains(&t, &a, [6, 3], s, e);
    }
    holds quick larger_taken [30] {
        let a: [u8; 18] = std::array::from_fn(|_| sym::u8());
        let mut t = tensor::<u8, D2, 2>(&a, [9, 2], 0);
        let mut n = 0;
        for (j, y) in t.drain(1..7).into_iter().enumerate() {
            assert!(y == a[2 + j]);
            n += 1;
        }
        assert!(n == 12);
        remains(&t, &a, [9, 2], 1, 7);
    }
    holds quick dropped_1 [20] { dropped::<D1, 1>([5]); }
    holds quick dropped_2 [20] { dropped::<D2, 2>([4, 2]); }
    holds quick dropped_2_dyn [20] { dropped::<DynRank, 2>([3, 2]); }
    holds quick dropped_3 [20] { dropped::<D3, 3>([4, 1, 2]); }
    holds quick dropped_empty [20] { dropped::<D2, 2>([3, 0]); }
    holds quick dropped_const [20] { dropped::<(Dyn, Const<2>, Dyn), 3>([2, 2, 2]); }
    holds quick dropped_wide_1 [20] { wide::<1, D1>([4]); }
    holds quick dropped_wide_2 [20] { wide::<2, D2>([3, 2]); }
    holds quick leaked [20] {
        // A leaked range leaves the elements before it.
        let a = data();
        let (s, e) = range(4);
        let mut t = tensor::<u8, D2, 2>(&a, [4, 2], 0);
        std::mem::forget(t.drain(s..e));
        equals(&t, [s, 2], |i| a[i[0] * 2 + i[1]]);
    }
    holds quick leaked_partly [20] {
        let a = data();
        let (s, e) = range(3);
        let mut t = tensor::<u8, D1, 1>(&a, [3], 0);
        let mut i = t.drain(s..e).into_iter();
        let x = i.next();
        assert!(x == if s < e { Some(a[s]) } else { None });
        std::mem::forget(i);
        equals(&t, [s], |i| a[i[0]]);
    }
    holds quick leaked_then_used [20] {
        let a = data();
        let (s, e) = range(3);
        let mut t = tensor::<u8, D1, 1>(&a, [3], 0);
        std::mem::forget(t.drain(s..e));
        t.extend([7, 8]);
        equals(&t, [s + 2], |i| if i[0] < s { a[i[0]] } else { (7 + i[0] - s) as u8 });
    }
    holds quick range_full [20] { dropped_by(.., 0, 3); }
    holds quick range_from [20] { let s = sym::upto(3); dropped_by(s.., s, 3); }
    holds quick range_to [20] { let e = sym::upto(3); dropped_by(..e, 0, e); }
    holds quick range_incl [20] {
        let (s, e) = range(2);
        dropped_by(s..=e, s, e + 1);
    }
    holds quick range_to_incl [20] { let e = sym::upto(2); dropped_by(..=e, 0, e + 1); }
    holds quick range_bounds [20] {
        let (s, e) = range(3);
        sym::assume(s > 0);
        dropped_by((Bound::Excluded(s - 1), Bound::Excluded(e)), s, e);
    }
    holds quick collect [20] {
        // The drained range as an expression.
        let a = data();
        let mut t = tensor::<u8, D2, 2>(&a, [3, 2], 0);
        let s = sym::upto(1);
        let u = t.drain(s..s + 2).map(|x| x ^ 1).eval();
        equals(&u, [2, 2], |i| a[(s + i[0]) * 2 + i[1]] ^ 1);
        remains(&t, &a, [3, 2], s, s + 2);
    }
    holds quick zipped [20] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [3, 2], 0);
        let s = 1;
        let v = Lay::dense([2]);
        let v = v.dense_view::<u8, D1>(&b);
        let mut n = 0;
        t.drain(s..s + 1).zip(&v).for_each(|(x, y)| {
            assert!(x == a[s * 2 + n]);
            assert!(*y == b[n]);
            n += 1;
        });
        assert!(n == 2);
        remains(&t, &a, [3, 2], s, s + 1);
    }
    holds quick twice [20] {
        let a = data();
        let mut t = tensor::<u8, D1, 1>(&a, [5], 0);
        let (s, e) = range(5);
        drop(t.drain(s..e));
        let n = 5 - (e - s);
        let (p, q) = range(5);
        sym::assume(q <= n);
        drop(t.drain(p..q));
        equals(&t, [n - (q - p)], |i| {
            let i = if i[0] >= p { i[0] + (q - p) } else { i[0] };
            a[if i >= s { i + (e - s) } else { i }]
        });
    }

    panics quick bad_range [20] {
        let mut t = tensor::<u8, D2, 2>(&data(), [3, 2], 0);
        let (s, e) = (sym::usize(), sym::usize());
        sym::assume(s > e || e > 3);
        sym::before();
        drop(t.drain(s..e));
    }
    panics quick bad_range_dyn [20] {
        let mut t = tensor::<u8, DynRank, 1>(&data(), [3], 0);
        let (s, e) = (sym::usize(), sym::usize());
        sym::assume(s > e || e > 3);
        sym::before();
        drop(t.drain(s..e));
    }
    panics quick bad_from [20] {
        let mut t = tensor::<u8, D1, 1>(&data(), [3], 0);
        let s = sym::usize();
        sym::assume(s > 3);
        sym::before();
        drop(t.drain(s..));
    }
    panics quick bad_to [20] {
        let mut t = tensor::<u8, D1, 1>(&data(), [3], 0);
        let e = sym::usize();
        sym::assume(e > 3);
        sym::before();
        drop(t.drain(..e));
    }
    panics quick bad_incl [20] {
        let mut t = tensor::<u8, D1, 1>(&data(), [3], 0);
        let (s, e) = (sym::usize(), sym::usize());
        sym::assume(e >= 3 || s > e + 1);
        sym::before();
        drop(t.drain(s..=e));
    }
    panics quick bad_bounds [20] {
        let mut t = tensor::<u8, D1, 1>(&data(), [3], 0);
        let (s, e) = (sym::usize(), sym::usize());
        sym::assume(e > 3 || s >= e);
        sym::before();
        drop(t.drain((Bound::Excluded(s), Bound::Excluded(e))));
    }
    panics quick bad_rank [20] {
        let mut t = tensor::<u8, DynRank, 0>(&data(), [], 0);
        sym::before();
        drop(t.drain(..));
    }
    panics quick bad_const [20] {
        let mut t = tensor::<u8, (Const<2>, Dyn), 2>(&data(), [2, 2], 0);
        sym::before();
        drop(t.drain(..));
    }
}
