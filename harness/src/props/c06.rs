//! C06: expressions: sources, adapters, broadcasting and evaluation.
//!
//! Bounds. Operands of rank 0-3 (dimensions up to 3, at most 12 elements; some
//! fixed shapes up to 21 elements), strided with symbolic
//! strides and base, dense, constant or dynamic rank; each element of the result is compared for
//! a symbolic index, by value (symbolic) or by the address it was taken from. Broadcasting of the
//! first or second operand by one or two dimensions, nested. Function sources: ranks 0-3 and
//! dynamic rank 0-3, number and order of calls. Rejected shapes: any dimensions up to 255 with
//! ranks 1-3. Outside: larger shapes, closures that panic.
use crate::model::{dims, Lay};
use crate::sym::{self, before};
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::*;

type P = *const u8;
type S2 = Rank<2>;
type S3 = Rank<3>;

fn add(p: P, n: usize) -> P {
    unsafe { p.add(n) }
}

/// Last Q indices.
fn inner<const R: usize, const Q: usize>(i: &[usize; R]) -> [usize; Q] {
    let mut x = [0; Q];
    for k in 0..Q {
        x[k] = i[R - Q + k];
    }
    x
}

/// zip of a with rank R and b with rank Q, evaluated to an array with rank M = max(R, Q).
fn zip<S: Shape, T: Shape, const R: usize, const Q: usize, const M: usize>(
    a: [usize; R],
    b: [usize; Q],
    m: [usize; M],
    smax: isize,
) {
    let (data, other) = ([0u8; 32], [0u8; 32]);
    let (p, q) = (data.as_ptr(), other.as_ptr());
    let (l, k) = (Lay::strided(a, 32, smax), Lay::strided(b, 32, smax));
    let n = Lay::dense(m);
    let (v, w) = (l.view::<u8, S>(&data), k.view::<u8, T>(&other));
    let mut count = 0;
    let x = expr::zip(v, w);
    assert!(x.rank() == M && x.len() == n.len());
    for d in 0..M {
        assert!(x.dim(d) == m[d]);
    }
    x.for_each(|(x, y)| {
        let i = n.unlin(count);
        assert!(x as P == add(p, l.pos(&inner(&i))));
        assert!(y as P == add(q, k.pos(&inner(&i))));
        count += 1;
    });
    assert!(count == n.len());
}

/// Elements of the result by address.
fn mapped<S: Shape, const R: usize>(d: [usize; R], smax: isize) {
    let data = [0u8; 32];
    let p = data.as_ptr();
    let l = Lay::strided(d, 32, smax);
    let v = l.view::<u8, S>(&data);
    let t: Tensor<P, S> = Tensor::from_expr(v.expr().map(|x| x as P));
    l.same_dims_as(&t);
    if l.len() > 0 {
        let i = l.index();
        assert!(t[i] == add(p, l.pos(&i)));
    }
}

impl<const R: usize> Lay<R> {
    fn same_dims_as<T, S: Shape>(&self, v: &Slice<T, S>) {
        assert!(v.rank() == R && v.len() == self.len());
        for k in 0..R {
            assert!(v.dim(k) == self.d[k]);
        }
    }
}

fn number(i: &[usize]) -> usize {
    let mut n = 0;
    for k in 0..i.len() {
        n = n * 10 + i[k] + 1;
    }
    n
}

fn from_fn<I: IntoShape, const R: usize>(shape: I, d: [usize; R]) {
    let n = Lay::dense(d);
    let mut calls = 0;
    let e = expr::from_fn(shape, |i| {
        calls += 1;
        number(i)
    });
    let mut count = 0;
    let mut it = e.into_iter();
    while let Some(x) = it.next() {
        assert!(count < n.len());
        assert!(x == number(&n.unlin(count)));
        count += 1;
    }
    drop(it);
    assert!(count == n.len() && calls == count);
}

harnesses! {
    holds quick map_0 [40] { mapped::<(), 0>([], 9) }
    holds quick map_2 [40] { mapped::<S2, 2>([2, 3], 9) }
    holds quick map_3 [40] { mapped::<S3, 3>([2, 1, 2], 9) }
    holds quick map_dyn [40] { mapped::<DynRank, 2>([2, 2], 9) }
    holds quick map_empty [40] { mapped::<S2, 2>([0, 3], 9); mapped::<S2, 2>([3, 0], 9); }
    holds quick map_const [40] {
        let x = [[sym::u8(), sym::u8()], [sym::u8(), sym::u8()]];
        let a = Array::<u8, (Const<2>, Const<2>)>::from(x);
        let mut n = 0usize;
        let b: Array<(usize, u8), (Const<2>, Const<2>)> = a
            .expr()
            .map(|x| {
                n += 1;
                (n, *x)
            })
            .eval();
        let i = Lay::dense([2, 2]).index();
        assert!(b[i] == (i[0] * 2 + i[1] + 1, x[i[0]][i[1]]));
        assert!(n == 4);
    }
    holds quick copied_cloned [40] {
        let data = [sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8()];
        let l = Lay::strided([2, 2], 6, 4);
        let v = l.view::<u8, S2>(&data);
        let i = l.index();
        let w = data[l.pos(&i)];
        match sym::upto(3) {
            0 => assert!(v.expr().copied().eval()[i] == w),
            1 => assert!(v.expr().cloned().eval()[i] == w),
            2 => assert!(expr::copied(v).eval()[i] == w),
            _ => assert!(expr::cloned(&v).eval()[i] == w),
        }
    }
    holds quick enumerate [40] {
        let data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided([2, 3], 32, 9);
        let v = l.view::<u8, S2>(&data);
        let t = v.expr().enumerate().eval();
        let i = l.index();
        assert!(t[i].0 == l.lin(&i));
        assert!(t[i].1 as P == add(p, l.pos(&i)));
    }
    holds quick enumerate_mut [40] {
        let mut data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided([3, 2], 32, 9);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        let mut n = 0;
        expr::enumerate(&mut v).for_each(|(k, x)| {
            assert!(k == n && x as P == add(p, l.pos(&l.unlin(n))));
            n += 1;
        });
        assert!(n == 6);
    }
    holds quick zip_1 [40] { zip::<Rank<1>, Rank<1>, 1, 1, 1>([4], [4], [4], 6) }
    holds quick zip_2 [40] { zip::<S2, S2, 2, 2, 2>([2, 3], [2, 3], [2, 3], 6) }
    holds quick zip_3 [40] { zip::<S3, S3, 3, 3, 3>([2, 1, 2], [2, 1, 2], [2, 1, 2], 6) }
    holds quick zip_2_1 [40] { zip::<S2, Rank<1>, 2, 1, 2>([2, 3], [3], [2, 3], 6) }
    holds quick zip_1_2 [40] { zip::<Rank<1>, S2, 1, 2, 2>([2], [3, 2], [3, 2], 6) }
    holds quick zip_3_2 [40] { zip::<S3, S2, 3, 2, 3>([2, 2, 2], [2, 2], [2, 2, 2], 5) }
    holds quick zip_1_3 [40] { zip::<Rank<1>, S3, 1, 3, 3>([2], [2, 2, 2], [2, 2, 2], 5) }
    holds quick zip_0_2 [40] { zip::<(), S2, 0, 2, 2>([], [2, 2], [2, 2], 6) }
    holds quick zip_2_0 [40] { zip::<S2, (), 2, 0, 2>([2, 2], [], [2, 2], 6) }
    holds quick zip_dyn [40] { zip::<DynRank, DynRank, 2, 1, 2>([2, 2], [2], [2, 2], 6) }
    holds quick zip_static_dyn [40] { zip::<Rank<1>, DynRank, 1, 2, 2>([2], [2, 2], [2, 2], 6) }
    holds quick zip_empty [40] {
        zip::<S2, Rank<1>, 2, 1, 2>([0, 3], [3], [0, 3], 6);
        zip::<S2, Rank<1>, 2, 1, 2>([3, 0], [0], [3, 0], 6);
        zip::<Rank<1>, S3, 1, 3, 3>([2], [2, 0, 2], [2, 0, 2], 6);
    }
    holds quick zip_dense_strided [40] {
        let (data, other) = ([0u8; 6], [0u8; 32]);
        let (p, q) = (data.as_ptr(), other.as_ptr());
        let (l, k) = (Lay::dense([2, 3]), Lay::strided([2, 3], 32, 9));
        let (v, w) = (l.dense_view::<u8, S2>(&data), k.view::<u8, S2>(&other));
        let t = if sym::any_bool() {
            expr::zip(v, w).map(|(x, y)| (x as P, y as P)).eval()
        } else {
            expr::zip(w, v).map(|(y, x)| (x as P, y as P)).eval()
        };
        let i = l.index();
        assert!(t[i] == (add(p, l.lin(&i)), add(q, k.pos(&i))));
    }
    holds quick zip_dense_broadcast [40] {
        let (data, other) = ([0u8; 12], [0u8; 3]);
        let (p, q) = (data.as_ptr(), other.as_ptr());
        let l = Lay::dense([2, 2, 3]);
        let (v, w) = (l.dense_view::<u8, S3>(&data), Lay::dense([3]).dense_view::<u8, Rank<1>>(&other));
        let t = if sym::any_bool() {
            v.expr().zip(w).map(|(x, y)| (x as P, y as P)).eval()
        } else {
            expr::zip(&w, &v).map(|(y, x)| (x as P, y as P)).eval()
        };
        let i = l.index();
        assert!(t[i] == (add(p, l.lin(&i)), add(q, i[2])));
    }
    holds quick zip_dense_scalar [40] {
        let (data, other) = ([0u8; 6], [0u8; 1]);
        let (p, q) = (data.as_ptr(), other.as_ptr());
        let l = Lay::dense([2, 3]);
        let (v, w) = (l.dense_view::<u8, S2>(&data), Lay::dense([]).dense_view::<u8, ()>(&other));
        let mut n = 0;
        v.expr().zip(w.expr()).for_each(|(x, y)| {
            assert!(x as P == add(p, n) && y as P == q);
            n += 1;
        });
        expr::zip(&w, &v).for_each(|(y, x)| {
            assert!(x as P == add(p, n - 6) && y as P == q);
            n += 1;
        });
        assert!(n == 12);
    }
    holds quick zip_scalar_owned [40] {
        let other = [0u8; 8];
        let q = other.as_ptr();
        let k = Lay::strided([2, 2], 8, 4);
        let w = k.view::<u8, S2>(&other);
        let a = Array::<u8, ()>(sym::u8());
        let mut n = 0;
        expr::zip(&a, &w).for_each(|(x, y)| {
            assert!(x as P == a.as_ptr() && y as P == add(q, k.pos(&k.unlin(n))));
            n += 1;
        });
        assert!(n == 4);
    }
    holds quick zip_dyn_scalar [10] {
        // The only expression that is stepped for each element.
        let (data, other) = ([0u8; 3], [0u8; 1]);
        let (p, q) = (data.as_ptr(), other.as_ptr());
        let v = Lay::dense([3]).dense_view::<u8, Rank<1>>(&data);
        let w = Lay::dense([]).dense_view::<u8, DynRank>(&other);
        let mut n = 0;
        w.zip(v).for_each(|(y, x)| {
            assert!(x as P == add(p, n) && y as P == q);
            n += 1;
        });
        assert!(n == 3);
    }
    holds quick zip_dyn_scalar_fn [10] {
        let other = [0u8; 1];
        let q = other.as_ptr();
        let w = Lay::dense([]).dense_view::<u8, DynRank>(&other);
        let mut n = 0;
        expr::from_fn([2, 2], |i| number(i)).zip(w).for_each(|(x, y)| {
            assert!(y as P == q && x == number(&[n / 2, n % 2]));
            n += 1;
        });
        assert!(n == 4);
    }
    holds quick larger_map [40] { mapped::<S2, 2>([3, 6], 4) }
    holds quick larger_zip [40] { zip::<S2, Rank<1>, 2, 1, 2>([3, 5], [5], [3, 5], 3) }
    holds quick larger_from_fn [40] { from_fn([3, 7], [3, 7]) }
    holds quick larger_from_fn_1 [40] { from_fn([20], [20]) }
    holds quick zip_nested [40] {
        let (data, other, third) = ([0u8; 16], [0u8; 16], [0u8; 16]);
        let (p, q, r) = (data.as_ptr(), other.as_ptr(), third.as_ptr());
        let (l, k, m) = (Lay::strided([2], 16, 5), Lay::strided([2, 2], 16, 5), Lay::strided([2], 16, 5));
        let (u, v, w) =
            (l.view::<u8, Rank<1>>(&data), k.view::<u8, S2>(&other), m.view::<u8, Rank<1>>(&third));
        let t = u.expr().zip(v.expr().zip(w)).map(|(x, (y, z))| (x as P, y as P, z as P)).eval();
        let i = k.index();
        assert!(t[i] == (add(p, l.pos(&[i[1]])), add(q, k.pos(&i)), add(r, m.pos(&[i[1]]))));
    }
    holds quick zip_const [40] {
        let x = [[sym::u8(), sym::u8(), 3], [4, sym::u8(), sym::u8()]];
        let y = [sym::u8(), 7, sym::u8()];
        let a = Array::<u8, (Const<2>, Const<3>)>::from(x);
        let b = Tensor::<u8, (Dyn,)>::from(&y[..]);
        let c: Array<(u8, u8), (Const<2>, Const<3>)> = expr::zip(&a, &b).map(|(x, y)| (*x, *y)).eval();
        let i = Lay::dense([2, 3]).index();
        assert!(c[i] == (x[i[0]][i[1]], y[i[1]]));
    }
    holds quick zip_mut [40] {
        let (mut data, other) = ([0u8; 16], [1u8, 2, 3, sym::u8()]);
        let l = Lay::strided_mut([2, 2], 16, 6);
        let mut v = l.view_mut::<u8, S2>(&mut data);
        let w = Lay::dense([2, 2]).dense_view::<u8, S2>(&other);
        v.expr_mut().zip(w).for_each(|(x, y)| *x = *y);
        let i = l.index();
        assert!(data[l.pos(&i)] == other[l.lin(&i)]);
    }
    holds quick fill [40] {
        let x = sym::u8();
        assert!(expr::fill(x).eval().into_scalar() == x);
        let data = [0u8; 4];
        let l = Lay::dense([2, 2]);
        let v = l.dense_view::<u8, S2>(&data);
        let t = v.expr().zip(expr::fill(x)).map(|(_, y)| y).eval();
        assert!(t[l.index()] == x);
        let t = expr::fill(x).zip(v).map(|(y, _)| y).eval();
        assert!(t[l.index()] == x);
    }
    holds quick fill_with [40] {
        let mut n = 0u8;
        let data = [0u8; 32];
        let l = Lay::strided([2, 2], 32, 6);
        let v = l.view::<u8, S2>(&data);
        let t = v
            .expr()
            .zip(expr::fill_with(|| {
                n += 1;
                n
            }))
            .map(|(_, y)| y)
            .eval();
        let i = l.index();
        assert!(t[i] as usize == l.lin(&i) + 1);
        assert!(n == 4);
    }
    holds quick from_elem [40] {
        let x = sym::u8();
        let i = Lay::dense([2, 3]).index();
        let t: Tensor<u8, S2> = expr::from_elem([2, 3], x).eval();
        Lay::dense([2, 3]).same_dims(&t);
        assert!(t[i] == x);
        let a: Array<u8, (Const<2>, Const<3>)> = expr::from_elem((Const::<2>, Const::<3>), x).eval();
        assert!(a[i] == x);
        let t: Tensor<u8> = expr::from_elem(&[2, 3], x).eval();
        Lay::dense([2, 3]).same_dims(&t);
        assert!(t[i] == x);
        assert!(expr::from_elem([0, 3], x).into_iter().next().is_none());
    }
    holds quick from_fn_0 [40] { from_fn([], []); from_fn(&[], []); }
    holds quick from_fn_1 [40] { from_fn([4], [4]); from_fn(&[3], [3]); from_fn([0], [0]); }
    holds quick from_fn_2 [40] { from_fn([2, 3], [2, 3]); from_fn([1, 2], [1, 2]); }
    holds quick from_fn_2_dyn [40] { from_fn(&[2, 3], [2, 3]); }
    holds quick from_fn_2_const [40] { from_fn((Const::<2>, Const::<2>), [2, 2]); from_fn((2, Const::<3>), [2, 3]); }
    holds quick from_fn_3 [40] { from_fn([2, 2, 2], [2, 2, 2]); }
    holds quick from_fn_3_dyn [40] { from_fn(&[2, 1, 3], [2, 1, 3]); }
    holds quick from_fn_empty [40] {
        from_fn([0, 3], [0, 3]);
        from_fn([3, 0], [3, 0]);
        from_fn(&[2, 0, 2], [2, 0, 2]);
    }
    holds quick from_fn_owned [40] {
        let i = Lay::dense([2, 3]).index();
        let t = Tensor::<usize, S2>::from_fn([2, 3], |i| number(i));
        assert!(t.shape() == &(2, 3) && t[i] == number(&i));
        let a = Array::<usize, (Const<2>, Const<3>)>::from_fn(|i| number(i));
        assert!(a[i] == number(&i));
        let t = Tensor::<usize>::from_fn(&[2, 3], |i| number(i));
        assert!(t.rank() == 2 && t.dim(0) == 2 && t.dim(1) == 3 && t[i] == number(&i));
    }
    holds quick from_elem_owned [40] {
        let i = Lay::dense([2, 3]).index();
        let x = sym::u8();
        let t = Tensor::<u8, S2>::from_elem([2, 3], x);
        assert!(t.shape() == &(2, 3) && t[i] == x);
        let a = Array::<u8, (Const<2>, Const<3>)>::from_elem(x);
        assert!(a[i] == x);
        let t = Tensor::<u8, S2>::from_elem([0, 3], x);
        assert!(t.shape() == &(0, 3) && t.is_empty());
    }
    holds quick from_fn_zip [40] {
        // Together with a strided array, and repeated.
        let data = [0u8; 32];
        let p = data.as_ptr();
        let l = Lay::strided([2, 3], 32, 6);
        let v = l.view::<u8, S2>(&data);
        let i = l.index();
        let t = v.expr().zip(expr::from_fn([2, 3], |i| number(i))).map(|(x, y)| (x as P, y)).eval();
        assert!(t[i] == (add(p, l.pos(&i)), number(&i)));
    }
    holds quick from_fn_repeat [40] {
        let data = [0u8; 12];
        let l = Lay::dense([2, 3]);
        let v = l.dense_view::<u8, S2>(&data);
        let i = l.index();
        let t = expr::from_fn([3], |i| number(i)).zip(v).map(|(x, _)| x).eval();
        assert!(t[i] == number(&i[1..]));
    }
    holds quick from_fn_repeat_3 [40] {
        let data = [0u8; 12];
        let l = Lay::dense([2, 2, 2]);
        let v = l.dense_view::<u8, S3>(&data);
        let i = l.index();
        let t = v.expr().zip(expr::from_fn([2, 2], |i| number(i))).map(|(_, x)| x).eval();
        assert!(t[i] == number(&i[1..]));
    }
    holds quick repeated_adapters [40] {
        // A mapped and zipped expression that is repeated.
        let (data, other) = ([0u8; 16], [0u8; 16]);
        let (p, q) = (data.as_ptr(), other.as_ptr());
        let (l, k) = (Lay::strided([2], 16, 5), Lay::strided([2], 16, 5));
        let (u, v) = (l.view::<u8, Rank<1>>(&data), k.view::<u8, Rank<1>>(&other));
        let e = u.expr().zip(v).map(|(x, y)| (x as P, y as P));
        let t = expr::from_elem([3, 2], ()).zip(e).map(|(_, x)| x).eval();
        let i = Lay::dense([3, 2]).index();
        assert!(t[i] == (add(p, l.pos(&[i[1]])), add(q, k.pos(&[i[1]]))));
    }
    holds quick apply [40] {
        let x = [[sym::u8(), sym::u8()], [sym::u8(), sym::u8()]];
        let a = Array::<u8, (Const<2>, Const<2>)>::from(x);
        let t = a.to_tensor();
        let i = Lay::dense([2, 2]).index();
        let w = x[i[0]][i[1]];
        match sym::upto(5) {
            0 => assert!((&a).apply(|x| *x ^ 1).eval()[i] == w ^ 1),
            1 => assert!(a.apply(|x| x ^ 1)[i] == w ^ 1),
            2 => assert!(t.apply(|x| x ^ 1)[i] == w ^ 1),
            3 => assert!((&t).apply(|x| *x ^ 1).eval()[i] == w ^ 1),
            4 => assert!(t.map(|x| x ^ 1)[i] == w ^ 1),
            _ => assert!(a.map(|x| (x, 1))[i] == (w, 1)),
        }
    }
    holds quick zip_with [40] {
        let x = [[sym::u8(), sym::u8()], [sym::u8(), sym::u8()]];
        let y = [sym::u8(), sym::u8()];
        let a = Array::<u8, (Const<2>, Const<2>)>::from(x);
        let b = Array::<u8, (Const<2>,)>::from(y);
        let i = Lay::dense([2, 2]).index();
        let w = (x[i[0]][i[1]], y[i[1]]);
        if sym::any_bool() {
            assert!((&a).zip_with(&b, |(x, y)| (*x, *y)).eval()[i] == w);
        } else {
            assert!(a.zip_with(b.expr(), |(x, y)| (x, *y))[i] == w);
        }
    }
    holds quick zip_with_tensor [40] {
        let x = [[sym::u8(), sym::u8()], [sym::u8(), sym::u8()]];
        let y = [sym::u8(), sym::u8()];
        let t = Tensor::<u8, S2>::from(x);
        let b = Array::<u8, (Const<2>,)>::from(y);
        let i = Lay::dense([2, 2]).index();
        let p = t.as_ptr();
        let t = t.zip_with(&b, |(x, y)| x.wrapping_mul(3) ^ *y);
        assert!(t[i] == x[i[0]][i[1]].wrapping_mul(3) ^ y[i[1]]);
        assert!(t.shape() == &(2, 2) && t.as_ptr() == p);
    }
    holds quick eval_into [40] {
        let data = [sym::u8(), sym::u8(), sym::u8(), sym::u8()];
        let v = Lay::dense([2, 2]).dense_view::<u8, S2>(&data);
        let mut t = Tensor::<u8, S2>::from_elem([1, 2], 9);
        v.expr().map(|x| *x).eval_into(&mut t);
        assert!(t.shape() == &(3, 2));
        let i = Lay::dense([3, 2]).index();
        assert!(t[i] == if i[0] == 0 { 9 } else { data[i[0] * 2 + i[1] - 2] });
    }
    panics quick mismatch_2_2 [40] {
        let (a, b) = (dims::<2>(255), dims::<2>(255));
        sym::assume(a != b);
        let x = expr::from_elem(a, ());
        let y = expr::from_elem(b, ());
        before();
        let _ = x.zip(y);
    }
    panics quick mismatch_2_1 [40] {
        let (a, b) = (dims::<2>(255), dims::<1>(255));
        sym::assume(a[1] != b[0]);
        before();
        if sym::any_bool() {
            let _ = expr::zip(expr::from_elem(a, ()), expr::from_elem(b, ()));
        } else {
            let _ = expr::zip(expr::from_elem(b, ()), expr::from_elem(a, ()));
        }
    }
    panics quick mismatch_3_2 [40] {
        let (a, b) = (dims::<3>(60), dims::<2>(60));
        sym::assume(a[1] != b[0] || a[2] != b[1]);
        before();
        if sym::any_bool() {
            let _ = expr::zip(expr::from_elem(a, ()), expr::from_elem(b, ()));
        } else {
            let _ = expr::zip(expr::from_elem(&b, ()), expr::from_elem(a, ()));
        }
    }
    panics quick mismatch_const [40] {
        let b = dims::<1>(255);
        sym::assume(b[0] != 3);
        let a = Array::<u8, (Const<2>, Const<3>)>::from([[0; 3]; 2]);
        before();
        let _ = expr::zip(&a, expr::from_elem(b, ()));
    }
    panics quick not_repeatable [40] {
        let n = sym::within(1, 3);
        let t = Tensor::<(), (Dyn,)>::from_elem([n], ());
        let e = expr::from_elem([2, n], ());
        before();
        if sym::any_bool() {
            let _ = expr::zip(t, e);
        } else {
            let _ = expr::zip(e, t);
        }
    }
    panics quick not_repeatable_mut [40] {
        let mut t = Tensor::<(), (Dyn,)>::from_elem([2], ());
        let e = expr::from_elem([2, 2], ());
        before();
        match sym::upto(2) {
            0 => { let _ = expr::zip(t.expr_mut(), e); }
            1 => { let _ = expr::zip(e, &mut t); }
            _ => { let _ = t.expr_mut().map(|x| x).zip(e); }
        }
    }
    panics quick not_repeatable_nested [40] {
        let t = Tensor::<(), (Dyn,)>::from_elem([2], ());
        let e = expr::from_elem([2, 2], ());
        let f = expr::from_elem([2], ());
        before();
        match sym::upto(2) {
            0 => { let _ = t.into_expr().zip(f).zip(e); }
            1 => { let _ = f.zip(t).zip(e); }
            _ => { let _ = e.zip(t.into_expr().enumerate()); }
        }
    }
    panics quick zip_with_mismatch [40] {
        let n = sym::usize();
        sym::assume(n != 2);
        let t = Tensor::<(), (Dyn,)>::from_elem([2], ());
        before();
        let _ = t.zip_with(expr::from_elem([n], ()), |_| ());
    }
    panics quick too_large [40] {
        let (a, b) = (sym::usize(), sym::upto(15));
        sym::assume(a as u128 * b as u128 > usize::MAX as u128);
        before();
        if sym::any_bool() {
            let _ = expr::from_elem([b, a], ());
        } else {
            let _ = expr::from_fn([a, b], |_| ());
        }
    }
}
