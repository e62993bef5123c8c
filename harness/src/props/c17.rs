//! C17: copies.
//!
//! Bounds. Tensors, inline arrays and dense views of rank 0-3 and dynamic rank with up to 8
//! elements (some with up to 18) from the sets of shapes in the harnesses, all element values; strided views of rank
//! 0-3 and dynamic rank with symbolic strides and base; subarrays of a 3 x 3 and a 2 x 2 x 2
//! array with any range. Replaced targets: tensors with more, fewer or the same number of
//! elements and another shape, with and without spare capacity. Elements count how often they
//! have been cloned. Outside: larger shapes, other element types.
use crate::model::{equals, Lay};
use crate::sym;
use mdarray::expr::{Expression, IntoExpression};
use mdarray::*;

type S0 = Rank<0>;
type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;

/// Element with value and number of times that it has been cloned.
#[derive(PartialEq, Debug)]
struct E(u8, u8);

impl Clone for E {
    fn clone(&self) -> Self {
        E(self.0, self.1 + 1)
    }
}

fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

fn elems<const N: usize>(f: &[u8; N]) -> [E; N] {
    std::array::from_fn(|k| E(f[k], 0))
}

fn owned<S: Shape, const R: usize>(f: &[u8], d: [usize; R], spare: usize) -> Tensor<E, S> {
    let n = Lay::dense(d).len();
    let mut v = Vec::with_capacity(n + spare);
    for k in 0..n {
        v.push(E(f[k], 0));
    }
    Tensor::from(v).into_shape(S::from_dims(&d))
}

/// The tensor has the elements, and each has been cloned.
fn copied<S: Shape, const R: usize>(v: &Slice<E, S>, d: [usize; R], f: impl Fn([usize; R]) -> u8) {
    equals(v, d, |i| E(f(i), v[i].1.max(1)));
}

/// Clone of a tensor: equal, in its own memory, the original is as before.
fn clone<S: Shape, const R: usize, const N: usize>(d: [usize; R], spare: usize) {
    let f = bytes::<N>();
    let l = Lay::dense(d);
    let a = owned::<S, R>(&f, d, spare);
    let mut b = a.clone();
    copied(&b, d, |i| f[l.lin(&i)]);
    assert!(b.capacity() >= l.len());
    if l.len() > 0 {
        b[l.index()] = E(sym::u8(), 7);
    }
    equals(&a, d, |i| E(f[l.lin(&i)], 0));
}

/// Replacement of a tensor by a clone.
fn clone_from<S: Shape, const R: usize, const K: usize, const N: usize>(
    d: [usize; R],
    e: [usize; K],
    spare: usize,
) {
    let (f, g) = (bytes::<N>(), bytes::<N>());
    let (l, m) = (Lay::dense(d), Lay::dense(e));
    let mut a = owned::<S, R>(&f, d, spare);
    let b = owned::<S, K>(&g, e, 0);
    a.clone_from(&b);
    copied(&a, e, |i| g[m.lin(&i)]);
    assert!(a.capacity() >= m.len());
    if m.len() > 0 {
        a[m.index()] = E(sym::u8(), 7);
    }
    equals(&b, e, |i| E(g[m.lin(&i)], 0));
    let _ = l;
}

fn clone_into<S: Shape<Owned<E> = Tensor<E, S>>, const R: usize, const K: usize, const N: usize>(
    d: [usize; R],
    e: [usize; K],
    spare: usize,
) {
    let (f, g) = (bytes::<N>(), elems(&bytes::<N>()));
    let m = Lay::dense(e);
    let mut a = owned::<S, R>(&f, d, spare);
    let v = m.dense_view::<E, S>(&g);
    (*v).clone_into(&mut a);
    copied(&a, e, |i| g[m.lin(&i)].0);
    assert!(a.capacity() >= m.len());
}

/// Copies of a strided view.
fn to_tensor<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let g = elems(&bytes::<N>());
    let l = Lay::strided(d, N, smax);
    let t = l.view::<E, S>(&g).to_tensor();
    copied(&t, d, |i| g[l.pos(&i)].0);
    assert!(t.capacity() >= l.len());
}

fn to_vec<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let g = elems(&bytes::<N>());
    let l = Lay::strided(d, N, smax);
    let v = l.view::<E, S>(&g).to_vec();
    assert!(v.len() == l.len());
    if l.len() > 0 {
        let i = l.index();
        assert!(v[l.lin(&i)].0 == g[l.pos(&i)].0 && v[l.lin(&i)].1 > 0);
    }
}

fn to_array<S: ConstShape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let g = elems(&bytes::<N>());
    let l = Lay::strided(d, N, smax);
    let a = l.view::<E, S>(&g).to_array();
    copied(&a, d, |i| g[l.pos(&i)].0);
    let b = Array::<E, S>::from(l.view::<E, S>(&g));
    copied(&b, d, |i| g[l.pos(&i)].0);
}

fn to_owned<S: Shape<Owned<E> = Tensor<E, S>>, const R: usize, const N: usize>(d: [usize; R]) {
    let g = elems(&bytes::<N>());
    let l = Lay::dense(d);
    let t: Tensor<E, S> = (*l.dense_view::<E, S>(&g)).to_owned();
    copied(&t, d, |i| g[l.lin(&i)].0);
}

/// The items are the subarrays for each index in dimension k.
fn items<'a, L: Layout, X: Expression + IntoIterator<Item = View<'a, E, S1, L>>>(
    e: X,
    l: &Lay<2>,
    k: usize,
    p: *const E,
) {
    assert!(e.len() == l.d[k]);
    let mut n = 0;
    e.for_each(|x| {
        l.removed::<1>(k, n).agrees(&x, p);
        n += 1;
    });
    assert!(n == l.d[k]);
}

fn array_22(f: &[u8; 4]) -> Array<E, (Const<2>, Const<2>)> {
    let [a, b, c, d] = elems(f);
    Array([[a, b], [c, d]])
}

harnesses! {
    holds quick clone_0 [12] { clone::<S0, 0, 1>([], 0); }
    holds quick clone_1 [12] { clone::<S1, 1, 3>([3], 1); }
    holds quick clone_1_empty [12] { clone::<S1, 1, 1>([0], 2); }
    holds quick clone_2 [20] { clone::<S2, 2, 6>([2, 3], 0); }
    holds quick clone_2_const [20] { clone::<(Dyn, Const<2>), 2, 6>([3, 2], 1); }
    holds quick clone_2_empty [20] { clone::<S2, 2, 1>([0, 3], 0); }
    holds quick clone_3 [26] { clone::<S3, 3, 8>([2, 2, 2], 1); }
    holds quick clone_larger [22] { clone::<S2, 2, 15>([3, 5], 1); }
    holds quick from_larger [22] { clone_from::<S2, 2, 2, 18>([7, 2], [3, 6], 0); }
    holds quick clone_dyn_2 [20] { clone::<DynRank, 2, 6>([3, 2], 0); }
    holds quick clone_dyn_3 [26] { clone::<DynRank, 3, 4>([1, 2, 2], 0); }

    holds quick from_1_grow [12] { clone_from::<S1, 1, 1, 4>([2], [4], 0); }
    holds quick from_1_spare [12] { clone_from::<S1, 1, 1, 4>([2], [4], 3); }
    holds quick from_1_shrink [12] { clone_from::<S1, 1, 1, 4>([4], [1], 0); }
    holds quick from_1_empty [12] { clone_from::<S1, 1, 1, 4>([3], [0], 0); }
    holds quick from_2_same [20] { clone_from::<S2, 2, 2, 6>([2, 3], [3, 2], 0); }
    holds quick from_2_grow [20] { clone_from::<S2, 2, 2, 6>([1, 3], [2, 3], 1); }
    holds quick from_2_shrink [20] { clone_from::<S2, 2, 2, 6>([2, 3], [2, 1], 0); }
    holds quick from_3 [26] { clone_from::<S3, 3, 3, 8>([1, 2, 2], [2, 2, 2], 0); }
    holds quick from_dyn_up [26] { clone_from::<DynRank, 1, 2, 6>([4], [2, 3], 0); }
    holds quick from_dyn_down [26] { clone_from::<DynRank, 3, 1, 6>([1, 2, 3], [4], 0); }
    holds quick from_dyn_same [26] { clone_from::<DynRank, 2, 2, 6>([2, 3], [3, 1], 0); }

    holds quick into_1_grow [12] { clone_into::<S1, 1, 1, 4>([1], [4], 0); }
    holds quick into_1_shrink [12] { clone_into::<S1, 1, 1, 4>([4], [2], 0); }
    holds quick into_2_same [20] { clone_into::<S2, 2, 2, 6>([2, 3], [3, 2], 0); }
    holds quick into_2_grow [20] { clone_into::<S2, 2, 2, 6>([1, 2], [2, 3], 4); }
    holds quick into_2_empty [20] { clone_into::<S2, 2, 2, 6>([2, 2], [3, 0], 0); }
    holds quick into_3_shrink [26] { clone_into::<S3, 3, 3, 8>([2, 2, 2], [1, 2, 2], 0); }
    holds quick into_dyn [26] { clone_into::<DynRank, 1, 2, 6>([4], [2, 3], 0); }
    holds quick into_array [20] {
        let (f, g) = (bytes::<4>(), elems(&bytes::<4>()));
        let mut a = array_22(&f);
        let m = Lay::dense([2, 2]);
        let v = m.dense_view::<E, (Const<2>, Const<2>)>(&g);
        (*v).clone_into(&mut a);
        copied(&a, [2, 2], |i| g[m.lin(&i)].0);
    }

    holds quick tensor_0 [12] { to_tensor::<S0, 0, 2>([], 0); }
    holds quick tensor_1 [12] { split!(a in 1..=3, { to_tensor::<S1, 1, 5>([a], 3) }); }
    holds quick tensor_2_22 [20] { to_tensor::<S2, 2, 8>([2, 2], 5); }
    holds quick tensor_2_13 [20] { to_tensor::<S2, 2, 8>([1, 3], 5); }
    holds quick tensor_2_32 [20] { to_tensor::<S2, 2, 8>([3, 2], 3); }
    holds quick tensor_2_03 [20] { to_tensor::<S2, 2, 4>([0, 3], 3); }
    holds quick tensor_2_30 [20] { to_tensor::<S2, 2, 4>([3, 0], 3); }
    holds quick tensor_2_const [20] { to_tensor::<(Const<2>, Dyn), 2, 8>([2, 2], 5); }
    holds quick tensor_3 [26] { to_tensor::<S3, 3, 8>([2, 2, 2], 4); }
    holds quick tensor_3_212 [26] { to_tensor::<S3, 3, 8>([2, 1, 2], 4); }
    holds quick tensor_dyn [26] { to_tensor::<DynRank, 2, 8>([2, 2], 5); }
    holds thorough tensor_3_232 [26] { to_tensor::<S3, 3, 12>([2, 3, 2], 6); }
    holds quick vec_1 [12] { split!(a in 1..=3, { to_vec::<S1, 1, 5>([a], 3) }); }
    holds quick vec_2 [20] { to_vec::<S2, 2, 8>([2, 3], 4); }
    holds quick vec_3 [26] { to_vec::<S3, 3, 8>([2, 1, 2], 4); }
    holds quick array_1 [12] { to_array::<(Const<3>,), 1, 5>([3], 3); }
    holds quick array_2 [20] { to_array::<(Const<2>, Const<3>), 2, 8>([2, 3], 4); }
    holds quick array_3 [26] { to_array::<(Const<2>, Const<1>, Const<2>), 3, 8>([2, 1, 2], 4); }
    holds quick owned_1 [12] { split!(a in 1..=3, { to_owned::<S1, 1, 3>([a]) }); }
    holds quick owned_2 [20] { to_owned::<S2, 2, 6>([2, 3]); }
    holds quick owned_2_empty [20] { to_owned::<S2, 2, 1>([2, 0]); }
    holds quick owned_3 [26] { to_owned::<S3, 3, 8>([2, 2, 2]); }
    holds quick owned_dyn [26] { to_owned::<DynRank, 2, 6>([2, 3]); }
    holds quick owned_array [20] {
        let g = elems(&bytes::<4>());
        let m = Lay::dense([2, 2]);
        let v = m.dense_view::<E, (Const<2>, Const<2>)>(&g);
        let a: Array<E, (Const<2>, Const<2>)> = (*v).to_owned();
        copied(&a, [2, 2], |i| g[m.lin(&i)].0);
    }

    holds quick sub_rows [20] {
        let g = elems(&bytes::<9>());
        let v = Lay::dense([3, 3]);
        let v = v.dense_view::<E, S2>(&g);
        split!(a in 0..=2, {
            let t = v.tensor(a..3, 1..);
            copied(&t, [3 - a, 2], |i| g[3 * (a + i[0]) + i[1] + 1].0);
        });
    }
    holds quick sub_rows_to [20] {
        let g = elems(&bytes::<9>());
        let v = Lay::dense([3, 3]);
        let v = v.dense_view::<E, S2>(&g);
        split!(b in 1..=2, {
            let t = v.tensor(..b, ..2);
            copied(&t, [b, 2], |i| g[3 * i[0] + i[1]].0);
        });
    }
    holds quick sub_col [20] {
        let g = elems(&bytes::<9>());
        let v = Lay::dense([3, 3]);
        let v = v.dense_view::<E, S2>(&g);
        let j = sym::upto(2);
        let t = v.tensor(.., j);
        copied(&t, [3], |i| g[3 * i[0] + j].0);
    }
    holds quick sub_step [20] {
        let g = elems(&bytes::<9>());
        let v = Lay::dense([3, 3]);
        let v = v.dense_view::<E, S2>(&g);
        let t = v.tensor(mdarray::step(.., -2), 0..2);
        copied(&t, [2, 2], |i| g[3 * (2 - 2 * i[0]) + i[1]].0);
    }
    holds quick sub_array [20] {
        let g = elems(&bytes::<9>());
        let v = Lay::dense([3, 3]);
        let v = v.dense_view::<E, (Const<3>, Const<3>)>(&g);
        let j = sym::upto(2);
        let a = v.array(.., j);
        copied(&a, [3], |i| g[3 * i[0] + j].0);
        let a = v.array(j, ..);
        copied(&a, [3], |i| g[3 * j + i[0]].0);
        let a = v.array(.., ..);
        copied(&a, [3, 3], |i| g[3 * i[0] + i[1]].0);
    }
    holds quick sub_3 [20] {
        let g = elems(&bytes::<8>());
        let v = Lay::dense([2, 2, 2]);
        let v = v.dense_view::<E, S3>(&g);
        let (i, j) = (sym::upto(1), sym::upto(1));
        let t = v.tensor(i, .., j);
        copied(&t, [2], |k| g[4 * i + 2 * k[0] + j].0);
        let t = v.tensor(.., j, ..);
        copied(&t, [2, 2], |k| g[4 * k[0] + 2 * j + k[1]].0);
    }

    holds quick array_clone [20] {
        let f = bytes::<4>();
        let a = array_22(&f);
        let mut b = a.clone();
        copied(&b, [2, 2], |i| f[2 * i[0] + i[1]]);
        b[[sym::upto(1), sym::upto(1)]] = E(3, 7);
        equals(&a, [2, 2], |i| E(f[2 * i[0] + i[1]], 0));
        b.clone_from(&a);
        copied(&b, [2, 2], |i| f[2 * i[0] + i[1]]);
    }
    holds quick view_clone [20] {
        let g = elems(&bytes::<6>());
        let l = Lay::strided([2, 2], 6, 4);
        let v = l.view::<E, S2>(&g);
        let w = v.clone();
        l.agrees(&w, g.as_ptr());
        l.agrees(&v, g.as_ptr());
        let m = Lay::strided([sym::upto(2), sym::upto(2)], 6, 4);
        let mut x = m.view::<E, S2>(&g);
        x.clone_from(&v);
        l.agrees(&x, g.as_ptr());
    }
    holds quick view_clone_dyn [26] {
        let g = elems(&bytes::<6>());
        let l = Lay::strided([2, 2], 6, 4);
        let v = l.view::<E, DynRank>(&g);
        let w = v.clone();
        l.agrees(&w, g.as_ptr());
        let m = Lay::strided([sym::upto(2)], 6, 4);
        let mut x = m.view::<E, DynRank>(&g);
        x.clone_from(&v);
        l.agrees(&x, g.as_ptr());
    }
    holds quick expr_clone [20] {
        let f = bytes::<4>();
        let a = owned::<S2, 2>(&f, [2, 2], 0).into_expr();
        let b = a.clone();
        let t: Tensor<E, S2> = b.eval();
        copied(&t, [2, 2], |i| f[2 * i[0] + i[1]]);
        let t: Tensor<E, S2> = a.eval();
        equals(&t, [2, 2], |i| E(f[2 * i[0] + i[1]], 0));
    }
    holds quick axis_expr_clone [20] {
        let g = elems(&bytes::<8>());
        let l = Lay { d: [2, 2], s: [-3, 4], base: 3 };
        let m = Lay { d: [3, 1], s: [2, 1], base: 1 };
        let (v, w) = (l.view::<E, S2>(&g), m.view::<E, S2>(&g));
        let a = v.outer_expr();
        let mut b = w.outer_expr();
        let c = a.clone();
        b.clone_from(&a);
        items(b, &l, 0, g.as_ptr());
        items(c, &l, 0, g.as_ptr());
    }
    holds quick lanes_clone [20] {
        let g = elems(&bytes::<8>());
        let l = Lay { d: [2, 2], s: [-3, 4], base: 3 };
        let m = Lay { d: [3, 1], s: [2, 1], base: 1 };
        let (v, w) = (l.view::<E, S2>(&g), m.view::<E, S2>(&g));
        let a = v.rows();
        let mut b = w.rows();
        let c = a.clone();
        b.clone_from(&a);
        items(b, &l, 0, g.as_ptr());
        items(c, &l, 0, g.as_ptr());
    }
    holds quick axis_clone_dyn [20] {
        // The axis is copied too.
        let g = elems(&bytes::<6>());
        let l = Lay::dense([2, 3]);
        let v = l.dense_view::<E, S2>(&g);
        let mut e = v.axis_expr(0);
        e.clone_from(&v.axis_expr(1));
        items(e, &l, 1, g.as_ptr());
    }
    holds quick lanes_clone_dyn [20] {
        let g = elems(&bytes::<6>());
        let l = Lay::dense([2, 3]);
        let v = l.dense_view::<E, S2>(&g);
        let mut e = v.lanes(0);
        e.clone_from(&v.lanes(1));
        items(e, &l, 0, g.as_ptr());
    }
    holds quick iter_clone [20] {
        // Part way through, the copy continues from the same place and both are independent.
        let g = elems(&bytes::<8>());
        let l = Lay { d: [2, 2], s: [5, 2], base: 0 };
        let v = l.view::<E, S2>(&g);
        let mut it = v.iter();
        it.next();
        let mut other = it.clone();
        assert!(other.len() == 3);
        let x = other.next().unwrap();
        assert!(x as *const E == &g[2]);
        let x = other.next().unwrap();
        assert!(x as *const E == &g[5]);
        let x = it.next().unwrap();
        assert!(x as *const E == &g[2]);
        let mut third = v.iter();
        third.clone_from(&other);
        let x = third.next().unwrap();
        assert!(x as *const E == &g[7]);
        assert!(third.next().is_none() && it.len() == 2 && other.len() == 1);
    }
    holds quick cloned_eval [20] {
        let g = elems(&bytes::<8>());
        let l = Lay::strided([2, 2], 8, 5);
        let t: Tensor<E, S2> = l.view::<E, S2>(&g).cloned().eval();
        copied(&t, [2, 2], |i| g[l.pos(&i)].0);
    }
    holds quick into_cloned [12] {
        let x = E(sym::u8(), 0);
        let y: E = (&x).into_cloned();
        assert!(y.0 == x.0 && y.1 > 0);
        let mut z = E(sym::u8(), 9);
        (&x).clone_to(&mut z);
        assert!(z.0 == x.0 && z.1 > 0 && x.1 == 0);
        let w = x.0;
        x.clone_to(&mut z);
        assert!(z == E(w, 0));
        let z: E = z.into_cloned();
        assert!(z == E(w, 0));
    }
    holds quick assign_cloned [20] {
        let (f, g) = (bytes::<4>(), elems(&bytes::<8>()));
        let mut t = owned::<S2, 2>(&f, [2, 2], 0);
        let l = Lay::strided([2, 2], 8, 5);
        t.assign(l.view::<E, S2>(&g));
        copied(&t, [2, 2], |i| g[l.pos(&i)].0);
    }
    holds quick fill_cloned [20] {
        let (f, x) = (bytes::<4>(), sym::u8());
        let mut t = owned::<S2, 2>(&f, [2, 2], 0);
        t.fill(E(x, 0));
        equals(&t, [2, 2], |i| E(x, t[i].1));
    }
    holds quick from_elem [20] {
        let x = sym::u8();
        let t = Tensor::<E, S2>::from_elem([2, 2], E(x, 0));
        equals(&t, [2, 2], |i| E(x, t[i].1));
        let a = Array::<E, (Const<2>, Const<2>)>::from_elem(E(x, 0));
        equals(&a, [2, 2], |i| E(x, a[i].1));
    }
    panics quick expr_in_use [12] {
        let f = bytes::<3>();
        let a = owned::<S1, 1>(&f, [3], 0);
        let mut it = a.into_iter();
        split!(n in 1..=3, {
            for _ in 0..n {
                std::mem::forget(it.next());
            }
        });
        sym::before();
        let _ = it.clone();
    }
}
