//! C12: conversions.
//!
//! Bounds. Native nested arrays of rank 1-6 with up to 12 elements (and empty ones of rank 1-3),
//! for one set of dimensions per rank and all element values, to and from arrays, tensors and
//! views, with constant and dynamic dimensions. Attempted conversions into native arrays: dense
//! views with any dimensions up to 3 that fit the buffer (rank 1-6), tensors with matching and
//! non-matching dimensions of the same length. Vectors and slices: any length up to 4. Strided
//! views: rank 1-3, symbolic strides and base. Elements are bytes. Larger: selected
//! conversions with up to 20 elements. Outside: larger shapes.
use crate::model::{at, equals, tensor, Lay};
use crate::sym;
use mdarray::expr::IntoExpression;
use mdarray::*;
use std::borrow::{Borrow, BorrowMut};

type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;

fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

macro_rules! native {
    ($m:ident, $r:literal, $n:literal, $array:ty, [$($x:literal),+]) => {
        mod $m {
            use super::*;

            type A = $array;
            type S = ($(Const<$x>,)+);
            type D = Rank<$r>;

            const DIMS: [usize; $r] = [$($x),+];

            fn nested(f: [u8; $n]) -> A {
                unsafe { std::mem::transmute(f) }
            }
            fn flat(a: A) -> [u8; $n] {
                unsafe { std::mem::transmute(a) }
            }

            /// Inline array from native array and back.
            pub fn array() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let a: Array<u8, S> = Array::from(nested(f));
                equals(&a, DIMS, |i| f[l.lin(&i)]);
                let n = nested(f);
                let b: Array<u8, S> = Array::from(&n);
                equals(&b, DIMS, |i| f[l.lin(&i)]);
                let x: A = a.into();
                assert!(flat(x) == f);
            }

            /// References between native and inline arrays.
            pub fn refs() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let mut n = nested(f);
                let p = &raw mut n as *mut u8;
                {
                    let a: &Array<u8, S> = n.as_ref();
                    l.agrees(a, p);
                    let x: &A = a.as_ref();
                    assert!(x as *const A as *const u8 == p);
                }
                {
                    let a: &mut Array<u8, S> = n.as_mut();
                    l.agrees(a, p);
                    let x: &mut A = a.as_mut();
                    assert!(x as *mut A as *mut u8 == p);
                }
            }

            /// Views of native arrays.
            pub fn views() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let mut n = nested(f);
                let p = &raw mut n as *mut u8;
                {
                    let v: View<u8, D> = View::from(&n);
                    l.agrees(&v, p);
                    let x = <&A>::try_from(v);
                    assert!(matches!(x, Ok(x) if $n == 0 || x as *const A as *const u8 == p));
                    let v: View<u8, S> = View::from(&n);
                    l.agrees(&v, p);
                    let x = <&A>::try_from(v);
                    assert!(matches!(x, Ok(x) if $n == 0 || x as *const A as *const u8 == p));
                }
                {
                    let v: ViewMut<u8, D> = ViewMut::from(&mut n);
                    l.agrees(&v, p);
                    let x = <&mut A>::try_from(v);
                    assert!(match x {
                        Ok(x) => $n == 0 || x as *mut A as *mut u8 == p,
                        Err(_) => false,
                    });
                }
                let v: ViewMut<u8, S> = ViewMut::from(&mut n);
                l.agrees(&v, p);
            }

            /// Tensor from native array and back.
            pub fn owned() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let t: Tensor<u8, D> = Tensor::from(nested(f));
                equals(&t, DIMS, |i| f[l.lin(&i)]);
                assert!(t.capacity() >= $n);
                let x = A::try_from(t);
                assert!(matches!(x, Ok(x) if flat(x) == f));
            }

            pub fn owned_ref() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let n = nested(f);
                let t: Tensor<u8, D> = Tensor::from(&n);
                equals(&t, DIMS, |i| f[l.lin(&i)]);
            }

            pub fn owned_const() {
                let f = bytes::<$n>();
                let l = Lay::dense(DIMS);
                let t: Tensor<u8, S> = Tensor::from(nested(f));
                equals(&t, DIMS, |i| f[l.lin(&i)]);
                let a: Array<u8, S> = Array::from(t);
                equals(&a, DIMS, |i| f[l.lin(&i)]);
                let t: Tensor<u8, S> = Tensor::from(a);
                equals(&t, DIMS, |i| f[l.lin(&i)]);
            }

            /// A dense view converts if it has exactly the dimensions of the native array.
            pub fn attempt() {
                let mut f = bytes::<$n>();
                let mut d = [0; $r];
                for k in 0..$r {
                    d[k] = sym::upto(3);
                }
                let l = Lay::dense(d);
                sym::assume(l.len() <= $n);
                let p = f.as_mut_ptr();
                let v = l.dense_view::<u8, D>(&f);
                match <&A>::try_from(v) {
                    Ok(x) => assert!(d == DIMS && x as *const A as *const u8 == p as *const u8),
                    Err(v) => {
                        assert!(d != DIMS && v.as_ptr() == p as *const u8);
                        l.same_dims(&v);
                    }
                }
                let v = l.dense_view_mut::<u8, D>(&mut f);
                match <&mut A>::try_from(v) {
                    Ok(x) => assert!(d == DIMS && x as *mut A as *mut u8 == p),
                    Err(v) => {
                        assert!(d != DIMS && v.as_ptr() == p as *const u8);
                        l.same_dims(&v);
                    }
                }
            }

            pub fn attempt_empty() {
                let f = [0u8; 1];
                let mut d = [0; $r];
                for k in 0..$r {
                    d[k] = sym::upto(3);
                }
                let l = Lay::dense(d);
                sym::assume(l.len() == 0);
                match <&A>::try_from(l.dense_view::<u8, D>(&f)) {
                    Ok(_) => assert!(d == DIMS),
                    Err(v) => {
                        assert!(d != DIMS);
                        l.same_dims(&v);
                    }
                }
            }

            /// A tensor with other dimensions is given back.
            pub fn refused(d: [usize; $r]) {
                let f = bytes::<$n>();
                let l = Lay::dense(d);
                let t = tensor::<u8, D, $r>(&f, d, 0);
                match A::try_from(t) {
                    Ok(_) => assert!(false),
                    Err(t) => equals(&t, d, |i| f[l.lin(&i)]),
                }
            }
        }
    };
}

native!(n1, 1, 5, [u8; 5], [5]);
native!(n2, 2, 6, [[u8; 3]; 2], [2, 3]);
native!(n3, 3, 6, [[[u8; 2]; 1]; 3], [3, 1, 2]);
native!(n4, 4, 6, [[[[u8; 1]; 3]; 2]; 1], [1, 2, 3, 1]);
native!(n5, 5, 12, [[[[[u8; 3]; 1]; 1]; 2]; 2], [2, 2, 1, 1, 3]);
native!(n6, 6, 12, [[[[[[u8; 1]; 2]; 1]; 3]; 1]; 2], [2, 1, 3, 1, 2, 1]);
native!(e1, 1, 0, [u8; 0], [0]);
native!(e2, 2, 0, [[u8; 2]; 0], [0, 2]);
native!(e3, 3, 0, [[[u8; 2]; 0]; 3], [3, 0, 2]);

/// Owned arrays from strided views.
fn from_view<S: Shape, const R: usize>(d: [usize; R]) {
    let a = bytes::<9>();
    let l = Lay::strided(d, 9, 6);
    let t = Tensor::<u8, S>::from(l.view::<u8, S>(&a));
    equals(&t, d, |i| a[l.pos(&i)]);
}

fn from_ref<S: Shape, const R: usize>(d: [usize; R]) {
    let mut a = bytes::<9>();
    let l = Lay::strided_mut(d, 9, 6);
    let b = a;
    let t = if sym::any_bool() {
        Tensor::<u8, S>::from(&*l.view::<u8, S>(&a))
    } else {
        Tensor::<u8, S>::from(&l.view_mut::<u8, S>(&mut a))
    };
    equals(&t, d, |i| b[l.pos(&i)]);
}

fn array_from_view<S: ConstShape, const R: usize>(d: [usize; R]) {
    let a = bytes::<9>();
    let l = Lay::strided(d, 9, 6);
    let t = Array::<u8, S>::from(l.view::<u8, S>(&a));
    equals(&t, d, |i| a[l.pos(&i)]);
    let l = Lay::dense(d);
    let t = Array::<u8, S>::from(&*l.dense_view::<u8, S>(&a));
    equals(&t, d, |i| a[l.pos(&i)]);
}

/// Vector with `n` elements of `a` and spare capacity.
fn vec(a: &[u8], n: usize, spare: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + spare);
    v.extend_from_slice(&a[..n]);
    v
}

fn same(v: &[u8], a: &[u8], n: usize) {
    assert!(v.len() == n);
    for k in 0..n {
        assert!(v[k] == a[k]);
    }
}

fn from_vec(n: usize) {
    let a = bytes::<5>();
    let t: Tensor<u8, S1> = Tensor::from(vec(&a, n, 1));
    equals(&t, [n], |i| a[i[0]]);
    let v: Vec<u8> = t.into();
    same(&v, &a, n);
    assert!(v.capacity() >= n);
}

fn into_vec<S: Shape, const R: usize>(d: [usize; R]) {
    let a = bytes::<6>();
    let t = tensor::<u8, S, R>(&a, d, 1);
    let v = t.into_vec();
    same(&v, &a, Lay::dense(d).len());
    assert!(v.capacity() >= v.len());
}

fn raw_parts<S: Shape, const R: usize>(d: [usize; R]) {
    let a = bytes::<6>();
    let l = Lay::dense(d);
    let t = tensor::<u8, S, R>(&a, d, 2);
    let (p, c) = (t.as_ptr(), t.capacity());
    let (q, mapping, capacity) = t.into_raw_parts();
    assert!(q as *const u8 == p && capacity == c && capacity >= l.len());
    assert!(mapping.rank() == R && mapping.len() == l.len());
    let t = unsafe { Tensor::from_raw_parts(q, mapping, capacity) };
    equals(&t, d, |i| a[l.lin(&i)]);
    assert!(t.as_ptr() == p && t.capacity() == c);
}

/// Tensors with other shape types and the same elements.
fn retyped<S: Shape, P: Shape, const R: usize>(d: [usize; R]) {
    let a = bytes::<6>();
    let l = Lay::dense(d);
    let t = tensor::<u8, S, R>(&a, d, 1).into_mapping::<P>();
    equals(&t, d, |i| a[l.lin(&i)]);
    let t = t.into_dyn();
    equals(&t, d, |i| a[l.lin(&i)]);
    let t = t.into_flat();
    equals(&t, [l.len()], |i| a[i[0]]);
}

harnesses! {
    holds quick n1_array [8] { n1::array() }
    holds quick n1_refs [8] { n1::refs() }
    holds quick n1_views [10] { n1::views() }
    holds quick n1_owned [10] { n1::owned() }
    holds quick n1_owned_ref [10] { n1::owned_ref() }
    holds quick n1_owned_const [10] { n1::owned_const() }
    holds quick n1_attempt [10] { n1::attempt() }
    holds quick n1_refused [10] { n1::refused([4]) }
    holds quick n2_array [10] { n2::array() }
    holds quick n2_refs [10] { n2::refs() }
    holds quick n2_views [18] { n2::views() }
    holds quick n2_owned [18] { n2::owned() }
    holds quick n2_owned_ref [18] { n2::owned_ref() }
    holds quick n2_owned_const [18] { n2::owned_const() }
    holds quick n2_attempt [18] { n2::attempt() }
    holds quick n2_refused [18] { n2::refused([3, 2]) }
    holds quick n2_refused_1 [18] { n2::refused([1, 6]) }
    holds quick n3_array [10] { n3::array() }
    holds quick n3_refs [10] { n3::refs() }
    holds quick n3_views [26] { n3::views() }
    holds quick n3_owned [26] { n3::owned() }
    holds quick n3_owned_ref [26] { n3::owned_ref() }
    holds thorough n3_owned_const [26] { n3::owned_const() }
    holds quick n3_attempt [26] { n3::attempt() }
    holds quick n3_refused [26] { n3::refused([1, 3, 2]) }
    holds quick n4_array [10] { n4::array() }
    holds quick n4_refs [10] { n4::refs() }
    holds quick n4_views [34] { n4::views() }
    holds quick n4_owned [34] { n4::owned() }
    holds quick n4_owned_ref [34] { n4::owned_ref() }
    holds quick n4_attempt [34] { n4::attempt() }
    holds quick n4_refused [34] { n4::refused([1, 2, 1, 3]) }
    holds quick n5_array [14] { n5::array() }
    holds quick n5_refs [14] { n5::refs() }
    holds quick n5_views [42] { n5::views() }
    holds quick n5_owned [42] { n5::owned() }
    holds thorough n5_owned_ref [42] { n5::owned_ref() }
    holds quick n5_attempt [42] { n5::attempt() }
    holds quick n5_refused [42] { n5::refused([2, 2, 1, 3, 1]) }
    holds quick n6_array [14] { n6::array() }
    holds quick n6_refs [14] { n6::refs() }
    holds quick n6_views [50] { n6::views() }
    holds quick n6_owned [50] { n6::owned() }
    holds thorough n6_owned_ref [50] { n6::owned_ref() }
    holds quick n6_attempt [50] { n6::attempt() }
    holds quick n6_refused [50] { n6::refused([2, 1, 3, 2, 1, 1]) }
    holds quick e1_array [8] { e1::array() }
    holds quick e1_views [10] { e1::views() }
    holds quick e1_owned [10] { e1::owned() }
    holds quick e2_array [8] { e2::array() }
    holds quick e2_views [18] { e2::views() }
    holds quick e2_owned [18] { e2::owned() }
    holds quick e2_attempt [18] { e2::attempt_empty() }
    holds quick e3_attempt [26] { e3::attempt_empty() }
    holds quick e2_refused [18] { e2::refused([0, 3]) }
    holds quick e3_array [8] { e3::array() }
    holds quick e3_views [26] { e3::views() }
    holds quick e3_owned [26] { e3::owned() }

    holds quick from_view_1 [12] { from_view::<S1, 1>([3]) }
    holds quick from_view_2 [12] { from_view::<S2, 2>([2, 3]) }
    holds quick from_view_3 [12] { from_view::<S3, 3>([2, 1, 2]) }
    holds quick from_view_dyn [12] { from_view::<DynRank, 2>([2, 2]) }
    holds quick from_view_const [12] { from_view::<(Const<2>, Dyn), 2>([2, 2]) }
    holds quick from_view_empty [12] { from_view::<S2, 2>([2, 0]) }
    holds quick from_ref_2 [12] { from_ref::<S2, 2>([2, 2]) }
    holds quick array_from_view_1 [12] { array_from_view::<(Const<3>,), 1>([3]) }
    holds quick array_from_view_2 [12] { array_from_view::<(Const<2>, Const<3>), 2>([2, 3]) }
    holds thorough array_from_view_3 [12] { array_from_view::<(Const<2>, Const<1>, Const<2>), 3>([2, 1, 2]) }
    holds quick vec_0 [8] { from_vec(0) }
    holds quick vec_3 [8] { from_vec(3) }
    holds quick into_vec_2 [8] { into_vec::<S2, 2>([2, 2]) }
    holds quick into_vec_dyn [8] { into_vec::<DynRank, 2>([1, 3]) }
    holds quick into_vec_0 [8] { into_vec::<(), 0>([]) }
    holds quick into_vec_empty [8] { into_vec::<S2, 2>([3, 0]) }
    holds quick raw_parts_2 [8] { raw_parts::<S2, 2>([2, 3]) }
    holds quick raw_parts_dyn [8] { raw_parts::<DynRank, 1>([3]) }
    holds quick retyped_2 [10] { retyped::<S2, (Const<2>, Dyn), 2>([2, 3]) }
    holds quick retyped_dyn [10] { retyped::<DynRank, S1, 1>([4]) }
    holds quick retyped_dyn_3 [10] { retyped::<DynRank, (Dyn, Const<1>, Const<2>), 3>([2, 1, 2]) }
    holds quick larger_vec [30] {
        let a = bytes::<20>();
        let t: Tensor<u8, S1> = Tensor::from(vec(&a, 20, 0));
        equals(&t, [20], |i| a[i[0]]);
        let v: Vec<u8> = t.into();
        same(&v, &a, 20);
        let t: Tensor<u8, S1> = Tensor::from(&a[..17]);
        equals(&t, [17], |i| a[i[0]]);
    }
    holds quick larger_collected [30] {
        let a = bytes::<20>();
        let t: Tensor<u8, S1> = a[..18].iter().copied().collect();
        equals(&t, [18], |i| a[i[0]]);
    }
    holds quick larger_native [30] {
        let a = bytes::<20>();
        let n: [[u8; 5]; 4] = unsafe { std::mem::transmute(a) };
        let l = Lay::dense([4, 5]);
        let t: Tensor<u8, S2> = Tensor::from(&n);
        equals(&t, [4, 5], |i| a[l.lin(&i)]);
        let t: Tensor<u8, (Const<4>, Const<5>)> = t.into_mapping();
        let b: Array<u8, (Const<4>, Const<5>)> = t.into();
        equals(&b, [4, 5], |i| a[l.lin(&i)]);
        let m: [[u8; 5]; 4] = b.into();
        assert!(m == n);
    }
    holds quick larger_view [30] {
        let a = bytes::<18>();
        let k = Lay { d: [6, 3], s: [1, 6], base: 0 };
        let t = Tensor::<u8, S2>::from(k.view::<u8, S2>(&a));
        equals(&t, [6, 3], |i| a[k.pos(&i)]);
    }
    holds quick from_slice [8] {
        let a = bytes::<4>();
        let n = 3;
        let t: Tensor<u8, S1> = Tensor::from(&a[..n]);
        equals(&t, [n], |i| a[i[0]]);
    }
    holds quick collected [8] {
        let a = bytes::<4>();
        split!(n in 0 ..= 3, {
            let t: Tensor<u8, S1> = a[..n].iter().copied().collect();
            equals(&t, [n], |i| a[i[0]]);
        });
    }
    holds quick slices [8] {
        let mut a = bytes::<4>();
        let p = a.as_mut_ptr();
        let n = sym::upto(4);
        let v = View::<u8, S1>::from(&a[..n]);
        assert!(v.as_ptr() == p as *const u8 && v.len() == n && v.dim(0) == n);
        let r: &[u8] = v.as_ref();
        assert!(r.as_ptr() == p as *const u8 && r.len() == n);
        let s: &[u8] = v.into();
        assert!(s.as_ptr() == p as *const u8 && s.len() == n);
        let mut v = ViewMut::<u8, S1>::from(&mut a[..n]);
        assert!(v.as_ptr() == p as *const u8 && v.len() == n && v.dim(0) == n);
        let r: &mut [u8] = v.as_mut();
        assert!(r.as_mut_ptr() == p && r.len() == n);
        let s: &mut [u8] = v.into();
        assert!(s.as_mut_ptr() == p && s.len() == n);
    }
    holds quick slices_const [8] {
        let mut a = bytes::<3>();
        let p = a.as_mut_ptr();
        let v: View<u8, (Const<3>,)> = View::from(&a);
        let s: &[u8] = v.into();
        assert!(s.as_ptr() == p as *const u8 && s.len() == 3);
        let v: ViewMut<u8, (Const<3>,)> = ViewMut::from(&mut a);
        let s: &mut [u8] = v.into();
        assert!(s.as_mut_ptr() == p && s.len() == 3);
    }
    holds quick borrowed_tensor [8] {
        let a = bytes::<6>();
        let mut t = tensor::<u8, S2, 2>(&a, [2, 3], 0);
        let (p, l) = (t.as_ptr(), Lay::dense([2, 3]));
        let s: &Slice<u8, S2> = t.borrow();
        l.agrees(s, p);
        let s: &Slice<u8, S2> = t.as_ref();
        l.agrees(s, p);
        l.agrees(&View::from(&t), p);
        l.agrees(&(&t).into_expr(), p);
        let s: &mut Slice<u8, S2> = t.borrow_mut();
        l.agrees(s, p);
        let s: &mut Slice<u8, S2> = t.as_mut();
        l.agrees(s, p);
        l.agrees(&ViewMut::from(&mut t), p);
        l.agrees(&(&mut t).into_expr(), p);
    }
    holds quick borrowed_flat [8] {
        let a = bytes::<6>();
        let mut t = tensor::<u8, S1, 1>(&a, [4], 1);
        let p = t.as_ptr();
        let s: &[u8] = t.as_ref();
        assert!(s.as_ptr() == p && s.len() == 4);
        let s: &mut [u8] = t.as_mut();
        assert!(s.as_ptr() == p && s.len() == 4);
    }
    holds quick borrowed_array [8] {
        let a = bytes::<6>();
        let mut t: Array<u8, (Const<2>, Const<3>)> = Array::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]]]);
        let (p, l) = (&raw const t as *const u8, Lay::dense([2, 3]));
        let s: &Slice<u8, _> = t.borrow();
        l.agrees(s, p);
        let s: &Slice<u8, _> = t.as_ref();
        l.agrees(s, p);
        l.agrees(&View::from(&t), p);
        l.agrees(&(&t).into_expr(), p);
        let s: &mut Slice<u8, _> = t.borrow_mut();
        l.agrees(s, p);
        let s: &mut Slice<u8, _> = t.as_mut();
        l.agrees(s, p);
        l.agrees(&ViewMut::from(&mut t), p);
        l.agrees(&(&mut t).into_expr(), p);
        equals(&t, [2, 3], |i| a[l.lin(&i)]);
    }
    holds quick borrowed_view [10] {
        let mut a = bytes::<9>();
        let p = a.as_ptr();
        let l = Lay::strided_mut([2, 3], 9, 6);
        let v = l.view::<u8, S2>(&a);
        let s: &Slice<u8, S2, Strided> = v.borrow();
        l.agrees(s, p);
        let s: &Slice<u8, S2, Strided> = v.as_ref();
        l.agrees(s, p);
        l.agrees(&View::from(&v), p);
        l.agrees(&View::from(&*v), p);
        l.agrees(&v.into_expr(), p);
        let mut v = l.view_mut::<u8, S2>(&mut a);
        let s: &mut Slice<u8, S2, Strided> = v.as_mut();
        l.agrees(s, p);
        l.agrees(&ViewMut::from(&mut v), p);
        l.agrees(&v.into_expr(), p);
    }
    holds quick scalar_array [8] {
        let x = sym::u8();
        let a: Array<u8, (Const<1>, Const<1>)> = Array::from([[x]]);
        assert!(a.into_scalar() == x);
        assert!(Array::<u8, ()>(x).into_scalar() == x);
    }
    holds quick scalar_tensor [8] {
        let x = sym::u8();
        assert!(tensor::<u8, S2, 2>(&[x], [1, 1], 1).into_scalar() == x);
    }
    holds quick scalar_tensor_dyn [8] {
        let x = sym::u8();
        assert!(tensor::<u8, DynRank, 0>(&[x], [], 0).into_scalar() == x);
    }
    panics quick scalar_array_2 [8] {
        let a: Array<u8, (Const<1>, Const<2>)> = Array::from([bytes::<2>()]);
        sym::before();
        a.into_scalar();
    }
    panics quick scalar_array_0 [8] {
        let a: Array<u8, (Const<0>,)> = Array::from([]);
        sym::before();
        a.into_scalar();
    }
    panics quick scalar_tensor_2 [8] {
        let t = tensor::<u8, S2, 2>(&bytes::<2>(), [1, 2], 0);
        sym::before();
        t.into_scalar();
    }
    panics quick scalar_tensor_0 [8] {
        let t = tensor::<u8, S2, 2>(&[], [1, 0], 2);
        sym::before();
        t.into_scalar();
    }
    holds quick array_shape [10] {
        let a = bytes::<6>();
        let t: Array<u8, (Const<2>, Const<3>)> = Array::from([[a[0], a[1], a[2]], [a[3], a[4], a[5]]]);
        let t = t.into_shape::<(Const<3>, Const<1>, Const<2>)>();
        equals(&t, [3, 1, 2], |i| a[i[0] * 2 + i[2]]);
        let t = t.into_shape::<(Const<6>,)>();
        equals(&t, [6], |i| a[i[0]]);
    }
    panics quick array_shape_less [8] {
        let t: Array<u8, (Const<3>,)> = Array::from(bytes::<3>());
        sym::before();
        t.into_shape::<(Const<1>, Const<2>)>();
    }
    panics quick array_shape_more [8] {
        let t: Array<u8, (Const<3>,)> = Array::from(bytes::<3>());
        sym::before();
        t.into_shape::<(Const<2>, Const<2>)>();
    }
    panics quick retyped_rank [10] {
        let t = tensor::<u8, DynRank, 2>(&bytes::<4>(), [2, 2], 0);
        sym::before();
        t.into_mapping::<S3>();
    }
    panics quick retyped_size [10] {
        let t = tensor::<u8, S2, 2>(&bytes::<6>(), [2, 3], 0);
        sym::before();
        t.into_mapping::<(Dyn, Const<2>)>();
    }
    holds quick macros_array [14] {
        let x = bytes::<6>();
        equals(&array![x[0], x[1]], [2], |i| x[i[0]]);
        equals(&array![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], [2, 3], |i| x[3 * i[0] + i[1]]);
        equals(&array![[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]], [3, 2, 1], |i| x[2 * i[0] + i[1]]);
        equals(&array![[[[x[0]], [x[1]]]], [[[x[2]], [x[3]]]]], [2, 1, 2, 1], |i| x[2 * i[0] + i[2]]);
        equals(&array![[[[[x[0], x[1]]]]], [[[[x[2], x[3]]]]]], [2, 1, 1, 1, 2], |i| x[2 * i[0] + i[4]]);
        equals(&array![[[[[[x[0], x[1]]]]]], [[[[[x[2], x[3]]]]]]], [2, 1, 1, 1, 1, 2], |i| x[2 * i[0] + i[5]]);
    }
    holds quick macros_view [14] {
        let x = bytes::<6>();
        equals(&view![x[0], x[1]], [2], |i| x[i[0]]);
        equals(&view![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], [2, 3], |i| x[3 * i[0] + i[1]]);
        equals(&view![[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]], [3, 2, 1], |i| x[2 * i[0] + i[1]]);
        equals(&view![[[[x[0]], [x[1]]]], [[[x[2]], [x[3]]]]], [2, 1, 2, 1], |i| x[2 * i[0] + i[2]]);
        equals(&view![[[[[x[0], x[1]]]]], [[[[x[2], x[3]]]]]], [2, 1, 1, 1, 2], |i| x[2 * i[0] + i[4]]);
        equals(&view![[[[[[x[0], x[1]]]]]], [[[[[x[2], x[3]]]]]]], [2, 1, 1, 1, 1, 2], |i| x[2 * i[0] + i[5]]);
    }
    holds quick macros_tensor [14] {
        let x = bytes::<6>();
        equals(&tensor![x[0], x[1]], [2], |i| x[i[0]]);
        equals(&tensor![[x[0], x[1], x[2]], [x[3], x[4], x[5]]], [2, 3], |i| x[3 * i[0] + i[1]]);
        equals(&tensor![[[x[0]], [x[1]]], [[x[2]], [x[3]]], [[x[4]], [x[5]]]], [3, 2, 1], |i| x[2 * i[0] + i[1]]);
    }
    holds quick macros_tensor_high [14] {
        let x = bytes::<6>();
        equals(&tensor![[[[x[0]], [x[1]]]], [[[x[2]], [x[3]]]]], [2, 1, 2, 1], |i| x[2 * i[0] + i[2]]);
        equals(&tensor![[[[[x[0], x[1]]]]], [[[[x[2], x[3]]]]]], [2, 1, 1, 1, 2], |i| x[2 * i[0] + i[4]]);
        equals(&tensor![[[[[[x[0], x[1]]]]]], [[[[[x[2], x[3]]]]]]], [2, 1, 1, 1, 1, 2], |i| x[2 * i[0] + i[5]]);
    }
    holds quick macros_repeat_array [14] {
        let x = sym::u8();
        equals(&array![x; 3], [3], |_| x);
        equals(&array![[x; 3]; 2], [2, 3], |_| x);
        equals(&array![[[x; 3]; 2]; 1], [1, 2, 3], |_| x);
        equals(&array![[[[x; 2]; 1]; 3]; 1], [1, 3, 1, 2], |_| x);
        equals(&array![[[[[x; 2]; 1]; 3]; 1]; 1], [1, 1, 3, 1, 2], |_| x);
        equals(&array![[[[[[x; 2]; 1]; 3]; 1]; 1]; 2], [2, 1, 1, 3, 1, 2], |_| x);
    }
    holds quick macros_repeat_view [14] {
        let x = 7u8;
        equals(&view![x; 3], [3], |_| x);
        equals(&view![[x; 3]; 2], [2, 3], |_| x);
        equals(&view![[[x; 3]; 2]; 1], [1, 2, 3], |_| x);
        equals(&view![[[[x; 2]; 1]; 3]; 1], [1, 3, 1, 2], |_| x);
        equals(&view![[[[[x; 2]; 1]; 3]; 1]; 1], [1, 1, 3, 1, 2], |_| x);
        equals(&view![[[[[[x; 2]; 1]; 3]; 1]; 1]; 2], [2, 1, 1, 3, 1, 2], |_| x);
    }
    holds quick macros_repeat_tensor_1 [14] {
        let x = sym::u8();
        equals(&tensor![x; 3], [3], |_| x);
        equals(&tensor![[x; 3]; 2], [2, 3], |_| x);
    }
    holds quick macros_repeat_tensor_3 [14] {
        let x = sym::u8();
        equals(&tensor![[[x; 3]; 2]; 1], [1, 2, 3], |_| x);
        equals(&tensor![[[[x; 2]; 1]; 3]; 1], [1, 3, 1, 2], |_| x);
    }
    holds quick macros_repeat_tensor_5 [14] {
        let x = sym::u8();
        equals(&tensor![[[[[x; 2]; 1]; 3]; 1]; 1], [1, 1, 3, 1, 2], |_| x);
        equals(&tensor![[[[[[x; 1]; 2]; 1]; 3]; 1]; 1], [1, 1, 3, 1, 2, 1], |_| x);
    }
    holds quick dim_const [4] {
        let n = sym::usize();
        assert!(Const::<3>::try_from(n).is_ok() == (n == 3));
        assert!(match Const::<3>::try_from(n) { Ok(_) => true, Err(x) => x == n });
        assert!(Dyn::from(Const::<3>) == 3);
        assert!(Const::<3>.size() == 3 && n.size() == n);
        assert!(<Const<3> as Dim>::from_size(3).size() == 3 && <Dyn as Dim>::from_size(n) == n);
    }
    panics quick dim_const_other [4] {
        let n = sym::usize();
        sym::assume(n != 3);
        sym::before();
        <Const<3> as Dim>::from_size(n);
    }
}
