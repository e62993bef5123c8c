//! C10: each element is dropped exactly once.
//!
//! Every element has a number; drops are counted per element. After the operation each element
//! that is no longer owned has been dropped once and no other, and after dropping the results
//! each element that was ever created has been dropped exactly once.
//!
//! Bounds. Tensors and arrays of rank 1-3 with up to 8 elements. Drop, consuming iteration and
//! draining stopped after any number of elements, also leaked ranges; resize, truncate, clear,
//! expand, append, extend, map, zip_with, conversions, assign, fill, clone and clone_from.
//! Default expressions are empty. Outside: larger arrays, functions that panic.
use crate::sym;
use mdarray::expr::{self, Apply, Expression, FromExpression, IntoExpression};
use mdarray::{Array, Const, DenseMapping, Dyn, DynRank, Shape, Tensor};
use std::mem;

const MAX: usize = 24;

static mut DROPS: [u8; MAX] = [0; MAX];
static mut NEXT: usize = 0;

/// Element with a number.
pub struct E(u8);

impl E {
    fn new() -> Self {
        unsafe {
            assert!(NEXT < MAX);
            NEXT += 1;
            E(NEXT as u8 - 1)
        }
    }
}

impl Clone for E {
    fn clone(&self) -> Self {
        // Not dropped before.
        assert!(drops(self.0 as usize) == 0);
        E::new()
    }
}

impl Drop for E {
    fn drop(&mut self) {
        unsafe {
            assert!((self.0 as usize) < NEXT);
            DROPS[self.0 as usize] += 1;
        }
    }
}

fn drops(n: usize) -> u8 {
    unsafe { DROPS[n] }
}

fn created() -> usize {
    unsafe { NEXT }
}

/// Each of the elements `0..created` has been dropped once.
fn all_dropped() {
    let n = sym::upto(MAX - 1);
    sym::assume(n < created());
    assert!(drops(n) == 1);
}

/// Exactly the elements for which the condition holds have been dropped.
fn dropped(f: impl Fn(usize) -> bool) {
    let n = sym::upto(MAX - 1);
    sym::assume(n < created());
    assert!(drops(n) == f(n) as u8);
}

/// Tensor with elements numbered in order.
fn tensor<S: Shape, const R: usize>(d: [usize; R]) -> Tensor<E, S> {
    let mut n = 1;
    for k in 0..R {
        n *= d[k];
    }
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(E::new());
    }
    let mut v = mem::ManuallyDrop::new(v);
    unsafe {
        Tensor::from_raw_parts(v.as_mut_ptr(), DenseMapping::new(S::from_dims(&d)), v.capacity())
    }
}

type D1 = (Dyn,);
type D2 = (Dyn, Dyn);
type D3 = (Dyn, Dyn, Dyn);

fn array() -> Array<E, (Const<2>, Const<2>)> {
    Array([[E::new(), E::new()], [E::new(), E::new()]])
}

/// Takes `k` of the elements, then drops the iterator.
fn take<I: Iterator<Item = E>>(mut i: I, first: usize, k: usize) {
    for n in 0..k {
        let x = i.next().unwrap();
        assert!(x.0 as usize == first + n);
        assert!(drops(first + n) == 0);
    }
}

/// Resize, then each element that is not in the new shape has been dropped.
fn resize<S: Shape, const R: usize>(old: [usize; R], new: [usize; R]) {
    let mut t = tensor::<S, R>(old);
    let n = created();
    t.resize_with(&new, E::new);
    dropped(|mut x| {
        if x >= n {
            return false;
        }
        let mut keep = true;
        for k in (0..R).rev() {
            keep &= x % old[k] < new[k];
            x /= old[k];
        }
        !keep
    });
    drop(t);
}

harnesses! {
    holds quick drop_tensor [30] {
        drop(tensor::<D2, 2>([2, 3]));
        all_dropped();
    }
    holds quick drop_empty [30] {
        drop(tensor::<D2, 2>([2, 0]));
        assert!(created() == 0);
    }
    holds quick drop_dyn [30] {
        drop(tensor::<DynRank, 3>([2, 1, 2]));
        all_dropped();
    }
    holds quick drop_array [30] {
        drop(array());
        all_dropped();
    }
    holds quick iter_tensor_1 [30] {
        let k = sym::upto(4);
        take(tensor::<D1, 1>([4]).into_iter(), 0, k);
        all_dropped();
    }
    holds quick iter_tensor_2 [30] {
        let k = sym::upto(6);
        take(tensor::<D2, 2>([2, 3]).into_iter(), 0, k);
        all_dropped();
    }
    holds quick iter_tensor_dyn [30] {
        let k = sym::upto(4);
        take(tensor::<DynRank, 2>([2, 2]).into_iter(), 0, k);
        all_dropped();
    }
    holds quick iter_array [30] {
        let k = sym::upto(4);
        take(array().into_iter(), 0, k);
        all_dropped();
    }
    holds quick iter_empty [30] {
        assert!(tensor::<D2, 2>([2, 0]).into_iter().next().is_none());
        assert!(created() == 0);
    }
    holds quick iter_map [30] {
        let k = sym::upto(4);
        let mut i = tensor::<D2, 2>([2, 2]).into_expr().map(|x| x).into_iter();
        for _ in 0..k {
            i.next().unwrap();
        }
        drop(i);
        all_dropped();
    }
    holds quick iter_zip [30] {
        let k = sym::upto(3);
        let mut i = tensor::<D1, 1>([3]).into_expr().zip(tensor::<D1, 1>([3])).into_iter();
        for n in 0..k {
            let (x, y) = i.next().unwrap();
            assert!(x.0 as usize == n && y.0 as usize == 3 + n);
        }
        drop(i);
        all_dropped();
    }
    holds quick unused_expr [30] {
        drop(tensor::<D1, 1>([3]).into_expr());
        drop(array().into_expr());
        all_dropped();
    }
    holds quick expr_ref [30] {
        let mut e = tensor::<D1, 1>([3]).into_expr();
        assert!(e.as_ref()[1].0 == 1);
        e.as_mut()[1] = E::new();
        dropped(|n| n == 1);
        drop(e);
        all_dropped();
    }
    holds quick for_each [30] {
        let mut n = 0;
        tensor::<D2, 2>([2, 2]).into_expr().for_each(|x| {
            assert!(x.0 == n);
            n += 1;
        });
        all_dropped();
        array().into_expr().for_each(drop);
        all_dropped();
    }

    holds quick drain_1 [30] {
        let mut t = tensor::<D1, 1>([4]);
        let (s, e) = (sym::upto(4), sym::upto(4));
        sym::assume(s <= e);
        drop(t.drain(s..e));
        dropped(|n| n >= s && n < e);
        drop(t);
        all_dropped();
    }
    holds quick drain_2 [30] {
        let mut t = tensor::<D2, 2>([3, 2]);
        let (s, e) = (sym::upto(3), sym::upto(3));
        sym::assume(s <= e);
        drop(t.drain(s..e));
        dropped(|n| n >= 2 * s && n < 2 * e);
        drop(t);
        all_dropped();
    }
    holds quick drain_partly [30] {
        let mut t = tensor::<D2, 2>([3, 2]);
        let k = sym::upto(2);
        take(t.drain(0..2).into_iter(), 0, k);
        dropped(|n| n < 4);
        drop(t);
        all_dropped();
    }
    holds thorough drain_partly_any [30] {
        let mut t = tensor::<D2, 2>([3, 2]);
        let s = sym::upto(1);
        let k = sym::upto(4);
        take(t.drain(s..s + 2).into_iter(), 2 * s, k);
        dropped(|n| n >= 2 * s && n < 2 * s + 4);
        drop(t);
        all_dropped();
    }
    holds quick drain_leaked [30] {
        // Elements of a leaked range are not dropped twice.
        let mut t = tensor::<D1, 1>([4]);
        let (s, e) = (sym::upto(4), sym::upto(4));
        sym::assume(s <= e);
        mem::forget(t.drain(s..e));
        dropped(|_| false);
        drop(t);
        dropped(|n| n < s);
    }
    holds quick drain_map [30] {
        let mut t = tensor::<D1, 1>([4]);
        let u = Tensor::<E, D1>::from_expr(t.drain(1..3).map(|x| x));
        dropped(|_| false);
        assert!(u[0].0 == 1 && u[1].0 == 2);
        assert!(t[0].0 == 0 && t[1].0 == 3);
        drop((t, u));
        all_dropped();
    }

    holds quick resize_grow [30] { resize::<D2, 2>([2, 2], [3, 3]); all_dropped(); }
    holds quick resize_shrink [30] { resize::<D2, 2>([2, 3], [1, 2]); all_dropped(); }
    holds quick resize_both [30] { resize::<D2, 2>([3, 2], [2, 3]); all_dropped(); }
    holds quick resize_both_2 [30] { resize::<D2, 2>([2, 3], [3, 2]); all_dropped(); }
    holds quick resize_same_inner [30] { resize::<D2, 2>([3, 2], [2, 2]); all_dropped(); }
    holds quick resize_1 [30] { resize::<D1, 1>([4], [2]); all_dropped(); }
    holds quick resize_3 [30] { resize::<D3, 3>([2, 2, 2], [2, 1, 3]); all_dropped(); }
    holds quick resize_3_outer [30] { resize::<D3, 3>([2, 2, 2], [1, 3, 1]); all_dropped(); }
    holds quick resize_empty [30] { resize::<D2, 2>([2, 3], [0, 3]); all_dropped(); }
    holds quick resize_empty_inner [30] { resize::<D2, 2>([2, 3], [2, 0]); all_dropped(); }
    holds quick resize_dyn [30] { resize::<DynRank, 2>([2, 3], [3, 2]); all_dropped(); }
    holds quick resize_value [30] {
        let mut t = tensor::<D2, 2>([1, 2]);
        t.resize(&[2, 3], E::new());
        dropped(|n| n == 2);
        drop(t);
        all_dropped();
    }
    holds quick truncate [30] {
        let k = sym::usize();
        let mut t = tensor::<D2, 2>([3, 2]);
        t.truncate(k);
        dropped(|n| n / 2 >= k);
        drop(t);
        all_dropped();
    }
    holds quick clear [30] {
        let mut t = tensor::<D2, 2>([2, 2]);
        t.clear();
        all_dropped();
        t.expand(tensor::<D2, 2>([1, 2]));
        dropped(|n| n < 4);
        drop(t);
        all_dropped();
    }
    holds quick clear_dyn [30] {
        let mut t = tensor::<DynRank, 2>([2, 2]);
        t.clear();
        all_dropped();
        drop(t);
        all_dropped();
    }
    holds quick expand_value [30] {
        let mut t = tensor::<D2, 2>([1, 2]);
        t.expand(tensor::<D2, 2>([2, 2]));
        dropped(|_| false);
        drop(t);
        all_dropped();
    }
    holds quick expand_ref [30] {
        let mut t = tensor::<D1, 1>([1]);
        let u = tensor::<D1, 1>([2]);
        t.expand(&u);
        dropped(|_| false);
        assert!(created() == 5);
        drop(u);
        dropped(|n| n == 1 || n == 2);
        drop(t);
        all_dropped();
    }
    holds quick append [30] {
        let mut t = tensor::<D1, 1>([2]);
        let mut u = tensor::<D1, 1>([2]);
        t.append(&mut u);
        drop(u);
        dropped(|_| false);
        drop(t);
        all_dropped();
    }
    holds quick extend [30] {
        let mut t = tensor::<D1, 1>([2]);
        t.extend([E::new(), E::new()]);
        dropped(|_| false);
        drop(t);
        all_dropped();
    }

    holds quick map_tensor [30] {
        let t = tensor::<D2, 2>([2, 2]).map(|_| E::new());
        dropped(|n| n < 4);
        assert!(t[[1, 0]].0 == 6);
        drop(t);
        all_dropped();
    }
    holds quick map_tensor_same [30] {
        let t = tensor::<D2, 2>([2, 2]).apply(|x| x);
        dropped(|_| false);
        drop(t);
        all_dropped();
    }
    holds quick map_array [30] {
        let t = array().map(|_| E::new());
        dropped(|n| n < 4);
        drop(t);
        all_dropped();
    }
    holds quick zip_with_tensor [30] {
        let t = tensor::<D1, 1>([3]);
        let u = tensor::<D1, 1>([3]);
        let t = t.zip_with(u, |(x, y)| {
            assert!(y.0 == x.0 + 3);
            y
        });
        dropped(|n| n < 3);
        drop(t);
        all_dropped();
    }
    holds quick zip_with_array [30] {
        let t = array().zip_with(array(), |(x, y)| {
            assert!(y.0 == x.0 + 4);
            x
        });
        dropped(|n| n >= 4);
        drop(t);
        all_dropped();
    }
    holds quick eval [30] {
        let t = tensor::<D2, 2>([2, 2]);
        let u = t.into_expr().map(|x| x).eval();
        dropped(|_| false);
        drop(u);
        all_dropped();
    }
    holds quick assign [30] {
        let mut t = tensor::<D1, 1>([3]);
        t.assign(tensor::<D1, 1>([3]));
        dropped(|n| n < 3);
        drop(t);
        all_dropped();
    }
    holds quick fill [30] {
        let mut t = tensor::<D1, 1>([3]);
        t.fill(E::new());
        dropped(|n| n <= 3);
        drop(t);
        all_dropped();
    }
    holds quick fill_with [30] {
        let mut t = tensor::<D2, 2>([2, 2]);
        t.fill_with(E::new);
        dropped(|n| n < 4);
        drop(t);
        all_dropped();
    }
    holds quick from_elem [30] {
        let t = Tensor::<E, D2>::from_elem([1, 2], E::new());
        assert!(t[[0, 1]].0 != t[[0, 0]].0);
        dropped(|n| n != t[[0, 0]].0 as usize && n != t[[0, 1]].0 as usize);
        drop(t);
        all_dropped();
    }
    holds quick from_fn [30] {
        let t = Tensor::<E, D2>::from_fn([2, 2], |_| E::new());
        let u = Array::<E, (Const<2>,)>::from_fn(|_| E::new());
        dropped(|_| false);
        assert!(created() == 6);
        drop((t, u));
        all_dropped();
    }
    holds quick fill_source [30] {
        let t = expr::fill_with(E::new).zip(tensor::<D1, 1>([2])).map(|(_, y)| y).eval();
        dropped(|n| n >= 2);
        drop(t);
        all_dropped();
    }

    holds quick tensor_to_array [30] {
        let t = tensor::<(Const<2>, Const<2>), 2>([2, 2]);
        let a: Array<E, (Const<2>, Const<2>)> = t.into();
        dropped(|_| false);
        assert!(a[[1, 1]].0 == 3);
        drop(a);
        all_dropped();
    }
    holds quick array_to_tensor [30] {
        let t: Tensor<E, (Const<2>, Const<2>)> = array().into();
        dropped(|_| false);
        drop(t);
        all_dropped();
    }
    holds quick to_vec [30] {
        let v = tensor::<D2, 2>([2, 2]).into_vec();
        dropped(|_| false);
        assert!(v.len() == 4);
        let t = Tensor::<E, D1>::from(v).into_shape([2, 2]);
        dropped(|_| false);
        let t = t.into_flat().into_dyn();
        dropped(|_| false);
        drop(t);
        all_dropped();
    }
    holds quick scalar [30] {
        let x = tensor::<D2, 2>([1, 1]).into_scalar();
        dropped(|_| false);
        drop(x);
        all_dropped();
        let x = Array::<E, (Const<1>,)>([E::new()]).into_scalar();
        dropped(|n| n == 0);
        drop(x);
        all_dropped();
    }
    holds quick native_array [30] {
        let t = Tensor::<E, D2>::from([[E::new(), E::new()], [E::new(), E::new()]]);
        dropped(|_| false);
        let a = <[[E; 2]; 2]>::try_from(t);
        dropped(|_| false);
        assert!(a.is_ok());
        drop(a);
        all_dropped();
    }
    holds quick native_array_bad [30] {
        let a = <[[E; 2]; 2]>::try_from(tensor::<D2, 2>([1, 3]));
        assert!(a.is_err());
        dropped(|_| false);
        drop(a);
        all_dropped();
    }
    holds quick array_shape [30] {
        let a = array().into_shape::<(Const<4>,)>();
        dropped(|_| false);
        assert!(a[3].0 == 3);
        drop(a);
        all_dropped();
    }
    holds quick raw_parts [30] {
        let (p, m, c) = tensor::<D1, 1>([2]).into_raw_parts();
        dropped(|_| false);
        drop(unsafe { Tensor::from_raw_parts(p, m, c) });
        all_dropped();
    }
    holds quick collect [30] {
        let t: Tensor<E, D1> = [E::new(), E::new(), E::new()].into_iter().collect();
        dropped(|_| false);
        drop(t);
        all_dropped();
    }

    holds quick clone_tensor [30] {
        let t = tensor::<D2, 2>([2, 2]);
        let u = t.clone();
        assert!(created() == 8);
        dropped(|_| false);
        drop(t);
        dropped(|n| n < 4);
        drop(u);
        all_dropped();
    }
    holds quick clone_from_longer [30] {
        let mut t = tensor::<D1, 1>([1]);
        t.clone_from(&tensor::<D1, 1>([3]));
        assert!(t.len() == 3);
        drop(t);
        all_dropped();
    }
    holds quick clone_from_shorter [30] {
        let mut t = tensor::<D1, 1>([3]);
        t.clone_from(&tensor::<D1, 1>([1]));
        assert!(t.len() == 1);
        drop(t);
        all_dropped();
    }
    holds quick clone_expr [30] {
        let e = tensor::<D1, 1>([2]).into_expr();
        let f = e.clone();
        dropped(|_| false);
        assert!(created() == 4);
        drop(e);
        dropped(|n| n < 2);
        drop(f);
        all_dropped();
    }
    holds quick clone_from_expr [30] {
        let mut e = tensor::<D1, 1>([2]).into_expr();
        let f = tensor::<D1, 1>([3]).into_expr();
        e.clone_from(&f);
        dropped(|n| n < 2);
        assert!(created() == 8);
        drop((e, f));
        all_dropped();
    }
    holds quick clone_array_expr [30] {
        let e = array().into_expr();
        let mut f = e.clone();
        f.clone_from(&e);
        dropped(|n| n >= 4 && n < 8);
        drop((e, f));
        all_dropped();
    }

    holds quick default_expr [30] {
        let e = expr::IntoExpr::<Tensor<mem::ManuallyDrop<E>, D2>>::default();
        assert!(e.len() == 0 && e.dim(0) == 0 && e.dim(1) == 0);
        drop(e);
        let e = expr::IntoExpr::<Tensor<mem::ManuallyDrop<E>, D1>>::default();
        assert!(e.into_iter().next().is_none());
        assert!(created() == 0);
    }

    panics quick clone_in_use [30] {
        // An expression from which elements have been moved must not be cloned.
        let mut e = tensor::<D1, 1>([2]).into_expr();
        drop(unsafe { e.get_unchecked(0) });
        sym::before();
        mem::forget(e.clone());
    }
    panics quick clone_from_in_use [30] {
        let mut e = tensor::<D1, 1>([2]).into_expr();
        let mut f = tensor::<D1, 1>([2]).into_expr();
        if sym::any_bool() {
            drop(unsafe { e.get_unchecked(0) });
        } else {
            drop(unsafe { f.get_unchecked(0) });
        }
        sym::before();
        e.clone_from(&f);
        mem::forget((e, f));
    }
}
