//! C08: growing and shrinking tensors.
//!
//! Bounds. resize and resize_with: rank 1 any sizes 0..=4, rank 2 from (2,3), (3,2), (0,3), (2,0)
//! to all shapes up to (3,4), rank 3 selected, dynamic rank 1-2; new elements from a value or
//! from a function (number of calls). expand and append: rank 1 (0..=3 plus 0..=3), rank 2 and 3,
//! strided and dense sources, sources by value and by reference, empty tensors, dynamic rank,
//! constant inner dimensions. truncate: rank 1-3, any 64-bit size. clear, extend, capacity
//! operations: up to 6 elements and spare capacity. Element values are symbolic. Rejected: any
//! wrong rank 0..=3, any inner dimensions up to 255, lengths that overflow 64 bits.
//! Larger: selected shapes with up to 25 elements for resize, expand, append and extend.
//! Outside: larger shapes, allocation failure.
use crate::model::{dims, equals, tensor, Lay};
use crate::sym;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::{Array, Const, Dyn, DynRank, Shape, Slice, Tensor};

const N: usize = 12;

fn data() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

/// More elements than `data`.
fn more<const M: usize>() -> [u8; M] {
    let mut a = [0; M];
    for k in 0..M {
        a[k] = sym::u8();
    }
    a
}

/// Resize with more elements.
fn larger<S: Shape, const R: usize, const M: usize>(old: [usize; R], new: [usize; R]) {
    let a = more::<M>();
    let x = sym::u8();
    let mut t = tensor::<u8, S, R>(&a, old, 0);
    t.resize(&new, x);
    let o = Lay::dense(old);
    equals(&t, new, |i| if inside(&i, &old) { a[o.lin(&i)] } else { x });
}

fn inside<const R: usize>(i: &[usize; R], d: &[usize; R]) -> bool {
    let mut r = true;
    for k in 0..R {
        r &= i[k] < d[k];
    }
    r
}

/// Resize from `old` to `new` dimensions: common elements are kept.
fn resize<S: Shape, const R: usize>(old: [usize; R], new: [usize; R], spare: usize) {
    let a = data();
    let x = sym::u8();
    let mut t = tensor::<u8, S, R>(&a, old, spare);
    t.resize(&new, x);
    let o = Lay::dense(old);
    equals(&t, new, |i| if inside(&i, &old) { a[o.lin(&i)] } else { x });
    assert!(t.capacity() >= t.len());
}

/// As `resize`, with new elements from a function: each of its values is used once.
fn resize_with<S: Shape, const R: usize>(old: [usize; R], new: [usize; R]) {
    let a = data();
    let mut t = tensor::<u16, S, R>(&a.map(|x| x as u16), old, 0);
    let mut n = 1000;
    t.resize_with(&new, || {
        n += 1;
        n
    });
    let (o, l) = (Lay::dense(old), Lay::dense(new));
    l.same_dims(&t);
    let mut kept = 1;
    for k in 0..R {
        kept *= if old[k] < new[k] { old[k] } else { new[k] };
    }
    assert!(n as usize == 1000 + l.len() - kept);
    if l.len() > 0 {
        let (i, j) = (l.index(), l.index());
        if inside(&i, &old) {
            assert!(t[i] == a[o.lin(&i)] as u16);
        } else {
            assert!(t[i] > 1000 && t[i] <= n);
            assert!(i == j || t[i] != t[j]);
        }
    }
}

type D1 = (Dyn,);
type D2 = (Dyn, Dyn);
type D3 = (Dyn, Dyn, Dyn);

/// Append an expression over a view of `src` to a tensor with `dst` dimensions.
fn expand<S: Shape, Q: Shape, const R: usize>(dst: [usize; R], src: [usize; R]) {
    let (a, b) = (data(), data());
    let l = Lay::strided(src, N, 6);
    let v = l.view::<u8, Q>(&b);
    let mut t = tensor::<u8, S, R>(&a, dst, 1);
    t.expand(&v);
    appended(&t, dst, src, &a, |i| b[l.pos(&i)]);
}

fn appended<S: Shape, const R: usize>(
    t: &Slice<u8, S>,
    dst: [usize; R],
    src: [usize; R],
    a: &[u8],
    f: impl Fn([usize; R]) -> u8,
) {
    let o = Lay::dense(dst);
    let new = if Lay::dense(src).len() == 0 {
        dst
    } else if o.len() == 0 {
        src
    } else {
        let mut d = dst;
        d[0] += src[0];
        d
    };
    equals(t, new, |mut i| {
        if o.len() > 0 && i[0] < dst[0] {
            a[o.lin(&i)]
        } else {
            i[0] -= if o.len() > 0 { dst[0] } else { 0 };
            f(i)
        }
    });
}


fn append<S: Shape, const R: usize>(dst: [usize; R], src: [usize; R]) {
    let (a, b) = (data(), data());
    let mut t = tensor::<u8, S, R>(&a, dst, 0);
    let mut u = tensor::<u8, S, R>(&b, src, 0);
    t.append(&mut u);
    let l = Lay::dense(src);
    appended(&t, dst, src, &a, |i| b[l.lin(&i)]);
    let mut d = src;
    d[0] = 0;
    Lay::dense(d).same_dims(&u);
}

fn extend(m: usize, n: usize) {
    let (a, b) = (data(), data());
    let mut t = tensor::<u8, D1, 1>(&a, [m], 1);
    t.extend(b[..n].iter());
    equals(&t, [m + n], |i| if i[0] < m { a[i[0]] } else { b[i[0] - m] });
    let mut t = tensor::<u8, D1, 1>(&a, [m], 0);
    t.extend(b[..n].iter().map(|x| x ^ 1));
    equals(&t, [m + n], |i| if i[0] < m { a[i[0]] } else { b[i[0] - m] ^ 1 });
}

fn reserve(k: usize, n: usize) {
    let a = data();
    let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 2);
    match k {
        0 => t.reserve(n),
        1 => t.reserve_exact(n),
        2 => assert!(t.try_reserve(n).is_ok()),
        _ => assert!(t.try_reserve_exact(n).is_ok()),
    }
    equals(&t, [2, 2], |i| a[i[0] * 2 + i[1]]);
    assert!(t.capacity() >= 4 + n);
    let p = t.as_ptr();
    let s = t.spare_capacity_mut();
    assert!(s.len() >= n);
    assert!(s.as_ptr() as *const u8 == unsafe { p.add(4) });
    if n > 0 {
        s[n - 1].write(0);
    }
}

fn shrink(n: usize) {
    let a = data();
    let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 2);
    t.shrink_to(n);
    equals(&t, [2, 2], |i| a[i[0] * 2 + i[1]]);
    assert!(t.capacity() >= n.min(6) && t.capacity() >= 4);
}

harnesses! {
    holds thorough resize_1_0_0 [40] { resize::<D1, 1>([0], [0], 1); }
    holds thorough resize_1_0_3 [40] { resize::<D1, 1>([0], [3], 1); }
    holds thorough resize_1_2_0 [40] { resize::<D1, 1>([2], [0], 1); }
    holds thorough resize_1_3_1 [40] { resize::<D1, 1>([3], [1], 1); }
    holds thorough resize_1_3_2 [40] { resize::<D1, 1>([3], [2], 1); }
    holds thorough resize_1_3_3 [40] { resize::<D1, 1>([3], [3], 1); }
    holds thorough resize_1_2_4 [40] { resize::<D1, 1>([2], [4], 1); }
    holds thorough resize_1_3_5 [40] { resize::<D1, 1>([3], [5], 1); }
    holds thorough resize_1_1_4 [40] { resize::<D1, 1>([1], [4], 1); }
    holds thorough resize_23_00 [40] { resize::<D2, 2>([2, 3], [0, 0], 0); }
    holds thorough resize_23_01 [40] { resize::<D2, 2>([2, 3], [0, 1], 0); }
    holds thorough resize_23_02 [40] { resize::<D2, 2>([2, 3], [0, 2], 0); }
    holds thorough resize_23_03 [40] { resize::<D2, 2>([2, 3], [0, 3], 0); }
    holds thorough resize_23_04 [40] { resize::<D2, 2>([2, 3], [0, 4], 0); }
    holds thorough resize_23_10 [40] { resize::<D2, 2>([2, 3], [1, 0], 0); }
    holds thorough resize_23_11 [40] { resize::<D2, 2>([2, 3], [1, 1], 0); }
    holds quick resize_23_12 [40] { resize::<D2, 2>([2, 3], [1, 2], 0); }
    holds quick resize_23_13 [40] { resize::<D2, 2>([2, 3], [1, 3], 0); }
    holds thorough resize_23_14 [40] { resize::<D2, 2>([2, 3], [1, 4], 0); }
    holds thorough resize_23_20 [40] { resize::<D2, 2>([2, 3], [2, 0], 0); }
    holds thorough resize_23_21 [40] { resize::<D2, 2>([2, 3], [2, 1], 0); }
    holds thorough resize_23_22 [40] { resize::<D2, 2>([2, 3], [2, 2], 0); }
    holds thorough resize_23_23 [40] { resize::<D2, 2>([2, 3], [2, 3], 0); }
    holds quick resize_23_24 [40] { resize::<D2, 2>([2, 3], [2, 4], 0); }
    holds thorough resize_23_30 [40] { resize::<D2, 2>([2, 3], [3, 0], 0); }
    holds thorough resize_23_31 [40] { resize::<D2, 2>([2, 3], [3, 1], 0); }
    holds quick resize_23_32 [40] { resize::<D2, 2>([2, 3], [3, 2], 0); }
    holds thorough resize_23_33 [40] { resize::<D2, 2>([2, 3], [3, 3], 0); }
    holds quick resize_23_34 [40] { resize::<D2, 2>([2, 3], [3, 4], 0); }
    holds thorough resize_32_11 [40] { resize::<D2, 2>([3, 2], [1, 1], 3); }
    holds thorough resize_32_12 [40] { resize::<D2, 2>([3, 2], [1, 2], 3); }
    holds thorough resize_32_13 [40] { resize::<D2, 2>([3, 2], [1, 3], 3); }
    holds thorough resize_32_21 [40] { resize::<D2, 2>([3, 2], [2, 1], 3); }
    holds thorough resize_32_22 [40] { resize::<D2, 2>([3, 2], [2, 2], 3); }
    holds thorough resize_32_23 [40] { resize::<D2, 2>([3, 2], [2, 3], 3); }
    holds thorough resize_32_31 [40] { resize::<D2, 2>([3, 2], [3, 1], 3); }
    holds thorough resize_32_32 [40] { resize::<D2, 2>([3, 2], [3, 2], 3); }
    holds thorough resize_32_33 [40] { resize::<D2, 2>([3, 2], [3, 3], 3); }
    holds thorough resize_32_41 [40] { resize::<D2, 2>([3, 2], [4, 1], 3); }
    holds thorough resize_32_42 [40] { resize::<D2, 2>([3, 2], [4, 2], 3); }
    holds thorough resize_32_43 [40] { resize::<D2, 2>([3, 2], [4, 3], 3); }
    holds thorough resize_03_00 [40] { resize::<D2, 2>([0, 3], [0, 0], 0); }
    holds thorough resize_03_01 [40] { resize::<D2, 2>([0, 3], [0, 1], 0); }
    holds thorough resize_03_02 [40] { resize::<D2, 2>([0, 3], [0, 2], 0); }
    holds thorough resize_03_03 [40] { resize::<D2, 2>([0, 3], [0, 3], 0); }
    holds thorough resize_03_10 [40] { resize::<D2, 2>([0, 3], [1, 0], 0); }
    holds thorough resize_03_11 [40] { resize::<D2, 2>([0, 3], [1, 1], 0); }
    holds thorough resize_03_12 [40] { resize::<D2, 2>([0, 3], [1, 2], 0); }
    holds thorough resize_03_13 [40] { resize::<D2, 2>([0, 3], [1, 3], 0); }
    holds thorough resize_03_20 [40] { resize::<D2, 2>([0, 3], [2, 0], 0); }
    holds thorough resize_03_21 [40] { resize::<D2, 2>([0, 3], [2, 1], 0); }
    holds thorough resize_03_22 [40] { resize::<D2, 2>([0, 3], [2, 2], 0); }
    holds quick resize_03_23 [40] { resize::<D2, 2>([0, 3], [2, 3], 0); }
    holds thorough resize_20_00 [40] { resize::<D2, 2>([2, 0], [0, 0], 0); }
    holds thorough resize_20_01 [40] { resize::<D2, 2>([2, 0], [0, 1], 0); }
    holds thorough resize_20_02 [40] { resize::<D2, 2>([2, 0], [0, 2], 0); }
    holds thorough resize_20_03 [40] { resize::<D2, 2>([2, 0], [0, 3], 0); }
    holds thorough resize_20_10 [40] { resize::<D2, 2>([2, 0], [1, 0], 0); }
    holds thorough resize_20_11 [40] { resize::<D2, 2>([2, 0], [1, 1], 0); }
    holds thorough resize_20_12 [40] { resize::<D2, 2>([2, 0], [1, 2], 0); }
    holds thorough resize_20_13 [40] { resize::<D2, 2>([2, 0], [1, 3], 0); }
    holds thorough resize_20_20 [40] { resize::<D2, 2>([2, 0], [2, 0], 0); }
    holds thorough resize_20_21 [40] { resize::<D2, 2>([2, 0], [2, 1], 0); }
    holds thorough resize_20_22 [40] { resize::<D2, 2>([2, 0], [2, 2], 0); }
    holds quick resize_20_23 [40] { resize::<D2, 2>([2, 0], [2, 3], 0); }
    holds quick resize_3_222_223 [40] { resize::<D3, 3>([2, 2, 2], [2, 2, 3], 0); }
    holds thorough resize_3_222_322 [40] { resize::<D3, 3>([2, 2, 2], [3, 2, 2], 0); }
    holds thorough resize_3_222_231 [40] { resize::<D3, 3>([2, 2, 2], [2, 3, 1], 0); }
    holds quick resize_3_232_123 [40] { resize::<D3, 3>([2, 3, 2], [1, 2, 3], 0); }
    holds quick resize_3_212_321 [40] { resize::<D3, 3>([2, 1, 2], [3, 2, 1], 0); }
    holds thorough resize_3_212_301 [40] { resize::<D3, 3>([2, 1, 2], [3, 0, 1], 0); }
    holds thorough resize_3_122_213 [40] { resize::<D3, 3>([1, 2, 2], [2, 1, 3], 0); }
    holds thorough resize_dyn_3_2 [40] { resize::<DynRank, 1>([3], [2], 0); }
    holds thorough resize_dyn_3_4 [40] { resize::<DynRank, 1>([3], [4], 0); }
    holds quick resize_dyn_23_32 [40] { resize::<DynRank, 2>([2, 3], [3, 2], 0); }
    holds thorough resize_dyn_22_23 [40] { resize::<DynRank, 2>([2, 2], [2, 3], 0); }
    holds quick resize_dyn_222_132 [40] { resize::<DynRank, 3>([2, 2, 2], [1, 3, 2], 0); }
    holds quick resize_const_32_42 [40] { resize::<(Dyn, Const<2>), 2>([3, 2], [4, 2], 0); }
    holds thorough resize_const_32_12 [40] { resize::<(Dyn, Const<2>), 2>([3, 2], [1, 2], 0); }
    holds quick resize_const_22_23 [40] { resize::<(Const<2>, Dyn), 2>([2, 2], [2, 3], 0); }
    holds thorough resize_const_23_21 [40] { resize::<(Const<2>, Dyn), 2>([2, 3], [2, 1], 0); }
    holds quick resize_const_212_232 [40] { resize::<(Const<2>, Dyn, Const<2>), 3>([2, 1, 2], [2, 3, 2], 0); }
    holds thorough resize_with_3_5 [40] { resize_with::<D1, 1>([3], [5]); }
    holds thorough resize_with_3_2 [40] { resize_with::<D1, 1>([3], [2]); }
    holds quick resize_with_23_34 [40] { resize_with::<D2, 2>([2, 3], [3, 4]); }
    holds quick resize_with_23_32 [40] { resize_with::<D2, 2>([2, 3], [3, 2]); }
    holds thorough resize_with_23_14 [40] { resize_with::<D2, 2>([2, 3], [1, 4]); }
    holds thorough resize_with_23_33 [40] { resize_with::<D2, 2>([2, 3], [3, 3]); }
    holds quick resize_with_222_313 [40] { resize_with::<D3, 3>([2, 2, 2], [3, 1, 3]); }
    holds thorough resize_with_223_132 [40] { resize_with::<D3, 3>([2, 2, 3], [1, 3, 2]); }
    holds thorough resize_with_221_232 [40] { resize_with::<DynRank, 3>([2, 2, 1], [2, 3, 2]); }
    holds thorough expand_1_00 [40] { expand::<D1, D1, 1>([0], [0]); }
    holds thorough expand_1_01 [40] { expand::<D1, D1, 1>([0], [1]); }
    holds quick expand_1_02 [40] { expand::<D1, D1, 1>([0], [2]); }
    holds thorough expand_1_03 [40] { expand::<D1, D1, 1>([0], [3]); }
    holds thorough expand_1_10 [40] { expand::<D1, D1, 1>([1], [0]); }
    holds thorough expand_1_11 [40] { expand::<D1, D1, 1>([1], [1]); }
    holds thorough expand_1_12 [40] { expand::<D1, D1, 1>([1], [2]); }
    holds thorough expand_1_13 [40] { expand::<D1, D1, 1>([1], [3]); }
    holds thorough expand_1_20 [40] { expand::<D1, D1, 1>([2], [0]); }
    holds thorough expand_1_21 [40] { expand::<D1, D1, 1>([2], [1]); }
    holds thorough expand_1_22 [40] { expand::<D1, D1, 1>([2], [2]); }
    holds quick expand_1_23 [40] { expand::<D1, D1, 1>([2], [3]); }
    holds thorough expand_1_30 [40] { expand::<D1, D1, 1>([3], [0]); }
    holds quick expand_1_31 [40] { expand::<D1, D1, 1>([3], [1]); }
    holds thorough expand_1_32 [40] { expand::<D1, D1, 1>([3], [2]); }
    holds thorough expand_1_33 [40] { expand::<D1, D1, 1>([3], [3]); }
    holds thorough expand_2_00 [40] { expand::<D2, D2, 2>([0, 2], [0, 2]); }
    holds thorough expand_2_01 [40] { expand::<D2, D2, 2>([0, 2], [1, 2]); }
    holds thorough expand_2_02 [40] { expand::<D2, D2, 2>([0, 2], [2, 2]); }
    holds thorough expand_2_10 [40] { expand::<D2, D2, 2>([1, 2], [0, 2]); }
    holds thorough expand_2_11 [40] { expand::<D2, D2, 2>([1, 2], [1, 2]); }
    holds quick expand_2_12 [40] { expand::<D2, D2, 2>([1, 2], [2, 2]); }
    holds quick expand_2_20 [40] { expand::<D2, D2, 2>([2, 2], [0, 2]); }
    holds quick expand_2_21 [40] { expand::<D2, D2, 2>([2, 2], [1, 2]); }
    holds thorough expand_2_22 [40] { expand::<D2, D2, 2>([2, 2], [2, 2]); }
    holds quick expand_0_02_23 [40] { expand::<D2, D2, 2>([0, 2], [2, 3]); }
    holds quick expand_1_30_12 [40] { expand::<D2, D2, 2>([3, 0], [1, 2]); }
    holds thorough expand_2_22_03 [40] { expand::<D2, D2, 2>([2, 2], [0, 3]); }
    holds thorough expand_3_22_30 [40] { expand::<D2, D2, 2>([2, 2], [3, 0]); }
    holds quick expand_4_122_222 [40] { expand::<D3, D3, 3>([1, 2, 2], [2, 2, 2]); }
    holds thorough expand_5_212_112 [40] { expand::<D3, D3, 3>([2, 1, 2], [1, 1, 2]); }
    holds quick expand_6_12_22 [40] { expand::<DynRank, DynRank, 2>([1, 2], [2, 2]); }
    holds thorough expand_7_12_22 [40] { expand::<DynRank, D2, 2>([1, 2], [2, 2]); }
    holds quick expand_8_22_12 [40] { expand::<D2, DynRank, 2>([2, 2], [1, 2]); }
    holds thorough expand_9_2_2 [40] { expand::<DynRank, DynRank, 1>([2], [2]); }
    holds quick expand_10_12_22 [40] { expand::<(Dyn, Const<2>), (Dyn, Const<2>), 2>([1, 2], [2, 2]); }
    holds thorough expand_11_02_22 [40] { expand::<(Dyn, Const<2>), D2, 2>([0, 2], [2, 2]); }
    holds thorough expand_12_12_22 [40] { expand::<D2, (Const<2>, Const<2>), 2>([1, 2], [2, 2]); }
    holds thorough append_2_00 [40] { append::<D2, 2>([0, 2], [0, 2]); }
    holds thorough append_2_01 [40] { append::<D2, 2>([0, 2], [1, 2]); }
    holds quick append_2_02 [40] { append::<D2, 2>([0, 2], [2, 2]); }
    holds thorough append_2_10 [40] { append::<D2, 2>([1, 2], [0, 2]); }
    holds thorough append_2_11 [40] { append::<D2, 2>([1, 2], [1, 2]); }
    holds quick append_2_12 [40] { append::<D2, 2>([1, 2], [2, 2]); }
    holds quick append_2_20 [40] { append::<D2, 2>([2, 2], [0, 2]); }
    holds thorough append_2_21 [40] { append::<D2, 2>([2, 2], [1, 2]); }
    holds thorough append_2_22 [40] { append::<D2, 2>([2, 2], [2, 2]); }
    holds thorough append_3 [40] { append::<DynRank, 3>([1, 1, 2], [2, 1, 2]); }
    holds thorough extend_00 [40] { extend(0, 0); }
    holds thorough extend_01 [40] { extend(0, 1); }
    holds thorough extend_02 [40] { extend(0, 2); }
    holds thorough extend_03 [40] { extend(0, 3); }
    holds thorough extend_10 [40] { extend(1, 0); }
    holds thorough extend_11 [40] { extend(1, 1); }
    holds thorough extend_12 [40] { extend(1, 2); }
    holds thorough extend_13 [40] { extend(1, 3); }
    holds thorough extend_20 [40] { extend(2, 0); }
    holds thorough extend_21 [40] { extend(2, 1); }
    holds thorough extend_22 [40] { extend(2, 2); }
    holds quick extend_23 [40] { extend(2, 3); }
    holds thorough reserve_0_0 [40] { reserve(0, 0); }
    holds thorough reserve_1_0 [40] { reserve(1, 0); }
    holds thorough reserve_2_0 [40] { reserve(2, 0); }
    holds thorough reserve_3_0 [40] { reserve(3, 0); }
    holds thorough reserve_0_1 [40] { reserve(0, 1); }
    holds thorough reserve_1_1 [40] { reserve(1, 1); }
    holds thorough reserve_2_1 [40] { reserve(2, 1); }
    holds thorough reserve_3_1 [40] { reserve(3, 1); }
    holds thorough reserve_0_2 [40] { reserve(0, 2); }
    holds thorough reserve_1_2 [40] { reserve(1, 2); }
    holds thorough reserve_2_2 [40] { reserve(2, 2); }
    holds thorough reserve_3_2 [40] { reserve(3, 2); }
    holds thorough reserve_0_3 [40] { reserve(0, 3); }
    holds thorough reserve_1_3 [40] { reserve(1, 3); }
    holds thorough reserve_2_3 [40] { reserve(2, 3); }
    holds thorough reserve_3_3 [40] { reserve(3, 3); }
    holds thorough reserve_0_4 [40] { reserve(0, 4); }
    holds thorough reserve_1_4 [40] { reserve(1, 4); }
    holds thorough reserve_2_4 [40] { reserve(2, 4); }
    holds thorough reserve_3_4 [40] { reserve(3, 4); }
    holds thorough reserve_0_5 [40] { reserve(0, 5); }
    holds thorough reserve_1_5 [40] { reserve(1, 5); }
    holds thorough reserve_2_5 [40] { reserve(2, 5); }
    holds thorough reserve_3_5 [40] { reserve(3, 5); }
    holds thorough shrink_0 [40] { shrink(0); }
    holds thorough shrink_1 [40] { shrink(1); }
    holds thorough shrink_2 [40] { shrink(2); }
    holds thorough shrink_3 [40] { shrink(3); }
    holds thorough shrink_4 [40] { shrink(4); }
    holds thorough shrink_5 [40] { shrink(5); }
    holds thorough shrink_6 [40] { shrink(6); }
    holds thorough shrink_7 [40] { shrink(7); }

    holds quick larger_1 [40] { larger::<D1, 1, 20>([20], [17]); larger::<D1, 1, 9>([9], [20]); }
    holds quick larger_2 [40] { larger::<D2, 2, 20>([4, 5], [5, 4]); }
    holds quick larger_2_both [40] { larger::<D2, 2, 20>([5, 4], [3, 7]); }
    holds thorough larger_2_outer [40] { larger::<D2, 2, 18>([9, 2], [11, 2]); }
    holds thorough larger_3 [40] { larger::<D3, 3, 24>([3, 2, 4], [2, 3, 5]); }
    holds quick larger_extend [40] {
        let (a, b) = (more::<9>(), more::<10>());
        let mut t = tensor::<u8, D1, 1>(&a, [9], 1);
        t.extend(b.iter());
        equals(&t, [19], |i| if i[0] < 9 { a[i[0]] } else { b[i[0] - 9] });
    }
    holds quick larger_expand [40] {
        let (a, b) = (more::<15>(), more::<9>());
        let l = Lay::strided([3, 3], 9, 4);
        let mut t = tensor::<u8, D2, 2>(&a, [5, 3], 0);
        t.expand(&l.view::<u8, D2>(&b));
        appended(&t, [5, 3], [3, 3], &a, |i| b[l.pos(&i)]);
    }
    holds quick larger_append [40] {
        let (a, b) = (more::<10>(), more::<10>());
        let mut t = tensor::<u8, D2, 2>(&a, [5, 2], 0);
        let mut u = tensor::<u8, D2, 2>(&b, [5, 2], 0);
        t.append(&mut u);
        let l = Lay::dense([5, 2]);
        appended(&t, [5, 2], [5, 2], &a, |i| b[l.lin(&i)]);
        Lay::dense([0, 2]).same_dims(&u);
    }

    holds quick resize_1_a [40] {
        resize::<D1, 1>([0], [3], 1);
        resize::<D1, 1>([2], [0], 1);
    }
    holds quick resize_1_b [40] {
        resize::<D1, 1>([3], [2], 1);
        resize_with::<D1, 1>([2], [4]);
    }
    holds quick resize_2_to_empty [40] {
        resize::<D2, 2>([2, 3], [0, 4], 1);
        resize::<D2, 2>([2, 3], [2, 0], 1);
    }
    holds quick reserve_a [40] {
        reserve(0, 5);
        reserve(2, 5);
    }
    holds quick reserve_b [40] {
        reserve(1, 5);
        reserve(3, 5);
    }
    holds quick clear_a [40] {
        let mut t = tensor::<u8, D2, 2>(&data(), [2, 3], 1);
        let c = t.capacity();
        t.clear();
        Lay::dense([0, 0]).same_dims(&t);
        assert!(t.capacity() == c);
        let mut t = tensor::<u8, (Dyn, Const<3>), 2>(&data(), [2, 3], 0);
        t.clear();
        Lay::dense([0, 3]).same_dims(&t);
    }
    holds quick shrink_a [40] {
        shrink(0);
        shrink(5);
    }
    holds quick truncate_1 [40] {
        let a = data();
        let n = sym::usize();
        let mut t = tensor::<u8, D1, 1>(&a, [4], 1);
        let c = t.capacity();
        t.truncate(n);
        equals(&t, [if n < 4 { n } else { 4 }], |i| a[i[0]]);
        assert!(t.capacity() == c);
    }
    holds thorough clear_2 [40] {
        let mut t = tensor::<u8, D2, 2>(&data(), [2, 3], 1);
        let c = t.capacity();
        t.clear();
        Lay::dense([0, 0]).same_dims(&t);
        assert!(t.capacity() == c);
    }
    holds thorough clear_const [40] {
        let mut t = tensor::<u8, (Dyn, Const<3>), 2>(&data(), [2, 3], 0);
        t.clear();
        Lay::dense([0, 3]).same_dims(&t);
    }
    holds quick clear_dyn [40] {
        let a = data();
        let mut t = tensor::<u8, DynRank, 2>(&a, [2, 3], 0);
        t.clear();
        Lay::dense([0]).same_dims(&t);
        let v = Lay::dense([2, 2]);
        t.expand(&v.dense_view::<u8, D2>(&a));
        equals(&t, [2, 2], |i| a[i[0] * 2 + i[1]]);
    }
    holds thorough clear_dyn_0 [40] {
        let mut t = tensor::<u8, DynRank, 0>(&data(), [], 0);
        t.clear();
        Lay::dense([0]).same_dims(&t);
    }
    holds quick new_empty [40] {
        let t = Tensor::<u8, D2>::new();
        Lay::dense([0, 0]).same_dims(&t);
        let t = Tensor::<u8, DynRank>::default();
        Lay::dense([0]).same_dims(&t);
        let mut t = Tensor::<u8, D2>::with_capacity(0);
        assert!(t.spare_capacity_mut().len() == t.capacity());
    }
    holds quick with_capacity [40] {
        let a = data();
        let mut t = Tensor::<u8, D2>::with_capacity(3);
        Lay::dense([0, 0]).same_dims(&t);
        assert!(t.capacity() >= 3);
        assert!(t.spare_capacity_mut().len() == t.capacity());
        t.expand(&Lay::dense([1, 2]).dense_view::<u8, D2>(&a));
        equals(&t, [1, 2], |i| a[i[1]]);
    }
    holds quick shrink_to_fit [40] {
        let a = data();
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 2);
        t.shrink_to_fit();
        equals(&t, [2, 2], |i| a[i[0] * 2 + i[1]]);
        let mut t = tensor::<u8, D2, 2>(&a, [2, 0], 2);
        t.shrink_to_fit();
        Lay::dense([2, 0]).same_dims(&t);
        t.reserve(2);
        assert!(t.capacity() >= 2);
    }
    holds quick expand_map [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [1, 2], 0);
        t.expand(Lay::dense([2, 2]).dense_view::<u8, D2>(&b).into_expr().map(|x| x ^ 1));
        appended(&t, [1, 2], [2, 2], &a, |i| b[i[0] * 2 + i[1]] ^ 1);
    }
    holds quick expand_fn [40] {
        let a = data();
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 0);
        t.expand(expr::from_fn([1, 2], |i: &[usize]| (10 * i[0] + i[1]) as u8));
        appended(&t, [2, 2], [1, 2], &a, |i| i[1] as u8);
    }
    holds quick expand_tensor [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [1, 2], 0);
        t.expand(tensor::<u8, D2, 2>(&b, [2, 2], 0));
        appended(&t, [1, 2], [2, 2], &a, |i| b[i[0] * 2 + i[1]]);
    }
    holds quick expand_array [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [1, 2], 8);
        t.expand(Array::<u8, (Const<2>, Const<2>)>([[b[0], b[1]], [b[2], b[3]]]));
        appended(&t, [1, 2], [2, 2], &a, |i| b[i[0] * 2 + i[1]]);
    }
    holds quick resize_0 [40] {
        let a = data();
        let mut t = tensor::<u8, (), 0>(&a, [], 0);
        t.resize(&[], 7);
        equals(&t, [], |_| a[0]);
        let mut t = tensor::<u8, DynRank, 0>(&a, [], 0);
        t.resize_with(&[], || panic!());
        equals(&t, [], |_| a[0]);
    }
    holds quick resize_zst [40] {
        let mut t = tensor::<(), D2, 2>(&[(); 6], [2, 3], 0);
        t.resize(&[4, 3], ());
        Lay::dense([4, 3]).same_dims(&t);
        t.resize(&[2, 2], ());
        Lay::dense([2, 2]).same_dims(&t);
    }

    holds quick expand_dyn_empty [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, DynRank, 1>(&a, [0], 2);
        let v = Lay::strided([2, 3], N, 6);
        t.expand(&v.view::<u8, D2>(&b));
        equals(&t, [2, 3], |i| b[v.pos(&i)]);
    }
    holds quick append_1 [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D1, 1>(&a, [2], 0);
        let mut u = tensor::<u8, D1, 1>(&b, [3], 0);
        t.append(&mut u);
        equals(&t, [5], |i| if i[0] < 2 { a[i[0]] } else { b[i[0] - 2] });
        Lay::dense([0]).same_dims(&u);
        u.append(&mut t);
        equals(&u, [5], |i| if i[0] < 2 { a[i[0]] } else { b[i[0] - 2] });
    }

    holds quick truncate_2 [40] {
        let (a, n) = (data(), sym::usize());
        let mut t = tensor::<u8, D2, 2>(&a, [3, 2], 1);
        t.truncate(n);
        equals(&t, [if n < 3 { n } else { 3 }, 2], |i| a[i[0] * 2 + i[1]]);
        let mut t = tensor::<u8, D2, 2>(&a, [3, 0], 1);
        t.truncate(n);
        Lay::dense([if n < 3 { n } else { 3 }, 0]).same_dims(&t);
    }
    holds quick truncate_3 [40] {
        let (a, n) = (data(), sym::usize());
        let mut t = tensor::<u8, DynRank, 3>(&a, [3, 2, 2], 0);
        t.truncate(n);
        equals(&t, [if n < 3 { n } else { 3 }, 2, 2], |i| a[i[0] * 4 + i[1] * 2 + i[2]]);
        let mut t = tensor::<u8, (Dyn, Const<2>, Dyn), 3>(&a, [2, 2, 2], 0);
        t.truncate(n);
        equals(&t, [if n < 2 { n } else { 2 }, 2, 2], |i| a[i[0] * 4 + i[1] * 2 + i[2]]);
    }
    holds quick try_reserve_overflow [40] {
        let a = data();
        let n = sym::usize();
        sym::assume(n > isize::MAX as usize);
        let mut t = tensor::<u8, D1, 1>(&a, [4], 0);
        assert!(t.try_reserve(n).is_err());
        assert!(t.try_reserve_exact(n).is_err());
        equals(&t, [4], |i| a[i[0]]);
    }
    holds quick spare_capacity [40] {
        let a = data();
        let x = sym::u8();
        let mut t = tensor::<u8, D2, 2>(&a, [1, 3], 4);
        let (p, c) = (t.as_ptr(), t.capacity());
        let s = t.spare_capacity_mut();
        assert!(s.len() == c - 3);
        assert!(s.as_ptr() as *const u8 == unsafe { p.add(3) });
        s[0].write(x);
        s[1].write(x ^ 1);
        s[2].write(x ^ 2);
        unsafe { t.set_mapping(mdarray::DenseMapping::new(mdarray::IntoShape::into_shape([2, 3]))) }
        equals(&t, [2, 3], |i| if i[0] == 0 { a[i[1]] } else { x ^ i[1] as u8 });
    }
    holds quick sequence [40] {
        // Grow, shrink and reshape the same tensor in any order of three operations.
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 1);
        let mut rows = 2;
        let mut r = [0u8; 12];
        r[..4].copy_from_slice(&a[..4]);
        for _ in 0..2 {
            if sym::any_bool() {
                t.expand(&Lay::dense([1, 2]).dense_view::<u8, D2>(&b));
                r[rows * 2] = b[0];
                r[rows * 2 + 1] = b[1];
                rows += 1;
            } else {
                t.truncate(1);
                rows = 1;
            }
        }
        equals(&t, [rows, 2], |i| r[i[0] * 2 + i[1]]);
    }

    panics quick bad_resize_rank [40] {
        let mut t = tensor::<u8, D2, 2>(&data(), [2, 2], 0);
        let d = dims::<3>(3);
        sym::before();
        if sym::any_bool() {
            t.resize(&d, 0);
        } else {
            t.resize(&d[..1], 0);
        }
    }
    panics quick bad_resize_rank_0 [40] {
        let mut t = tensor::<u8, D2, 2>(&data(), [2, 2], 0);
        sym::before();
        t.resize(&[], 0);
    }
    panics quick bad_resize_rank_dyn [40] {
        let mut t = tensor::<u8, DynRank, 2>(&data(), [2, 2], 0);
        let d = dims::<3>(3);
        sym::before();
        if sym::any_bool() {
            t.resize(&d, 0);
        } else {
            t.resize(&d[..1], 0);
        }
    }
    panics quick resize_overflow [40] {
        let mut t = tensor::<(), D2, 2>(&[(); 4], [2, 2], 0);
        let m = usize::MAX / 2 + 1 + sym::upto(3);
        sym::before();
        t.resize(&[m, 2], ());
    }
    panics quick bad_expand_inner [14] {
        let (a, b) = (data(), data());
        let n = sym::within(1, 4);
        sym::assume(n != 2);
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 0);
        let v = Lay::dense([1, n]);
        let v = v.dense_view::<u8, D2>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_inner_3 [14] {
        let (a, b) = (data(), data());
        let (m, n) = (sym::within(1, 3), sym::within(1, 4));
        sym::assume((m, n) != (1, 2));
        let mut t = tensor::<u8, D3, 3>(&a, [2, 1, 2], 0);
        let v = Lay::dense([1, m, n]);
        let v = v.dense_view::<u8, D3>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_rank [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 0);
        let v = Lay::dense([2]);
        let v = v.dense_view::<u8, D1>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_rank_dyn [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, DynRank, 2>(&a, [2, 2], 0);
        let v = Lay::dense([1, 2, 2]);
        let v = v.dense_view::<u8, D3>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_rank_0 [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, DynRank, 0>(&a, [], 0);
        let v = Lay::dense([2]);
        let v = v.dense_view::<u8, D1>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_empty_const [14] {
        let (a, b) = (data(), data());
        let n = sym::within(1, 4);
        sym::assume(n != 2);
        let mut t = tensor::<u8, (Dyn, Const<2>), 2>(&a, [0, 2], 0);
        let v = Lay::dense([1, n]);
        let v = v.dense_view::<u8, D2>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_expand_const [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, (Const<2>, Dyn), 2>(&a, [2, 2], 0);
        let n = sym::upto(3);
        let v = Lay::dense([n, 2]);
        let v = v.dense_view::<u8, D2>(&b);
        sym::before();
        t.expand(&v);
    }
    panics quick bad_append [40] {
        let (a, b) = (data(), data());
        let mut t = tensor::<u8, D2, 2>(&a, [2, 2], 0);
        let mut u = tensor::<u8, D2, 2>(&b, [2, 3], 0);
        sym::before();
        t.append(&mut u);
    }
    panics quick bad_truncate [40] {
        let mut t = tensor::<u8, (Const<2>, Dyn), 2>(&data(), [2, 2], 0);
        let n = sym::usize();
        sym::before();
        t.truncate(n);
    }
    panics quick bad_truncate_0 [40] {
        let mut t = tensor::<u8, DynRank, 0>(&data(), [], 0);
        let n = sym::usize();
        sym::before();
        t.truncate(n);
    }
    panics quick bad_clear [40] {
        let mut t = tensor::<u8, (Const<2>, Const<1>), 2>(&data(), [2, 1], 0);
        sym::before();
        t.clear();
    }
    panics quick bad_clear_0 [40] {
        let mut t = tensor::<u8, (), 0>(&data(), [], 0);
        sym::before();
        t.clear();
    }
    panics quick bad_new [40] {
        sym::before();
        if sym::any_bool() {
            let _ = Tensor::<u8, ()>::new();
        } else {
            let _ = Tensor::<u8, (Const<2>,)>::new();
        }
    }
    panics quick bad_with_capacity [40] {
        let n = sym::upto(3);
        sym::before();
        if sym::any_bool() {
            let _ = Tensor::<u8, ()>::with_capacity(n);
        } else {
            let _ = Tensor::<u8, (Const<2>,)>::with_capacity(n);
        }
    }
    panics quick reserve_overflow [40] {
        let n = sym::usize();
        sym::assume(n > isize::MAX as usize);
        let mut t = tensor::<u8, D1, 1>(&data(), [4], 0);
        sym::before();
        if sym::any_bool() {
            t.reserve(n);
        } else {
            t.reserve_exact(n);
        }
    }
}
