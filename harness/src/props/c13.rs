//! C13: operators.
//!
//! Bounds. All ten binary operators, the ten assigning ones and the two unary ones, with each
//! kind of left operand (arrays, tensors, slices and views by reference and by value, fill
//! expressions, element and function expressions, consumed arrays, mapped expressions) and
//! right operands of the same rank and, for views, of lower or higher rank. Up to 6 elements,
//! rank 0-3; elements are symbolic and record which operator was applied, to which values and
//! in which order. Views have symbolic strides and base. Larger: (6,3) and (20) for
//! selected operators. Outside: larger shapes.
use crate::model::{dims, equals, tensor, Lay};
use crate::sym;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::*;
use std::ops::*;

type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;
type A2 = Array<W, (Const<2>,)>;

const N: usize = 9;

/// Element which records the operator that gave it and its operands.
#[derive(Clone, Copy, PartialEq)]
pub struct W {
    op: u8,
    x: u8,
    y: u8,
}

fn w(x: u8) -> W {
    W { op: 0, x, y: 0 }
}

fn r(op: u8, x: W, y: W) -> W {
    W { op, x: x.x, y: y.x }
}

macro_rules! binary {
    ($($trt:ident $f:ident $atrt:ident $af:ident $n:literal),+) => {$(
        impl $trt<W> for W { type Output = W; fn $f(self, o: W) -> W { r($n, self, o) } }
        impl $trt<&W> for W { type Output = W; fn $f(self, o: &W) -> W { r($n, self, *o) } }
        impl $trt<W> for &W { type Output = W; fn $f(self, o: W) -> W { r($n, *self, o) } }
        impl $trt<&W> for &W { type Output = W; fn $f(self, o: &W) -> W { r($n, *self, *o) } }
        impl $atrt<W> for W { fn $af(&mut self, o: W) { *self = r($n + 100, *self, o) } }
        impl $atrt<&W> for W { fn $af(&mut self, o: &W) { *self = r($n + 100, *self, *o) } }
    )+}
}

binary!(
    Add add AddAssign add_assign 1, Sub sub SubAssign sub_assign 2, Mul mul MulAssign mul_assign 3,
    Div div DivAssign div_assign 4, Rem rem RemAssign rem_assign 5,
    BitAnd bitand BitAndAssign bitand_assign 6, BitOr bitor BitOrAssign bitor_assign 7,
    BitXor bitxor BitXorAssign bitxor_assign 8, Shl shl ShlAssign shl_assign 9,
    Shr shr ShrAssign shr_assign 10
);

macro_rules! unary {
    ($($trt:ident $f:ident $n:literal),+) => {$(
        impl $trt for W { type Output = W; fn $f(self) -> W { W { op: $n, ..self } } }
        impl $trt for &W { type Output = W; fn $f(self) -> W { W { op: $n, ..*self } } }
    )+}
}

unary!(Neg neg 21, Not not 22);

fn buf() -> [W; N] {
    let mut a = [w(0); N];
    for k in 0..N {
        a[k] = w(sym::u8());
    }
    a
}

fn flip(x: &W) -> W {
    w(x.x ^ 1)
}

fn arr(a: &[W; N]) -> A2 {
    Array::from([a[0], a[1]])
}

/// All elements of the expression, in order.
fn check<E: Expression<Item = W>, const R: usize>(e: E, d: [usize; R], f: impl Fn(usize) -> W) {
    assert!(e.rank() == R && e.len() == Lay::dense(d).len());
    for k in 0..R {
        assert!(e.dim(k) == d[k]);
    }
    let mut n = 0;
    e.for_each(|x| {
        assert!(x == f(n));
        n += 1;
    });
    assert!(n == Lay::dense(d).len());
}

/// Two one-dimensional views, with symbolic strides.
macro_rules! setup {
    ($a:ident, $b:ident, $l:ident, $k:ident) => {
        let ($a, $b) = (buf(), buf());
        let $l = Lay::strided([2], N, 8);
        let $k = Lay::strided([2], N, 8);
    };
}

macro_rules! all_ops {
    ($x:expr, $y:expr, $check:expr) => {{
        let check = $check;
        match sym::within(1, 10) {
            1 => check(($x + $y).into_expr(), 1),
            2 => check(($x - $y).into_expr(), 2),
            3 => check(($x * $y).into_expr(), 3),
            4 => check(($x / $y).into_expr(), 4),
            5 => check(($x % $y).into_expr(), 5),
            6 => check(($x & $y).into_expr(), 6),
            7 => check(($x | $y).into_expr(), 7),
            8 => check(($x ^ $y).into_expr(), 8),
            9 => check(($x << $y).into_expr(), 9),
            _ => check(($x >> $y).into_expr(), 10),
        }
    }};
}

macro_rules! some_ops {
    ($x:expr, $y:expr, $check:expr) => {{
        let check = $check;
        match sym::within(1, 2) {
            1 => check(($x - $y).into_expr(), 2),
            _ => check(($x << $y).into_expr(), 9),
        }
    }};
}

/// Operands of the given ranks, where the one with lower rank is repeated.
fn broadcast<S: Shape, P: Shape, const R: usize, const Q: usize, const M: usize>(
    d: [usize; R],
    q: [usize; Q],
    m: [usize; M],
) {
    let (a, b) = (buf(), buf());
    let (l, k) = (Lay::strided(d, N, 4), Lay::strided(q, N, 4));
    let o = Lay::dense(m);
    let (v, u) = (l.view::<W, S>(&a), k.view::<W, P>(&b));
    check(&v - &u, m, |n| {
        let i = o.unlin(n);
        let (mut x, mut y) = ([0; R], [0; Q]);
        for t in 0..R {
            x[t] = i[M - R + t];
        }
        for t in 0..Q {
            y[t] = i[M - Q + t];
        }
        r(2, a[l.pos(&x)], b[k.pos(&y)])
    });
}

/// Assigning operator, where the right operand is repeated.
fn assigned<S: Shape, P: Shape, const R: usize, const Q: usize>(d: [usize; R], q: [usize; Q]) {
    let (mut a, b) = (buf(), buf());
    let c = a;
    let (l, k) = (Lay::strided_mut(d, N, 5), Lay::strided(q, N, 4));
    let mut v = l.view_mut::<W, S>(&mut a);
    v -= &k.view::<W, P>(&b);
    // The element at each position has been changed if in the array, and is otherwise kept.
    let p = sym::upto(N - 1);
    let mut e = c[p];
    for n in 0..l.len() {
        let i = l.unlin(n);
        let mut y = [0; Q];
        for t in 0..Q {
            y[t] = i[R - Q + t];
        }
        if l.pos(&i) == p {
            e = r(102, c[p], b[k.pos(&y)]);
        }
    }
    assert!(a[p] == e);
}

macro_rules! assign_ops {
    ($x:expr, $y:expr) => {
        match sym::within(1, 10) {
            1 => { $x += $y; 101 }
            2 => { $x -= $y; 102 }
            3 => { $x *= $y; 103 }
            4 => { $x /= $y; 104 }
            5 => { $x %= $y; 105 }
            6 => { $x &= $y; 106 }
            7 => { $x |= $y; 107 }
            8 => { $x ^= $y; 108 }
            9 => { $x <<= $y; 109 }
            _ => { $x >>= $y; 110 }
        }
    };
}

harnesses! {
    // Each operator, for the kinds of left operand.
    holds quick ops_view_ref [12] {
        setup!(a, b, l, k);
        let (v, u) = (l.view::<W, S1>(&a), k.view::<W, S1>(&b));
        all_ops!(&v, &u, |e, o| check(e, [2], |n| r(o, a[l.pos(&[n])], b[k.pos(&[n])])));
    }
    holds quick ops_view [12] {
        setup!(a, b, l, k);
        all_ops!(l.view::<W, S1>(&a), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[l.pos(&[n])], b[k.pos(&[n])])));
    }
    holds quick ops_slice [12] {
        setup!(a, b, l, k);
        let (v, u) = (l.view::<W, S1>(&a), k.view::<W, S1>(&b));
        all_ops!(&*v, &*u, |e, o| check(e, [2], |n| r(o, a[l.pos(&[n])], b[k.pos(&[n])])));
    }
    holds quick ops_view_mut [12] {
        let (mut a, b) = (buf(), buf());
        let c = a;
        let l = Lay::strided_mut([2], N, 8);
        let v = l.view_mut::<W, S1>(&mut a);
        some_ops!(&v, arr(&b).into_expr(), |e, o| check(e, [2], |n| r(o, c[l.pos(&[n])], b[n])));
    }
    holds thorough ops_view_mut_all [12] {
        let (mut a, b) = (buf(), buf());
        let c = a;
        let l = Lay::strided_mut([2], N, 8);
        let v = l.view_mut::<W, S1>(&mut a);
        all_ops!(&v, arr(&b).into_expr(), |e, o| check(e, [2], |n| r(o, c[l.pos(&[n])], b[n])));
    }
    holds quick ops_array_ref [12] {
        let (a, b) = (buf(), buf());
        let (x, y) = (arr(&a), arr(&b));
        all_ops!(&x, &y, |e, o| check(e, [2], |n| r(o, a[n], b[n])));
    }
    holds quick ops_array [12] {
        let (a, b) = (buf(), buf());
        some_ops!(arr(&a), arr(&b), |e, o| check(e, [2], |n| r(o, a[n], b[n])));
    }
    holds thorough ops_array_all [12] {
        let (a, b) = (buf(), buf());
        all_ops!(arr(&a), arr(&b), |e, o| check(e, [2], |n| r(o, a[n], b[n])));
    }
    holds quick ops_array_view [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        some_ops!(arr(&a), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds thorough ops_array_view_all [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        all_ops!(arr(&a), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds quick ops_ref_array [12] {
        let (a, b) = (buf(), buf());
        let x = arr(&a);
        some_ops!(&x, arr(&b), |e, o| check(e, [2], |n| r(o, a[n], b[n])));
    }
    holds thorough ops_ref_array_all [12] {
        let (a, b) = (buf(), buf());
        let x = arr(&a);
        all_ops!(&x, arr(&b), |e, o| check(e, [2], |n| r(o, a[n], b[n])));
    }
    holds quick ops_fill [12] {
        let (x, b) = (w(sym::u8()), buf());
        let k = Lay::strided([2], N, 8);
        all_ops!(expr::fill(x), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, x, b[k.pos(&[n])])));
    }
    holds quick ops_view_fill [12] {
        let (a, y) = (buf(), w(sym::u8()));
        let k = Lay::strided([2], N, 8);
        all_ops!(k.view::<W, S1>(&a), expr::fill(y), |e, o| check(e, [2], |n| r(o, a[k.pos(&[n])], y)));
    }
    holds quick ops_fill_with [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        let mut c = 0;
        let f = || { c += 1; a[c - 1] };
        all_ops!(expr::fill_with(f), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds quick ops_from_elem [12] {
        let (x, b) = (w(sym::u8()), buf());
        let k = Lay::strided([2], N, 8);
        all_ops!(expr::from_elem([2], x), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, x, b[k.pos(&[n])])));
    }
    holds quick ops_from_fn [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        let f = |i: &[usize]| a[i[0]];
        all_ops!(expr::from_fn([2], f), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds quick ops_into_expr [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        all_ops!(arr(&a).into_expr(), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds quick ops_map [12] {
        setup!(a, b, l, k);
        let v = l.view::<W, S1>(&a);
        all_ops!(v.expr().map(flip), k.view::<W, S1>(&b), |e, o| check(e, [2], |n| {
            r(o, w(a[l.pos(&[n])].x ^ 1), b[k.pos(&[n])])
        }));
    }
    holds quick ops_tensor_ref [12] {
        let (a, b) = (buf(), buf());
        let x = tensor::<W, S1, 1>(&a, [2], 0);
        let k = Lay::strided([2], N, 8);
        all_ops!(&x, k.view::<W, S1>(&b), |e, o| check(e, [2], |n| r(o, a[n], b[k.pos(&[n])])));
    }
    holds quick sub_tensor [20] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2, 2], N, 5);
        let x = tensor::<W, S2, 2>(&a, [2, 2], 1) - k.view::<W, S2>(&b);
        equals(&x, [2, 2], |i| r(2, a[2 * i[0] + i[1]], b[k.pos(&i)]));
    }
    holds quick rem_tensor [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 5);
        let x = tensor::<W, S2, 2>(&a, [3, 2], 0) % &k.view::<W, S1>(&b);
        equals(&x, [3, 2], |i| r(5, a[2 * i[0] + i[1]], b[k.pos(&[i[1]])]));
    }
    holds quick add_tensor_tensor [20] {
        let (a, b) = (buf(), buf());
        let x = tensor::<W, DynRank, 2>(&a, [2, 2], 0) + tensor::<W, S2, 2>(&b, [2, 2], 1);
        equals(&x, [2, 2], |i| r(1, a[2 * i[0] + i[1]], b[2 * i[0] + i[1]]));
    }
    holds quick sub_ref_tensor [20] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2, 2], N, 5);
        let x = &k.view::<W, S2>(&a) - tensor::<W, S2, 2>(&b, [2, 2], 1);
        equals(&x, [2, 2], |i| r(2, a[k.pos(&i)], b[2 * i[0] + i[1]]));
    }
    holds quick div_fill_tensor [12] {
        let (a, b) = (w(sym::u8()), buf());
        let x = expr::fill(a) / tensor::<W, S2, 2>(&b, [2, 2], 1);
        equals(&x, [2, 2], |i| r(4, a, b[2 * i[0] + i[1]]));
    }
    holds quick chain [12] {
        let (a, b) = (buf(), buf());
        let (l, k) = (Lay::strided([2], N, 8), Lay::strided([2], N, 8));
        let c = buf();
        let (v, u) = (l.view::<W, S1>(&a), k.view::<W, S1>(&b));
        // Operands are combined as nested expressions.
        check((&v - &u) << arr(&c).into_expr(), [2], |n| r(9, r(2, a[l.pos(&[n])], b[k.pos(&[n])]), c[n]));
        check(expr::fill(c[0]) - -(&v * &u), [2], |n| r(2, c[0], r(3, a[l.pos(&[n])], b[k.pos(&[n])])));
    }

    // Operands with different rank.
    holds quick broadcast_2_2 [20] { broadcast::<S2, S2, 2, 2, 2>([2, 3], [2, 3], [2, 3]) }
    holds quick broadcast_2_1 [16] { broadcast::<S2, S1, 2, 1, 2>([2, 3], [3], [2, 3]) }
    holds quick broadcast_1_2 [16] { broadcast::<S1, S2, 1, 2, 2>([2], [3, 2], [3, 2]) }
    holds quick broadcast_0_2 [16] { broadcast::<(), S2, 0, 2, 2>([], [2, 2], [2, 2]) }
    holds quick broadcast_2_0 [16] { broadcast::<S2, (), 2, 0, 2>([2, 2], [], [2, 2]) }
    holds quick broadcast_3_1 [28] { broadcast::<S3, S1, 3, 1, 3>([2, 1, 2], [2], [2, 1, 2]) }
    holds quick broadcast_2_3 [28] { broadcast::<S2, S3, 2, 3, 3>([1, 2], [2, 1, 2], [2, 1, 2]) }
    holds thorough broadcast_3_3 [28] { broadcast::<S3, S3, 3, 3, 3>([2, 2, 2], [2, 2, 2], [2, 2, 2]) }
    holds thorough broadcast_3_2 [28] { broadcast::<S3, S2, 3, 2, 3>([2, 2, 2], [2, 2], [2, 2, 2]) }
    holds quick broadcast_dyn [16] { broadcast::<DynRank, S1, 2, 1, 2>([2, 2], [2], [2, 2]) }
    holds thorough broadcast_dyn_1_2 [16] { broadcast::<DynRank, DynRank, 1, 2, 2>([2], [2, 2], [2, 2]) }
    holds quick broadcast_empty [16] { broadcast::<S2, S1, 2, 1, 2>([0, 2], [2], [0, 2]) }
    holds quick broadcast_empty_inner [16] { broadcast::<S1, S2, 1, 2, 2>([0], [2, 0], [2, 0]) }
    holds quick assigned_1 [16] { assigned::<S1, S1, 1, 1>([3], [3]) }
    holds quick assigned_2 [20] { assigned::<S2, S2, 2, 2>([2, 2], [2, 2]) }
    holds quick assigned_2_1 [16] { assigned::<S2, S1, 2, 1>([2, 2], [2]) }
    holds quick assigned_2_0 [16] { assigned::<S2, (), 2, 0>([2, 3], []) }
    holds quick assigned_3_2 [28] { assigned::<S3, S2, 3, 2>([2, 1, 2], [1, 2]) }
    holds quick assigned_dyn [16] { assigned::<DynRank, S1, 2, 1>([2, 2], [2]) }
    holds quick assigned_empty [20] { assigned::<S2, S2, 2, 2>([2, 0], [2, 0]) }
    holds thorough assigned_23 [20] { assigned::<S2, S2, 2, 2>([2, 3], [2, 3]) }
    holds thorough assigned_222 [28] { assigned::<S3, S3, 3, 3>([2, 2, 2], [2, 2, 2]) }

    // Each assigning operator, for the kinds of left operand.
    holds quick assign_array [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::strided([2], N, 8);
        let mut x = arr(&a);
        let o = assign_ops!(x, &k.view::<W, S1>(&b));
        equals(&x, [2], |i| r(o, a[i[0]], b[k.pos(&i)]));
    }
    holds quick assign_array_fill [12] {
        let (a, b) = (buf(), w(sym::u8()));
        let mut x = arr(&a);
        let o = assign_ops!(x, expr::fill(b));
        equals(&x, [2], |i| r(o, a[i[0]], b));
    }
    holds quick assign_tensor [12] {
        let (a, b) = (buf(), buf());
        let mut x = tensor::<W, S1, 1>(&a, [2], 0);
        let o = assign_ops!(x, arr(&b));
        equals(&x, [2], |i| r(o, a[i[0]], b[i[0]]));
    }
    holds quick assign_slice [12] {
        let (mut a, b) = (buf(), buf());
        let c = a;
        let l = Lay::strided_mut([2], N, 8);
        let mut v = l.view_mut::<W, S1>(&mut a);
        let s: &mut Slice<W, S1, Strided> = &mut v;
        *s -= arr(&b);
        let o = 102;
        let n = sym::upto(1);
        assert!(a[l.pos(&[n])] == r(o, c[l.pos(&[n])], b[n]));
    }
    holds quick assign_view_mut [12] {
        let (mut a, b) = (buf(), buf());
        let c = a;
        let l = Lay::strided_mut([2], N, 8);
        let mut v = l.view_mut::<W, S1>(&mut a);
        let o = assign_ops!(v, arr(&b));
        let n = sym::upto(1);
        assert!(a[l.pos(&[n])] == r(o, c[l.pos(&[n])], b[n]));
    }
    holds quick assign_tensor_2 [12] {
        let (a, b) = (buf(), buf());
        let mut x = tensor::<W, S2, 2>(&a, [3, 2], 0);
        x <<= arr(&b).expr();
        equals(&x, [3, 2], |i| r(109, a[2 * i[0] + i[1]], b[i[1]]));
    }

    // Unary operators.
    holds quick larger_binary [30] {
        let a: [W; 18] = std::array::from_fn(|_| w(sym::u8()));
        let b: [W; 18] = std::array::from_fn(|_| w(sym::u8()));
        let l = Lay { d: [6, 3], s: [1, 6], base: 0 };
        let k = Lay::dense([6, 3]);
        let e = l.view::<W, S2>(&a).into_expr() - k.dense_view::<W, S2>(&b).into_expr();
        check(e, [6, 3], |n| r(2, a[l.pos(&k.unlin(n))], b[n]));
        let e = k.dense_view::<W, S2>(&a).into_expr() << Lay::dense([3]).dense_view::<W, S1>(&b).into_expr();
        check(e, [6, 3], |n| r(9, a[n], b[n % 3]));
    }
    holds quick larger_assign [30] {
        let a: [W; 18] = std::array::from_fn(|_| w(sym::u8()));
        let b: [W; 18] = std::array::from_fn(|_| w(sym::u8()));
        let l = Lay { d: [6, 3], s: [1, 6], base: 0 };
        let k = Lay::dense([6, 3]);
        let mut t = tensor::<W, S2, 2>(&a, [6, 3], 0);
        t -= l.view::<W, S2>(&b);
        equals(&t, [6, 3], |i| r(102, a[k.lin(&i)], b[l.pos(&i)]));
    }
    holds quick larger_owned [30] {
        let a: [W; 20] = std::array::from_fn(|_| w(sym::u8()));
        let t = tensor::<W, S1, 1>(&a, [20], 0);
        let y = w(sym::u8());
        let u = t / expr::fill(y);
        equals(&u, [20], |i| r(4, a[i[0]], y));
    }
    holds quick unary_view [12] {
        let a = buf();
        let l = Lay::strided([2, 2], N, 5);
        let v = l.view::<W, S2>(&a);
        check(-&v, [2, 2], |n| W { op: 21, ..a[l.pos(&l.unlin(n))] });
        check(!&*v, [2, 2], |n| W { op: 22, ..a[l.pos(&l.unlin(n))] });
        check(!v, [2, 2], |n| W { op: 22, ..a[l.pos(&l.unlin(n))] });
    }
    holds quick unary_view_mut [12] {
        let mut a = buf();
        let c = a;
        let l = Lay::strided_mut([2, 2], N, 5);
        let v = l.view_mut::<W, S2>(&mut a);
        check(!&v, [2, 2], |n| W { op: 22, ..c[l.pos(&l.unlin(n))] });
        check(-&*v, [2, 2], |n| W { op: 21, ..c[l.pos(&l.unlin(n))] });
    }
    holds quick unary_array [12] {
        let a = buf();
        let x = arr(&a);
        check(-&x, [2], |n| W { op: 21, ..a[n] });
        check(!&x, [2], |n| W { op: 22, ..a[n] });
        equals(&!x.clone(), [2], |i| W { op: 22, ..a[i[0]] });
        equals(&-x, [2], |i| W { op: 21, ..a[i[0]] });
    }
    holds quick unary_exprs [12] {
        let a = buf();
        let l = Lay::strided([2], N, 5);
        let f = |i: &[usize]| a[i[0]];
        check(-arr(&a).into_expr(), [2], |n| W { op: 21, ..a[n] });
        check(!expr::from_fn([2], f), [2], |n| W { op: 22, ..a[n] });
        check(-expr::from_elem([2], a[0]), [2], |_| W { op: 21, ..a[0] });
        check((!expr::fill(a[0])).zip(arr(&a)).map(|(x, _)| x), [2], |_| W { op: 22, ..a[0] });
        let mut c = 0;
        let g = || { c += 1; a[c - 1] };
        check((-expr::fill_with(g)).zip(arr(&a)).map(|(x, _)| x), [2], |n| W { op: 21, ..a[n] });
        check(!l.view::<W, S1>(&a).map(|x| *x), [2], |n| W { op: 22, ..a[l.pos(&[n])] });
    }
    holds quick unary_tensor_ref [12] {
        let a = buf();
        let x = tensor::<W, S2, 2>(&a, [2, 2], 0);
        check(-&x, [2, 2], |n| W { op: 21, ..a[n] });
        check(!&x, [2, 2], |n| W { op: 22, ..a[n] });
    }
    holds quick unary_tensor [12] {
        let a = buf();
        equals(&-tensor::<W, S2, 2>(&a, [2, 2], 0), [2, 2], |i| W { op: 21, ..a[2 * i[0] + i[1]] });
    }
    holds quick unary_tensor_dyn [12] {
        let a = buf();
        equals(&!tensor::<W, DynRank, 2>(&a, [3, 1], 0), [3, 1], |i| W { op: 22, ..a[i[0]] });
    }

    // Operands that do not fit.
    panics quick mismatch_ref [20] {
        let (a, b) = (buf(), buf());
        let (l, k) = (Lay::dense(dims::<2>(3)), Lay::dense(dims::<2>(3)));
        sym::assume(l.d != k.d);
        sym::before();
        _ = &l.dense_view::<W, S2>(&a) + &k.dense_view::<W, S2>(&b);
    }
    panics quick mismatch_rank [12] {
        let (a, b) = (buf(), buf());
        let (l, k) = (Lay::dense(dims::<2>(3)), Lay::dense(dims::<1>(3)));
        sym::assume(l.d[1] != k.d[0]);
        sym::before();
        _ = &l.dense_view::<W, S2>(&a) + &k.dense_view::<W, S1>(&b);
    }
    panics quick mismatch_assign [20] {
        let (mut a, b) = (buf(), buf());
        let (l, k) = (Lay::dense(dims::<2>(3)), Lay::dense(dims::<2>(3)));
        sym::assume(l.d != k.d);
        let mut v = l.dense_view_mut::<W, S2>(&mut a);
        sym::before();
        v += &k.dense_view::<W, S2>(&b);
    }
    panics quick mismatch_assign_rank [12] {
        let (mut a, b) = (buf(), buf());
        let k = Lay::dense([2, 2]);
        let mut v = Lay::dense([2]).dense_view_mut::<W, S1>(&mut a);
        sym::before();
        v += &k.dense_view::<W, S2>(&b);
    }
    panics quick mismatch_array [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::dense(dims::<1>(3));
        sym::assume(k.d[0] != 2);
        sym::before();
        _ = arr(&a) + &k.dense_view::<W, S1>(&b);
    }
    panics quick mismatch_array_rank [12] {
        let (a, b) = (buf(), buf());
        sym::before();
        _ = arr(&a) + &Lay::dense([3, 2]).dense_view::<W, S2>(&b);
    }
    panics quick mismatch_tensor [12] {
        let (a, b) = (buf(), buf());
        let k = Lay::dense(dims::<1>(3));
        sym::assume(k.d[0] != 2);
        let x = tensor::<W, S1, 1>(&a, [2], 0);
        sym::before();
        _ = x + &k.dense_view::<W, S1>(&b);
    }
}
