//! C16: writes through views.
//!
//! Bounds. Writing to mutable strided views (rank 0-3, dynamic and constant shape, dynamic rank)
//! with dimensions up to 3 from the sets in the harnesses, symbolic strides up to 6 in absolute
//! value without overlap of elements, symbolic base, and all element values. Sources of assign:
//! strided views with symbolic strides and base, expressions, arrays and tensors by value, and
//! sources that are broadcast. Sequences of two writes through any of seven kinds of mutable view
//! of a 3 x 3 tensor, each with any position or range. Searching: dense and strided views with
//! the same bounds. Larger: selected views with up to 20 elements. Outside: larger shapes and
//! longer sequences.
use crate::model::{tensor, Lay};
use crate::sym;
use mdarray::expr::{self, Expression, IntoExpression};
use mdarray::*;

type S0 = Rank<0>;
type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;

fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

/// Each element of the layout has the value given by `f`, and nothing else has changed.
fn changed<const R: usize>(l: &Lay<R>, new: &[u8], old: &[u8], f: impl Fn([usize; R]) -> u8) {
    let p = sym::u8() as usize;
    sym::assume(p < old.len());
    let mut x = old[p];
    for n in 0..l.len() {
        let i = l.unlin(n);
        if l.pos(&i) == p {
            x = f(i);
        }
    }
    assert!(new[p] == x);
}

fn fill<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let (mut data, x) = (bytes::<N>(), sym::u8());
    let old = data;
    let l = Lay::strided_mut(d, N, smax);
    l.view_mut::<u8, S>(&mut data).fill(x);
    changed(&l, &data, &old, |_| x);
}

fn fill_with<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let (mut data, x) = (bytes::<N>(), bytes::<9>());
    let old = data;
    let l = Lay::strided_mut(d, N, smax);
    let mut n = 0;
    l.view_mut::<u8, S>(&mut data).fill_with(|| {
        n += 1;
        x[n - 1]
    });
    assert!(n == l.len());
    changed(&l, &data, &old, |i| x[l.lin(&i)]);
}

/// Assigns from a strided view of the same shape.
fn assign<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let (mut data, x) = (bytes::<N>(), bytes::<N>());
    let old = data;
    let l = Lay::strided_mut(d, N, smax);
    let m = Lay::strided(d, N, smax);
    l.view_mut::<u8, S>(&mut data).assign(m.view::<u8, S>(&x));
    changed(&l, &data, &old, |i| x[m.pos(&i)]);
}

/// Assigns from a strided view of lower rank.
fn broadcast<S: Shape, R: Shape, const M: usize, const K: usize, const N: usize>(
    d: [usize; M],
    e: [usize; K],
    smax: isize,
) {
    let (mut data, x) = (bytes::<N>(), bytes::<4>());
    let old = data;
    let l = Lay::strided_mut(d, N, smax);
    let m = Lay::strided(e, 4, 3);
    l.view_mut::<u8, S>(&mut data).assign(m.view::<u8, R>(&x));
    changed(&l, &data, &old, |i| {
        let mut j = [0; K];
        for k in 0..K {
            j[k] = i[k + M - K];
        }
        x[m.pos(&j)]
    });
}

fn contains<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let (data, x) = (bytes::<N>(), sym::u8());
    let l = Lay::strided(d, N, smax);
    let mut found = false;
    for n in 0..l.len() {
        found |= data[l.pos(&l.unlin(n))] == x;
    }
    assert!(l.view::<u8, S>(&data).contains(&x) == found);
}

fn contains_dense<S: Shape, const R: usize, const N: usize>(d: [usize; R]) {
    let (data, x) = (bytes::<N>(), sym::u8());
    let l = Lay::dense(d);
    let mut found = false;
    for n in 0..l.len() {
        found |= data[n] == x;
    }
    assert!(l.dense_view::<u8, S>(&data).contains(&x) == found);
}

/// Writes `x` through one of the mutable views of a 3 x 3 array, and to the model.
fn write(op: usize, t: &mut Slice<u8, S2>, m: &mut [[u8; 3]; 3]) {
    let x = sym::u8();
    let mut hit = [[false; 3]; 3];
    match op {
        0 => {
            let i = sym::upto(2);
            t.row_mut(i).fill(x);
            hit[i] = [true; 3];
        }
        1 => {
            let i = sym::upto(2);
            t.col_mut(i).fill(x);
            for k in 0..3 {
                hit[k][i] = true;
            }
        }
        2 => {
            let i = sym::signed(3);
            t.diag_mut(i).fill(x);
            for k in 0..3 {
                let j = k as isize + i;
                if 0 <= j && j < 3 {
                    hit[k][j as usize] = true;
                }
            }
        }
        3 => {
            let (a, b) = (sym::upto(3), sym::upto(3));
            sym::assume(a <= b);
            let j = sym::upto(2);
            t.view_mut(a..b, j).fill(x);
            for k in 0..3 {
                hit[k][j] = a <= k && k < b;
            }
        }
        4 => {
            let (a, b) = (sym::upto(3), sym::upto(3));
            sym::assume(a <= b);
            t.split_axis_at_mut(Const::<1>, a).1.permute_mut([1, 0]).at_mut(sym_last(a)).fill(x);
            let _ = b;
            for k in 0..3 {
                hit[k][2] = true;
            }
        }
        5 => {
            let i = sym::upto(2);
            t.reorder_mut().at_mut(i)[[1]] = x;
            hit[1][i] = true;
        }
        _ => {
            let a = sym::upto(3);
            t.flatten_mut().view_mut(3 * a.min(2) + 1..).at_mut(0).fill(x);
            hit[a.min(2)][1] = true;
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            if hit[i][j] {
                m[i][j] = x;
            }
        }
    }
}

fn sym_last(a: usize) -> usize {
    sym::assume(a < 3);
    2 - a
}

fn two(a: usize, b: usize) {
    let f = bytes::<9>();
    let mut t = tensor::<u8, S2, 2>(&f, [3, 3], 0);
    let mut m = [[f[0], f[1], f[2]], [f[3], f[4], f[5]], [f[6], f[7], f[8]]];
    write(a, &mut t, &mut m);
    write(b, &mut t, &mut m);
    let (i, j) = (sym::upto(2), sym::upto(2));
    assert!(t[[i, j]] == m[i][j]);
    assert!(t.dim(0) == 3 && t.dim(1) == 3);
}

harnesses! {
    holds quick larger_fill [40] {
        let (mut data, x) = (bytes::<36>(), sym::u8());
        let old = data;
        let l = Lay { d: [3, 6], s: [12, 2], base: 1 };
        l.view_mut::<u8, S2>(&mut data).fill(x);
        changed(&l, &data, &old, |_| x);
        let old = data;
        let l = Lay { d: [18], s: [2], base: 0 };
        let (mut n, y) = (0, bytes::<18>());
        l.view_mut::<u8, S1>(&mut data).fill_with(|| { n += 1; y[n - 1] });
        assert!(n == 18);
        changed(&l, &data, &old, |i| y[i[0]]);
    }
    holds quick larger_assign [30] {
        // From transposed.
        let (mut data, x) = (bytes::<24>(), bytes::<24>());
        let old = data;
        let (l, m) = (Lay { d: [5, 3], s: [4, 1], base: 1 }, Lay { d: [5, 3], s: [1, 6], base: 0 });
        l.view_mut::<u8, S2>(&mut data).assign(m.view::<u8, S2>(&x));
        changed(&l, &data, &old, |i| x[m.pos(&i)]);
        let old = data;
        let k = Lay::dense([4, 5]);
        k.dense_view_mut::<u8, S2>(&mut data).assign(Lay::dense([5]).dense_view::<u8, S1>(&x));
        changed(&k, &data, &old, |i| x[i[1]]);
    }
    holds quick larger_contains [30] {
        let (data, x) = (bytes::<24>(), sym::u8());
        let l = Lay { d: [5, 3], s: [4, 1], base: 1 };
        let mut found = false;
        for n in 0..15 {
            found |= data[l.pos(&l.unlin(n))] == x;
        }
        assert!(l.view::<u8, S2>(&data).contains(&x) == found);
        let mut found = false;
        for n in 0..20 {
            found |= data[n] == x;
        }
        assert!(Lay::dense([20]).dense_view::<u8, S1>(&data).contains(&x) == found);
    }
    holds quick fill_0 [12] { fill::<S0, 0, 3>([], 0); }
    holds quick fill_1 [12] { split!(a in 0..=3, { fill::<S1, 1, 7>([a], 3) }); }
    holds quick fill_2_a [12] { split!(a in 0..=3, { fill::<S2, 2, 8>([2, a], 6) }); }
    holds quick fill_2_b [12] { split!(a in 0..=2, { fill::<S2, 2, 8>([a, 2], 6) }); }
    holds quick fill_2_33 [12] { fill::<S2, 2, 10>([3, 3], 4); }
    holds quick fill_2_const [12] { fill::<(Const<2>, Const<2>), 2, 8>([2, 2], 6); }
    holds quick fill_3_222 [12] { fill::<S3, 3, 10>([2, 2, 2], 5); }
    holds quick fill_3_b [12] { split!(a in 0..=2, { fill::<S3, 3, 8>([a, 1, 2], 5) }); }
    holds quick fill_3_c [12] { split!(a in 0..=2, { fill::<S3, 3, 8>([2, a, 1], 5) }); }
    holds quick fill_dyn_2 [26] { split!(a in 1..=2, { fill::<DynRank, 2, 8>([a, 2], 6) }); }
    holds thorough fill_3_232 [20] { fill::<S3, 3, 14>([2, 3, 2], 7); }

    holds quick fill_with_1 [12] { split!(a in 0..=3, { fill_with::<S1, 1, 7>([a], 3) }); }
    holds quick fill_with_2 [12] { split!(a in 0..=3, { fill_with::<S2, 2, 8>([2, a], 6) }); }
    holds quick fill_with_2_const [12] { split!(a in 0..=2, { fill_with::<(Dyn, Const<2>), 2, 8>([a, 2], 6) }); }
    holds quick fill_with_3 [12] { fill_with::<S3, 3, 10>([2, 2, 2], 5); }
    holds quick fill_with_dyn [26] { fill_with::<DynRank, 2, 8>([2, 2], 6); }

    holds quick assign_0 [12] { assign::<S0, 0, 3>([], 0); }
    holds quick assign_1 [12] { split!(a in 0..=3, { assign::<S1, 1, 7>([a], 3) }); }
    holds quick assign_2_a [20] { split!(a in 0..=2, { assign::<S2, 2, 8>([2, a], 6) }); }
    holds quick assign_2_b [20] { split!(a in 0..=2, { assign::<S2, 2, 8>([a, 3], 4) }); }
    holds quick assign_2_const [20] { assign::<(Const<2>, Const<2>), 2, 8>([2, 2], 6); }
    holds quick assign_3 [26] { assign::<S3, 3, 10>([2, 2, 2], 5); }
    holds quick assign_dyn [26] { assign::<DynRank, 2, 8>([2, 2], 6); }

    holds quick broadcast_20 [20] { broadcast::<S2, S0, 2, 0, 8>([2, 2], [], 6); }
    holds quick broadcast_21 [20] { broadcast::<S2, S1, 2, 1, 8>([2, 3], [3], 4); }
    holds quick broadcast_32 [26] { broadcast::<S3, S2, 3, 2, 8>([2, 2, 1], [2, 1], 5); }
    holds quick broadcast_31 [26] { broadcast::<S3, S1, 3, 1, 8>([2, 1, 2], [2], 5); }

    holds quick assign_expr [20] {
        let (mut data, x) = (bytes::<8>(), bytes::<4>());
        let old = data;
        let l = Lay::strided_mut([2, 2], 8, 6);
        let m = Lay::dense([2, 2]);
        l.view_mut::<u8, S2>(&mut data)
            .assign(m.dense_view::<u8, S2>(&x).map(|v| v.wrapping_add(1)));
        changed(&l, &data, &old, |i| x[m.lin(&i)].wrapping_add(1));
    }
    holds quick assign_fill [20] {
        let (mut data, x) = (bytes::<8>(), sym::u8());
        let old = data;
        let l = Lay::strided_mut([2, 2], 8, 6);
        l.view_mut::<u8, S2>(&mut data).assign(expr::fill(x));
        changed(&l, &data, &old, |_| x);
    }
    holds quick assign_array [20] {
        let (mut data, x) = (bytes::<8>(), bytes::<4>());
        let old = data;
        let l = Lay::strided_mut([2, 2], 8, 6);
        l.view_mut::<u8, S2>(&mut data).assign(Array::<u8, (Const<2>, Const<2>)>([[x[0], x[1]], [x[2], x[3]]]));
        changed(&l, &data, &old, |i| x[2 * i[0] + i[1]]);
    }
    holds quick assign_tensor [20] {
        let (mut data, x) = (bytes::<8>(), bytes::<4>());
        let old = data;
        let l = Lay::strided_mut([2, 2], 8, 6);
        l.view_mut::<u8, S2>(&mut data).assign(tensor::<u8, S2, 2>(&x, [2, 2], 0));
        changed(&l, &data, &old, |i| x[2 * i[0] + i[1]]);
    }
    holds quick assign_in_tensor [20] {
        let (f, x) = (bytes::<6>(), bytes::<5>());
        let mut t = tensor::<u8, S2, 2>(&f, [2, 3], 0);
        let m = Lay::strided([2, 3], 5, 3);
        t.assign(m.view::<u8, S2>(&x));
        let i = m.index();
        assert!(t[i] == x[m.pos(&i)]);
        assert!(t.dim(0) == 2 && t.dim(1) == 3 && t.capacity() >= 6);
    }
    holds quick iter_mut_2 [12] {
        let (mut data, x) = (bytes::<8>(), bytes::<6>());
        let old = data;
        let l = Lay::strided_mut([2, 3], 8, 4);
        let mut n = 0;
        for y in l.view_mut::<u8, S2>(&mut data).iter_mut() {
            *y = x[n];
            n += 1;
        }
        assert!(n == 6);
        changed(&l, &data, &old, |i| x[l.lin(&i)]);
    }
    holds quick axis_mut_2 [12] {
        let (mut data, x) = (bytes::<8>(), bytes::<3>());
        let old = data;
        let l = Lay::strided_mut([2, 3], 8, 4);
        let mut n = 0;
        l.view_mut::<u8, S2>(&mut data).axis_expr_mut(Const::<1>).for_each(|mut v| {
            v.fill(x[n]);
            n += 1;
        });
        assert!(n == 3);
        changed(&l, &data, &old, |i| x[i[1]]);
    }
    holds quick lanes_mut_2 [12] {
        let (mut data, x) = (bytes::<8>(), bytes::<2>());
        let old = data;
        let l = Lay::strided_mut([2, 3], 8, 4);
        let mut n = 0;
        l.view_mut::<u8, S2>(&mut data).rows_mut().for_each(|mut v| {
            v.fill(x[n]);
            n += 1;
        });
        assert!(n == 2);
        changed(&l, &data, &old, |i| x[i[0]]);
    }
    holds quick split_mut_2 [12] {
        let (mut data, x) = (bytes::<8>(), bytes::<2>());
        let old = data;
        let l = Lay::strided_mut([2, 3], 8, 4);
        split!(k in 0..=3, {
            let mut v = l.view_mut::<u8, S2>(&mut data);
            let (mut a, mut b) = v.split_axis_at_mut(Const::<1>, k);
            a.fill(x[0]);
            b.fill(x[1]);
            changed(&l, &data, &old, |i| x[(i[1] >= k) as usize]);
        });
    }

    holds quick two_01 [12] { two(0, 1); }
    holds quick two_12 [12] { two(1, 2); }
    holds quick two_23 [12] { two(2, 3); }
    holds quick two_30 [12] { two(3, 0); }
    holds quick two_41 [12] { two(4, 1); }
    holds quick two_54 [12] { two(5, 4); }
    holds quick two_65 [12] { two(6, 5); }
    holds quick two_22 [12] { two(2, 2); }
    holds quick two_36 [12] { two(3, 6); }
    holds thorough two_0 [12] { split!(b in 0..=6, { two(0, b) }); }
    holds thorough two_1 [12] { split!(b in 0..=6, { two(1, b) }); }
    holds thorough two_2 [12] { split!(b in 0..=6, { two(2, b) }); }
    holds thorough two_3 [12] { split!(b in 0..=6, { two(3, b) }); }
    holds thorough two_4 [12] { split!(b in 0..=6, { two(4, b) }); }
    holds thorough two_5 [12] { split!(b in 0..=6, { two(5, b) }); }
    holds thorough two_6 [12] { split!(b in 0..=6, { two(6, b) }); }

    holds quick contains_0 [12] { contains::<S0, 0, 3>([], 0); }
    holds quick contains_1 [12] { split!(a in 0..=3, { contains::<S1, 1, 6>([a], 3) }); }
    holds quick contains_2_a [12] { split!(a in 0..=2, { contains::<S2, 2, 8>([2, a], 6) }); }
    holds quick contains_2_b [12] { split!(a in 0..=2, { contains::<S2, 2, 8>([a, 3], 4) }); }
    holds quick contains_3 [12] { contains::<S3, 3, 8>([2, 2, 2], 5); }
    holds quick contains_3_b [12] { split!(a in 0..=2, { contains::<S3, 3, 8>([a, 2, 1], 5) }); }
    holds quick contains_dyn [26] { contains::<DynRank, 2, 8>([2, 2], 5); }
    holds quick contains_dense_1 [12] { split!(a in 0..=4, { contains_dense::<S1, 1, 4>([a]) }); }
    holds quick contains_dense_2 [12] { split!(a in 0..=3, { contains_dense::<S2, 2, 6>([2, a]) }); }
    holds quick contains_dense_3 [12] { split!(a in 0..=2, { contains_dense::<S3, 3, 8>([2, a, 2]) }); }
    holds quick contains_dense_dyn [26] { contains_dense::<DynRank, 2, 8>([2, 3]); }

    panics quick assign_bad_1 [12] {
        let (mut data, x) = (bytes::<3>(), bytes::<3>());
        let (a, b) = (sym::upto(3), sym::upto(3));
        sym::assume(a != b);
        let l = Lay::dense([a]);
        let m = Lay::dense([b]);
        sym::before();
        l.dense_view_mut::<u8, S1>(&mut data).assign(m.dense_view::<u8, S1>(&x));
    }
    panics quick assign_bad_2 [20] {
        let (mut data, x) = (bytes::<9>(), bytes::<9>());
        let l = Lay::dense([sym::upto(3), sym::upto(3)]);
        let m = Lay::dense([sym::upto(3), sym::upto(3)]);
        sym::assume(l.d != m.d);
        sym::before();
        l.dense_view_mut::<u8, S2>(&mut data).assign(m.dense_view::<u8, S2>(&x));
    }
    panics quick assign_bad_21 [20] {
        let (mut data, x) = (bytes::<9>(), bytes::<3>());
        split!(a in 0..=2, {
            split!(b in 0..=2, {
                sym::assume(a != b);
                let (l, m) = (Lay::dense([2, a]), Lay::dense([b]));
                sym::before();
                l.dense_view_mut::<u8, S2>(&mut data).assign(m.dense_view::<u8, S1>(&x));
            })
        });
    }
    panics quick assign_bad_rank [20] {
        let (mut data, x) = (bytes::<3>(), bytes::<9>());
        let l = Lay::dense([sym::upto(3)]);
        let m = Lay::dense([sym::upto(3), sym::upto(3)]);
        sym::before();
        l.dense_view_mut::<u8, S1>(&mut data).assign(m.dense_view::<u8, S2>(&x));
    }
}
