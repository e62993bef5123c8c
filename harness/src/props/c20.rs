//! C20: text.
//!
//! Bounds. Dense and strided views, tensors and inline arrays of rank 0-3 and dynamic rank with
//! up to 8 elements from the sets of shapes in the harnesses, symbolic strides and base; elements
//! that print as one symbolic character, or as the flags that they are given. Larger: 12 elements. Outside: larger
//! shapes, other elements, the multi-line format.
use crate::model::{tensor, Lay};
use crate::sym;
use mdarray::*;
use std::fmt::{self, Debug, Write};

type S0 = Rank<0>;
type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;

const MAX: usize = 48;

/// Element that prints as a character.
#[derive(Clone, Copy)]
struct E(u8);

impl Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char((b'a' + self.0) as char)
    }
}

/// Element that prints whether the formatter has the alternate flag and a precision.
struct Flags;

impl Debug for Flags {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char(if f.precision() == Some(3) && f.sign_plus() { 'y' } else { 'n' })
    }
}

struct Text {
    buf: [u8; MAX],
    len: usize,
}

impl Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            self.buf[self.len] = b;
            self.len += 1;
        }
        Ok(())
    }
}

impl Text {
    fn new() -> Self {
        Text { buf: [0; MAX], len: 0 }
    }
    fn put(&mut self, b: u8) {
        self.buf[self.len] = b;
        self.len += 1;
    }
}

/// Nested list of the elements.
fn nested<const R: usize>(l: &Lay<R>, data: &[E], k: usize, mut i: [usize; R], t: &mut Text) {
    if k == R {
        t.put(b'a' + data[l.pos(&i)].0);
        return;
    }
    t.put(b'[');
    for n in 0..l.d[k] {
        if n > 0 {
            t.put(b',');
            t.put(b' ');
        }
        i[k] = n;
        nested(l, data, k + 1, i, t);
    }
    t.put(b']');
}

fn prints<const R: usize>(l: &Lay<R>, data: &[E], x: &impl Debug) {
    let (mut a, mut b) = (Text::new(), Text::new());
    nested(l, data, 0, [0; R], &mut a);
    assert!(write!(b, "{:?}", x).is_ok());
    assert!(a.len == b.len);
    let k = sym::u8() as usize;
    sym::assume(k < MAX && k < a.len);
    assert!(a.buf[k] == b.buf[k]);
}

fn elems<const N: usize>() -> [E; N] {
    let mut a = [E(0); N];
    for k in 0..N {
        a[k].0 = sym::upto(25) as u8;
    }
    a
}

fn strided<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let data = elems::<N>();
    let l = Lay::strided(d, N, smax);
    prints(&l, &data, &l.view::<E, S>(&data));
}

fn dense<S: Shape, const R: usize, const N: usize>(d: [usize; R]) {
    let data = elems::<N>();
    let l = Lay::dense(d);
    prints(&l, &data, &l.dense_view::<E, S>(&data));
}

harnesses! {
    holds quick strided_0 [12] { strided::<S0, 0, 2>([], 0); }
    holds quick strided_1 [12] { strided::<S1, 1, 5>([3], 3); }
    holds quick strided_1_empty [12] { strided::<S1, 1, 5>([0], 3); }
    holds quick strided_2 [12] { strided::<S2, 2, 6>([2, 2], 4); }
    holds quick strided_2_13 [12] { strided::<S2, 2, 6>([1, 3], 4); }
    holds quick strided_2_31 [12] { strided::<S2, 2, 6>([3, 1], 2); }
    holds quick strided_2_20 [12] { strided::<S2, 2, 6>([2, 0], 4); }
    holds quick strided_2_02 [12] { strided::<S2, 2, 6>([0, 2], 4); }
    holds quick strided_3 [12] { strided::<S3, 3, 6>([2, 1, 2], 4); }
    holds quick strided_3_121 [12] { strided::<S3, 3, 6>([1, 2, 1], 4); }
    holds thorough strided_3_222 [12] { strided::<S3, 3, 8>([2, 2, 2], 4); }
    holds quick strided_const [12] { strided::<(Const<2>, Const<2>), 2, 6>([2, 2], 4); }
    holds quick strided_dyn_1 [26] { strided::<DynRank, 1, 6>([2], 4); }
    holds quick strided_dyn_0 [26] { strided::<DynRank, 0, 6>([], 4); }
    holds quick dense_1 [12] { dense::<S1, 1, 3>([3]); }
    holds quick dense_2 [12] { dense::<S2, 2, 6>([2, 3]); }
    holds quick dense_3 [12] { dense::<S3, 3, 4>([1, 2, 2]); }
    holds thorough dense_3_222 [12] { dense::<S3, 3, 8>([2, 2, 2]); }
    holds thorough larger_1 [14] { dense::<S1, 1, 12>([12]); }
    holds thorough larger_2 [14] { dense::<S2, 2, 12>([3, 4]); }
    holds quick view_mut [12] {
        let mut data = elems::<4>();
        let copy = data;
        let l = Lay::dense([2, 2]);
        prints(&l, &copy, &l.dense_view_mut::<E, S2>(&mut data));
    }
    holds quick owned_tensor [12] {
        let data = elems::<4>();
        prints(&Lay::dense([2, 2]), &data, &tensor::<E, S2, 2>(&data, [2, 2], 0));
    }
    holds quick owned_array [12] {
        let data = elems::<4>();
        let a: Array<E, (Const<2>, Const<2>)> = Array([[data[0], data[1]], [data[2], data[3]]]);
        prints(&Lay::dense([2, 2]), &data, &a);
    }
    holds quick flags [12] {
        let data = [Flags, Flags];
        let l = Lay::dense([1, 2]);
        let mut t = Text::new();
        let r = write!(t, "{:+.3?}", l.dense_view::<Flags, S2>(&data));
        assert!(r.is_ok() && t.len == 8);
        assert!(t.buf[2] == b'y' && t.buf[5] == b'y');
    }
}
