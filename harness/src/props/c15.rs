//! C15: serialization.
//!
//! Bounds. Serialization: dense and strided views, arrays and tensors of rank 0-3 (thorough: 4),
//! dimensions up to 3 (rank 1: up to 4) from the sets in the harnesses, symbolic strides and base.
//! Deserialization: nested sequences of depth 0-3 with counts up to 2 (first level: up to 3) from
//! the sets in the harnesses, regular or with one count different, with the size hint absent,
//! exact, too small or too large, into tensors and inline arrays with dynamic and constant
//! dimensions; an error from the element at any position; a value in place of a sequence and the
//! other way round. Elements are bytes, all values. The data format is a harness format that
//! passes the calls of serde through and compares them with the layout; the text of errors is not
//! rendered (std::fmt::format is replaced). Larger: up to 20 elements of rank 1 in
//! both directions, (3,5) transposed. Outside: larger shapes, other data formats, constant
//! inner dimensions that do not match the input.
use crate::model::{equals, tensor, Lay};
use crate::sym;
use mdarray::*;
use serde::de::{DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use std::fmt::{self, Display};

type S0 = Rank<0>;
type S1 = Rank<1>;
type S2 = Rank<2>;
type S3 = Rank<3>;
type S4 = Rank<4>;

#[derive(Debug)]
struct Fail;

impl Display for Fail {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}

impl std::error::Error for Fail {}

impl serde::ser::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
}

impl serde::de::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
}

/// Only given out for a complete sequence or an element.
struct Done(());

/// Serializer that compares each call with the layout.
struct Ser<'a, const R: usize> {
    lay: &'a Lay<R>,
    data: &'a [u8],
    idx: [usize; R],
    depth: usize,
}

struct Seq<'a, const R: usize> {
    ser: Ser<'a, R>,
    n: usize,
}

fn ser<'a, const R: usize>(lay: &'a Lay<R>, data: &'a [u8]) -> Ser<'a, R> {
    Ser { lay, data, idx: [0; R], depth: 0 }
}

impl<'a, const R: usize> SerializeSeq for Seq<'a, R> {
    type Ok = Done;
    type Error = Fail;

    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Fail> {
        let (k, n) = (self.ser.depth, self.n);
        assert!(n < self.ser.lay.d[k]);
        self.ser.idx[k] = n;
        self.n += 1;
        let s = Ser { depth: k + 1, ..self.ser };
        value.serialize(s)?;
        Ok(())
    }

    fn end(self) -> Result<Done, Fail> {
        assert!(self.n == self.ser.lay.d[self.ser.depth]);
        Ok(Done(()))
    }
}

macro_rules! no {
    ($($f:ident($($t:ty),*))*) => {
        $(fn $f(self $(, _: $t)*) -> Result<Self::Ok, Fail> { unreachable!() })*
    };
}

impl<'a, const R: usize> Serializer for Ser<'a, R> {
    type Ok = Done;
    type Error = Fail;
    type SerializeSeq = Seq<'a, R>;
    type SerializeTuple = Impossible<Done, Fail>;
    type SerializeTupleStruct = Impossible<Done, Fail>;
    type SerializeTupleVariant = Impossible<Done, Fail>;
    type SerializeMap = Impossible<Done, Fail>;
    type SerializeStruct = Impossible<Done, Fail>;
    type SerializeStructVariant = Impossible<Done, Fail>;

    fn serialize_u8(self, v: u8) -> Result<Done, Fail> {
        assert!(self.depth == R);
        assert!(v == self.data[self.lay.pos(&self.idx)]);
        Ok(Done(()))
    }

    fn serialize_seq(self, len: Option<usize>) -> Result<Seq<'a, R>, Fail> {
        assert!(self.depth < R);
        assert!(len == Some(self.lay.d[self.depth]));
        Ok(Seq { ser: self, n: 0 })
    }

    no! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32)
        serialize_i64(i64) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str)
        serialize_bytes(&[u8]) serialize_none() serialize_unit() serialize_unit_struct(&'static str)
        serialize_unit_variant(&'static str, u32, &'static str)
    }

    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Done, Fail> {
        unreachable!()
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: &T,
    ) -> Result<Done, Fail> {
        unreachable!()
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<Done, Fail> {
        unreachable!()
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
    fn serialize_tuple_struct(
        self,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
    fn serialize_struct(
        self,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Impossible<Done, Fail>, Fail> {
        unreachable!()
    }
}

fn written<const R: usize>(lay: &Lay<R>, data: &[u8], x: &impl Serialize) {
    assert!(x.serialize(ser(lay, data)).is_ok());
}

fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    for k in 0..N {
        a[k] = sym::u8();
    }
    a
}

fn strided<S: Shape, const R: usize, const N: usize>(d: [usize; R], smax: isize) {
    let data = bytes::<N>();
    let l = Lay::strided(d, N, smax);
    written(&l, &data, &l.view::<u8, S>(&data));
}

fn dense<S: Shape, const R: usize, const N: usize>(d: [usize; R]) {
    let mut data = bytes::<N>();
    let copy = data;
    let l = Lay::dense(d);
    sym::assume(l.len() <= N);
    if sym::any_bool() {
        written(&l, &data, &l.dense_view::<u8, S>(&data));
    } else {
        written(&l, &copy, &l.dense_view_mut::<u8, S>(&mut data));
    }
}

fn owned<S: Shape, const R: usize, const N: usize>(d: [usize; R]) {
    let data = bytes::<N>();
    let l = Lay::dense(d);
    written(&l, &data, &tensor::<u8, S, R>(&data, d, 0));
}

/// Nested sequences with the given number of items: `n0` at the first level, `n1[i]` at the
/// second, `n2[i][j]` at the third. Items have the value `v[i][j][k]`.
struct Src {
    depth: usize,
    n0: usize,
    n1: [usize; 3],
    n2: [[usize; 2]; 2],
    v: [[[u8; 2]; 2]; 3],
    /// Difference of size hint and count, or none.
    hint: Option<isize>,
    /// Index of an item that gives an error, at the last level.
    bad: Option<[usize; 3]>,
}

impl Src {
    fn count(&self, level: usize, i: [usize; 3]) -> usize {
        match level {
            0 => self.n0,
            1 => self.n1[i[0]],
            _ => self.n2[i[0]][i[1]],
        }
    }
}

#[derive(Clone, Copy)]
struct De<'a> {
    src: &'a Src,
    i: [usize; 3],
    level: usize,
}

struct Items<'a> {
    de: De<'a>,
    n: usize,
    len: usize,
}

impl<'a, 'de> Deserializer<'de> for De<'a> {
    type Error = Fail;

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Fail> {
        if self.level < self.src.depth {
            let len = self.src.count(self.level, self.i);
            visitor.visit_seq(Items { de: self, n: 0, len })
        } else if self.src.bad == Some(self.i) {
            Err(Fail)
        } else {
            visitor.visit_u8(self.src.v[self.i[0]][self.i[1]][self.i[2]])
        }
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier
        ignored_any
    }
}

impl<'a, 'de> SeqAccess<'de> for Items<'a> {
    type Error = Fail;

    fn next_element_seed<T: DeserializeSeed<'de>>(
        &mut self,
        seed: T,
    ) -> Result<Option<T::Value>, Fail> {
        if self.n == self.len {
            return Ok(None);
        }
        let mut de = self.de;
        de.i[de.level] = self.n;
        de.level += 1;
        self.n += 1;
        seed.deserialize(de).map(Some)
    }

    fn size_hint(&self) -> Option<usize> {
        self.de.src.hint.map(|h| ((self.len - self.n) as isize + h).max(0) as usize)
    }
}

fn src(depth: usize, n0: usize, n1: [usize; 3], n2: [[usize; 2]; 2]) -> Src {
    let mut v = [[[0; 2]; 2]; 3];
    for x in v.as_flattened_mut().as_flattened_mut() {
        *x = sym::u8();
    }
    Src { depth, n0, n1, n2, v, hint: Some(0), bad: None }
}

fn read<'a, T: Deserialize<'a>>(src: &Src) -> Result<T, Fail> {
    T::deserialize(De { src, i: [0; 3], level: 0 })
}

fn gives<S: Shape, const R: usize>(s: &Src, d: [usize; R]) {
    match read::<Tensor<u8, S>>(s) {
        Ok(t) => equals(&t, d, |i| {
            let mut j = [0; 3];
            for k in 0..R {
                j[k] = i[k];
            }
            s.v[j[0]][j[1]][j[2]]
        }),
        Err(_) => assert!(false),
    }
}

fn fails<S: Shape>(s: &Src) {
    assert!(read::<Tensor<u8, S>>(s).is_err());
}

fn hint(h: usize) -> Option<isize> {
    match h {
        0 => None,
        1 => Some(0),
        2 => Some(-1),
        _ => Some(1),
    }
}

harnesses! {
    holds quick ser_0 [12] {
        let data = bytes::<2>();
        let l = Lay::strided([], 2, 0);
        written(&l, &data, &l.view::<u8, S0>(&data));
        let a: Array<u8, ()> = array![data[0]].into_shape();
        written(&Lay::dense([]), &data, &a);
    }
    holds quick ser_1 [12] { split!(a in 0..=4, { strided::<S1, 1, 5>([a], 4) }); }
    holds quick ser_2_a [12] { split!(a in 0..=2, { strided::<S2, 2, 6>([2, a], 4) }); }
    holds quick ser_2_b [12] { split!(a in 0..=2, { strided::<S2, 2, 6>([a, 3], 2) }); }
    holds quick ser_3_a [12] { strided::<S3, 3, 8>([2, 2, 2], 4); }
    holds quick ser_3_b [12] { split!(a in 0..=2, { strided::<S3, 3, 6>([a, 1, 2], 4) }); }
    holds thorough ser_3_c [12] { split!(a in 0..=1, { strided::<S3, 3, 6>([2, a, 1], 4) }); }
    holds thorough ser_4 [12] { split!(a in 0..=2, { strided::<S4, 4, 8>([2, a, 1, 2], 4) }); }
    holds quick ser_2_const [12] { split!(a in 0..=2, { strided::<(Dyn, Const<3>), 2, 7>([a, 3], 4) }); }
    holds quick ser_dense_1 [12] { split!(a in 0..=2, { dense::<S1, 1, 4>([2 * a]) }); }
    holds quick ser_dense_2 [12] { split!(a in 2..=3, { dense::<S2, 2, 6>([2, a]) }); }
    holds quick ser_dense_3 [12] { dense::<S3, 3, 8>([2, 2, 2]); }
    holds thorough ser_dense_4 [12] { split!(a in 0..=2, { dense::<S4, 4, 8>([a, 2, 1, 2]) }); }
    holds quick ser_array [12] {
        let data = bytes::<6>();
        let a: Array<u8, (Const<2>, Const<3>)> =
            Array([[data[0], data[1], data[2]], [data[3], data[4], data[5]]]);
        written(&Lay::dense([2, 3]), &data, &a);
    }
    holds quick ser_tensor_1 [12] { owned::<S1, 1, 3>([3]); }
    holds quick ser_tensor_23 [12] { owned::<S2, 2, 6>([2, 3]); }
    holds quick ser_tensor_30 [12] { owned::<S2, 2, 1>([3, 0]); }
    holds quick ser_tensor_212 [12] { owned::<S3, 3, 4>([2, 1, 2]); }

    holds quick ser_larger [30] { owned::<S1, 1, 20>([20]); }
    holds quick ser_larger_t [30] {
        let data = bytes::<15>();
        let l = Lay { d: [3, 5], s: [1, 3], base: 0 };
        written(&l, &data, &l.view::<u8, S2>(&data));
    }
    holds quick de_larger [30] {
        let a = bytes::<20>();
        let d = serde::de::value::SeqDeserializer::<_, Fail>::new(a.iter().copied());
        let t = Tensor::<u8, S1>::deserialize(d).unwrap();
        equals(&t, [20], |i| a[i[0]]);
    }
    holds thorough de_larger_unknown [30] {
        // Unknown size.
        let a = bytes::<18>();
        let d = serde::de::value::SeqDeserializer::<_, Fail>::new(a.iter().copied().filter(|_| true));
        let t = Tensor::<u8, S1>::deserialize(d).unwrap();
        equals(&t, [18], |i| a[i[0]]);
    }
    holds quick de_0 [20] {
        let s = src(0, 0, [0; 3], [[0; 2]; 2]);
        gives::<S0, 0>(&s, []);
        match read::<Array<u8, ()>>(&s) {
            Ok(a) => assert!(a[[]] == s.v[0][0][0]),
            Err(_) => assert!(false),
        }
    }
    holds quick de_1 [20] {
        split!(n in 0..=3, {
            let s = src(1, n, [0; 3], [[0; 2]; 2]);
            gives::<S1, 1>(&s, [n]);
        });
    }
    holds quick de_1_hint [20] {
        split!(h in 0..=3, {
            let mut s = src(1, 2, [0; 3], [[0; 2]; 2]);
            s.hint = hint(h);
            gives::<S1, 1>(&s, [2]);
        });
    }
    holds quick de_2_02 [20] { gives::<S2, 2>(&src(2, 0, [2; 3], [[0; 2]; 2]), [0, 0]); }
    holds quick de_2_10 [20] { gives::<S2, 2>(&src(2, 1, [0; 3], [[0; 2]; 2]), [1, 0]); }
    holds quick de_2_12 [20] { gives::<S2, 2>(&src(2, 1, [2; 3], [[0; 2]; 2]), [1, 2]); }
    holds quick de_2_20 [20] { gives::<S2, 2>(&src(2, 2, [0; 3], [[0; 2]; 2]), [2, 0]); }
    holds quick de_2_21 [20] { gives::<S2, 2>(&src(2, 2, [1; 3], [[0; 2]; 2]), [2, 1]); }
    holds quick de_2_22 [20] { gives::<S2, 2>(&src(2, 2, [2; 3], [[0; 2]; 2]), [2, 2]); }
    holds quick de_2_31 [20] { gives::<S2, 2>(&src(2, 3, [1; 3], [[0; 2]; 2]), [3, 1]); }
    holds quick de_2_32 [20] { gives::<S2, 2>(&src(2, 3, [2; 3], [[0; 2]; 2]), [3, 2]); }
    holds quick de_2_hint [20] {
        split!(h in 0..=1, {
            let mut s = src(2, 2, [2; 3], [[0; 2]; 2]);
            s.hint = hint(h);
            gives::<S2, 2>(&s, [2, 2]);
        });
    }
    holds quick de_2_wrong_hint [20] {
        split!(h in 2..=3, {
            let mut s = src(2, 2, [2; 3], [[0; 2]; 2]);
            s.hint = hint(h);
            gives::<S2, 2>(&s, [2, 2]);
        });
    }
    holds quick de_2_ragged_1 [20] {
        split!(c in 0..=1, {
            let mut s = src(2, 2, [2; 3], [[0; 2]; 2]);
            s.n1[1] = c;
            fails::<S2>(&s);
        });
    }
    holds quick de_2_ragged_2 [20] {
        split!(c in 1..=2, {
            let mut s = src(2, 2, [0; 3], [[0; 2]; 2]);
            s.n1[1] = c;
            fails::<S2>(&s);
        });
    }
    holds quick de_2_ragged_3 [20] {
        split!(c in 1..=2, {
            let mut s = src(2, 2, [3 - c; 3], [[0; 2]; 2]);
            s.n1[1] = c;
            fails::<S2>(&s);
        });
    }
    holds quick de_2_ragged_4 [20] {
        split!(c in 0..=1, {
            let mut s = src(2, 3, [1; 3], [[0; 2]; 2]);
            s.n1[2] = 2 * c;
            fails::<S2>(&s);
        });
    }
    holds quick de_3_022 [26] { gives::<S3, 3>(&src(3, 0, [2; 3], [[2; 2]; 2]), [0, 0, 0]); }
    holds quick de_3_101 [26] { gives::<S3, 3>(&src(3, 1, [0; 3], [[1; 2]; 2]), [1, 0, 0]); }
    holds quick de_3_202 [26] { gives::<S3, 3>(&src(3, 2, [0; 3], [[2; 2]; 2]), [2, 0, 0]); }
    holds quick de_3_212 [26] { gives::<S3, 3>(&src(3, 2, [1; 3], [[2; 2]; 2]), [2, 1, 2]); }
    holds thorough de_3_121 [26] { gives::<S3, 3>(&src(3, 1, [2; 3], [[1; 2]; 2]), [1, 2, 1]); }
    holds quick de_3_220 [26] { gives::<S3, 3>(&src(3, 2, [2; 3], [[0; 2]; 2]), [2, 2, 0]); }
    holds quick de_3_222 [26] { gives::<S3, 3>(&src(3, 2, [2; 3], [[2; 2]; 2]), [2, 2, 2]); }
    holds thorough de_3_122 [26] { gives::<S3, 3>(&src(3, 1, [2; 3], [[2; 2]; 2]), [1, 2, 2]); }
    holds thorough de_3_221 [26] { gives::<S3, 3>(&src(3, 2, [2; 3], [[1; 2]; 2]), [2, 2, 1]); }
    holds quick de_3_ragged_1 [26] {
        let mut s = src(3, 2, [2; 3], [[2; 2]; 2]);
        s.n2[0][1] = 1;
        fails::<S3>(&s);
    }
    holds quick de_3_ragged_2 [26] {
        let mut s = src(3, 2, [1; 3], [[1; 2]; 2]);
        s.n2[1][0] = 2;
        fails::<S3>(&s);
    }
    holds quick de_3_ragged_3 [26] {
        let mut s = src(3, 2, [1; 3], [[1; 2]; 2]);
        s.n2[1][0] = 0;
        fails::<S3>(&s);
    }
    holds quick de_3_ragged_4 [26] {
        // Same number of elements in each part, but 1 x 2 and 2 x 1.
        let mut s = src(3, 2, [1; 3], [[2; 2]; 2]);
        s.n1[1] = 2;
        s.n2[1] = [1; 2];
        fails::<S3>(&s);
    }
    holds quick de_3_ragged_5 [26] {
        // Empty parts, 0 x 0 and 2 x 0.
        let mut s = src(3, 2, [2; 3], [[0; 2]; 2]);
        s.n1[1] = 0;
        fails::<S3>(&s);
    }
    holds thorough de_3_ragged [26] {
        split!(c in 0..=1, {
            split!(i in 1..=3, {
                let mut s = src(3, 2, [2; 3], [[2; 2]; 2]);
                s.n2[i / 2][i % 2] = c;
                fails::<S3>(&s);
            })
        });
    }
    holds quick de_3_ragged_outer [26] {
        split!(c in 0..=1, {
            let mut s = src(3, 2, [2; 3], [[2; 2]; 2]);
            s.n1[1] = c;
            fails::<S3>(&s);
        });
    }
    holds quick de_const_1 [20] {
        split!(n in 0..=3, {
            let s = src(1, n, [0; 3], [[0; 2]; 2]);
            if n == 2 {
                gives::<(Const<2>,), 1>(&s, [2]);
            } else {
                fails::<(Const<2>,)>(&s);
            }
        });
    }
    holds quick de_const_2 [20] {
        split!(n in 0..=3, {
            let s = src(2, n, [1; 3], [[0; 2]; 2]);
            if n == 2 {
                gives::<(Const<2>, Dyn), 2>(&s, [2, 1]);
            } else {
                fails::<(Const<2>, Dyn)>(&s);
            }
        });
    }
    holds quick de_const_inner [20] {
        split!(n in 0..=2, {
            let s = src(2, n, [2; 3], [[0; 2]; 2]);
            gives::<(Dyn, Const<2>), 2>(&s, [n, 2]);
        });
    }
    holds quick de_array_1 [20] {
        split!(n in 0..=3, {
            let s = src(1, n, [0; 3], [[0; 2]; 2]);
            match read::<Array<u8, (Const<2>,)>>(&s) {
                Ok(a) => {
                    assert!(n == 2);
                    assert!(a[[0]] == s.v[0][0][0] && a[[1]] == s.v[1][0][0]);
                }
                Err(_) => assert!(n != 2),
            }
        });
    }
    holds quick de_array_2 [20] {
        split!(n in 1..=3, {
            let s = src(2, n, [2; 3], [[0; 2]; 2]);
            match read::<Array<u8, (Const<2>, Const<2>)>>(&s) {
                Ok(a) => {
                    assert!(n == 2);
                    let (i, j) = (sym::upto(1), sym::upto(1));
                    assert!(a[[i, j]] == s.v[i][j][0]);
                }
                Err(_) => assert!(n != 2),
            }
        });
    }
    holds quick de_bad [26] {
        split!(i in 0..=3, {
            let mut s = src(2, 2, [2; 3], [[0; 2]; 2]);
            s.bad = Some([i / 2, i % 2, 0]);
            fails::<S2>(&s);
        });
    }
    holds quick de_bad_1 [26] {
        split!(i in 0..=2, {
            let mut s = src(1, 3, [0; 3], [[0; 2]; 2]);
            s.bad = Some([i, 0, 0]);
            fails::<S1>(&s);
        });
    }
    holds quick de_depth [20] {
        split!(n in 0..=2, {
            match n {
                0 => fails::<S1>(&src(0, 0, [0; 3], [[0; 2]; 2])),
                1 => fails::<S0>(&src(1, 1, [0; 3], [[0; 2]; 2])),
                _ => fails::<S2>(&src(1, 1, [0; 3], [[0; 2]; 2])),
            }
        });
    }
    panics quick ser_dyn_rank [20] {
        let data = bytes::<4>();
        let v = Lay::dense([sym::upto(2), sym::upto(2)]);
        let v = v.dense_view::<u8, DynRank>(&data);
        sym::before();
        let _ = v.serialize(ser(&Lay::dense([0; 2]), &data));
    }
    panics quick de_dyn_rank [20] {
        let s = src(1, sym::upto(2), [0; 3], [[0; 2]; 2]);
        sym::before();
        let _ = read::<Tensor<u8, DynRank>>(&s);
    }
}
