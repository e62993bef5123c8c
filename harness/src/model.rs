//! Reference model: where each element of an array has to be located.

use crate::sym;
use mdarray::{Dense, DenseMapping, Layout, Shape, Slice, Strided, StridedMapping, View, ViewMut};

/// Array layout: dimensions, strides and the position of the first element in the buffer.
#[derive(Clone, Copy)]
pub struct Lay<const R: usize> {
    pub d: [usize; R],
    pub s: [isize; R],
    pub base: isize,
}

impl<const R: usize> Lay<R> {
    /// Symbolic strides in `-smax..=smax` and symbolic base, such that each element is within
    /// a buffer of length `n`.
    pub fn strided(d: [usize; R], n: usize, smax: isize) -> Self {
        let mut s = [0; R];
        for k in 0..R {
            s[k] = sym::signed(smax);
        }
        let l = Lay { d, s, base: sym::upto(n) as isize };
        l.assume_inside(n);
        l
    }

    /// As `strided`, and no two elements have the same position.
    pub fn strided_mut(d: [usize; R], n: usize, smax: isize) -> Self {
        let l = Self::strided(d, n, smax);
        let mut min = 1;
        for k in (0..R).rev() {
            sym::assume(l.s[k].abs() >= min);
            min = l.s[k].abs() * if d[k] == 0 { 1 } else { d[k] as isize };
        }
        l
    }

    pub fn dense(d: [usize; R]) -> Self {
        let mut s = [0; R];
        let mut stride = 1;
        for k in (0..R).rev() {
            s[k] = stride;
            stride *= d[k] as isize;
        }
        Lay { d, s, base: 0 }
    }

    pub fn inside(&self, n: usize) {
        self.assume_inside(n)
    }

    fn assume_inside(&self, n: usize) {
        if self.len() == 0 {
            return;
        }
        let (mut lo, mut hi) = (self.base, self.base);
        for k in 0..R {
            let e = self.s[k] * (self.d[k] as isize - 1);
            if e < 0 {
                lo += e
            } else {
                hi += e
            }
        }
        sym::assume(lo >= 0 && hi < n as isize);
    }

    pub fn len(&self) -> usize {
        let mut n = 1;
        for k in 0..R {
            n *= self.d[k];
        }
        n
    }

    /// Position in the buffer for the element with index `i`.
    pub fn pos(&self, i: &[usize; R]) -> usize {
        let mut o = self.base;
        for k in 0..R {
            o += self.s[k] * i[k] as isize;
        }
        o as usize
    }

    /// Row-major number of the element with index `i`.
    pub fn lin(&self, i: &[usize; R]) -> usize {
        let mut n = 0;
        for k in 0..R {
            n = n * self.d[k] + i[k];
        }
        n
    }

    /// Index of the element with the given row-major number.
    pub fn unlin(&self, mut n: usize) -> [usize; R] {
        let mut i = [0; R];
        for k in (0..R).rev() {
            i[k] = n % self.d[k];
            n /= self.d[k];
        }
        i
    }

    /// Symbolic index within bounds.
    pub fn index(&self) -> [usize; R] {
        let mut i = [0; R];
        for k in 0..R {
            i[k] = sym::u8() as usize;
            sym::assume(i[k] < self.d[k]);
        }
        i
    }

    pub fn view<'a, T, S: Shape>(&self, data: &'a [T]) -> View<'a, T, S, Strided> {
        unsafe {
            View::new_unchecked(
                data.as_ptr().offset(self.base),
                StridedMapping::new(S::from_dims(&self.d), &self.s),
            )
        }
    }

    pub fn view_mut<'a, T, S: Shape>(&self, data: &'a mut [T]) -> ViewMut<'a, T, S, Strided> {
        unsafe {
            ViewMut::new_unchecked(
                data.as_mut_ptr().offset(self.base),
                StridedMapping::new(S::from_dims(&self.d), &self.s),
            )
        }
    }

    pub fn dense_view<'a, T, S: Shape>(&self, data: &'a [T]) -> View<'a, T, S, Dense> {
        unsafe {
            View::new_unchecked(
                data.as_ptr().offset(self.base),
                DenseMapping::new(S::from_dims(&self.d)),
            )
        }
    }

    pub fn dense_view_mut<'a, T, S: Shape>(&self, data: &'a mut [T]) -> ViewMut<'a, T, S, Dense> {
        unsafe {
            ViewMut::new_unchecked(
                data.as_mut_ptr().offset(self.base),
                DenseMapping::new(S::from_dims(&self.d)),
            )
        }
    }
}

/// Symbolic dimensions in `0..=max`.
pub fn dims<const R: usize>(max: usize) -> [usize; R] {
    let mut d = [0; R];
    for k in 0..R {
        d[k] = sym::upto(max);
    }
    d
}

/// Address of the element at position `pos` of the buffer.
pub fn at<T>(data: &[T], pos: usize) -> *const T {
    assert!(pos < data.len());
    unsafe { data.as_ptr().add(pos) }
}

impl<const R: usize> Lay<R> {
    /// Layout of the subarray with index `i` along dimension `k`.
    pub fn removed<const M: usize>(&self, k: usize, i: usize) -> Lay<M> {
        let mut l = Lay { d: [0; M], s: [0; M], base: self.base + self.s[k] * i as isize };
        for n in 0..M {
            let o = if n < k { n } else { n + 1 };
            l.d[n] = self.d[o];
            l.s[n] = self.s[o];
        }
        l
    }

    /// Layout of the subarray with the given range along dimension `k`.
    pub fn resized(&self, k: usize, start: usize, len: usize) -> Self {
        let mut l = *self;
        l.base += l.s[k] * start as isize;
        l.d[k] = len;
        l
    }

    /// Layout with dimensions in the given order.
    pub fn permuted(&self, perm: [usize; R]) -> Self {
        let mut l = *self;
        for k in 0..R {
            l.d[k] = self.d[perm[k]];
            l.s[k] = self.s[perm[k]];
        }
        l
    }

    pub fn reversed(&self) -> Self {
        let mut l = *self;
        l.d.reverse();
        l.s.reverse();
        l
    }

    /// The array has the dimensions of the layout, and each element is at its position in the
    /// buffer (for a symbolic index, if there are elements).
    pub fn agrees<T, S: Shape, L: Layout>(&self, v: &Slice<T, S, L>, data: *const T) {
        self.same_dims(v);
        if self.len() > 0 {
            let i = self.index();
            assert!(&v[i] as *const T == unsafe { data.add(self.pos(&i)) });
        }
    }

    pub fn same_dims<T, S: Shape, L: Layout>(&self, v: &Slice<T, S, L>) {
        assert!(v.rank() == R);
        for k in 0..R {
            assert!(v.dim(k) == self.d[k]);
        }
        assert!(v.len() == self.len());
    }
}

/// Tensor with the given dimensions, elements from the start of `data` and spare capacity for
/// `spare` elements.
pub fn tensor<T: Copy, S: Shape, const R: usize>(
    data: &[T],
    d: [usize; R],
    spare: usize,
) -> mdarray::Tensor<T, S> {
    let n = Lay::dense(d).len();
    let mut v = Vec::with_capacity(n + spare);
    v.extend_from_slice(&data[..n]);
    let mut v = std::mem::ManuallyDrop::new(v);
    unsafe {
        mdarray::Tensor::from_raw_parts(
            v.as_mut_ptr(),
            DenseMapping::new(S::from_dims(&d)),
            v.capacity(),
        )
    }
}

/// The array is dense with the given dimensions, and has the same elements as `f` gives for the
/// index (for a symbolic index, if there are elements).
pub fn equals<T: PartialEq, S: Shape, const R: usize>(
    v: &Slice<T, S>,
    d: [usize; R],
    f: impl Fn([usize; R]) -> T,
) {
    let l = Lay::dense(d);
    l.same_dims(v);
    if l.len() > 0 {
        let i = l.index();
        assert!(v[i] == f(i));
        assert!(&v[i] as *const T == unsafe { v.as_ptr().add(l.lin(&i)) });
    }
}
