//! A small stand-in for ndarray 0.12 (not available offline): the same names, types and behaviour for the
//! part of the API the integrator sources use (and some more of it), so that /repo/src can be type-checked.
//! The analysis models these operations by name; it never looks at the bodies below.
#![allow(clippy::all)]
use std::fmt::{self, Debug};
use std::marker::PhantomData;
use std::ops::*;

mod dim;
mod ops;
mod zip;
pub mod iter;
pub use dim::*;
pub use iter::{AxisIter, AxisIterMut, Iter, IterMut, Lanes, LanesMut};
pub use ops::ScalarOperand;
pub use zip::{FoldWhile, IntoNdProducer, NdProducer, Zip};

pub type Ix = usize;
pub type Ixs = isize;

pub mod prelude {
    pub use crate::{arr1, arr2, aview1, array, s, Array, Array1, Array2, ArrayBase, ArrayD, ArrayView, ArrayView1, ArrayView2, ArrayViewMut, ArrayViewMut1, ArrayViewMut2};
    pub use crate::{Axis, Dim, Dimension, Ix1, Ix2, IxDyn, ShapeBuilder};
}

// ---------------------------------------------------------------- storage
pub unsafe trait RawData: Sized { type Elem; }
pub unsafe trait Data: RawData {}
pub unsafe trait DataMut: Data {}
pub unsafe trait DataOwned: Data { fn new(v: Vec<Self::Elem>) -> Self; fn vec(self) -> Vec<Self::Elem>; }
pub unsafe trait DataClone: Data { fn dup(&self) -> (Self, Option<*mut Self::Elem>); }

pub struct OwnedRepr<A>(Vec<A>);
#[derive(Copy, Clone)]
pub struct ViewRepr<A>(PhantomData<A>);

unsafe impl<A> RawData for OwnedRepr<A> { type Elem = A; }
unsafe impl<A> Data for OwnedRepr<A> {}
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> { fn new(v: Vec<A>) -> Self { OwnedRepr(v) } fn vec(self) -> Vec<A> { self.0 } }
unsafe impl<A: Clone> DataClone for OwnedRepr<A> {
    fn dup(&self) -> (Self, Option<*mut A>) { let mut v = self.0.clone(); let p = v.as_mut_ptr(); (OwnedRepr(v), Some(p)) }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a A> { type Elem = A; }
unsafe impl<'a, A> Data for ViewRepr<&'a A> {}
unsafe impl<'a, A> DataClone for ViewRepr<&'a A> { fn dup(&self) -> (Self, Option<*mut A>) { (*self, None) } }
unsafe impl<'a, A> RawData for ViewRepr<&'a mut A> { type Elem = A; }
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}

pub struct ArrayBase<S: RawData, D> { data: S, ptr: *mut S::Elem, dim: D, strides: Vec<isize> }
unsafe impl<S: Data + Send, D: Send> Send for ArrayBase<S, D> {}
unsafe impl<S: Data + Sync, D: Sync> Sync for ArrayBase<S, D> {}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayD<A> = Array<A, IxDyn>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

#[derive(Debug, Clone, PartialEq)]
pub struct ShapeError;
impl fmt::Display for ShapeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ShapeError") } }
impl std::error::Error for ShapeError {}

pub(crate) fn default_strides(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![1isize; shape.len()];
    for k in (0..shape.len().saturating_sub(1)).rev() { s[k] = s[k + 1] * shape[k + 1] as isize; }
    s
}

impl<S: DataClone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        let (data, p) = self.data.dup();
        ArrayBase { data, ptr: p.unwrap_or(self.ptr), dim: self.dim.clone(), strides: self.strides.clone() }
    }
}

// ---------------------------------------------------------------- constructors
impl<S: DataOwned, D: Dimension> ArrayBase<S, D> {
    pub(crate) fn make(dim: D, v: Vec<S::Elem>) -> Self {
        assert_eq!(dim.size(), v.len());
        let mut v = v;
        let ptr = v.as_mut_ptr();
        let strides = default_strides(dim.slice());
        ArrayBase { data: S::new(v), ptr, dim, strides }
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, e: S::Elem) -> Self where S::Elem: Clone {
        let d = shape.into_dim();
        let n = d.size();
        Self::make(d, vec![e; n])
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self where S::Elem: Clone + num_traits::Zero {
        Self::from_elem(shape, num_traits::Zero::zero())
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self where S::Elem: Clone + num_traits::One {
        Self::from_elem(shape, num_traits::One::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self where S::Elem: Default {
        let d = shape.into_dim();
        let n = d.size();
        Self::make(d, (0..n).map(|_| Default::default()).collect())
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>, F: FnMut(D::Pattern) -> S::Elem>(shape: Sh, mut f: F) -> Self {
        let d = shape.into_dim();
        let v = (0..d.size()).map(|i| f(d.pattern_of(i))).collect();
        Self::make(d, v)
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<S::Elem>) -> Result<Self, ShapeError> {
        let d = shape.into_dim();
        if d.size() != v.len() { return Err(ShapeError); }
        Ok(Self::make(d, v))
    }
}
impl<S: DataOwned> ArrayBase<S, Ix1> {
    pub fn from_vec(v: Vec<S::Elem>) -> Self { Self::make(Dim([v.len()]), v) }
    pub fn from_iter<I: IntoIterator<Item = S::Elem>>(i: I) -> Self { Self::from_vec(i.into_iter().collect()) }
}
impl<S: DataOwned> From<Vec<S::Elem>> for ArrayBase<S, Ix1> { fn from(v: Vec<S::Elem>) -> Self { Self::from_vec(v) } }
impl<S: DataOwned> std::iter::FromIterator<S::Elem> for ArrayBase<S, Ix1> {
    fn from_iter<I: IntoIterator<Item = S::Elem>>(i: I) -> Self { Self::from_vec(i.into_iter().collect()) }
}
impl<S: DataOwned> ArrayBase<S, Ix2> {
    pub fn eye(n: usize) -> Self where S::Elem: Clone + num_traits::Zero + num_traits::One {
        Self::from_shape_fn((n, n), |(i, j)| if i == j { num_traits::One::one() } else { num_traits::Zero::zero() })
    }
}
pub fn arr1<A: Clone>(x: &[A]) -> Array1<A> { Array1::from_vec(x.to_vec()) }
pub fn arr2<A: Clone, const N: usize>(x: &[[A; N]]) -> Array2<A> { Array2::make(Dim([x.len(), N]), x.iter().flat_map(|r| r.iter().cloned()).collect()) }
pub fn aview1<A>(x: &[A]) -> ArrayView1<'_, A> { ArrayBase { data: ViewRepr(PhantomData), ptr: x.as_ptr() as *mut A, dim: Dim([x.len()]), strides: vec![1] } }
#[doc(hidden)]
pub fn from_rows<A, const N: usize>(x: Vec<[A; N]>) -> Array2<A> { Array2::make(Dim([x.len(), N]), x.into_iter().flat_map(|r| r.into_iter()).collect()) }
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> { fn from(x: &'a [A]) -> Self { aview1(x) } }

#[macro_export]
macro_rules! array {
    ($([$($x:expr),* $(,)?]),+ $(,)?) => { $crate::from_rows(vec![$([$($x,)*],)*]) };
    ($($x:expr),* $(,)?) => { $crate::Array::<_, $crate::Ix1>::from_vec(vec![$($x,)*]) };
}

// ---------------------------------------------------------------- shape and access
impl<S: RawData, D: Dimension> ArrayBase<S, D> {
    pub fn len(&self) -> usize { self.dim.size() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn shape(&self) -> &[usize] { self.dim.slice() }
    pub fn strides(&self) -> &[isize] { &self.strides }
    pub fn ndim(&self) -> usize { self.dim.slice().len() }
    pub fn raw_dim(&self) -> D { self.dim.clone() }
    pub fn dim(&self) -> D::Pattern { self.dim.clone().into_pattern() }
    pub fn len_of(&self, a: Axis) -> usize { self.dim.slice()[a.0] }
    pub(crate) fn offset(&self, mut i: usize) -> isize {
        let sh = self.dim.slice();
        let mut o = 0isize;
        for k in (0..sh.len()).rev() { o += (i % sh[k]) as isize * self.strides[k]; i /= sh[k]; }
        o
    }
    pub(crate) fn at(&self, i: usize) -> *mut S::Elem { unsafe { self.ptr.offset(self.offset(i)) } }
    fn check(&self, ix: &[usize]) -> isize {
        let sh = self.dim.slice();
        assert_eq!(sh.len(), ix.len());
        let mut o = 0;
        for k in 0..sh.len() { assert!(ix[k] < sh[k], "ndarray: index out of bounds"); o += ix[k] as isize * self.strides[k]; }
        o
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    fn rawview<'a, E>(&self, ptr: *mut S::Elem, dim: E, strides: Vec<isize>) -> ArrayView<'a, S::Elem, E> { ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides } }
    fn rawview_mut<'a, E>(&mut self, ptr: *mut S::Elem, dim: E, strides: Vec<isize>) -> ArrayViewMut<'a, S::Elem, E> { ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides } }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> { self.rawview(self.ptr, self.dim.clone(), self.strides.clone()) }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D> where S: DataMut { self.rawview_mut(self.ptr, self.dim.clone(), self.strides.clone()) }
    pub fn to_owned(&self) -> Array<S::Elem, D> where S::Elem: Clone { Array::make(self.dim.clone(), self.iter().cloned().collect()) }
    pub fn iter(&self) -> Iter<'_, S::Elem, D> { Iter::new(self.view()) }
    pub fn iter_mut(&mut self) -> IterMut<'_, S::Elem, D> where S: DataMut { IterMut::new(self.view_mut()) }
    pub fn indexed_iter(&self) -> impl Iterator<Item = (D::Pattern, &S::Elem)> + '_ { let d = self.dim.clone(); self.iter().enumerate().map(move |(i, x)| (d.pattern_of(i), x)) }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&S::Elem> {
        let ix = i.ix();
        if ix.iter().zip(self.shape()).all(|(a, b)| a < b) { Some(unsafe { &*self.ptr.offset(self.check(&ix)) }) } else { None }
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut S::Elem> where S: DataMut {
        let ix = i.ix();
        if ix.iter().zip(self.shape()).all(|(a, b)| a < b) { Some(unsafe { &mut *self.ptr.offset(self.check(&ix)) }) } else { None }
    }
    pub fn first(&self) -> Option<&S::Elem> { self.iter().next() }
    pub fn swap<I: NdIndex<D>>(&mut self, i: I, j: I) where S: DataMut {
        let (a, b) = (self.check(&i.ix()), self.check(&j.ix()));
        unsafe { std::ptr::swap(self.ptr.offset(a), self.ptr.offset(b)) }
    }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        if self.strides == default_strides(self.shape()) { Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) }) } else { None }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]> where S: DataMut {
        if self.strides == default_strides(self.shape()) { Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) }) } else { None }
    }
    pub fn reversed_axes(mut self) -> ArrayBase<S, D> { self.dim = self.dim.rev(); self.strides.reverse(); self }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> { self.view().reversed_axes() }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let d = dim.into_dimension();
        let (from, to) = (self.shape(), d.slice());
        if from.len() > to.len() { return None; }
        let k = to.len() - from.len();
        let mut st = vec![0isize; to.len()];
        for i in 0..from.len() {
            if from[i] == to[k + i] { st[k + i] = if from[i] == 1 { 0 } else { self.strides[i] } } else if from[i] == 1 { st[k + i] = 0 } else { return None; }
        }
        Some(self.rawview(self.ptr, d, st))
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        match D2::from_slice(self.dim.slice()) {
            Some(d) => Ok(ArrayBase { data: self.data, ptr: self.ptr, dim: d, strides: self.strides }),
            None => Err(ShapeError),
        }
    }
    fn axis_parts(&self, a: Axis, i: usize) -> (isize, D::Smaller, Vec<isize>) where D: RemoveAxis {
        assert!(i < self.shape()[a.0], "ndarray: index out of bounds");
        let mut st = self.strides.clone();
        st.remove(a.0);
        (i as isize * self.strides[a.0], self.dim.remove_axis(a), st)
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller> where D: RemoveAxis {
        let (o, d, st) = self.axis_parts(a, i);
        self.rawview(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut {
        let (o, d, st) = self.axis_parts(a, i);
        self.rawview_mut(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn subview(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller> where D: RemoveAxis { self.index_axis(a, i) }
    pub fn subview_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut { self.index_axis_mut(a, i) }
    fn slice_parts(&self, a: Axis, s: Slice) -> (isize, D, Vec<isize>) {
        let n = self.shape()[a.0];
        let (start, len, step) = s.resolve(n);
        let mut d = self.dim.clone();
        d.slice_mut()[a.0] = len;
        let mut st = self.strides.clone();
        let o = if len == 0 { 0 } else { start as isize * st[a.0] };
        st[a.0] *= step;
        (o, d, st)
    }
    pub fn slice_axis(&self, a: Axis, s: Slice) -> ArrayView<'_, S::Elem, D> {
        let (o, d, st) = self.slice_parts(a, s);
        self.rawview(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn slice_axis_mut(&mut self, a: Axis, s: Slice) -> ArrayViewMut<'_, S::Elem, D> where S: DataMut {
        let (o, d, st) = self.slice_parts(a, s);
        self.rawview_mut(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn slice_axis_inplace(&mut self, a: Axis, s: Slice) { let (o, d, st) = self.slice_parts(a, s); self.ptr = unsafe { self.ptr.offset(o) }; self.dim = d; self.strides = st; }
    pub fn invert_axis(&mut self, a: Axis) { self.slice_axis_inplace(a, Slice::new(0, None, -1)) }
    fn spec_parts<I: SliceSpec<D>>(&self, info: &SliceInfo<I>) -> (isize, I::Out, Vec<isize>) {
        let mut o = 0isize;
        let (mut dims, mut sts) = (vec![], vec![]);
        for (k, a) in info.0.parts().into_iter().enumerate() {
            match a {
                SliceOrIndex::Index(i) => { let n = self.shape()[k]; let i = if i < 0 { (n as isize + i) as usize } else { i as usize }; assert!(i < n); o += i as isize * self.strides[k] }
                SliceOrIndex::Slice(s) => { let (st, len, step) = s.resolve(self.shape()[k]); if len > 0 { o += st as isize * self.strides[k] } dims.push(len); sts.push(self.strides[k] * step) }
            }
        }
        (o, I::Out::from_slice(&dims).unwrap(), sts)
    }
    pub fn slice<I: SliceSpec<D>>(&self, info: &SliceInfo<I>) -> ArrayView<'_, S::Elem, I::Out> {
        let (o, d, st) = self.spec_parts(info);
        self.rawview(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn slice_mut<I: SliceSpec<D>>(&mut self, info: &SliceInfo<I>) -> ArrayViewMut<'_, S::Elem, I::Out> where S: DataMut {
        let (o, d, st) = self.spec_parts(info);
        self.rawview_mut(unsafe { self.ptr.offset(o) }, d, st)
    }
    pub fn genrows(&self) -> Lanes<'_, S::Elem, D::Smaller> where D: RemoveAxis { Lanes::new(self.rawview(self.ptr, self.dim.clone(), self.strides.clone()), self.ndim() - 1) }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut { let n = self.ndim() - 1; LanesMut::new(self.rawview_mut(self.ptr, self.dim.clone(), self.strides.clone()), n) }
    pub fn gencolumns(&self) -> Lanes<'_, S::Elem, D::Smaller> where D: RemoveAxis { Lanes::new(self.rawview(self.ptr, self.dim.clone(), self.strides.clone()), 0) }
    pub fn gencolumns_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut { LanesMut::new(self.rawview_mut(self.ptr, self.dim.clone(), self.strides.clone()), 0) }
    pub fn lanes(&self, a: Axis) -> Lanes<'_, S::Elem, D::Smaller> where D: RemoveAxis { Lanes::new(self.rawview(self.ptr, self.dim.clone(), self.strides.clone()), a.0) }
    pub fn axis_iter(&self, a: Axis) -> AxisIter<'_, S::Elem, D::Smaller> where D: RemoveAxis { AxisIter::new(self.view(), a) }
    pub fn axis_iter_mut(&mut self, a: Axis) -> AxisIterMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut { AxisIterMut::new(self.view_mut(), a) }
    pub fn outer_iter(&self) -> AxisIter<'_, S::Elem, D::Smaller> where D: RemoveAxis { self.axis_iter(Axis(0)) }
    pub fn outer_iter_mut(&mut self) -> AxisIterMut<'_, S::Elem, D::Smaller> where D: RemoveAxis, S: DataMut { self.axis_iter_mut(Axis(0)) }

    // -------- element-wise
    pub fn fill(&mut self, x: S::Elem) where S: DataMut, S::Elem: Clone { for e in self.iter_mut() { *e = x.clone() } }
    pub fn assign<E: Dimension, S2: Data<Elem = S::Elem>>(&mut self, rhs: &ArrayBase<S2, E>) where S: DataMut, S::Elem: Clone { self.zip_mut_with(rhs, |x, y| *x = y.clone()) }
    pub fn zip_mut_with<B, S2: Data<Elem = B>, E: Dimension, F: FnMut(&mut S::Elem, &B)>(&mut self, rhs: &ArrayBase<S2, E>, mut f: F) where S: DataMut {
        let r = rhs.broadcast(IxDyn(self.shape())).expect("ndarray: could not broadcast");
        for i in 0..self.len() { unsafe { f(&mut *self.at(i), &*r.at(i)) } }
    }
    pub fn scaled_add<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, a: S::Elem, rhs: &ArrayBase<S2, E>) where S: DataMut, S::Elem: Copy + Add<Output = S::Elem> + Mul<Output = S::Elem> + 'static {
        self.zip_mut_with(rhs, |x, &y| *x = *x + a * y)
    }
    pub fn map<'a, B, F: FnMut(&'a S::Elem) -> B>(&'a self, f: F) -> Array<B, D> where S::Elem: 'a { Array::make(self.dim.clone(), self.iter().map(f).collect()) }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D> where S::Elem: Clone { self.map(|x| f(x.clone())) }
    pub fn mapv_into<F: FnMut(S::Elem) -> S::Elem>(mut self, f: F) -> Self where S: DataMut, S::Elem: Clone { self.mapv_inplace(f); self }
    pub fn map_inplace<F: FnMut(&mut S::Elem)>(&mut self, f: F) where S: DataMut { self.iter_mut().for_each(f) }
    pub fn mapv_inplace<F: FnMut(S::Elem) -> S::Elem>(&mut self, mut f: F) where S: DataMut, S::Elem: Clone { for x in self.iter_mut() { *x = f(x.clone()) } }
    pub fn visit<'a, F: FnMut(&'a S::Elem)>(&'a self, f: F) where S::Elem: 'a { self.iter().for_each(f) }
    pub fn fold<'a, B, F: FnMut(B, &'a S::Elem) -> B>(&'a self, init: B, f: F) -> B where S::Elem: 'a { self.iter().fold(init, f) }
    pub fn sum(&self) -> S::Elem where S::Elem: Clone + Add<Output = S::Elem> + num_traits::Zero { self.iter().fold(num_traits::Zero::zero(), |a, x| a + x.clone()) }
    pub fn scalar_sum(&self) -> S::Elem where S::Elem: Clone + Add<Output = S::Elem> + num_traits::Zero { self.sum() }
    pub fn sum_axis(&self, a: Axis) -> Array<S::Elem, D::Smaller> where S::Elem: Clone + num_traits::Zero + Add<Output = S::Elem>, D: RemoveAxis {
        let mut r = Array::zeros(self.dim.remove_axis(a));
        for k in 0..self.len_of(a) { r = r + &self.index_axis(a, k); }
        r
    }
    pub fn all_close<S2: Data<Elem = S::Elem>>(&self, o: &ArrayBase<S2, D>, tol: S::Elem) -> bool where S::Elem: num_traits::Float { self.iter().zip(o.iter()).all(|(a, b)| num_traits::Float::abs(*a - *b) <= tol) }
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn row(&self, i: usize) -> ArrayView1<'_, S::Elem> { self.index_axis(Axis(0), i) }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem> where S: DataMut { self.index_axis_mut(Axis(0), i) }
    pub fn column(&self, i: usize) -> ArrayView1<'_, S::Elem> { self.index_axis(Axis(1), i) }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem> where S: DataMut { self.index_axis_mut(Axis(1), i) }
    pub fn rows(&self) -> usize { self.dim.slice()[0] }
    pub fn cols(&self) -> usize { self.dim.slice()[1] }
    pub fn is_square(&self) -> bool { self.rows() == self.cols() }
}
impl<S: Data> ArrayBase<S, Ix1> {
    pub fn to_vec(&self) -> Vec<S::Elem> where S::Elem: Clone { self.iter().cloned().collect() }
    pub fn dot<R>(&self, rhs: &R) -> <Self as linalg::Dot<R>>::Output where Self: linalg::Dot<R> { linalg::Dot::dot(self, rhs) }
}
impl<A, D: Dimension> Array<A, D> { pub fn into_raw_vec(self) -> Vec<A> { self.data.0 } }

pub mod linalg {
    use super::*;
    pub trait Dot<R> { type Output; fn dot(&self, rhs: &R) -> Self::Output; }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
        type Output = A;
        fn dot(&self, r: &ArrayBase<S2, Ix1>) -> A { assert_eq!(self.len(), r.len()); self.iter().zip(r.iter()).fold(A::zero(), |a, (x, y)| a + *x * *y) }
    }
    impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
        type Output = Array1<A>;
        fn dot(&self, r: &ArrayBase<S2, Ix1>) -> Array1<A> { Array1::from_iter(self.outer_iter().map(|row| row.dot(r))) }
    }
}
pub trait LinalgScalar: 'static + Copy + num_traits::Zero + num_traits::One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> {}
impl<T: 'static + Copy + num_traits::Zero + num_traits::One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T>> LinalgScalar for T {}

impl<S: Data, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem { let o = self.check(&i.ix()); unsafe { &*self.ptr.offset(o) } }
}
impl<S: DataMut, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem { let o = self.check(&i.ix()); unsafe { &mut *self.ptr.offset(o) } }
}
impl<S: Data, D: Dimension> Debug for ArrayBase<S, D> where S::Elem: Debug {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}/", self.shape())?; f.debug_list().entries(self.iter()).finish() }
}
macro_rules! fmts { ($($t:ident),*) => { $(impl<S: Data, D: Dimension> fmt::$t for ArrayBase<S, D> where S::Elem: fmt::$t {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "[")?; for (i, x) in self.iter().enumerate() { if i > 0 { write!(f, ", ")?; } fmt::$t::fmt(x, f)?; } write!(f, "]") }
})* } }
fmts!(Display, LowerExp, UpperExp);
impl<S: Data, S2: Data, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D> where S::Elem: PartialEq<S2::Elem> {
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool { self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b) }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> { type Item = &'a S::Elem; type IntoIter = Iter<'a, S::Elem, D>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> { type Item = &'a mut S::Elem; type IntoIter = IterMut<'a, S::Elem, D>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> { type Item = &'a A; type IntoIter = Iter<'a, A, D>; fn into_iter(self) -> Self::IntoIter { Iter::new(self) } }
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> { type Item = &'a mut A; type IntoIter = IterMut<'a, A, D>; fn into_iter(self) -> Self::IntoIter { IterMut::new(self) } }
