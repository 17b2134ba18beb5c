use std::ops::*;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Axis(pub usize);
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Dim<I>(pub I);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub type IxDyn = Dim<Vec<usize>>;
#[allow(non_snake_case)]
pub fn Ix1(i: usize) -> Ix1 { Dim([i]) }
#[allow(non_snake_case)]
pub fn Ix2(i: usize, j: usize) -> Ix2 { Dim([i, j]) }
#[allow(non_snake_case)]
pub fn IxDyn(s: &[usize]) -> IxDyn { Dim(s.to_vec()) }

pub trait Dimension: Clone + Eq + std::fmt::Debug + Send + Sync {
    type Pattern: IntoDimension<Dim = Self> + Clone;
    type Smaller: Dimension;
    fn slice(&self) -> &[usize];
    fn slice_mut(&mut self) -> &mut [usize];
    fn from_slice(s: &[usize]) -> Option<Self>;
    fn into_pattern(self) -> Self::Pattern;
    fn size(&self) -> usize { self.slice().iter().product() }
    fn ndim(&self) -> usize { self.slice().len() }
    #[doc(hidden)]
    fn rev(&self) -> Self { let mut v = self.slice().to_vec(); v.reverse(); Self::from_slice(&v).unwrap() }
    #[doc(hidden)]
    fn pattern_of(&self, mut i: usize) -> Self::Pattern {
        let sh = self.slice();
        let mut v = vec![0; sh.len()];
        for k in (0..sh.len()).rev() { v[k] = i % sh[k]; i /= sh[k]; }
        Self::from_slice(&v).unwrap().into_pattern()
    }
}
pub trait RemoveAxis: Dimension {
    fn remove_axis(&self, a: Axis) -> Self::Smaller { let mut v = self.slice().to_vec(); v.remove(a.0); Self::Smaller::from_slice(&v).unwrap() }
}
macro_rules! fixed { ($n:expr, $pat:ty, $sm:ty, $ip:expr) => {
    impl Dimension for Dim<[usize; $n]> {
        type Pattern = $pat;
        type Smaller = $sm;
        fn slice(&self) -> &[usize] { &self.0 }
        fn slice_mut(&mut self) -> &mut [usize] { &mut self.0 }
        fn from_slice(s: &[usize]) -> Option<Self> { if s.len() == $n { let mut a = [0; $n]; a.copy_from_slice(s); Some(Dim(a)) } else { None } }
        fn into_pattern(self) -> $pat { $ip(self.0) }
    }
} }
fixed!(0, (), Ix0, |_: [usize; 0]| ());
fixed!(1, usize, Ix0, |a: [usize; 1]| a[0]);
fixed!(2, (usize, usize), Ix1, |a: [usize; 2]| (a[0], a[1]));
impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl Dimension for IxDyn {
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    fn slice(&self) -> &[usize] { &self.0 }
    fn slice_mut(&mut self) -> &mut [usize] { &mut self.0 }
    fn from_slice(s: &[usize]) -> Option<Self> { Some(Dim(s.to_vec())) }
    fn into_pattern(self) -> IxDyn { self }
}
impl RemoveAxis for IxDyn {}

pub trait IntoDimension { type Dim: Dimension; fn into_dimension(self) -> Self::Dim; }
impl IntoDimension for usize { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim([self]) } }
impl IntoDimension for () { type Dim = Ix0; fn into_dimension(self) -> Ix0 { Dim([]) } }
impl IntoDimension for (usize,) { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim([self.0]) } }
impl IntoDimension for (usize, usize) { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim([self.0, self.1]) } }
impl IntoDimension for [usize; 1] { type Dim = Ix1; fn into_dimension(self) -> Ix1 { Dim(self) } }
impl IntoDimension for [usize; 2] { type Dim = Ix2; fn into_dimension(self) -> Ix2 { Dim(self) } }
impl IntoDimension for Vec<usize> { type Dim = IxDyn; fn into_dimension(self) -> IxDyn { Dim(self) } }
impl<'a> IntoDimension for &'a [usize] { type Dim = IxDyn; fn into_dimension(self) -> IxDyn { Dim(self.to_vec()) } }
impl<D: Dimension> IntoDimension for D { type Dim = D; fn into_dimension(self) -> D { self } }
pub trait ShapeBuilder { type Dim: Dimension; #[doc(hidden)] fn into_dim(self) -> Self::Dim; }
impl<D: IntoDimension> ShapeBuilder for D { type Dim = D::Dim; fn into_dim(self) -> D::Dim { self.into_dimension() } }

pub trait NdIndex<D> { #[doc(hidden)] fn ix(&self) -> Vec<usize>; }
impl NdIndex<Ix1> for usize { fn ix(&self) -> Vec<usize> { vec![*self] } }
impl NdIndex<Ix1> for [usize; 1] { fn ix(&self) -> Vec<usize> { self.to_vec() } }
impl NdIndex<Ix2> for (usize, usize) { fn ix(&self) -> Vec<usize> { vec![self.0, self.1] } }
impl NdIndex<Ix2> for [usize; 2] { fn ix(&self) -> Vec<usize> { self.to_vec() } }
impl<D: Dimension> NdIndex<D> for D { fn ix(&self) -> Vec<usize> { self.slice().to_vec() } }
impl<'a> NdIndex<IxDyn> for &'a [usize] { fn ix(&self) -> Vec<usize> { self.to_vec() } }

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Slice { pub start: isize, pub end: Option<isize>, pub step: isize }
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice { Slice { start, end, step } }
    pub fn step_by(self, step: isize) -> Slice { Slice { step: self.step * step, ..self } }
    pub(crate) fn resolve(&self, n: usize) -> (usize, usize, isize) {
        let fix = |i: isize| if i < 0 { n as isize + i } else { i };
        let (a, b) = (fix(self.start), fix(self.end.unwrap_or(n as isize)));
        assert!(a >= 0 && a <= n as isize && b <= n as isize, "ndarray: slice out of bounds");
        let b = b.max(a);
        let m = (b - a) as usize;
        let k = self.step.unsigned_abs();
        let len = if m == 0 { 0 } else { (m - 1) / k + 1 };
        if self.step > 0 { (a as usize, len, self.step) } else { ((b - 1).max(0) as usize, len, self.step) }
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum SliceOrIndex { Slice(Slice), Index(isize) }
macro_rules! froms { ($($t:ty),*) => { $(
    impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice::new(r.start as isize, Some(r.end as isize), 1) } }
    impl From<RangeInclusive<$t>> for Slice { fn from(r: RangeInclusive<$t>) -> Slice { let e = *r.end() as isize; Slice::new(*r.start() as isize, if e == -1 { None } else { Some(e + 1) }, 1) } }
    impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice::new(r.start as isize, None, 1) } }
    impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice::new(0, Some(r.end as isize), 1) } }
    impl From<RangeToInclusive<$t>> for Slice { fn from(r: RangeToInclusive<$t>) -> Slice { Slice::new(0, Some(r.end as isize + 1), 1) } }
    impl AxisArg for Range<$t> { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    impl AxisArg for RangeInclusive<$t> { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    impl AxisArg for RangeFrom<$t> { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    impl AxisArg for RangeTo<$t> { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    impl AxisArg for RangeToInclusive<$t> { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
    impl AxisArg for $t { type K = K0; fn arg(self) -> SliceOrIndex { SliceOrIndex::Index(self as isize) } }
)* } }
froms!(usize, isize, i32);
impl From<RangeFull> for Slice { fn from(_: RangeFull) -> Slice { Slice::new(0, None, 1) } }
impl AxisArg for RangeFull { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self.into()) } }
impl AxisArg for Slice { type K = K1; fn arg(self) -> SliceOrIndex { SliceOrIndex::Slice(self) } }
pub struct K0;
pub struct K1;
pub trait AxisArg { type K; fn arg(self) -> SliceOrIndex; }
/// an evaluated `s![]` argument: what is taken of one axis, and (in the type) whether the axis stays
#[derive(Clone)]
pub struct AxisSpec<K>(pub SliceOrIndex, std::marker::PhantomData<K>);
pub fn axis_spec<A: AxisArg>(a: A) -> AxisSpec<A::K> { AxisSpec(a.arg(), std::marker::PhantomData) }
#[derive(Clone)]
pub struct SliceInfo<I>(pub I);
pub trait SliceSpec<D> { type Out: Dimension; fn parts(&self) -> Vec<SliceOrIndex>; }
impl SliceSpec<Ix1> for (AxisSpec<K1>,) { type Out = Ix1; fn parts(&self) -> Vec<SliceOrIndex> { vec![self.0 .0] } }
impl SliceSpec<Ix1> for (AxisSpec<K0>,) { type Out = Ix0; fn parts(&self) -> Vec<SliceOrIndex> { vec![self.0 .0] } }
macro_rules! two { ($(($a:ty, $b:ty, $o:ty)),*) => { $(impl SliceSpec<Ix2> for (AxisSpec<$a>, AxisSpec<$b>) { type Out = $o; fn parts(&self) -> Vec<SliceOrIndex> { vec![self.0 .0, self.1 .0] } })* } }
two!((K1, K1, Ix2), (K1, K0, Ix1), (K0, K1, Ix1), (K0, K0, Ix0));
#[macro_export]
macro_rules! s { ($($e:expr),+ $(,)?) => { &$crate::SliceInfo(($($crate::axis_spec($e),)+)) }; }
