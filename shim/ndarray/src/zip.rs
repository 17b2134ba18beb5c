use crate::*;

pub enum FoldWhile<T> { Continue(T), Done(T) }
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T { match self { FoldWhile::Continue(x) | FoldWhile::Done(x) => x } }
    pub fn is_done(&self) -> bool { matches!(self, FoldWhile::Done(_)) }
}

pub trait NdProducer {
    type Item;
    type Dim: Dimension;
    #[doc(hidden)]
    fn rdim(&self) -> Self::Dim;
    #[doc(hidden)]
    fn item(&self, i: usize) -> Self::Item;
}
pub trait IntoNdProducer { type Item; type Dim: Dimension; type Output: NdProducer<Item = Self::Item, Dim = Self::Dim>; fn into_producer(self) -> Self::Output; }
impl<P: NdProducer> IntoNdProducer for P { type Item = P::Item; type Dim = P::Dim; type Output = P; fn into_producer(self) -> P { self } }
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D> where S::Elem: 'a { type Item = &'a S::Elem; type Dim = D; type Output = ArrayView<'a, S::Elem, D>; fn into_producer(self) -> Self::Output { self.view() } }
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D> where S::Elem: 'a { type Item = &'a mut S::Elem; type Dim = D; type Output = ArrayViewMut<'a, S::Elem, D>; fn into_producer(self) -> Self::Output { self.view_mut() } }
impl<'a, A, D: Dimension> NdProducer for ArrayView<'a, A, D> { type Item = &'a A; type Dim = D; fn rdim(&self) -> D { self.raw_dim() } fn item(&self, i: usize) -> &'a A { unsafe { &*self.at(i) } } }
impl<'a, A, D: Dimension> NdProducer for ArrayViewMut<'a, A, D> { type Item = &'a mut A; type Dim = D; fn rdim(&self) -> D { self.raw_dim() } fn item(&self, i: usize) -> &'a mut A { unsafe { &mut *self.at(i) } } }
impl<'a, A, D: Dimension> NdProducer for Lanes<'a, A, D> { type Item = ArrayView1<'a, A>; type Dim = D; fn rdim(&self) -> D { self.rd() } fn item(&self, i: usize) -> Self::Item { self.get(i) } }
impl<'a, A, D: Dimension> NdProducer for LanesMut<'a, A, D> { type Item = ArrayViewMut1<'a, A>; type Dim = D; fn rdim(&self) -> D { self.rd() } fn item(&self, i: usize) -> Self::Item { self.get(i) } }
pub struct Indexed<D>(D);
impl<D: Dimension> NdProducer for Indexed<D> { type Item = D::Pattern; type Dim = D; fn rdim(&self) -> D { self.0.clone() } fn item(&self, i: usize) -> D::Pattern { self.0.pattern_of(i) } }

pub struct Zip<P, D> { parts: P, dim: D }
impl<P: NdProducer<Dim = D>, D: Dimension> Zip<(P,), D> {
    pub fn from<I: IntoNdProducer<Dim = D, Output = P, Item = P::Item>>(p: I) -> Self { let p = p.into_producer(); Zip { dim: p.rdim(), parts: (p,) } }
}
impl<P: NdProducer<Dim = D>, D: Dimension> Zip<(Indexed<D>, P), D> {
    pub fn indexed<I: IntoNdProducer<Dim = D, Output = P, Item = P::Item>>(p: I) -> Self { let p = p.into_producer(); let d = p.rdim(); Zip { dim: d.clone(), parts: (Indexed(d), p) } }
}
macro_rules! zips { ($([$($p:ident)*]),*) => { $(
    impl<D: Dimension, $($p: NdProducer<Dim = D>),*> Zip<($($p,)*), D> {
        #[allow(non_snake_case)]
        pub fn apply<F: FnMut($($p::Item),*)>(self, mut f: F) { let ($($p,)*) = self.parts; for i in 0..self.dim.size() { f($($p.item(i)),*) } }
        #[allow(non_snake_case)]
        pub fn all<F: FnMut($($p::Item),*) -> bool>(self, mut f: F) -> bool { let ($($p,)*) = self.parts; for i in 0..self.dim.size() { if !f($($p.item(i)),*) { return false; } } true }
        #[allow(non_snake_case)]
        pub fn fold_while<T, F: FnMut(T, $($p::Item),*) -> FoldWhile<T>>(self, init: T, mut f: F) -> FoldWhile<T> {
            let ($($p,)*) = self.parts;
            let mut acc = init;
            for i in 0..self.dim.size() { match f(acc, $($p.item(i)),*) { FoldWhile::Continue(x) => acc = x, d => return d } }
            FoldWhile::Continue(acc)
        }
    }
)* } }
zips!([P1], [P1 P2], [P1 P2 P3], [P1 P2 P3 P4], [P1 P2 P3 P4 P5], [P1 P2 P3 P4 P5 P6]);
macro_rules! ands { ($([$($p:ident)*]),*) => { $(
    impl<D: Dimension, $($p: NdProducer<Dim = D>),*> Zip<($($p,)*), D> {
        #[allow(non_snake_case)]
        pub fn and<I: IntoNdProducer<Dim = D>>(self, p: I) -> Zip<($($p,)* I::Output,), D> {
            let p = p.into_producer();
            assert!(p.rdim() == self.dim, "ndarray: Zip of different shapes");
            let ($($p,)*) = self.parts;
            Zip { dim: self.dim, parts: ($($p,)* p,) }
        }
    }
)* } }
ands!([P1], [P1 P2], [P1 P2 P3], [P1 P2 P3 P4], [P1 P2 P3 P4 P5]);
