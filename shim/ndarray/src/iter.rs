use crate::*;

pub struct Iter<'a, A, D: Dimension> { v: ArrayView<'a, A, D>, i: usize, n: usize }
impl<'a, A, D: Dimension> Iter<'a, A, D> { pub(crate) fn new(v: ArrayView<'a, A, D>) -> Self { let n = v.len(); Iter { v, i: 0, n } } }
impl<'a, A, D: Dimension> Iterator for Iter<'a, A, D> {
    type Item = &'a A;
    fn next(&mut self) -> Option<&'a A> { if self.i < self.n { self.i += 1; Some(unsafe { &*self.v.at(self.i - 1) }) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, A> DoubleEndedIterator for Iter<'a, A, Ix1> { fn next_back(&mut self) -> Option<&'a A> { if self.i < self.n { self.n -= 1; Some(unsafe { &*self.v.at(self.n) }) } else { None } } }
impl<'a, A, D: Dimension> ExactSizeIterator for Iter<'a, A, D> {}
impl<'a, A, D: Dimension> Clone for Iter<'a, A, D> { fn clone(&self) -> Self { Iter { v: self.v.clone(), i: self.i, n: self.n } } }

pub struct IterMut<'a, A, D: Dimension> { v: ArrayViewMut<'a, A, D>, i: usize, n: usize }
impl<'a, A, D: Dimension> IterMut<'a, A, D> { pub(crate) fn new(v: ArrayViewMut<'a, A, D>) -> Self { let n = v.len(); IterMut { v, i: 0, n } } }
impl<'a, A, D: Dimension> Iterator for IterMut<'a, A, D> {
    type Item = &'a mut A;
    fn next(&mut self) -> Option<&'a mut A> { if self.i < self.n { self.i += 1; Some(unsafe { &mut *self.v.at(self.i - 1) }) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, A> DoubleEndedIterator for IterMut<'a, A, Ix1> { fn next_back(&mut self) -> Option<&'a mut A> { if self.i < self.n { self.n -= 1; Some(unsafe { &mut *self.v.at(self.n) }) } else { None } } }
impl<'a, A, D: Dimension> ExactSizeIterator for IterMut<'a, A, D> {}

/// the one-dimensional lanes along one axis
pub struct Lanes<'a, A, D: Dimension> { ptr: *mut A, dim: D, strides: Vec<isize>, len: usize, st: isize, ph: std::marker::PhantomData<&'a A> }
pub struct LanesMut<'a, A, D: Dimension>(Lanes<'a, A, D>, std::marker::PhantomData<&'a mut A>);
fn lanes<'a, S: Data, D: RemoveAxis>(v: &ArrayBase<S, D>, ax: usize) -> Lanes<'a, S::Elem, D::Smaller> {
    let mut st = v.strides.clone();
    let s = st.remove(ax);
    Lanes { ptr: v.ptr, dim: v.dim.remove_axis(Axis(ax)), strides: st, len: v.shape()[ax], st: s, ph: std::marker::PhantomData }
}
impl<'a, A, D: Dimension> Lanes<'a, A, D> {
    pub(crate) fn new<E: RemoveAxis<Smaller = D>>(v: ArrayView<'a, A, E>, ax: usize) -> Self { lanes(&v, ax) }
    pub(crate) fn rd(&self) -> D { self.dim.clone() }
    fn lane(&self, i: usize) -> (*mut A, Ix1, Vec<isize>) {
        let mut o = 0isize;
        let mut i = i;
        let sh = self.dim.slice();
        for k in (0..sh.len()).rev() { o += (i % sh[k]) as isize * self.strides[k]; i /= sh[k]; }
        (unsafe { self.ptr.offset(o) }, Dim([self.len]), vec![self.st])
    }
    pub(crate) fn get(&self, i: usize) -> ArrayView1<'a, A> { let (ptr, dim, strides) = self.lane(i); ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides } }
    pub(crate) fn get_mut(&self, i: usize) -> ArrayViewMut1<'a, A> { let (ptr, dim, strides) = self.lane(i); ArrayBase { data: ViewRepr(PhantomData), ptr, dim, strides } }
}
impl<'a, A, D: Dimension> LanesMut<'a, A, D> {
    pub(crate) fn new<E: RemoveAxis<Smaller = D>>(v: ArrayViewMut<'a, A, E>, ax: usize) -> Self { LanesMut(lanes(&v, ax), std::marker::PhantomData) }
    pub(crate) fn rd(&self) -> D { self.0.rd() }
    pub(crate) fn get(&self, i: usize) -> ArrayViewMut1<'a, A> { self.0.get_mut(i) }
}
pub struct LanesIter<'a, A, D: Dimension> { l: Lanes<'a, A, D>, i: usize, n: usize }
impl<'a, A, D: Dimension> Iterator for LanesIter<'a, A, D> {
    type Item = ArrayView1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> { if self.i < self.n { self.i += 1; Some(self.l.get(self.i - 1)) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, A, D: Dimension> ExactSizeIterator for LanesIter<'a, A, D> {}
impl<'a, A, D: Dimension> IntoIterator for Lanes<'a, A, D> { type Item = ArrayView1<'a, A>; type IntoIter = LanesIter<'a, A, D>; fn into_iter(self) -> Self::IntoIter { let n = self.dim.size(); LanesIter { l: self, i: 0, n } } }
pub struct LanesIterMut<'a, A, D: Dimension> { l: LanesMut<'a, A, D>, i: usize, n: usize }
impl<'a, A, D: Dimension> Iterator for LanesIterMut<'a, A, D> {
    type Item = ArrayViewMut1<'a, A>;
    fn next(&mut self) -> Option<Self::Item> { if self.i < self.n { self.i += 1; Some(self.l.get(self.i - 1)) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, A, D: Dimension> ExactSizeIterator for LanesIterMut<'a, A, D> {}
impl<'a, A, D: Dimension> IntoIterator for LanesMut<'a, A, D> { type Item = ArrayViewMut1<'a, A>; type IntoIter = LanesIterMut<'a, A, D>; fn into_iter(self) -> Self::IntoIter { let n = self.0.dim.size(); LanesIterMut { l: self, i: 0, n } } }

/// subviews along one axis
pub struct AxisIter<'a, A, D: Dimension> { ptr: *mut A, dim: D, strides: Vec<isize>, st: isize, i: usize, n: usize, ph: std::marker::PhantomData<&'a A> }
pub struct AxisIterMut<'a, A, D: Dimension>(AxisIter<'a, A, D>, std::marker::PhantomData<&'a mut A>);
fn axit<'a, S: Data, D: RemoveAxis>(v: &ArrayBase<S, D>, ax: Axis) -> AxisIter<'a, S::Elem, D::Smaller> {
    let mut st = v.strides.clone();
    let s = st.remove(ax.0);
    AxisIter { ptr: v.ptr, dim: v.dim.remove_axis(ax), strides: st, st: s, i: 0, n: v.shape()[ax.0], ph: std::marker::PhantomData }
}
impl<'a, A, D: Dimension> AxisIter<'a, A, D> { pub(crate) fn new<E: RemoveAxis<Smaller = D>>(v: ArrayView<'a, A, E>, ax: Axis) -> Self { axit(&v, ax) } }
impl<'a, A, D: Dimension> AxisIterMut<'a, A, D> { pub(crate) fn new<E: RemoveAxis<Smaller = D>>(v: ArrayViewMut<'a, A, E>, ax: Axis) -> Self { AxisIterMut(axit(&v, ax), std::marker::PhantomData) } }
impl<'a, A, D: Dimension> Iterator for AxisIter<'a, A, D> {
    type Item = ArrayView<'a, A, D>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i >= self.n { return None; }
        self.i += 1;
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: unsafe { self.ptr.offset(self.st * (self.i - 1) as isize) }, dim: self.dim.clone(), strides: self.strides.clone() })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.n - self.i, Some(self.n - self.i)) }
}
impl<'a, A, D: Dimension> DoubleEndedIterator for AxisIter<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.i >= self.n { return None; }
        self.n -= 1;
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: unsafe { self.ptr.offset(self.st * self.n as isize) }, dim: self.dim.clone(), strides: self.strides.clone() })
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for AxisIter<'a, A, D> {}
impl<'a, A, D: Dimension> Iterator for AxisIterMut<'a, A, D> {
    type Item = ArrayViewMut<'a, A, D>;
    fn next(&mut self) -> Option<Self::Item> {
        let v = self.0.next()?;
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim, strides: v.strides })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<'a, A, D: Dimension> DoubleEndedIterator for AxisIterMut<'a, A, D> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let v = self.0.next_back()?;
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: v.ptr, dim: v.dim, strides: v.strides })
    }
}
impl<'a, A, D: Dimension> ExactSizeIterator for AxisIterMut<'a, A, D> {}
