use crate::*;

pub trait ScalarOperand: 'static + Clone {}
macro_rules! so { ($($t:ty),*) => { $(impl ScalarOperand for $t {})* } }
so!(bool, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64);

macro_rules! binop { ($($tr:ident $f:ident),*) => { $(
    impl<A, B, S, S2, D, E> $tr<ArrayBase<S2, E>> for ArrayBase<S, D>
    where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension {
        type Output = ArrayBase<S, D>;
        fn $f(self, rhs: ArrayBase<S2, E>) -> ArrayBase<S, D> { self.$f(&rhs) }
    }
    impl<'a, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
    where A: Clone + $tr<B, Output = A>, B: Clone, S: DataOwned<Elem = A> + DataMut, S2: Data<Elem = B>, D: Dimension, E: Dimension {
        type Output = ArrayBase<S, D>;
        fn $f(mut self, rhs: &ArrayBase<S2, E>) -> ArrayBase<S, D> { self.zip_mut_with(rhs, |x, y| *x = x.clone().$f(y.clone())); self }
    }
    impl<'a, 'b, A, B, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for &'b ArrayBase<S, D>
    where A: Clone + $tr<B, Output = A>, B: Clone, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension, E: Dimension {
        type Output = Array<A, D>;
        fn $f(self, rhs: &'a ArrayBase<S2, E>) -> Array<A, D> { self.to_owned().$f(rhs) }
    }
    impl<A, S, D, B> $tr<B> for ArrayBase<S, D>
    where A: Clone + $tr<B, Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension, B: ScalarOperand {
        type Output = ArrayBase<S, D>;
        fn $f(mut self, rhs: B) -> ArrayBase<S, D> { for x in self.iter_mut() { *x = x.clone().$f(rhs.clone()) } self }
    }
    impl<'a, A, S, D, B> $tr<B> for &'a ArrayBase<S, D>
    where A: Clone + $tr<B, Output = A>, S: Data<Elem = A>, D: Dimension, B: ScalarOperand {
        type Output = Array<A, D>;
        fn $f(self, rhs: B) -> Array<A, D> { self.to_owned().$f(rhs) }
    }
)* } }
binop!(Add add, Sub sub, Mul mul, Div div);

macro_rules! scalar_lhs { ($t:ty: $($tr:ident $f:ident),*) => { $(
    impl<S: DataOwned<Elem = $t> + DataMut, D: Dimension> $tr<ArrayBase<S, D>> for $t { type Output = ArrayBase<S, D>; fn $f(self, mut r: ArrayBase<S, D>) -> ArrayBase<S, D> { for x in r.iter_mut() { *x = self.$f(*x) } r } }
    impl<'a, S: Data<Elem = $t>, D: Dimension> $tr<&'a ArrayBase<S, D>> for $t { type Output = Array<$t, D>; fn $f(self, r: &ArrayBase<S, D>) -> Array<$t, D> { self.$f(r.to_owned()) } }
)* } }
scalar_lhs!(f64: Add add, Sub sub, Mul mul, Div div);
scalar_lhs!(f32: Add add, Sub sub, Mul mul, Div div);

macro_rules! assignop { ($($tr:ident $f:ident $op:ident $of:ident),*) => { $(
    impl<'a, A, S, S2, D, E> $tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
    where A: Clone + $tr<A>, S: DataMut<Elem = A>, S2: Data<Elem = A>, D: Dimension, E: Dimension {
        fn $f(&mut self, rhs: &ArrayBase<S2, E>) { self.zip_mut_with(rhs, |x, y| x.$f(y.clone())) }
    }
    impl<A, S, D> $tr<A> for ArrayBase<S, D>
    where A: ScalarOperand + $tr<A>, S: DataMut<Elem = A>, D: Dimension {
        fn $f(&mut self, rhs: A) { for x in self.iter_mut() { x.$f(rhs.clone()) } }
    }
)* } }
assignop!(AddAssign add_assign Add add, SubAssign sub_assign Sub sub, MulAssign mul_assign Mul mul, DivAssign div_assign Div div);

impl<A: Clone + Neg<Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension> Neg for ArrayBase<S, D> {
    type Output = Self;
    fn neg(mut self) -> Self { for x in self.iter_mut() { *x = -x.clone() } self }
}
impl<'a, A: Clone + Neg<Output = A>, S: Data<Elem = A>, D: Dimension> Neg for &'a ArrayBase<S, D> {
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> { -self.to_owned() }
}
