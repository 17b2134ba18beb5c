//! The part of nearly_eq 0.2 the repository's tests use.
use ndarray::{ArrayBase, Data, Dimension};
pub trait NearlyEq<R: ?Sized = Self> { fn eps() -> f64 { 1e-6 } fn eq(&self, other: &R, eps: f64) -> bool; }
impl NearlyEq<f64> for f64 {
    fn eq(&self, o: &f64, eps: f64) -> bool {
        let d = (self - o).abs();
        if *self == *o { true } else if *self == 0.0 || *o == 0.0 || d < f64::MIN_POSITIVE { d < eps * f64::MIN_POSITIVE || d < eps } else { d < eps || d / self.abs().max(o.abs()) < eps }
    }
}
impl<S1: Data<Elem = f64>, S2: Data<Elem = f64>, D: Dimension> NearlyEq<ArrayBase<S2, D>> for ArrayBase<S1, D> {
    fn eq(&self, o: &ArrayBase<S2, D>, eps: f64) -> bool { self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| NearlyEq::eq(a, b, eps)) }
}
pub fn check<L: NearlyEq<R>, R>(l: &L, r: &R, eps: f64) -> bool { l.eq(r, eps) }
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr) => { $crate::assert_nearly_eq!($a, $b, 1e-6) };
    ($a:expr, $b:expr, $e:expr) => { match (&$a, &$b) { (l, r) => if !$crate::check(l, r, $e) { panic!("assertion failed: {:?} !~= {:?}", l, r) } } };
}
