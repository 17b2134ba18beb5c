//! Stand-in for the module `ida::linear`, which lib.rs declares but the tree no longer contains (it moved to
//! crates/linear with another vector type).  Same interface as the integrator sources use.
use ndarray::prelude::*;

pub enum LSolverType { Direct, Iterative, MatrixIterative }

#[derive(Debug)]
pub struct Singular(pub usize);
impl std::fmt::Display for Singular { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "singular at {}", self.0) } }
impl failure::Fail for Singular {}

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where S1: ndarray::Data<Elem = Scalar>, S2: ndarray::Data<Elem = Scalar> {}
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> where S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: Scalar) -> Result<(), failure::Error>
    where S1: ndarray::Data<Elem = Scalar>, S2: ndarray::DataMut<Elem = Scalar>, S3: ndarray::Data<Elem = Scalar>;
    fn num_iters(&self) -> usize { 0 }
}

#[derive(Clone, Debug)]
pub struct Dense<Scalar> { pivots: Vec<usize>, ph: std::marker::PhantomData<Scalar> }

impl<Scalar> LSolver<Scalar> for Dense<Scalar>
where Scalar: num_traits::Float + num_traits::NumAssignRef
{
    fn new(size: usize) -> Self { Dense { pivots: vec![0; size], ph: std::marker::PhantomData } }
    fn get_type(&self) -> LSolverType { LSolverType::Direct }
    fn setup<S1>(&mut self, mut a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> where S1: ndarray::DataMut<Elem = Scalar> {
        let n = a.rows();
        for k in 0..n {
            let mut l = k;
            for i in k + 1..n { if a[[i, k]].abs() > a[[l, k]].abs() { l = i } }
            self.pivots[k] = l;
            if a[[l, k]] == Scalar::zero() { return Err(Singular(k + 1).into()); }
            if l != k { for j in 0..n { a.swap([l, j], [k, j]) } }
            let m = a[[k, k]].recip();
            for i in k + 1..n { a[[i, k]] = a[[i, k]] * m; }
            for j in k + 1..n { let f = a[[k, j]]; for i in k + 1..n { let d = f * a[[i, k]]; a[[i, j]] -= d; } }
        }
        Ok(())
    }
    fn solve<S1, S2, S3>(&self, a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, _tol: Scalar) -> Result<(), failure::Error>
    where S1: ndarray::Data<Elem = Scalar>, S2: ndarray::DataMut<Elem = Scalar>, S3: ndarray::Data<Elem = Scalar> {
        let n = a.rows();
        x.assign(&b);
        for k in 0..n { x.swap(k, self.pivots[k]); }
        for k in 0..n { for i in k + 1..n { let d = x[k] * a[[i, k]]; x[i] -= d; } }
        for k in (0..n).rev() { x[k] = x[k] / a[[k, k]]; for i in 0..k { let d = x[k] * a[[i, k]]; x[i] -= d; } }
        Ok(())
    }
}
