//! Stand-in for the module `ida::nonlinear`, which lib.rs declares but the tree no longer contains (it moved to
//! crates/nonlinear with another vector type).  Same interface as the integrator sources use.
use crate::traits::ModelSpec;
use ndarray::prelude::*;
pub mod newton;
pub use newton::Newton;

#[derive(Debug, failure::Fail)]
pub enum Error {
    #[fail(display = "convergence failure, recoverable")]
    ConvergenceRecover {},
}

pub trait NLProblem<M: ModelSpec> {
    fn sys<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::DataMut<Elem = M::Scalar>;
    fn setup<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::Data<Elem = M::Scalar>;
    fn solve<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, delta: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::DataMut<Elem = M::Scalar>;
    fn ctest<S1, S2, S3, NLS>(&mut self, solver: &NLS, y: ArrayBase<S1, Ix1>, del: ArrayBase<S2, Ix1>, tol: M::Scalar, ewt: ArrayBase<S3, Ix1>) -> Result<bool, failure::Error>
    where S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::Data<Elem = M::Scalar>, S3: ndarray::Data<Elem = M::Scalar>, NLS: NLSolver<M>;
}

pub trait NLSolver<M: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error> where S1: ndarray::DataMut<Elem = M::Scalar> { Ok(()) }
    fn solve<N, S1, S2, S3>(&mut self, problem: &mut N, y0: ArrayBase<S1, Ix1>, y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: M::Scalar, call_lsetup: bool) -> Result<(), failure::Error>
    where N: NLProblem<M>, S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::DataMut<Elem = M::Scalar>, S3: ndarray::Data<Elem = M::Scalar>;
    fn get_num_iters(&self) -> usize;
    fn get_cur_iter(&self) -> usize;
}
