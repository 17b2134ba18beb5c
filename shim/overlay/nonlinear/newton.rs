use super::*;

#[derive(Clone, Debug)]
pub struct Newton<M: ModelSpec> { delta: Array1<M::Scalar>, jcur: bool, curiter: usize, maxiters: usize, niters: usize }

impl<M: ModelSpec> NLSolver<M> for Newton<M>
where M::Scalar: num_traits::Float + num_traits::NumAssignRef + ndarray::ScalarOperand
{
    fn new(size: usize, maxiters: usize) -> Self { Newton { delta: Array::zeros(size), jcur: false, curiter: 0, maxiters, niters: 0 } }
    fn solve<N, S1, S2, S3>(&mut self, problem: &mut N, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: M::Scalar, call_lsetup: bool) -> Result<(), failure::Error>
    where N: NLProblem<M>, S1: ndarray::Data<Elem = M::Scalar>, S2: ndarray::DataMut<Elem = M::Scalar>, S3: ndarray::Data<Elem = M::Scalar> {
        let (mut call_lsetup, mut jbad) = (call_lsetup, false);
        loop {
            problem.sys(y0.view(), self.delta.view_mut())?;
            if call_lsetup { self.jcur = problem.setup(y0.view(), self.delta.view(), jbad)?; }
            self.curiter = 0;
            y.assign(&y0);
            let r = loop {
                self.niters += 1;
                self.delta.mapv_inplace(|x| -x);
                if let Err(e) = problem.solve(y.view(), self.delta.view_mut()) { break Err(e); }
                y += &self.delta;
                match problem.ctest(self, y.view(), self.delta.view(), tol, w.view()) {
                    Err(e) => break Err(e),
                    Ok(true) => { self.jcur = false; break Ok(()); }
                    Ok(false) => {}
                }
                self.curiter += 1;
                if self.curiter >= self.maxiters { break Err(Error::ConvergenceRecover {}.into()); }
                if let Err(e) = problem.sys(y.view(), self.delta.view_mut()) { break Err(e); }
            };
            match r {
                Err(ref e) if !self.jcur && e.downcast_ref::<Error>().is_some() => { call_lsetup = true; jbad = true; }
                r => return r,
            }
        }
    }
    fn get_num_iters(&self) -> usize { self.niters }
    fn get_cur_iter(&self) -> usize { self.curiter }
}
