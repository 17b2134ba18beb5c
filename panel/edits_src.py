"""Behaviour-preserving edits of src/ (the integrator): (id, checks concerned, [(file, old, new)])"""
PS = []
def s(id, pids, *ed): PS.append((id, pids.split(), list(ed)))
L, CS, ST, SV, RC, NLS, LS, IO, NR, TC, RB, SC = ("src/lib.rs", "src/impl_complete_step.rs", "src/impl_stop_test.rs", "src/impl_solve.rs", "src/impl_r_check.rs",
    "src/ida_nls.rs", "src/ida_ls.rs", "src/ida_io.rs", "src/norm_rms.rs", "src/tol_control.rs", "src/sample_problems/roberts.rs", "src/sample_problems/slider_crank.rs")
STEP = "S04 S05 S06 S07"
DRV = "S03 S08 S14 S18"
# ---- norms and weights
s("norm-loop", "S10", (NR, """        ((self * w)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(self.len()).unwrap())
        .sqrt()""", """        let mut total = A::zero();
        for x in (self * w).iter() {
            total = total + *x * *x;
        }
        (total / A::from(self.len()).unwrap()).sqrt()"""))
s("norm-zip", "S10", (NR, """        ((self * w)
            .iter()
            .map(|x| x.powi(2))
            .fold(A::zero(), |acc, x| acc + x)
            / A::from(self.len()).unwrap())
        .sqrt()""", """        let sum = self
            .iter()
            .zip(w.iter())
            .fold(A::zero(), |acc, (&x, &w)| acc + (x * w).powi(2));
        (sum / A::from(self.len()).unwrap()).sqrt()"""))
s("norm-mean", "S10", (NR, """        let mask = id.map(|x| if *x { A::one() } else { A::zero() });
        ((self * w * mask)""", """        let mask = id.mapv(|taken| match taken {
            true => A::one(),
            false => A::zero(),
        });
        let weighted = self * w * mask;
        (weighted"""))
s("ewt-map", "S09", (TC, """        ndarray::Zip::from(&mut ewt).and(&ycur).apply(|ewt, ycur| {
            *ewt = (self.ida_rtol * ycur.abs() + self.ida_atol).recip();
        });""", """        let (rtol, atol) = (self.ida_rtol, self.ida_atol);
        for (w, y) in ewt.iter_mut().zip(ycur.iter()) {
            let tol = rtol * y.abs() + atol;
            *w = Scalar::one() / tol;
        }"""))
s("ewt-index", "S09", (TC, """        ndarray::Zip::from(&mut ewt)
            .and(&ycur)
            .and(&self.ida_atol)
            .apply(|ewt, ycur, atol| {
                *ewt = (self.ida_rtol * ycur.abs() + *atol).recip();
            });""", """        for i in 0..ewt.len() {
            ewt[i] = (self.ida_atol[i] + ycur[i].abs() * self.ida_rtol).recip();
        }"""))
# ---- nonlinear problem
s("sys-order", "S11", (NLS, """        self.ida_yy = &self.ida_yypredict + &ycor;
        //self.ida_yp = &self.ida_yppredict + ycor * self.ida_cj;
        self.ida_yp.assign(&self.ida_yppredict);
        self.ida_yp.scaled_add(self.lp.ida_cj, &ycor);
""", """        let cj = self.lp.ida_cj;
        self.ida_yp.assign(&self.ida_yppredict);
        self.ida_yp.scaled_add(cj, &ycor);
        self.ida_yy.assign(&self.ida_yypredict);
        self.ida_yy += &ycor;
"""), (NLS, """        // increment the number of residual evaluations
        self.ida_nre += 1;

        // save a copy of the residual vector in savres
        self.ida_savres.assign(&res);
""", """        self.ida_savres.assign(&res);
        self.ida_nre = self.ida_nre + 1;
"""))
s("sys-helper", "S11", (NLS, """        self.ida_yy = &self.ida_yypredict + &ycor;
        //self.ida_yp = &self.ida_yppredict + ycor * self.ida_cj;
        self.ida_yp.assign(&self.ida_yppredict);
        self.ida_yp.scaled_add(self.lp.ida_cj, &ycor);
""", """        self.correct(ycor.view());
"""), (NLS, """impl<P, LS> NLProblem<P> for IdaNLProblem<P, LS>
""", """impl<P, LS> IdaNLProblem<P, LS>
where
    P: IdaProblem,
    P::Scalar: num_traits::Float
        + num_traits::float::FloatConst
        + num_traits::NumRef
        + num_traits::NumAssignRef
        + ndarray::ScalarOperand
        + std::fmt::Debug
        + IdaConst<Scalar = P::Scalar>,
    LS: LSolver<P::Scalar>,
{
    /// state and derivative for the current correction
    fn correct(&mut self, ycor: ArrayView1<P::Scalar>) {
        self.ida_yy = &self.ida_yypredict + &ycor;
        self.ida_yp.assign(&self.ida_yppredict);
        self.ida_yp.scaled_add(self.lp.ida_cj, &ycor);
    }
}

impl<P, LS> NLProblem<P> for IdaNLProblem<P, LS>
"""))
s("lsetup-match", "S12", (NLS, """        retval.map_err(|_| IdaError::RecoverableFail {
            rec_type: Recoverable::LSetup,
        })?;

        //return(IDA_SUCCESS);

        Ok(true)""", """        match retval {
            Ok(()) => Ok(true),
            Err(_) => Err(failure::Error::from(IdaError::RecoverableFail {
                rec_type: Recoverable::LSetup,
            })),
        }"""))
s("lsolve-iferr", "S12", (NLS, """        retval.map_err(|_| IdaError::RecoverableFail {
            rec_type: Recoverable::LSolve,
        })?;

        Ok(())""", """        if retval.is_err() {
            return Err(IdaError::RecoverableFail {
                rec_type: Recoverable::LSolve,
            }
            .into());
        }
        Ok(())"""))
s("ctest-early", "S19", (NLS, """        if m == 0 {
            self.ida_oldnrm = delnrm;
            if delnrm <= P::Scalar::pt0001() * self.ida_toldel {
                return Ok(true);
            }
        } else {
            let rate = {
                let base = delnrm / self.ida_oldnrm;
                let arg = <P::Scalar as NumCast>::from(m).unwrap().recip();
                base.powf(arg)
            };
            if rate > <P::Scalar as NumCast>::from(RATEMAX).unwrap() {
                return Err(failure::Error::from(Error::ConvergenceRecover {}));
            }
            self.ida_ss = rate / (P::Scalar::one() - rate);
        }

        if self.ida_ss * delnrm <= tol {
            return Ok(true);
        }

        // not yet converged
        return Ok(false);""", """        match m {
            0 => {
                self.ida_oldnrm = delnrm;
                if delnrm <= P::Scalar::pt0001() * self.ida_toldel {
                    return Ok(true);
                }
            }
            _ => {
                let count = <P::Scalar as NumCast>::from(m).unwrap();
                let rate = (delnrm / self.ida_oldnrm).powf(P::Scalar::one() / count);
                let limit = <P::Scalar as NumCast>::from(RATEMAX).unwrap();
                if limit < rate {
                    Err(Error::ConvergenceRecover {})?
                }
                self.ida_ss = rate / (P::Scalar::one() - rate);
            }
        }

        Ok(delnrm * self.ida_ss <= tol)"""))
s("ctest-helper", "S19", (NLS, """            let rate = {
                let base = delnrm / self.ida_oldnrm;
                let arg = <P::Scalar as NumCast>::from(m).unwrap().recip();
                base.powf(arg)
            };
""", """            let rate = contraction(delnrm, self.ida_oldnrm, <P::Scalar as NumCast>::from(m).unwrap());
"""), (NLS, "/// State variables involved in the Non-linear problem\n", """/// average contraction of the corrections over m iterations
fn contraction<S: num_traits::Float>(now: S, before: S, m: S) -> S {
    (now / before).powf(m.recip())
}

/// State variables involved in the Non-linear problem
"""))
# ---- linear problem
s("ls-tol-if", "S12", (LS, """        let tol = match ls_type {
            LSolverType::Iterative | LSolverType::MatrixIterative => {
                self.sqrt_n * self.eplifac
                //self.sqrtN * idals_mem->eplifac * IDA_mem->ida_epsNewt
            }
            _ => P::Scalar::zero(),
        };
""", """        let mut tol = P::Scalar::zero();
        if let LSolverType::Iterative | LSolverType::MatrixIterative = ls_type {
            tol = self.eplifac * self.sqrt_n;
        }
"""))
s("ls-out-match", "S12", (LS, """        if let LSolverType::Iterative | LSolverType::MatrixIterative = ls_type {
            // Retrieve solver statistics
            let nli_inc = self.ls.num_iters();

            // Copy x (or preconditioned residual vector if no iterations required) to b
            if nli_inc == 0 {
                //N_VScale(ONE, SUNLinSolResid(self.gLS), b);
            } else {
                b.assign(&self.x);
            }

            // Increment nli counter
            self.nli += nli_inc;
        } else {
            // Copy x to b
            b.assign(&self.x);
        }
""", """        match ls_type {
            LSolverType::Iterative | LSolverType::MatrixIterative => {
                let iterations = self.ls.num_iters();
                self.nli += iterations;
                if iterations > 0 {
                    b.assign(&self.x);
                }
            }
            LSolverType::Direct => b.assign(&self.x),
        }
"""), (LS, """        if retval.is_err() {
            self.ncfl += 1;
        }
""", """        if let Err(_) = &retval {
            self.ncfl += 1;
        }
"""))
s("ls-scale", "S12", (LS, """            if self.ida_cjratio != P::Scalar::one() {
                b *= P::Scalar::two() / (P::Scalar::one() + self.ida_cjratio);
            }
""", """            let ratio = self.ida_cjratio;
            if !(ratio == P::Scalar::one()) {
                let factor = P::Scalar::two() / (ratio + P::Scalar::one());
                b.map_inplace(|v| *v = *v * factor);
            }
"""))
s("ls-setup-order", "S12", (LS, """            // Increment nje counter.
            self.nje += 1;

            // Zero out J; call Jacobian routine jac; return if it failed.
            self.mat_j.fill(P::Scalar::zero());
""", """            for v in self.mat_j.iter_mut() {
                *v = P::Scalar::zero();
            }
            self.nje += 1;
"""))
# ---- getters
s("io-ret", "S16", (IO, "    pub fn get_num_nonlin_solv_iters(&self) -> usize {\n", "    pub fn get_num_nonlin_solv_iters(&self) -> usize {\n        let counters = &self.counters;\n        let _ = counters;\n"))
# ---- stop tests
s("stop-dir", "S02 S03", (ST, """                if (self.nlp.ida_tn - tout) * self.ida_hh >= P::Scalar::zero() {
                    self.get_solution(tout)?;
                    self.ida_tretlast = tout;
                    *tret = tout;
                    return Ok(IdaSolveStatus::Success);
                }

                if let Some(tstop) = self.ida_tstop {
                    let troundoff = P::Scalar::hundred()
                        * P::Scalar::epsilon()
                        * (self.nlp.ida_tn.abs() + self.ida_hh.abs());

                    if (self.nlp.ida_tn - tstop).abs() <= troundoff {
                        self.get_solution(tstop)
""", """                let passed = self.ida_hh * (self.nlp.ida_tn - tout) >= P::Scalar::zero();
                if passed {
                    self.get_solution(tout)?;
                    *tret = tout;
                    self.ida_tretlast = *tret;
                    return Ok(IdaSolveStatus::Success);
                }

                if let Some(tstop) = self.ida_tstop {
                    let scale = self.nlp.ida_tn.abs() + self.ida_hh.abs();
                    let troundoff = scale * P::Scalar::hundred() * P::Scalar::epsilon();
                    let gap = self.nlp.ida_tn - tstop;

                    if !(gap.abs() > troundoff) {
                        self.get_solution(tstop)
"""))
s("stop-past", "S02 S03", (ST, """        if let Some(tstop) = self.ida_tstop {
            // Test for tn past tstop, tn = tretlast, tn past tout, tn near tstop.
            if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::zero() {
                Err(IdaError::BadStopTime {
                    tstop: tstop.to_f64().unwrap(),
                    t: self.nlp.ida_tn.to_f64().unwrap(),
                })?
            }
        }
        match itask {
""", """        match self.ida_tstop {
            Some(tstop) if ((self.nlp.ida_tn - tstop) * self.ida_hh) > P::Scalar::zero() => {
                return Err(failure::Error::from(IdaError::BadStopTime {
                    tstop: tstop.to_f64().unwrap(),
                    t: self.nlp.ida_tn.to_f64().unwrap(),
                }));
            }
            _ => {}
        }
        match itask {
"""))
# ---- predictor, coefficients
s("coef-while", "S20 S04", (L, """            for i in 1..=self.ida_kk {
                let scalar_i: P::Scalar = NumCast::from(i).unwrap();
                let temp2 = self.ida_psi[i - 1];
""", """            let order = self.ida_kk;
            let mut i = 0;
            while i < order {
                i += 1;
                let scalar_i: P::Scalar = NumCast::from(i).unwrap();
                let temp2 = self.ida_psi[i - 1];
"""))
s("coef-alphas", "S20", (L, """        let mut alphas = P::Scalar::zero();
        let mut alpha0 = P::Scalar::zero();
        for i in 0..self.ida_kk {
            let scalar_i: P::Scalar = NumCast::from(i + 1).unwrap();
            alphas -= P::Scalar::one() / scalar_i;
            alpha0 -= self.ida_alpha[i];
        }
""", """        let alphas = (1..=self.ida_kk).fold(P::Scalar::zero(), |sum, i| {
            sum - <P::Scalar as NumCast>::from(i).unwrap().recip()
        });
        let alpha0 = (0..self.ida_kk).fold(P::Scalar::zero(), |sum, i| sum - self.ida_alpha[i]);
"""))
s("coef-phi-loop", "S20 S04", (L, """            let mut phi = self
                .ida_phi
                .slice_axis_mut(Axis(0), Slice::from(self.ida_ns..self.ida_kk + 1));
            let beta = self.ida_beta.slice(s![self.ida_ns..self.ida_kk + 1]);
            let beta = beta
                .broadcast((phi.len_of(Axis(1)), phi.len_of(Axis(0))))
                .unwrap()
                .reversed_axes();
            phi *= &beta;
""", """            for i in self.ida_ns..=self.ida_kk {
                let beta = self.ida_beta[i];
                let mut phi = self.ida_phi.index_axis_mut(Axis(0), i);
                phi *= beta;
            }
"""))
s("coef-helper", "S20", (L, """        // compute leading coefficient cj
        self.ida_cjlast = self.nlp.lp.ida_cj;
        self.nlp.lp.ida_cj = -alphas / self.ida_hh;

        // compute variable stepsize error coefficient ck
        let mut ck = (self.ida_alpha[self.ida_kk] + alphas - alpha0).abs();
        ck = ck.max(self.ida_alpha[self.ida_kk]);
""", """        // compute variable stepsize error coefficient ck
        let leading = self.ida_alpha[self.ida_kk];
        let ck = leading.max((leading + alphas - alpha0).abs());

        // compute leading coefficient cj
        self.ida_cjlast = std::mem::replace(&mut self.nlp.lp.ida_cj, -alphas / self.ida_hh);
"""))
s("predict-loop", "S11 S04", (L, """            self.nlp.ida_yypredict.fill(P::Scalar::zero());
            for phi in self
                .ida_phi
                .slice_axis(Axis(0), Slice::from(0..=self.ida_kk))
                .genrows()
            {
                self.nlp.ida_yypredict += &phi;
            }
""", """            self.nlp
                .ida_yypredict
                .assign(&self.ida_phi.index_axis(Axis(0), 0));
            for j in 1..=self.ida_kk {
                self.nlp.ida_yypredict += &self.ida_phi.index_axis(Axis(0), j);
            }
"""))
s("predict-yp", "S11", (L, """        nlp.ida_yppredict.fill(P::Scalar::zero());
        ndarray::Zip::from(&ida_gamma.slice(s![1..=ida_kk]))
            .and(
                ida_phi
                    .slice_axis(Axis(0), Slice::from(1..=ida_kk))
                    .genrows(),
            )
            .apply(|gamma, phi| {
                nlp.ida_yppredict.scaled_add(*gamma, &phi);
            });
""", """        nlp.ida_yppredict.fill(P::Scalar::zero());
        for j in 1..=*ida_kk {
            nlp.ida_yppredict
                .scaled_add(ida_gamma[j], &ida_phi.index_axis(Axis(0), j));
        }
"""), (L, "        let &mut Ida {\n            ida_kk,\n            ref ida_phi,\n            ref ida_gamma,\n            ref mut nlp,\n", "        let Ida {\n            ida_kk,\n            ida_phi,\n            ida_gamma,\n            nlp,\n"))
s("nls-call", "S11 S21", (L, """        if self.nlp.lp.ida_cjratio < temp1 || self.nlp.lp.ida_cjratio > temp2 {
            call_lsetup = true;
        }
""", """        let ratio = self.nlp.lp.ida_cjratio;
        let fresh = ratio >= temp1 && ratio <= temp2;
        call_lsetup |= !fresh;
"""), (L, """        let w = self.nlp.ida_ewt.clone();
""", """        let w = self.nlp.ida_ewt.to_owned();
"""))
s("nls-first", "S11 S21", (L, """        let mut call_lsetup = false;

        if self.counters.ida_nst == 0 {
""", """        let first = self.counters.ida_nst == 0;
        let mut call_lsetup = first;

        if first {
"""), (L, """            //if (self.ida_lsetup) { callLSetup = true; }
            call_lsetup = true;
""", ""))
# ---- error test, restore, failures
s("test-knew", STEP, (L, """                if terr_km1.max(terr_km2) <= terr_k {
                    self.ida_kk - 1
                } else {
                    self.ida_kk
                }
""", """                let lower = terr_km1 <= terr_k && terr_km2 <= terr_k;
                self.ida_kk - if lower { 1 } else { 0 }
"""))
s("test-conv", STEP, (L, """        let converged = (ck * enorm_k) <= P::Scalar::one();

        if converged {
            Ok((err_k, err_km1, true))
        } else {
            Err((err_k, err_km1, failure::Error::from(IdaError::TestFail)))
        }
""", """        if ck * enorm_k > P::Scalar::one() {
            return Err((err_k, err_km1, IdaError::TestFail.into()));
        }
        Ok((err_k, err_km1, true))
"""))
s("restore-order", STEP, (L, """        self.nlp.ida_tn = saved_t;

        // Restore psi[0 .. kk] = psi[1 .. kk + 1] - hh
        for j in 1..self.ida_kk + 1 {
            self.ida_psi[j - 1] = self.ida_psi[j] - self.ida_hh;
        }
""", """        let hh = self.ida_hh;
        for j in 0..self.ida_kk {
            self.ida_psi[j] = self.ida_psi[j + 1] - hh;
        }
        self.nlp.ida_tn = saved_t;
"""))
s("restore-loop", STEP, (L, """            // cvals[0 .. kk-ns+1] = 1 / beta[ns .. kk+1]
            ndarray::Zip::from(
                &mut self
                    .ida_cvals
                    .slice_mut(s![0..self.ida_kk - self.ida_ns + 1]),
            )
            .and(&self.ida_beta.slice(s![self.ida_ns..self.ida_kk + 1]))
            .apply(|cvals, &beta| {
                *cvals = beta.recip();
            });

            // phi[ns .. (kk + 1)] *= cvals[ns .. (kk + 1)]
            let mut ida_phi = self
                .ida_phi
                .slice_axis_mut(Axis(0), Slice::from(self.ida_ns..self.ida_kk + 1));

            // We manually broadcast cvals here so we can turn it into a column vec
            let cvals = self.ida_cvals.slice(s![0..self.ida_kk - self.ida_ns + 1]);
            let cvals = cvals
                .broadcast((1, ida_phi.len_of(Axis(0))))
                .unwrap()
                .reversed_axes();

            ida_phi *= &cvals;
""", """            for j in self.ida_ns..=self.ida_kk {
                let back = self.ida_beta[j].recip();
                let mut phi = self.ida_phi.index_axis_mut(Axis(0), j);
                phi *= back;
            }
"""))
s("flag-match", STEP, (L, """                        if *nef_ptr == 1 {
""", """                        let failures = *nef_ptr;
                        if failures == 1 {
"""), (L, """                        } else if *nef_ptr == 2 {
""", """                        } else if failures == 2 {
"""), (L, """                        } else if *nef_ptr < self.ida_maxnef {
""", """                        } else if self.ida_maxnef > failures {
"""))
s("flag-limit", STEP, (L, """                        if *ncf_ptr < self.ida_maxncf {
                            //return(PREDICT_AGAIN);
                            Ok(())
                        } else {
                            match rec_type {
                                // return (IDA_REP_RES_ERR);
                                Recoverable::Residual => {
                                    Err(failure::Error::from(IdaError::RepeatedResidualError {}))
                                }

                                // return (IDA_CONSTR_FAIL);
                                Recoverable::Constraint => {
                                    Err(failure::Error::from(IdaError::ConstraintFail {}))
                                }

                                // return (IDA_CONV_FAIL);
                                _ => Err(failure::Error::from(IdaError::ConvergenceFail {})),
                            }
                        }
""", """                        if *ncf_ptr >= self.ida_maxncf {
                            let e = match rec_type {
                                Recoverable::Residual => IdaError::RepeatedResidualError {},
                                Recoverable::Constraint => IdaError::ConstraintFail {},
                                _ => IdaError::ConvergenceFail {},
                            };
                            return Err(e.into());
                        }
                        Ok(())
"""))
s("step-match", STEP, (L, """            let (err_k, err_km1, converged) = self
                .nonlinear_solve()
                .map_err(|err| (P::Scalar::zero(), P::Scalar::zero(), err))
                .and_then(|_| {
                    // If NLS was successful, perform error test
                    self.test_error(ck)
                })
                // Test for convergence or error test failures
                .or_else(|(err_k, err_km1, err)| {
                    // restore and decide what to do
                    self.restore(saved_t);

                    self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)
                        .map(|_| {
                            // recoverable error; predict again
                            if self.counters.ida_nst == 0 {
                                self.reset();
                            }

                            (err_k, err_km1, false)
                        })
                })?;

            if converged {
                break (ck, err_k, err_km1);
            }
""", """            let attempt = match self.nonlinear_solve() {
                Ok(()) => self.test_error(ck),
                Err(err) => Err((P::Scalar::zero(), P::Scalar::zero(), err)),
            };
            match attempt {
                Ok((err_k, err_km1, _)) => break (ck, err_k, err_km1),
                Err((err_k, err_km1, err)) => {
                    self.restore(saved_t);
                    self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)?;
                    if self.counters.ida_nst == 0 {
                        self.reset();
                    }
                }
            }
"""))
s("complete-clamp", STEP, (CS, """            if self.counters.ida_nst > 1 {
                self.ida_kk += 1;
                let mut hnew = P::Scalar::two() * self.ida_hh;
                let tmp = hnew.abs() * self.ida_hmax_inv;
                if tmp > P::Scalar::one() {
                    hnew /= tmp;
                }
                self.ida_hh = hnew;
            }
""", """            if self.counters.ida_nst != 1 {
                self.ida_kk += 1;
                self.ida_hh = self.doubled();
            }
"""), (CS, """                hnew = P::Scalar::two() * self.ida_hh;
                let tmp = hnew.abs() * self.ida_hmax_inv;
                if tmp > P::Scalar::one() {
                    hnew /= tmp;
                }
            } else if""", """                hnew = self.doubled();
            } else if"""), (CS, """    /// IDACompleteStep
""", """    /// twice the step size, or the largest one allowed
    fn doubled(&self) -> P::Scalar {
        let hnew = P::Scalar::two() * self.ida_hh;
        let over = hnew.abs() * self.ida_hmax_inv;
        if over > P::Scalar::one() {
            hnew / over
        } else {
            hnew
        }
    }

    /// IDACompleteStep
"""))
s("complete-phi", STEP, (CS, """        let mut tmp = self.ida_zvecs.index_axis_mut(Axis(0), 0);
        tmp.assign(&self.ida_ee);

        for mut phi in self
            .ida_phi
            .slice_axis_mut(Axis(0), Slice::from(0..=self.ida_kused).step_by(-1))
            .genrows_mut()
        {
            tmp += &phi;
            phi.assign(&tmp);
        }
""", """        let mut carry = self.ida_ee.clone();
        for j in (0..=self.ida_kused).rev() {
            let mut phi = self.ida_phi.index_axis_mut(Axis(0), j);
            carry += &phi;
            phi.assign(&carry);
        }
"""))
s("complete-action", STEP, (CS, """                if self.ida_kk == 1 {
                    if terr_kp1 >= (P::Scalar::half() * terr_k) {
                        (Action::Maintain, err_kp1)
                    } else {
                        (Action::Raise, err_kp1)
                    }
                } else {
""", """                if self.ida_kk == 1 {
                    let gain = terr_kp1 < terr_k * P::Scalar::half();
                    (if gain { Action::Raise } else { Action::Maintain }, err_kp1)
                } else {
"""))
s("complete-rr", STEP, (CS, """            if self.ida_rr >= P::Scalar::two() {
                hnew =""", """            let double = self.ida_rr >= P::Scalar::two();
            if double {
                hnew ="""), (CS, """            let err_knew = match action {
                Action::Raise => {
                    self.ida_kk += 1;
                    err_kp1
                }
                Action::Lower => {
                    self.ida_kk -= 1;
                    err_km1
                }
                _ => err_k,
            };
""", """            let (order, err_knew) = match action {
                Action::Raise => (self.ida_kk + 1, err_kp1),
                Action::Lower => (self.ida_kk - 1, err_km1),
                Action::Maintain => (self.ida_kk, err_k),
            };
            self.ida_kk = order;
"""))
# ---- interpolation
s("sol-loop", "S01 S02 S03", (L, """        let ida_yy = &mut self.nlp.ida_yy;
        ida_yy.fill(P::Scalar::zero());
        ndarray::Zip::from(self.ida_cvals.slice(s![0..=kord]))
            .and(
                self.ida_phi
                    .slice_axis(Axis(0), Slice::from(0..=kord))
                    .genrows(),
            )
            .apply(|&c, phi| {
                ida_yy.scaled_add(c, &phi);
            });
""", """        self.nlp.ida_yy.fill(P::Scalar::zero());
        for j in 0..=kord {
            self.nlp
                .ida_yy
                .scaled_add(self.ida_cvals[j], &self.ida_phi.index_axis(Axis(0), j));
        }
"""), (L, """        let kord = if self.ida_kused == 0 {
            1
        } else {
            self.ida_kused
        };
""", """        let kord = std::cmp::max(self.ida_kused, 1);
"""))
s("sol-guard", "S01 S02 S03", (L, """        if ((t - tp) * self.ida_hh) < P::Scalar::zero() {
            Err(IdaError::BadTimeValue {
                t: t.to_f64().unwrap(),
                tdiff: (self.nlp.ida_tn - self.ida_hused).to_f64().unwrap(),
                tcurr: self.nlp.ida_tn.to_f64().unwrap(),
            })?;
        }

        // Initialize kord = (kused or 1).
        let kord""", """        let ahead = (t - tp) * self.ida_hh;
        if !(ahead >= P::Scalar::zero()) {
            return Err(failure::Error::from(IdaError::BadTimeValue {
                t: t.to_f64().unwrap(),
                tdiff: (self.nlp.ida_tn - self.ida_hused).to_f64().unwrap(),
                tcurr: self.nlp.ida_tn.to_f64().unwrap(),
            }));
        }

        // Initialize kord = (kused or 1).
        let kord"""))
# ---- driver
s("solve-first-helper", DRV, (SV, """            let rh = (self.ida_hh).abs() * self.ida_hmax_inv;
            if rh > P::Scalar::one() {
                self.ida_hh /= rh;
            }
""", """            self.limit_first_step();
"""), (SV, """    /// IDA_MEM_NULL
    /// IDA_TOO_MUCH_ACC
    /// IDA_CONV_FAIL
""", """    /// IDA_MEM_NULL
    /// IDA_TOO_MUCH_ACC
    ///  IDA_CONV_FAIL
"""), (SV, """        } // End of step loop

        //return(istate);
    }
""", """        } // End of step loop

        //return(istate);
    }

    /// keeps the first step below the largest one allowed
    fn limit_first_step(&mut self) {
        let rh = self.ida_hmax_inv * self.ida_hh.abs();
        if rh > P::Scalar::one() {
            self.ida_hh = self.ida_hh / rh;
        }
    }
"""))
s("solve-tdist", DRV, (SV, """            if tdist == P::Scalar::zero() {
                Err(IdaError::IllegalInput {
                    msg: format!("tout too close to t0 to start integration."),
                })?
            }
            let troundoff =
                P::Scalar::two() * P::Scalar::epsilon() * (self.nlp.ida_tn.abs() + tout.abs());
            if tdist < troundoff {
""", """            let troundoff =
                P::Scalar::two() * P::Scalar::epsilon() * (self.nlp.ida_tn.abs() + tout.abs());
            if tdist == P::Scalar::zero() || tdist < troundoff {
"""))
s("solve-loop-while", DRV, (SV, """            let istate = self.stop_test2(tout, tret, itask);
            match istate {
                Err(_)
                | Ok(IdaSolveStatus::Root)
                | Ok(IdaSolveStatus::Success)
                | Ok(IdaSolveStatus::TStop) => {
                    return istate;
                }
                _ => {}
            }
        } // End of step loop
""", """            match self.stop_test2(tout, tret, itask)? {
                IdaSolveStatus::ContinueSteps => continue,
                done => return Ok(done),
            }
        } // End of step loop
"""))
s("solve-sflag", DRV, (SV, """            let sflag = self.step();

            // Process all failed-step cases, and exit loop.
            sflag.map_err(|err| {
                let ier = self.get_solution(self.nlp.ida_tn);
                match ier {
                    Ok(_) => {
                        *tret = self.nlp.ida_tn;
                        self.ida_tretlast = self.nlp.ida_tn;
                    }
                    Err(e2) => {
                        error!("Error occured with get_solution: {:?}", e2.as_fail());
                    }
                }
                // Forward the error
                err
            })?;
""", """            if let Err(err) = self.step() {
                let now = self.nlp.ida_tn;
                if let Err(e2) = self.get_solution(now) {
                    error!("Error occured with get_solution: {:?}", e2.as_fail());
                } else {
                    self.ida_tretlast = now;
                    *tret = now;
                }
                return Err(err);
            }
"""))
s("solve-ewt", DRV, (SV, """                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
                    let _ier""", """                if !self.nlp.ida_ewt.iter().all(|x| *x > P::Scalar::zero()) {
                    let _ier"""))
s("solve-mxstep", DRV, (SV, """            if (self.ida_mxstep > 0) && (nstloc >= self.ida_mxstep) {
""", """            let limit = self.ida_mxstep;
            if limit != 0 && !(nstloc < limit) {
"""))
s("solve-stop1-match", DRV, (SV, """            let istate = self.stop_test1(tout, tret, itask);
            match istate {
                Err(_)
                | Ok(IdaSolveStatus::Root)
                | Ok(IdaSolveStatus::Success)
                | Ok(IdaSolveStatus::TStop) => {
                    return istate;
                }
                _ => {}
            }
        }
""", """            let istate = self.stop_test1(tout, tret, itask)?;
            if let IdaSolveStatus::ContinueSteps = istate {
            } else {
                return Ok(istate);
            }
        }
"""))
s("solve-root-report", DRV, (SV, """                if let RootStatus::RootFound = ier {
                    // A new root was found
                    self.ida_irfnd = true;
                    self.ida_tretlast = self.ida_tlo;
                    *tret = self.ida_tlo;
                    return Ok(IdaSolveStatus::Root);
                }
""", """                match ier {
                    RootStatus::RootFound => {
                        let at = self.ida_tlo;
                        self.ida_irfnd = true;
                        *tret = at;
                        self.ida_tretlast = at;
                        return Ok(IdaSolveStatus::Root);
                    }
                    RootStatus::Continue => (),
                }
"""))
# ---- sample problems
s("rob-terms", "S13 S23", (RB, """        resval[0] = -0.04 * yy[0] + 1.0e4 * yy[1] * yy[2];
        resval[1] = -resval[0] - 3.0e7 * yy[1] * yy[1] - yp[1];
        resval[0] -= yp[0];
""", """        let first = 1.0e4 * yy[1] * yy[2] - 0.04 * yy[0];
        let second = -first - 3.0e7 * yy[1].powi(2);
        resval[0] = first - yp[0];
        resval[1] = second - yp[1];
"""))
s("crank-trig", "S22", (SC, """        let s21 = s2 * c1 - c2 * s1;
        let c21 = c2 * c1 + s2 * s1;
""", """        let s21 = (p - q).sin();
        let c21 = (p - q).cos();
"""))
s("crank-half", "S22", (SC, """        Q[0] = -fl * self.a * (s21 / 2.0 + x * s1) / 2.0;
""", """        Q[0] = -0.5 * fl * self.a * (0.5 * s21 + x * s1);
"""))
