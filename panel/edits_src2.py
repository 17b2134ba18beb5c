"""Second set of behaviour-preserving edits of src/"""
from edits_src import L, CS, ST, SV, RC, NLS, LS, IO, NR, TC, RB, SC, STEP, DRV
PS2 = []
T = {f: open("/repo/" + f).read() for f in (L, CS, SV, RC, NLS, LS, NR, TC)}
def s(id, pids, *ed): PS2.append((id, pids.split(), list(ed)))
def cut(f, a, b, skip=0):
    i = T[f].index(a); j = T[f].index(b, i)
    return T[f][i:j]
# ---- get_dky / get_solution
s("dky-range", "S01 S24", (L, cut(L, "        if (k < 0) || (k > self.ida_kused) {", "        // Check t for legality"), "        if k > self.ida_kused {\n            return Err(failure::Error::from(IdaError::BadK {}));\n        }\n\n"))
s("dky-assign", "S01 S24", (L, """            for j in i + 1..self.ida_kused - k + i + 1 {
                cjk_1[j] = cjk[j];
            }
""", """            let last = self.ida_kused - k + i;
            for j in i + 1..=last {
                cjk_1[j] = cjk[j];
            }
"""))
s("dky-sumloop", "S01 S24", (L, cut(L, "        let phi = self\n            .ida_phi\n            .slice_axis(Axis(0), Slice::from(k..self.ida_kused + 1));", "        Ok(())\n    }\n\n    /// IDAInitialSetup"), """        dky.fill(P::Scalar::zero());
        for j in k..=self.ida_kused {
            let column = self.ida_phi.index_axis(Axis(0), j);
            dky.scaled_add(cjk[j], &column);
        }

"""))
s("dky-ifelse", "S01 S24", (L, cut(L, "            if i == 0 {\n                cjk[i] = P::Scalar::one();", "            // update c_j^(i)\n"), """            if i > 0 {
                let psi = self.ida_psi[i - 1];
                cjk[i] = scalar_i * cjk[i - 1] / psi;
                psij_1 = psi;
            } else {
                cjk[0] = P::Scalar::one();
            }

"""))
s("sol-kordmax", "S01 S24 S02 S03", (L, cut(L, "        let kord = if self.ida_kused == 0 {", "        // Accumulate multiples"), "        let kord = std::cmp::max(self.ida_kused, 1);\n\n"))
s("sol-tuple", "S01 S24", (L, cut(L, "            d = d * gam + c / self.ida_psi[j - 1];", "        //retval = N_VLinearCombination(kord+1,"), """            let psi = self.ida_psi[j - 1];
            let (cnext, dnext) = (c * gam, d * gam + c / psi);
            c = cnext;
            d = dnext;
            gam = (psi + delt) / self.ida_psi[j];

            self.ida_dvals[j - 1] = d;
            self.ida_cvals[j] = c;
        }

"""))
s("sol-forrows", "S01 S24", (L, cut(L, "        let ida_yp = &mut self.nlp.ida_yp;\n        ida_yp.fill", "        Ok(())\n    }\n\n    /// Returns the WRMS norm"), """        self.nlp.ida_yp.fill(P::Scalar::zero());
        for j in 1..=kord {
            let column = self.ida_phi.index_axis(Axis(0), j);
            self.nlp.ida_yp.scaled_add(self.ida_dvals[j - 1], &column);
        }

"""))
CHK = cut(L, "        let tfuzz = P::Scalar::hundred()\n            * P::Scalar::epsilon()\n            * (self.nlp.ida_tn.abs() + self.ida_hh.abs())\n            * self.ida_hh.signum();\n\n        let tp", "        // Initialize kord")
s("sol-checkfn", "S01 S24 S02 S03", (L, CHK, "        self.check_time(t)?;\n\n"), (L, "    /// Returns the WRMS norm of vector x with weights w.", """    /// Is `t` within the last step taken?
    fn check_time(&self, t: P::Scalar) -> Result<(), IdaError> {
        let (tn, hh) = (self.nlp.ida_tn, self.ida_hh);
        let tfuzz = P::Scalar::hundred() * P::Scalar::epsilon() * (tn.abs() + hh.abs()) * hh.signum();
        let tp = tn - self.ida_hused - tfuzz;
        if (t - tp) * hh >= P::Scalar::zero() {
            return Ok(());
        }
        Err(IdaError::BadTimeValue {
            t: t.to_f64().unwrap(),
            tdiff: (tn - self.ida_hused).to_f64().unwrap(),
            tcurr: tn.to_f64().unwrap(),
        })
    }

    /// Returns the WRMS norm of vector x with weights w."""))
# ---- set_coeffs
s("coef-min", "S20 S04", (L, "        self.ida_ns = std::cmp::min(self.ida_ns + 1, self.ida_kused + 2);\n", "        self.ida_ns = (self.ida_ns + 1).min(self.ida_kused + 2);\n"))
s("coef-same", "S20 S04", (L, cut(L, "        if (self.ida_hh != self.ida_hused) || (self.ida_kk != self.ida_kused) {", "        if self.ida_kk + 1 >= self.ida_ns {"), """        let same_step = self.ida_hh == self.ida_hused && self.ida_kk == self.ida_kused;
        let consecutive = if same_step { self.ida_ns } else { 0 };
        self.ida_ns = std::cmp::min(consecutive + 1, self.ida_kused + 2);
"""))
s("coef-locals", "S20 S04", (L, cut(L, "                let temp2 = self.ida_psi[i - 1];\n                self.ida_psi[i - 1] = temp1;", "            self.ida_psi[self.ida_kk] = temp1;"), """                let old = self.ida_psi[i - 1];
                self.ida_psi[i - 1] = temp1;
                self.ida_beta[i] = self.ida_beta[i - 1] * temp1 / old;
                temp1 = old + self.ida_hh;
                let alpha = self.ida_hh / temp1;
                self.ida_sigma[i] = scalar_i * self.ida_sigma[i - 1] * alpha;
                self.ida_gamma[i] = self.ida_gamma[i - 1] + self.ida_alpha[i - 1] / self.ida_hh;
                self.ida_alpha[i] = alpha;
            }
"""))
s("coef-ck", "S20 S04 S06", (L, cut(L, "        let mut ck = (self.ida_alpha[self.ida_kk] + alphas - alpha0).abs();", "        // change phi to phi-star"), """        let alpha_kk = self.ida_alpha[self.ida_kk];
        let ck = alpha_kk.max((alpha_kk + alphas - alpha0).abs());

"""))
s("coef-two", "S20", (L, cut(L, "        let mut alphas = P::Scalar::zero();\n", "        // compute leading coefficient cj"), """        let mut alphas = P::Scalar::zero();
        for i in 1..=self.ida_kk {
            let scalar_i: P::Scalar = NumCast::from(i).unwrap();
            alphas -= scalar_i.recip();
        }
        let mut alpha0 = P::Scalar::zero();
        for i in 0..self.ida_kk {
            alpha0 -= self.ida_alpha[i];
        }

"""))
s("coef-noguard", "S20 S04", (L, cut(L, "        if self.ida_ns <= self.ida_kk {\n            //N_VScaleVectorArray(", "        return ck;"), """        for i in self.ida_ns..self.ida_kk + 1 {
            let beta = self.ida_beta[i];
            let mut column = self.ida_phi.index_axis_mut(Axis(0), i);
            column *= beta;
        }

"""))
# ---- nonlinear_solve
s("nls-ratio", "S11 S21", (L, cut(L, "        if self.nlp.lp.ida_cjratio < temp1 || self.nlp.lp.ida_cjratio > temp2 {", "        // initial guess for the correction"), """        let ratio = self.nlp.lp.ida_cjratio;
        let drifted = ratio < temp1 || temp2 < ratio;
        call_lsetup = call_lsetup || drifted;
        if self.ida_cjlast != self.nlp.lp.ida_cj {
            self.nlp.ida_ss = P::Scalar::hundred();
        }

"""))
s("nls-yp", "S11 S21", (L, "        self.nlp.ida_yp.assign(&self.nlp.ida_yppredict);\n        self.nlp.ida_yp.scaled_add(self.nlp.lp.ida_cj, &self.ida_ee);\n", "        self.nlp.ida_yp = &self.nlp.ida_yppredict + &(&self.ida_ee * self.nlp.lp.ida_cj);\n"))
s("nls-yy", "S11 S21", (L, "        self.nlp.ida_yy = &self.nlp.ida_yypredict + &self.ida_ee;\n", "        self.nlp.ida_yy.assign(&self.nlp.ida_yypredict);\n        self.nlp.ida_yy += &self.ida_ee;\n"))
s("nls-letfirst", "S11 S21", (L, cut(L, "        let mut call_lsetup = false;\n", "        // Decide if lsetup is to be called\n"), """        let first = self.counters.ida_nst == 0;
        let mut call_lsetup = first;
        if first {
            self.nlp.ida_ss = P::Scalar::twenty();
            self.nlp.lp.ida_cjold = self.nlp.lp.ida_cj;
        }

"""))
s("predict-idx", "S11 S04", (L, cut(L, "            self.nlp.ida_yypredict.fill(P::Scalar::zero());\n            for phi in self", "        }\n\n        // yppredict = gamma"), """            self.nlp
                .ida_yypredict
                .assign(&self.ida_phi.index_axis(Axis(0), 0));
            for j in 1..=self.ida_kk {
                self.nlp.ida_yypredict += &self.ida_phi.index_axis(Axis(0), j);
            }
"""))
# ---- test_error
s("test-flat", STEP + " S19", (L, cut(L, "            let knew = if self.ida_kk > 2 {", "            (err_km1, knew)\n"), """            let lower = if self.ida_kk > 2 {
                self.ida_delta += &self.ida_phi.index_axis(Axis(0), self.ida_kk - 1);
                let enorm_km2 =
                    self.wrms_norm(&self.ida_delta, &self.nlp.ida_ewt, self.ida_suppressalg);
                let terr_km2 =
                    (scalar_kk - P::Scalar::one()) * (self.ida_sigma[self.ida_kk - 2] * enorm_km2);
                terr_km1.max(terr_km2) <= terr_k
            } else {
                terr_km1 <= P::Scalar::half() * terr_k
            };
            let knew = if lower { self.ida_kk - 1 } else { self.ida_kk };

"""))
s("test-ret", STEP, (L, cut(L, "        let converged = (ck * enorm_k) <= P::Scalar::one();", "    /// IDARestore"), """        if ck * enorm_k <= P::Scalar::one() {
            return Ok((err_k, err_km1, true));
        }
        Err((err_k, err_km1, IdaError::TestFail.into()))
    }

"""))
s("restore-for", STEP, (L, cut(L, "        if self.ida_ns <= self.ida_kk {\n            // cvals[0 .. kk-ns+1]", "    /// IDAHandleNFlag"), """        for j in self.ida_ns..=self.ida_kk {
            let mut column = self.ida_phi.index_axis_mut(Axis(0), j);
            column *= self.ida_beta[j].recip();
        }
    }

"""))
s("restore-pairs", STEP, (L, "        for j in 1..self.ida_kk + 1 {\n            self.ida_psi[j - 1] = self.ida_psi[j] - self.ida_hh;\n        }\n", "        for j in 0..self.ida_kk {\n            let shifted = self.ida_psi[j + 1] - self.ida_hh;\n            self.ida_psi[j] = shifted;\n        }\n"))
s("reset-idx", STEP, (L, "        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);\n        phi *= self.ida_rr;\n", "        let rr = self.ida_rr;\n        self.ida_phi\n            .index_axis_mut(Axis(0), 1)\n            .iter_mut()\n            .for_each(|x| *x *= rr);\n"))
# ---- handle_n_flag
EF = cut(L, "                        if *nef_ptr == 1 {\n", "                    IdaError::RecoverableFail { rec_type } => {")
s("flag-common", STEP, (L, EF, """                        if *nef_ptr >= 3 && *nef_ptr >= self.ida_maxnef {
                            return Err(format_err!("IDA_ERR_FAIL"));
                        }
                        let (order, factor) = match *nef_ptr {
                            1 => {
                                let err_knew = if self.ida_knew == self.ida_kk {
                                    err_k
                                } else {
                                    err_km1
                                };
                                let power = <P::Scalar as NumCast>::from(self.ida_knew + 1)
                                    .unwrap()
                                    .recip();
                                let base = P::Scalar::two() * err_knew + P::Scalar::pt0001();
                                let rr = P::Scalar::pt9() * base.powf(-power);
                                (
                                    self.ida_knew,
                                    P::Scalar::quarter().max(P::Scalar::pt9().min(rr)),
                                )
                            }
                            2 => (self.ida_knew, P::Scalar::quarter()),
                            _ => (1, P::Scalar::quarter()),
                        };
                        self.ida_kk = order;
                        self.ida_rr = factor;
                        self.ida_hh *= factor;
                        Ok(())
                    }

"""))
s("flag-rec", STEP, (L, cut(L, "                        // Reduce step size for a new prediction\n", "                        // Test if there were too many convergence failures"), """                        // Reduce step size for a new prediction
                        if !matches!(rec_type, Recoverable::Constraint) {
                            self.ida_rr = P::Scalar::quarter();
                        }
                        self.ida_hh = self.ida_hh * self.ida_rr;

"""))
s("flag-ncf", STEP, (L, cut(L, "                        if *ncf_ptr < self.ida_maxncf {", "                    _ => {\n                        unimplemented!"), """                        if *ncf_ptr >= self.ida_maxncf {
                            return Err(match rec_type {
                                Recoverable::Residual => IdaError::RepeatedResidualError {}.into(),
                                Recoverable::Constraint => IdaError::ConstraintFail {}.into(),
                                _ => IdaError::ConvergenceFail {}.into(),
                            });
                        }
                        Ok(())
                    }

"""))
# ---- step
s("step-imp", STEP + " S25", (L, cut(L, "            let (err_k, err_km1, converged) = self\n                .nonlinear_solve()", "        // Nonlinear system solve and error test were both successful;"), """            let attempt = match self.nonlinear_solve() {
                Ok(()) => self.test_error(ck),
                Err(err) => Err((P::Scalar::zero(), P::Scalar::zero(), err)),
            };
            match attempt {
                Ok((err_k, err_km1, true)) => break (ck, err_k, err_km1),
                Ok(_) => {}
                Err((err_k, err_km1, err)) => {
                    self.restore(saved_t);
                    self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)?;
                    if self.counters.ida_nst == 0 {
                        self.reset();
                    }
                }
            }
        };

"""))
s("step-init", STEP, (L, cut(L, "            self.ida_kk = 1;\n            self.ida_kused = 0;\n            self.ida_hused", "        let mut ncf = 0; // local"), """            let h = self.ida_hh;
            self.ida_ns = 0;
            self.ida_phase = 0;
            self.ida_psi[0] = h;
            self.nlp.lp.ida_cj = P::Scalar::one() / h;
            self.ida_hused = P::Scalar::zero();
            self.ida_kused = 0;
            self.ida_kk = 1;
        }

"""))
s("step-ee", STEP + " S25", (L, "        self.ida_ee *= ck;\n", "        self.ida_ee.iter_mut().for_each(|e| *e *= ck);\n"))
# ---- complete_step
C5 = STEP + " S25"
s("complete-clampfn", C5, (CS, cut(CS, "                let mut hnew = P::Scalar::two() * self.ida_hh;\n                let tmp", "            }\n        } else {\n            #[derive"), "                self.ida_hh = self.doubled();\n"),
  (CS, cut(CS, "                hnew = P::Scalar::two() * self.ida_hh;\n                let tmp", "            } else if self.ida_rr <= P::Scalar::one() {"), "                hnew = self.doubled();\n"),
  (CS, "    /// IDACompleteStep\n", """    /// Twice the step, within the largest step allowed
    fn doubled(&self) -> P::Scalar {
        let h = P::Scalar::two() * self.ida_hh;
        let excess = h.abs() * self.ida_hmax_inv;
        if excess > P::Scalar::one() {
            h / excess
        } else {
            h
        }
    }

    /// IDACompleteStep
"""))
s("complete-rows", C5, (CS, cut(CS, "        for mut phi in self\n            .ida_phi", "    }\n}\n"), """        for j in (0..=self.ida_kused).rev() {
            let mut phi = self.ida_phi.index_axis_mut(Axis(0), j);
            tmp += &phi;
            phi.assign(&tmp);
        }
"""))
s("complete-early", C5, (CS, cut(CS, "        // Save ee for possible order increase on next step\n", "        // Update phi arrays\n"), ""), (CS, "        if (self.ida_knew == self.ida_kk - 1) || (self.ida_kk == self.ida_maxord) {\n            self.ida_phase = 1;\n        }\n", """        if self.ida_kk == self.ida_maxord || self.ida_knew + 1 == self.ida_kk {
            self.ida_phase = 1;
        }
"""), (CS, "        trace!(\"    next hh={:.5e}\", self.ida_hh);\n", """        // Save ee for possible order increase on next step
        if self.ida_maxord > self.ida_kused {
            let mut next = self.ida_phi.index_axis_mut(Axis(0), self.ida_kused + 1);
            next.assign(&self.ida_ee);
        }
        trace!("    next hh={:.5e}", self.ida_hh);
"""))
s("complete-decide", C5, (CS, cut(CS, "                if self.ida_kk == 1 {\n                    if terr_kp1 >=", "            };\n\n            // Set the estimated error norm"), """                let scalar_kk = <P::Scalar as NumCast>::from(self.ida_kk).unwrap();
                let action = if self.ida_kk == 1 {
                    if terr_kp1 < P::Scalar::half() * terr_k {
                        Action::Raise
                    } else {
                        Action::Maintain
                    }
                } else if scalar_kk * err_km1 <= terr_k.min(terr_kp1) {
                    Action::Lower
                } else if terr_kp1 < terr_k {
                    Action::Raise
                } else {
                    Action::Maintain
                };
                (action, err_kp1)
            }
"""))
s("complete-hnew", C5, (CS, cut(CS, "            } else if self.ida_rr <= P::Scalar::one() {", "        trace!(\"    next hh"), """            } else if self.ida_rr <= P::Scalar::one() {
                let rr = self.ida_rr.min(P::Scalar::pt9()).max(P::Scalar::half());
                self.ida_rr = rr;
                hnew = rr * self.ida_hh;
            }

            self.ida_hh = hnew;
        }
"""))
# ---- driver
s("solve-other", DRV, (SV, cut(SV, "            let istate = self.stop_test1(tout, tret, itask);", "        // Looping point for internal steps."), """            match self.stop_test1(tout, tret, itask)? {
                IdaSolveStatus::ContinueSteps => {}
                done => return Ok(done),
            }
        }

"""))
s("solve-first", DRV + " S02", (SV, cut(SV, "            let tdist = (tout - self.nlp.ida_tn).abs();", "            self.ida_hh = self.ida_hin;\n"), """            let t0 = self.nlp.ida_tn;
            let tdist = (tout - t0).abs();
            let troundoff = P::Scalar::two() * P::Scalar::epsilon() * (t0.abs() + tout.abs());
            if tdist == P::Scalar::zero() || tdist < troundoff {
                Err(IdaError::IllegalInput {
                    msg: format!("tout too close to t0 to start integration."),
                })?
            }

"""))
s("solve-err", DRV, (SV, cut(SV, "            let sflag = self.step();\n", "            nstloc += 1;\n"), """            if let Err(err) = self.step() {
                if let Err(e2) = self.get_solution(self.nlp.ida_tn) {
                    error!("Error occured with get_solution: {:?}", e2.as_fail());
                } else {
                    self.ida_tretlast = self.nlp.ida_tn;
                    *tret = self.nlp.ida_tn;
                }
                return Err(err);
            }

"""))
s("solve-inactive", DRV, (SV, cut(SV, "                    let inactive_roots = self\n", "                    if (self.ida_mxgnull > 0)"), "                    let inactive_roots = self.ida_gactive.iter().any(|&active| !active);\n\n"))
s("solve-tolsf", DRV, (SV, cut(SV, "            self.ida_tolsf = P::Scalar::epsilon() * nrm;\n", "                *tret = self.nlp.ida_tn;\n                self.ida_tretlast = self.nlp.ida_tn;\n                if self.counters"), """            let tolsf = nrm * P::Scalar::epsilon();
            self.ida_tolsf = tolsf;
            if P::Scalar::one() < tolsf {
                self.ida_tolsf = P::Scalar::ten() * tolsf;

"""))
s("solve-hin", DRV + " S02", (SV, cut(SV, "                if ypnorm > P::Scalar::two() / self.ida_hh {", "            let rh = (self.ida_hh).abs()"), """                let sign = if tout < self.nlp.ida_tn {
                    -P::Scalar::one()
                } else {
                    P::Scalar::one()
                };
                let h = if ypnorm > P::Scalar::two() / self.ida_hh {
                    P::Scalar::half() / ypnorm
                } else {
                    self.ida_hh
                };
                self.ida_hh = sign * h;
            }

"""))
# ---- roots
s("root-check1", "S14", (RC, cut(RC, "        let zroot = ndarray::Zip::from(self.ida_gactive.view_mut())\n            .and(&self.ida_glo)", "            // Some g_i is zero at t0; look"), """        let mut zroot = false;
        for (gactive, glo) in self.ida_gactive.iter_mut().zip(self.ida_glo.iter()) {
            if *glo == P::Scalar::zero() {
                *gactive = false;
                zroot = true;
            }
        }

        if zroot {
"""))
s("root-check3", "S14 S03", (RC, cut(RC, "        match self.ida_taskc {\n            IdaTask::OneStep => self.ida_thi", "        // Get y and y' at thi."), """        let past = (self.ida_toutc - self.nlp.ida_tn) * self.ida_hh < P::Scalar::zero();
        self.ida_thi = match self.ida_taskc {
            IdaTask::Normal if past => self.ida_toutc,
            _ => self.nlp.ida_tn,
        };

"""))
s("root-active", "S14 S03", (RC, cut(RC, "        ndarray::Zip::from(self.ida_gactive.view_mut())\n            .and(self.ida_grout.view())", "        self.ida_tlo = self.ida_trout;\n        self.ida_glo.assign"), """        for i in 0..self.ida_nrtfn {
            if self.ida_grout[i] != P::Scalar::zero() {
                self.ida_gactive[i] = true;
            }
        }

"""))
# ---- nonlinear problem, linear problem
s("ctest-matchm", "S19", (NLS, cut(NLS, "        if m == 0 {\n            self.ida_oldnrm = delnrm;", "        if self.ida_ss * delnrm <= tol {"), """        match m {
            0 => {
                self.ida_oldnrm = delnrm;
                if delnrm <= P::Scalar::pt0001() * self.ida_toldel {
                    return Ok(true);
                }
            }
            _ => {
                let inv_m = P::Scalar::one() / <P::Scalar as NumCast>::from(m).unwrap();
                let rate = (delnrm / self.ida_oldnrm).powf(inv_m);
                if rate > <P::Scalar as NumCast>::from(RATEMAX).unwrap() {
                    return Err(Error::ConvergenceRecover {}.into());
                }
                self.ida_ss = rate / (P::Scalar::one() - rate);
            }
        }

"""))
s("ctest-last", "S19", (NLS, cut(NLS, "        if self.ida_ss * delnrm <= tol {", "    }\n}\n"), "        Ok(delnrm * self.ida_ss <= tol)\n"))
s("lsetup-first", "S12 S21", (NLS, cut(NLS, "        self.ida_nsetups += 1;\n        // ida_lsetup()", "        // update Jacobian status"), """        let (y, yp) = (self.ida_yy.view(), self.ida_yp.view());
        let retval = self.lp.setup(self.ida_tn, y, yp, res.view());
        self.ida_nsetups += 1;

"""))
s("lsetup-if", "S12 S21", (NLS, "        retval.map_err(|_| IdaError::RecoverableFail {\n            rec_type: Recoverable::LSetup,\n        })?;\n", """        if retval.is_err() {
            return Err(failure::Error::from(IdaError::RecoverableFail {
                rec_type: Recoverable::LSetup,
            }));
        }
"""))
s("sys-yp", "S11", (NLS, "        self.ida_yp.assign(&self.ida_yppredict);\n        self.ida_yp.scaled_add(self.lp.ida_cj, &ycor);\n", """        let cj = self.lp.ida_cj;
        for (i, c) in ycor.iter().enumerate() {
            self.ida_yp[i] = self.ida_yppredict[i] + cj * *c;
        }
"""))
s("ls-flag", "S12", (LS, cut(LS, "        let tol = match ls_type {", "        /* Set vectors ycur, ypcur"), """        let iterative = matches!(
            ls_type,
            LSolverType::Iterative | LSolverType::MatrixIterative
        );
        let tol = if iterative {
            self.eplifac * self.sqrt_n
        } else {
            P::Scalar::zero()
        };

"""))
s("ls-empty", "S12 S16", (LS, "        if !self.mat_j.is_empty() {\n", "        if self.mat_j.len() > 0 {\n"))
s("ewt-mapv", "S09", (TC, cut(TC, "        ndarray::Zip::from(&mut ewt).and(&ycur).apply", "    }\n}\n"), """        ewt.zip_mut_with(&ycur, |w, y| {
            *w = P_one::<Scalar>() / (self.ida_atol + self.ida_rtol * y.abs());
        });
"""), (TC, "pub trait TolControl<Scalar> {", "#[allow(non_snake_case)]\nfn P_one<S: num_traits::Float>() -> S {\n    S::one()\n}\n\npub trait TolControl<Scalar> {"))
s("ewt-sv", "S09", (TC, cut(TC, "        ndarray::Zip::from(&mut ewt)\n            .and(&ycur)\n            .and(&self.ida_atol)", "    }\n}\n"[:6] if False else "    }\n}"), """        for (i, w) in ewt.iter_mut().enumerate() {
            let scale = self.ida_rtol * ycur[i].abs();
            *w = (scale + self.ida_atol[i]).recip();
        }
"""))
s("norm-dot", "S10", (NR, cut(NR, "        ((self * w)\n            .iter()", "    }\n}\n"), """        let n = A::from(self.len()).unwrap();
        let scaled = self * w;
        let mut ss = A::zero();
        for i in scaled.iter() {
            ss = ss + i.powi(2);
        }
        (ss / n).sqrt()
"""))
s("norm-mask-if", "S10", (NR, cut(NR, "        let mask = id.map(|x|", "    }\n}\n"), """        let sum = (self * w)
            .iter()
            .zip(id.iter())
            .filter(|(_, &keep)| keep)
            .fold(A::zero(), |acc, (x, _)| acc + *x * *x);
        (sum / A::from(self.len()).unwrap()).sqrt()
"""))
