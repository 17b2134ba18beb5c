D="crates/linear/src/dense.rs"; N="crates/nonlinear/src/newton.rs"; W="crates/nonlinear/src/norm_wrms.rs"; NL="crates/nonlinear/src/lib.rs"
P=[]
def r(id,*edits): P.append((id,list(edits)))
SEARCH="""        let mut l = k;
        for i in (k + 1)..m {
            if col_k[i].abs() > col_k[l].abs() {
                l = i;
            }
        }
"""
SWAP="""            for i in 0..n {
                mat_a.swap((k, i), (l, i));
            }
"""
SCALE="""        for i in (k + 1)..m {
            mat_a[(i, k)] *= mult;
        }
"""
UPD="""        for j in (k + 1)..n {
            let a_kj = mat_a[(k, j)];

            // a(i,j) = a(i,j) - [a(i,k)/a(k,k)]*a(k,j)
            // a_kj = a(k,j), col_k[i] = - a(i,k)/a(k,k)

            if a_kj != T::zero() {
                for i in (k + 1)..m {
                    let a_ik = mat_a[(i, k)];
                    mat_a[(i, j)] -= a_kj * a_ik;
                }
            }
        }
"""
PERM="""    for (k, &pk) in pivot.iter().enumerate().take(n) {
        if pk != k {
            b.swap((k, 0), (pk, 0));
        }
    }
"""
FWD="""    for k in 0..n.saturating_sub(1) {
        let col_k = mat_a.column(k);
        let bk = b[k];
        for i in (k + 1)..n {
            b[i] -= col_k[i] * bk;
        }
    }
"""
BACK="""    for k in (1..n).rev() {
        let col_k = mat_a.column(k);
        b[k] /= col_k[k];
        let bk = b[k];
        for i in 0..k {
            b[i] -= col_k[i] * bk;
        }
    }
    if n > 0 {
        b[0] /= mat_a[(0, 0)];
    }
"""
r("d-swaprows",(D,SWAP,"            mat_a.swap_rows(k, l);\n"))
r("d-swaptmp",(D,SWAP,"            for i in 0..n {\n                let tmp = mat_a[(k, i)];\n                mat_a[(k, i)] = mat_a[(l, i)];\n                mat_a[(l, i)] = tmp;\n            }\n"))
r("d-search-fold",(D,SEARCH,"        let l = ((k + 1)..m).fold(k, |best, i| if col_k[i].abs() > col_k[best].abs() { i } else { best });\n"))
r("d-search-big",(D,SEARCH,"        let mut l = k;\n        let mut big = col_k[k].abs();\n        for i in (k + 1)..m {\n            let cand = col_k[i].abs();\n            if cand > big {\n                big = cand;\n                l = i;\n            }\n        }\n"))
r("d-search-while",(D,SEARCH,"        let mut l = k;\n        let mut i = k + 1;\n        while i < m {\n            if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }\n            i += 1;\n        }\n"))
r("d-search-enum",(D,SEARCH,"        let mut l = k;\n        for (i, v) in col_k.iter().enumerate().skip(k + 1) {\n            if v.abs() > col_k[l].abs() {\n                l = i;\n            }\n        }\n"))
r("d-search-helper",(D,SEARCH,"        let l = find_pivot(&col_k, k, m);\n"),(D,"/// `dense_get_rs` solves","fn find_pivot<T, R, S>(col: &Matrix<T, R, U1, S>, k: usize, m: usize) -> usize\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    S: Storage<T, R>,\n{\n    let mut l = k;\n    for i in (k + 1)..m {\n        if col[i].abs() > col[l].abs() {\n            l = i;\n        }\n    }\n    l\n}\n\n/// `dense_get_rs` solves"))
r("d-search-maxby",(D,SEARCH,"        let l = (k..m)\n            .max_by(|&i, &j| col_k[i].abs().partial_cmp(&col_k[j].abs()).unwrap())\n            .unwrap();\n"))
r("d-search-rev",(D,SEARCH,"        let mut l = k;\n        for i in ((k + 1)..m).rev() {\n            if col_k[i].abs() >= col_k[l].abs() && i > l {\n                l = i;\n            } else if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }\n        }\n"))
r("d-search-incl",(D,SEARCH,"        let mut l = k;\n        for i in k..m {\n            if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }\n        }\n"))
r("d-zero-iszero",(D,"if col_k[l] == T::zero() {","if col_k[l].is_zero() {"))
r("d-zero-else",(D,"        if col_k[l] == T::zero() {\n            return Err(k + 1);\n        }\n","        let pivot_value = col_k[l];\n        let singular = pivot_value == T::zero();\n        if singular {\n            let column = k + 1;\n            return Err(column);\n        }\n"))
r("d-scale-div",(D,"        let mult = mat_a[(k, k)].recip();\n"+SCALE,"        let diag = mat_a[(k, k)];\n        let mult = T::one() / diag;\n"+SCALE))
r("d-scale-view",(D,SCALE,"        let mut below = mat_a.view_mut((k + 1, k), (m - k - 1, 1));\n        below *= mult;\n"))
r("d-scale-iter",(D,SCALE,"        for v in mat_a.column_mut(k).iter_mut().skip(k + 1) {\n            *v *= mult;\n        }\n"))
r("d-scale-foreach",(D,SCALE,"        ((k + 1)..m).for_each(|i| mat_a[(i, k)] *= mult);\n"))
r("d-upd-noguard",(D,UPD,"        for j in (k + 1)..n {\n            let a_kj = mat_a[(k, j)];\n            for i in (k + 1)..m {\n                mat_a[(i, j)] = mat_a[(i, j)] - a_kj * mat_a[(i, k)];\n            }\n        }\n"))
r("d-upd-continue",(D,UPD,"        for j in (k + 1)..n {\n            let a_kj = mat_a[(k, j)];\n            if a_kj == T::zero() {\n                continue;\n            }\n            for i in (k + 1)..m {\n                let a_ik = mat_a[(i, k)];\n                mat_a[(i, j)] -= a_kj * a_ik;\n            }\n        }\n"))
r("d-upd-rowwise",(D,UPD,"        for i in (k + 1)..m {\n            let a_ik = mat_a[(i, k)];\n            for j in (k + 1)..n {\n                let a_kj = mat_a[(k, j)];\n                mat_a[(i, j)] -= a_kj * a_ik;\n            }\n        }\n"))
r("d-upd-helper",(D,UPD,"        eliminate(mat_a, k);\n"),(D,"/// `dense_get_rs` solves","fn eliminate<T, R, C, S>(a: &mut Matrix<T, R, C, S>, k: usize)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    S: StorageMut<T, R, C>,\n{\n    let (m, n) = a.shape();\n"+UPD.replace("mat_a","a")+"}\n\n/// `dense_get_rs` solves"))
r("d-upd-while",(D,UPD,"        let mut j = k + 1;\n        while j < n {\n            let a_kj = mat_a[(k, j)];\n            let mut i = k + 1;\n            while i < m {\n                let a_ik = mat_a[(i, k)];\n                mat_a[(i, j)] -= a_kj * a_ik;\n                i += 1;\n            }\n            j += 1;\n        }\n"))
r("d-outer-while",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    let mut step = 0;\n    while step < n {\n        let k = step;\n        step += 1;\n        let col_k = mat_a.column(k);\n\n        // find"))
r("d-fuse-upd",(D,SCALE,""),(D,UPD,"        for i in (k + 1)..m {\n            mat_a[(i, k)] *= mult;\n            let f = mat_a[(i, k)];\n            for j in (k + 1)..n {\n                let a_kj = mat_a[(k, j)];\n                mat_a[(i, j)] -= a_kj * f;\n            }\n        }\n"))
r("d-shape",(D,"    let m = mat_a.nrows();\n    let n = mat_a.ncols();\n\n    // k-th","    let (m, n) = mat_a.shape();\n\n    // k-th"))
r("d-setup-match",(D,"        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })","        match dense_get_rf(mat_a, &mut self.pivots) {\n            Ok(()) => Ok(()),\n            Err(col) => Err(Error::LUFactFail { col }),\n        }"))
r("d-setup-iflet",(D,"        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })","        if let Err(col) = dense_get_rf(mat_a, &mut self.pivots) {\n            return Err(Error::LUFactFail { col });\n        }\n        Ok(())"))
r("d-setup-q",(D,"        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })","        let pivots = &mut self.pivots;\n        dense_get_rf(mat_a, pivots).map_err(lu_error)?;\n        Ok(())"),(D,"/// Performs the LU","fn lu_error(col: usize) -> Error {\n    Error::LUFactFail { col }\n}\n\n/// Performs the LU"))
r("d-copy-from",(D,"        x.set_column(0, &b);","        x.copy_from(b);"))
r("d-copy-loop",(D,"        x.set_column(0, &b);","        for i in 0..x.nrows() {\n            x[i] = b[i];\n        }"))
r("d-copy-zip",(D,"        x.set_column(0, &b);","        for (xi, bi) in x.iter_mut().zip(b.iter()) {\n            *xi = *bi;\n        }"))
r("d-copy-zipapply",(D,"        x.set_column(0, &b);","        x.zip_apply(b, |xi, bi| *xi = bi);"))
r("d-perm-index",(D,PERM,"    for k in 0..n {\n        let pk = pivot[k];\n        if pk != k {\n            b.swap((k, 0), (pk, 0));\n        }\n    }\n"))
r("d-perm-noguard",(D,PERM,"    for (k, pk) in pivot.iter().copied().enumerate() {\n        b.swap_rows(k, pk);\n    }\n"))
r("d-perm-foreach",(D,PERM,"    pivot.iter().take(n).enumerate().filter(|(k, pk)| **pk != *k).for_each(|(k, pk)| b.swap((k, 0), (*pk, 0)));\n"))
r("d-perm-tmp",(D,PERM,"    for k in 0..n {\n        let pk = pivot[k];\n        let t = b[k];\n        b[k] = b[pk];\n        b[pk] = t;\n    }\n"))
r("d-fwd-full",(D,"    for k in 0..n.saturating_sub(1) {","    for k in 0..n {"))
r("d-fwd-guard",(D,"        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }","        let bk = b[k];\n        if bk != T::zero() {\n            for i in (k + 1)..n {\n                b[i] = b[i] - bk * col_k[i];\n            }\n        }"))
r("d-fwd-idx",(D,FWD,"    for k in 1..n {\n        let bk = b[k - 1];\n        for i in k..n {\n            b[i] -= mat_a[(i, k - 1)] * bk;\n        }\n    }\n"))
r("d-fwd-axpy",(D,"        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }","        let bk = b[k];\n        b.rows_range_mut(k + 1..n).axpy(-bk, &col_k.rows_range(k + 1..n), T::one());"))
r("d-fwd-row",(D,FWD,"    for i in 1..n {\n        let mut s = b[i];\n        for j in 0..i {\n            s -= mat_a[(i, j)] * b[j];\n        }\n        b[i] = s;\n    }\n"))
r("d-back-one",(D,BACK,"    for k in (0..n).rev() {\n        let col_k = mat_a.column(k);\n        b[k] /= col_k[k];\n        let bk = b[k];\n        for i in 0..k {\n            b[i] -= col_k[i] * bk;\n        }\n    }\n"))
r("d-back-while",(D,BACK,"    let mut k = n;\n    while k > 0 {\n        k -= 1;\n        let bk = b[k] / mat_a[(k, k)];\n        b[k] = bk;\n        for i in 0..k {\n            b[i] -= mat_a[(i, k)] * bk;\n        }\n    }\n"))
r("d-back-row",(D,BACK,"    for i in (0..n).rev() {\n        let mut s = b[i];\n        for j in (i + 1)..n {\n            s -= mat_a[(i, j)] * b[j];\n        }\n        b[i] = s / mat_a[(i, i)];\n    }\n"))
r("d-back-var",(D,"        b[k] /= col_k[k];\n        let bk = b[k];","        let bk = b[k] / col_k[k];\n        b[k] = bk;"))
r("d-rs-early",(D,"    let n = mat_a.ncols();\n\n    // Permute","    let n = mat_a.ncols();\n    if n == 0 {\n        return;\n    }\n\n    // Permute"))
r("d-rs-split",(D,"    // Solve Ly = b, store solution y in b\n"+FWD,"    forward(mat_a, b);\n"),(D,"#[cfg(test)]\nmod","fn forward<T, R, C, SA, SC>(mat_a: &Matrix<T, R, C, SA>, b: &mut Matrix<T, C, U1, SC>)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: Storage<T, R, C>,\n    SC: StorageMut<T, C>,\n{\n    let n = mat_a.ncols();\n"+FWD+"}\n\n#[cfg(test)]\nmod"))
r("d-noop",(D,"    let m = mat_a.nrows();\n","    let m = mat_a.nrows();\n    let _ = m;\n    debug_assert!(m >= 1 || m == 0);\n"),(D,"        pivot[k] = l;\n","        pivot[k] = l;\n        let _unused = ();\n"))
r("d-assert-panic",(D,"    assert!(\n        R::try_to_usize().unwrap() >= C::try_to_usize().unwrap(),\n        \"Number of rows must be >= number of columns\"\n    );\n","    if mat_a.nrows() < mat_a.ncols() {\n        panic!(\"Number of rows must be >= number of columns\");\n    }\n"))
r("d-abs-helper",(D,"if col_k[i].abs() > col_k[l].abs() {","if exceeds(col_k[i], col_k[l]) {"),(D,"/// `dense_get_rs` solves","#[inline]\nfn exceeds<T: RealField + Copy>(a: T, b: T) -> bool {\n    a.abs() > b.abs()\n}\n\n/// `dense_get_rs` solves"))
r("d-swap-cond-inv",(D,"        if l != k {\n"+SWAP+"        }\n","        if l == k {\n            // nothing to interchange\n        } else {\n"+SWAP+"        }\n"))
r("d-swap-always",(D,"        if l != k {\n"+SWAP+"        }\n",SWAP.replace("            for","        for").replace("                mat","            mat").replace("            }","        }")))
r("d-pivots-later",(D,"        pivot[k] = l;\n",""),(D,"        // swap a(k,1:n) and","        pivot[k] = l;\n        // swap a(k,1:n) and"))
r("d-get-type-doc",(D,"    fn get_type(&self) -> LSolverType {\n        LSolverType::Direct","    fn get_type(&self) -> LSolverType {\n        let t = LSolverType::Direct;\n        t"))
# ---------------------------------------------------------------- norm
VAL="(self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()"
for i,x in enumerate([
 "{\n            let mut s = T::zero();\n            for i in 0..self.nrows() {\n                let v = self[i] * w[i];\n                s += v * v;\n            }\n            (s / len).sqrt()\n        }",
 "{\n            let s = self.iter().zip(w.iter()).fold(T::zero(), |acc, (a, b)| acc + (*a * *b).powi(2));\n            (s / len).sqrt()\n        }",
 "(self.iter().zip(w.iter()).map(|(a, b)| *a * *b).map(|v| v * v).sum::<T>() / len).sqrt()",
 "(self.component_mul(&w).norm_squared() / len).sqrt()",
 "self.component_mul(&w).norm() / len.sqrt()",
 "{\n            let p = self.component_mul(&w);\n            (p.dot(&p) / len).sqrt()\n        }",
 "{\n            let mean = self.component_mul(&w).iter().map(|x| *x * *x).sum::<T>() / len;\n            mean.sqrt()\n        }",
 "{\n            let mut s = T::zero();\n            for (x, y) in self.iter().zip(w.iter()) {\n                s += (*x * *y).powi(2);\n            }\n            (s * len.recip()).sqrt()\n        }",
 "{\n            let mut s = T::zero();\n            let mut i = 0;\n            while i < self.nrows() {\n                s += (self[(i, 0)] * w[(i, 0)]).powi(2);\n                i += 1;\n            }\n            (s / len).sqrt()\n        }",
 "(self.component_mul(&w).map(|x| x.powi(2)).sum() / len).sqrt()",
 "mean_square(self.component_mul(&w).iter().copied(), len).sqrt()",
 "(self.component_mul(&w).into_iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()",
 "{\n            let mut s = T::zero();\n            for v in self.component_mul(&w).iter() {\n                s = s + *v * *v;\n            }\n            (s / len).sqrt()\n        }",
]):
    ed=[(W,VAL,x)]
    if "mean_square" in x:
        ed.append((W,"impl<T, R1: Dim, C1: Dim, SA> NormWRMS","fn mean_square<T: RealField + Sum>(it: impl Iterator<Item = T>, len: T) -> T {\n    it.map(|x| x.clone() * x).sum::<T>() / len\n}\n\nimpl<T, R1: Dim, C1: Dim, SA> NormWRMS"))
    r("w-%d"%i,*ed)
r("w-len",(W,"T::from(self.nrows() as u32)","<T as From<u32>>::from(self.len() as u32)"))
r("w-len2",(W,"let len = T::from(self.nrows() as u32);","let count = w.nrows() as u32;\n        let len = T::from(count);"))
r("w-noop",(W,"        let len = T::from","        let _n = self.nrows();\n        let len = T::from"))
# ---------------------------------------------------------------- newton
r("n-copy-loop",(N,"                    y.copy_from(&y0);","                    for i in 0..y0.nrows() {\n                        y[i] = y0[i];\n                    }"))
r("n-copy-zip",(N,"                    y.copy_from(&y0);","                    y.iter_mut().zip(y0.iter()).for_each(|(a, b)| *a = *b);"))
r("n-copy-setcol",(N,"                    y.copy_from(&y0);","                    y.set_column(0, y0);"))
r("n-neg-mul",(N,"                        self.delta.neg_mut();","                        self.delta *= -T::one();"))
r("n-neg-apply",(N,"                        self.delta.neg_mut();","                        self.delta.apply(|d| *d = -*d);"))
r("n-neg-iter",(N,"                        self.delta.neg_mut();","                        for d in self.delta.iter_mut() {\n                            *d = -*d;\n                        }"))
r("n-neg-scale",(N,"                        self.delta.neg_mut();","                        self.delta.scale_mut(-T::one());"))
r("n-neg-new",(N,"                        self.delta.neg_mut();","                        self.delta = -&self.delta;"))
r("n-add-axpy",(N,"                            *y += &self.delta;","                            y.axpy(T::one(), &self.delta, T::one());"))
r("n-add-loop",(N,"                            *y += &self.delta;","                            for i in 0..y.nrows() {\n                                y[i] += self.delta[i];\n                            }"))
r("n-add-zip",(N,"                            *y += &self.delta;","                            y.zip_apply(&self.delta, |a, d| *a += d);"))
r("n-incr",(N,"                        self.niters += 1;","                        self.niters = self.niters + 1;"),(N,"                                        self.curiter += 1;","                                        let next = self.curiter + 1;\n                                        self.curiter = next;"))
CT="""                                    if converged {
                                        // if successful update Jacobian status and return
                                        self.jcur = false;
                                        Ok(true)
                                    } else {
                                        self.curiter += 1;
                                        if self.curiter >= self.maxiters {
                                            Err(Error::ConvergenceRecover {})
                                        } else {
                                            // compute the nonlinear residual, store in delta
                                            // Ok(false) will continue to iterate 'inner
                                            problem.sys(y, &mut self.delta).and(Ok(false))
                                        }
                                    }
"""
r("n-ct-early",(N,CT,"""                                    if converged {
                                        self.jcur = false;
                                        return Ok(true);
                                    }
                                    self.curiter += 1;
                                    if self.curiter < self.maxiters {
                                        problem.sys(y, &mut self.delta)?;
                                        return Ok(false);
                                    }
                                    Err(Error::ConvergenceRecover {})
"""))
r("n-ct-match",(N,CT,"""                                    match converged {
                                        true => {
                                            self.jcur = false;
                                            Ok(true)
                                        }
                                        false => {
                                            self.curiter += 1;
                                            match self.curiter.cmp(&self.maxiters) {
                                                std::cmp::Ordering::Less => problem.sys(y, &mut self.delta).map(|_| false),
                                                _ => Err(Error::ConvergenceRecover {}),
                                            }
                                        }
                                    }
"""))
r("n-ct-not",(N,CT,"""                                    if !converged {
                                        self.curiter += 1;
                                        let exhausted = self.maxiters <= self.curiter;
                                        if exhausted {
                                            Err(Error::ConvergenceRecover {})
                                        } else {
                                            problem.sys(y, &mut self.delta).and_then(|()| Ok(false))
                                        }
                                    } else {
                                        self.jcur = false;
                                        Ok(converged)
                                    }
"""))
r("n-ct-next",(N,CT,"""                                    if converged {
                                        self.jcur = false;
                                        Ok(true)
                                    } else if self.curiter + 1 >= self.maxiters {
                                        self.curiter += 1;
                                        Err(Error::ConvergenceRecover {})
                                    } else {
                                        self.curiter += 1;
                                        problem.sys(y, &mut self.delta).and(Ok(false))
                                    }
"""))
r("n-break-match",(N,"""                        if let Ok(false) = retval {
                            continue 'inner;
                        } else {
                            break retval.and(Ok(()));
                        }
""","""                        match retval {
                            Ok(false) => {}
                            Ok(true) => break Ok(()),
                            Err(e) => break Err(e),
                        }
"""))
r("n-break-matches",(N,"""                        if let Ok(false) = retval {
                            continue 'inner;
                        } else {
                            break retval.and(Ok(()));
                        }
""","""                        if !matches!(retval, Ok(false)) {
                            break 'inner retval.map(|_| ());
                        }
"""))
r("n-record-helper",(N,"                        self.nconvfails += 1;\n                        call_lsetup","                        self.record_failure();\n                        call_lsetup"),(N,"        self.nconvfails += 1;\n\n        // all error","        self.record_failure();\n\n        // all error"),(N,"#[cfg(test)]\nmod tests","impl<T, D> Newton<T, D>\nwhere\n    T: Scalar,\n    D: Dim,\n    DefaultAllocator: Allocator<T, D>,\n{\n    fn record_failure(&mut self) {\n        self.nconvfails += 1;\n    }\n}\n\n#[cfg(test)]\nmod tests"))
r("n-setup-or",(N,"                    if call_lsetup {\n","                    if call_lsetup || jbad {\n"))
r("n-setup-q",(N,"""                        problem
                            .setup(y0, &self.delta, jbad)
                            .map(|jcur| self.jcur = jcur)
""","""                        let jcur = problem.setup(y0, &self.delta, jbad)?;
                        self.jcur = jcur;
                        Ok(())
"""))
r("n-setup-match",(N,"""                        problem
                            .setup(y0, &self.delta, jbad)
                            .map(|jcur| self.jcur = jcur)
""","""                        match problem.setup(y0, &self.delta, jbad) {
                            Ok(updated) => {
                                self.jcur = updated;
                                Ok(())
                            }
                            Err(err) => Err(err),
                        }
"""))
r("n-order",(N,"                    // initialize counter curiter\n                    self.curiter = 0;\n\n                    // load prediction into y\n                    y.copy_from(&y0);\n","                    // load prediction into y\n                    y.copy_from(&y0);\n\n                    self.curiter = 0;\n"))
r("n-count-order",(N,"                        // increment nonlinear solver iteration counter\n                        self.niters += 1;\n\n                        // compute the negative of the residual for the linear system rhs\n                        self.delta.neg_mut();\n","                        self.delta.neg_mut();\n                        self.niters += 1;\n"))
r("n-noop",(N,"        let mut jbad = false;","        let mut jbad = false;\n        let _ = self.maxiters;\n        let _unused = 0usize;"),(N,"        // increment number of convergence failures\n","        if false {\n            self.niters += 1;\n        }\n        // increment number of convergence failures\n"))
r("n-rebind",(N,"        let mut call_lsetup = call_lsetup;\n","        let requested = call_lsetup;\n        let mut call_lsetup = requested;\n"))
r("n-jbad-order",(N,"                        self.nconvfails += 1;\n                        call_lsetup = true;\n                        jbad = true;\n","                        jbad = true;\n                        call_lsetup = true;\n                        self.nconvfails += 1;\n"))
import re
SRC=open('/repo/'+N).read()
a=SRC.index("        // assume the Jacobian is good"); b=SRC.index("    fn get_num_iters")
BODY=SRC[a:b]
r("n-attempt-helper",(N,BODY,"""        let mut call_lsetup = call_lsetup;
        let mut jbad = false;
        loop {
            let result = self.attempt(problem, y0, y, w, tol, call_lsetup, jbad);
            match result {
                Ok(()) => return Ok(()),
                Err(err) => {
                    self.nconvfails += 1;
                    if matches!(err, Error::ConvergenceRecover {}) && !self.jcur && !jbad {
                        call_lsetup = true;
                        jbad = true;
                        continue;
                    }
                    return Err(err);
                }
            }
        }
    }

"""),(N,"#[cfg(test)]\nmod tests","""impl<T, D> Newton<T, D>
where
    T: Scalar + RealField + Copy,
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<T, D>,
{
    #[allow(clippy::too_many_arguments)]
    fn attempt<NLP, SA, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y0: &Matrix<T, D, U1, SA>,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
        call_lsetup: bool,
        jbad: bool,
    ) -> Result<(), Error>
    where
        NLP: NLProblem<T, D>,
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
        SC: Storage<T, D, U1>,
    {
        problem.sys(y0, &mut self.delta)?;
        if call_lsetup {
            self.jcur = problem.setup(y0, &self.delta, jbad)?;
        }
        self.curiter = 0;
        y.copy_from(y0);
        loop {
            self.niters += 1;
            self.delta.neg_mut();
            problem.solve(y, &mut self.delta)?;
            *y += &self.delta;
            if problem.ctest(self, y, &self.delta, tol, w)? {
                self.jcur = false;
                return Ok(());
            }
            self.curiter += 1;
            if self.curiter >= self.maxiters {
                return Err(Error::ConvergenceRecover {});
            }
            problem.sys(y, &mut self.delta)?;
        }
    }
}

#[cfg(test)]
mod tests"""))
r("n-for-attempts",(N,BODY,"""        for attempt in 0..2 {
            let jbad = attempt > 0;
            let mut run = || -> Result<(), Error> {
                problem.sys(y0, &mut self.delta)?;
                if call_lsetup || jbad {
                    self.jcur = problem.setup(y0, &self.delta, jbad)?;
                }
                self.curiter = 0;
                y.copy_from(y0);
                while self.curiter < self.maxiters {
                    self.niters += 1;
                    self.delta.neg_mut();
                    problem.solve(y, &mut self.delta)?;
                    *y += &self.delta;
                    if problem.ctest(self, y, &self.delta, tol, w)? {
                        self.jcur = false;
                        return Ok(());
                    }
                    self.curiter += 1;
                    if self.curiter < self.maxiters {
                        problem.sys(y, &mut self.delta)?;
                    }
                }
                Err(Error::ConvergenceRecover {})
            };
            let retval = run();
            if retval.is_ok() {
                return retval;
            }
            self.nconvfails += 1;
            let retry = matches!(retval, Err(Error::ConvergenceRecover {})) && !self.jcur && attempt == 0;
            if !retry {
                return retval;
            }
        }
        unreachable!()
    }

"""))
r("n-for-iter",(N,BODY,"""        let mut jbad = false;
        let mut call_lsetup = call_lsetup;
        loop {
            let retval = (|| {
                problem.sys(y0, &mut self.delta)?;
                if call_lsetup {
                    self.jcur = problem.setup(y0, &self.delta, jbad)?;
                }
                self.curiter = 0;
                y.copy_from(y0);
                for it in 0..self.maxiters {
                    if it > 0 {
                        problem.sys(y, &mut self.delta)?;
                    }
                    self.niters += 1;
                    self.delta.neg_mut();
                    problem.solve(y, &mut self.delta)?;
                    *y += &self.delta;
                    if problem.ctest(self, y, &self.delta, tol, w)? {
                        self.jcur = false;
                        return Ok(());
                    }
                    self.curiter += 1;
                }
                Err(Error::ConvergenceRecover {})
            })();
            match &retval {
                Ok(()) => break retval,
                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                Err(_) => {
                    self.nconvfails += 1;
                    break retval;
                }
            }
        }
    }

"""))
r("n-flat",(N,BODY,"""        let mut jbad = false;
        let mut call_lsetup = call_lsetup;
        'outer: loop {
            let mut res = problem.sys(y0, &mut self.delta);
            if res.is_ok() && call_lsetup {
                res = problem.setup(y0, &self.delta, jbad).map(|j| {
                    self.jcur = j;
                });
            }
            if res.is_ok() {
                self.curiter = 0;
                y.copy_from(y0);
                let mut done = false;
                while !done && res.is_ok() {
                    self.niters += 1;
                    self.delta.neg_mut();
                    res = problem.solve(y, &mut self.delta);
                    if res.is_err() {
                        break;
                    }
                    *y += &self.delta;
                    match problem.ctest(self, y, &self.delta, tol, w) {
                        Ok(true) => {
                            self.jcur = false;
                            done = true;
                        }
                        Ok(false) => {
                            self.curiter += 1;
                            res = if self.curiter >= self.maxiters {
                                Err(Error::ConvergenceRecover {})
                            } else {
                                problem.sys(y, &mut self.delta)
                            };
                        }
                        Err(e) => res = Err(e),
                    }
                }
            }
            if let Err(e) = res {
                self.nconvfails += 1;
                if let Error::ConvergenceRecover {} = e {
                    if !self.jcur && !jbad {
                        call_lsetup = true;
                        jbad = true;
                        continue 'outer;
                    }
                }
                return Err(e);
            }
            return Ok(());
        }
    }

"""))
r("n-flag-inv",(N,"    jcur: bool,","    jstale: bool,"),(N,"            jcur: false,","            jstale: true,"),(N,".map(|jcur| self.jcur = jcur)",".map(|jcur| self.jstale = !jcur)"),(N,"self.jcur = false;","self.jstale = true;"),(N,"if !self.jcur && !jbad","if self.jstale && !jbad"))
r("n-flag-enum",(N,"    jcur: bool,","    jac: JacStatus,"),(N,"            jcur: false,","            jac: JacStatus::Stale,"),(N,".map(|jcur| self.jcur = jcur)",".map(|jcur| self.jac = if jcur { JacStatus::Current } else { JacStatus::Stale })"),(N,"self.jcur = false;","self.jac = JacStatus::Stale;"),(N,"if !self.jcur && !jbad","if self.jac == JacStatus::Stale && !jbad"),(N,"#[derive(Debug, Clone)]\n#[cfg_attr(feature = \"data_trace\", derive(Serialize))]\npub struct Newton","#[derive(Debug, Clone, Copy, PartialEq, Eq)]\nenum JacStatus {\n    Current,\n    Stale,\n}\n\n#[derive(Debug, Clone)]\n#[cfg_attr(feature = \"data_trace\", derive(Serialize))]\npub struct Newton"))
r("n-local-iter",(N,"                    self.curiter = 0;\n","                    let limit = self.maxiters;\n                    self.curiter = 0;\n"),(N,"if self.curiter >= self.maxiters {","if self.curiter >= limit {"))
r("n-getter",(N,"    fn get_cur_iter(&self) -> usize {\n        self.curiter","    fn get_cur_iter(&self) -> usize {\n        let Newton { curiter, .. } = self;\n        *curiter"))
r("n-from",(NL,"        #[from]\n        source: linear::Error,","        source: linear::Error,"),(NL,"#[derive(Debug, Error)]\npub enum Error {","impl From<linear::Error> for Error {\n    fn from(source: linear::Error) -> Self {\n        Error::LinearSetupFailed { source }\n    }\n}\n\n#[derive(Debug, Error)]\npub enum Error {"))
r("n-tests-fn",(N,"                Err(Error::ConvergenceRecover {}) => {","                Err(ref e) if is_recoverable(e) => {"),(N,"#[cfg(test)]\nmod tests","fn is_recoverable(e: &Error) -> bool {\n    matches!(e, Error::ConvergenceRecover {})\n}\n\n#[cfg(test)]\nmod tests"))
r("n-upd-helper",(N,"                            *y += &self.delta;","                            add_to(y, &self.delta);"),(N,"#[cfg(test)]\nmod tests","fn add_to<T, D, SA, SB>(y: &mut Matrix<T, D, U1, SA>, d: &Matrix<T, D, U1, SB>)\nwhere\n    T: RealField + Copy,\n    D: DimName,\n    SA: StorageMut<T, D, U1>,\n    SB: Storage<T, D, U1>,\n{\n    for (a, b) in y.iter_mut().zip(d.iter()) {\n        *a += *b;\n    }\n}\n\n#[cfg(test)]\nmod tests"))
r("n-stats",(N,"    /// total number of nonlinear iterations across all solves\n    niters: usize,\n    /// total number of convergence failures across all solves\n    nconvfails: usize,\n","    stats: Stats,\n"),(N,"            niters: 0,\n            nconvfails: 0,\n","            stats: Stats::default(),\n"),(N,"                        self.niters += 1;","                        self.stats.niters += 1;"),(N,"                        self.nconvfails += 1;\n                        call","                        self.stats.nconvfails += 1;\n                        call"),(N,"        self.nconvfails += 1;\n\n        // all error","        self.stats.nconvfails += 1;\n\n        // all error"),(N,"        self.niters\n","        self.stats.niters\n"),(N,"        self.nconvfails\n    }\n}\n","        self.stats.nconvfails\n    }\n}\n\n#[derive(Debug, Clone, Default)]\nstruct Stats {\n    niters: usize,\n    nconvfails: usize,\n}\n"),(N,'newton.niters','newton.stats.niters'),(N,'newton.nconvfails','newton.stats.nconvfails'))
