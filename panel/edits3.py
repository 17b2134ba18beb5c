"""third set: rewrites a different hand would make"""
from edits import *
import edits
from edits2 import LOOP, RS, INNER, HD, SRCD
P3=[]
def r(id,*ed): P3.append((id,list(ed)))
NW_=open('/repo/'+N).read()
# ---- norm
NORM="        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()\n"
LEN="        let len = T::from(self.nrows() as u32);\n"
def w(id,new,*more): r("w-"+id,(W,NORM,new),*more)
w("fold","        let ss = self.component_mul(&w).iter().fold(T::zero(), |acc, x| acc + *x * *x);\n        (ss / len).sqrt()\n")
w("zip","        let ss: T = self.iter().zip(w.iter()).map(|(a, b)| (*a * *b).powi(2)).sum();\n        (ss / len).sqrt()\n")
w("loop","        let mut ss = T::zero();\n        for i in 0..self.nrows() {\n            let p = self[i] * w[i];\n            ss += p * p;\n        }\n        (ss / len).sqrt()\n")
w("loopzip","        let mut ss = T::zero();\n        for (a, b) in self.iter().zip(w.iter()) {\n            let p = *a * *b;\n            ss = ss + p * p;\n        }\n        ss /= len;\n        ss.sqrt()\n")
w("normsq","        (self.component_mul(&w).norm_squared() / len).sqrt()\n")
w("norm","        self.component_mul(&w).norm() / len.sqrt()\n")
w("dot","        let p = self.component_mul(&w);\n        (p.dot(&p) / len).sqrt()\n")
w("sqsep","        let mean_sq = self\n            .iter()\n            .zip(w.iter())\n            .map(|(&x, &wi)| x * x * (wi * wi))\n            .sum::<T>()\n            / len;\n        mean_sq.sqrt()\n")
w("divin","        self.component_mul(&w).iter().map(|x| x.powi(2) / len).sum::<T>().sqrt()\n")
w("helper","        mean_square(self.component_mul(&w).iter().copied(), len).sqrt()\n",(W,"#[cfg(test)]\nmod test {","fn mean_square<T: RealField + Copy + Sum>(it: impl Iterator<Item = T>, len: T) -> T {\n    it.map(|x| x * x).sum::<T>() / len\n}\n\n#[cfg(test)]\nmod test {"))
w("zipfold","        (self.zip_fold(&w, T::zero(), |s, a, b| s + (a * b).powi(2)) / len).sqrt()\n")
w("mulassign","        let ss = self.component_mul(&w).iter().map(|x| *x * *x).sum::<T>();\n        let mean = ss * len.recip();\n        mean.sqrt()\n")
w("while","        let (mut i, mut ss) = (0, T::zero());\n        while i < self.nrows() {\n            let p = self[i] * w[i];\n            ss += p.powi(2);\n            i += 1;\n        }\n        (ss / len).sqrt()\n")
r("w-into",(W,LEN,"        let len: T = (self.nrows() as u32).into();\n"))
r("w-shape",(W,LEN,"        let (rows, _) = self.shape();\n        let len = T::from(rows as u32);\n"))
r("w-debug",(W,LEN,"        debug_assert_eq!(self.nrows(), w.nrows());\n"+LEN))
r("w-late",(W,LEN+NORM,"        let sum_sq = self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>();\n        let len = T::from(self.nrows() as u32);\n        let mean_sq = sum_sq / len;\n        mean_sq.sqrt()\n"))
# ---- dense
SETUP="        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })\n"
r("d-setup-destr",(D,SETUP,"        let Dense { pivots } = self;\n        match dense_get_rf(mat_a, pivots) {\n            Err(col) => Err(Error::LUFactFail { col }),\n            ok => ok.map_err(|_| unreachable!()),\n        }\n"))
r("d-setup-letelse",(D,SETUP,"        let Err(col) = dense_get_rf(mat_a, &mut self.pivots) else {\n            return Ok(());\n        };\n        Err(Error::LUFactFail { col })\n"))
r("d-setup-err",(D,SETUP,"        let outcome = dense_get_rf(mat_a, &mut self.pivots);\n        if let Some(col) = outcome.err() {\n            return Err(Error::LUFactFail { col });\n        }\n        Ok(())\n"))
r("d-setup-fn",(D,SETUP,"        fn singular(col: usize) -> Error {\n            Error::LUFactFail { col }\n        }\n        dense_get_rf(mat_a, &mut self.pivots).map_err(singular)\n"))
r("d-setup-orelse",(D,SETUP,"        dense_get_rf(mat_a, &mut self.pivots).or_else(|col| Err(Error::LUFactFail { col }))\n"))
r("d-x-index2",(D,"        x.set_column(0, &b);\n","        for i in 0..b.nrows() {\n            x[(i, 0)] = b[(i, 0)];\n        }\n"))
r("d-x-colmut",(D,"        x.set_column(0, &b);\n","        x.column_mut(0).copy_from(b);\n"))
r("d-x-deref",(D,"        x.set_column(0, &b);\n","        x.iter_mut().zip(b.iter()).for_each(|(xi, bi)| *xi = *bi);\n"))
r("d-x-enum",(D,"        x.set_column(0, &b);\n","        for (i, v) in b.iter().enumerate() {\n            x[i] = *v;\n        }\n"))
r("d-search-ordering",(D,SEARCH,"        let mut l = k;\n        for i in (k + 1)..m {\n            if col_k[i].abs().partial_cmp(&col_k[l].abs()) == Some(std::cmp::Ordering::Greater) {\n                l = i;\n            }\n        }\n"))
r("d-search-iterfold",(D,SEARCH,"        let (l, _) = col_k\n            .iter()\n            .enumerate()\n            .skip(k + 1)\n            .fold((k, col_k[k].abs()), |(l, big), (i, v)| {\n                let cand = v.abs();\n                if cand > big {\n                    (i, cand)\n                } else {\n                    (l, big)\n                }\n            });\n"))
r("d-search-rows",(D,SEARCH,"        let mut l = k;\n        let mut big = col_k[k].abs();\n        for (off, v) in col_k.rows(k + 1, m - k - 1).iter().enumerate() {\n            if v.abs() > big {\n                big = v.abs();\n                l = k + 1 + off;\n            }\n        }\n"))
r("d-search-rowsnk",(D,SEARCH,"        let mut l = k;\n        let mut big = T::zero();\n        for i in k..m {\n            let cand = col_k[i].abs();\n            if cand > big {\n                big = cand;\n                l = i;\n            }\n        }\n"))
r("d-search-closure",(D,SEARCH,"        let larger = |i: usize, j: usize| col_k[i].abs() > col_k[j].abs();\n        let mut l = k;\n        for i in (k + 1)..m {\n            if larger(i, l) {\n                l = i;\n            }\n        }\n"))
r("d-search-max",(D,SEARCH,"        let mut l = k;\n        let mut big = col_k[k].abs();\n        for i in (k + 1)..m {\n            let cand = col_k[i].abs();\n            l = if cand > big { i } else { l };\n            big = big.max(cand);\n        }\n"))
r("d-search-sq",(D,SEARCH,"        let mut l = k;\n        let mut i = m;\n        let mut best = col_k[k].abs();\n        for j in k + 1..i {\n            let v = col_k[j];\n            let a = if v < T::zero() { -v } else { v };\n            if a > best {\n                best = a;\n                l = j;\n            }\n        }\n        i = l;\n        let l = i;\n"))
r("d-zero-early",(D,"        pivot[k] = l;\n\n        // check for zero pivot element\n        if col_k[l] == T::zero() {\n            return Err(k + 1);\n        }\n","        pivot[k] = l;\n        if !(col_k[l] != T::zero()) {\n            return Err(1 + k);\n        }\n"))
r("d-zero-then",(D,"        if col_k[l] == T::zero() {\n            return Err(k + 1);\n        }\n","        (col_k[l] != T::zero()).then_some(()).ok_or(k + 1)?;\n"))
r("d-zero-checkfn",(D,"        if col_k[l] == T::zero() {\n            return Err(k + 1);\n        }\n","        check_pivot(col_k[l], k)?;\n"),(D,HD,"fn check_pivot<T: RealField + Copy>(p: T, k: usize) -> Result<(), usize> {\n    if p == T::zero() {\n        Err(k + 1)\n    } else {\n        Ok(())\n    }\n}\n\n"+HD))
r("d-swap-fn",(D,SWAP,"            swap_rows_of(mat_a, k, l);\n"),(D,HD,"fn swap_rows_of<T, R, C, S>(a: &mut Matrix<T, R, C, S>, p: usize, q: usize)\nwhere\n    T: Scalar,\n    R: Dim,\n    C: Dim,\n    S: StorageMut<T, R, C>,\n{\n    for j in 0..a.ncols() {\n        a.swap((p, j), (q, j));\n    }\n}\n\n"+HD))
r("d-swap-iter",(D,SWAP,"            for mut col in mat_a.column_iter_mut() {\n                col.swap_rows(k, l);\n            }\n"))
r("d-swap-colswap",(D,SWAP,"            for mut col in mat_a.column_iter_mut() {\n                col.swap((k, 0), (l, 0));\n            }\n"))
r("d-swap-rev",(D,SWAP,"            for i in (0..n).rev() {\n                mat_a.swap((l, i), (k, i));\n            }\n"))
r("d-mult-first",(D,"        let mult = mat_a[(k, k)].recip();\n"+SCALE,"        let pivot_inv = T::one() / mat_a[(k, k)];\n        let mut i = k + 1;\n        while i < m {\n            mat_a[(i, k)] = mat_a[(i, k)] * pivot_inv;\n            i += 1;\n        }\n"))
r("d-mult-rowsmut",(D,SCALE,"        mat_a.column_mut(k).rows_mut(k + 1, m - k - 1).scale_mut(mult);\n"))
r("d-mult-rowsmut2",(D,SCALE,"        {\n            let mut col = mat_a.column_mut(k);\n            let mut tail = col.rows_mut(k + 1, m - (k + 1));\n            tail *= mult;\n        }\n"))
r("d-mult-rangeview",(D,SCALE,"        mat_a.view_range_mut(k + 1.., k).apply(|v| *v *= mult);\n"))
r("d-mult-mapfn",(D,SCALE,"        mat_a\n            .column_mut(k)\n            .iter_mut()\n            .enumerate()\n            .filter(|(i, _)| *i > k)\n            .for_each(|(_, v)| *v *= mult);\n"))
r("d-upd-filter",(D,UPD,"        for j in ((k + 1)..n).filter(|_| true) {\n            let a_kj = mat_a[(k, j)];\n            for i in (k + 1)..m {\n                let prod = a_kj * mat_a[(i, k)];\n                mat_a[(i, j)] -= prod;\n            }\n        }\n"))
r("d-upd-flatmap",(D,UPD,"        for (i, j) in ((k + 1)..n).flat_map(|j| ((k + 1)..m).map(move |i| (i, j))) {\n            let d = mat_a[(k, j)] * mat_a[(i, k)];\n            mat_a[(i, j)] -= d;\n        }\n"))
r("d-upd-sub",(D,UPD,"        for j in (k + 1)..n {\n            let a_kj = mat_a[(k, j)];\n            if a_kj == T::zero() {\n                continue;\n            }\n            for i in (k + 1)..m {\n                let (old, lik) = (mat_a[(i, j)], mat_a[(i, k)]);\n                mat_a[(i, j)] = old - lik * a_kj;\n            }\n        }\n"))
r("d-upd-pair",(D,UPD,"        for j in (k + 1)..n {\n            let (left, mut right) = mat_a.columns_range_pair_mut(k, j);\n            let f = right[k];\n            for i in (k + 1)..m {\n                right[i] -= f * left[i];\n            }\n        }\n"))
r("d-upd-clonecol",(D,UPD,"        let mults: Vec<T> = ((k + 1)..m).map(|i| mat_a[(i, k)]).collect();\n        for j in (k + 1)..n {\n            let a_kj = mat_a[(k, j)];\n            for (off, mlt) in mults.iter().enumerate() {\n                mat_a[(k + 1 + off, j)] -= a_kj * *mlt;\n            }\n        }\n"))
r("d-upd-twofn",(D,UPD,"        for j in (k + 1)..n {\n            eliminate_col(mat_a, k, j);\n        }\n"),(D,HD,"fn eliminate_col<T, R, C, S>(a: &mut Matrix<T, R, C, S>, k: usize, j: usize)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    S: StorageMut<T, R, C>,\n{\n    let f = a[(k, j)];\n    if f == T::zero() {\n        return;\n    }\n    for i in (k + 1)..a.nrows() {\n        let l = a[(i, k)];\n        a[(i, j)] -= f * l;\n    }\n}\n\n"+HD))
r("d-nm-min",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    for k in 0..n.min(m) {\n        let col_k = mat_a.column(k);\n\n        // find"))
r("d-outer-incl",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    for k in (0..n).into_iter() {\n        let col_k = mat_a.column(k);\n\n        // find"))
r("d-pivot-index2",(D,"        pivot[k] = l;\n","        pivot[(k, 0)] = l;\n"))
r("d-pivot-itermut",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    for (k, slot) in pivot.iter_mut().enumerate().take(n) {\n        let col_k = mat_a.column(k);\n\n        // find"),(D,"        pivot[k] = l;\n","        *slot = l;\n"))
r("d-perm-range",(D,PERM,"    for k in 0..n {\n        let pk = pivot[k];\n        b.swap_rows(k, pk);\n    }\n"))
r("d-perm-filter",(D,PERM,"    pivot\n        .iter()\n        .take(n)\n        .enumerate()\n        .filter(|(k, &pk)| *k != pk)\n        .for_each(|(k, &pk)| b.swap((k, 0), (pk, 0)));\n"))
r("d-perm-zip",(D,PERM,"    for (k, pk) in (0..n).zip(pivot.iter()) {\n        let tmp = b[k];\n        b[k] = b[*pk];\n        b[*pk] = tmp;\n    }\n"))
r("d-fwd-sub",(D,FWD,"    for i in 1..n {\n        let mut acc = b[i];\n        for j in 0..i {\n            acc -= mat_a[(i, j)] * b[j];\n        }\n        b[i] = acc;\n    }\n"))
r("d-fwd-incl",(D,FWD,"    for k in 1..n {\n        let prev = b[k - 1];\n        for i in k..n {\n            b[i] -= mat_a[(i, k - 1)] * prev;\n        }\n    }\n"))
r("d-fwd-itermut",(D,FWD,"    for k in 0..n {\n        let bk = b[k];\n        let col_k = mat_a.column(k);\n        for (bi, a) in b.iter_mut().zip(col_k.iter()).skip(k + 1) {\n            *bi -= *a * bk;\n        }\n    }\n"))
r("d-fwd-itermut2",(D,FWD,"    for k in 0..n {\n        let bk = b[k];\n        let col_k = mat_a.column(k);\n        b.iter_mut()\n            .enumerate()\n            .skip(k + 1)\n            .for_each(|(i, bi)| *bi -= col_k[i] * bk);\n    }\n"))
r("d-fwd-rowsview",(D,FWD,"    for k in 0..n.saturating_sub(1) {\n        let bk = b[k];\n        let mut tail = b.rows_mut(k + 1, n - k - 1);\n        tail.axpy(-bk, &mat_a.column(k).rows(k + 1, n - k - 1), T::one());\n    }\n"))
r("d-back-full",(D,BACK,"    for k in (0..n).rev() {\n        b[k] /= mat_a[(k, k)];\n        for i in (0..k).rev() {\n            let d = mat_a[(i, k)] * b[k];\n            b[i] -= d;\n        }\n    }\n"))
r("d-back-dot",(D,BACK,"    for i in (0..n).rev() {\n        let s: T = ((i + 1)..n).map(|j| mat_a[(i, j)] * b[j]).fold(T::zero(), |s, v| s + v);\n        b[i] = (b[i] - s) / mat_a[(i, i)];\n    }\n"))
r("d-back-upto",(D,BACK,"    for step in 1..=n {\n        let k = n - step;\n        let xk = b[k] / mat_a[(k, k)];\n        b[k] = xk;\n        for i in 0..k {\n            b[i] = b[i] - xk * mat_a[(i, k)];\n        }\n    }\n"))
r("d-back-loop",(D,BACK,"    let mut k = n;\n    loop {\n        if k == 0 {\n            break;\n        }\n        k -= 1;\n        let col = mat_a.column(k);\n        b[k] /= col[k];\n        let xk = b[k];\n        for (i, a) in col.iter().enumerate().take(k) {\n            b[i] -= *a * xk;\n        }\n    }\n"))
r("d-back-nest",(D,BACK,"    if n > 0 {\n        for k in (1..n).rev() {\n            let col_k = mat_a.column(k);\n            b[k] /= col_k[k];\n            let bk = b[k];\n            for i in 0..k {\n                b[i] -= col_k[i] * bk;\n            }\n        }\n        b[0] /= mat_a[(0, 0)];\n    }\n"))
r("d-rs-guard",(D,"    let n = mat_a.ncols();\n\n    // Permute","    let n = mat_a.ncols();\n    if n == 0 {\n        return;\n    }\n\n    // Permute"))
r("d-rs-nrows",(D,"    let n = mat_a.ncols();\n\n    // Permute","    let (_, n) = mat_a.shape();\n    debug_assert_eq!(pivot.nrows(), n);\n\n    // Permute"))
r("d-rs-method",(D,"        dense_get_rs(mat_a, &self.pivots, x);\n        Ok(())\n","        self.back_substitute(mat_a, x);\n        Ok(())\n"),(D,"/// `dense_get_rs` solves","impl<D: Dim> Dense<D>\nwhere\n    DefaultAllocator: Allocator<usize, D>,\n{\n    fn back_substitute<T, SA, SB>(&self, a: &Matrix<T, D, D, SA>, x: &mut Matrix<T, D, U1, SB>)\n    where\n        T: RealField + Copy,\n        SA: Storage<T, D, D>,\n        SB: StorageMut<T, D>,\n    {\n        dense_get_rs(a, &self.pivots, x)\n    }\n}\n\n/// `dense_get_rs` solves"))
# ---- newton
def n(id,*e): r("n-"+id,*[(N,o,x) for o,x in e])
NEG="                        self.delta.neg_mut();\n"
SYS0=NW_[NW_.index("            let retval = problem\n                .sys(y0, &mut self.delta)"):NW_.index("                .and_then(|_| {\n                    // initialize counter curiter")]
CT=NW_[NW_.index("                                .and_then(|converged| {"):NW_.index("                        });\n\n                        // check if the iteration should")]
BRK=NW_[NW_.index("                        if let Ok(false) = retval {"):NW_.index("                    } // end of Newton iteration loop")]
FM=NW_[NW_.index("            match retval {\n                Ok(_) => {"):NW_.index("        }; // end of setup loop")]
LOOPN=NW_[NW_.index("        let retval: Result<(), Error> = 'outer: loop {"):NW_.index("        // increment number of convergence failures\n")]
n("neg-minus",(NEG,"                        self.delta = -self.delta.clone();\n"))
n("neg-idx",(NEG,"                        for i in 0..self.delta.nrows() {\n                            self.delta[i] = -self.delta[i];\n                        }\n"))
n("neg-mulassign",(NEG,"                        self.delta *= -T::one();\n"))
n("fm-at",(FM,"""            match retval {
                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                Ok(()) => return Ok(()),
                Err(e) => break 'outer Err(e),
            }
"""))
n("fm-bool",(FM,"""            let recoverable = matches!(retval, Err(Error::ConvergenceRecover { .. }));
            let retry = recoverable && !self.jcur && !jbad;
            if retval.is_ok() {
                return retval;
            }
            if !retry {
                break 'outer retval;
            }
            self.nconvfails += 1;
            call_lsetup = true;
            jbad = true;
"""))
n("fm-err",(FM,"""            let err = match retval {
                Ok(()) => return Ok(()),
                Err(err) => err,
            };
            let stale = !(self.jcur || jbad);
            match (&err, stale) {
                (Error::ConvergenceRecover {}, true) => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                _ => break 'outer Err(err),
            }
"""))
n("fm-or",(FM,"""            if let Ok(()) = retval {
                return Ok(());
            }
            if let Err(Error::ConvergenceRecover {}) = &retval {
                if !(jbad || self.jcur) {
                    jbad = true;
                    call_lsetup = true;
                    self.nconvfails += 1;
                    continue;
                }
            }
            break retval;
"""))
n("fm-letelse",(FM,"""            let Err(failure) = retval else {
                return Ok(());
            };
            if !matches!(failure, Error::ConvergenceRecover {}) || self.jcur || jbad {
                break 'outer Err(failure);
            }
            self.nconvfails += 1;
            call_lsetup = true;
            jbad = true;
"""))
n("ct-flat",(CT,"""                                .and_then(|converged| {
                                    if converged {
                                        self.jcur = false;
                                        return Ok(true);
                                    }
                                    self.curiter += 1;
                                    if self.curiter < self.maxiters {
                                        problem.sys(y, &mut self.delta)?;
                                        return Ok(false);
                                    }
                                    Err(Error::ConvergenceRecover {})
                                })
"""))
n("ct-map",(CT,"""                                .and_then(|converged| match converged {
                                    true => {
                                        self.jcur = false;
                                        Ok(converged)
                                    }
                                    false => {
                                        self.curiter += 1;
                                        match self.curiter >= self.maxiters {
                                            true => Err(Error::ConvergenceRecover {}),
                                            false => problem
                                                .sys(y, &mut self.delta)
                                                .map(|_| false),
                                        }
                                    }
                                })
"""))
n("ct-next",(CT,"""                                .and_then(|converged| {
                                    if converged {
                                        self.jcur = false;
                                    } else {
                                        let next = self.curiter + 1;
                                        self.curiter = next;
                                        if next >= self.maxiters {
                                            return Err(Error::ConvergenceRecover {});
                                        }
                                        problem.sys(y, &mut self.delta)?;
                                    }
                                    Ok(converged)
                                })
"""))
n("brk-map",(BRK,"""                        match retval {
                            Ok(true) => break Ok(()),
                            Ok(false) => {}
                            Err(e) => break Err(e),
                        }
"""))
n("brk-q",(BRK,"""                        if retval? {
                            return Ok(());
                        }
"""))
n("brk-maybe",(BRK,"""                        if !matches!(retval, Ok(false)) {
                            break retval.map(|_| ());
                        }
"""))
n("brk-eq",(BRK,"""                        let again = matches!(retval, Ok(ref done) if !*done);
                        if again {
                            continue;
                        }
                        break 'inner retval.map(drop);
"""))
# imperative rewrite with closure + ?
IMP="""        let retval: Result<(), Error> = loop {
            let mut attempt = || -> Result<(), Error> {
                problem.sys(y0, &mut self.delta)?;
                if call_lsetup {
                    self.jcur = problem.setup(y0, &self.delta, jbad)?;
                }
                self.curiter = 0;
                y.copy_from(&y0);
                loop {
                    self.niters += 1;
                    self.delta.neg_mut();
                    problem.solve(y, &mut self.delta)?;
                    *y += &self.delta;
                    if problem.ctest(self, y, &self.delta, tol, w)? {
                        self.jcur = false;
                        return Ok(());
                    }
                    self.curiter += 1;
                    if self.curiter >= self.maxiters {
                        return Err(Error::ConvergenceRecover {});
                    }
                    problem.sys(y, &mut self.delta)?;
                }
            };
            match attempt() {
                Ok(()) => return Ok(()),
                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                Err(e) => break Err(e),
            }
        };

"""
n("imp",(LOOPN,IMP))
GEN="""    where
        NLP: NLProblem<T, D>,
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
        SC: Storage<T, D, U1>,
"""
METH="""impl<T, D> Newton<T, D>
where
    T: Scalar + RealField + Copy,
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<T, D>,
{
    fn iterate<NLP, SA, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y0: &Matrix<T, D, U1, SA>,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
    ) -> Result<(), Error>
"""+GEN+"""    {
        self.curiter = 0;
        y.copy_from(y0);
        while !self.advance(problem, y, w, tol)? {}
        self.jcur = false;
        Ok(())
    }

    fn advance<NLP, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
    ) -> Result<bool, Error>
"""+GEN.replace("        SA: Storage<T, D, U1>,\n","")+"""    {
        self.niters += 1;
        self.delta.neg_mut();
        problem.solve(y, &mut self.delta)?;
        *y += &self.delta;
        if problem.ctest(self, y, &self.delta, tol, w)? {
            return Ok(true);
        }
        self.curiter += 1;
        if self.curiter >= self.maxiters {
            return Err(Error::ConvergenceRecover {});
        }
        problem.sys(y, &mut self.delta)?;
        Ok(false)
    }
}

impl<T, D> NLSolver<T, D> for Newton<T, D>
"""
CALL="""        let retval: Result<(), Error> = 'outer: loop {
            let outcome = match problem.sys(y0, &mut self.delta) {
                Err(e) => Err(e),
                Ok(()) if call_lsetup => problem.setup(y0, &self.delta, jbad).map(|j| {
                    self.jcur = j;
                }),
                Ok(()) => Ok(()),
            }
            .and_then(|()| self.iterate(problem, y0, y, w, tol));
            match outcome {
                Ok(()) => return outcome,
                Err(Error::ConvergenceRecover {}) if !jbad && !self.jcur => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                Err(_) => break 'outer outcome,
            }
        };

"""
n("methods",("impl<T, D> NLSolver<T, D> for Newton<T, D>\n",METH),(LOOPN,CALL))
# two explicit attempts
TWO="""        let first = self.attempt(problem, y0, y, w, tol, call_lsetup, false);
        let retval = match first {
            Err(Error::ConvergenceRecover {}) if !self.jcur => {
                self.nconvfails += 1;
                self.attempt(problem, y0, y, w, tol, true, true)
            }
            other => other,
        };
        if retval.is_ok() {
            return retval;
        }

"""
METH2="""impl<T, D> Newton<T, D>
where
    T: Scalar + RealField + Copy,
    D: DimName + DimNameAdd<D>,
    DefaultAllocator: Allocator<T, D>,
{
    #[allow(clippy::too_many_arguments)]
    fn attempt<NLP, SA, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y0: &Matrix<T, D, U1, SA>,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
        lsetup: bool,
        jbad: bool,
    ) -> Result<(), Error>
"""+GEN+"""    {
        problem.sys(y0, &mut self.delta)?;
        if lsetup {
            self.jcur = problem.setup(y0, &self.delta, jbad)?;
        }
        self.curiter = 0;
        y.copy_from(y0);
        loop {
            self.niters += 1;
            self.delta.neg_mut();
            problem.solve(y, &mut self.delta)?;
            *y += &self.delta;
            if problem.ctest(self, y, &self.delta, tol, w)? {
                self.jcur = false;
                break Ok(());
            }
            self.curiter += 1;
            if self.curiter >= self.maxiters {
                break Err(Error::ConvergenceRecover {});
            }
            problem.sys(y, &mut self.delta)?;
        }
    }
}

impl<T, D> NLSolver<T, D> for Newton<T, D>
"""
PRE="        // assume the Jacobian is good\n        let mut jbad = false;\n        let mut call_lsetup = call_lsetup;\n"
n("two",("impl<T, D> NLSolver<T, D> for Newton<T, D>\n",METH2),(PRE,""),(LOOPN,TWO))
END=NW_[NW_.index("        // increment number of convergence failures\n        self.nconvfails += 1;"):NW_.index("    fn get_num_iters")]
FORR="""        let mut retval = Ok(());
        for retry in [false, true] {
            retval = self.attempt(problem, y0, y, w, tol, call_lsetup || retry, retry);
            match retval {
                Ok(()) => return Ok(()),
                Err(Error::ConvergenceRecover {}) if !self.jcur && !retry => {
                    self.nconvfails += 1;
                }
                Err(_) => break,
            }
        }

"""
n("forretry",("impl<T, D> NLSolver<T, D> for Newton<T, D>\n",METH2),(PRE,""),(LOOPN,FORR))
n("mapok",(LOOPN+END,LOOPN.replace("return retval;","break 'outer retval;")+"""        // a failure of any kind counts once
        if retval.is_err() {
            self.nconvfails += 1;
        }
        retval
    }

"""))
n("inspect",(LOOPN+END,LOOPN.replace("return retval;","break 'outer retval;")+"""        retval.map_err(|e| {
            self.nconvfails += 1;
            e
        })
    }

"""))
n("inspecterr",(LOOPN+END,LOOPN.replace("return retval;","break 'outer retval;")+"""        retval.inspect_err(|_| self.nconvfails += 1)
    }

"""))
n("incq",("                        self.niters += 1;\n","                        self.niters = self.niters + 1;\n"),("                                        self.curiter += 1;\n","                                        self.curiter = self.curiter.saturating_add(1);\n"))
n("addto",("                            *y += &self.delta;\n","                            self.delta.iter().zip(y.iter_mut()).for_each(|(d, yi)| *yi += *d);\n"))
n("addto2",("                            *y += &self.delta;\n","                            y.zip_apply(&self.delta, |yi, d| *yi += d);\n"))
n("addto3",("                            *y += &self.delta;\n","                            for (yi, d) in y.iter_mut().zip(self.delta.iter()) {\n                                *yi = *yi + *d;\n                            }\n"))
n("ycopy-clone",("                    y.copy_from(&y0);\n","                    y.iter_mut().zip(y0.iter()).for_each(|(a, b)| *a = *b);\n"))
n("ycopy-tr",("                    y.copy_from(&y0);\n","                    for i in 0..y0.nrows() {\n                        y[i] = y0[i];\n                    }\n"))
n("noshadow",("        let mut call_lsetup = call_lsetup;\n","        let mut setup_now = call_lsetup;\n"),("                    if call_lsetup {\n","                    if setup_now {\n"),("                        call_lsetup = true;\n","                        setup_now = true;\n"))
n("jcurlocal",("                            .map(|jcur| self.jcur = jcur)\n","                            .map(|jcur| {\n                                self.jcur = jcur;\n                            })\n"))
