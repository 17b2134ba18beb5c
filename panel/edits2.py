"""second set: wider rewrites"""
from edits import *
import edits
LS="crates/linear/src/lib.rs"; LT="crates/linear/src/traits.rs"; NT="crates/nonlinear/src/traits.rs"
P2=[]
def r(id,*ed): P2.append((id,list(ed)))
HD="/// `dense_get_rs` solves"
RF="    // k-th elimination step number\n"
SRCD=open('/repo/'+D).read()
i0=SRCD.index("    // k-th elimination step"); i1=SRCD.index("    Ok(())\n}\n\n/// `dense_get_rs`"); LOOP=SRCD[i0:i1]
j0=SRCD.index("    // Permute b, based"); j1=SRCD.index("}\n\n#[cfg(test)]"); RS=SRCD[j0:j1]
INNER=LOOP[LOOP.index("        let col_k"):LOOP.rindex("    }\n")]
ZERO_CHK="        if col_k[l] == T::zero() {\n            return Err(k + 1);\n        }\n"
# ---- whole elimination step in a helper
STEP=lambda ret: "fn eliminate_step<T, R, C, SA, SB>(\n    mat_a: &mut Matrix<T, R, C, SA>,\n    pivot: &mut Matrix<usize, C, U1, SB>,\n    k: usize,\n) -> Result<(), usize>\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: StorageMut<T, R, C>,\n    SB: StorageMut<usize, C>,\n{\n    let (m, n) = mat_a.shape();\n"+INNER+"    Ok(())\n}\n\n"
r("d-step-helper",(D,LOOP,"    for k in 0..n {\n        eliminate_step(mat_a, pivot, k)?;\n    }\n    let _ = m;\n"),(D,HD,STEP(0)+HD))
r("d-step-tryforeach",(D,LOOP,"    let _ = m;\n    (0..n).try_for_each(|k| eliminate_step(mat_a, pivot, k))?;\n"),(D,HD,STEP(0)+HD))
r("d-step-loop",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    let mut next = 0;\n    loop {\n        if next >= n {\n            break;\n        }\n        let k = next;\n        next += 1;\n        let col_k = mat_a.column(k);\n\n        // find"))
r("d-step-whilelet",(D,"    for k in 0..n {\n        let col_k = mat_a.column(k);\n\n        // find","    let mut steps = 0..n;\n    while let Some(k) = steps.next() {\n        let col_k = mat_a.column(k);\n\n        // find"))
r("d-search-icamax",(D,SEARCH,"        let l = k + col_k.rows_range(k..).icamax();\n"))
r("d-search-tuple",(D,SEARCH,"        let (l, _) = ((k + 1)..m).fold((k, col_k[k].abs()), |(bi, bv), i| {\n            let v = col_k[i].abs();\n            if v > bv {\n                (i, v)\n            } else {\n                (bi, bv)\n            }\n        });\n"))
r("d-search-option",(D,SEARCH,"        let mut best: Option<usize> = None;\n        for i in k..m {\n            let better = match best {\n                None => true,\n                Some(b) => col_k[i].abs() > col_k[b].abs(),\n            };\n            if better {\n                best = Some(i);\n            }\n        }\n        let l = best.unwrap_or(k);\n"))
r("d-search-match",(D,SEARCH,"        let mut l = k;\n        for i in (k + 1)..m {\n            l = match col_k[i].abs().partial_cmp(&col_k[l].abs()) {\n                Some(std::cmp::Ordering::Greater) => i,\n                _ => l,\n            };\n        }\n"))
r("d-search-lt",(D,"if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }","let (cand, cur) = (col_k[i].abs(), col_k[l].abs());\n            if cur < cand {\n                l = i;\n            }"))
r("d-search-not",(D,"if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }","if !(col_k[i].abs() > col_k[l].abs()) {\n                continue;\n            }\n            l = i;"))
r("d-search-ite",(D,"            if col_k[i].abs() > col_k[l].abs() {\n                l = i;\n            }","            l = if col_k[i].abs() > col_k[l].abs() { i } else { l };"))
r("d-search-mata",(D,"if col_k[i].abs() > col_k[l].abs() {","if mat_a[(i, k)].abs() > mat_a[(l, k)].abs() {"))
r("d-search-zipskip",(D,SEARCH,"        let mut l = k;\n        let mut largest = col_k[k].abs();\n        col_k.iter().enumerate().skip(k + 1).for_each(|(i, v)| {\n            if v.abs() > largest {\n                largest = v.abs();\n                l = i;\n            }\n        });\n"))
r("d-swap-colmut",(D,SWAP,"            for mut c in mat_a.column_iter_mut() {\n                c.swap_rows(k, l);\n            }\n"))
r("d-swap-foreach",(D,SWAP,"            (0..n).for_each(|j| mat_a.swap((k, j), (l, j)));\n"))
r("d-swap-memswap",(D,SWAP,"            for j in 0..n {\n                let (top, piv) = (mat_a[(k, j)], mat_a[(l, j)]);\n                mat_a[(k, j)] = piv;\n                mat_a[(l, j)] = top;\n            }\n"))
r("d-swap-while",(D,SWAP,"            let mut j = n;\n            while j > 0 {\n                j -= 1;\n                mat_a.swap((l, j), (k, j));\n            }\n"))
r("d-zero-before-store",(D,"        pivot[k] = l;\n\n        // check for zero pivot element\n"+ZERO_CHK,"        if col_k[l] == T::zero() {\n            pivot[k] = l;\n            return Err(k + 1);\n        }\n        pivot[k] = l;\n"))
r("d-zero-match",(D,ZERO_CHK,"        match col_k[l] {\n            p if p == T::zero() => return Err(k + 1),\n            _ => {}\n        }\n"))
r("d-zero-abs",(D,"if col_k[l] == T::zero() {","if col_k[l].abs() == T::zero() {"))
r("d-zero-le",(D,"if col_k[l] == T::zero() {","if col_k[l].abs() <= T::zero() {"))
r("d-zero-result",(D,ZERO_CHK,"        nonzero(col_k[l], k)?;\n"),(D,HD,"fn nonzero<T: RealField + Copy>(p: T, k: usize) -> Result<(), usize> {\n    if p != T::zero() {\n        Ok(())\n    } else {\n        Err(k + 1)\n    }\n}\n\n"+HD))
r("d-zero-bool",(D,ZERO_CHK,"        (col_k[l] != T::zero()).then_some(()).ok_or(k + 1)?;\n"))
r("d-scale-range",(D,SCALE,"        mat_a.view_range_mut(k + 1.., k).scale_mut(mult);\n"))
r("d-scale-colmut",(D,SCALE,"        let mut col = mat_a.column_mut(k);\n        for i in (k + 1)..m {\n            col[i] = col[i] * mult;\n        }\n"))
r("d-scale-rowsmut",(D,SCALE,"        mat_a.column_mut(k).rows_range_mut(k + 1..).apply(|v| *v *= mult);\n"))
r("d-scale-divassign",(D,"        let mult = mat_a[(k, k)].recip();\n"+SCALE,"        let diag = mat_a[(k, k)];\n        for i in k + 1..m {\n            mat_a[(i, k)] /= diag;\n        }\n"))
r("d-upd-negmul",(D,"mat_a[(i, j)] -= a_kj * a_ik;","mat_a[(i, j)] += -a_ik * a_kj;"))
r("d-upd-muladd",(D,"mat_a[(i, j)] -= a_kj * a_ik;","mat_a[(i, j)] = (-a_kj).mul_add(a_ik, mat_a[(i, j)]);"))
r("d-upd-iszero",(D,"            if a_kj != T::zero() {","            if !a_kj.is_zero() {"))
r("d-upd-foreach",(D,UPD,"        ((k + 1)..n).for_each(|j| {\n            let a_kj = mat_a[(k, j)];\n            ((k + 1)..m).for_each(|i| {\n                let l_ik = mat_a[(i, k)];\n                mat_a[(i, j)] -= a_kj * l_ik;\n            });\n        });\n"))
r("d-upd-rev",(D,UPD,"        for j in ((k + 1)..n).rev() {\n            let a_kj = mat_a[(k, j)];\n            for i in ((k + 1)..m).rev() {\n                let a_ik = mat_a[(i, k)];\n                mat_a[(i, j)] -= a_kj * a_ik;\n            }\n        }\n"))
r("d-upd-skipzero",(D,UPD,"        for i in (k + 1)..m {\n            let a_ik = mat_a[(i, k)];\n            if a_ik == T::zero() {\n                continue;\n            }\n            for j in (k + 1)..n {\n                mat_a[(i, j)] = mat_a[(i, j)] - a_ik * mat_a[(k, j)];\n            }\n        }\n"))
r("d-upd-offset",(D,UPD,"        for jj in 0..(n - k - 1) {\n            let j = k + 1 + jj;\n            let a_kj = mat_a[(k, j)];\n            for ii in 0..(m - k - 1) {\n                let i = k + 1 + ii;\n                let a_ik = mat_a[(i, k)];\n                mat_a[(i, j)] -= a_kj * a_ik;\n            }\n        }\n"))
r("d-upd-inclusive",(D,"        for j in (k + 1)..n {\n            let a_kj","        for j in (k + 1)..=(n - 1) {\n            let a_kj"))
r("d-last-skip",(D,"        let mult = mat_a[(k, k)].recip();\n","        if k + 1 == m {\n            continue;\n        }\n        let mult = mat_a[(k, k)].recip();\n"))
r("d-fuse-cols",(D,UPD,"        for j in (k + 1)..n {\n            let a_kj = mat_a[(k, j)];\n            update_column(mat_a, j, k, a_kj);\n        }\n"),(D,HD,"fn update_column<T, R, C, S>(a: &mut Matrix<T, R, C, S>, j: usize, k: usize, a_kj: T)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    S: StorageMut<T, R, C>,\n{\n    if a_kj == T::zero() {\n        return;\n    }\n    for i in (k + 1)..a.nrows() {\n        let a_ik = a[(i, k)];\n        a[(i, j)] -= a_kj * a_ik;\n    }\n}\n\n"+HD))
r("d-struct",(D,"        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })","        let Dense { pivots } = self;\n        let outcome = dense_get_rf(mat_a, pivots);\n        outcome.or_else(|col| Err(Error::LUFactFail { col }))"))
r("d-new",(D,"            pivots: OVector::<usize, D>::zeros(),","            pivots: OVector::<usize, D>::from_element(0),"))
r("d-rf-result",(D,") -> Result<(), usize>\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: StorageMut<T, R, C>,\n    SB: StorageMut<usize, C>,\n    DefaultAllocator",") -> Result<(), Error>\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: StorageMut<T, R, C>,\n    SB: StorageMut<usize, C>,\n    DefaultAllocator"),(D,"            return Err(k + 1);","            return Err(Error::LUFactFail { col: k + 1 });"),(D,".map_err(|e| Error::LUFactFail { col: e })",""))
r("d-rf-option",(D,") -> Result<(), usize>\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: StorageMut<T, R, C>,\n    SB: StorageMut<usize, C>,\n    DefaultAllocator",") -> Option<usize>\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: StorageMut<T, R, C>,\n    SB: StorageMut<usize, C>,\n    DefaultAllocator"),(D,"            return Err(k + 1);","            return Some(k + 1);"),(D,"    Ok(())\n}\n\n"+HD,"    None\n}\n\n"+HD),(D,"        dense_get_rf(mat_a, &mut self.pivots).map_err(|e| Error::LUFactFail { col: e })","        match dense_get_rf(mat_a, &mut self.pivots) {\n            Some(col) => Err(Error::LUFactFail { col }),\n            None => Ok(()),\n        }"),(D,"dense_get_rf(&mut a, &mut p).unwrap();","assert!(dense_get_rf(&mut a, &mut p).is_none());"),) if SRCD.count("dense_get_rf(&mut a, &mut p).unwrap();")==1 else None
r("d-rf-col0",(D,"            return Err(k + 1);","            return Err(k);"),(D,".map_err(|e| Error::LUFactFail { col: e })",".map_err(|k| Error::LUFactFail { col: k + 1 })"))
# ---- solve
r("d-rs-inline",(D,"        dense_get_rs(mat_a, &self.pivots, x);\n        Ok(())","        let n = mat_a.ncols();\n        for k in 0..n {\n            let pk = self.pivots[k];\n            if pk != k {\n                x.swap((k, 0), (pk, 0));\n            }\n        }\n        for k in 0..n {\n            let xk = x[k];\n            for i in (k + 1)..n {\n                x[i] -= mat_a[(i, k)] * xk;\n            }\n        }\n        for k in (0..n).rev() {\n            x[k] /= mat_a[(k, k)];\n            let xk = x[k];\n            for i in 0..k {\n                x[i] -= mat_a[(i, k)] * xk;\n            }\n        }\n        Ok(())"))
r("d-perm-copy",(D,"        x.set_column(0, &b);\n\n        dense_get_rs(mat_a, &self.pivots, x);","        for i in 0..b.nrows() {\n            x[(i, 0)] = b[(i, 0)];\n        }\n        let pivots = &self.pivots;\n        dense_get_rs(mat_a, pivots, x);"))
r("d-perm-while",(D,PERM,"    let mut k = 0;\n    while k < n {\n        let pk = pivot[k];\n        if pk > k {\n            b.swap_rows(k, pk);\n        }\n        k += 1;\n    }\n"))
r("d-perm-len",(D,PERM,"    for k in 0..pivot.len() {\n        b.swap((pivot[k], 0), (k, 0));\n    }\n"))
r("d-perm-helper",(D,PERM,"    apply_pivots(pivot, b);\n"),(D,HD,"fn apply_pivots<T, C, SB, SC>(pivot: &Matrix<usize, C, U1, SB>, b: &mut Matrix<T, C, U1, SC>)\nwhere\n    T: Scalar,\n    C: Dim,\n    SB: Storage<usize, C>,\n    SC: StorageMut<T, C>,\n{\n    for (k, pk) in pivot.iter().enumerate() {\n        if *pk != k {\n            b.swap((k, 0), (*pk, 0));\n        }\n    }\n}\n\n"+HD))
r("d-fwd-zip",(D,"        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }","        let bk = b[k];\n        for (bi, aik) in b.iter_mut().zip(col_k.iter()).skip(k + 1) {\n            *bi -= *aik * bk;\n        }"))
r("d-fwd-foreach",(D,"        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }","        let bk = b[k];\n        (k + 1..n).for_each(|i| b[i] -= col_k[i] * bk);"))
r("d-fwd-while",(D,"    for k in 0..n.saturating_sub(1) {","    let mut k0 = 0;\n    while k0 + 1 < n {\n        let k = k0;\n        k0 += 1;"))
r("d-fwd-sum",(D,FWD,"    for i in 0..n {\n        let s = (0..i).map(|j| mat_a[(i, j)] * b[j]).sum::<T>();\n        b[i] -= s;\n    }\n"),(D,"fn dense_get_rs<T, R, C, SA, SB, SC>(","fn dense_get_rs<T, R, C, SA, SB, SC>(")) if False else None
r("d-fwd-fold",(D,FWD,"    for i in 1..n {\n        b[i] = (0..i).fold(b[i], |acc, j| acc - mat_a[(i, j)] * b[j]);\n    }\n"))
r("d-fwd-rowlet",(D,FWD,"    for i in 0..n {\n        let mut acc = T::zero();\n        for j in 0..i {\n            acc += mat_a[(i, j)] * b[j];\n        }\n        b[i] -= acc;\n    }\n"))
r("d-fwd-helper",(D,"        let bk = b[k];\n        for i in (k + 1)..n {\n            b[i] -= col_k[i] * bk;\n        }","        let bk = b[k];\n        for i in (k + 1)..n {\n            sub_scaled(&mut b[i], col_k[i], bk);\n        }"),(D,HD,"#[inline(always)]\nfn sub_scaled<T: RealField + Copy>(target: &mut T, f: T, v: T) {\n    *target -= f * v;\n}\n\n"+HD))
r("d-back-recip",(D,"        b[k] /= col_k[k];\n        let bk = b[k];","        b[k] *= col_k[k].recip();\n        let bk = b[k];"))
r("d-back-peel",(D,BACK,"    for k in (0..n).rev() {\n        let col_k = mat_a.column(k);\n        let bk = b[k] / col_k[k];\n        b[k] = bk;\n        if k > 0 {\n            for i in 0..k {\n                b[i] -= col_k[i] * bk;\n            }\n        }\n    }\n"))
r("d-back-take",(D,"        for i in 0..k {\n            b[i] -= col_k[i] * bk;\n        }","        for (bi, aik) in b.iter_mut().zip(col_k.iter()).take(k) {\n            *bi -= *aik * bk;\n        }"))
r("d-back-idx",(D,BACK,"    for step in 0..n {\n        let k = n - 1 - step;\n        let col_k = mat_a.column(k);\n        b[k] /= col_k[k];\n        let bk = b[k];\n        for i in 0..k {\n            b[i] -= col_k[i] * bk;\n        }\n    }\n"))
r("d-back-rowfold",(D,BACK,"    for i in (0..n).rev() {\n        let acc = ((i + 1)..n).fold(b[i], |acc, j| acc - mat_a[(i, j)] * b[j]);\n        b[i] = acc / mat_a[(i, i)];\n    }\n"))
r("d-back-foreach",(D,BACK,"    (0..n).rev().for_each(|k| {\n        let bk = b[k] / mat_a[(k, k)];\n        b[k] = bk;\n        (0..k).for_each(|i| b[i] -= mat_a[(i, k)] * bk);\n    });\n"))
r("d-back-axpy",(D,"        for i in 0..k {\n            b[i] -= col_k[i] * bk;\n        }","        b.rows_range_mut(0..k).axpy(-bk, &col_k.rows_range(0..k), T::one());"))
r("d-rs-three",(D,RS,"    permute(pivot, b);\n    forward(mat_a, b);\n    backward(mat_a, b);\n    let _ = n;\n"),(D,HD,"fn permute<T, C, SB, SC>(pivot: &Matrix<usize, C, U1, SB>, b: &mut Matrix<T, C, U1, SC>)\nwhere\n    T: Scalar,\n    C: Dim,\n    SB: Storage<usize, C>,\n    SC: StorageMut<T, C>,\n{\n    let n = b.nrows();\n"+PERM+"}\n\nfn forward<T, R, C, SA, SC>(mat_a: &Matrix<T, R, C, SA>, b: &mut Matrix<T, C, U1, SC>)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: Storage<T, R, C>,\n    SC: StorageMut<T, C>,\n{\n    let n = mat_a.ncols();\n"+FWD+"}\n\nfn backward<T, R, C, SA, SC>(mat_a: &Matrix<T, R, C, SA>, b: &mut Matrix<T, C, U1, SC>)\nwhere\n    T: Scalar + RealField + Copy,\n    R: Dim,\n    C: Dim,\n    SA: Storage<T, R, C>,\n    SC: StorageMut<T, C>,\n{\n    let n = mat_a.ncols();\n"+BACK+"}\n\n"+HD))
r("d-rs-result",(D,"        dense_get_rs(mat_a, &self.pivots, x);\n        Ok(())","        let done: Result<(), Error> = {\n            dense_get_rs(mat_a, &self.pivots, x);\n            Ok(())\n        };\n        done"))
r("d-rs-fwd1-swap",(D,"    let n = mat_a.ncols();\n\n    // Permute","    let n = b.nrows();\n    debug_assert_eq!(n, mat_a.ncols());\n\n    // Permute"))
# ---- norm
VAL2="        let len = T::from(self.nrows() as u32);\n        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()\n"
for i,x in enumerate([
 "        let n = self.nrows() as u32;\n        let total = self.component_mul(w).iter().fold(T::zero(), |acc, x| acc + *x * *x);\n        (total / n.into()).sqrt()\n",
 "        let total: T = (0..self.nrows()).map(|i| self[i] * w[i]).map(|v| v * v).sum();\n        (total / T::from(self.nrows() as u32)).sqrt()\n",
 "        let len = T::from(self.nrows() as u32);\n        let scaled = self.component_mul(&w);\n        let ms = scaled.dot(&scaled) * len.recip();\n        ms.sqrt()\n",
 "        let mut acc = T::zero();\n        self.iter().zip(w.iter()).for_each(|(x, wi)| {\n            let v = *x * *wi;\n            acc += v * v;\n        });\n        (acc / T::from(self.nrows() as u32)).sqrt()\n",
 "        sum_sq(self.component_mul(&w).iter().map(|x| *x), self.nrows() as u32)\n",
 "        let len = T::from(self.nrows() as u32);\n        let sq = self.component_mul(&w).map(|x| x * x);\n        (sq.sum() / len).sqrt()\n",
 "        let len = T::from(self.nrows() as u32);\n        let mut total = T::zero();\n        for i in (0..self.nrows()).rev() {\n            total = (self[i] * w[i]).mul_add(self[i] * w[i], total);\n        }\n        (total / len).sqrt()\n",
 "        let len = T::from(self.nrows() as u32);\n        (self.component_mul(&w).iter().map(|x| x.abs() * x.abs()).sum::<T>() / len).sqrt()\n",
 "        if self.nrows() == 1 {\n            return (self[0] * w[0]).abs();\n        }\n        let len = T::from(self.nrows() as u32);\n        (self.component_mul(&w).iter().map(|x| x.powi(2)).sum::<T>() / len).sqrt()\n",
]):
    ed=[(W,VAL2,x)]
    if "sum_sq" in x: ed.append((W,"#[cfg(test)]\nmod","fn sum_sq<T: RealField + Copy + From<u32>>(items: impl Iterator<Item = T>, n: u32) -> T {\n    let mut s = T::zero();\n    for x in items {\n        s += x * x;\n    }\n    (s / T::from(n)).sqrt()\n}\n\n#[cfg(test)]\nmod"))
    r("w-b%d"%i,*ed)
# ---- newton
def body(id,s,*more): r(id,(N,BODY,s),*more)
IMPL=lambda fns: (N,"#[cfg(test)]\nmod tests","impl<T, D> Newton<T, D>\nwhere\n    T: Scalar + RealField + Copy,\n    D: DimName + DimNameAdd<D>,\n    DefaultAllocator: Allocator<T, D>,\n{\n"+fns+"}\n\n#[cfg(test)]\nmod tests")
body("n-local-counters","""        let mut jbad = false;
        let mut call_lsetup = call_lsetup;
        loop {
            let mut iters = 0;
            let retval = (|| -> Result<(), Error> {
                problem.sys(y0, &mut self.delta)?;
                if call_lsetup {
                    self.jcur = problem.setup(y0, &self.delta, jbad)?;
                }
                self.curiter = 0;
                y.copy_from(y0);
                loop {
                    iters += 1;
                    self.delta.neg_mut();
                    problem.solve(y, &mut self.delta)?;
                    *y += &self.delta;
                    if problem.ctest(self, y, &self.delta, tol, w)? {
                        self.jcur = false;
                        return Ok(());
                    }
                    self.curiter += 1;
                    if self.curiter >= self.maxiters {
                        return Err(Error::ConvergenceRecover {});
                    }
                    problem.sys(y, &mut self.delta)?;
                }
            })();
            self.niters += iters;
            let failed = retval.is_err();
            self.nconvfails += failed as usize;
            let retry = matches!(retval, Err(Error::ConvergenceRecover {})) && !self.jcur && !jbad;
            if !retry {
                return retval;
            }
            call_lsetup = true;
            jbad = true;
        }
    }

""")
body("n-iter-helper","""        let mut jbad = false;
        let mut call_lsetup = call_lsetup;
        let retval = loop {
            let attempt = self.start(problem, y0, call_lsetup, jbad).and_then(|_| {
                y.copy_from(y0);
                self.iterate(problem, y, w, tol)
            });
            let err = match attempt {
                Ok(()) => return Ok(()),
                Err(e) => e,
            };
            match err {
                Error::ConvergenceRecover {} if !self.jcur && !jbad => {
                    self.nconvfails += 1;
                    call_lsetup = true;
                    jbad = true;
                }
                other => break Err(other),
            }
        };
        self.nconvfails += 1;
        retval
    }

""",IMPL("""    fn start<NLP, SA>(
        &mut self,
        problem: &mut NLP,
        y0: &Matrix<T, D, U1, SA>,
        call_lsetup: bool,
        jbad: bool,
    ) -> Result<(), Error>
    where
        NLP: NLProblem<T, D>,
        SA: Storage<T, D, U1>,
    {
        problem.sys(y0, &mut self.delta)?;
        if call_lsetup {
            self.jcur = problem.setup(y0, &self.delta, jbad)?;
        }
        self.curiter = 0;
        Ok(())
    }

    fn iterate<NLP, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
    ) -> Result<(), Error>
    where
        NLP: NLProblem<T, D>,
        SB: StorageMut<T, D, U1>,
        SC: Storage<T, D, U1>,
    {
        while !self.iteration(problem, y, w, tol)? {
            self.curiter += 1;
            if self.curiter >= self.maxiters {
                return Err(Error::ConvergenceRecover {});
            }
            problem.sys(y, &mut self.delta)?;
        }
        self.jcur = false;
        Ok(())
    }

    fn iteration<NLP, SB, SC>(
        &mut self,
        problem: &mut NLP,
        y: &mut Matrix<T, D, U1, SB>,
        w: &Matrix<T, D, U1, SC>,
        tol: T,
    ) -> Result<bool, Error>
    where
        NLP: NLProblem<T, D>,
        SB: StorageMut<T, D, U1>,
        SC: Storage<T, D, U1>,
    {
        self.niters += 1;
        self.delta.neg_mut();
        problem.solve(y, &mut self.delta)?;
        *y += &self.delta;
        problem.ctest(self, y, &self.delta, tol, w)
    }
"""))
r("n-memreplace",(N,"                        call_lsetup = true;\n                        jbad = true;","                        let _ = std::mem::replace(&mut call_lsetup, true);\n                        jbad = !jbad;"))
r("n-fail-iflet",(N,"""                Err(Error::ConvergenceRecover {}) => {
                    // The retry itself (jbad) is never retried, otherwise this might loop forever.
                    if !self.jcur && !jbad {
""","""                Err(Error::ConvergenceRecover { .. }) => {
                    let stale = !self.jcur;
                    let first = !jbad;
                    if stale & first {
"""))
r("n-jbad-count",(N,"        let mut jbad = false;","        let mut attempt = 0;\n        let mut jbad = attempt > 0;"),(N,"                        jbad = true;","                        attempt += 1;\n                        jbad = attempt > 0;"))
r("n-jbad-enum",(N,"        let mut jbad = false;","        let mut state = Attempt::First;"),(N,".setup(y0, &self.delta, jbad)",".setup(y0, &self.delta, matches!(state, Attempt::Retry))"),(N,"if !self.jcur && !jbad {","if !self.jcur && matches!(state, Attempt::First) {"),(N,"                        jbad = true;","                        state = Attempt::Retry;"),(N,"#[cfg(test)]\nmod tests","enum Attempt {\n    First,\n    Retry,\n}\n\n#[cfg(test)]\nmod tests"))
r("n-loopcond",(N,"                                        if self.curiter >= self.maxiters {","                                        if !(self.curiter < self.maxiters) {"))
r("n-left",(N,"                                        if self.curiter >= self.maxiters {","                                        let left = self.maxiters.saturating_sub(self.curiter);\n                                        if left == 0 {"))
r("n-eq",(N,"                                        if self.curiter >= self.maxiters {","                                        if self.curiter == self.maxiters.max(self.curiter) {"))
r("n-convfail-map",(N,"        // increment number of convergence failures\n        self.nconvfails += 1;\n\n        // all error returns exit here\n        retval","        retval.map_err(|e| {\n            self.nconvfails += 1;\n            e\n        })"))
r("n-clone-delta",(N,"                                .ctest(self, y, &self.delta, tol, w)","                                .ctest(self, y, &self.delta.clone(), tol, w)"))
r("n-y-rows",(N,"                            *y += &self.delta;","                            let mut rows = y.rows_range_mut(..);\n                            rows += &self.delta;"))
r("n-y-addassign",(N,"                            *y += &self.delta;","                            std::ops::AddAssign::add_assign(y, &self.delta);"))
r("n-neg-zip",(N,"                        self.delta.neg_mut();","                        self.delta.iter_mut().for_each(|d| *d = T::zero() - *d);"))
r("n-neg-copy",(N,"                        self.delta.neg_mut();","                        let rhs = -self.delta.clone();\n                        self.delta.copy_from(&rhs);"))
r("n-delta-local",(N,"                        let retval = problem.solve(y, &mut self.delta).and_then(|_| {\n                            // update the Newton iterate\n                            *y += &self.delta;","                        let linear = problem.solve(y, &mut self.delta);\n                        let retval = linear.and_then(|_| {\n                            let step = &self.delta;\n                            *y += step;"))
r("n-setup-nested",(N,"""                    if call_lsetup {
                        // NLS->LSetup() aka idaNlsLSetup()
                        problem
                            .setup(y0, &self.delta, jbad)
                            .map(|jcur| self.jcur = jcur)
                    } else {
                        Ok(())
                    }
""","""                    if !call_lsetup {
                        return Ok(());
                    }
                    self.jcur = problem.setup(y0, &self.delta, jbad)?;
                    Ok(())
"""))
r("n-setup-then",(N,"""                    if call_lsetup {
                        // NLS->LSetup() aka idaNlsLSetup()
                        problem
                            .setup(y0, &self.delta, jbad)
                            .map(|jcur| self.jcur = jcur)
                    } else {
                        Ok(())
                    }
""","""                    match call_lsetup {
                        true => problem.setup(y0, &self.delta, jbad).map(|jcur| {
                            self.jcur = jcur;
                        }),
                        false => Ok(()),
                    }
"""))
r("n-unlabelled",(N,"                            continue 'inner;","                            continue;"),(N,"                    break 'outer retval;\n                }\n\n                // Otherwise","                    break retval;\n                }\n\n                // Otherwise"))
r("n-match-merged",(N,"""                Ok(_) => {
                    return retval;
                }
""","""                Ok(()) => return Ok(()),
"""))
r("n-curiter-after",(N,"                                        self.curiter += 1;\n                                        if self.curiter >= self.maxiters {\n                                            Err(Error::ConvergenceRecover {})","                                        let done = self.curiter + 1;\n                                        if done >= self.maxiters {\n                                            self.curiter = done;\n                                            Err(Error::ConvergenceRecover {})"),(N,"                                            problem.sys(y, &mut self.delta).and(Ok(false))","                                            self.curiter = done;\n                                            problem.sys(y, &mut self.delta).and(Ok(false))"))
r("n-destruct",(N,"    fn get_num_iters(&self) -> usize {\n        self.niters","    fn get_num_iters(&self) -> usize {\n        let total = &self.niters;\n        *total"))
r("n-new-struct",(N,"        Newton {\n            delta: OVector::zeros(),","        Self {\n            delta: OVector::from_element(T::zero()),"))
r("n-count-type",(N,"    niters: usize,","    niters: u64,"),(N,"        self.niters\n","        self.niters as usize\n"),(N,"newton.niters","newton.niters as usize")) if False else None
P2=[x for x in P2 if x]
