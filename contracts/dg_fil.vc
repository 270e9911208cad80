@unit la
@uses dg_hom rcc_perm rcc_fcc sortp cc
@rust
// ---- renaming the basis of a differential graded vector space ----
pub open spec fn idseq(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
// order of the rows and of the columns of map number k when dimension q is reordered by P[q] (dimensions without an entry stay)
pub open spec fn dg_rp(d: i32, P: Seq<Vec<usize>>, k: int, m: int) -> Seq<usize> { let q = if d == -1 { k - 1 } else { k }; if 0 <= q < P.len() { P[q]@ } else { idseq(m) } }
pub open spec fn dg_cp(d: i32, P: Seq<Vec<usize>>, k: int, n: int) -> Seq<usize> { let q = if d == -1 { k } else { k - 1 }; if 0 <= q < P.len() { P[q]@ } else { idseq(n) } }
pub open spec fn dg_perm_at<F: Field>(C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>, k: int) -> bool { perm_at(C.differential@[k], C2.differential@[k], dg_rp(C.degree, P, k, C.differential@[k].m as int), dg_cp(C.degree, P, k, C.differential@[k].n as int)) }
pub open spec fn dg_perm<F: Field>(C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>) -> bool { C2.degree == C.degree && C2.differential@.len() == C.differential@.len() && forall|k: int| 0 <= k < C.differential@.len() ==> #[trigger] dg_perm_at(C, C2, P, k) }
// number of basis elements of dimension k
pub open spec fn dgn<F: Field>(C: DG<F>, k: int) -> int { if C.degree == -1 { C.differential@[k].n as int } else { C.differential@[k + 1].n as int } }
pub open spec fn dg_perms_ok<F: Field>(C: DG<F>, P: Seq<Vec<usize>>) -> bool { P.len() < C.differential@.len() && forall|k: int| 0 <= k < P.len() ==> permu(#[trigger] P[k]@, dgn(C, k)) }
pub proof fn idseq_permu(n: int) requires 0 <= n <= usize::MAX ensures permu(idseq(n), n) { assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] idseq(n)[i] != #[trigger] idseq(n)[j] by { } }
pub proof fn dg_pc_permu<F: Field>(C: DG<F>, P: Seq<Vec<usize>>, k: int)
    requires dgwf(C), dg_perms_ok(C, P), 0 <= k < C.differential@.len()
    ensures permu(dg_rp(C.degree, P, k, C.differential@[k].m as int), C.differential@[k].m as int), permu(dg_cp(C.degree, P, k, C.differential@[k].n as int), C.differential@[k].n as int)
{
    let D = C.differential@; idseq_permu(D[k].m as int); idseq_permu(D[k].n as int);
    if C.degree == -1 { if k < P.len() { assert(permu(P[k]@, dgn(C, k))); } if k >= 1 { assert(D[k].m == D[k - 1].n); if k - 1 < P.len() { assert(permu(P[k - 1]@, dgn(C, k - 1))); } } }
    else { if k < P.len() { assert(permu(P[k]@, dgn(C, k))); assert(D[k + 1].n == D[k].m); } if k >= 1 && k - 1 < P.len() { assert(permu(P[k - 1]@, dgn(C, k - 1))); } }
}
pub proof fn dg_perm_wf<F: Field>(C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>)
    requires dgwf(C), dg_perm(C, C2, P)
    ensures dgwf(C2), forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C2.differential@[k]).n == C.differential@[k].n && C2.differential@[k].m == C.differential@[k].m
{
    assert forall|k: int| 0 <= k < C.differential@.len() implies cmwf(#[trigger] C2.differential@[k]) && C2.differential@[k].n == C.differential@[k].n && C2.differential@[k].m == C.differential@[k].m by { assert(dg_perm_at(C, C2, P, k)); }
    if C.degree == -1 { assert forall|k: int| 1 <= k < C2.differential@.len() implies (#[trigger] C2.differential@[k]).m == C2.differential@[k - 1].n by { assert(C.differential@[k].m == C.differential@[k - 1].n); assert(C2.differential@[k - 1].n == C.differential@[k - 1].n); } }
    else { assert forall|k: int| 1 <= k < C2.differential@.len() implies (#[trigger] C2.differential@[k]).n == C2.differential@[k - 1].m by { assert(C.differential@[k].n == C.differential@[k - 1].m); assert(C2.differential@[k - 1].m == C.differential@[k - 1].m); } }
}
// a renamed product that is zero stays zero
pub proof fn ddz_perm<F: Field>(A: CM<F>, B: CM<F>, A2: CM<F>, B2: CM<F>, r: Seq<usize>, s: Seq<usize>, c: Seq<usize>)
    requires cmwf(A), cmwf(B), ddz(A, B), A.n == B.m, perm_at(A, A2, r, s), perm_at(B, B2, s, c), permu(r, A.m as int), permu(s, A.n as int), permu(c, B.n as int)
    ensures ddz(A2, B2)
{
    assert forall|i: int, j: int| 0 <= j < B2.n implies #[trigger] prodv(A2.col@, A2.n as int, B2.col@, i, j) == F::szero() by {
        if i < 0 || i >= A2.m { assert forall|q: int| 0 <= q < A2.n implies #[trigger] cmv(A2, i, q) == F::szero() by { cmv_out(A2, i, q); } prod_zero_l(A2, B2, i, j); }
        else { assert(c[j] < B.n); assert(r[i] < A.m); prod_perm(A, B, A2, B2, s, r[i] as int, i, c[j] as int, j); assert(prodv(A.col@, A.n as int, B.col@, r[i] as int, c[j] as int) == F::szero()); }
    }
}
pub proof fn dg_perm_dd<F: Field>(C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>)
    requires dgwf(C), dgdd(C), dg_perm(C, C2, P), dg_perms_ok(C, P) ensures dgdd(C2)
{
    dg_perm_wf(C, C2, P); let D = C.differential@; let E = C2.differential@;
    assert forall|k: int| 0 <= k < E.len() - 1 implies #[trigger] dgdd_at(C2, k) by {
        assert(dgdd_at(C, k)); dg_pc_permu(C, P, k); dg_pc_permu(C, P, k + 1); assert(dg_perm_at(C, C2, P, k)); assert(dg_perm_at(C, C2, P, k + 1)); let d = C.degree;
        if d == -1 { assert(D[k + 1].m == D[k].n); assert(dg_rp(d, P, k + 1, D[k + 1].m as int) == dg_cp(d, P, k, D[k].n as int)); ddz_perm(D[k], D[k + 1], E[k], E[k + 1], dg_rp(d, P, k, D[k].m as int), dg_cp(d, P, k, D[k].n as int), dg_cp(d, P, k + 1, D[k + 1].n as int)); }
        else { assert(D[k + 1].n == D[k].m); assert(dg_rp(d, P, k, D[k].m as int) == dg_cp(d, P, k + 1, D[k + 1].n as int)); ddz_perm(D[k + 1], D[k], E[k + 1], E[k], dg_rp(d, P, k + 1, D[k + 1].m as int), dg_rp(d, P, k, D[k].m as int), dg_cp(d, P, k, D[k].n as int)); }
    }
}
// one more dimension reordered
pub proof fn perm_then_cols<F: Field>(A: CM<F>, A1: CM<F>, A2: CM<F>, r: Seq<usize>, p: Seq<usize>)
    requires perm_at(A, A1, r, idseq(A.n as int)), cmwf(A2), cols_by(A1, A2, p), permu(p, A.n as int) ensures perm_at(A, A2, r, p)
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A2, i, j) == cmv(A, r[i] as int, p[j] as int) by { assert(A2.col@[j] == A1.col@[p[j] as int]); assert(cmv(A1, i, p[j] as int) == cmv(A, r[i] as int, idseq(A.n as int)[p[j] as int] as int)); } }
pub proof fn perm_then_rows<F: Field>(A: CM<F>, A1: CM<F>, A2: CM<F>, p: Seq<usize>, c: Seq<usize>)
    requires perm_at(A, A1, idseq(A.m as int), c), rows_by(A1, A2, p), permu(p, A.m as int), permu(c, A.n as int) ensures perm_at(A, A2, p, c)
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A2, i, j) == cmv(A, p[i] as int, c[j] as int) by { assert(cmv(A2, i, j) == cmv(A1, p[i] as int, j)); assert(cmv(A1, p[i] as int, j) == cmv(A, idseq(A.m as int)[p[i] as int] as int, c[j] as int)); } }
pub proof fn dg_perm_none<F: Field>(C: DG<F>) requires dgwf(C) ensures dg_perm(C, C, Seq::<Vec<usize>>::empty())
{ assert forall|k: int| 0 <= k < C.differential@.len() implies #[trigger] dg_perm_at(C, C, Seq::<Vec<usize>>::empty(), k) by { } }
pub proof fn dg_perm_step<F: Field>(X: DG<F>, Y: DG<F>, Z: DG<F>, P: Seq<Vec<usize>>, k: int)
    requires dgwf(X), dg_perms_ok(X, P), 0 <= k < P.len(), dg_perm(X, Y, P.take(k)), Z.degree == Y.degree, Z.differential@.len() == Y.differential@.len(), dgmoved(Y, Z, P[k]@, k)
    ensures dg_perm(X, Z, P.take(k + 1))
{
    let d = X.degree; let o = dgo(d, k); let i = dgi(d, k); let Q = P.take(k); let Q2 = P.take(k + 1);
    assert forall|q: int| 0 <= q < X.differential@.len() implies #[trigger] dg_perm_at(X, Z, Q2, q) by {
        let A = X.differential@[q]; let m = A.m as int; let n = A.n as int; assert(dg_perm_at(X, Y, Q, q)); dg_pc_permu(X, P, q); assert(cmwf(A));
        if q == o { assert(dg_cp(d, Q, q, n) == idseq(n)); assert(dg_cp(d, Q2, q, n) == P[k]@); assert(dg_rp(d, Q, q, m) == dg_rp(d, Q2, q, m)); perm_then_cols(A, Y.differential@[q], Z.differential@[q], dg_rp(d, Q, q, m), P[k]@); }
        else if q == i { assert(dg_rp(d, Q, q, m) == idseq(m)); assert(dg_rp(d, Q2, q, m) == P[k]@); assert(dg_cp(d, Q, q, n) == dg_cp(d, Q2, q, n)); assert(permu(dg_cp(d, Q, q, n), n)) by { idseq_permu(n); } perm_then_rows(A, Y.differential@[q], Z.differential@[q], P[k]@, dg_cp(d, Q, q, n)); }
        else { assert(Z.differential@[q] == Y.differential@[q]); assert(dg_rp(d, Q, q, m) == dg_rp(d, Q2, q, m)); assert(dg_cp(d, Q, q, n) == dg_cp(d, Q2, q, n)); }
    }
}
// dimension k reordered by p: the columns of the map out of it and the rows of the map into it
pub open spec fn dgmoved<F: Field>(Y: DG<F>, Z: DG<F>, p: Seq<usize>, k: int) -> bool {
    let o = dgo(Y.degree, k); let i = dgi(Y.degree, k);
    &&& forall|q: int| 0 <= q < Y.differential@.len() && q != o && q != i ==> (#[trigger] Z.differential@[q]) == Y.differential@[q]
    &&& cmwf(Z.differential@[o]) && cols_by(Y.differential@[o], Z.differential@[o], p) && rows_by(Y.differential@[i], Z.differential@[i], p)
}
// O renamed by P is C and renamed by P2 is C2; R repositions P into P2
pub open spec fn repos_rel(R: Seq<Vec<usize>>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, k: int) -> bool { forall|i: int| 0 <= i < P2[k]@.len() ==> P[k]@[#[trigger] R[k]@[i] as int] == P2[k]@[i] }
pub proof fn dg_repos<F: Field>(O: DG<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>, Q: Seq<Vec<usize>>)
    requires dgwf(O), dg_perms_ok(O, P), dg_perms_ok(O, P2), P2.len() == P.len(), Q.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> inverse_of(#[trigger] Q[k]@, P[k]@), repos_all(R, Q, P2)
    ensures dg_perms_ok(O, R), R.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> #[trigger] repos_rel(R, P, P2, k)
{
    assert forall|k: int| 0 <= k < P.len() implies permu(#[trigger] R[k]@, dgn(O, k)) && repos_rel(R, P, P2, k) by { assert(permu(P[k]@, dgn(O, k))); assert(permu(P2[k]@, dgn(O, k))); assert(inverse_of(Q[k]@, P[k]@)); assert(repos_at(R, Q, P2, k)); repos_ok(R[k]@, Q[k]@, P[k]@, P2[k]@, dgn(O, k)); }
    assert forall|k: int| 0 <= k < P.len() implies #[trigger] repos_rel(R, P, P2, k) by { assert(permu(R[k]@, dgn(O, k))); }
}
pub proof fn dg_rc_rel<F: Field>(O: DG<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>, k: int)
    requires dgwf(O), dg_perms_ok(O, P), dg_perms_ok(O, P2), dg_perms_ok(O, R), P2.len() == P.len(), R.len() == P.len(), forall|q: int| 0 <= q < P.len() ==> #[trigger] repos_rel(R, P, P2, q), 0 <= k < O.differential@.len()
    ensures ({ let m = O.differential@[k].m as int; let n = O.differential@[k].n as int; let d = O.degree;
        &&& forall|i: int| 0 <= i < m ==> 0 <= (#[trigger] dg_rp(d, R, k, m)[i]) < m && dg_rp(d, P, k, m)[dg_rp(d, R, k, m)[i] as int] == dg_rp(d, P2, k, m)[i]
        &&& forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] dg_cp(d, R, k, n)[i]) < n && dg_cp(d, P, k, n)[dg_cp(d, R, k, n)[i] as int] == dg_cp(d, P2, k, n)[i] })
{
    let m = O.differential@[k].m as int; let n = O.differential@[k].n as int; let d = O.degree; dg_pc_permu(O, R, k); dg_pc_permu(O, P2, k);
    let a = if d == -1 { k - 1 } else { k }; let b = if d == -1 { k } else { k - 1 };
    if 0 <= a < P.len() { assert(repos_rel(R, P, P2, a)); } if 0 <= b < P.len() { assert(repos_rel(R, P, P2, b)); }
}
pub proof fn dg_repos_fwd<F: Field>(O: DG<F>, C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>)
    requires dgwf(O), dg_perm(O, C, P), dg_perm(O, C2, P2), dg_perms_ok(O, P), dg_perms_ok(O, P2), dg_perms_ok(O, R), P2.len() == P.len(), R.len() == P.len(), forall|q: int| 0 <= q < P.len() ==> #[trigger] repos_rel(R, P, P2, q)
    ensures dg_perm(C, C2, R), dg_perms_ok(C, R)
{
    dg_perm_wf(O, C, P); dg_perm_wf(O, C2, P2); let d = O.degree;
    assert forall|k: int| 0 <= k < C.differential@.len() implies #[trigger] dg_perm_at(C, C2, R, k) by {
        let B = O.differential@[k]; let m = B.m as int; let n = B.n as int; assert(dg_perm_at(O, C, P, k)); assert(dg_perm_at(O, C2, P2, k)); dg_rc_rel(O, P, P2, R, k); assert(C.differential@[k].m == m && C.differential@[k].n == n);
        assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] cmv(C2.differential@[k], i, j) == cmv(C.differential@[k], dg_rp(d, R, k, m)[i] as int, dg_cp(d, R, k, n)[j] as int) by { let a = dg_rp(d, R, k, m)[i] as int; let b = dg_cp(d, R, k, n)[j] as int; assert(cmv(C.differential@[k], a, b) == cmv(B, dg_rp(d, P, k, m)[a] as int, dg_cp(d, P, k, n)[b] as int)); }
    }
    assert forall|k: int| 0 <= k < R.len() implies permu(#[trigger] R[k]@, dgn(C, k)) by { assert(permu(R[k]@, dgn(O, k))); let q = if d == -1 { k } else { k + 1 }; assert(C.differential@[q].n == O.differential@[q].n); }
}
pub proof fn dg_repos_back<F: Field>(O: DG<F>, C: DG<F>, C2: DG<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>)
    requires dgwf(O), dg_perm(O, C, P), dg_perm(C, C2, R), dg_perms_ok(O, P), dg_perms_ok(O, P2), dg_perms_ok(O, R), P2.len() == P.len(), R.len() == P.len(), forall|q: int| 0 <= q < P.len() ==> #[trigger] repos_rel(R, P, P2, q)
    ensures dg_perm(O, C2, P2)
{
    dg_perm_wf(O, C, P); let d = O.degree;
    assert forall|k: int| 0 <= k < C.differential@.len() implies #[trigger] dg_perm_at(O, C2, P2, k) by {
        let B = O.differential@[k]; let m = B.m as int; let n = B.n as int; assert(dg_perm_at(O, C, P, k)); assert(dg_perm_at(C, C2, R, k)); dg_rc_rel(O, P, P2, R, k); assert(C.differential@[k].m == m && C.differential@[k].n == n);
        assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] cmv(C2.differential@[k], i, j) == cmv(B, dg_rp(d, P2, k, m)[i] as int, dg_cp(d, P2, k, n)[j] as int) by { let a = dg_rp(d, R, k, m)[i] as int; let b = dg_cp(d, R, k, n)[j] as int; assert(cmv(C2.differential@[k], i, j) == cmv(C.differential@[k], a, b)); assert(cmv(C.differential@[k], a, b) == cmv(B, dg_rp(d, P, k, m)[a] as int, dg_cp(d, P, k, n)[b] as int)); }
    }
}
// ---- repairing a reduction after renaming ----
pub open spec fn dg_pfit<F: Field>(X: RDG<F>, P: Seq<Vec<usize>>) -> bool {
    &&& (X.degree == -1 || X.degree == 1) && X.R@.len() > 0 && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && P.len() == X.R@.len() - 1
    &&& forall|k: int| 0 <= k < X.R@.len() ==> #[trigger] dg_pfit_at(X, k)
    &&& forall|k: int| 0 <= k < P.len() ==> permu(#[trigger] P[k]@, X.R@[dgo(X.degree, k)].n as int)
    &&& X.degree == -1 ==> X.R@[X.R@.len() - 1].n == 0
}
pub open spec fn dg_pfit_at<F: Field>(X: RDG<F>, k: int) -> bool { cmwf(X.R@[k]) && trimat(true, X.U@[k]) && X.U@[k].n == X.R@[k].n && reduced(X.R@[k], X.p2c@[k]@) && (X.degree == -1 && k > 0 ==> X.R@[k].m == X.R@[k - 1].n) && (X.degree == 1 && k > 0 ==> X.R@[k].n == X.R@[k - 1].m) }
pub proof fn dg_of_pfit<F: Field>(C: DG<F>, X: RDG<F>, P: Seq<Vec<usize>>)
    requires dg_of(C, X), dg_perms_ok(C, P), P.len() == C.differential@.len() - 1, C.degree == -1 ==> C.differential@[C.differential@.len() - 1].n == 0 ensures dg_pfit(X, P)
{ let D = C.differential@;
  assert forall|k: int| 0 <= k < X.R@.len() implies #[trigger] dg_pfit_at(X, k) by { assert(bas_at(D[k], X.R@[k], X.U@[k])); assert(red_at(D[k], X.R@[k], X.p2c@[k]@)); if k > 0 { assert(red_at(D[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); assert(cmwf(D[k])); } }
  assert forall|k: int| 0 <= k < P.len() implies permu(#[trigger] P[k]@, X.R@[dgo(X.degree, k)].n as int) by { assert(permu(P[k]@, dgn(C, k))); let q = dgo(X.degree, k); assert(red_at(D[q], X.R@[q], X.p2c@[q]@)); }
  let l = D.len() - 1; assert(red_at(D[l], X.R@[l], X.p2c@[l]@)); }
pub open spec fn dg_permuted_at<F: Field>(X: RDG<F>, U2: CM<F>, R2: CM<F>, P: Seq<Vec<usize>>, k: int) -> bool { rows_by(X.U@[k], U2, dg_cp(X.degree, P, k, X.U@[k].m as int)) && rows_by(X.R@[k], R2, dg_rp(X.degree, P, k, X.R@[k].m as int)) }
pub proof fn rows_by_id<F: Field>(A: CM<F>, A1: CM<F>, A2: CM<F>, p: Seq<usize>) requires cmwf(A), rows_by(A, A1, idseq(A.m as int)), rows_by(A1, A2, p), permu(p, A.m as int) ensures rows_by(A, A2, p)
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A2, i, j) == cmv(A, p[i] as int, j) by { assert(cmv(A2, i, j) == cmv(A1, p[i] as int, j)); assert(cmv(A1, p[i] as int, j) == cmv(A, idseq(A.m as int)[p[i] as int] as int, j)); } }
pub open spec fn dg_rmoved<F: Field>(Y: RDG<F>, Z: RDG<F>, p: Seq<usize>, k: int) -> bool {
    let o = dgo(Y.degree, k); let i = dgi(Y.degree, k);
    &&& Z.degree == Y.degree && Z.I == Y.I && Z.p2c == Y.p2c && Z.R@.len() == Y.R@.len() && Z.U@.len() == Y.U@.len()
    &&& forall|q: int| 0 <= q < Y.R@.len() && q != i ==> (#[trigger] Z.R@[q]) == Y.R@[q]
    &&& forall|q: int| 0 <= q < Y.U@.len() && q != o ==> (#[trigger] Z.U@[q]) == Y.U@[q]
    &&& rows_by(Y.U@[o], Z.U@[o], p) && rows_by(Y.R@[i], Z.R@[i], p)
}
pub open spec fn dg_permuted<F: Field>(X: RDG<F>, Y: RDG<F>, P: Seq<Vec<usize>>) -> bool { Y.degree == X.degree && Y.I == X.I && Y.p2c == X.p2c && Y.R@.len() == X.R@.len() && Y.U@.len() == X.U@.len() && forall|k: int| 0 <= k < X.R@.len() ==> dg_permuted_at(X, #[trigger] Y.U@[k], Y.R@[k], P, k) }
pub proof fn dg_permuted_none<F: Field>(X: RDG<F>, P: Seq<Vec<usize>>) requires dg_pfit(X, P) ensures dg_permuted(X, X, Seq::<Vec<usize>>::empty())
{ assert forall|k: int| 0 <= k < X.R@.len() implies dg_permuted_at(X, #[trigger] X.U@[k], X.R@[k], Seq::<Vec<usize>>::empty(), k) by { assert(dg_pfit_at(X, k)); } }
pub proof fn dg_permuted_step<F: Field>(X: RDG<F>, Y: RDG<F>, Z: RDG<F>, P: Seq<Vec<usize>>, k: int)
    requires dg_pfit(X, P), 0 <= k < P.len(), dg_permuted(X, Y, P.take(k)), dg_rmoved(Y, Z, P[k]@, k)
    ensures dg_permuted(X, Z, P.take(k + 1))
{
    let d = X.degree; let o = dgo(d, k); let i = dgi(d, k); let Q = P.take(k); let Q2 = P.take(k + 1);
    assert forall|q: int| 0 <= q < X.R@.len() implies dg_permuted_at(X, #[trigger] Z.U@[q], Z.R@[q], Q2, q) by {
        assert(dg_permuted_at(X, Y.U@[q], Y.R@[q], Q, q)); assert(dg_pfit_at(X, q)); dg_pfit_perm(X, P, k); let m = X.R@[q].m as int; let n = X.U@[q].m as int;
        if q == o { assert(dg_cp(d, Q, q, n) == idseq(n)); assert(dg_cp(d, Q2, q, n) == P[k]@); rows_by_id(X.U@[q], Y.U@[q], Z.U@[q], P[k]@); } else { assert(dg_cp(d, Q, q, n) == dg_cp(d, Q2, q, n)); assert(Z.U@[q] == Y.U@[q]); }
        if q == i { assert(dg_rp(d, Q, q, m) == idseq(m)); assert(dg_rp(d, Q2, q, m) == P[k]@); rows_by_id(X.R@[q], Y.R@[q], Z.R@[q], P[k]@); } else { assert(dg_rp(d, Q, q, m) == dg_rp(d, Q2, q, m)); assert(Z.R@[q] == Y.R@[q]); }
    }
}
pub proof fn dg_pfit_perm<F: Field>(X: RDG<F>, P: Seq<Vec<usize>>, k: int)
    requires dg_pfit(X, P), 0 <= k < P.len()
    ensures permu(P[k]@, X.U@[dgo(X.degree, k)].m as int), permu(P[k]@, X.R@[dgi(X.degree, k)].m as int), cmwf(X.U@[dgo(X.degree, k)]), cmwf(X.R@[dgi(X.degree, k)])
{ let o = dgo(X.degree, k); let i = dgi(X.degree, k); assert(dg_pfit_at(X, o)); assert(dg_pfit_at(X, i)); assert(permu(P[k]@, X.R@[o].n as int)); }
// one map of the renamed space and its updated reduction
pub proof fn dg_update_at<F: Field>(B: CM<F>, B2: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, r: Seq<usize>, c: Seq<usize>, U1: CM<F>, R1: CM<F>, U2: CM<F>, R2: CM<F>, p2: Seq<usize>)
    requires cmwf(B), red_at(B, R, p), bas_at(B, R, U), perm_at(B, B2, r, c), permu(r, B.m as int), permu(c, B.n as int), rows_by(U, U1, c), rows_by(R, R1, r), updated_at(U1, R1, U2, R2, p2)
    ensures red_at(B2, R2, p2), bas_at(B2, R2, U2)
{
    let n = B.n as int;
    assert forall|i: int, j: int| 0 <= j < R1.n implies #[trigger] cmv(R1, i, j) == prodv(B2.col@, B2.n as int, U1.col@, i, j) by {
        if i < 0 || i >= B.m { assert forall|q: int| 0 <= q < n implies #[trigger] cmv(B2, i, q) == F::szero() by { cmv_out(B2, i, q); } prod_zero_l(B2, U1, i, j); cmv_out(R1, i, j); }
        else { let i0 = r[i] as int; assert(r[i] < B.m); assert(cmv(R1, i, j) == cmv(R, i0, j)); assert(cmv(R, i0, j) == prodv(B.col@, B.n as int, U.col@, i0, j)); prod_perm(B, U, B2, U1, c, i0, i, j, j); }
    }
    assert(is_prod(B2, U1, R1)); assert(is_prod(B2, U2, R2)); prod_pivots(B2, U2, R2, p2);
}
// a map that did not move, or without columns
pub proof fn dg_perm_ok_one<F: Field>(C: DG<F>, C2: DG<F>, X: RDG<F>, Y: RDG<F>, X2: RDG<F>, P: Seq<Vec<usize>>, k: int)
    requires dg_of(C, X), dg_perm(C, C2, P), dg_perms_ok(C, P), dg_permuted(X, Y, P), 0 <= k < C.differential@.len(), X2.R@.len() == X.R@.len(), X2.U@.len() == X.R@.len(), X2.p2c@.len() == X.R@.len(),
        updated_at(Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@)
    ensures red_at(C2.differential@[k], X2.R@[k], X2.p2c@[k]@), bas_at(C2.differential@[k], X2.R@[k], X2.U@[k])
{
    let B = C.differential@[k]; dg_pc_permu(C, P, k); assert(dg_perm_at(C, C2, P, k)); assert(red_at(B, X.R@[k], X.p2c@[k]@)); assert(bas_at(B, X.R@[k], X.U@[k])); assert(dg_permuted_at(X, Y.U@[k], Y.R@[k], P, k));
    dg_update_at(B, C2.differential@[k], X.R@[k], X.U@[k], X.p2c@[k]@, dg_rp(C.degree, P, k, B.m as int), dg_cp(C.degree, P, k, B.n as int), Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@);
}
pub open spec fn dg_updated<F: Field>(Y: RDG<F>, X2: RDG<F>) -> bool { X2.degree == Y.degree && X2.R@.len() == Y.R@.len() && X2.U@.len() == Y.R@.len() && X2.p2c@.len() == Y.R@.len() && forall|k: int| 0 <= k < Y.R@.len() ==> updated_at(#[trigger] Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@) }
pub proof fn dg_update_ok<F: Field>(C: DG<F>, C2: DG<F>, X: RDG<F>, Y: RDG<F>, X2: RDG<F>, P: Seq<Vec<usize>>)
    requires dg_of(C, X), dg_perm(C, C2, P), dg_perms_ok(C, P), dg_permuted(X, Y, P), dg_updated(Y, X2), dg_gens(X2)
    ensures dg_of(C2, X2)
{
    dg_perm_wf(C, C2, P); dg_perm_dd(C, C2, P);
    assert forall|k: int| 0 <= k < C2.differential@.len() implies #[trigger] red_at(C2.differential@[k], X2.R@[k], X2.p2c@[k]@) by { assert(updated_at(Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@)); dg_perm_ok_one(C, C2, X, Y, X2, P, k); }
    assert forall|k: int| 0 <= k < C2.differential@.len() implies #[trigger] bas_at(C2.differential@[k], X2.R@[k], X2.U@[k]) by { assert(updated_at(Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@)); dg_perm_ok_one(C, C2, X, Y, X2, P, k); }
}
// an upper triangular basis needs no change: the empty update
pub proof fn updated_same<F: Field>(U: CM<F>, R: CM<F>, p: Seq<usize>) requires trimat(true, U), cmwf(R), reduced(R, p) ensures updated_at(U, R, U, R, p) { }
pub proof fn reduced_nocols<F: Field>(R: CM<F>, R2: CM<F>, p: Seq<usize>) requires reduced(R, p), R.n == 0, R2.n == 0, R2.m == R.m, cmwf(R2), cmwf(R) ensures reduced(R2, p) { }
// whatever space X reduces, X2 reduces its renaming
pub open spec fn dg_perm_ok<F: Field>(X: RDG<F>, X2: RDG<F>, P: Seq<Vec<usize>>) -> bool { forall|C: DG<F>, C2: DG<F>| #[trigger] dg_of(C, X) && #[trigger] dg_perm(C, C2, P) && dg_perms_ok(C, P) ==> dg_of(C2, X2) }
@end
@fn DG<F>::ipermute_basis(i64, Vec<usize>) as dg_iperm_k
@prop P12 P18
@opt wrap=1
@requires
  dgwf(*old(this)), 0 <= k, k + 1 < old(this).differential@.len(), permu(perm@, dgn(*old(this), k as int))
@ensures
  final(this).degree == old(this).degree, final(this).differential@.len() == old(this).differential@.len(), dgmoved(*old(this), *final(this), perm@, k as int)
@at entry
  let ghost X = *this; let ghost kk = k as int;
  proof { vec_max(this.differential); assert(this.differential.len() == this.differential@.len()); permu_isperm(perm@, perm@.len() as int); let D = this.differential@; assert(cmwf(D[kk])); assert(cmwf(D[kk + 1])); if X.degree == -1 { assert(D[kk + 1].m == D[kk].n); } else { assert(D[kk + 1].n == D[kk].m); } assert forall|r: Seq<usize>| #[trigger] permu(r, perm@.len() as int) implies isperm_usize(r) by { permu_isperm(r, perm@.len() as int); } }
@at exit
  proof { let i = dgi(X.degree, kk); let A = X.differential@[i]; let A2 = this.differential@[i]; let p = perm@; let q = choose|q: Seq<usize>| #[trigger] q.len() == p.len() && (forall|j: int| 0 <= j < p.len() ==> q[#[trigger] p[j] as int] == j) && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> cmv(A2, q[i] as int, j) == #[trigger] cmv(A, i, j); rows_by_inv(A, A2, p, q); }
@fn DG<F>::ipermute_basis(Vec<Vec<usize>>) as dg_iperm
@prop P12 P18
@opt wrap=1
@requires
  dgwf(*old(this)), dg_perms_ok(*old(this), perm@)
@ensures
  dgwf(*final(this)), dg_perm(*old(this), *final(this), perm@)
@at entry
  let ghost X = *this; proof { dg_perm_none(X); assert(perm@.take(0) =~= Seq::<Vec<usize>>::empty()); assert(this.differential.len() == this.differential@.len()); vec_max(this.differential); }
@loop 0
  invariant k <= perm@.len(), dgwf(X), dg_perms_ok(X, perm@), dgwf(*this), dg_perm(X, *this, perm@.take(k as int)), X.differential@.len() <= i64::MAX,
  decreases perm@.len() - k
@at loop 0 begin
  let ghost Y = *this; let ghost kk = k as int;
  proof { assert(permu(perm@[kk]@, dgn(X, kk))); dg_perm_wf(X, Y, perm@.take(kk)); assert(dgn(Y, kk) == dgn(X, kk)) by { let q = dgo(X.degree, kk); assert(Y.differential@[q].n == X.differential@[q].n); } }
@at loop 0 end
  proof { dg_perm_step(X, Y, *this, perm@, kk); dg_perm_wf(X, *this, perm@.take(kk + 1)); }
@at exit
  proof { assert(perm@.take(perm@.len() as int) =~= perm@); }
@fn RDG<F>::_make_U_upper_triangular(usize) as rdg_upper
@prop P18
@opt rlimit=60
@requires
  k < old(this).R@.len(), old(this).U@.len() == old(this).R@.len(), old(this).p2c@.len() == old(this).R@.len(), cmwf(old(this).R@[k as int]), cmwf(old(this).U@[k as int]), old(this).R@[k as int].n == old(this).U@[k as int].n, old(this).U@[k as int].m == old(this).U@[k as int].n, indep(old(this).U@[k as int])
@ensures
  final(this).I == old(this).I, final(this).degree == old(this).degree, final(this).R@.len() == old(this).R@.len(), final(this).U@.len() == old(this).R@.len(), final(this).p2c@.len() == old(this).R@.len(),
  forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).R@[q]) == old(this).R@[q], forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).U@[q]) == old(this).U@[q], forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).p2c@[q]) == old(this).p2c@[q],
  trimat(true, final(this).U@[k as int]), final(this).U@[k as int].n == old(this).U@[k as int].n, cmwf(final(this).R@[k as int]), final(this).R@[k as int].n == old(this).R@[k as int].n, final(this).R@[k as int].m == old(this).R@[k as int].m,
  keeps_prod(old(this).U@[k as int], old(this).R@[k as int], final(this).U@[k as int], final(this).R@[k as int])

@at entry
  let ghost T0 = *this; let ghost U0 = this.U@[k as int]; let ghost R0 = this.R@[k as int]; let ghost n = U0.n as int;
@at after red_std_u 0
  proof { let U1 = this.U@[k as int]; let R1 = this.R@[k as int]; let V = choose|V: spec_fn(int, int) -> F| redrel2(n, V, U0.col@, U1.col@, R0.col@, R1.col@); red_keeps(U0, R0, U1, R1, V);
    assert forall|c: int| 0 <= c < n implies (#[trigger] U1.col@[c]).indval@.len() > 0 by { comb_nonzero(U0, U1, V, c); }
    reduced_pivperm(U1, r_red_std_u_0@); }
@loop 0
  invariant 0 <= j <= n, this.I == T0.I, this.degree == T0.degree, this.R@.len() == T0.R@.len(), this.U@.len() == T0.R@.len(), this.p2c@.len() == T0.R@.len(), k < T0.R@.len(),
    forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.R@[q]) == T0.R@[q], forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.U@[q]) == T0.U@[q], forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.p2c@[q]) == T0.p2c@[q],
    cmwf(this.U@[k as int]), cmwf(this.R@[k as int]), this.U@[k as int].n == n, this.U@[k as int].m == n, this.R@[k as int].n == n, this.R@[k as int].m == R0.m, keeps_prod(U0, R0, this.U@[k as int], this.R@[k as int]),
    pivperm(this.U@[k as int], this.p2c@[k as int]@), forall|r: int| 0 <= r < j ==> #[trigger] this.p2c@[k as int]@[r] == r,
  decreases n - j
@at loop 0 begin
  let ghost Ua = this.U@[k as int]; let ghost Ra = this.R@[k as int]; let ghost pa = this.p2c@[k as int]@;
  proof { assert(Ua.col@[j as int].indval@.len() > 0); assert(pa[low(Ua.col@[j as int].indval@)] == j); assert(sc(Ua.col@[j as int].indval@, n)); sc_some(Ua.col@[j as int].indval@, n, Ua.col@[j as int].indval@.len() - 1); assert(pa[j as int] < n); }
@at loop 0 end
  proof { let Ub = this.U@[k as int]; let Rb = this.R@[k as int]; let pb = this.p2c@[k as int]@; let pp = pa[j as int] as int; let pj = low(Ua.col@[j as int].indval@);
    if pp != j { swap_keeps(Ua, Ra, Ub, Rb, pp, j as int); }
    if pp != j {
      assert(low(Ua.col@[pp].indval@) == j);
      assert(pj != j); assert(pj >= j) by { if pj < j { assert(pa[pj] == pj); } }
      assert forall|c: int| 0 <= c < n implies (#[trigger] Ub.col@[c]).indval@.len() > 0 && pb[low(Ub.col@[c].indval@)] == c by { let q = if c == pp { j as int } else if c == j { pp } else { c }; assert(Ub.col@[c] == Ua.col@[q]); assert(Ua.col@[q].indval@.len() > 0 && pa[low(Ua.col@[q].indval@)] == q); }
      assert forall|r: int| 0 <= r < n implies (#[trigger] pb[r]) < n && low(Ub.col@[pb[r] as int].indval@) == r by { assert(pa[r] < n && low(Ua.col@[pa[r] as int].indval@) == r); let c = pb[r] as int; let q = if c == pp { j as int } else if c == j { pp } else { c }; assert(Ub.col@[c] == Ua.col@[q]); }
    } }
@at before return 0
  proof { pivperm_tri(this.U@[k as int], this.p2c@[k as int]@); }
@fn RDG<F>::update_reduction2(usize) as rdg_update2
@prop P18
@opt wrap=1
@requires
  (old(this).degree == -1 || old(this).degree == 1), k + 1 < old(this).R@.len(), old(this).U@.len() == old(this).R@.len(), old(this).p2c@.len() == old(this).R@.len(), ({ let o = dgo(old(this).degree, k as int); cmwf(old(this).R@[o]) && cmwf(old(this).U@[o]) && old(this).R@[o].n == old(this).U@[o].n && old(this).U@[o].m == old(this).U@[o].n && indep(old(this).U@[o]) })
@ensures
  final(this).I == old(this).I, final(this).degree == old(this).degree, final(this).R@.len() == old(this).R@.len(), final(this).U@.len() == old(this).R@.len(), final(this).p2c@.len() == old(this).R@.len(),
  ({ let o = dgo(old(this).degree, k as int);
  &&& forall|q: int| 0 <= q < old(this).R@.len() && q != o ==> (#[trigger] final(this).R@[q]) == old(this).R@[q]
  &&& forall|q: int| 0 <= q < old(this).R@.len() && q != o ==> (#[trigger] final(this).U@[q]) == old(this).U@[q]
  &&& forall|q: int| 0 <= q < old(this).R@.len() && q != o ==> (#[trigger] final(this).p2c@[q]) == old(this).p2c@[q]
  &&& updated_at(old(this).U@[o], old(this).R@[o], final(this).U@[o], final(this).R@[o], final(this).p2c@[o]@) })
@at entry
  let ghost X0 = *this; proof { assert(this.R.len() == this.R@.len()); }
@at before red_u 0
  let ghost U2 = this.U@[k_ind as int]; let ghost R2 = this.R@[k_ind as int];
@at after red_u 0
  proof { let U3 = this.U@[k_ind as int]; let R3 = this.R@[k_ind as int]; red_fin(X0.U@[k_ind as int], X0.R@[k_ind as int], U2, R2, U3, R3); }
@rust
pub proof fn red_fin<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>, U3: CM<F>, R3: CM<F>)
    requires keeps_prod(U, R, U2, R2), trimat(true, U2), U2.n == R2.n, exists|V: spec_fn(int, int) -> F| redrel2(U2.n as int, V, R2.col@, R3.col@, U2.col@, U3.col@), R3.n == R2.n, U3.n == U2.n, U2.m == U.m
    ensures keeps_prod(U, R, U3, R3)
{ let V = choose|V: spec_fn(int, int) -> F| redrel2(U2.n as int, V, R2.col@, R3.col@, U2.col@, U3.col@); red_keeps(U2, R2, U3, R3, V); }
@end
@fn RDG<F>::permute_matrices(usize, Vec<usize>) as rdg_perm_k
@prop P18
@opt wrap=1
@requires
  (old(this).degree == -1 || old(this).degree == 1), k + 1 < old(this).R@.len(), old(this).U@.len() == old(this).R@.len(), ({ let o = dgo(old(this).degree, k as int); let i = dgi(old(this).degree, k as int); cmwf(old(this).U@[o]) && permu(perm@, old(this).U@[o].m as int) && cmwf(old(this).R@[i]) && permu(perm@, old(this).R@[i].m as int) })
@ensures
  dg_rmoved(*old(this), *final(this), perm@, k as int)
@at entry
  let ghost X = *this; proof { assert(this.R.len() == this.R@.len()); }
@at after inv_perm 0
  let ghost iv = r_inv_perm_0@;
  proof { permu_isperm(iv, iv.len() as int); }
@at exit
  proof { let o = dgo(X.degree, k as int); let i = dgi(X.degree, k as int); rows_by_inv(X.U@[o], this.U@[o], perm@, iv); rows_by_inv(X.R@[i], this.R@[i], perm@, iv); }
@fn RDG<F>::permute_basis(Vec<Vec<usize>>) as rdg_perm
@prop P18
@opt rlimit=60 wrap=1
@requires
  dg_pfit(*old(this), perm@)
@ensures
  dg_perm_ok(*old(this), *final(this), perm@), final(this).R@.len() == old(this).R@.len(), final(this).degree == old(this).degree
@at entry
  let ghost X = *this; let ghost L = this.R@.len(); let ghost mut Y = *this; let ghost mut Z2 = *this;
  proof { dg_permuted_none(X, perm@); assert(perm@.take(0) =~= Seq::<Vec<usize>>::empty()); }
@loop 0
  invariant k <= perm@.len(), perm@.len() == L - 1, dg_pfit(X, perm@), X.R@.len() == L, dg_permuted(X, *this, perm@.take(k as int)),
  decreases L - k
@at loop 0 begin
  let ghost Z = *this; let ghost kk = k as int;
  proof { let o = dgo(X.degree, kk); let i = dgi(X.degree, kk); dg_pfit_perm(X, perm@, kk); assert(dg_permuted_at(X, Z.U@[o], Z.R@[o], perm@.take(kk), o)); assert(dg_permuted_at(X, Z.U@[i], Z.R@[i], perm@.take(kk), i)); }
@at loop 0 end
  proof { dg_permuted_step(X, Z, *this, perm@, kk); }
@at loop 0 after
  proof { Y = *this; assert(perm@.take(perm@.len() as int) =~= perm@); }
@loop 1
  invariant k <= perm@.len(), perm@.len() == L - 1, dg_pfit(X, perm@), X.R@.len() == L, dg_permuted(X, Y, perm@), this.degree == X.degree, this.I == X.I, this.R@.len() == L, this.U@.len() == L, this.p2c@.len() == L,
    forall|q: int| 0 <= q < L && !(dgo(X.degree, 0) <= q < dgo(X.degree, k as int)) ==> (#[trigger] this.U@[q]) == Y.U@[q] && this.R@[q] == Y.R@[q] && this.p2c@[q] == Y.p2c@[q],
    forall|q: int| dgo(X.degree, 0) <= q < dgo(X.degree, k as int) ==> updated_at(#[trigger] Y.U@[q], Y.R@[q], this.U@[q], this.R@[q], this.p2c@[q]@),
  decreases L - k
@at loop 1 begin
  let ghost Z = *this;
  proof { let o = dgo(X.degree, k as int); dg_indep_at(X, Y, perm@, o); assert(this.U@[o] == Y.U@[o]); }
@at loop 1 end
  proof { assert forall|q: int| dgo(X.degree, 0) <= q < dgo(X.degree, k + 1) implies updated_at(#[trigger] Y.U@[q], Y.R@[q], this.U@[q], this.R@[q], this.p2c@[q]@) by { if q < dgo(X.degree, k as int) { assert(updated_at(Y.U@[q], Y.R@[q], Z.U@[q], Z.R@[q], Z.p2c@[q]@)); assert(this.U@[q] == Z.U@[q]); } }
    assert forall|q: int| 0 <= q < L && !(dgo(X.degree, 0) <= q < dgo(X.degree, k + 1)) implies (#[trigger] this.U@[q]) == Y.U@[q] && this.R@[q] == Y.R@[q] && this.p2c@[q] == Y.p2c@[q] by { assert(Z.U@[q] == Y.U@[q]); assert(this.R@[q] == Z.R@[q]); assert(this.p2c@[q] == Z.p2c@[q]); } }
@at loop 1 after
  proof { Z2 = *this; dg_indep_at(X, Y, perm@, 0); if X.degree == -1 { dg_indep_at(X, Y, perm@, L - 1); assert(this.U@[L - 1] == Y.U@[L - 1]); assert(dg_pfit_at(X, L - 1)); assert(dg_permuted_at(X, Y.U@[L - 1], Y.R@[L - 1], perm@, L - 1)); reduced_nocols(X.R@[L - 1], Y.R@[L - 1], X.p2c@[L - 1]@); } else { assert(this.U@[0] == Y.U@[0]); } }
@at before rdg_set_indices 0
  proof { let Z3 = *this;
    assert forall|q: int| 0 <= q < L implies updated_at(#[trigger] Y.U@[q], Y.R@[q], Z3.U@[q], Z3.R@[q], Z3.p2c@[q]@) by {
      if X.degree == -1 { if q < L - 1 { assert(updated_at(Y.U@[q], Y.R@[q], Z2.U@[q], Z2.R@[q], Z2.p2c@[q]@)); } else { dg_top_tri(X, Y, perm@, q); let U = Y.U@[q]; let R = Y.R@[q]; assert(Z3.U@[q] == U); assert(Z3.R@[q] == R); assert(Z3.p2c@[q] == Y.p2c@[q]); assert(Y.p2c@[q] == X.p2c@[q]); assert(reduced(R, Y.p2c@[q]@)); assert(cmwf(R)); assert(keeps_prod(U, R, U, R)); assert(updated_at(U, R, U, R, Y.p2c@[q]@)); } }
      else if q > 0 { assert(updated_at(Y.U@[q], Y.R@[q], Z2.U@[q], Z2.R@[q], Z2.p2c@[q]@)); assert(Z3.U@[q] == Z2.U@[q]); }
      else { dg_top_tri(X, Y, perm@, 0); assert(trimat(true, Z3.U@[0])); assert(Z3.U@[0].n == Y.U@[0].n); assert(cmwf(Z3.R@[0])); assert(reduced(Z3.R@[0], Z3.p2c@[0]@)); dg_red_keeps(Y.U@[0], Y.R@[0], Z3.U@[0], Z3.R@[0]); } }
    assert(dg_updated(Y, Z3)); dg_updated_fit(X, Y, Z3, perm@); }
@at exit
  proof { assert(dg_updated(Y, *this)); assert forall|C: DG<F>, C2: DG<F>| #[trigger] dg_of(C, X) && #[trigger] dg_perm(C, C2, perm@) && dg_perms_ok(C, perm@) implies dg_of(C2, *this) by { dg_update_ok(C, C2, X, Y, *this, perm@); } }
@rust
pub proof fn dg_red_keeps<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>)
    requires exists|V: spec_fn(int, int) -> F| redrel2(U.n as int, V, R.col@, R2.col@, U.col@, U2.col@), R.n == U.n, R2.n == R.n, U2.n == U.n
    ensures keeps_prod(U, R, U2, R2)
{ let V = choose|V: spec_fn(int, int) -> F| redrel2(U.n as int, V, R.col@, R2.col@, U.col@, U2.col@); red_keeps(U, R, U2, R2, V); }
pub proof fn dg_indep_at<F: Field>(X: RDG<F>, Y: RDG<F>, P: Seq<Vec<usize>>, q: int)
    requires dg_pfit(X, P), dg_permuted(X, Y, P), 0 <= q < X.R@.len()
    ensures cmwf(Y.R@[q]), cmwf(Y.U@[q]), Y.R@[q].n == X.R@[q].n, Y.R@[q].m == X.R@[q].m, Y.U@[q].n == X.R@[q].n, Y.U@[q].m == Y.U@[q].n, indep(Y.U@[q])
{
    assert(dg_pfit_at(X, q)); assert(dg_permuted_at(X, Y.U@[q], Y.R@[q], P, q)); tri_indep(X.U@[q]); let d = X.degree; let n = X.U@[q].m as int; idseq_permu(n);
    let a = if d == -1 { q } else { q - 1 }; if 0 <= a < P.len() { assert(permu(P[a]@, X.R@[dgo(d, a)].n as int)); }
    rows_indep(X.U@[q], Y.U@[q], dg_cp(d, P, q, n));
}
// the basis of a map whose columns are not reordered keeps its shape
pub proof fn dg_top_tri<F: Field>(X: RDG<F>, Y: RDG<F>, P: Seq<Vec<usize>>, q: int)
    requires dg_pfit(X, P), dg_permuted(X, Y, P), 0 <= q < X.R@.len(), X.degree == -1 && q == X.R@.len() - 1 || X.degree == 1 && q == 0
    ensures trimat(true, Y.U@[q])
{
    assert(dg_pfit_at(X, q)); assert(dg_permuted_at(X, Y.U@[q], Y.R@[q], P, q)); let U = X.U@[q]; let U2 = Y.U@[q]; let n = U.m as int; assert(dg_cp(X.degree, P, q, n) == idseq(n));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] cmv(U2, i, j) == cmv(U, i, j) by { assert(cmv(U2, i, j) == cmv(U, idseq(n)[i] as int, j)); }
}
pub proof fn dg_updated_fit<F: Field>(X: RDG<F>, Y: RDG<F>, Z: RDG<F>, P: Seq<Vec<usize>>)
    requires dg_pfit(X, P), dg_permuted(X, Y, P), dg_updated(Y, Z), Z.I@.len() == X.R@.len() ensures dg_fit(Z)
{
    assert forall|q: int| 0 <= q < Z.R@.len() implies cmwf(#[trigger] Z.R@[q]) && Z.R@[q].n == X.R@[q].n && Z.R@[q].m == X.R@[q].m && Z.p2c@[q]@.len() == X.R@[q].m by { assert(updated_at(Y.U@[q], Y.R@[q], Z.U@[q], Z.R@[q], Z.p2c@[q]@)); dg_indep_at(X, Y, P, q); }
    if X.degree == -1 { assert forall|k: int| 1 <= k < Z.R@.len() implies (#[trigger] Z.p2c@[k])@.len() == Z.R@[k - 1].n by { assert(dg_pfit_at(X, k)); assert(Z.R@[k].n == X.R@[k].n); assert(Z.R@[k - 1].n == X.R@[k - 1].n); } }
    else { assert forall|k: int| 1 <= k < Z.R@.len() implies (#[trigger] Z.R@[k]).n == Z.p2c@[k - 1]@.len() by { assert(dg_pfit_at(X, k)); assert(Z.R@[k - 1].n == X.R@[k - 1].n); } }
}
@end
