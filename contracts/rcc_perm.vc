@unit la
@uses rcc_hom
@rust
// ---- permuting the basis and repairing the reduction ----
pub proof fn permu_isperm(p: Seq<usize>, n: int) requires permu(p, n) ensures isperm_usize(p), p.len() == n
{ assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] != #[trigger] p[j] by { } }
pub proof fn fsum_perm<F: Field>(n: int, p: Seq<usize>, f: spec_fn(int) -> F, g: spec_fn(int) -> F)
    requires permu(p, n), forall|q: int| 0 <= q < n ==> #[trigger] g(q) == f(p[q] as int)
    ensures fsum(n, g) == fsum(n, f)
{
    let h = |q: int, i: int| if p[q] as int == i { f(i) } else { F::szero() };
    assert forall|q: int| 0 <= q < n implies #[trigger] g(q) == fsum(n, |i: int| h(q, i)) by { fsum_one(n, |i: int| h(q, i), p[q] as int); }
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == fsum(n, |q: int| h(q, i)) by { permu_isperm(p, n); let q0 = isperm_onto(p, i); let hc = |q: int| h(q, i); assert forall|q: int| 0 <= q < n && q != q0 implies #[trigger] hc(q) == F::szero() by { if q < q0 { assert(p[q] != p[q0]); } else { assert(p[q0] != p[q]); } } fsum_one(n, hc, q0); }
    fubini(n, n, h, g, f);
}
// row i of A2 is row p[i] of A
pub open spec fn rows_by<F: Field>(A: CM<F>, A2: CM<F>, p: Seq<usize>) -> bool { cmwf(A2) && A2.m == A.m && A2.n == A.n && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] cmv(A2, i, j) == cmv(A, p[i] as int, j) }
pub proof fn rows_by_inv<F: Field>(A: CM<F>, A2: CM<F>, p: Seq<usize>, q: Seq<usize>)
    requires permu(p, A.m as int), q.len() == p.len(), forall|j: int| 0 <= j < p.len() ==> q[#[trigger] p[j] as int] == j, cmwf(A2), A2.m == A.m, A2.n == A.n,
        forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> cmv(A2, q[i] as int, j) == #[trigger] cmv(A, i, j)
    ensures rows_by(A, A2, p)
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A2, i, j) == cmv(A, p[i] as int, j) by { assert(q[p[i] as int] == i); assert(cmv(A2, q[p[i] as int] as int, j) == cmv(A, p[i] as int, j)); } }
pub open spec fn keeps_prod<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>) -> bool { forall|B: CM<F>| B.n == U.m && #[trigger] is_prod(B, U, R) ==> is_prod(B, U2, R2) }
// columns of U are linearly independent
pub open spec fn indep<F: Field>(U: CM<F>) -> bool { forall|y: spec_fn(int) -> F| #[trigger] in_kernel(U, y) ==> forall|j: int| 0 <= j < U.n ==> #[trigger] y(j) == F::szero() }
pub open spec fn in_kernel<F: Field>(U: CM<F>, y: spec_fn(int) -> F) -> bool { forall|i: int| 0 <= i < U.m ==> #[trigger] mq(U.n as int, fm(U), y, i) == F::szero() }
pub proof fn tri_indep<F: Field>(U: CM<F>) requires trimat(true, U) ensures indep(U)
{
    trimat_utri(U);
    assert forall|y: spec_fn(int) -> F| #[trigger] in_kernel(U, y) implies forall|j: int| 0 <= j < U.n ==> #[trigger] y(j) == F::szero() by {
        assert forall|j: int| 0 <= j < U.n implies #[trigger] y(j) == F::szero() by { if y(j) != F::szero() { let t = top_nz(y, j, U.n as int); utri_top(U.n as int, fm(U), y, t); assert(mq(U.n as int, fm(U), y, t) == F::szero()); } }
    }
}
pub proof fn rows_indep<F: Field>(U: CM<F>, U2: CM<F>, p: Seq<usize>) requires indep(U), rows_by(U, U2, p), permu(p, U.m as int) ensures indep(U2)
{
    permu_isperm(p, U.m as int);
    assert forall|y: spec_fn(int) -> F| #[trigger] in_kernel(U2, y) implies forall|j: int| 0 <= j < U.n ==> #[trigger] y(j) == F::szero() by {
        assert forall|i: int| 0 <= i < U.m implies #[trigger] mq(U.n as int, fm(U), y, i) == F::szero() by { let q = isperm_onto(p, i); assert(mq(U2.n as int, fm(U2), y, q) == F::szero()); assert forall|k: int| 0 <= k < U.n implies #[trigger] fm(U2)(q, k) == fm(U)(i, k) by { assert(cmv(U2, q, k) == cmv(U, p[q] as int, k)); } mq_ext2(U.n as int, fm(U2), q, fm(U), i, y); }
        assert(in_kernel(U, y));
    }
}
pub proof fn mq_ext2<F: Field>(n: int, A: spec_fn(int, int) -> F, i: int, B: spec_fn(int, int) -> F, k: int, y: spec_fn(int) -> F)
    requires forall|q: int| 0 <= q < n ==> #[trigger] A(i, q) == B(k, q)
    ensures mq(n, A, y, i) == mq(n, B, y, k)
{ assert forall|q: int| 0 <= q < n implies #[trigger] mqf(A, y, i)(q) == mqf(B, y, k)(q) by { assert(A(i, q) == B(k, q)); } fsum_ext(n, mqf(A, y, i), mqf(B, y, k)); }
// column operations keep the columns nonzero
pub proof fn comb_nonzero<F: Field>(U: CM<F>, U2: CM<F>, V: spec_fn(int, int) -> F, j: int)
    requires indep(U), cmwf(U2), U2.m == U.m, U2.n == U.n, uunit(U.n as int, V), colcomb(U.col@, U.n as int, V, U2.col@), 0 <= j < U.n
    ensures U2.col@[j].indval@.len() > 0
{
    let n = U.n as int; let y = colf(V, j);
    if U2.col@[j].indval@.len() == 0 {
        assert forall|i: int| 0 <= i < U.m implies #[trigger] mq(n, fm(U), y, i) == F::szero() by { assert(colv(U2.col@, i, j) == fsum(n, ccf(U.col@, V, i, j))); assert forall|k: int| 0 <= k < n implies #[trigger] mqf(fm(U), y, i)(k) == ccf(U.col@, V, i, j)(k) by { F::ax_mul_comm(V(k, j), colv(U.col@, i, k)); } fsum_ext(n, mqf(fm(U), y, i), ccf(U.col@, V, i, j)); }
        assert(in_kernel(U, y)); assert(y(j) == F::szero()); assert(V(j, j) == F::sone()); F::ax_one_ne_zero();
    }
}
// every column of the n x n matrix U has its own last row; p finds it
pub open spec fn pivperm<F: Field>(U: CM<F>, p: Seq<usize>) -> bool {
    &&& p.len() == U.n && U.m == U.n
    &&& forall|c: int| 0 <= c < U.n ==> (#[trigger] U.col@[c]).indval@.len() > 0 && p[low(U.col@[c].indval@)] == c
    &&& forall|r: int| 0 <= r < U.n ==> (#[trigger] p[r]) < U.n && low(U.col@[p[r] as int].indval@) == r
}
pub proof fn reduced_pivperm<F: Field>(U: CM<F>, p: Seq<usize>)
    requires cmwf(U), U.m == U.n, reduced(U, p), forall|c: int| 0 <= c < U.n ==> (#[trigger] U.col@[c]).indval@.len() > 0
    ensures pivperm(U, p)
{
    let n = U.n as int; let w = Seq::new(n as nat, |c: int| low(U.col@[c].indval@) as usize);
    assert forall|c: int| 0 <= c < n implies (#[trigger] U.col@[c]).indval@.len() > 0 && 0 <= low(U.col@[c].indval@) < n && p[low(U.col@[c].indval@)] == c by { }
    assert(isperm_usize(w)) by { assert forall|c: int, d: int| 0 <= c < d < w.len() implies #[trigger] w[c] != #[trigger] w[d] by { if w[c] == w[d] { assert(p[low(U.col@[c].indval@)] == c); assert(p[low(U.col@[d].indval@)] == d); } } assert forall|c: int| 0 <= c < w.len() implies (#[trigger] w[c]) < w.len() by { assert(low(U.col@[c].indval@) < n); } }
    assert forall|r: int| 0 <= r < n implies (#[trigger] p[r]) < n && low(U.col@[p[r] as int].indval@) == r by { let c = isperm_onto(w, r); assert(U.col@[c].indval@.len() > 0); assert(p[low(U.col@[c].indval@)] == c); }
}
pub proof fn pivperm_tri<F: Field>(U: CM<F>, p: Seq<usize>) requires cmwf(U), pivperm(U, p), forall|r: int| 0 <= r < U.n ==> #[trigger] p[r] == r ensures trimat(true, U)
{
    let n = U.n as int;
    assert forall|c: int| 0 <= c < n implies low((#[trigger] U.col@[c]).indval@) == c by { assert(p[c] == c); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i > j implies #[trigger] cmv(U, i, j) == F::szero() by { let s = U.col@[j].indval@; assert(sc(s, n)); assert(low(s) == j); sval_absent_above(s, i); }
    assert forall|j: int| 0 <= j < n implies #[trigger] cmv(U, j, j) != F::szero() by { let s = U.col@[j].indval@; assert(sc(s, n)); assert(low(s) == j); sc_some(s, n, s.len() - 1); }
}
pub open spec fn swapped<F: Field>(A: CM<F>, A2: CM<F>, a: int, b: int) -> bool { cmwf(A2) && A2.m == A.m && A2.n == A.n && forall|j: int| 0 <= j < A.n ==> (#[trigger] A2.col@[j]) == A.col@[if j == a { b } else if j == b { a } else { j }] }
pub proof fn swap_keeps<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>, a: int, b: int) requires swapped(U, U2, a, b), swapped(R, R2, a, b), R.n == U.n, 0 <= a < U.n, 0 <= b < U.n ensures keeps_prod(U, R, U2, R2)
{
    assert forall|B: CM<F>| B.n == U.m && #[trigger] is_prod(B, U, R) implies is_prod(B, U2, R2) by {
        assert forall|i: int, j: int| 0 <= j < R2.n implies #[trigger] cmv(R2, i, j) == prodv(B.col@, B.n as int, U2.col@, i, j) by { let q = if j == a { b } else if j == b { a } else { j }; assert(R2.col@[j] == R.col@[q]); assert(U2.col@[j] == U.col@[q]); assert(cmv(R, i, q) == prodv(B.col@, B.n as int, U.col@, i, q)); }
    }
}
pub proof fn red_keeps<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>, V: spec_fn(int, int) -> F)
    requires colcomb(U.col@, U.n as int, V, U2.col@), colcomb(R.col@, U.n as int, V, R2.col@), R.n == U.n, R2.n == R.n
    ensures keeps_prod(U, R, U2, R2)
{
    assert forall|B: CM<F>| B.n == U.m && #[trigger] is_prod(B, U, R) implies is_prod(B, U2, R2) by {
        assert forall|i: int, j: int| 0 <= j < U.n implies #[trigger] colv(R.col@, i, j) == prodv(B.col@, B.n as int, U.col@, i, j) by { assert(cmv(R, i, j) == prodv(B.col@, B.n as int, U.col@, i, j)); }
        comb_prod(B.col@, B.n as int, R.col@, U.col@, U.n as int, V, R2.col@, U2.col@);
        assert forall|i: int, j: int| 0 <= j < R2.n implies #[trigger] cmv(R2, i, j) == prodv(B.col@, B.n as int, U2.col@, i, j) by { assert(colv(R2.col@, i, j) == prodv(B.col@, B.n as int, U2.col@, i, j)); }
    }
}
// A2 and B2 are A and B with the shared index renamed by p: the products agree
pub proof fn prod_perm<F: Field>(A: CM<F>, B: CM<F>, A2: CM<F>, B2: CM<F>, p: Seq<usize>, i: int, i2: int, j: int, j2: int)
    requires A2.n == A.n, permu(p, A.n as int), forall|q: int| 0 <= q < A.n ==> #[trigger] cmv(A2, i2, q) == cmv(A, i, p[q] as int), forall|q: int| 0 <= q < A.n ==> #[trigger] cmv(B2, q, j2) == cmv(B, p[q] as int, j)
    ensures prodv(A2.col@, A2.n as int, B2.col@, i2, j2) == prodv(A.col@, A.n as int, B.col@, i, j)
{
    let n = A.n as int; let f = mvf(A.col@, B.col@[j].indval@, i); let g = mvf(A2.col@, B2.col@[j2].indval@, i2);
    assert forall|q: int| 0 <= q < n implies #[trigger] g(q) == f(p[q] as int) by { assert(cmv(A2, i2, q) == cmv(A, i, p[q] as int)); assert(cmv(B2, q, j2) == cmv(B, p[q] as int, j)); }
    fsum_perm(n, p, f, g);
}
// C2 is C with the basis of every dimension renamed by P
pub open spec fn perm_at<F: Field>(B: CM<F>, B2: CM<F>, pr: Seq<usize>, pc: Seq<usize>) -> bool { cmwf(B2) && B2.m == B.m && B2.n == B.n && forall|i: int, j: int| 0 <= i < B.m && 0 <= j < B.n ==> #[trigger] cmv(B2, i, j) == cmv(B, pr[i] as int, pc[j] as int) }
pub open spec fn zerom<F: Field>(B: CM<F>) -> bool { forall|i: int, j: int| 0 <= j < B.n ==> #[trigger] cmv(B, i, j) == F::szero() }
pub open spec fn perm_dim<F: Field>(C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>, k: int) -> bool { if k == 0 { cmwf(C2.boundary@[0]) && C2.boundary@[0].m == C.boundary@[0].m && C2.boundary@[0].n == C.boundary@[0].n && zerom(C.boundary@[0]) && zerom(C2.boundary@[0]) } else { perm_at(C.boundary@[k], C2.boundary@[k], P[k - 1]@, P[k]@) } }
pub open spec fn perm_cc<F: Field>(C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>) -> bool { C2.boundary@.len() == C.boundary@.len() && P.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] perm_dim(C, C2, P, k) }
pub open spec fn perms_ok<F: Field>(C: CC<F>, P: Seq<Vec<usize>>) -> bool { P.len() == C.boundary@.len() && forall|k: int| 0 <= k < P.len() ==> permu(#[trigger] P[k]@, C.boundary@[k].n as int) }
pub proof fn perm_cc_wf<F: Field>(C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>)
    requires ccwf(C), perm_cc(C, C2, P) ensures ccwf(C2), forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C2.boundary@[k]).n == C.boundary@[k].n && C2.boundary@[k].m == C.boundary@[k].m
{
    assert forall|k: int| 0 <= k < C.boundary@.len() implies cmwf(#[trigger] C2.boundary@[k]) && C2.boundary@[k].n == C.boundary@[k].n && C2.boundary@[k].m == C.boundary@[k].m by { assert(perm_dim(C, C2, P, k)); }
    assert forall|k: int| 1 <= k < C2.boundary@.len() implies (#[trigger] C2.boundary@[k]).m == C2.boundary@[k - 1].n by { assert(C.boundary@[k].m == C.boundary@[k - 1].n); assert(C2.boundary@[k - 1].n == C.boundary@[k - 1].n); }
}
pub proof fn prod_zero_l<F: Field>(A: CM<F>, B: CM<F>, i: int, j: int) requires forall|q: int| 0 <= q < A.n ==> #[trigger] cmv(A, i, q) == F::szero() ensures prodv(A.col@, A.n as int, B.col@, i, j) == F::szero()
{ broadcast use field_basic; let f = mvf(A.col@, B.col@[j].indval@, i); assert forall|q: int| 0 <= q < A.n implies #[trigger] f(q) == F::szero() by { assert(cmv(A, i, q) == F::szero()); } fsum_zero(A.n as int, f); }
pub proof fn cmv_out<F: Field>(A: CM<F>, i: int, j: int) requires cmwf(A), 0 <= j < A.n, i < 0 || i >= A.m ensures cmv(A, i, j) == F::szero() { sval_out(A.col@[j].indval@, A.m as int); }
// a renamed complex is a complex
pub proof fn perm_cc_dd<F: Field>(C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>)
    requires ccwf(C), ccdd(C), perm_cc(C, C2, P), perms_ok(C, P) ensures ccdd(C2)
{
    perm_cc_wf(C, C2, P);
    assert forall|k: int| 0 <= k < C2.boundary@.len() - 1 implies #[trigger] ddat(C2, k) by {
        let A = C.boundary@[k]; let B = C.boundary@[k + 1]; let A2 = C2.boundary@[k]; let B2 = C2.boundary@[k + 1];
        assert(perm_dim(C, C2, P, k)); assert(perm_dim(C, C2, P, k + 1)); assert(ddat(C, k)); assert(B.m == A.n); assert(permu(P[k]@, A.n as int)); assert(permu(P[k + 1]@, B.n as int));
        assert forall|i: int, j: int| 0 <= j < B2.n implies #[trigger] prodv(A2.col@, A2.n as int, B2.col@, i, j) == F::szero() by {
            if i < 0 || i >= A2.m || k == 0 { assert forall|q: int| 0 <= q < A2.n implies #[trigger] cmv(A2, i, q) == F::szero() by { if k != 0 { cmv_out(A2, i, q); } } prod_zero_l(A2, B2, i, j); }
            else { assert(P[k + 1]@[j] < B.n); prod_perm(A, B, A2, B2, P[k]@, P[k - 1]@[i] as int, i, P[k + 1]@[j] as int, j); assert(prodv(A.col@, A.n as int, B.col@, P[k - 1]@[i] as int, P[k + 1]@[j] as int) == F::szero()); }
        }
    }
}
// what permute_matrices does to the basis and the reduced matrix of one dimension
pub open spec fn permuted_at<F: Field>(X: RCC<F>, U2: CM<F>, R2: CM<F>, P: Seq<Vec<usize>>, k: int) -> bool { if k == 0 { U2 == X.U@[0] && R2 == X.R@[0] } else { rows_by(X.U@[k], U2, P[k]@) && rows_by(X.R@[k], R2, P[k - 1]@) } }
pub proof fn permuted_prod<F: Field>(C: CC<F>, C2: CC<F>, X: RCC<F>, U2: CM<F>, R2: CM<F>, P: Seq<Vec<usize>>, k: int)
    requires hom_of(C, X), perm_cc(C, C2, P), perms_ok(C, P), 0 <= k < C.boundary@.len(), permuted_at(X, U2, R2, P, k)
    ensures is_prod(C2.boundary@[k], U2, R2)
{
    perm_cc_wf(C, C2, P);
    let B = C.boundary@[k]; let B2 = C2.boundary@[k]; let U = X.U@[k]; let R = X.R@[k]; let n = B.n as int;
    assert(perm_dim(C, C2, P, k)); assert(bas_at(B, R, U)); assert(red_at(B, R, X.p2c@[k]@)); assert(permu(P[k]@, n)); if k > 0 { assert(B.m == C.boundary@[k - 1].n); assert(permu(P[k - 1]@, B.m as int)); }
    assert forall|i: int, j: int| 0 <= j < R2.n implies #[trigger] cmv(R2, i, j) == prodv(B2.col@, B2.n as int, U2.col@, i, j) by {
        if k == 0 { assert forall|q: int| 0 <= q < n implies #[trigger] cmv(B2, i, q) == F::szero() by { } prod_zero_l(B2, U2, i, j); assert(cmv(R, i, j) == prodv(B.col@, B.n as int, U.col@, i, j)); assert forall|q: int| 0 <= q < n implies #[trigger] cmv(B, i, q) == F::szero() by { } prod_zero_l(B, U, i, j); }
        else if i < 0 || i >= B.m { assert forall|q: int| 0 <= q < n implies #[trigger] cmv(B2, i, q) == F::szero() by { cmv_out(B2, i, q); } prod_zero_l(B2, U2, i, j); cmv_out(R2, i, j); }
        else { let i0 = P[k - 1]@[i] as int; assert(cmv(R2, i, j) == cmv(R, i0, j)); assert(cmv(R, i0, j) == prodv(B.col@, B.n as int, U.col@, i0, j)); prod_perm(B, U, B2, U2, P[k]@, i0, i, j, j); }
    }
}
// shapes the update relies on
pub open spec fn perm_fit<F: Field>(X: RCC<F>, P: Seq<Vec<usize>>) -> bool {
    &&& X.R@.len() > 0 && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && P.len() == X.R@.len()
    &&& forall|k: int| 0 <= k < X.R@.len() ==> #[trigger] perm_fit_at(X, P, k)
}
pub open spec fn perm_fit_at<F: Field>(X: RCC<F>, P: Seq<Vec<usize>>, k: int) -> bool { cmwf(X.R@[k]) && trimat(true, X.U@[k]) && X.R@[k].n == X.U@[k].n && (k > 0 ==> X.R@[k].m == X.R@[k - 1].n) && permu(P[k]@, X.U@[k].n as int) }
pub proof fn hom_perm_fit<F: Field>(C: CC<F>, X: RCC<F>, P: Seq<Vec<usize>>) requires hom_of(C, X), perms_ok(C, P) ensures perm_fit(X, P)
{ assert forall|k: int| 0 <= k < X.R@.len() implies #[trigger] perm_fit_at(X, P, k) by { assert(bas_at(C.boundary@[k], X.R@[k], X.U@[k])); assert(red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@)); if k > 0 { assert(red_at(C.boundary@[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); assert(C.boundary@[k].m == C.boundary@[k - 1].n); } } }
// X2 reduces the renamed complex, whatever complex X reduces
pub open spec fn perm_ok<F: Field>(X: RCC<F>, X2: RCC<F>, P: Seq<Vec<usize>>) -> bool { forall|C: CC<F>, C2: CC<F>| #[trigger] hom_of(C, X) && #[trigger] perm_cc(C, C2, P) && perms_ok(C, P) ==> hom_of(C2, X2) }
pub open spec fn updated_at<F: Field>(U: CM<F>, R: CM<F>, U2: CM<F>, R2: CM<F>, p: Seq<usize>) -> bool { trimat(true, U2) && U2.n == U.n && cmwf(R2) && R2.n == R.n && R2.m == R.m && reduced(R2, p) && keeps_prod(U, R, U2, R2) }
pub proof fn update_ok<F: Field>(C: CC<F>, C2: CC<F>, X: RCC<F>, Y: RCC<F>, X2: RCC<F>, P: Seq<Vec<usize>>)
    requires hom_of(C, X), perm_cc(C, C2, P), perms_ok(C, P), Y.R@.len() == X.R@.len(), Y.U@.len() == X.R@.len(), X2.R@.len() == X.R@.len(), X2.U@.len() == X.R@.len(), X2.p2c@.len() == X.R@.len(), rcc_gens(X2),
        forall|k: int| 0 <= k < X.R@.len() ==> permuted_at(X, #[trigger] Y.U@[k], Y.R@[k], P, k), forall|k: int| 0 <= k < X.R@.len() ==> updated_at(#[trigger] Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@)
    ensures hom_of(C2, X2)
{
    perm_cc_wf(C, C2, P); perm_cc_dd(C, C2, P);
    assert forall|k: int| 0 <= k < C2.boundary@.len() implies #[trigger] bas_at(C2.boundary@[k], X2.R@[k], X2.U@[k]) && red_at(C2.boundary@[k], X2.R@[k], X2.p2c@[k]@) by {
        let B2 = C2.boundary@[k]; assert(bas_at(C.boundary@[k], X.R@[k], X.U@[k])); assert(red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@));
        assert(permuted_at(X, Y.U@[k], Y.R@[k], P, k)); assert(updated_at(Y.U@[k], Y.R@[k], X2.U@[k], X2.R@[k], X2.p2c@[k]@));
        permuted_prod(C, C2, X, Y.U@[k], Y.R@[k], P, k); assert(is_prod(B2, Y.U@[k], Y.R@[k])); assert(is_prod(B2, X2.U@[k], X2.R@[k]));
        prod_pivots(B2, X2.U@[k], X2.R@[k], X2.p2c@[k]@);
    }
    assert forall|k: int| 0 <= k < C2.boundary@.len() implies #[trigger] red_at(C2.boundary@[k], X2.R@[k], X2.p2c@[k]@) by { assert(bas_at(C2.boundary@[k], X2.R@[k], X2.U@[k])); }
}
@end
@fn RCC<F>::update_reduction2(usize) as rcc_update2
@prop P18 P10
@opt rlimit=60
@requires
  k < old(this).R@.len(), old(this).U@.len() == old(this).R@.len(), old(this).p2c@.len() == old(this).R@.len(), cmwf(old(this).R@[k as int]), cmwf(old(this).U@[k as int]), old(this).R@[k as int].n == old(this).U@[k as int].n, old(this).U@[k as int].m == old(this).U@[k as int].n, indep(old(this).U@[k as int])
@ensures
  final(this).I == old(this).I, final(this).R@.len() == old(this).R@.len(), final(this).U@.len() == old(this).R@.len(), final(this).p2c@.len() == old(this).R@.len(),
  forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).R@[q]) == old(this).R@[q], forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).U@[q]) == old(this).U@[q], forall|q: int| 0 <= q < old(this).R@.len() && q != k ==> (#[trigger] final(this).p2c@[q]) == old(this).p2c@[q],
  updated_at(old(this).U@[k as int], old(this).R@[k as int], final(this).U@[k as int], final(this).R@[k as int], final(this).p2c@[k as int]@)
@at entry
  let ghost T0 = *this; let ghost U0 = this.U@[k as int]; let ghost R0 = this.R@[k as int]; let ghost n = U0.n as int;
@at after red_std_u 0
  proof { let U1 = this.U@[k as int]; let R1 = this.R@[k as int]; let V = choose|V: spec_fn(int, int) -> F| redrel2(n, V, U0.col@, U1.col@, R0.col@, R1.col@); red_keeps(U0, R0, U1, R1, V);
    assert forall|c: int| 0 <= c < n implies (#[trigger] U1.col@[c]).indval@.len() > 0 by { comb_nonzero(U0, U1, V, c); }
    reduced_pivperm(U1, r_red_std_u_0@); }
@loop 0
  invariant 0 <= j <= n, this.I == T0.I, this.R@.len() == T0.R@.len(), this.U@.len() == T0.R@.len(), this.p2c@.len() == T0.R@.len(), k < T0.R@.len(),
    forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.R@[q]) == T0.R@[q], forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.U@[q]) == T0.U@[q], forall|q: int| 0 <= q < T0.R@.len() && q != k ==> (#[trigger] this.p2c@[q]) == T0.p2c@[q],
    cmwf(this.U@[k as int]), cmwf(this.R@[k as int]), this.U@[k as int].n == n, this.U@[k as int].m == n, this.R@[k as int].n == n, this.R@[k as int].m == R0.m, keeps_prod(U0, R0, this.U@[k as int], this.R@[k as int]),
    pivperm(this.U@[k as int], this.p2c@[k as int]@), forall|r: int| 0 <= r < j ==> #[trigger] this.p2c@[k as int]@[r] == r,
  decreases n - j
@at loop 0 begin
  let ghost Ua = this.U@[k as int]; let ghost Ra = this.R@[k as int]; let ghost pa = this.p2c@[k as int]@;
  proof { assert(Ua.col@[j as int].indval@.len() > 0); assert(pa[low(Ua.col@[j as int].indval@)] == j); assert(sc(Ua.col@[j as int].indval@, n)); sc_some(Ua.col@[j as int].indval@, n, Ua.col@[j as int].indval@.len() - 1); assert(pa[j as int] < n); }
@at loop 0 end
  proof { let Ub = this.U@[k as int]; let Rb = this.R@[k as int]; let pb = this.p2c@[k as int]@; let pp = pa[j as int] as int; let pj = low(Ua.col@[j as int].indval@);
    if pp != j { swap_keeps(Ua, Ra, Ub, Rb, pp, j as int); }
    if pp != j {
      assert(low(Ua.col@[pp].indval@) == j);
      assert(pj != j); assert(pj >= j) by { if pj < j { assert(pa[pj] == pj); } }
      assert forall|c: int| 0 <= c < n implies (#[trigger] Ub.col@[c]).indval@.len() > 0 && pb[low(Ub.col@[c].indval@)] == c by { let q = if c == pp { j as int } else if c == j { pp } else { c }; assert(Ub.col@[c] == Ua.col@[q]); assert(Ua.col@[q].indval@.len() > 0 && pa[low(Ua.col@[q].indval@)] == q); }
      assert forall|r: int| 0 <= r < n implies (#[trigger] pb[r]) < n && low(Ub.col@[pb[r] as int].indval@) == r by { assert(pa[r] < n && low(Ua.col@[pa[r] as int].indval@) == r); let c = pb[r] as int; let q = if c == pp { j as int } else if c == j { pp } else { c }; assert(Ub.col@[c] == Ua.col@[q]); }
    } }
@at before red_u 0
  let ghost U2 = this.U@[k as int]; let ghost R2 = this.R@[k as int];
  proof { pivperm_tri(U2, this.p2c@[k as int]@); }
@at after red_u 0
  proof { let U3 = this.U@[k as int]; let R3 = this.R@[k as int]; let V = choose|V: spec_fn(int, int) -> F| redrel2(n, V, R2.col@, R3.col@, U2.col@, U3.col@); red_keeps(U2, R2, U3, R3, V); }
@fn RCC<F>::permute_matrices(usize, Vec<usize>) as rcc_perm_k
@prop P18 P10
@requires
  k < old(this).R@.len(), old(this).U@.len() == old(this).R@.len(), cmwf(old(this).U@[k as int]), permu(perm@, old(this).U@[k as int].m as int), k + 1 < old(this).R@.len() ==> cmwf(old(this).R@[k + 1]) && permu(perm@, old(this).R@[k + 1].m as int)
@ensures
  final(this).I == old(this).I, final(this).p2c == old(this).p2c, final(this).R@.len() == old(this).R@.len(), final(this).U@.len() == old(this).R@.len(),
  forall|q: int| 0 <= q < old(this).R@.len() && q != k + 1 ==> (#[trigger] final(this).R@[q]) == old(this).R@[q], forall|q: int| 0 <= q < old(this).R@.len() && (q != k || k == 0) ==> (#[trigger] final(this).U@[q]) == old(this).U@[q],
  k > 0 ==> rows_by(old(this).U@[k as int], final(this).U@[k as int], perm@), k + 1 < old(this).R@.len() ==> rows_by(old(this).R@[k + 1], final(this).R@[k + 1], perm@)
@at entry
  let ghost X = *this;
@at after inv_perm 0
  let ghost iv = r_inv_perm_0@;
  proof { permu_isperm(iv, iv.len() as int); }
@at exit
  proof { if k > 0 { rows_by_inv(X.U@[k as int], this.U@[k as int], perm@, iv); } if k + 1 < X.R@.len() { rows_by_inv(X.R@[k + 1], this.R@[k + 1], perm@, iv); } }
@fn RCC<F>::permute_basis(Vec<Vec<usize>>) as rcc_perm
@prop P18 P10
@opt rlimit=60
@requires
  perm_fit(*old(this), perm@)
@ensures
  perm_ok(*old(this), *final(this), perm@), final(this).R@.len() == old(this).R@.len()
@at entry
  let ghost X = *this; let ghost L = this.R@.len(); let ghost mut Y = *this;
@loop 0
  invariant k <= L, perm@.len() == L, perm_fit(X, perm@), X.R@.len() == L, this.I == X.I, this.p2c == X.p2c, this.R@.len() == L, this.U@.len() == L,
    forall|q: int| k <= q < L ==> (#[trigger] this.U@[q]) == X.U@[q], forall|q: int| k < q < L ==> (#[trigger] this.R@[q]) == X.R@[q], L > 0 ==> this.U@[0] == X.U@[0] && this.R@[0] == X.R@[0],
    forall|q: int| 0 < q < k ==> rows_by(X.U@[q], #[trigger] this.U@[q], perm@[q]@), forall|q: int| 0 < q <= k && q < L ==> rows_by(X.R@[q], #[trigger] this.R@[q], perm@[q - 1]@),
  decreases L - k
@at loop 0 begin
  proof { assert(perm_fit_at(X, perm@, k as int)); if k + 1 < L { assert(perm_fit_at(X, perm@, k + 1)); assert(X.R@[k + 1].m == X.R@[k as int].n); } }
@at loop 0 after
  proof { Y = *this; assert forall|k: int| 0 <= k < L implies permuted_at(X, #[trigger] Y.U@[k], Y.R@[k], perm@, k) by { if k > 0 { assert(rows_by(X.U@[k], Y.U@[k], perm@[k]@)); assert(rows_by(X.R@[k], Y.R@[k], perm@[k - 1]@)); } } }
@loop 1
  invariant k <= L, perm@.len() == L, perm_fit(X, perm@), X.R@.len() == L, this.I == X.I, this.R@.len() == L, this.U@.len() == L, this.p2c@.len() == L, Y.R@.len() == L, Y.U@.len() == L,
    forall|q: int| k <= q < L ==> (#[trigger] this.U@[q]) == Y.U@[q], forall|q: int| k <= q < L ==> (#[trigger] this.R@[q]) == Y.R@[q],
    forall|q: int| 0 <= q < L ==> permuted_at(X, #[trigger] Y.U@[q], Y.R@[q], perm@, q),
    forall|q: int| 0 <= q < k ==> updated_at(#[trigger] Y.U@[q], Y.R@[q], this.U@[q], this.R@[q], this.p2c@[q]@),
  decreases L - k
@at loop 1 begin
  proof { let q = k as int; assert(perm_fit_at(X, perm@, q)); assert(permuted_at(X, Y.U@[q], Y.R@[q], perm@, q)); tri_indep(X.U@[q]); if q > 0 { rows_indep(X.U@[q], Y.U@[q], perm@[q]@); } }
@at before rcc_set_indices 0
  proof {
    assert forall|q: int| 0 <= q < L implies cmwf(#[trigger] this.R@[q]) && this.p2c@[q]@.len() == this.R@[q].m && this.R@[q].n == X.R@[q].n && this.R@[q].m == X.R@[q].m by { assert(updated_at(Y.U@[q], Y.R@[q], this.U@[q], this.R@[q], this.p2c@[q]@)); assert(permuted_at(X, Y.U@[q], Y.R@[q], perm@, q)); }
    assert forall|q: int| 1 <= q < L implies (#[trigger] this.p2c@[q])@.len() == this.R@[q - 1].n by { assert(perm_fit_at(X, perm@, q)); assert(this.R@[q].m == X.R@[q].m); assert(this.R@[q - 1].n == X.R@[q - 1].n); } }
@at exit
  proof { assert forall|C: CC<F>, C2: CC<F>| #[trigger] hom_of(C, X) && #[trigger] perm_cc(C, C2, perm@) && perms_ok(C, perm@) implies hom_of(C2, *this) by { update_ok(C, C2, X, Y, *this, perm@); } }
