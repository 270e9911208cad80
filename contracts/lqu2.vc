@unit la
@uses lqu fact2
@rust
// ---- the identity, inverses of triangular matrices ----
pub open spec fn idf<F: Field>() -> spec_fn(int, int) -> F { |i: int, j: int| kdel::<F>(i, j) }
pub open spec fn ltri<F: Field>(n: int, f: spec_fn(int, int) -> F) -> bool { utri(n, tp(f)) }
pub proof fn mm_idl<F: Field>(n: int, p: int, A: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F) requires feq(n, n, A, idf::<F>()) ensures feq(n, p, mm(n, A, W), W)
{
    broadcast use field_basic;
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < p implies #[trigger] mm(n, A, W)(i, j) == W(i, j) by {
        let f = mqf(A, colf(W, j), i);
        assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == F::szero() by { assert(A(i, k) == idf::<F>()(i, k)); }
        fsum_one(n, f, i); assert(A(i, i) == idf::<F>()(i, i)); F::ax_mul_one(W(i, j));
    }
}
pub proof fn mm_idr<F: Field>(m: int, n: int, A: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F) requires feq(n, n, W, idf::<F>()) ensures feq(m, n, mm(n, A, W), A)
{
    broadcast use field_basic;
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(n, A, W)(i, j) == A(i, j) by {
        let f = mqf(A, colf(W, j), i);
        assert forall|k: int| 0 <= k < n && k != j implies #[trigger] f(k) == F::szero() by { assert(W(k, j) == idf::<F>()(k, j)); }
        fsum_one(n, f, j); assert(W(j, j) == idf::<F>()(j, j)); F::ax_mul_one(A(i, j)); F::ax_mul_comm(A(i, j), F::sone());
    }
}
pub proof fn utri_feq<F: Field>(n: int, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F) requires utri(n, f), feq(n, n, g, f) ensures utri(n, g)
{ assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] g(k, j) == F::szero() by { assert(g(k, j) == f(k, j)); assert(f(k, j) == F::szero()); } assert forall|j: int| 0 <= j < n implies #[trigger] g(j, j) != F::szero() by { assert(g(j, j) == f(j, j)); assert(f(j, j) != F::szero()); } }
pub proof fn utri_trimat<F: Field>(U: CM<F>) requires cmwf(U), U.m == U.n, utri(U.n as int, fm(U)) ensures trimat(true, U)
{ assert forall|i: int, j: int| 0 <= i < U.n && 0 <= j < U.n && i > j implies #[trigger] cmv(U, i, j) == F::szero() by { assert(fm(U)(i, j) == F::szero()); } assert forall|j: int| 0 <= j < U.n implies #[trigger] cmv(U, j, j) != F::szero() by { assert(fm(U)(j, j) != F::szero()); } }
pub proof fn ltri_trimat<F: Field>(L: CM<F>) requires cmwf(L), L.m == L.n, ltri(L.n as int, fm(L)) ensures trimat(false, L)
{ assert forall|i: int, j: int| 0 <= i < L.n && 0 <= j < L.n && i < j implies #[trigger] cmv(L, i, j) == F::szero() by { assert(tp(fm(L))(j, i) == F::szero()); } assert forall|j: int| 0 <= j < L.n implies #[trigger] cmv(L, j, j) != F::szero() by { assert(tp(fm(L))(j, j) != F::szero()); } }
pub proof fn trimat_ltri<F: Field>(L: CM<F>) requires trimat(false, L) ensures ltri(L.n as int, fm(L))
{ assert forall|k: int, j: int| 0 <= j < k < L.n implies #[trigger] tp(fm(L))(k, j) == F::szero() by { assert(cmv(L, j, k) == F::szero()); } assert forall|j: int| 0 <= j < L.n implies #[trigger] tp(fm(L))(j, j) != F::szero() by { assert(cmv(L, j, j) != F::szero()); } }
// a right inverse of an upper triangular matrix is upper triangular
pub proof fn rinv_utri<F: Field>(n: int, U: spec_fn(int, int) -> F, X: spec_fn(int, int) -> F) requires utri(n, U), feq(n, n, mm(n, U, X), idf::<F>()) ensures utri(n, X)
{
    broadcast use field_basic; F::ax_one_ne_zero();
    assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] X(k, j) == F::szero() by {
        if X(k, j) != F::szero() { let y = colf(X, j); let t = top_nz(y, k, n); utri_top(n, U, y, t); assert(mm(n, U, X)(t, j) == idf::<F>()(t, j)); }
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] X(j, j) != F::szero() by {
        if X(j, j) == F::szero() {
            let f = mqf(U, colf(X, j), j);
            assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == F::szero() by { if k > j { assert(X(k, j) == F::szero()); } else if k < j { assert(U(j, k) == F::szero()); } }
            fsum_zero(n, f); assert(mm(n, U, X)(j, j) == idf::<F>()(j, j));
        }
    }
}
pub open spec fn unitv<F: Field>(j: int) -> spec_fn(int) -> F { |i: int| kdel::<F>(i, j) }
pub open spec fn trisol<F: Field>(n: int, V: spec_fn(int, int) -> F, j: int) -> spec_fn(int) -> F { choose|y: spec_fn(int) -> F| #[trigger] solves(n, V, y, unitv(j), j + 1) }
pub proof fn rinv_exists<F: Field>(n: int, V: spec_fn(int, int) -> F) -> (X: spec_fn(int, int) -> F) requires utri(n, V) ensures feq(n, n, mm(n, V, X), idf::<F>())
{
    let X = |k: int, j: int| trisol(n, V, j)(k);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, V, X)(i, j) == idf::<F>()(i, j) by {
        let y = tri_exists(n, V, unitv(j), j + 1); assert(solves(n, V, y, unitv(j), j + 1)); let z = trisol(n, V, j); assert(solves(n, V, z, unitv(j), j + 1)); mq_ext(n, V, V, colf(X, j), z, i); assert(mq(n, V, z, i) == unitv::<F>(j)(i));
    }
    X
}
// a left inverse of a matrix with a right inverse is that one
pub proof fn inv_two<F: Field>(n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F)
    requires n >= 0, feq(n, n, mm(n, A, B), idf::<F>()), feq(n, n, mm(n, B, C), idf::<F>())
    ensures feq(n, n, C, A), feq(n, n, mm(n, B, A), idf::<F>())
{
    mm_assoc(n, n, n, n, A, B, C); mm_idl(n, n, mm(n, A, B), C); mm_idr(n, n, A, mm(n, B, C));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] C(i, j) == A(i, j) by { assert(mm(n, mm(n, A, B), C)(i, j) == C(i, j)); assert(mm(n, A, mm(n, B, C))(i, j) == A(i, j)); assert(mm(n, mm(n, A, B), C)(i, j) == mm(n, A, mm(n, B, C))(i, j)); }
    feq_refl(n, n, B); feq_sym(n, n, C, A); mm_ext(n, n, n, B, B, A, C); feq_trans(n, n, mm(n, B, A), mm(n, B, C), idf::<F>());
}
pub proof fn utri_linv<F: Field>(n: int, U: spec_fn(int, int) -> F, X: spec_fn(int, int) -> F) requires n >= 0, utri(n, U), feq(n, n, mm(n, U, X), idf::<F>()) ensures feq(n, n, mm(n, X, U), idf::<F>())
{ rinv_utri(n, U, X); let V = rinv_exists(n, X); inv_two(n, U, X, V); }
pub proof fn id_tp<F: Field>(n: int, f: spec_fn(int, int) -> F) requires feq(n, n, f, idf::<F>()) ensures feq(n, n, tp(f), idf::<F>())
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] tp(f)(i, j) == idf::<F>()(i, j) by { assert(f(j, i) == idf::<F>()(j, i)); } }
// for a lower triangular L: L M == 1 gives M L == 1
pub proof fn ltri_linv<F: Field>(n: int, L: spec_fn(int, int) -> F, M: spec_fn(int, int) -> F) requires n >= 0, ltri(n, L), feq(n, n, mm(n, L, M), idf::<F>()) ensures feq(n, n, mm(n, M, L), idf::<F>())
{
    // M^T L^T == 1 with L^T upper: L^T has a right inverse V, so V == M^T and L^T M^T == 1
    let V = rinv_exists(n, tp(L)); mm_tp(n, n, n, L, M); id_tp(n, mm(n, L, M)); feq_sym(n, n, tp(mm(n, L, M)), mm(n, tp(M), tp(L))); feq_trans(n, n, mm(n, tp(M), tp(L)), tp(mm(n, L, M)), idf::<F>());
    inv_two(n, tp(M), tp(L), V); mm_tp(n, n, n, M, L);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, M, L)(i, j) == idf::<F>()(i, j) by { assert(tp(mm(n, M, L))(j, i) == mm(n, tp(L), tp(M))(j, i)); assert(mm(n, tp(L), tp(M))(j, i) == idf::<F>()(j, i)); }
}
// ---- at most one nonzero entry, a 1, per row and column ----
pub open spec fn pivm<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < n && #[trigger] f(i, j) != F::szero() ==> f(i, j) == F::sone()
    &&& forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k ==> #[trigger] f(i, k) == F::szero()
    &&& forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] f(i, j) != F::szero() && i != k ==> #[trigger] f(k, j) == F::szero()
}
pub proof fn pivm_feq<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int) requires pivm(f, m, n), feq(m, n, g, f) ensures pivm(g, m, n)
{
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n && #[trigger] g(i, j) != F::szero() implies g(i, j) == F::sone() by { assert(g(i, j) == f(i, j)); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] g(i, j) != F::szero() && j != k implies #[trigger] g(i, k) == F::szero() by { assert(g(i, j) == f(i, j)); assert(g(i, k) == f(i, k)); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] g(i, j) != F::szero() && i != k implies #[trigger] g(k, j) == F::szero() by { assert(g(i, j) == f(i, j)); assert(g(k, j) == f(k, j)); }
}
pub proof fn pivm_tp<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int) requires pivm(f, m, n) ensures pivm(tp(f), n, m)
{
    let g = tp(f);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m && #[trigger] g(i, j) != F::szero() implies g(i, j) == F::sone() by { assert(f(j, i) != F::szero()); }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < m && 0 <= k < m && #[trigger] g(i, j) != F::szero() && j != k implies #[trigger] g(i, k) == F::szero() by { assert(f(j, i) != F::szero()); assert(f(k, i) == F::szero()); }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < m && 0 <= k < n && #[trigger] g(i, j) != F::szero() && i != k implies #[trigger] g(k, j) == F::szero() by { assert(f(j, i) != F::szero()); assert(f(j, k) == F::szero()); }
}
pub proof fn pivm_jc<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int) requires pivm(f, m, n) ensures pivm(jc(m, n, f), m, n)
{
    let g = jc(m, n, f);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n && #[trigger] g(i, j) != F::szero() implies g(i, j) == F::sone() by { assert(f(m - 1 - i, n - 1 - j) != F::szero()); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] g(i, j) != F::szero() && j != k implies #[trigger] g(i, k) == F::szero() by { assert(f(m - 1 - i, n - 1 - j) != F::szero()); assert(f(m - 1 - i, n - 1 - k) == F::szero()); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] g(i, j) != F::szero() && i != k implies #[trigger] g(k, j) == F::szero() by { assert(f(m - 1 - i, n - 1 - j) != F::szero()); assert(f(m - 1 - k, n - 1 - j) == F::szero()); }
}
// t[c] is the first nonzero column of row c (-1: none); these are distinct
pub open spec fn leads<F: Field>(f: spec_fn(int, int) -> F, n: int, m: int, t: spec_fn(int) -> int) -> bool {
    &&& forall|c: int| 0 <= c < n ==> -1 <= #[trigger] t(c) < m
    &&& forall|c: int| 0 <= c < n && #[trigger] t(c) != -1 ==> f(c, t(c)) != F::szero()
    &&& forall|c: int, l: int| 0 <= c < n && 0 <= l < m && (t(c) == -1 || l < t(c)) ==> #[trigger] f(c, l) == F::szero()
    &&& forall|c: int, d: int| 0 <= c < n && 0 <= d < n && c != d && #[trigger] t(c) != -1 ==> t(c) != #[trigger] t(d)
}
pub open spec fn leadof(p: Seq<i64>) -> spec_fn(int) -> int { |c: int| if hasrow(p, c) { choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == c } else { -1 } }
pub proof fn leads_cu<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int, p: Seq<i64>) requires cu_tab(f, m, n, p), n <= i64::MAX ensures leads(tp(f), n, m, leadof(p))
{
    F::ax_one_ne_zero(); let t = leadof(p); let g = tp(f);
    assert forall|c: int| 0 <= c < n implies -1 <= #[trigger] t(c) < m && (t(c) != -1 ==> p[t(c)] == c) by { }
    assert forall|c: int| 0 <= c < n && #[trigger] t(c) != -1 implies g(c, t(c)) != F::szero() by { assert(p[t(c)] == c); }
    assert forall|c: int, l: int| 0 <= c < n && 0 <= l < m && (t(c) == -1 || l < t(c)) implies #[trigger] g(c, l) == F::szero() by { if t(c) == -1 { assert(!hasrow(p, c)); assert(f(l, c) == F::szero()); } else { assert(p[t(c)] == c); assert(f(l, p[t(c)] as int) == F::szero()); } }
}
pub proof fn leads_mul<F: Field>(f: spec_fn(int, int) -> F, n: int, m: int, t: spec_fn(int) -> int, W: spec_fn(int, int) -> F) requires leads(f, n, m, t), utri(m, W) ensures leads(mm(m, f, W), n, m, t)
{
    broadcast use field_basic; let g = mm(m, f, W);
    assert forall|c: int| 0 <= c < n && #[trigger] t(c) != -1 implies g(c, t(c)) != F::szero() by {
        let l = t(c); let y = mqf(f, colf(W, l), c);
        assert forall|k: int| 0 <= k < m && k != l implies #[trigger] y(k) == F::szero() by { if k < l { assert(f(c, k) == F::szero()); } else { assert(W(k, l) == F::szero()); } }
        fsum_one(m, y, l); assert(W(l, l) != F::szero()); fb_nz(W(l, l), f(c, l));
    }
    assert forall|c: int, l: int| 0 <= c < n && 0 <= l < m && (t(c) == -1 || l < t(c)) implies #[trigger] g(c, l) == F::szero() by {
        let y = mqf(f, colf(W, l), c);
        assert forall|k: int| 0 <= k < m implies #[trigger] y(k) == F::szero() by { if k <= l { assert(f(c, k) == F::szero()); } else { assert(W(k, l) == F::szero()); } }
        fsum_zero(m, y);
    }
}
pub proof fn leads_feq<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, n: int, m: int, t: spec_fn(int) -> int) requires leads(f, n, m, t), feq(n, m, g, f) ensures leads(g, n, m, t)
{
    assert forall|c: int| 0 <= c < n && #[trigger] t(c) != -1 implies g(c, t(c)) != F::szero() by { assert(g(c, t(c)) == f(c, t(c))); }
    assert forall|c: int, l: int| 0 <= c < n && 0 <= l < m && (t(c) == -1 || l < t(c)) implies #[trigger] g(c, l) == F::szero() by { assert(g(c, l) == f(c, l)); }
}
pub proof fn lead_only<F: Field>(f: spec_fn(int, int) -> F, n: int, m: int, t: spec_fn(int) -> int, p: Seq<i64>, c: int, l: int)
    requires leads(f, n, m, t), cu_tab(f, n, m, p), m <= i64::MAX, 0 <= c < n, 0 <= l < m, f(c, l) != F::szero()
    ensures t(c) == l
    decreases c
{
    F::ax_one_ne_zero(); let k = t(c); assert(k != -1 && k <= l); assert(f(c, k) != F::szero());
    if k < l {
        assert(hasrow(p, k)); let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(p[i] != -1); assert(f(i, p[i] as int) == F::sone());
        if c < i { assert(f(c, p[i] as int) == F::szero()); }
        if i == c { assert(f(i, l) == F::szero()); } else { lead_only(f, n, m, t, p, i, k); }
    }
}
pub proof fn cu_pivm<F: Field>(f: spec_fn(int, int) -> F, n: int, m: int, t: spec_fn(int) -> int, p: Seq<i64>) requires leads(f, n, m, t), cu_tab(f, n, m, p), m <= i64::MAX ensures pivm(f, n, m)
{
    F::ax_one_ne_zero();
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m && #[trigger] f(i, j) != F::szero() implies f(i, j) == F::sone() by {
        lead_only(f, n, m, t, p, i, j); assert(hasrow(p, j)); let r = choose|r: int| 0 <= r < p.len() && #[trigger] p[r] == j; assert(p[r] != -1); assert(f(r, p[r] as int) == F::sone()); lead_only(f, n, m, t, p, r, j);
    }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < m && 0 <= k < m && #[trigger] f(i, j) != F::szero() && j != k implies #[trigger] f(i, k) == F::szero() by { lead_only(f, n, m, t, p, i, j); if f(i, k) != F::szero() { lead_only(f, n, m, t, p, i, k); } }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < m && 0 <= k < n && #[trigger] f(i, j) != F::szero() && i != k implies #[trigger] f(k, j) == F::szero() by { lead_only(f, n, m, t, p, i, j); if f(k, j) != F::szero() { lead_only(f, n, m, t, p, k, j); } }
}
// ---- L Q U ----
pub open spec fn p3<F: Field>(k1: int, k2: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { mm(k2, mm(k1, A, B), C) }
pub open spec fn lqu_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    trimat(false, S.L) && S.L.n == m && dims(S.E, m, n) && pivm(fm(S.E), m, n) && trimat(true, S.U) && S.U.n == n && feq(m, n, fm(A), p3(m, n, fm(S.L), fm(S.E), fm(S.U)))
}
pub open spec fn uql_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    trimat(true, S.U) && S.U.n == m && dims(S.E, m, n) && pivm(fm(S.E), m, n) && trimat(false, S.L) && S.L.n == n && feq(m, n, fm(A), p3(m, n, fm(S.U), fm(S.E), fm(S.L)))
}
pub proof fn uinv_feq<F: Field>(X: CM<F>, U: CM<F>) requires uinv_of(X, U) ensures feq(U.n as int, U.n as int, mm(U.n as int, fm(U), fm(X)), idf::<F>())
{ let n = U.n as int; assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, fm(U), fm(X))(i, j) == idf::<F>()(i, j) by { prod_mm(U, X, i, j); assert(prodv(U.col@, n, X.col@, i, j) == if i == j { F::sone() } else { F::szero() }); } }
// a CU step on (A, I): A == C X for the inverse X of U
pub proof fn cu_inv<F: Field>(A: CM<F>, I: CM<F>, C: CM<F>, U: CM<F>) -> (W: spec_fn(int, int) -> F)
    requires cu_of(A, I, C, U), is_identn(I, A.n as int), cmwf(A)
    ensures utri(A.n as int, W), feq(A.m as int, A.n as int, fm(C), mm(A.n as int, fm(A), W)), feq(A.n as int, A.n as int, fm(U), W), trimat(true, U), U.n == A.n
{
    let n = A.n as int; let m = A.m as int; let W = choose|W: spec_fn(int, int) -> F| #[trigger] cu_by(A, I, C, U, W);
    reveal(by_w);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(I)(i, j) == idf::<F>()(i, j) by { assert(cmv(I, i, j) == kdel::<F>(i, j)); }
    mm_idl(n, n, fm(I), W); feq_trans(n, n, fm(U), mm(n, fm(I), W), W); utri_feq(n, W, fm(U)); utri_trimat(U);
    W
}
pub proof fn cu_back<F: Field>(m: int, n: int, A: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F, U: spec_fn(int, int) -> F, X: spec_fn(int, int) -> F)
    requires n >= 0, feq(m, n, C, mm(n, A, W)), feq(n, n, U, W), feq(n, n, mm(n, U, X), idf::<F>())
    ensures feq(m, n, A, mm(n, C, X))
{
    feq_refl(n, n, X); mm_ext(n, n, n, U, W, X, X); feq_sym(n, n, mm(n, U, X), mm(n, W, X)); feq_trans(n, n, mm(n, W, X), mm(n, U, X), idf::<F>());
    mm_ext(m, n, n, C, mm(n, A, W), X, X); mm_assoc(m, n, n, n, A, W, X); mm_idr(m, n, A, mm(n, W, X));
    feq_trans(m, n, mm(n, C, X), mm(n, mm(n, A, W), X), mm(n, A, mm(n, W, X))); feq_trans(m, n, mm(n, C, X), mm(n, A, mm(n, W, X)), A); feq_sym(m, n, mm(n, C, X), A);
}
pub proof fn lqu_from<F: Field>(A: CM<F>, In: CM<F>, C: CM<F>, U: CM<F>, X: CM<F>, D: CM<F>, Im: CM<F>, D2: CM<F>, L2: CM<F>, Y: CM<F>, S: SFact<F>)
    requires cmwf(A), is_identn(In, A.n as int), is_identn(Im, A.m as int), cu_of(A, In, C, U), uinv_of(X, U), is_transpose(D, C), cu_of(D, Im, D2, L2), uinv_of(Y, L2), S.U == X, is_transpose(S.E, D2), is_transpose(S.L, Y), A.n <= i64::MAX, A.m <= i64::MAX
    ensures lqu_of(A, S)
{
    let m = A.m as int; let n = A.n as int;
    let W = cu_inv(A, In, C, U); uinv_feq(X, U); cu_back(m, n, fm(A), fm(C), W, fm(U), fm(X)); trimat_utri(U); rinv_utri(n, fm(U), fm(X)); utri_trimat(X);
    let W2 = cu_inv(D, Im, D2, L2); uinv_feq(Y, L2); cu_back(n, m, fm(D), fm(D2), W2, fm(L2), fm(Y)); trimat_utri(L2); rinv_utri(m, fm(L2), fm(Y));
    // the middle factor
    let p = choose|p: Seq<i64>| #[trigger] cu_tab(fm(C), m, n, p); let t = leadof(p); leads_cu(fm(C), m, n, p); feq_t(C, D); leads_feq(tp(fm(C)), fm(D), n, m, t);
    leads_mul(fm(D), n, m, t, W2); leads_feq(mm(m, fm(D), W2), fm(D2), n, m, t);
    let p2 = choose|p2: Seq<i64>| #[trigger] cu_tab(fm(D2), n, m, p2); cu_pivm(fm(D2), n, m, t, p2); pivm_tp(fm(D2), n, m); feq_t(D2, S.E); pivm_feq(tp(fm(D2)), fm(S.E), m, n);
    // L is Y^T
    feq_t(Y, S.L); 
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] tp(fm(S.L))(i, j) == fm(Y)(i, j) by { assert(fm(S.L)(j, i) == tp(fm(Y))(j, i)); }
    utri_feq(m, fm(Y), tp(fm(S.L))); ltri_trimat(S.L);
    // C == D^T == (D2 Y)^T == L Q
    mm_tp(n, m, m, fm(D2), fm(Y)); mm_ext(m, m, n, fm(S.L), tp(fm(Y)), fm(S.E), tp(fm(D2)));
    let lq = mm(m, fm(S.L), fm(S.E));
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(C)(i, j) == lq(i, j) by {
        assert(fm(D)(j, i) == tp(fm(C))(j, i)); assert(fm(D)(j, i) == mm(m, fm(D2), fm(Y))(j, i)); assert(tp(mm(m, fm(D2), fm(Y)))(i, j) == mm(m, tp(fm(Y)), tp(fm(D2)))(i, j)); assert(lq(i, j) == mm(m, tp(fm(Y)), tp(fm(D2)))(i, j));
    }
    feq_refl(n, n, fm(X)); mm_ext(m, n, n, fm(C), lq, fm(X), fm(X)); feq_trans(m, n, fm(A), mm(n, fm(C), fm(X)), p3(m, n, fm(S.L), fm(S.E), fm(S.U)));
}
pub proof fn uql_from<F: Field>(A: CM<F>, B: CM<F>, S: SFact<F>, R: SFact<F>)
    requires cmwf(A), is_jconj(B, A), lqu_of(B, S), is_jconj(R.E, S.E), is_jconj(R.U, S.L), is_jconj(R.L, S.U)
    ensures uql_of(A, R)
{
    let m = A.m as int; let n = A.n as int; let a = fm(S.L); let b = fm(S.E); let c = fm(S.U);
    feq_j(S.E, R.E); feq_j(S.L, R.U); feq_j(S.U, R.L); pivm_jc(b, m, n); pivm_feq(jc(m, n, b), fm(R.E), m, n);
    trimat_ltri(S.L); trimat_utri(S.U);
    assert(utri(m, fm(R.U))) by {
        assert forall|k: int, j: int| 0 <= j < k < m implies #[trigger] fm(R.U)(k, j) == F::szero() by { assert(fm(R.U)(k, j) == jc(m, m, a)(k, j)); assert(tp(a)(m - 1 - j, m - 1 - k) == F::szero()); }
        assert forall|j: int| 0 <= j < m implies #[trigger] fm(R.U)(j, j) != F::szero() by { assert(fm(R.U)(j, j) == jc(m, m, a)(j, j)); assert(tp(a)(m - 1 - j, m - 1 - j) != F::szero()); }
    }
    assert(ltri(n, fm(R.L))) by {
        assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] tp(fm(R.L))(k, j) == F::szero() by { assert(fm(R.L)(j, k) == jc(n, n, c)(j, k)); assert(c(n - 1 - j, n - 1 - k) == F::szero()); }
        assert forall|j: int| 0 <= j < n implies #[trigger] tp(fm(R.L))(j, j) != F::szero() by { assert(fm(R.L)(j, j) == jc(n, n, c)(j, j)); assert(c(n - 1 - j, n - 1 - j) != F::szero()); }
    }
    utri_trimat(R.U); ltri_trimat(R.L);
    let ab = mm(m, a, b); let ja = jc(m, m, a); let jb = jc(m, n, b); let jd = jc(n, n, c);
    mm_jc(m, m, n, a, b); feq_refl(n, n, jd); mm_ext(m, n, n, jc(m, n, ab), mm(m, ja, jb), jd, jd); mm_jc(m, n, n, ab, c);
    let f = p3(m, n, a, b, c); let g = p3(m, n, ja, jb, jd); let h = p3(m, n, fm(R.U), fm(R.E), fm(R.L));
    feq_trans(m, n, jc(m, n, f), mm(n, jc(m, n, ab), jd), g);
    mm_ext(m, m, n, fm(R.U), ja, fm(R.E), jb); mm_ext(m, n, n, mm(m, fm(R.U), fm(R.E)), mm(m, ja, jb), fm(R.L), jd);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(A)(i, j) == h(i, j) by { let i2 = m - 1 - i; let j2 = n - 1 - j; assert(cmv(B, i2, j2) == cmv(A, i, j)); assert(fm(B)(i2, j2) == f(i2, j2)); assert(jc(m, n, f)(i, j) == g(i, j)); assert(h(i, j) == g(i, j)); }
}
@end
@fn LQU_inplace(&mut SFact<F>) as lqu_inplace
@prop P07
@requires
  cmwf(old(F).E), is_identn(old(F).L, old(F).E.m as int), is_identn(old(F).U, old(F).E.n as int)
@ensures
  lqu_of(old(F).E, *final(F)), final(F).P == old(F).P
@at entry
  let ghost S0 = *F;
  proof { vec_max(F.E.col); vec_max(F.L.col); }
@at after cu_inplace 0
  let ghost C1 = F.E;
  let ghost U1 = F.U;
  proof { let W = cu_inv(S0.E, S0.U, C1, U1); }
@at after cm_u_inv 0
  let ghost X1 = r_cm_u_inv_0;
@at before cu_inplace 1
  let ghost D1 = F.E;
@at after cu_inplace 1
  let ghost D2 = F.E;
  let ghost L2 = F.L;
  proof { let W2 = cu_inv(D1, S0.L, D2, L2); }
@at after cm_u_inv 1
  let ghost Y1 = r_cm_u_inv_1;
@at exit
  proof { lqu_from(S0.E, S0.U, C1, U1, X1, D1, S0.L, D2, L2, Y1, *F); }
@fn LQU(CM<F>) as lqu
@prop P07
@requires
  cmwf(*A)
@ensures
  lqu_of(*A, ret)
@fn UQL(CM<F>) as uql
@prop P07
@requires
  cmwf(*A)
@ensures
  uql_of(*A, ret)
@at after cm_J_conj 0
  let ghost Aj = r_cm_J_conj_0;
@at after lqu 0
  let ghost S0 = r_lqu_0;
@at before return 0
  proof { uql_from(*A, Aj, S0, F); }
