@unit la
@uses lqu2
@rust
pub open spec fn rinv_by<F: Field>(A: CM<F>, B: spec_fn(int, int) -> F) -> bool { feq(A.n as int, A.n as int, mm(A.n as int, fm(A), B), idf::<F>()) }
pub open spec fn invertible<F: Field>(A: CM<F>) -> bool { cmwf(A) && A.m == A.n && exists|B: spec_fn(int, int) -> F| #[trigger] rinv_by(A, B) }
pub open spec fn inv_of<F: Field>(A: CM<F>, R: CM<F>) -> bool { let n = A.n as int; dims(R, n, n) && feq(n, n, mm(n, fm(A), fm(R)), idf::<F>()) && feq(n, n, mm(n, fm(R), fm(A)), idf::<F>()) }
// L Y == 1 with L lower triangular: no row of Y is zero
pub proof fn row_nz<F: Field>(n: int, L: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F, i: int)
    requires n >= 0, ltri(n, L), feq(n, n, mm(n, L, Y), idf::<F>()), 0 <= i < n
    ensures Y(i, i) == F::szero() ==> exists|k: int| 0 <= k < n && #[trigger] Y(i, k) != F::szero()
{
    ltri_linv(n, L, Y); assert(mm(n, Y, L)(i, i) == idf::<F>()(i, i)); F::ax_one_ne_zero(); 
    if forall|k: int| 0 <= k < n ==> #[trigger] Y(i, k) == F::szero() { broadcast use field_basic; let f = mqf(Y, colf(L, i), i); assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == F::szero() by { assert(Y(i, k) == F::szero()); } fsum_zero(n, f); }
}
pub open spec fn hasnz<F: Field>(Q: spec_fn(int, int) -> F, n: int, i: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] Q(i, k) != F::szero() }
pub open spec fn nzof<F: Field>(Q: spec_fn(int, int) -> F, n: int, i: int) -> int { choose|k: int| 0 <= k < n && #[trigger] Q(i, k) != F::szero() }
// a pivot matrix without zero rows is a permutation: Q Q^T == 1 == Q^T Q
pub proof fn pivm_inv<F: Field>(n: int, Q: spec_fn(int, int) -> F)
    requires n >= 0, pivm(Q, n, n), forall|i: int| 0 <= i < n ==> #[trigger] hasnz(Q, n, i)
    ensures feq(n, n, mm(n, Q, tp(Q)), idf::<F>()), feq(n, n, mm(n, tp(Q), Q), idf::<F>())
{
    broadcast use field_basic;
    let sg = Seq::new(n as nat, |i: int| nzof(Q, n, i));
    assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] sg[i] < n && Q(i, sg[i]) == F::sone() by { assert(hasnz(Q, n, i)); }
    F::ax_one_ne_zero();
    assert(injperm(sg, n)) by { assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] sg[a] != #[trigger] sg[b] by { assert(Q(a, sg[a]) != F::szero()); assert(Q(b, sg[b]) != F::szero()); } }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, Q, tp(Q))(i, j) == idf::<F>()(i, j) by {
        let f = mqf(Q, colf(tp(Q), j), i); let k = sg[i];
        assert forall|q: int| 0 <= q < n && q != k implies #[trigger] f(q) == F::szero() by { assert(Q(i, k) != F::szero()); assert(Q(i, q) == F::szero()); }
        fsum_one(n, f, k); assert(Q(i, k) == F::sone()); F::ax_mul_one(F::sone());
        if j != i { assert(Q(j, k) == F::szero()); }
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, tp(Q), Q)(i, j) == idf::<F>()(i, j) by {
        let f = mqf(tp(Q), colf(Q, j), i); let k = perm_pre(sg, n, i); perm_pre_ok(sg, n, i); assert(Q(k, sg[k]) == F::sone());
        assert forall|q: int| 0 <= q < n && q != k implies #[trigger] f(q) == F::szero() by { assert(Q(k, i) != F::szero()); assert(Q(q, i) == F::szero()); }
        fsum_one(n, f, k); F::ax_mul_one(F::sone());
        if j != i { assert(Q(k, i) != F::szero()); assert(Q(k, j) == F::szero()); }
    }
}
// A == L Q X, M and V inverses of L and X: V Q^T M inverts A
pub proof fn lqu_inv<F: Field>(n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, L: spec_fn(int, int) -> F, Q: spec_fn(int, int) -> F, X: spec_fn(int, int) -> F, V: spec_fn(int, int) -> F, T: spec_fn(int, int) -> F, M: spec_fn(int, int) -> F, R: spec_fn(int, int) -> F)
    requires n >= 0, feq(n, n, A, p3(n, n, L, Q, X)), feq(n, n, mm(n, A, B), idf::<F>()), ltri(n, L), utri(n, X), pivm(Q, n, n), feq(n, n, mm(n, X, V), idf::<F>()), feq(n, n, mm(n, L, M), idf::<F>()), feq(n, n, T, tp(Q)), feq(n, n, R, p3(n, n, V, T, M))
    ensures feq(n, n, mm(n, A, R), idf::<F>()), feq(n, n, mm(n, R, A), idf::<F>())
{
    let id = idf::<F>(); let lq = mm(n, L, Q); let qx = mm(n, Q, X);
    // rows of Q: L (Q (X B)) == 1
    let xb = mm(n, X, B); let y = mm(n, Q, xb);
    feq_refl(n, n, B); mm_ext(n, n, n, A, mm(n, lq, X), B, B); mm_assoc(n, n, n, n, lq, X, B); mm_assoc(n, n, n, n, L, Q, xb);
    feq_sym(n, n, mm(n, A, B), mm(n, mm(n, lq, X), B));
    feq_trans(n, n, mm(n, mm(n, lq, X), B), mm(n, A, B), id); feq_sym(n, n, mm(n, mm(n, lq, X), B), mm(n, lq, xb)); feq_trans(n, n, mm(n, lq, xb), mm(n, mm(n, lq, X), B), id);
    feq_sym(n, n, mm(n, lq, xb), mm(n, L, y)); feq_trans(n, n, mm(n, L, y), mm(n, lq, xb), id);
    assert forall|i: int| 0 <= i < n implies #[trigger] hasnz(Q, n, i) by {
        if !hasnz(Q, n, i) {
            broadcast use field_basic; row_nz(n, L, y, i);
            assert forall|k: int| 0 <= k < n implies #[trigger] y(i, k) == F::szero() by { let f = mqf(Q, colf(xb, k), i); assert forall|q: int| 0 <= q < n implies #[trigger] f(q) == F::szero() by { assert(Q(i, q) == F::szero()); } fsum_zero(n, f); }
            assert(y(i, i) == F::szero()); assert(exists|k: int| 0 <= k < n && #[trigger] y(i, k) != F::szero());
        }
    }
    pivm_inv(n, Q);
    feq_refl(n, n, Q); mm_ext(n, n, n, Q, Q, T, tp(Q)); feq_trans(n, n, mm(n, Q, T), mm(n, Q, tp(Q)), id); mm_ext(n, n, n, T, tp(Q), Q, Q); feq_trans(n, n, mm(n, T, Q), mm(n, tp(Q), Q), id);
    ltri_linv(n, L, M); utri_linv(n, X, V);
    p3_inv(n, L, Q, X, M, T, V); p3_inv(n, V, T, M, X, Q, L);
    let a = p3(n, n, L, Q, X); let r = p3(n, n, V, T, M);
    mm_ext(n, n, n, A, a, R, r); feq_trans(n, n, mm(n, A, R), mm(n, a, r), id); mm_ext(n, n, n, R, r, A, a); feq_trans(n, n, mm(n, R, A), mm(n, r, a), id);
}
pub proof fn cancel<F: Field>(n: int, Z: spec_fn(int, int) -> F, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F)
    requires n >= 0, feq(n, n, mm(n, A, B), idf::<F>())
    ensures feq(n, n, mm(n, mm(n, Z, A), mm(n, B, W)), mm(n, Z, W))
{
    let bw = mm(n, B, W); mm_assoc(n, n, n, n, Z, A, bw); mm_assoc(n, n, n, n, A, B, W); mm_idl(n, n, mm(n, A, B), W);
    feq_sym(n, n, mm(n, mm(n, A, B), W), mm(n, A, bw)); feq_trans(n, n, mm(n, A, bw), mm(n, mm(n, A, B), W), W); feq_refl(n, n, Z); mm_ext(n, n, n, Z, Z, mm(n, A, bw), W);
    feq_trans(n, n, mm(n, mm(n, Z, A), bw), mm(n, Z, mm(n, A, bw)), mm(n, Z, W));
}
// (A1 A2 A3)(B3 B2 B1) == 1
pub proof fn p3_inv<F: Field>(n: int, A1: spec_fn(int, int) -> F, A2: spec_fn(int, int) -> F, A3: spec_fn(int, int) -> F, B1: spec_fn(int, int) -> F, B2: spec_fn(int, int) -> F, B3: spec_fn(int, int) -> F)
    requires n >= 0, feq(n, n, mm(n, A1, B1), idf::<F>()), feq(n, n, mm(n, A2, B2), idf::<F>()), feq(n, n, mm(n, A3, B3), idf::<F>())
    ensures feq(n, n, mm(n, p3(n, n, A1, A2, A3), p3(n, n, B3, B2, B1)), idf::<F>())
{
    let a12 = mm(n, A1, A2); let b32 = mm(n, B3, B2); let a = mm(n, a12, A3); let b = mm(n, b32, B1); let b21 = mm(n, B2, B1);
    mm_assoc(n, n, n, n, B3, B2, B1); feq_refl(n, n, a); mm_ext(n, n, n, a, a, b, mm(n, B3, b21));
    cancel(n, a12, A3, B3, b21); cancel(n, A1, A2, B2, B1);
    feq_trans(n, n, mm(n, a, b), mm(n, a, mm(n, B3, b21)), mm(n, a12, b21)); feq_trans(n, n, mm(n, a, b), mm(n, a12, b21), mm(n, A1, B1)); feq_trans(n, n, mm(n, a, b), mm(n, A1, B1), idf::<F>());
}
pub proof fn all_mm3<F: Field>(A: CM<F>, B: CM<F>, C: CM<F>)
    ensures forall|Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) ==> feq(A.m as int, C.n as int, fm(Y), p3(A.n as int, C.m as int, fm(A), fm(B), fm(C)))
{ assert forall|Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) implies feq(A.m as int, C.n as int, fm(Y), p3(A.n as int, C.m as int, fm(A), fm(B), fm(C))) by { prod3_feq(Y, X, A, B, C); } }
pub proof fn inv_from<F: Field>(A: CM<F>, S: SFact<F>, V: CM<F>, T: CM<F>, M: CM<F>, R: CM<F>)
    requires invertible(A), lqu_of(A, S), uinv_of(V, S.U), is_transpose(T, S.E), uinv_of(M, S.L), dims(R, A.n as int, A.n as int), feq(A.n as int, A.n as int, fm(R), p3(A.n as int, A.n as int, fm(V), fm(T), fm(M)))
    ensures inv_of(A, R)
{
    let n = A.n as int; let B = choose|B: spec_fn(int, int) -> F| #[trigger] rinv_by(A, B);
    uinv_feq(V, S.U); uinv_feq(M, S.L); trimat_utri(S.U); trimat_ltri(S.L); feq_t(S.E, T);
    lqu_inv(n, fm(A), B, fm(S.L), fm(S.E), fm(S.U), fm(V), fm(T), fm(M), fm(R));
}
pub proof fn inv_all<F: Field>(A: CM<F>, S: SFact<F>)
    requires invertible(A), lqu_of(A, S)
    ensures forall|V: CM<F>, T: CM<F>, M: CM<F>, X: CM<F>, R: CM<F>| #[trigger] is_transpose(T, S.E) && #[trigger] mulof(X, V, T) && #[trigger] mulof(R, X, M) && uinv_of(V, S.U) && uinv_of(M, S.L) ==> inv_of(A, R)
{
    assert forall|V: CM<F>, T: CM<F>, M: CM<F>, X: CM<F>, R: CM<F>| #[trigger] is_transpose(T, S.E) && #[trigger] mulof(X, V, T) && #[trigger] mulof(R, X, M) && uinv_of(V, S.U) && uinv_of(M, S.L) implies inv_of(A, R) by { prod3_feq(R, X, V, T, M); inv_from(A, S, V, T, M, R); }
}
@end
@fn inv(CM<F>) as cm_inv
@prop P07
@requires
  invertible(*A)
@ensures
  inv_of(*A, ret)
@at before return 0
  proof { inv_all(*A, F); }
