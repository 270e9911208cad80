@unit la
@uses lqu2
@rust
// ---- the anti-transpose (transpose, rows and columns reversed) has the mirrored pivots ----
pub open spec fn atp<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { |i: int, j: int| f(m - 1 - j, n - 1 - i) }
pub proof fn mm_atp<F: Field>(m: int, n: int, p: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F) requires 0 <= n <= usize::MAX ensures feq(p, m, atp(m, p, mm(n, A, B)), mm(n, atp(n, p, B), atp(m, n, A)))
{
    mm_tp(m, n, p, A, B); mm_jc(p, n, m, tp(B), tp(A)); let jb = jc(p, n, tp(B)); let ja = jc(n, m, tp(A));
    assert(feq(p, n, atp(n, p, B), jb)); assert(feq(n, m, atp(m, n, A), ja)); mm_ext(p, n, m, atp(n, p, B), jb, atp(m, n, A), ja);
    assert forall|i: int, j: int| 0 <= i < p && 0 <= j < m implies #[trigger] atp(m, p, mm(n, A, B))(i, j) == mm(n, atp(n, p, B), atp(m, n, A))(i, j) by {
        assert(jc(p, m, mm(n, tp(B), tp(A)))(i, j) == mm(n, jb, ja)(i, j)); assert(tp(mm(n, A, B))(p - 1 - i, m - 1 - j) == mm(n, tp(B), tp(A))(p - 1 - i, m - 1 - j));
        assert(mm(n, atp(n, p, B), atp(m, n, A))(i, j) == mm(n, jb, ja)(i, j));
    }
}
pub proof fn utri_atp<F: Field>(n: int, U: spec_fn(int, int) -> F) requires utri(n, U) ensures utri(n, atp(n, n, U))
{ assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] atp(n, n, U)(k, j) == F::szero() by { assert(U(n - 1 - j, n - 1 - k) == F::szero()); } assert forall|j: int| 0 <= j < n implies #[trigger] atp(n, n, U)(j, j) != F::szero() by { assert(U(n - 1 - j, n - 1 - j) != F::szero()); } }
pub proof fn pivtab_distinct<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, i: int, r: int)
    requires pivtab(w, m, n, p), 0 <= i < m, 0 <= r < m, p[i] == p[r], p[i] != NO_IND ensures i == r
{ if i < r { assert(w(r, p[i] as int) == F::szero()); assert(w(r, p[r] as int) != F::szero()); } if r < i { assert(w(i, p[r] as int) == F::szero()); assert(w(i, p[i] as int) != F::szero()); } }
// a sum over the columns is a sum over the pivot rows when the other columns do not count
pub proof fn fsum_piv<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, f: spec_fn(int) -> F, g: spec_fn(int) -> F)
    requires m >= 0, n >= 0, pivtab(w, m, n, p), forall|c: int| 0 <= c < n && !haspiv(p, c) ==> #[trigger] f(c) == F::szero(), forall|r: int| 0 <= r < m ==> #[trigger] g(r) == if p[r] != NO_IND { f(p[r] as int) } else { F::szero() }
    ensures fsum(n, f) == fsum(m, g)
{
    let G = |c: int, r: int| if p[r] == c { f(c) } else { F::szero() };
    assert forall|c: int| 0 <= c < n implies #[trigger] f(c) == fsum(m, |r: int| G(c, r)) by {
        let h = |r: int| G(c, r);
        if haspiv(p, c) { let a = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == c; assert forall|r: int| 0 <= r < m && r != a implies #[trigger] h(r) == F::szero() by { if p[r] == c { pivtab_distinct(w, m, n, p, a, r); } } fsum_one(m, h, a); }
        else { assert forall|r: int| 0 <= r < m implies #[trigger] h(r) == F::szero() by { if p[r] == c { assert(haspiv(p, c)); } } fsum_zero(m, h); }
    }
    assert forall|r: int| 0 <= r < m implies #[trigger] g(r) == fsum(n, |c: int| G(c, r)) by {
        let h = |c: int| G(c, r);
        if p[r] != NO_IND { let a = p[r] as int; assert forall|c: int| 0 <= c < n && c != a implies #[trigger] h(c) == F::szero() by { } fsum_one(n, h, a); }
        else { assert forall|c: int| 0 <= c < n implies #[trigger] h(c) == F::szero() by { } fsum_zero(n, h); }
    }
    fubini(n, m, G, f, g);
}
// W A has, in every pivot row of A, a row of an upper triangular matrix starting in the pivot column, and zero rows elsewhere (W upper triangular)
pub open spec fn row_form<F: Field>(m: int, n: int, p: Seq<usize>, B: spec_fn(int, int) -> F, N: spec_fn(int, int) -> F) -> bool { forall|r: int, j: int| 0 <= r < m && 0 <= j < n ==> #[trigger] B(r, j) == if p[r] != NO_IND { N(p[r] as int, j) } else { F::szero() } }
pub proof fn col_factor<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, V: spec_fn(int, int) -> F, p: Seq<usize>) -> (res: (spec_fn(int, int) -> F, spec_fn(int, int) -> F))
    requires m >= 0, n >= 0, pivots_by(A, m, n, V, p)
    ensures utri(m, res.0), feq(m, n, mm(m, res.0, res.1), A), exists|N: spec_fn(int, int) -> F| utri(n, N) && #[trigger] row_form(m, n, p, res.1, N), forall|r: int, j: int| 0 <= r < m && 0 <= j < n && p[r] == NO_IND ==> #[trigger] (res.1)(r, j) == F::szero()
{
    broadcast use field_basic; F::ax_one_ne_zero();
    let w = mm(n, A, V);
    let M = |i: int, r: int| if p[r] != NO_IND { w(i, p[r] as int) } else { kdel::<F>(i, r) };
    assert(utri(m, M)) by {
        assert forall|i: int, r: int| 0 <= r < i < m implies #[trigger] M(i, r) == F::szero() by { if p[r] != NO_IND { assert(w(i, p[r] as int) == F::szero()); } }
        assert forall|r: int| 0 <= r < m implies #[trigger] M(r, r) != F::szero() by { }
    }
    let N = rinv_exists(n, V); rinv_utri(n, V, N);
    // w N == A
    mm_assoc(m, n, n, n, A, V, N); feq_refl(m, n, A); mm_ext(m, n, n, A, A, mm(n, V, N), idf::<F>()); mm_idr(m, n, A, mm(n, V, N));
    let Y = |r: int, j: int| if p[r] != NO_IND { N(p[r] as int, j) } else { F::szero() };
    // M Y == A
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(m, M, Y)(i, j) == A(i, j) by {
        let f = mqf(w, colf(N, j), i); let g = mqf(M, colf(Y, j), i);
        assert forall|c: int| 0 <= c < n && !haspiv(p, c) implies #[trigger] f(c) == F::szero() by { assert(w(i, c) == F::szero()); }
        assert forall|r: int| 0 <= r < m implies #[trigger] g(r) == if p[r] != NO_IND { f(p[r] as int) } else { F::szero() } by { F::ax_mul_comm(F::szero(), M(i, r)); }
        fsum_piv(w, m, n, p, f, g);
        assert(mm(n, w, N)(i, j) == mm(n, A, mm(n, V, N))(i, j)); assert(mm(n, A, mm(n, V, N))(i, j) == A(i, j));
    }
    assert(row_form(m, n, p, Y, N));
    (M, Y)
}
pub proof fn row_reduce<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, V: spec_fn(int, int) -> F, p: Seq<usize>) -> (res: (spec_fn(int, int) -> F, spec_fn(int, int) -> F))
    requires m >= 0, n >= 0, pivots_by(A, m, n, V, p)
    ensures utri(m, res.0), utri(n, res.1), row_form(m, n, p, mm(m, res.0, A), res.1)
{
    let (M, Y) = col_factor(A, m, n, V, p); let N = choose|N: spec_fn(int, int) -> F| utri(n, N) && #[trigger] row_form(m, n, p, Y, N);
    let W = rinv_exists(m, M); rinv_utri(m, M, W); utri_linv(m, M, W);
    // W A == W M Y == Y
    feq_refl(m, m, W); mm_ext(m, m, n, W, W, mm(m, M, Y), A); mm_assoc(m, m, m, n, W, M, Y); mm_idl(m, n, mm(m, W, M), Y);
    let B = mm(m, W, A);
    assert forall|r: int, j: int| 0 <= r < m && 0 <= j < n implies #[trigger] B(r, j) == Y(r, j) by { assert(mm(m, W, mm(m, M, Y))(r, j) == B(r, j)); assert(mm(m, mm(m, W, M), Y)(r, j) == mm(m, W, mm(m, M, Y))(r, j)); assert(mm(m, mm(m, W, M), Y)(r, j) == Y(r, j)); }
    assert forall|r: int, j: int| 0 <= r < m && 0 <= j < n implies #[trigger] B(r, j) == (if p[r] != NO_IND { N(p[r] as int, j) } else { F::szero() }) by { assert(B(r, j) == Y(r, j)); }
    (W, N)
}
// the mirrored table: column r is the pivot of row c exactly when row c was the pivot row of column r
pub open spec fn mirror(m: int, n: int, p: Seq<usize>, q: Seq<usize>) -> bool {
    &&& q.len() == n
    &&& forall|r: int| 0 <= r < m && #[trigger] p[r] != NO_IND ==> p[r] < n && q[n - 1 - p[r]] == m - 1 - r
    &&& forall|c: int| 0 <= c < n && #[trigger] q[c] != NO_IND ==> q[c] < m && p[m - 1 - q[c]] == n - 1 - c
}
pub open spec fn piv_row(p: Seq<usize>, c: int) -> int { choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == c }
pub open spec fn mirror_of(m: int, n: int, p: Seq<usize>) -> Seq<usize> { Seq::new(n as nat, |c: int| if haspiv(p, n - 1 - c) { (m - 1 - piv_row(p, n - 1 - c)) as usize } else { NO_IND }) }
pub proof fn mirror_is<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>) requires 0 <= m <= NO_IND, n >= 0, pivtab(w, m, n, p) ensures mirror(m, n, p, mirror_of(m, n, p))
{
    let q = mirror_of(m, n, p);
    assert forall|r: int| 0 <= r < m && #[trigger] p[r] != NO_IND implies p[r] < n && q[n - 1 - p[r]] == m - 1 - r by { let c = p[r] as int; assert(haspiv(p, c)); let a = piv_row(p, c); assert(0 <= a < p.len() && p[a] == c); pivtab_distinct(w, m, n, p, a, r); }
    assert forall|c: int| 0 <= c < n && #[trigger] q[c] != NO_IND implies q[c] < m && p[m - 1 - q[c]] == n - 1 - c by { let a = piv_row(p, n - 1 - c); assert(haspiv(p, n - 1 - c)); assert(0 <= a < p.len() && p[a] == n - 1 - c); }
}
pub proof fn anti_pivots<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>)
    requires 0 <= m <= NO_IND, 0 <= n, pivots_of(A, m, n, p)
    ensures mirror(m, n, p, mirror_of(m, n, p)), pivots_of(atp(m, n, A), n, m, mirror_of(m, n, p))
{
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p);
    let w = mm(n, A, V); let (W, N) = row_reduce(A, m, n, V, p); mirror_is(w, m, n, p); let q = mirror_of(m, n, p);
    let B = mm(m, W, A); let At = atp(m, n, A); let Wt = atp(m, m, W); mm_atp(m, m, n, W, A); utri_atp(m, W); let x = mm(m, At, Wt);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] x(i, j) == (if p[m - 1 - j] != NO_IND { N(p[m - 1 - j] as int, n - 1 - i) } else { F::szero() }) by { assert(atp(m, n, B)(i, j) == x(i, j)); assert(B(m - 1 - j, n - 1 - i) == atp(m, n, B)(i, j)); }
    assert(pivtab(x, n, m, q)) by {
        assert forall|i: int| 0 <= i < n && #[trigger] q[i] != NO_IND implies q[i] < m && x(i, q[i] as int) != F::szero() by { let r = m - 1 - q[i]; assert(p[r] == n - 1 - i); assert(N(n - 1 - i, n - 1 - i) != F::szero()); }
        assert forall|i: int, r: int| 0 <= i < r < n && #[trigger] q[i] != NO_IND implies #[trigger] x(r, q[i] as int) == F::szero() by { assert(p[m - 1 - q[i]] == n - 1 - i); assert(N(n - 1 - i, n - 1 - r) == F::szero()); }
        assert forall|j: int, r: int| 0 <= j < m && 0 <= r < n && !haspiv(q, j) implies #[trigger] x(r, j) == F::szero() by { if p[m - 1 - j] != NO_IND { let c = n - 1 - p[m - 1 - j]; assert(q[c] == j); assert(haspiv(q, j)); } }
    }
    assert(pivots_by(At, n, m, Wt, q));
}
pub proof fn pivots_feq<F: Field>(A: spec_fn(int, int) -> F, A2: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>) requires pivots_of(A, m, n, p), feq(m, n, A, A2) ensures pivots_of(A2, m, n, p)
{
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p); feq_refl(n, n, V); mm_ext(m, n, n, A, A2, V, V); let w = mm(n, A, V); let x = mm(n, A2, V);
    assert(pivtab(x, m, n, p)) by {
        assert forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND implies p[i] < n && x(i, p[i] as int) != F::szero() by { assert(w(i, p[i] as int) == x(i, p[i] as int)); }
        assert forall|i: int, r: int| 0 <= i < r < m && #[trigger] p[i] != NO_IND implies #[trigger] x(r, p[i] as int) == F::szero() by { assert(p[i] < n); assert(w(r, p[i] as int) == x(r, p[i] as int)); }
        assert forall|j: int, r: int| 0 <= j < n && 0 <= r < m && !haspiv(p, j) implies #[trigger] x(r, j) == F::szero() by { assert(w(r, j) == x(r, j)); }
    }
    assert(pivots_by(A2, m, n, V, p));
}
@end
