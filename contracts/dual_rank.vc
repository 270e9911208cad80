@unit la
@uses dual_lem rcc
@rust
// ---- a matrix and its transpose have the same number of pivots ----
pub open spec fn supp_on<F: Field>(n: int, y: spec_fn(int) -> F, zc: spec_fn(int) -> bool) -> bool { (forall|j: int| 0 <= j < n && !zc(j) ==> #[trigger] y(j) == F::szero()) && exists|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() }
pub open spec fn killed_rows<F: Field>(m: int, n: int, Z: spec_fn(int, int) -> F, y: spec_fn(int) -> F, zr: spec_fn(int) -> bool) -> bool { forall|i: int| 0 <= i < m && zr(i) ==> #[trigger] mq(n, Z, y, i) == F::szero() }
pub proof fn cnt_some(n: int, z: spec_fn(int) -> bool) -> (i: int) requires cnt(n, z) > 0 ensures 0 <= i < n, z(i) decreases n { if n <= 0 { 0 } else if z(n - 1) { n - 1 } else { cnt_some(n - 1, z) } }
// more columns than rows: some combination of the columns vanishes
pub proof fn more_cols<F: Field>(m: int, n: int, Z: spec_fn(int, int) -> F, zr: spec_fn(int) -> bool, zc: spec_fn(int) -> bool) -> (y: spec_fn(int) -> F)
    requires m >= 0, n >= 0, cnt(m, zr) < cnt(n, zc)
    ensures supp_on(n, y, zc), killed_rows(m, n, Z, y, zr)
    decreases m
{
    broadcast use field_basic; F::ax_one_ne_zero();
    if m == 0 { let c = cnt_some(n, zc); let y = |j: int| kdel::<F>(j, c); assert(y(c) != F::szero()); y }
    else if !zr(m - 1) || (forall|j: int| 0 <= j < n && zc(j) ==> #[trigger] Z(m - 1, j) == F::szero()) {
        lemma_cnt_nonneg(m - 1, zr);
        let y = more_cols(m - 1, n, Z, zr, zc);
        assert forall|i: int| 0 <= i < m && zr(i) implies #[trigger] mq(n, Z, y, i) == F::szero() by { if i == m - 1 { assert forall|k: int| 0 <= k < n implies #[trigger] mqf(Z, y, i)(k) == F::szero() by { if zc(k) { assert(Z(m - 1, k) == F::szero()); } else { assert(y(k) == F::szero()); F::ax_mul_comm(F::szero(), Z(i, k)); } } fsum_zero(n, mqf(Z, y, i)); } }
        y
    } else {
        let l = m - 1; let c = choose|j: int| 0 <= j < n && zc(j) && #[trigger] Z(l, j) != F::szero(); let d = Z(l, c); let b = F::sinv(d);
        let zc1 = |j: int| zc(j) && j != c; cnt_remove(n, zc, zc1, c);
        let Z1 = |i: int, j: int| F::sadd(Z(i, j), F::smul(F::sneg(F::smul(Z(i, c), b)), Z(l, j)));
        let y1 = more_cols(l, n, Z1, zr, zc1);
        let a = F::sneg(F::smul(mq(n, Z, y1, l), b));
        let y = vadd1(y1, c, a);
        let j0 = choose|j: int| 0 <= j < n && #[trigger] y1(j) != F::szero(); assert(zc1(j0)); assert(y(j0) == y1(j0));
        assert forall|j: int| 0 <= j < n && !zc(j) implies #[trigger] y(j) == F::szero() by { assert(!zc1(j)); assert(y1(j) == F::szero()); }
        assert forall|i: int| 0 <= i < m && zr(i) implies #[trigger] mq(n, Z, y, i) == F::szero() by {
            mq_add1(n, Z, y1, c, a, i);
            let s = mq(n, Z, y1, l); let t = mq(n, Z, y1, i); let x = Z(i, c);
            if i == l { mix_cancel(s, d); }
            else {
                // Z1 y1 == Z y1 - x b (Z y1)_l
                let f = mqf(Z, y1, i); let g = mqf(Z, y1, l); let e = F::sneg(F::smul(x, b)); let h = |k: int| F::smul(e, g(k)); let q = mqf(Z1, y1, i);
                fsum_scale(n, e, g, h);
                assert forall|k: int| 0 <= k < n implies #[trigger] q(k) == F::sadd(f(k), h(k)) by { let u = y1(k); let v = Z(l, k); F::ax_distrib(u, Z(i, k), F::smul(e, v)); F::ax_mul_assoc(u, e, v); F::ax_mul_comm(u, e); F::ax_mul_assoc(e, u, v); }
                fsum_add(n, f, h, q);
                assert(mq(n, Z1, y1, i) == F::szero());
                // e s == a x
                f_neg_mul(F::smul(x, b), s); f_neg_mul(F::smul(s, b), x); F::ax_mul_assoc(x, b, s); F::ax_mul_comm(b, s); F::ax_mul_comm(x, F::smul(s, b));
            }
        }
        y
    }
}
pub proof fn lemma_cnt_nonneg(n: int, z: spec_fn(int) -> bool) ensures 0 <= cnt(n, z) decreases n { if n > 0 { lemma_cnt_nonneg(n - 1, z); } }
pub proof fn mix_cancel<F: Field>(s: F, d: F) requires d != F::szero() ensures F::sadd(s, F::smul(F::sneg(F::smul(s, F::sinv(d))), d)) == F::szero()
{ f_div_mul(s, d); f_neg_mul(F::smul(s, F::sinv(d)), d); F::ax_add_neg(s); }
// columns with distinct last rows are independent
pub proof fn piv_indep<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, y: spec_fn(int) -> F)
    requires m >= 0, n >= 0, pivtab(w, m, n, p), supp_on(n, y, hp(p)) ensures exists|i: int| 0 <= i < m && #[trigger] mq(n, w, y, i) != F::szero()
{
    broadcast use field_basic;
    let j0 = choose|j: int| 0 <= j < n && #[trigger] y(j) != F::szero(); assert(hp(p)(j0)); let i0 = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j0;
    let g = |i: int| if p[i] != NO_IND { y(p[i] as int) } else { F::szero() }; assert(p[i0] != NO_IND); assert(g(i0) != F::szero());
    let t = top_nz(g, i0, m); let c = p[t] as int; let f = mqf(w, y, t);
    assert forall|k: int| 0 <= k < n && k != c implies #[trigger] f(k) == F::szero() by {
        F::ax_mul_comm(F::szero(), w(t, k));
        if y(k) != F::szero() { assert(hp(p)(k)); let r = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(g(r) == y(k)); if r > t { assert(g(r) == F::szero()); } assert(r < t); assert(w(t, p[r] as int) == F::szero()); }
    }
    fsum_one(n, f, c); assert(w(t, p[t] as int) != F::szero()); assert(y(c) == g(t));
    if F::smul(y(c), w(t, c)) == F::szero() { F::ax_inv(w(t, c)); F::ax_mul_assoc(y(c), w(t, c), F::sinv(w(t, c))); F::ax_mul_comm(F::szero(), F::sinv(w(t, c))); F::ax_mul_one(y(c)); }
    assert(mq(n, w, y, t) != F::szero());
}
pub proof fn rank_le<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, q: Seq<usize>)
    requires 0 <= m <= NO_IND, 0 <= n <= NO_IND, pivots_of(A, m, n, p), pivots_of(tp(A), n, m, q) ensures npiv(q) <= npiv(p)
{
    broadcast use field_basic;
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p); let V2 = choose|V: spec_fn(int, int) -> F| pivots_by(tp(A), n, m, V, q); let w = mm(n, A, V); let x = mm(m, tp(A), V2);
    assert(distinct_tab(q, m)) by { assert forall|i: int, r: int| 0 <= i < r < q.len() && #[trigger] q[i] != NO_IND && #[trigger] q[r] != NO_IND implies q[i] != q[r] by { if q[i] == q[r] { pivtab_distinct(x, n, m, q, i, r); } } }
    piv_cols(q, m); npiv_cnt(p);
    if npiv(q) > npiv(p) {
        // A == M Y with the rows of Y outside the pivot rows zero: A^T V2 == Y^T (M^T V2)
        let (M, Y) = col_factor(A, m, n, V, p);
        let Z = mm(m, tp(M), V2); let y = more_cols(m, m, Z, has_i(p), hp(q));
        piv_indep(x, n, m, q, y); let j = choose|j: int| 0 <= j < n && #[trigger] mq(m, x, y, j) != F::szero();
        // A^T == Y^T M^T
        mm_tp(m, m, n, M, Y); feq_tp(m, n, mm(m, M, Y), A); let At = tp(A); let P = mm(m, tp(Y), tp(M));
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < m implies #[trigger] At(a, b) == P(a, b) by { assert(tp(mm(m, M, Y))(a, b) == P(a, b)); assert(tp(mm(m, M, Y))(a, b) == At(a, b)); }
        feq_refl(m, m, V2); mm_ext(n, m, m, At, P, V2, V2); mm_assoc(n, m, m, m, tp(Y), tp(M), V2); let S = mm(m, tp(Y), Z);
        assert forall|b: int| 0 <= b < m implies #[trigger] x(j, b) == S(j, b) by { assert(x(j, b) == mm(m, P, V2)(j, b)); assert(mm(m, P, V2)(j, b) == S(j, b)); }
        mq_ext(m, x, S, y, y, j); mq_assoc(m, tp(Y), m, Z, y, j);
        let v = |k: int| mq(m, Z, y, k); let f = mqf(tp(Y), v, j);
        assert forall|k: int| 0 <= k < m implies #[trigger] f(k) == F::szero() by { if has_i(p)(k) { assert(mq(m, Z, y, k) == F::szero()); F::ax_mul_comm(F::szero(), Y(k, j)); } else { assert(Y(k, j) == F::szero()); } }
        fsum_zero(m, f);
    }
}
pub proof fn feq_tp<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F) requires feq(m, n, f, g) ensures feq(n, m, tp(f), tp(g)) { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] tp(f)(i, j) == tp(g)(i, j) by { assert(f(j, i) == g(j, i)); } }
pub proof fn rank_tp<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, q: Seq<usize>)
    requires 0 <= m <= NO_IND, 0 <= n <= NO_IND, pivots_of(A, m, n, p), pivots_of(tp(A), n, m, q) ensures npiv(q) == npiv(p)
{ rank_le(A, m, n, p, q); assert(feq(m, n, A, tp(tp(A)))); pivots_feq(A, tp(tp(A)), m, n, p); rank_le(tp(A), n, m, q, p); }
@end
