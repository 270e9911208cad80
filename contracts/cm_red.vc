@unit la
@uses sparse_vector sv_axpy2 sv_access nz cm_basic cm_solve cm_mul cm_pred cm_rows
@rust
// ---- matrix reduction ----
// c1 = c0 * V : column j of c1 is the combination of the columns of c0 with coefficients V(., j)
pub open spec fn ccf<F: Field>(c0: Seq<SV<F>>, V: spec_fn(int, int) -> F, i: int, j: int) -> spec_fn(int) -> F { |k: int| F::smul(V(k, j), colv(c0, i, k)) }
pub open spec fn colcomb<F: Field>(c0: Seq<SV<F>>, n: int, V: spec_fn(int, int) -> F, c1: Seq<SV<F>>) -> bool { forall|i: int, j: int| 0 <= j < n ==> #[trigger] colv(c1, i, j) == fsum(n, ccf(c0, V, i, j)) }
// V is upper triangular with ones on the diagonal
pub open spec fn uunit<F: Field>(n: int, V: spec_fn(int, int) -> F) -> bool { forall|k: int, j: int| 0 <= j < n && j <= k < n ==> #[trigger] V(k, j) == if k == j { F::sone() } else { F::szero() } }
pub open spec fn ident_v<F: Field>() -> spec_fn(int, int) -> F { |k: int, j: int| if k == j { F::sone() } else { F::szero() } }
pub proof fn colcomb_id<F: Field>(c: Seq<SV<F>>, n: int) ensures colcomb(c, n, ident_v::<F>(), c), uunit::<F>(n, ident_v::<F>())
{
    broadcast use field_basic;
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(c, i, j) == fsum(n, ccf(c, ident_v::<F>(), i, j)) by { fsum_one(n, ccf(c, ident_v::<F>(), i, j), j); }
}
// add a times column k to column j
pub open spec fn addcol_v<F: Field>(V: spec_fn(int, int) -> F, j: int, a: F, k: int) -> spec_fn(int, int) -> F { |r: int, q: int| if q == j { F::sadd(V(r, j), F::smul(a, V(r, k))) } else { V(r, q) } }
pub open spec fn addcol<F: Field>(c1: Seq<SV<F>>, n: int, j: int, a: F, k: int, c2: Seq<SV<F>>) -> bool { forall|i: int, q: int| 0 <= q < n ==> #[trigger] colv(c2, i, q) == if q == j { F::sadd(colv(c1, i, j), F::smul(a, colv(c1, i, k))) } else { colv(c1, i, q) } }
pub proof fn colcomb_step<F: Field>(c0: Seq<SV<F>>, n: int, V: spec_fn(int, int) -> F, c1: Seq<SV<F>>, j: int, a: F, k: int, c2: Seq<SV<F>>)
    requires 0 <= j < n, 0 <= k < n, colcomb(c0, n, V, c1), addcol(c1, n, j, a, k, c2)
    ensures colcomb(c0, n, addcol_v(V, j, a, k), c2)
{
    let W = addcol_v(V, j, a, k);
    assert forall|i: int, q: int| 0 <= q < n implies #[trigger] colv(c2, i, q) == fsum(n, ccf(c0, W, i, q)) by {
        if q == j {
            let f = ccf(c0, V, i, j); let g = ccf(c0, V, i, k); let ag = |t: int| F::smul(a, g(t));
            fsum_scale(n, a, g, ag);
            assert forall|t: int| 0 <= t < n implies #[trigger] ccf(c0, W, i, q)(t) == F::sadd(f(t), ag(t)) by {
                let w = colv(c0, i, t); F::ax_mul_comm(W(t, q), w); F::ax_distrib(w, V(t, j), F::smul(a, V(t, k))); F::ax_mul_comm(w, V(t, j)); F::ax_mul_comm(w, F::smul(a, V(t, k))); F::ax_mul_assoc(a, V(t, k), w);
            }
            fsum_add(n, f, ag, ccf(c0, W, i, q));
            assert(colv(c1, i, j) == fsum(n, f)); assert(colv(c1, i, k) == fsum(n, g));
        } else {
            assert forall|t: int| 0 <= t < n implies #[trigger] ccf(c0, W, i, q)(t) == ccf(c0, V, i, q)(t) by { }
            fsum_ext(n, ccf(c0, W, i, q), ccf(c0, V, i, q)); assert(colv(c1, i, q) == fsum(n, ccf(c0, V, i, q)));
        }
    }
}
pub proof fn uunit_step<F: Field>(n: int, V: spec_fn(int, int) -> F, j: int, a: F, k: int)
    requires 0 <= k < j < n, uunit(n, V)
    ensures uunit(n, addcol_v(V, j, a, k))
{
    broadcast use field_basic;
    let W = addcol_v(V, j, a, k);
    assert forall|r: int, q: int| 0 <= q < n && q <= r < n implies #[trigger] W(r, q) == if r == q { F::sone() } else { F::szero() } by { assert(V(r, q) == V(r, q)); if q == j { assert(V(r, k) == F::szero()); } }
}
pub proof fn addcol_is<F: Field>(c1: Seq<SV<F>>, n: int, j: int, a: F, k: int, c2: Seq<SV<F>>)
    requires c1.len() == n, c2 =~= c1.update(j, c2[j]), 0 <= j < n, 0 <= k < n, forall|i: int| #[trigger] sval(c2[j].indval@, i) == F::sadd(sval(c1[j].indval@, i), F::smul(a, sval(c1[k].indval@, i)))
    ensures addcol(c1, n, j, a, k, c2)
{ }
// exchange of finite sums, and (c * U) * V == c * (U * V)
pub proof fn fubini<F: Field>(m: int, n: int, g: spec_fn(int, int) -> F, r: spec_fn(int) -> F, s: spec_fn(int) -> F)
    requires n >= 0, m >= 0, forall|k: int| 0 <= k < m ==> #[trigger] r(k) == fsum(n, |l: int| g(k, l)), forall|l: int| 0 <= l < n ==> #[trigger] s(l) == fsum(m, |k: int| g(k, l))
    ensures fsum(m, r) == fsum(n, s)
    decreases m
{
    broadcast use field_basic;
    if m == 0 {
        assert forall|l: int| 0 <= l < n implies #[trigger] s(l) == F::szero() by { fsum_zero(0, |k: int| g(k, l)); }
        fsum_zero(n, s); fsum_zero(0, r);
    } else {
        let s2 = |l: int| fsum(m - 1, |k: int| g(k, l)); let h = |l: int| g(m - 1, l);
        fubini(m - 1, n, g, r, s2);
        assert forall|l: int| 0 <= l < n implies #[trigger] s(l) == F::sadd(s2(l), h(l)) by { let gl = |k: int| g(k, l); assert(fsum(m, gl) == F::sadd(fsum(m - 1, gl), gl(m - 1))); }
        fsum_add(n, s2, h, s);
        assert(r(m - 1) == fsum(n, |l: int| g(m - 1, l))); fsum_ext(n, |l: int| g(m - 1, l), h);
    }
}
#[verifier::rlimit(40)]
pub proof fn comb_prod<F: Field>(b: Seq<SV<F>>, nb: int, m0: Seq<SV<F>>, u0: Seq<SV<F>>, n: int, V: spec_fn(int, int) -> F, m1: Seq<SV<F>>, u1: Seq<SV<F>>)
    requires nb >= 0, n >= 0, forall|i: int, j: int| 0 <= j < n ==> #[trigger] colv(m0, i, j) == prodv(b, nb, u0, i, j), colcomb(m0, n, V, m1), colcomb(u0, n, V, u1)
    ensures forall|i: int, j: int| 0 <= j < n ==> #[trigger] colv(m1, i, j) == prodv(b, nb, u1, i, j)
{
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(m1, i, j) == prodv(b, nb, u1, i, j) by {
        let g = |k: int, l: int| F::smul(V(k, j), F::smul(colv(u0, l, k), colv(b, i, l)));
        let r = ccf(m0, V, i, j);
        assert forall|k: int| 0 <= k < n implies #[trigger] r(k) == fsum(nb, |l: int| g(k, l)) by {
            assert(colv(m0, i, k) == prodv(b, nb, u0, i, k));
            fsum_scale(nb, V(k, j), mvf(b, u0[k].indval@, i), |l: int| g(k, l));
        }
        let s = mvf(b, u1[j].indval@, i);
        assert forall|l: int| 0 <= l < nb implies #[trigger] s(l) == fsum(n, |k: int| g(k, l)) by {
            let w = colv(b, i, l); let f = ccf(u0, V, l, j);
            assert(colv(u1, l, j) == fsum(n, f));
            let wg = |k: int| g(k, l);
            assert forall|k: int| 0 <= k < n implies #[trigger] wg(k) == F::smul(w, f(k)) by { F::ax_mul_assoc(V(k, j), colv(u0, l, k), w); F::ax_mul_comm(F::smul(V(k, j), colv(u0, l, k)), w); }
            fsum_scale(n, w, f, wg); F::ax_mul_comm(w, fsum(n, f)); fsum_ext(n, wg, |k: int| g(k, l));
        }
        fubini(n, nb, g, r, s);
        assert(colv(m1, i, j) == fsum(n, r));
    }
}
// ---- pivots ----
pub open spec fn low<F>(s: Seq<Nz<F>>) -> int { s[s.len() - 1].ind as int }
// p maps the pivot row of each of the first j columns to that column, and every other row to NO_IND
pub open spec fn p2c_ok<F: Field>(c: Seq<SV<F>>, p: Seq<usize>, m: int, j: int) -> bool {
    &&& p.len() == m
    &&& forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND ==> p[i] < j && c[p[i] as int].indval@.len() > 0 && low(c[p[i] as int].indval@) == i
    &&& forall|k: int| 0 <= k < j && (#[trigger] c[k]).indval@.len() > 0 ==> 0 <= low(c[k].indval@) < m && p[low(c[k].indval@)] == k
}
pub open spec fn reduced<F: Field>(A: CM<F>, p: Seq<usize>) -> bool { p2c_ok(A.col@, p, A.m as int, A.n as int) }
// no two nonzero columns have the same pivot row
pub open spec fn is_red<F: Field>(A: CM<F>) -> bool { forall|j: int, k: int| 0 <= j < k < A.n && (#[trigger] A.col@[j]).indval@.len() > 0 && (#[trigger] A.col@[k]).indval@.len() > 0 ==> low(A.col@[j].indval@) != low(A.col@[k].indval@) }
pub proof fn reduced_is_red<F: Field>(A: CM<F>, p: Seq<usize>) requires reduced(A, p) ensures is_red(A) { }
// z = s - (s_i / x_i) x, where i = s[p].ind is the pivot of x: entry i is gone, the entries after it are untouched
pub proof fn red_step<F: Field>(s: Seq<Nz<F>>, x: Seq<Nz<F>>, z: Seq<Nz<F>>, m: int, a: F, p: int)
    requires sc(s, m), sc(x, m), x.len() > 0, 0 <= p < s.len(), low(x) == s[p].ind, a == F::sneg(F::smul(s[p].val, F::sinv(x[x.len() - 1].val))),
        ssorted(z), snz(z), forall|i: int| #[trigger] sval(z, i) == F::sadd(sval(s, i), F::smul(a, sval(x, i)))
    ensures sc(z, m), z.len() >= s.len() - 1 - p, forall|t: int| 0 <= t < s.len() - 1 - p ==> z[z.len() - 1 - t] == #[trigger] s[s.len() - 1 - t],
        z.len() > s.len() - 1 - p ==> z[z.len() - (s.len() - p)].ind < s[p].ind
{
    broadcast use field_basic;
    let i = s[p].ind as int; let q = s.len() - 1 - p;
    sval_out(s, m); sval_out(x, m); ssorted_sdist(s); ssorted_sdist(x); ssorted_sdist(z);
    assert forall|i: int| i >= m implies #[trigger] sval(z, i) == F::szero() by { }
    sc_of(z, m);
    sval_at(s, p); sval_at(x, x.len() - 1); let d = x[x.len() - 1].val; assert(d != F::szero());
    f_div_mul(s[p].val, d); f_neg_mul(F::smul(s[p].val, F::sinv(d)), d); F::ax_add_neg(s[p].val);
    assert(sval(z, i) == F::szero());
    let w = axr_pos(z, i + 1, 0); let zt = z.subrange(w, z.len() as int); let st = s.subrange(p + 1, s.len() as int);
    sval_part(z, w, z.len() as int); sval_part(s, p + 1, s.len() as int);
    assert forall|k: int| 0 <= k < p + 1 implies (#[trigger] s[k]).ind < i + 1 by { if k < p { assert(s[k].ind < s[p].ind); } }
    assert forall|k: int| p + 1 <= k < s.len() implies (#[trigger] s[k]).ind >= i + 1 by { assert(s[p].ind < s[k].ind); }
    axr_part(z, w, z.len() as int, i + 1, m); axr_part(s, p + 1, s.len() as int, i + 1, m);
    assert forall|r: int| #[trigger] sval(zt, r) == sval(st, r) by {
        assert(sval(zt, r) == xin(z, i + 1, m, r)); assert(sval(st, r) == xin(s, i + 1, m, r));
        if i + 1 <= r < m { assert(sval(x, r) == F::szero()) by { sval_absent_above(x, r); } }
    }
    sc_uniq(zt, st);
    assert(zt.len() == q); assert(w == z.len() - q);
    assert forall|t: int| 0 <= t < q implies z[z.len() - 1 - t] == #[trigger] s[s.len() - 1 - t] by { assert(zt[q - 1 - t] == st[q - 1 - t]); }
    if z.len() > q { let y = z[w - 1]; assert(y.ind < i + 1); sval_at(z, w - 1); assert(y.val != F::szero()); }
}
// the two matrices reduced together by the same column operations
pub open spec fn redrel<F: Field>(n: int, V: spec_fn(int, int) -> F, m0: Seq<SV<F>>, m1: Seq<SV<F>>) -> bool { uunit(n, V) && colcomb(m0, n, V, m1) }
pub open spec fn redrel2<F: Field>(n: int, V: spec_fn(int, int) -> F, m0: Seq<SV<F>>, m1: Seq<SV<F>>, u0: Seq<SV<F>>, u1: Seq<SV<F>>) -> bool { uunit(n, V) && colcomb(m0, n, V, m1) && colcomb(u0, n, V, u1) }
pub open spec fn reduces<F: Field>(M0: CM<F>, M1: CM<F>) -> bool { exists|V: spec_fn(int, int) -> F| redrel(M0.n as int, V, M0.col@, M1.col@) }
pub open spec fn reduces2<F: Field>(M0: CM<F>, M1: CM<F>, U0: CM<F>, U1: CM<F>) -> bool { exists|V: spec_fn(int, int) -> F| redrel2(M0.n as int, V, M0.col@, M1.col@, U0.col@, U1.col@) }
// adding a column to a later one keeps an invertible upper triangular matrix so
pub proof fn trimat_step<F: Field>(A: CM<F>, B: CM<F>, j: int, a: F, k: int)
    requires trimat(true, A), cmwf(B), B.m == A.m, B.n == A.n, 0 <= k < j < A.n, addcol(A.col@, A.n as int, j, a, k, B.col@)
    ensures trimat(true, B)
{
    broadcast use field_basic;
    assert forall|r: int, q: int| 0 <= r < B.n && 0 <= q < B.n && r > q implies #[trigger] cmv(B, r, q) == F::szero() by { assert(colv(B.col@, r, q) == if q == j { F::sadd(colv(A.col@, r, j), F::smul(a, colv(A.col@, r, k))) } else { colv(A.col@, r, q) }); assert(cmv(A, r, q) == F::szero()); assert(cmv(A, r, k) == F::szero() || q != j); }
    assert forall|q: int| 0 <= q < B.n implies #[trigger] cmv(B, q, q) != F::szero() by { assert(colv(B.col@, q, q) == if q == j { F::sadd(colv(A.col@, q, j), F::smul(a, colv(A.col@, q, k))) } else { colv(A.col@, q, q) }); assert(cmv(A, q, q) != F::szero()); if q == j { assert(cmv(A, j, k) == F::szero()); } }
}
pub proof fn sorted_same(s: Seq<usize>, t: Seq<usize>)
    requires nondecr_usize(s), nondecr_usize(t), s.to_multiset() == t.to_multiset()
    ensures s =~= t
{
    let leq = |a: usize, b: usize| a <= b;
    assert(vstd::relations::total_ordering(leq)); 
    assert(vstd::relations::sorted_by(s, leq)); assert(vstd::relations::sorted_by(t, leq));
    vstd::seq_lib::lemma_sorted_unique(s, t, leq);
}
pub open spec fn is_ident<F: Field>(U: CM<F>) -> bool { cmwf(U) && U.m == U.n && forall|i: int, j: int| 0 <= j < U.n ==> #[trigger] cmv(U, i, j) == if i == j { F::sone() } else { F::szero() } }
pub open spec fn redfrom<F: Field>(n: int, c0: Seq<SV<F>>, c1: Seq<SV<F>>) -> bool { exists|V: spec_fn(int, int) -> F| redrel(n, V, c0, c1) }
// the columns for which z holds are zeroed out
pub open spec fn zerocols<F: Field>(c0: Seq<SV<F>>, n: int, z: spec_fn(int) -> bool, c1: Seq<SV<F>>) -> bool { c1.len() == n && forall|i: int, j: int| 0 <= j < n ==> #[trigger] colv(c1, i, j) == if z(j) { F::szero() } else { colv(c0, i, j) } }
pub open spec fn hasv(s: Seq<usize>, l: int) -> spec_fn(int) -> bool { |j: int| exists|k: int| 0 <= k < l && #[trigger] s[k] == j }
pub open spec fn clears<F: Field>(M0: CM<F>, s: Seq<usize>, M1: CM<F>) -> bool { exists|c: Seq<SV<F>>| #[trigger] zerocols(M0.col@, M0.n as int, hasv(s, s.len() as int), c) && redfrom(M0.n as int, c, M1.col@) }
// B times column j of R vanishes
pub open spec fn kills<F: Field>(b: Seq<SV<F>>, nb: int, r: Seq<SV<F>>, j: int) -> bool { forall|i: int| #[trigger] prodv(b, nb, r, i, j) == F::szero() }
pub open spec fn is_prod<F: Field>(A: CM<F>, B: CM<F>, C: CM<F>) -> bool { forall|i: int, j: int| 0 <= j < C.n ==> #[trigger] cmv(C, i, j) == prodv(A.col@, A.n as int, B.col@, i, j) }
// what clearing needs of the reduction one dimension up
pub open spec fn clear_pre<F: Field>(M: CM<F>, R: CM<F>, p2c: Seq<usize>) -> bool {
    &&& cmwf(R) && R.m == M.n && p2c.len() == M.n
    &&& forall|i: int| 0 <= i < p2c.len() && #[trigger] p2c[i] != NO_IND ==> p2c[i] < R.n && R.col@[p2c[i] as int].indval@.len() > 0 && low(R.col@[p2c[i] as int].indval@) == i && kills(M.col@, M.n as int, R.col@, p2c[i] as int)
}
pub proof fn prod_ident<F: Field>(b: Seq<SV<F>>, nb: int, x: Seq<Nz<F>>, j: int, i: int)
    requires 0 <= j < nb, forall|k: int| #[trigger] sval(x, k) == if k == j { F::sone() } else { F::szero() }
    ensures mvx(b, nb, x, i) == colv(b, i, j)
{ broadcast use field_basic; assert(sval(x, j) == F::sone()); assert forall|k: int| 0 <= k < nb && k != j implies #[trigger] mvf(b, x, i)(k) == F::szero() by { assert(sval(x, k) == F::szero()); } fsum_one(nb, mvf(b, x, i), j); }
pub proof fn mvx_empty<F: Field>(b: Seq<SV<F>>, nb: int, x: Seq<Nz<F>>, i: int) requires forall|k: int| #[trigger] sval(x, k) == F::szero() ensures mvx(b, nb, x, i) == F::szero()
{ broadcast use field_basic; assert forall|k: int| 0 <= k < nb implies #[trigger] mvf(b, x, i)(k) == F::szero() by { assert(sval(x, k) == F::szero()); } fsum_zero(nb, mvf(b, x, i)); }
pub open spec fn zerorows<F: Field>(M: CM<F>, c: Seq<bool>, C: CM<F>) -> bool { cmwf(C) && C.m == M.m && C.n == M.n && c.len() == M.m && forall|l: int, k: int| 0 <= k < M.n ==> #[trigger] cmv(C, l, k) == if 0 <= l < M.m && c[l] { F::szero() } else { cmv(M, l, k) } }
pub open spec fn compresses<F: Field>(M0: CM<F>, c: Seq<bool>, M1: CM<F>) -> bool { exists|C: CM<F>| #[trigger] zerorows(M0, c, C) && redfrom(C.n as int, C.col@, M1.col@) }
// no combination of the columns of M has its last nonzero in a row of c
pub open spec fn nopiv<F: Field>(M: CM<F>, c: Seq<bool>) -> bool { forall|x: Seq<Nz<F>>, i: int| 0 <= i < M.m && c[i] && sc(x, M.n as int) && (forall|r: int| i < r < M.m ==> mvx(M.col@, M.n as int, x, r) == F::szero()) ==> #[trigger] mvx(M.col@, M.n as int, x, i) == F::szero() }
pub open spec fn by_basis<F: Field>(M0: CM<F>, M1: CM<F>, U0: CM<F>, U1: CM<F>) -> bool { exists|V: CM<F>| #[trigger] trimat(true, V) && V.n == M0.n && is_prod(M0, V, M1) && is_prod(U0, V, U1) }
// a combination of the columns of C (the matrix M with rows c zeroed out) is that of M with these rows zeroed out
pub proof fn zr_prod<F: Field>(M: CM<F>, c: Seq<bool>, C: CM<F>, x: Seq<Nz<F>>, l: int)
    requires zerorows(M, c, C), cmwf(M)
    ensures mvx(C.col@, M.n as int, x, l) == if 0 <= l < M.m && c[l] { F::szero() } else { mvx(M.col@, M.n as int, x, l) }
{
    broadcast use field_basic;
    let f = mvf(C.col@, x, l); let g = mvf(M.col@, x, l);
    assert forall|k: int| 0 <= k < M.n implies #[trigger] f(k) == (if 0 <= l < M.m && c[l] { F::szero() } else { g(k) }) by { assert(cmv(C, l, k) == if 0 <= l < M.m && c[l] { F::szero() } else { cmv(M, l, k) }); }
    if 0 <= l < M.m && c[l] { fsum_zero(M.n as int, f); } else { fsum_ext(M.n as int, f, g); }
}
// the pivots of M * V are those of C * V when rows c never hold a pivot
pub proof fn comp_reduced<F: Field>(M: CM<F>, c: Seq<bool>, C: CM<F>, V: CM<F>, R: CM<F>, M1: CM<F>, p: Seq<usize>)
    requires cmwf(M), zerorows(M, c, C), cmwf(V), V.m == M.n, V.n == M.n, cmwf(R), R.m == M.m, R.n == M.n, cmwf(M1), M1.m == M.m, M1.n == M.n, is_prod(C, V, R), is_prod(M, V, M1), reduced(R, p), nopiv(M, c)
    ensures reduced(M1, p)
{
    assert forall|j: int| 0 <= j < M.n implies (#[trigger] M1.col@[j]).indval@.len() > 0 <==> R.col@[j].indval@.len() > 0 by { comp_low(M, c, C, V, R, M1, j); }
    assert forall|j: int| 0 <= j < M.n && (#[trigger] M1.col@[j]).indval@.len() > 0 implies low(M1.col@[j].indval@) == low(R.col@[j].indval@) by { comp_low(M, c, C, V, R, M1, j); }
    assert forall|i: int| 0 <= i < M.m && #[trigger] p[i] != NO_IND implies p[i] < M.n && M1.col@[p[i] as int].indval@.len() > 0 && low(M1.col@[p[i] as int].indval@) == i by { assert(R.col@[p[i] as int].indval@.len() > 0); let q = p[i] as int; assert(M1.col@[q].indval@.len() > 0); }
    assert forall|k: int| 0 <= k < M.n && (#[trigger] M1.col@[k]).indval@.len() > 0 implies 0 <= low(M1.col@[k].indval@) < M.m && p[low(M1.col@[k].indval@)] == k by { assert(R.col@[k].indval@.len() > 0); }
}
pub proof fn comp_low<F: Field>(M: CM<F>, c: Seq<bool>, C: CM<F>, V: CM<F>, R: CM<F>, M1: CM<F>, j: int)
    requires cmwf(M), zerorows(M, c, C), cmwf(V), V.m == M.n, V.n == M.n, cmwf(R), R.m == M.m, R.n == M.n, cmwf(M1), M1.m == M.m, M1.n == M.n, is_prod(C, V, R), is_prod(M, V, M1), nopiv(M, c), 0 <= j < M.n
    ensures M1.col@[j].indval@.len() > 0 <==> R.col@[j].indval@.len() > 0, M1.col@[j].indval@.len() > 0 ==> low(M1.col@[j].indval@) == low(R.col@[j].indval@)
{
    let s = M1.col@[j].indval@; let t = R.col@[j].indval@; let x = V.col@[j].indval@; let m = M.m as int;
    assert(sc(s, m)); assert(sc(t, m)); assert(sc(x, M.n as int));
    assert forall|l: int| #[trigger] sval(t, l) == (if 0 <= l < m && c[l] { F::szero() } else { sval(s, l) }) by { zr_prod(M, c, C, x, l); assert(cmv(R, l, j) == prodv(C.col@, C.n as int, V.col@, l, j)); assert(cmv(M1, l, j) == prodv(M.col@, M.n as int, V.col@, l, j)); }
    if s.len() > 0 {
        let i = low(s); sc_some(s, m, s.len() - 1); 
        assert forall|r: int| i < r < m implies mvx(M.col@, M.n as int, x, r) == F::szero() by { sval_absent_above(s, r); assert(cmv(M1, r, j) == prodv(M.col@, M.n as int, V.col@, r, j)); }
        assert(cmv(M1, i, j) == prodv(M.col@, M.n as int, V.col@, i, j)); assert(mvx(M.col@, M.n as int, x, i) != F::szero());
        assert(!c[i]); assert(sval(t, i) == sval(s, i));
        ssorted_sdist(t); let k = sval_find(t, i); assert(k != -1);
        let e = low(t); sc_some(t, m, t.len() - 1);
        if k < t.len() - 1 { assert(t[k].ind < t[t.len() - 1].ind); }
        if e > i { sval_absent_above(s, e); assert(sval(t, e) == F::szero()); assert(false); }
    } else if t.len() > 0 { sc_some(t, m, t.len() - 1); assert(sval(s, low(t)) == F::szero()); assert(sval(t, low(t)) == F::szero()); assert(false); }
}
@end
@fn bats::reduce_matrix_standard(&mut CM<F>) as red_std
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  reduces(*old(M), *final(M)),
@at entry
  let ghost A = *M;
  let ghost mut V: spec_fn(int, int) -> F = ident_v::<F>();
  proof { colcomb_id(A.col@, A.n as int); }
@loop 0
  invariant 0 <= j <= A.n, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel(A.n as int, V, A.col@, M.col@), p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  decreases A.n - j
@loop 1
  invariant_except_break 0 <= j < A.n, p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  invariant 0 <= j < A.n, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel(A.n as int, V, A.col@, M.col@)
  ensures p2c_ok(M.col@, pivot_to_col@, A.m as int, j + 1)
  decreases if M.col@[j as int].indval@.len() == 0 { 0 } else { 1 + low(M.col@[j as int].indval@) }
@at loop 1 begin
  let ghost s = M.col@[j as int].indval@; let ghost M0 = *M; let ghost p = s.len() - 1;
  proof { assert(s.len() == M.col@[j as int].indval.len()); assert(sc(s, A.m as int)); assert(s[p].ind < A.m); assert(A.n == A.col.len()); assert(j != NO_IND); }
@at before sv_axpy_tmp 0
  proof { let x = M.col@[k as int].indval@; assert(sc(x, A.m as int)); assert(k < j); assert(low(x) == s[p].ind); assert(x[x.len() - 1].val != F::szero()); }
@at after sv_axpy_tmp 0
  proof { let x = M0.col@[k as int].indval@; let z = M.col@[j as int].indval@; let b = F::sneg(a); red_step(s, x, z, A.m as int, b, p);
    assert(M.col@ =~= M0.col@.update(j as int, M.col@[j as int])); addcol_is(M0.col@, A.n as int, j as int, b, k as int, M.col@); colcomb_step(A.col@, A.n as int, V, M0.col@, j as int, b, k as int, M.col@); uunit_step(A.n as int, V, j as int, b, k as int);
    V = addcol_v(V, j as int, b, k as int); }
@fn bats::reduce_matrix_standard(&mut CM<F>, &mut CM<F>) as red_std_u
@prop P08 P09
@opt rlimit=60
@throws old(M).n != old(U).n
@requires
  cmwf(*old(M)), cmwf(*old(U))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n, reduces2(*old(M), *final(M), *old(U), *final(U)),
  trimat(true, *old(U)) ==> trimat(true, *final(U)),
@at entry
  let ghost A = *M; let ghost UA = *U;
  let ghost mut V: spec_fn(int, int) -> F = ident_v::<F>();
  proof { colcomb_id(A.col@, A.n as int); colcomb_id(UA.col@, A.n as int); }
@loop 0
  invariant 0 <= j <= A.n, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel2(A.n as int, V, A.col@, M.col@, UA.col@, U.col@), cmwf(*U), U.m == UA.m, U.n == UA.n, UA.n == A.n, trimat(true, UA) ==> trimat(true, *U), p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  decreases A.n - j
@loop 1
  invariant_except_break 0 <= j < A.n, p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  invariant 0 <= j < A.n, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel2(A.n as int, V, A.col@, M.col@, UA.col@, U.col@), cmwf(*U), U.m == UA.m, U.n == UA.n, UA.n == A.n, trimat(true, UA) ==> trimat(true, *U)
  ensures p2c_ok(M.col@, pivot_to_col@, A.m as int, j + 1)
  decreases if M.col@[j as int].indval@.len() == 0 { 0 } else { 1 + low(M.col@[j as int].indval@) }
@at loop 1 begin
  let ghost s = M.col@[j as int].indval@; let ghost M0 = *M; let ghost p = s.len() - 1; let ghost U0 = *U;
  proof { assert(s.len() == M.col@[j as int].indval.len()); assert(sc(s, A.m as int)); assert(s[p].ind < A.m); assert(A.n == A.col.len()); assert(j != NO_IND); }
@at before sv_axpy_tmp 0
  proof { let x = M.col@[k as int].indval@; assert(sc(x, A.m as int)); assert(k < j); assert(low(x) == s[p].ind); assert(x[x.len() - 1].val != F::szero()); }
@at after sv_axpy_tmp 0
  proof { let x = M0.col@[k as int].indval@; let z = M.col@[j as int].indval@; let b = F::sneg(a); red_step(s, x, z, A.m as int, b, p);
    assert(M.col@ =~= M0.col@.update(j as int, M.col@[j as int])); addcol_is(M0.col@, A.n as int, j as int, b, k as int, M.col@); colcomb_step(A.col@, A.n as int, V, M0.col@, j as int, b, k as int, M.col@); uunit_step(A.n as int, V, j as int, b, k as int);
     }
@at after sv_axpy_tmp 1
  proof { let b = F::sneg(a); let z = U.col@[j as int].indval@; sval_out(U0.col@[j as int].indval@, UA.m as int); sval_out(U0.col@[k as int].indval@, UA.m as int);
    assert forall|i: int| i >= UA.m implies #[trigger] sval(z, i) == F::szero() by { broadcast use field_basic; } sc_of(z, UA.m as int);
    assert(U.col@ =~= U0.col@.update(j as int, U.col@[j as int])); addcol_is(U0.col@, A.n as int, j as int, b, k as int, U.col@); colcomb_step(UA.col@, A.n as int, V, U0.col@, j as int, b, k as int, U.col@);
    if trimat(true, UA) { trimat_step(U0, *U, j as int, b, k as int); }
    V = addcol_v(V, j as int, b, k as int); }
@fn bats::reduce_matrix_extra(&mut CM<F>) as red_ext
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M)), old(M).m < usize::MAX
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  reduces(*old(M), *final(M)),
@at entry
  let ghost A = *M;
  let ghost mut V: spec_fn(int, int) -> F = ident_v::<F>();
  proof { colcomb_id(A.col@, A.n as int); }
@loop 0
  invariant 0 <= j <= A.n, A.m < usize::MAX, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel(A.n as int, V, A.col@, M.col@), p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  decreases A.n - j
@loop 1
  invariant 0 <= j < A.n, A.m < usize::MAX, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel(A.n as int, V, A.col@, M.col@), 1 <= end_offset <= M.col@[j as int].indval@.len() + 1, (end_offset > 1) == found_pivot, end_offset == 1 ==> p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int), end_offset > 1 ==> p2c_ok(M.col@, pivot_to_col@, A.m as int, j + 1)
  decreases if end_offset <= M.col@[j as int].indval@.len() { 1 + M.col@[j as int].indval@[M.col@[j as int].indval@.len() - end_offset].ind } else { 0 }
@at loop 1 begin
  let ghost s = M.col@[j as int].indval@; let ghost M0 = *M; let ghost p = s.len() - end_offset;
  proof { assert(s.len() == M.col@[j as int].indval.len()); assert(sc(s, A.m as int)); assert(s[p].ind < A.m); assert(A.n == A.col.len()); assert(j != NO_IND); sc_len(s, A.m as int); if end_offset > 1 { assert(s[p].ind < s[s.len() - 1].ind); }  }
@at before sv_axpy_tmp 0
  proof { let x = M.col@[k as int].indval@; assert(sc(x, A.m as int)); assert(k < j); assert(low(x) == s[p].ind); assert(x[x.len() - 1].val != F::szero()); }
@at after sv_axpy_tmp 0
  proof { let q1 = s.len() - 1 - p; let x = M0.col@[k as int].indval@; let z = M.col@[j as int].indval@; let b = F::sneg(a); red_step(s, x, z, A.m as int, b, p);
    assert(M.col@ =~= M0.col@.update(j as int, M.col@[j as int])); addcol_is(M0.col@, A.n as int, j as int, b, k as int, M.col@); colcomb_step(A.col@, A.n as int, V, M0.col@, j as int, b, k as int, M.col@); uunit_step(A.n as int, V, j as int, b, k as int); if end_offset > 1 { assert(z[z.len() - 1 - 0] == s[s.len() - 1 - 0]); assert(low(z) == low(s)); }
    V = addcol_v(V, j as int, b, k as int); }
@fn bats::reduce_matrix_extra(&mut CM<F>, &mut CM<F>) as red_ext_u
@prop P08 P09
@opt rlimit=60
@throws old(M).n != old(U).n
@requires
  cmwf(*old(M)), cmwf(*old(U)), old(M).m < usize::MAX
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n, reduces2(*old(M), *final(M), *old(U), *final(U)),
  trimat(true, *old(U)) ==> trimat(true, *final(U)),
@at entry
  let ghost A = *M; let ghost UA = *U;
  let ghost mut V: spec_fn(int, int) -> F = ident_v::<F>();
  proof { colcomb_id(A.col@, A.n as int); colcomb_id(UA.col@, A.n as int); }
@loop 0
  invariant 0 <= j <= A.n, A.m < usize::MAX, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel2(A.n as int, V, A.col@, M.col@, UA.col@, U.col@), cmwf(*U), U.m == UA.m, U.n == UA.n, UA.n == A.n, trimat(true, UA) ==> trimat(true, *U), p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int)
  decreases A.n - j
@loop 1
  invariant 0 <= j < A.n, A.m < usize::MAX, cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, pivot_to_col@.len() == A.m, redrel2(A.n as int, V, A.col@, M.col@, UA.col@, U.col@), cmwf(*U), U.m == UA.m, U.n == UA.n, UA.n == A.n, trimat(true, UA) ==> trimat(true, *U), 1 <= end_offset <= M.col@[j as int].indval@.len() + 1, end_offset == 1 ==> p2c_ok(M.col@, pivot_to_col@, A.m as int, j as int), end_offset > 1 ==> p2c_ok(M.col@, pivot_to_col@, A.m as int, j + 1)
  decreases if end_offset <= M.col@[j as int].indval@.len() { 1 + M.col@[j as int].indval@[M.col@[j as int].indval@.len() - end_offset].ind } else { 0 }
@at loop 1 begin
  let ghost s = M.col@[j as int].indval@; let ghost M0 = *M; let ghost p = s.len() - end_offset; let ghost U0 = *U;
  proof { assert(s.len() == M.col@[j as int].indval.len()); assert(sc(s, A.m as int)); assert(s[p].ind < A.m); assert(A.n == A.col.len()); assert(j != NO_IND); sc_len(s, A.m as int); if end_offset > 1 { assert(s[p].ind < s[s.len() - 1].ind); }  }
@at before sv_axpy_tmp 0
  proof { let x = M.col@[k as int].indval@; assert(sc(x, A.m as int)); assert(k < j); assert(low(x) == s[p].ind); assert(x[x.len() - 1].val != F::szero()); }
@at after sv_axpy_tmp 0
  proof { let q1 = s.len() - 1 - p; let x = M0.col@[k as int].indval@; let z = M.col@[j as int].indval@; let b = F::sneg(a); red_step(s, x, z, A.m as int, b, p);
    assert(M.col@ =~= M0.col@.update(j as int, M.col@[j as int])); addcol_is(M0.col@, A.n as int, j as int, b, k as int, M.col@); colcomb_step(A.col@, A.n as int, V, M0.col@, j as int, b, k as int, M.col@); uunit_step(A.n as int, V, j as int, b, k as int); if end_offset > 1 { assert(z[z.len() - 1 - 0] == s[s.len() - 1 - 0]); assert(low(z) == low(s)); }
     }
@at after sv_axpy_tmp 1
  proof { let b = F::sneg(a); let z = U.col@[j as int].indval@; sval_out(U0.col@[j as int].indval@, UA.m as int); sval_out(U0.col@[k as int].indval@, UA.m as int);
    assert forall|i: int| i >= UA.m implies #[trigger] sval(z, i) == F::szero() by { broadcast use field_basic; } sc_of(z, UA.m as int);
    assert(U.col@ =~= U0.col@.update(j as int, U.col@[j as int])); addcol_is(U0.col@, A.n as int, j as int, b, k as int, U.col@); colcomb_step(UA.col@, A.n as int, V, U0.col@, j as int, b, k as int, U.col@);
    if trimat(true, UA) { trimat_step(U0, *U, j as int, b, k as int); }
    V = addcol_v(V, j as int, b, k as int); }
@fn bats::reduce_matrix(&mut CM<F>) as red
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  reduces(*old(M), *final(M)),
@fn bats::reduce_matrix(&mut CM<F>, StdRedFlag) as red_s
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  reduces(*old(M), *final(M)),
@fn bats::reduce_matrix(&mut CM<F>, ExtraRedFlag) as red_e
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M)), old(M).m < usize::MAX
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  reduces(*old(M), *final(M)),
@fn bats::reduce_matrix(&mut CM<F>, &mut CM<F>) as red_u
@prop P08 P09
@opt rlimit=60
@throws old(M).n != old(U).n
@requires
  cmwf(*old(M)), cmwf(*old(U))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n, reduces2(*old(M), *final(M), *old(U), *final(U)),
  trimat(true, *old(U)) ==> trimat(true, *final(U)),
@fn bats::reduce_matrix(&mut CM<F>, &mut CM<F>, StdRedFlag) as red_u_s
@prop P08 P09
@opt rlimit=60
@throws old(M).n != old(U).n
@requires
  cmwf(*old(M)), cmwf(*old(U))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n, reduces2(*old(M), *final(M), *old(U), *final(U)),
  trimat(true, *old(U)) ==> trimat(true, *final(U)),
@fn bats::reduce_matrix(&mut CM<F>, &mut CM<F>, ExtraRedFlag) as red_u_e
@prop P08 P09
@opt rlimit=60
@throws old(M).n != old(U).n
@requires
  cmwf(*old(M)), cmwf(*old(U)), old(M).m < usize::MAX
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n, reduces2(*old(M), *final(M), *old(U), *final(U)),
  trimat(true, *old(U)) ==> trimat(true, *final(U)),
@fn bats::get_clearing_inds(Vec<usize>) as clearing_inds
@prop P08 P09
@ensures
  forall|a: int, b: int| 0 <= a < b < ret@.len() ==> #[trigger] ret@[a] < #[trigger] ret@[b],
  forall|a: int| 0 <= a < ret@.len() ==> #[trigger] ret@[a] < p2c@.len() && p2c@[ret@[a] as int] != NO_IND,
  forall|i: int| 0 <= i < p2c@.len() && #[trigger] p2c@[i] != NO_IND ==> ret@.contains(i as usize)
@at loop 0 before
  assert(p2c.len() == p2c@.len());
@loop 0
  invariant i == it, 0 <= it <= p2c@.len(), p2c@.len() == p2c.len(),
    forall|a: int, b: int| 0 <= a < b < inds@.len() ==> #[trigger] inds@[a] < #[trigger] inds@[b],
    forall|a: int| 0 <= a < inds@.len() ==> #[trigger] inds@[a] < it && p2c@[inds@[a] as int] != NO_IND,
    forall|k: int| 0 <= k < it && #[trigger] p2c@[k] != NO_IND ==> inds@.contains(k as usize)
  decreases p2c@.len() - it
@at loop 0 begin
  let ghost J = inds@;
@at loop 0 end
  proof { assert forall|k: int| 0 <= k < it && #[trigger] p2c@[k] != NO_IND implies inds@.contains(k as usize) by { if k < it - 1 { assert(J.contains(k as usize)); let q = choose|q: int| 0 <= q < J.len() && J[q] == k as usize; assert(inds@[q] == k as usize); } else { assert(inds@[inds@.len() - 1] == k as usize); } } }
@at before sort 0
  let ghost J = inds@;
@at after sort 0
  proof { sorted_same(J, inds@); }
@fn bats::get_compression_inds(CM<F>) as compression_inds
@prop P08 P09
@requires
  cmwf(*R)
@ensures
  ret@.len() == R.n, forall|j: int| 0 <= j < R.n ==> #[trigger] ret@[j] == (R.col@[j].indval@.len() > 0)
@loop 0
  invariant 0 <= j <= R.n, cmwf(*R), inds@.len() == R.n, forall|k: int| 0 <= k < j ==> #[trigger] inds@[k] == (R.col@[k].indval@.len() > 0)
  decreases R.n - j
@fn bats::extract_basis_indices(CM<F>, Vec<usize>) as basis_inds
@prop P09
@requires
  cmwf(*Rk), Rk.n <= p2ck1@.len()
@ensures
  forall|a: int, b: int| 0 <= a < b < ret@.len() ==> #[trigger] ret@[a] < #[trigger] ret@[b],
  forall|a: int| 0 <= a < ret@.len() ==> #[trigger] ret@[a] < Rk.n && Rk.col@[ret@[a] as int].indval@.len() == 0 && p2ck1@[ret@[a] as int] == NO_IND,
  forall|j: int| 0 <= j < Rk.n && (#[trigger] Rk.col@[j]).indval@.len() == 0 && p2ck1@[j] == NO_IND ==> ret@.contains(j as usize)
@loop 0
  invariant 0 <= j <= Rk.n, dimk == Rk.n, cmwf(*Rk), Rk.n <= p2ck1@.len(),
    forall|a: int, b: int| 0 <= a < b < I@.len() ==> #[trigger] I@[a] < #[trigger] I@[b],
    forall|a: int| 0 <= a < I@.len() ==> #[trigger] I@[a] < j && Rk.col@[I@[a] as int].indval@.len() == 0 && p2ck1@[I@[a] as int] == NO_IND,
    forall|k: int| 0 <= k < j && (#[trigger] Rk.col@[k]).indval@.len() == 0 && p2ck1@[k] == NO_IND ==> I@.contains(k as usize)
  decreases Rk.n - j
@at loop 0 begin
  let ghost J = I@;
@at loop 0 end
  proof { assert forall|k: int| 0 <= k < j + 1 && (#[trigger] Rk.col@[k]).indval@.len() == 0 && p2ck1@[k] == NO_IND implies I@.contains(k as usize) by { if k < j { assert(J.contains(k as usize)); let q = choose|q: int| 0 <= q < J.len() && J[q] == k as usize; assert(I@[q] == k as usize); } else { assert(I@[I@.len() - 1] == k as usize); } } }
@fn bats::extract_basis_indices(CM<F>) as basis_inds0
@prop P09
@requires
  cmwf(*Rk)
@ensures
  forall|a: int, b: int| 0 <= a < b < ret@.len() ==> #[trigger] ret@[a] < #[trigger] ret@[b],
  forall|a: int| 0 <= a < ret@.len() ==> #[trigger] ret@[a] < Rk.n && Rk.col@[ret@[a] as int].indval@.len() == 0,
  forall|j: int| 0 <= j < Rk.n && (#[trigger] Rk.col@[j]).indval@.len() == 0 ==> ret@.contains(j as usize)
@loop 0
  invariant 0 <= j <= Rk.n, dimk == Rk.n, cmwf(*Rk),
    forall|a: int, b: int| 0 <= a < b < I@.len() ==> #[trigger] I@[a] < #[trigger] I@[b],
    forall|a: int| 0 <= a < I@.len() ==> #[trigger] I@[a] < j && Rk.col@[I@[a] as int].indval@.len() == 0,
    forall|k: int| 0 <= k < j && (#[trigger] Rk.col@[k]).indval@.len() == 0 ==> I@.contains(k as usize)
  decreases Rk.n - j
@at loop 0 begin
  let ghost J = I@;
@at loop 0 end
  proof { assert forall|k: int| 0 <= k < j + 1 && (#[trigger] Rk.col@[k]).indval@.len() == 0 implies I@.contains(k as usize) by { if k < j { assert(J.contains(k as usize)); let q = choose|q: int| 0 <= q < J.len() && J[q] == k as usize; assert(I@[q] == k as usize); } else { assert(I@[I@.len() - 1] == k as usize); } } }
@fn bats::reduce_matrix_clearing(&mut CM<F>, Vec<usize>, StdRedFlag) as red_clear
@prop P08 P09
@requires
  cmwf(*old(M)), forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < old(M).n
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  clears(*old(M), clear_inds@, *final(M))
@at entry
  let ghost A = *M;
@loop 0
  invariant 0 <= ix0 <= clear_inds@.len(), cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < A.n, zerocols(A.col@, A.n as int, hasv(clear_inds@, ix0 as int), M.col@)
  decreases clear_inds@.len() - ix0
@at loop 0 begin
  let ghost B = *M;
@at loop 0 end
  proof { let c = cind as int; assert(M.col@ =~= B.col@.update(c, M.col@[c])); let z0 = hasv(clear_inds@, ix0 as int); let z1 = hasv(clear_inds@, ix0 + 1); assert(clear_inds@[ix0 as int] == c);
    assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, i, j) == if z1(j) { F::szero() } else { colv(A.col@, i, j) } by { assert(colv(B.col@, i, j) == if z0(j) { F::szero() } else { colv(A.col@, i, j) });
      if z0(j) { let k = choose|k: int| 0 <= k < ix0 && clear_inds@[k] == j; assert(clear_inds@[k] == j); assert(z1(j)); } if j == c { assert(z1(j)); } else if z1(j) { let k = choose|k: int| 0 <= k < ix0 + 1 && clear_inds@[k] == j; assert(k < ix0); assert(clear_inds@[k] == j); assert(z0(j)); } } }
@at before red_s 0
  let ghost C = *M;
@at after red_s 0
  proof { let V = choose|V: spec_fn(int, int) -> F| redrel(C.n as int, V, C.col@, M.col@); assert(redrel(A.n as int, V, C.col@, M.col@)); assert(redfrom(A.n as int, C.col@, M.col@)); assert(clears(A, clear_inds@, *M)); }
@fn bats::reduce_matrix_clearing(&mut CM<F>, &mut CM<F>, CM<F>, Vec<usize>, StdRedFlag) as red_clear_u
@prop P08 P09
@opt rlimit=60
@requires
  cmwf(*old(M)), is_ident(*old(U)), old(U).n == old(M).n, clear_pre(*old(M), *R, p2c@)
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  trimat(true, *final(U)), final(U).n == old(U).n, is_prod(*old(M), *final(U), *final(M))
@at entry
  let ghost A = *M; let ghost U0 = *U;
  proof { assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, i, j) == prodv(A.col@, A.n as int, U.col@, i, j) by { assert forall|k: int| #[trigger] sval(U.col@[j].indval@, k) == if k == j { F::sone() } else { F::szero() } by { assert(cmv(*U, k, j) == if k == j { F::sone() } else { F::szero() }); } prod_ident(A.col@, A.n as int, U.col@[j].indval@, j, i); } assert(p2c@.len() == p2c.len());
    assert forall|a: int| 0 <= a < A.n implies #[trigger] cmv(*U, a, a) != F::szero() by { F::ax_one_ne_zero(); } }
@loop 0
  invariant 0 <= i <= A.n, i == it, p2c@.len() == A.n, p2c@.len() == p2c.len(), cmwf(A), cmwf(*M), M.m == A.m, M.n == A.n, trimat(true, *U), U.n == A.n, clear_pre(A, *R, p2c@),
    forall|r: int, j: int| 0 <= j < A.n ==> #[trigger] colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j)
  decreases p2c@.len() - i
@at loop 0 begin
  let ghost M0 = *M; let ghost V0 = *U; let ghost q = p2c@[i as int] as int; let ghost i0 = i as int;
  proof { if q != NO_IND { assert(sc(R.col@[q].indval@, A.n as int)); } }
@at loop 0 end
  proof { if q != NO_IND { let s = R.col@[q].indval@; assert(M.col@ =~= M0.col@.update(i0, M.col@[i0])); assert(U.col@ =~= V0.col@.update(i0, U.col@[i0])); assert(U.col@[i0].indval@ == s); sval_at(s, s.len() - 1); assert(s[s.len() - 1].val != F::szero());
    assert forall|r: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j) by { assert(colv(M0.col@, r, j) == prodv(A.col@, A.n as int, V0.col@, r, j)); if j == i0 { assert(prodv(A.col@, A.n as int, R.col@, r, q) == F::szero()); } }
    assert forall|r: int, j: int| 0 <= r < U.n && 0 <= j < U.n && r > j implies #[trigger] cmv(*U, r, j) == F::szero() by { assert(cmv(V0, r, j) == F::szero()); if j == i0 { sval_absent_above(s, r); } }
    assert forall|j: int| 0 <= j < U.n implies #[trigger] cmv(*U, j, j) != F::szero() by { assert(cmv(V0, j, j) != F::szero()); }
  } }
@at before red_u_s 0
  let ghost C = *M; let ghost W = *U;
@at after red_u_s 0
  proof { let V = choose|V: spec_fn(int, int) -> F| redrel2(C.n as int, V, C.col@, M.col@, W.col@, U.col@); assert(redrel2(A.n as int, V, C.col@, M.col@, W.col@, U.col@)); comb_prod(A.col@, A.n as int, C.col@, W.col@, A.n as int, V, M.col@, U.col@);
    assert forall|r: int, j: int| 0 <= j < A.n implies #[trigger] cmv(*M, r, j) == prodv(A.col@, A.n as int, U.col@, r, j) by { assert(colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j)); } }
@fn bats::reduce_matrix_compression(&mut CM<F>, Vec<bool>, StdRedFlag) as red_comp
@prop P08 P09
@throws comp_inds@.len() != old(M).m
@requires
  cmwf(*old(M))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)), compresses(*old(M), comp_inds@, *final(M))
@at entry
  let ghost A = *M;
@at before red_s 0
  let ghost C = *M;
@at after red_s 0
  proof { assert(zerorows(A, comp_inds@, C)); let V = choose|V: spec_fn(int, int) -> F| redrel(C.n as int, V, C.col@, M.col@); assert(redrel(C.n as int, V, C.col@, M.col@)); assert(redfrom(C.n as int, C.col@, M.col@)); assert(compresses(A, comp_inds@, *M)); }
@fn bats::reduce_matrix_compression(&mut CM<F>, &mut CM<F>, Vec<bool>, StdRedFlag) as red_comp_u
@prop P08 P09
@opt rlimit=60
@throws comp_inds@.len() != old(M).m
@requires
  cmwf(*old(M)), cmwf(*old(U)), old(U).n == old(M).n
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n,
  by_basis(*old(M), *final(M), *old(U), *final(U)),
  nopiv(*old(M), comp_inds@) ==> reduced(*final(M), ret@) && is_red(*final(M))
@at entry
  let ghost A = *M; let ghost U0 = *U; let ghost mut C = *M; let ghost mut I0 = *M;
@at after cm_identity 0
  proof { I0 = r_cm_identity_0; }
@at before red_u_s 0
  let ghost W = V;
  proof { C = *M; assert(zerorows(A, comp_inds@, C));
    assert forall|a: int| 0 <= a < A.n implies #[trigger] cmv(V, a, a) != F::szero() by { F::ax_one_ne_zero(); } assert(trimat(true, V)); }
@at after red_u_s 0
  let ghost R1 = *M;
  proof { let n = A.n as int; let X = choose|X: spec_fn(int, int) -> F| redrel2(C.n as int, X, C.col@, M.col@, W.col@, V.col@); assert(redrel2(n, X, C.col@, M.col@, W.col@, V.col@));
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(C.col@, i, j) == prodv(C.col@, n, W.col@, i, j) by { assert forall|k: int| #[trigger] sval(W.col@[j].indval@, k) == if k == j { F::sone() } else { F::szero() } by { assert(cmv(W, k, j) == if k == j { F::sone() } else { F::szero() }); } prod_ident(C.col@, n, W.col@[j].indval@, j, i); }
    comb_prod(C.col@, n, C.col@, W.col@, n, X, M.col@, V.col@);
    assert forall|r: int, j: int| 0 <= j < n implies #[trigger] cmv(*M, r, j) == prodv(C.col@, n, V.col@, r, j) by { assert(colv(M.col@, r, j) == prodv(C.col@, n, V.col@, r, j)); }
    assert(is_prod(C, V, *M)); }
@at before return 0
  proof { assert(is_prod(A, V, *M)); assert(is_prod(U0, V, *U)); assert(trimat(true, V) && V.n == A.n); assert(by_basis(A, *M, U0, *U));
    if nopiv(A, comp_inds@) { comp_reduced(A, comp_inds@, C, V, R1, *M, p2c@); reduced_is_red(*M, p2c@); } }
