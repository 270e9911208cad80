@unit la
@uses hom_lem
@rust
// ---- the reductions of consecutive boundary matrices ----
pub open spec fn svf<F: Field>(x: Seq<Nz<F>>) -> spec_fn(int) -> F { |k: int| sval(x, k) }
// A * B == 0
pub open spec fn ddz<F: Field>(A: CM<F>, B: CM<F>) -> bool { forall|i: int, j: int| 0 <= j < B.n ==> #[trigger] prodv(A.col@, A.n as int, B.col@, i, j) == F::szero() }
// R is a reduced form of B, p its pivot table
pub open spec fn red_at<F: Field>(B: CM<F>, R: CM<F>, p: Seq<usize>) -> bool { cmwf(R) && R.m == B.m && R.n == B.n && reduced(R, p) && is_red(R) && pivots_of(fm(B), B.m as int, B.n as int, p) }
// B * U == R with U upper triangular and invertible
pub open spec fn bas_at<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>) -> bool { trimat(true, U) && U.n == B.n && is_prod(B, U, R) }
pub proof fn mvx_mq<F: Field>(A: CM<F>, x: Seq<Nz<F>>, i: int)
    ensures mvx(A.col@, A.n as int, x, i) == mq(A.n as int, fm(A), svf(x), i)
{ assert forall|k: int| 0 <= k < A.n implies #[trigger] mvf(A.col@, x, i)(k) == mqf(fm(A), svf(x), i)(k) by { } fsum_ext(A.n as int, mvf(A.col@, x, i), mqf(fm(A), svf(x), i)); }
pub proof fn prod_mm<F: Field>(B: CM<F>, U: CM<F>, i: int, j: int)
    ensures prodv(B.col@, B.n as int, U.col@, i, j) == mm(B.n as int, fm(B), fm(U))(i, j)
{ let n = B.n as int; mvx_mq(B, U.col@[j].indval@, i); mq_ext(n, fm(B), fm(B), svf(U.col@[j].indval@), colf(fm(U), j), i); }
pub proof fn prod_pivots<F: Field>(B: CM<F>, U: CM<F>, R: CM<F>, p: Seq<usize>)
    requires cmwf(R), R.m == B.m, R.n == B.n, reduced(R, p), bas_at(B, R, U)
    ensures red_at(B, R, p)
{
    let n = B.n as int; let m = B.m as int;
    reduced_pivtab(R, p); trimat_utri(U); reduced_is_red(R, p);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(R)(i, j) == mm(n, fm(B), fm(U))(i, j) by { assert(cmv(R, i, j) == prodv(B.col@, n, U.col@, i, j)); prod_mm(B, U, i, j); }
    pivtab_ext(fm(R), mm(n, fm(B), fm(U)), m, n, p);
    assert(pivots_by(fm(B), m, n, fm(U), p));
}
// reduction started from the identity basis
pub proof fn from_ident<F: Field>(B: CM<F>, R: CM<F>, I: CM<F>, U: CM<F>)
    requires cmwf(B), is_ident(I), I.n == B.n, trimat(true, U), U.n == B.n, R.n == B.n, reduces2(B, R, I, U)
    ensures bas_at(B, R, U)
{
    let n = B.n as int;
    let V = choose|V: spec_fn(int, int) -> F| redrel2(n, V, B.col@, R.col@, I.col@, U.col@);
    assert(redrel2(n, V, B.col@, R.col@, I.col@, U.col@));
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(B.col@, i, j) == prodv(B.col@, n, I.col@, i, j) by { assert forall|k: int| #[trigger] sval(I.col@[j].indval@, k) == if k == j { F::sone() } else { F::szero() } by { assert(cmv(I, k, j) == if k == j { F::sone() } else { F::szero() }); } prod_ident(B.col@, n, I.col@[j].indval@, j, i); }
    comb_prod(B.col@, n, B.col@, I.col@, n, V, R.col@, U.col@);
    assert forall|i: int, j: int| 0 <= j < R.n implies #[trigger] cmv(R, i, j) == prodv(B.col@, n, U.col@, i, j) by { assert(colv(R.col@, i, j) == prodv(B.col@, n, U.col@, i, j)); }
}
pub proof fn ident_tri<F: Field>(I: CM<F>) requires is_ident(I) ensures trimat(true, I)
{ assert forall|i: int, j: int| 0 <= i < I.n && 0 <= j < I.n && i > j implies #[trigger] cmv(I, i, j) == F::szero() by { assert(cmv(I, i, j) == if i == j { F::sone() } else { F::szero() }); } assert forall|j: int| 0 <= j < I.n implies #[trigger] cmv(I, j, j) != F::szero() by { F::ax_one_ne_zero(); assert(cmv(I, j, j) == if j == j { F::sone() } else { F::szero() }); } }
pub proof fn plain_pivots<F: Field>(B: CM<F>, R: CM<F>, p: Seq<usize>)
    requires cmwf(B), cmwf(R), R.m == B.m, R.n == B.n, reduced(R, p), is_red(R), reduces(B, R)
    ensures red_at(B, R, p)
{ let V = choose|V: spec_fn(int, int) -> F| redrel(B.n as int, V, B.col@, R.col@); uunit_utri(B.n as int, V); red_pivots(B, V, R, p); }
// B0 (B1 y) == 0
pub proof fn dd_cycle<F: Field>(B0: CM<F>, B1: CM<F>, y: spec_fn(int) -> F, i: int)
    requires ddz(B0, B1), B1.m == B0.n
    ensures mq(B0.n as int, fm(B0), |k: int| mq(B1.n as int, fm(B1), y, k), i) == F::szero()
{
    broadcast use field_basic;
    let n0 = B0.n as int; let n1 = B1.n as int; let D = mm(n0, fm(B0), fm(B1));
    mq_assoc(n0, fm(B0), n1, fm(B1), y, i);
    assert forall|k: int| 0 <= k < n1 implies #[trigger] mqf(D, y, i)(k) == F::szero() by { prod_mm(B0, B1, i, k); assert(prodv(B0.col@, n0, B1.col@, i, k) == F::szero()); }
    fsum_zero(n1, mqf(D, y, i));
}
// ---- clearing ----
pub open spec fn clear_w<F: Field>(w: spec_fn(int, int) -> F, p: Seq<usize>) -> spec_fn(int, int) -> F { |k: int, j: int| if 0 <= j < p.len() && p[j] != NO_IND { w(k, p[j] as int) } else { if k == j { F::sone() } else { F::szero() } } }
pub proof fn clear_pivots<F: Field>(B0: CM<F>, B1: CM<F>, p1: Seq<usize>, s: Seq<usize>, M: CM<F>, p: Seq<usize>)
    requires cmwf(B0), cmwf(B1), cmwf(M), M.m == B0.m, M.n == B0.n, B1.m == B0.n, ddz(B0, B1), pivots_of(fm(B1), B1.m as int, B1.n as int, p1),
        forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < p1.len() && p1[s[a] as int] != NO_IND,
        forall|i: int| 0 <= i < p1.len() && #[trigger] p1[i] != NO_IND ==> s.contains(i as usize),
        clears(B0, s, M), reduced(M, p)
    ensures red_at(B0, M, p)
{
    broadcast use field_basic;
    let n = B0.n as int; let m = B0.m as int; let n1 = B1.n as int; let A = fm(B0);
    let V1 = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B1), B1.m as int, n1, V, p1);
    let w1 = mm(n1, fm(B1), V1); let W = clear_w(w1, p1); let z = hasv(s, s.len() as int);
    assert(pivtab(w1, n, n1, p1));
    let c = choose|c: Seq<SV<F>>| #[trigger] zerocols(B0.col@, n, z, c) && redfrom(n, c, M.col@);
    let V = choose|V: spec_fn(int, int) -> F| redrel(n, V, c, M.col@);
    assert(redrel(n, V, c, M.col@));
    assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] W(k, j) == F::szero() by { if p1[j] != NO_IND { assert(w1(k, p1[j] as int) == F::szero()); } }
    assert forall|j: int| 0 <= j < n implies #[trigger] W(j, j) != F::szero() by { F::ax_one_ne_zero(); if p1[j] != NO_IND { assert(w1(j, p1[j] as int) != F::szero()); } }
    assert(utri(n, W)); uunit_utri(n, V); utri_mm(n, W, V);
    let AW = mm(n, A, W);
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(c, i, j) == AW(i, j) by {
        assert(colv(c, i, j) == if z(j) { F::szero() } else { colv(B0.col@, i, j) });
        if p1[j] != NO_IND {
            assert(s.contains(j as usize)); let a = choose|a: int| 0 <= a < s.len() && s[a] == j as usize; assert(s[a] == j); assert(z(j));
            let q = p1[j] as int; dd_cycle(B0, B1, colf(V1, q), i);
            mq_ext(n, A, A, colf(W, j), |k: int| mq(n1, fm(B1), colf(V1, q), k), i);
        } else {
            if z(j) { let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a] == j; assert(p1[s[a] as int] != NO_IND); }
            let f = mqf(A, colf(W, j), i);
            assert forall|k: int| 0 <= k < n && k != j implies #[trigger] f(k) == F::szero() by { assert(W(k, j) == F::szero()); }
            fsum_one(n, f, j); assert(W(j, j) == F::sone());
        }
    }
    let X = mm(n, A, mm(n, W, V));
    reduced_pivtab(M, p);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(M)(i, j) == X(i, j) by {
        assert(colv(M.col@, i, j) == fsum(n, ccf(c, V, i, j)));
        assert forall|k: int| 0 <= k < n implies #[trigger] ccf(c, V, i, j)(k) == mqf(AW, colf(V, j), i)(k) by { assert(colv(c, i, k) == AW(i, k)); }
        fsum_ext(n, ccf(c, V, i, j), mqf(AW, colf(V, j), i));
        mq_assoc(n, A, n, W, colf(V, j), i);
        mq_ext(n, A, A, |k: int| mq(n, W, colf(V, j), k), colf(mm(n, W, V), j), i);
    }
    pivtab_ext(fm(M), X, m, n, p);
    assert(pivots_by(A, m, n, mm(n, W, V), p)); reduced_is_red(M, p);
}
// with bases: the columns of R1 are killed by B0
pub proof fn clear_bas_pre<F: Field>(B0: CM<F>, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>)
    requires cmwf(B0), cmwf(B1), B1.m == B0.n, ddz(B0, B1), red_at(B1, R1, p1), bas_at(B1, R1, U1)
    ensures clear_pre(B0, R1, p1)
{
    let n = B0.n as int; let n1 = B1.n as int;
    assert forall|i: int| 0 <= i < p1.len() && #[trigger] p1[i] != NO_IND implies p1[i] < R1.n && R1.col@[p1[i] as int].indval@.len() > 0 && low(R1.col@[p1[i] as int].indval@) == i && kills(B0.col@, n, R1.col@, p1[i] as int) by {
        let q = p1[i] as int;
        assert forall|r: int| #[trigger] prodv(B0.col@, n, R1.col@, r, q) == F::szero() by {
            prod_mm(B0, R1, r, q); let y = colf(fm(U1), q); dd_cycle(B0, B1, y, r);
            assert forall|k: int| 0 <= k < n implies #[trigger] colf(fm(R1), q)(k) == mq(n1, fm(B1), y, k) by { assert(cmv(R1, k, q) == prodv(B1.col@, n1, U1.col@, k, q)); prod_mm(B1, U1, k, q); }
            let zz = |k: int| mq(n1, fm(B1), y, k);
            mq_ext(n, fm(B0), fm(B0), colf(fm(R1), q), zz, r);
        }
    }
}
// ---- compression ----
pub proof fn top_nz<F: Field>(z: spec_fn(int) -> F, r: int, n: int) -> (t: int)
    requires 0 <= r < n, z(r) != F::szero()
    ensures r <= t < n, z(t) != F::szero(), forall|s: int| t < s < n ==> #[trigger] z(s) == F::szero()
    decreases n - r
{ if exists|s: int| r < s < n && #[trigger] z(s) != F::szero() { let s = choose|s: int| r < s < n && #[trigger] z(s) != F::szero(); top_nz(z, s, n) } else { r } }
pub open spec fn comp_ok<F: Field>(R0: CM<F>, c: Seq<bool>) -> bool { c.len() == R0.n && forall|j: int| 0 <= j < R0.n ==> #[trigger] c[j] == (R0.col@[j].indval@.len() > 0) }
// the last nonzero of a combination of the columns of B1 is not in a row of c
pub proof fn comp_top<F: Field>(B0: CM<F>, B1: CM<F>, R0: CM<F>, p0: Seq<usize>, c: Seq<bool>, y: spec_fn(int) -> F, i: int)
    requires cmwf(B0), cmwf(B1), B1.m == B0.n, ddz(B0, B1), red_at(B0, R0, p0), comp_ok(R0, c), 0 <= i < B1.m, mq(B1.n as int, fm(B1), y, i) != F::szero(), forall|r: int| i < r < B1.m ==> #[trigger] mq(B1.n as int, fm(B1), y, r) == F::szero()
    ensures !c[i]
{
    let z = |k: int| mq(B1.n as int, fm(B1), y, k);
    assert forall|r: int| 0 <= r < B0.m implies #[trigger] mq(B0.n as int, fm(B0), z, r) == F::szero() by { dd_cycle(B0, B1, y, r); }
    assert forall|r: int| i < r < B0.n implies #[trigger] z(r) == F::szero() by { assert(mq(B1.n as int, fm(B1), y, r) == F::szero()); }
    cyc_low(fm(B0), B0.m as int, B0.n as int, p0, z, i);
    reduced_pivtab(R0, p0);
    assert(R0.col@[i].indval@.len() == 0);
}
pub proof fn comp_pivots<F: Field>(B0: CM<F>, B1: CM<F>, R0: CM<F>, p0: Seq<usize>, c: Seq<bool>, M: CM<F>, p: Seq<usize>)
    requires cmwf(B0), cmwf(B1), cmwf(M), M.m == B1.m, M.n == B1.n, B1.m == B0.n, ddz(B0, B1), red_at(B0, R0, p0), comp_ok(R0, c), compresses(B1, c, M), reduced(M, p)
    ensures red_at(B1, M, p)
{
    broadcast use field_basic;
    let n = B1.n as int; let m = B1.m as int; let A = fm(B1);
    let C = choose|C: CM<F>| #[trigger] zerorows(B1, c, C) && redfrom(C.n as int, C.col@, M.col@);
    let V = choose|V: spec_fn(int, int) -> F| redrel(C.n as int, V, C.col@, M.col@);
    assert(redrel(n, V, C.col@, M.col@)); uunit_utri(n, V);
    let w = mm(n, A, V);
    reduced_pivtab(M, p);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(M)(i, j) == (if c[i] { F::szero() } else { w(i, j) }) by {
        assert(colv(M.col@, i, j) == fsum(n, ccf(C.col@, V, i, j)));
        let f = ccf(C.col@, V, i, j); let g = mqf(A, colf(V, j), i);
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == (if c[i] { F::szero() } else { g(k) }) by { assert(cmv(C, i, k) == if 0 <= i < m && c[i] { F::szero() } else { cmv(B1, i, k) }); }
        if c[i] { fsum_zero(n, f); } else { fsum_ext(n, f, g); }
    }
    assert forall|j: int, r: int| 0 <= j < n && 0 <= r < m && #[trigger] w(r, j) != F::szero() implies exists|t: int| r <= t < m && #[trigger] fm(M)(t, j) != F::szero() by {
        let z = |k: int| mq(n, A, colf(V, j), k); let t = top_nz(z, r, m);
        assert forall|s: int| t < s < m implies #[trigger] mq(n, A, colf(V, j), s) == F::szero() by { assert(z(s) == F::szero()); }
        comp_top(B0, B1, R0, p0, c, colf(V, j), t);
        assert(fm(M)(t, j) == w(t, j));
    }
    assert forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND implies p[i] < n && w(i, p[i] as int) != F::szero() by { assert(fm(M)(i, p[i] as int) != F::szero()); }
    assert forall|i: int, r: int| 0 <= i < r < m && #[trigger] p[i] != NO_IND implies #[trigger] w(r, p[i] as int) == F::szero() by { if w(r, p[i] as int) != F::szero() { let t = choose|t: int| r <= t < m && #[trigger] fm(M)(t, p[i] as int) != F::szero(); assert(i < t); } }
    assert forall|j: int, r: int| 0 <= j < n && 0 <= r < m && !haspiv(p, j) implies #[trigger] w(r, j) == F::szero() by { if w(r, j) != F::szero() { let t = choose|t: int| r <= t < m && #[trigger] fm(M)(t, j) != F::szero(); assert(fm(M)(t, j) == F::szero()); } }
    assert(pivtab(w, m, n, p)); assert(pivots_by(A, m, n, V, p)); reduced_is_red(M, p);
}
pub proof fn comp_bas_pre<F: Field>(B0: CM<F>, B1: CM<F>, R0: CM<F>, p0: Seq<usize>, c: Seq<bool>)
    requires cmwf(B0), cmwf(B1), B1.m == B0.n, ddz(B0, B1), red_at(B0, R0, p0), comp_ok(R0, c)
    ensures nopiv(B1, c)
{
    let n = B1.n as int; let b = B1.col@;
    assert forall|x: Seq<Nz<F>>, i: int| 0 <= i < B1.m && c[i] && sc(x, n) && (forall|r: int| i < r < B1.m ==> mvx(b, n, x, r) == F::szero()) implies #[trigger] mvx(b, n, x, i) == F::szero() by {
        if mvx(b, n, x, i) != F::szero() {
            mvx_mq(B1, x, i);
            assert forall|r: int| i < r < B1.m implies #[trigger] mq(n, fm(B1), svf(x), r) == F::szero() by { mvx_mq(B1, x, r); assert(mvx(b, n, x, r) == F::szero()); }
            comp_top(B0, B1, R0, p0, c, svf(x), i);
        }
    }
}
pub proof fn comp_bas<F: Field>(B: CM<F>, R: CM<F>, I: CM<F>, U: CM<F>)
    requires cmwf(B), cmwf(R), cmwf(U), R.n == B.n, is_ident(I), I.n == B.n, U.n == B.n, U.m == B.n, by_basis(B, R, I, U)
    ensures bas_at(B, R, U)
{
    broadcast use field_basic;
    let n = B.n as int;
    let V = choose|V: CM<F>| #[trigger] trimat(true, V) && V.n == B.n && is_prod(B, V, R) && is_prod(I, V, U);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] cmv(U, i, j) == cmv(V, i, j) by {
        assert(cmv(U, i, j) == prodv(I.col@, n, V.col@, i, j));
        let f = mvf(I.col@, V.col@[j].indval@, i);
        assert forall|k: int| 0 <= k < n && k != i implies #[trigger] f(k) == F::szero() by { assert(cmv(I, i, k) == if i == k { F::sone() } else { F::szero() }); }
        fsum_one(n, f, i); assert(cmv(I, i, i) == if i == i { F::sone() } else { F::szero() });
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i > j implies #[trigger] cmv(U, i, j) == F::szero() by { assert(cmv(V, i, j) == F::szero()); }
    assert forall|j: int| 0 <= j < n implies #[trigger] cmv(U, j, j) != F::szero() by { assert(cmv(V, j, j) != F::szero()); }
    assert forall|i: int, j: int| 0 <= j < R.n implies #[trigger] cmv(R, i, j) == prodv(B.col@, n, U.col@, i, j) by {
        assert(cmv(R, i, j) == prodv(B.col@, n, V.col@, i, j));
        let f = mvf(B.col@, V.col@[j].indval@, i); let g = mvf(B.col@, U.col@[j].indval@, i);
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { assert(cmv(U, k, j) == cmv(V, k, j)); }
        fsum_ext(n, f, g);
    }
}
@end
