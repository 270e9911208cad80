@unit la
@uses rcc
@rust
// ---- homology representatives ----
pub open spec fn hfit<F: Field>(X: RCC<F>, k: int) -> bool {
    &&& 0 <= k < X.R@.len() && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && trimat(true, X.U@[k])
    &&& k + 1 < X.R@.len() ==> cmwf(X.R@[k + 1]) && X.R@[k + 1].m == X.U@[k].n && reduced(X.R@[k + 1], X.p2c@[k + 1]@)
}
// U y2 == U y + R x for some x
pub open spec fn hmoved<F: Field>(U: CM<F>, R: CM<F>, x: spec_fn(int) -> F, y: Seq<Nz<F>>, y2: Seq<Nz<F>>) -> bool { forall|i: int| 0 <= i < U.n ==> #[trigger] mvx(U.col@, U.n as int, y2, i) == F::sadd(mvx(U.col@, U.n as int, y, i), mq(R.n as int, fm(R), x, i)) }
pub open spec fn bdmove<F: Field>(U: CM<F>, R: CM<F>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>) -> bool { exists|x: spec_fn(int) -> F| hmoved(U, R, x, y, y2) }
// y has no entry in a pivot row of p
pub open spec fn nopivots<F>(p: Seq<usize>, y: Seq<Nz<F>>) -> bool { forall|t: int| 0 <= t < y.len() ==> p[#[trigger] y[t].ind as int] == NO_IND }
pub proof fn hmoved_id<F: Field>(U: CM<F>, R: CM<F>, y: Seq<Nz<F>>) ensures hmoved(U, R, |k: int| F::szero(), y, y)
{ broadcast use field_basic; let x = |k: int| F::szero(); assert forall|i: int| 0 <= i < U.n implies #[trigger] mvx(U.col@, U.n as int, y, i) == F::sadd(mvx(U.col@, U.n as int, y, i), mq(R.n as int, fm(R), x, i)) by { fsum_zero(R.n as int, mqf(fm(R), x, i)); } }
pub proof fn mq_zero<F: Field>(n: int, A: spec_fn(int, int) -> F, x: spec_fn(int) -> F, i: int) requires forall|k: int| 0 <= k < n ==> #[trigger] x(k) == F::szero() ensures mq(n, A, x, i) == F::szero()
{ broadcast use field_basic; assert forall|k: int| 0 <= k < n implies #[trigger] mqf(A, x, i)(k) == F::szero() by { assert(x(k) == F::szero()); } fsum_zero(n, mqf(A, x, i)); }
pub proof fn hmoved_step<F: Field>(U: CM<F>, R: CM<F>, x: spec_fn(int) -> F, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, a: F, b: Seq<Nz<F>>, c: int, y3: Seq<Nz<F>>)
    requires hmoved(U, R, x, y, y2), 0 <= c < R.n, forall|i: int| 0 <= i < U.n ==> #[trigger] mvx(U.col@, U.n as int, b, i) == sval(R.col@[c].indval@, i), forall|i: int| #[trigger] sval(y3, i) == F::sadd(sval(y2, i), F::smul(a, sval(b, i)))
    ensures hmoved(U, R, vadd1(x, c, a), y, y3)
{
    let n = U.n as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] mvx(U.col@, n, y3, i) == F::sadd(mvx(U.col@, n, y, i), mq(R.n as int, fm(R), vadd1(x, c, a), i)) by {
        mvx_axpy(U.col@, n, y2, a, b, y3, i);
        assert(mvx(U.col@, n, b, i) == sval(R.col@[c].indval@, i)); assert(mvx(U.col@, n, y2, i) == F::sadd(mvx(U.col@, n, y, i), mq(R.n as int, fm(R), x, i)));
        mq_add1(R.n as int, fm(R), x, c, a, i); assert(fm(R)(i, c) == sval(R.col@[c].indval@, i));
        F::ax_add_assoc(mvx(U.col@, n, y, i), mq(R.n as int, fm(R), x, i), F::smul(a, sval(R.col@[c].indval@, i)));
    }
}
// an upper triangular change of basis keeps the last nonzero
pub proof fn utri_top<F: Field>(n: int, V: spec_fn(int, int) -> F, y: spec_fn(int) -> F, t: int)
    requires utri(n, V), 0 <= t < n, y(t) != F::szero(), forall|r: int| t < r < n ==> #[trigger] y(r) == F::szero()
    ensures mq(n, V, y, t) != F::szero(), forall|r: int| t < r < n ==> #[trigger] mq(n, V, y, r) == F::szero()
{
    broadcast use field_basic;
    let f = mqf(V, y, t);
    assert forall|k: int| 0 <= k < n && k != t implies #[trigger] f(k) == F::szero() by { if k > t { assert(y(k) == F::szero()); } else { assert(V(t, k) == F::szero()); } }
    fsum_one(n, f, t); assert(V(t, t) != F::szero());
    assert forall|r: int| t < r < n implies #[trigger] mq(n, V, y, r) == F::szero() by {
        let g = mqf(V, y, r);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == F::szero() by { if k > t { assert(y(k) == F::szero()); } else { assert(V(r, k) == F::szero()); } }
        fsum_zero(n, g);
    }
}
pub proof fn solve_low<F: Field>(U: CM<F>, b: Seq<Nz<F>>, s: Seq<Nz<F>>)
    requires trimat(true, U), sc(b, U.n as int), sc(s, U.n as int), s.len() > 0, forall|i: int| 0 <= i < U.n ==> #[trigger] mvx(U.col@, U.n as int, b, i) == sval(s, i)
    ensures b.len() > 0, low(b) == low(s)
{
    let n = U.n as int; trimat_utri(U); sc_some(s, n, s.len() - 1);
    if b.len() == 0 { mvx_mq(U, b, low(s)); mq_zero(n, fm(U), svf(b), low(s)); assert(mvx(U.col@, n, b, low(s)) == sval(s, low(s))); }
    else {
        let t = low(b); sc_some(b, n, b.len() - 1);
        assert forall|r: int| t < r < n implies #[trigger] svf(b)(r) == F::szero() by { sval_absent_above(b, r); }
        utri_top(n, fm(U), svf(b), t); mvx_mq(U, b, t); assert(mvx(U.col@, n, b, t) == sval(s, t));
        if t > low(s) { sval_absent_above(s, t); }
        if t < low(s) { mvx_mq(U, b, low(s)); assert(mvx(U.col@, n, b, low(s)) == sval(s, low(s))); }
    }
}
// X is a reduction of C with bases
pub open spec fn hom_of<F: Field>(C: CC<F>, X: RCC<F>) -> bool { ccwf(C) && ccdd(C) && rcc_red(C, X) && rcc_bas(C, X) && rcc_gens(X) }
pub proof fn hom_fit<F: Field>(C: CC<F>, X: RCC<F>, k: int) requires hom_of(C, X), 0 <= k < C.boundary@.len() ensures hfit(X, k)
{ assert(bas_at(C.boundary@[k], X.R@[k], X.U@[k])); if k + 1 < C.boundary@.len() { assert(red_at(C.boundary@[k + 1], X.R@[k + 1], X.p2c@[k + 1]@)); } }
pub open spec fn is_cycle<F: Field>(B: CM<F>, z: spec_fn(int) -> F) -> bool { forall|r: int| 0 <= r < B.m ==> #[trigger] mq(B.n as int, fm(B), z, r) == F::szero() }
// coefficients supported on the preferred representatives
pub open spec fn on_gens<F: Field>(I: Seq<usize>, n: int, y: spec_fn(int) -> F) -> bool { forall|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() ==> I.contains(j as usize) }
pub open spec fn comb<F: Field>(U: CM<F>, y: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| mq(U.n as int, fm(U), y, i) }
pub open spec fn same_on<F: Field>(n: int, z: spec_fn(int) -> F, w: spec_fn(int) -> F) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] z(i) == w(i) }
// B (U y) == R y
pub proof fn bas_comb<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, y: spec_fn(int) -> F, r: int)
    requires bas_at(B, R, U), R.n == B.n
    ensures mq(B.n as int, fm(B), comb(U, y), r) == mq(B.n as int, fm(R), y, r)
{
    let n = B.n as int;
    mq_assoc(n, fm(B), n, fm(U), y, r);
    assert forall|k: int| 0 <= k < n implies #[trigger] fm(R)(r, k) == mm(n, fm(B), fm(U))(r, k) by { assert(cmv(R, r, k) == prodv(B.col@, n, U.col@, r, k)); prod_mm(B, U, r, k); }
    mq_ext(n, fm(R), mm(n, fm(B), fm(U)), y, y, r);
    mq_ext(n, fm(B), fm(B), comb(U, y), |k: int| mq(n, fm(U), y, k), r);
}
// every preferred representative, and every combination of them, is a cycle
pub proof fn gens_cycle<F: Field>(C: CC<F>, X: RCC<F>, k: int, y: spec_fn(int) -> F)
    requires hom_of(C, X), 0 <= k < C.boundary@.len(), on_gens(X.I@[k]@, C.boundary@[k].n as int, y)
    ensures is_cycle(C.boundary@[k], comb(X.U@[k], y))
{
    broadcast use field_basic;
    let B = C.boundary@[k]; let R = X.R@[k]; let U = X.U@[k]; let n = B.n as int;
    assert(bas_at(B, R, U)); assert(red_at(B, R, X.p2c@[k]@)); assert(gens_at(X, k));
    assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), comb(U, y), r) == F::szero() by {
        bas_comb(B, R, U, y, r);
        assert forall|j: int| 0 <= j < n implies #[trigger] mqf(fm(R), y, r)(j) == F::szero() by {
            if y(j) != F::szero() { assert(X.I@[k]@.contains(j as usize)); let a = choose|a: int| 0 <= a < X.I@[k]@.len() && X.I@[k]@[a] == j as usize; assert(isgen(R, p_up(X, k), k == X.R@.len() - 1, X.I@[k]@[a] as int)); assert(R.col@[j].indval@.len() == 0); assert(fm(R)(r, j) == F::szero()); }
        }
        fsum_zero(n, mqf(fm(R), y, r));
    }
}
// the last nonzero of a boundary is in a pivot row
pub proof fn bdry_low<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, x: spec_fn(int) -> F, i: int)
    requires m >= 0, n >= 0, pivots_of(A, m, n, p), 0 <= i < m, mq(n, A, x, i) != F::szero(), forall|r: int| i < r < m ==> #[trigger] mq(n, A, x, r) == F::szero()
    ensures p[i] != NO_IND
{
    broadcast use field_basic;
    if p[i] == NO_IND {
        let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p); let w = mm(n, A, V);
        let y = tri_exists(n, V, x, n);
        assert forall|r: int| 0 <= r < m implies #[trigger] mq(n, w, y, r) == mq(n, A, x, r) by { mq_assoc(n, A, n, V, y, r); mq_ext(n, A, A, |k: int| mq(n, V, y, k), x, r); }
        let f = mqf(w, y, i);
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == F::szero() by {
            if y(j) != F::szero() {
                if haspiv(p, j) {
                    let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == j; assert(p[q] != NO_IND);
                    let t = comb_top(w, m, n, p, y, q); assert(mq(n, w, y, t) == mq(n, A, x, t));
                    assert(t <= i); assert(q < i); assert(w(i, p[q] as int) == F::szero());
                } else { assert(w(i, j) == F::szero()); }
            }
        }
        fsum_zero(n, f); assert(mq(n, w, y, i) == mq(n, A, x, i));
    }
}
pub open spec fn is_bdry<F: Field>(C: CC<F>, k: int, z: spec_fn(int) -> F) -> bool { let n = C.boundary@[k].n as int; if k + 1 < C.boundary@.len() { exists|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(C.boundary@[k + 1], x)) } else { forall|i: int| 0 <= i < n ==> #[trigger] z(i) == F::szero() } }
pub open spec fn bimg<F: Field>(B: CM<F>, x: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| mq(B.n as int, fm(B), x, i) }
// the preferred representatives of one dimension are linearly independent modulo boundaries
pub proof fn gens_independent<F: Field>(C: CC<F>, X: RCC<F>, k: int, y: spec_fn(int) -> F)
    requires hom_of(C, X), 0 <= k < C.boundary@.len(), on_gens(X.I@[k]@, C.boundary@[k].n as int, y), is_bdry(C, k, comb(X.U@[k], y))
    ensures forall|j: int| 0 <= j < C.boundary@[k].n ==> #[trigger] y(j) == F::szero()
{
    let B = C.boundary@[k]; let U = X.U@[k]; let n = B.n as int; let I = X.I@[k]@;
    assert(bas_at(B, X.R@[k], U)); trimat_utri(U); assert(gens_at(X, k));
    if exists|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() {
        let j = choose|j: int| 0 <= j < n && #[trigger] y(j) != F::szero();
        let t = top_nz(y, j, n); utri_top(n, fm(U), y, t);
        let z = comb(U, y); assert(z(t) == mq(n, fm(U), y, t));
        assert(I.contains(t as usize)); let a = choose|a: int| 0 <= a < I.len() && I[a] == t as usize; assert(isgen(X.R@[k], p_up(X, k), k == X.R@.len() - 1, I[a] as int));
        if k + 1 < C.boundary@.len() {
            let B1 = C.boundary@[k + 1]; let x = choose|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(B1, x));
            assert(red_at(B1, X.R@[k + 1], X.p2c@[k + 1]@)); assert(B1.m == B.n);
            assert(z(t) == bimg(B1, x)(t));
            assert forall|r: int| t < r < B1.m implies #[trigger] mq(B1.n as int, fm(B1), x, r) == F::szero() by { assert(mq(n, fm(U), y, r) == F::szero()); assert(z(r) == bimg(B1, x)(r)); }
            bdry_low(fm(B1), B1.m as int, B1.n as int, X.p2c@[k + 1]@, x, t);
        } else { assert(z(t) == F::szero()); }
    }
}
// a cycle has coordinates only at zero columns of R
pub proof fn cycle_coords<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, y: spec_fn(int) -> F)
    requires bas_at(B, R, U), red_at(B, R, p), is_cycle(B, comb(U, y))
    ensures forall|j: int| 0 <= j < B.n && #[trigger] y(j) != F::szero() ==> R.col@[j].indval@.len() == 0
{
    let n = B.n as int; reduced_pivtab(R, p);
    assert forall|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() implies R.col@[j].indval@.len() == 0 by {
        if R.col@[j].indval@.len() > 0 { assert(haspiv(p, j)); let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == j; assert(p[q] != NO_IND);
            let t = comb_top(fm(R), B.m as int, n, p, y, q); bas_comb(B, R, U, y, t); assert(mq(n, fm(B), comb(U, y), t) == F::szero()); }
    }
}
// R x is a boundary
pub proof fn red_bdry<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, x: spec_fn(int) -> F)
    requires bas_at(B, R, U), R.n == B.n
    ensures same_on(B.m as int, bimg(R, x), bimg(B, comb(U, x)))
{ assert forall|i: int| 0 <= i < B.m implies #[trigger] bimg(R, x)(i) == bimg(B, comb(U, x))(i) by { bas_comb(B, R, U, x, i); } }
// coordinates after find_preferred_representative: for a cycle, on the preferred representatives only, and the class is unchanged
pub proof fn preferred<F: Field>(C: CC<F>, X: RCC<F>, k: int, y: Seq<Nz<F>>, y2: Seq<Nz<F>>)
    requires hom_of(C, X), 0 <= k < C.boundary@.len(), sc(y, C.boundary@[k].n as int), sc(y2, C.boundary@[k].n as int), is_cycle(C.boundary@[k], comb(X.U@[k], svf(y))),
        k == X.R@.len() - 1 ==> y2 == y, k < X.R@.len() - 1 ==> nopivots(X.p2c@[k + 1]@, y2) && bdmove(X.U@[k], X.R@[k + 1], y, y2)
    ensures on_gens(X.I@[k]@, C.boundary@[k].n as int, svf(y2)), is_bdry(C, k, fdiff(comb(X.U@[k], svf(y2)), comb(X.U@[k], svf(y))))
{
    broadcast use field_basic;
    let B = C.boundary@[k]; let U = X.U@[k]; let R = X.R@[k]; let n = B.n as int;
    assert(bas_at(B, R, U)); assert(red_at(B, R, X.p2c@[k]@)); assert(gens_at(X, k));
    let z = comb(U, svf(y)); let z2 = comb(U, svf(y2)); let d = fdiff(z2, z);
    if k + 1 < C.boundary@.len() {
        let B1 = C.boundary@[k + 1]; let R1 = X.R@[k + 1]; let U1 = X.U@[k + 1];
        assert(bas_at(B1, R1, U1)); assert(red_at(B1, R1, X.p2c@[k + 1]@)); assert(B1.m == B.n); assert(ddat(C, k));
        let x = choose|x: spec_fn(int) -> F| hmoved(U, R1, x, y, y2); let x2 = comb(U1, x);
        red_bdry(B1, R1, U1, x);
        assert forall|i: int| 0 <= i < n implies #[trigger] z2(i) == F::sadd(z(i), bimg(B1, x2)(i)) by { mvx_mq(U, y, i); mvx_mq(U, y2, i); assert(mvx(U.col@, n, y2, i) == F::sadd(mvx(U.col@, n, y, i), mq(R1.n as int, fm(R1), x, i))); assert(bimg(R1, x)(i) == bimg(B1, x2)(i)); }
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == bimg(B1, x2)(i) by { let b = bimg(B1, x2)(i); assert(z2(i) == F::sadd(z(i), b)); f_add_sub(z(i), b); }
        assert(same_on(n, d, bimg(B1, x2)));
        assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), z2, r) == F::szero() by {
            dd_cycle(B, B1, x2, r); let bb = |q: int| mq(B1.n as int, fm(B1), x2, q);
            let f = mqf(fm(B), z, r); let g = mqf(fm(B), bb, r);
            assert forall|q: int| 0 <= q < n implies #[trigger] mqf(fm(B), z2, r)(q) == F::sadd(f(q), g(q)) by { assert(z2(q) == F::sadd(z(q), bimg(B1, x2)(q))); let w = fm(B)(r, q); F::ax_distrib(w, z(q), bb(q)); F::ax_mul_comm(w, z(q)); F::ax_mul_comm(w, bb(q)); F::ax_mul_comm(w, F::sadd(z(q), bb(q))); }
            fsum_add(n, f, g, mqf(fm(B), z2, r)); assert(mq(n, fm(B), z, r) == F::szero());
        }
    } else { assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == F::szero() by { F::ax_add_neg(z(i)); } }
    cycle_coords(B, R, U, X.p2c@[k]@, svf(y2));
    assert forall|j: int| 0 <= j < n && #[trigger] svf(y2)(j) != F::szero() implies X.I@[k]@.contains(j as usize) by {
        assert(R.col@[j].indval@.len() == 0); ssorted_sdist(y2); let t = sval_find(y2, j); assert(t != -1); assert(isgen(R, p_up(X, k), k == X.R@.len() - 1, j));
    }
}
pub open spec fn fdiff<F: Field>(a: spec_fn(int) -> F, b: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| F::sadd(a(i), F::sneg(b(i))) }
pub proof fn f_add_sub<F: Field>(a: F, b: F) ensures F::sadd(F::sadd(a, b), F::sneg(a)) == b
{ broadcast use field_basic; F::ax_add_comm(a, b); F::ax_add_assoc(b, a, F::sneg(a)); F::ax_add_neg(a); }
// whatever complex C the reduction X is of: if c is a cycle of C, r is a cycle homologous to c
pub open spec fn chain_ok<F: Field>(X: RCC<F>, k: int, c: Seq<Nz<F>>, r: Seq<Nz<F>>) -> bool { forall|C: CC<F>| #[trigger] hom_of(C, X) && is_cycle(C.boundary@[k], svf(c)) ==> is_bdry(C, k, fdiff(svf(r), svf(c))) && is_cycle(C.boundary@[k], svf(r)) }
pub open spec fn comb_of<F: Field>(U: CM<F>, y: Seq<Nz<F>>, r: Seq<Nz<F>>) -> bool { forall|i: int| #[trigger] sval(r, i) == mvx(U.col@, U.n as int, y, i) }
pub proof fn chain_lem<F: Field>(C: CC<F>, X: RCC<F>, k: int, c: Seq<Nz<F>>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, r: Seq<Nz<F>>)
    requires hom_of(C, X), 0 <= k < C.boundary@.len(), sc(y, X.U@[k].n as int), sc(y2, X.U@[k].n as int), sc(c, X.U@[k].n as int), is_cycle(C.boundary@[k], svf(c)), comb_of(X.U@[k], y2, r),
        forall|i: int| 0 <= i < X.U@[k].n ==> #[trigger] mvx(X.U@[k].col@, X.U@[k].n as int, y, i) == sval(c, i),
        k == X.R@.len() - 1 ==> y2 == y, k < X.R@.len() - 1 ==> nopivots(X.p2c@[k + 1]@, y2) && bdmove(X.U@[k], X.R@[k + 1], y, y2)
    ensures is_bdry(C, k, fdiff(svf(r), svf(c))), is_cycle(C.boundary@[k], svf(r))
{
    let B = C.boundary@[k]; let U = X.U@[k]; let n = B.n as int; assert(bas_at(B, X.R@[k], U)); assert(U.n == n);
    let z = comb(U, svf(y)); let z2 = comb(U, svf(y2));
    assert forall|i: int| 0 <= i < n implies #[trigger] z(i) == svf(c)(i) by { mvx_mq(U, y, i); assert(mvx(U.col@, n, y, i) == sval(c, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] z2(i) == svf(r)(i) by { mvx_mq(U, y2, i); assert(sval(r, i) == mvx(U.col@, n, y2, i)); }
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(n, fm(B), z, i) == F::szero() by { mq_ext(n, fm(B), fm(B), z, svf(c), i); assert(mq(n, fm(B), svf(c), i) == F::szero()); }
    preferred(C, X, k, y, y2); gens_cycle(C, X, k, svf(y2));
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(n, fm(B), svf(r), i) == F::szero() by { mq_ext(n, fm(B), fm(B), svf(r), z2, i); assert(mq(n, fm(B), z2, i) == F::szero()); }
    bdry_ext(C, k, fdiff(z2, z), fdiff(svf(r), svf(c)));
}
pub proof fn bdry_ext<F: Field>(C: CC<F>, k: int, z: spec_fn(int) -> F, w: spec_fn(int) -> F)
    requires 0 <= k < C.boundary@.len(), is_bdry(C, k, z), forall|i: int| 0 <= i < C.boundary@[k].n ==> z(i) == #[trigger] w(i)
    ensures is_bdry(C, k, w)
{
    let n = C.boundary@[k].n as int;
    if k + 1 < C.boundary@.len() { let x = choose|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(C.boundary@[k + 1], x)); assert forall|i: int| 0 <= i < n implies #[trigger] w(i) == bimg(C.boundary@[k + 1], x)(i) by { assert(z(i) == bimg(C.boundary@[k + 1], x)(i)); } assert(same_on(n, w, bimg(C.boundary@[k + 1], x))); }
    else { assert forall|i: int| 0 <= i < n implies #[trigger] w(i) == F::szero() by { assert(z(i) == F::szero()); } }
}
@end
@fn RCC<F>::to_hom_basis(SV<F>, usize) const as rcc_to_hom
@prop P10
@requires
  k < this.U@.len(), trimat(true, this.U@[k as int]), sc(v.indval@, this.U@[k as int].n as int)
@ensures
  sc(ret.indval@, this.U@[k as int].n as int), forall|i: int| 0 <= i < this.U@[k as int].n ==> #[trigger] mvx(this.U@[k as int].col@, this.U@[k as int].n as int, ret.indval@, i) == sval(v.indval@, i)
@fn RCC<F>::from_hom_basis(SV<F>, usize) const as rcc_from_hom
@prop P10
@requires
  k < this.U@.len(), cmwf(this.U@[k as int]), sc(v.indval@, this.U@[k as int].n as int)
@ensures
  sc(ret.indval@, this.U@[k as int].m as int), forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.U@[k as int].col@, this.U@[k as int].n as int, v.indval@, i)
@fn RCC<F>::get_preferred_representative(usize, usize) const as rcc_rep
@prop P10
@requires
  k < this.U@.len(), k < this.I@.len(), j < this.I@[k as int]@.len(), this.I@[k as int]@[j as int] < this.U@[k as int].col@.len()
@ensures
  ret == this.U@[k as int].col@[this.I@[k as int]@[j as int] as int]
@fn RCC<F>::find_preferred_representative(&mut SV<F>, usize) const as rcc_find
@prop P10
@opt wrap=1 rlimit=60
@requires
  hfit(*this, k as int), sc(old(y).indval@, this.U@[k as int].n as int)
@ensures
  sc(final(y).indval@, this.U@[k as int].n as int),
  k == this.R@.len() - 1 ==> final(y).indval@ == old(y).indval@,
  k < this.R@.len() - 1 ==> nopivots(this.p2c@[k + 1]@, final(y).indval@) && bdmove(this.U@[k as int], this.R@[k + 1], old(y).indval@, final(y).indval@)
@at entry
  let ghost y0 = y.indval@; let ghost n = this.U@[k as int].n as int; let ghost mut x = |q: int| F::szero(); let ghost mut J: int = n;
  proof { assert(y0.subrange(0, y0.len() as int) =~= y0); assert(this.R.len() == this.R@.len()); if k + 1 < this.R@.len() { hmoved_id(this.U@[k as int], this.R@[k + 1], y0); } }
@loop 0
  invariant k + 1 < this.R@.len(), hfit(*this, k as int), n == this.U@[k as int].n, sc(y.indval@, n), 0 <= yit <= y.indval@.len(), 0 <= J <= n, hmoved(this.U@[k as int], this.R@[k + 1], x, y0, y.indval@),
    forall|t: int| yit <= t < y.indval@.len() ==> this.p2c@[k + 1]@[(#[trigger] y.indval@[t]).ind as int] == NO_IND,
    forall|t: int| 0 <= t < y.indval@.len() && (#[trigger] y.indval@[t]).ind >= J ==> this.p2c@[k + 1]@[y.indval@[t].ind as int] == NO_IND,
  decreases J, yit
@at loop 0 begin
  let ghost Y1 = y.indval@; let ghost e = yit - 1;
@at after cm_u_solve 0
  let ghost rc = this.R@[k + 1].col@[i as int].indval@; let ghost b = r_cm_u_solve_0.indval@;
  proof { assert(sc(rc, n)); assert(low(rc) == j); solve_low(this.U@[k as int], b, rc); sc_some(b, n, b.len() - 1); }
@at before sv_axpy 0
  proof { assert(yit == e); }
@at after sv_axpy 0
  proof { let c = F::sneg(a); let z = y.indval@; red_step(Y1, b, z, n, c, e); hmoved_step(this.U@[k as int], this.R@[k + 1], x, y0, Y1, c, b, i as int, z); x = vadd1(x, i as int, c); J = j as int; assert(z.subrange(0, z.len() as int) =~= z);
    let q = Y1.len() - 1 - e;
    assert forall|t: int| z.len() - q <= t < z.len() implies #[trigger] z[t] == Y1[t - z.len() + Y1.len()] by { let w = z.len() - 1 - t; assert(z[z.len() - 1 - w] == Y1[Y1.len() - 1 - w]); }
    assert forall|t: int| 0 <= t < z.len() - q implies (#[trigger] z[t]).ind < j by { if t < z.len() - q - 1 { assert(z[t].ind < z[z.len() - q - 1].ind); } }
    assert forall|t: int| z.len() - q <= t < z.len() implies (#[trigger] z[t]).ind > j by { let u = t - z.len() + Y1.len(); assert(z[t] == Y1[u]); assert(Y1[e].ind < Y1[u].ind); } }
@at exit
  proof { assert(bdmove(this.U@[k as int], this.R@[k + 1], y0, y.indval@)); }
@fn RCC<F>::chain_preferred_representative(SV<F>, usize) const as rcc_chain
@prop P10
@requires
  hfit(*this, k as int), sc(c.indval@, this.U@[k as int].n as int)
@ensures
  sc(ret.indval@, this.U@[k as int].n as int),
  chain_ok(*this, k as int, c.indval@, ret.indval@)
@at after rcc_to_hom 0
  let ghost b = r_rcc_to_hom_0.indval@;
@at before return 0
  proof { let y2 = x.indval@; let U = this.U@[k as int];
    assert forall|r: SV<F>| sc(r.indval@, U.m as int) && comb_of(U, y2, r.indval@) implies chain_ok(*this, k as int, c.indval@, #[trigger] r.indval@) by {
      assert forall|C: CC<F>| #[trigger] hom_of(C, *this) && is_cycle(C.boundary@[k as int], svf(c.indval@)) implies is_bdry(C, k as int, fdiff(svf(r.indval@), svf(c.indval@))) && is_cycle(C.boundary@[k as int], svf(r.indval@)) by { chain_lem(C, *this, k as int, c.indval@, b, y2, r.indval@); } } }
