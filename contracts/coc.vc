@unit la
@uses dg dg_hom dual_rank
@rust
// ---- cochain complexes: coboundary[k] maps dimension k - 1 into dimension k (from a one dimensional space for k == 0) ----
pub open spec fn cowf<F: Field>(C: CoC<F>) -> bool {
    &&& C.dim@.len() > 0 && C.coboundary@.len() == C.dim@.len() && C.coboundary@[0].n == 1
    &&& forall|k: int| 0 <= k < C.dim@.len() ==> cmwf(#[trigger] C.coboundary@[k]) && C.coboundary@[k].m == C.dim@[k]
    &&& forall|k: int| 1 <= k < C.dim@.len() ==> (#[trigger] C.coboundary@[k]).n == C.coboundary@[k - 1].m
}
pub open spec fn codd<F: Field>(C: CoC<F>) -> bool { forall|k: int| 0 <= k < C.coboundary@.len() - 1 ==> #[trigger] codd_at(C, k) }
pub open spec fn codd_at<F: Field>(C: CoC<F>, k: int) -> bool { ddz(C.coboundary@[k + 1], C.coboundary@[k]) }
pub open spec fn co_red<F: Field>(C: CoC<F>, X: RCoC<F>) -> bool { X.R@.len() == C.coboundary@.len() && X.p2c@.len() == C.coboundary@.len() && forall|k: int| 0 <= k < C.coboundary@.len() ==> #[trigger] red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@) }
pub open spec fn co_bas<F: Field>(C: CoC<F>, X: RCoC<F>) -> bool { X.U@.len() == C.coboundary@.len() && forall|k: int| 0 <= k < C.coboundary@.len() ==> #[trigger] bas_at(C.coboundary@[k], X.R@[k], X.U@[k]) }
// top dimension: every cochain is a cocycle, generators are the rows without pivot
pub open spec fn tgen(p: Seq<usize>, j: int) -> bool { 0 <= j < p.len() && p[j] == NO_IND }
pub open spec fn tgens(p: Seq<usize>, s: Seq<usize>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b]
    &&& forall|a: int| 0 <= a < s.len() ==> tgen(p, #[trigger] s[a] as int)
    &&& forall|j: int| #[trigger] tgen(p, j) ==> s.contains(j as usize)
}
pub open spec fn co_gens_at<F: Field>(X: RCoC<F>, k: int) -> bool { if k == X.R@.len() - 1 { tgens(X.p2c@[k]@, X.I@[k]@) } else { gens(X.R@[k + 1], X.p2c@[k]@, false, X.I@[k]@) } }
pub open spec fn co_gens<F: Field>(X: RCoC<F>) -> bool { X.I@.len() == X.R@.len() && forall|k: int| 0 <= k < X.R@.len() ==> #[trigger] co_gens_at(X, k) }
pub open spec fn co_fit<F: Field>(X: RCoC<F>) -> bool {
    &&& X.R@.len() > 0 && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len()
    &&& forall|k: int| 0 <= k < X.R@.len() ==> cmwf(#[trigger] X.R@[k]) && X.R@[k].m == X.p2c@[k]@.len()
    &&& forall|k: int| 1 <= k < X.R@.len() ==> (#[trigger] X.R@[k]).n == X.p2c@[k - 1]@.len()
}
pub proof fn co_red_fit<F: Field>(C: CoC<F>, X: RCoC<F>) requires cowf(C), co_red(C, X), X.I@.len() == X.R@.len() ensures co_fit(X)
{
    assert forall|k: int| 0 <= k < X.R@.len() implies cmwf(#[trigger] X.R@[k]) && X.R@[k].m == X.p2c@[k]@.len() by { assert(red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@)); }
    assert forall|k: int| 1 <= k < X.R@.len() implies (#[trigger] X.R@[k]).n == X.p2c@[k - 1]@.len() by { assert(red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.coboundary@[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); }
}
// any two reductions of one cochain complex have the same pivots and the same cohomology indices
pub proof fn co_options_agree<F: Field>(C: CoC<F>, X: RCoC<F>, Y: RCoC<F>, k: int)
    requires cowf(C), co_red(C, X), co_gens(X), co_red(C, Y), co_gens(Y), 0 <= k < C.coboundary@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@, X.I@[k]@ == Y.I@[k]@
{
    co_same_piv(C, X, Y, k); assert(co_gens_at(X, k)); assert(co_gens_at(Y, k));
    if k < C.coboundary@.len() - 1 {
        co_same_piv(C, X, Y, k + 1); assert(red_at(C.coboundary@[k + 1], X.R@[k + 1], X.p2c@[k + 1]@)); assert(red_at(C.coboundary@[k + 1], Y.R@[k + 1], Y.p2c@[k + 1]@));
        reduced_pivtab(X.R@[k + 1], X.p2c@[k + 1]@); reduced_pivtab(Y.R@[k + 1], Y.p2c@[k + 1]@);
        gens_same(X.R@[k + 1], Y.R@[k + 1], X.p2c@[k]@, false, X.I@[k]@, Y.I@[k]@);
    } else {
        let p = X.p2c@[k]@; let s = X.I@[k]@; let t = Y.I@[k]@;
        assert forall|x: usize| s.contains(x) == t.contains(x) by {
            if s.contains(x) { let a = choose|a: int| 0 <= a < s.len() && s[a] == x; assert(tgen(p, s[a] as int)); assert(tgen(p, x as int)); }
            if t.contains(x) { let a = choose|a: int| 0 <= a < t.len() && t[a] == x; assert(tgen(p, t[a] as int)); assert(tgen(p, x as int)); }
        }
        incr_unique(s, t);
    }
}
pub proof fn co_same_piv<F: Field>(C: CoC<F>, X: RCoC<F>, Y: RCoC<F>, k: int)
    requires co_red(C, X), co_red(C, Y), 0 <= k < C.coboundary@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@
{ let B = C.coboundary@[k]; assert(red_at(B, X.R@[k], X.p2c@[k]@)); assert(red_at(B, Y.R@[k], Y.p2c@[k]@)); piv_unique(fm(B), B.m as int, B.n as int, X.p2c@[k]@, Y.p2c@[k]@); }
pub open spec fn co_up<F: Field>(X: RCoC<F>, k: int) -> int { if k + 1 < X.p2c@.len() { npiv(X.p2c@[k + 1]@) } else { 0 } }
pub proof fn co_betti_count<F: Field>(C: CoC<F>, X: RCoC<F>, k: int)
    requires cowf(C), codd(C), co_red(C, X), co_gens(X), 0 <= k < C.coboundary@.len()
    ensures X.I@[k]@.len() == C.dim@[k] - npiv(X.p2c@[k]@) - co_up(X, k)
{
    assert(red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@)); assert(co_gens_at(X, k)); let B1 = C.coboundary@[k]; let u = X.p2c@[k]@; let s = X.I@[k]@;
    if k < C.coboundary@.len() - 1 {
        let B = C.coboundary@[k + 1]; assert(red_at(B, X.R@[k + 1], X.p2c@[k + 1]@)); assert(codd_at(C, k)); assert(B1.m == B.n);
        pair_count(B, X.R@[k + 1], X.p2c@[k + 1]@, B1, X.R@[k], u, s);
    } else {
        let n = B1.m as int; let all = |j: int| true; let g = |j: int| tgen(u, j); assert(u.len() == n);
        assert forall|j: int| 0 <= j < n implies #[trigger] all(j) == (g(j) || has_i(u)(j)) by { }
        assert forall|j: int| 0 <= j < n implies !(#[trigger] g(j) && has_i(u)(j)) by { }
        cnt_split(n, all, g, has_i(u)); cnt_all(n, all); npiv_cnt(u); list_cnt(n, g, s);
    }
}
// D is the cochain complex of the chain complex C
pub open spec fn co_dual_at<F: Field>(C: CC<F>, D: CoC<F>, k: int) -> bool { let A = C.boundary@[k]; let B = D.coboundary@[k]; B.m == A.n && B.n == A.m && forall|i: int, j: int| 0 <= i < B.m && 0 <= j < B.n ==> #[trigger] cmv(B, i, j) == cmv(A, j, i) }
pub open spec fn co_dual<F: Field>(C: CC<F>, D: CoC<F>) -> bool { D.coboundary@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] co_dual_at(C, D, k) }
pub proof fn co_dual_rank<F: Field>(C: CC<F>, D: CoC<F>, X: RCC<F>, Y: RCoC<F>, k: int)
    requires co_dual(C, D), rcc_red(C, X), co_red(D, Y), 0 <= k < C.boundary@.len()
    ensures npiv(X.p2c@[k]@) == npiv(Y.p2c@[k]@)
{
    let A = C.boundary@[k]; let B = D.coboundary@[k]; let m = A.m as int; let n = A.n as int; let q = Y.p2c@[k]@; assert(red_at(A, X.R@[k], X.p2c@[k]@)); assert(red_at(B, Y.R@[k], q)); assert(co_dual_at(C, D, k)); assert(m <= NO_IND && n <= NO_IND);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] fm(B)(i, j) == tp(fm(A))(i, j) by { assert(cmv(B, i, j) == cmv(A, j, i)); } pivots_feq(fm(B), tp(fm(A)), n, m, q); rank_tp(fm(A), m, n, X.p2c@[k]@, q);
}
// homology and cohomology have the same Betti numbers, whatever options each was reduced with
pub proof fn co_dual_betti<F: Field>(C: CC<F>, D: CoC<F>, X: RCC<F>, Y: RCoC<F>, k: int)
    requires ccwf(C), ccdd(C), cowf(D), codd(D), co_dual(C, D), rcc_red(C, X), rcc_gens(X), co_red(D, Y), co_gens(Y), 0 <= k < C.boundary@.len()
    ensures X.I@[k]@.len() == Y.I@[k]@.len()
{ betti_count(C, X, k); co_betti_count(D, Y, k); co_dual_rank(C, D, X, Y, k); assert(co_dual_at(C, D, k)); if k + 1 < C.boundary@.len() { co_dual_rank(C, D, X, Y, k + 1); } else { assert(npiv(p_up(X, k)) == 0); } assert(D.coboundary@[k].m == D.dim@[k]); }
// ---- cohomology classes ----
pub open spec fn co_of<F: Field>(C: CoC<F>, X: RCoC<F>) -> bool { cowf(C) && codd(C) && co_red(C, X) && co_bas(C, X) && co_gens(X) }
pub open spec fn co_top<F: Field>(X: RCoC<F>, k: int) -> bool { k == X.R@.len() - 1 }
pub open spec fn co_hfit<F: Field>(X: RCoC<F>, k: int) -> bool {
    &&& 0 <= k < X.R@.len() <= usize::MAX && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len()
    &&& !co_top(X, k) ==> trimat(true, X.U@[k + 1]) && X.R@[k].m == X.U@[k + 1].n
    &&& cmwf(X.R@[k]) && reduced(X.R@[k], X.p2c@[k]@)
}
// the cochain with coordinates y in the cohomology basis of dimension k
pub open spec fn co_comb<F: Field>(X: RCoC<F>, k: int, y: spec_fn(int) -> F) -> spec_fn(int) -> F { if co_top(X, k) { y } else { comb(X.U@[k + 1], y) } }
pub open spec fn co_cyc<F: Field>(C: CoC<F>, k: int, z: spec_fn(int) -> F) -> bool { k + 1 < C.coboundary@.len() ==> is_cycle(C.coboundary@[k + 1], z) }
pub open spec fn co_bdry<F: Field>(C: CoC<F>, k: int, z: spec_fn(int) -> F) -> bool { is_bdry2(C.coboundary@[k].m as int, C.coboundary@[k], false, z) }
pub open spec fn co_chain_ok<F: Field>(X: RCoC<F>, k: int, c: Seq<Nz<F>>, r: Seq<Nz<F>>) -> bool { forall|C: CoC<F>| #[trigger] co_of(C, X) && co_cyc(C, k, svf(c)) ==> co_bdry(C, k, fdiff(svf(r), svf(c))) && co_cyc(C, k, svf(r)) }
pub proof fn co_hom2<F: Field>(C: CoC<F>, X: RCoC<F>, k: int)
    requires co_of(C, X), 0 <= k < C.coboundary@.len() <= usize::MAX
    ensures co_hfit(X, k), X.R@[k].m == C.coboundary@[k].m, bas_at(C.coboundary@[k], X.R@[k], X.U@[k]), red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@), co_gens_at(X, k),
        !co_top(X, k) ==> C.coboundary@[k + 1].n == C.coboundary@[k].m && hom2(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1], X.p2c@[k + 1]@, false, C.coboundary@[k], X.R@[k], X.U@[k], X.p2c@[k]@, X.I@[k]@)
{
    assert(red_at(C.coboundary@[k], X.R@[k], X.p2c@[k]@)); assert(bas_at(C.coboundary@[k], X.R@[k], X.U@[k])); assert(co_gens_at(X, k));
    if !co_top(X, k) { assert(red_at(C.coboundary@[k + 1], X.R@[k + 1], X.p2c@[k + 1]@)); assert(bas_at(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1])); assert(codd_at(C, k)); assert(C.coboundary@[k].m == C.coboundary@[k + 1].n); }
}
pub proof fn co_gens_cycle<F: Field>(C: CoC<F>, X: RCoC<F>, k: int, y: spec_fn(int) -> F)
    requires co_of(C, X), 0 <= k < C.coboundary@.len() <= usize::MAX, on_gens(X.I@[k]@, C.dim@[k] as int, y)
    ensures co_cyc(C, k, co_comb(X, k, y))
{ co_hom2(C, X, k); if !co_top(X, k) { gens_cycle2(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1], X.p2c@[k + 1]@, false, C.coboundary@[k], X.R@[k], X.U@[k], X.p2c@[k]@, X.I@[k]@, y); } }
pub proof fn co_gens_independent<F: Field>(C: CoC<F>, X: RCoC<F>, k: int, y: spec_fn(int) -> F)
    requires co_of(C, X), 0 <= k < C.coboundary@.len() <= usize::MAX, on_gens(X.I@[k]@, C.dim@[k] as int, y), co_bdry(C, k, co_comb(X, k, y))
    ensures forall|j: int| 0 <= j < C.dim@[k] ==> #[trigger] y(j) == F::szero()
{
    co_hom2(C, X, k); let n = C.dim@[k] as int; let B1 = C.coboundary@[k]; let p1 = X.p2c@[k]@; let I = X.I@[k]@;
    if !co_top(X, k) { gens_independent2(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1], X.p2c@[k + 1]@, false, B1, X.R@[k], X.U@[k], p1, I, y); }
    else if exists|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() {
        let j = choose|j: int| 0 <= j < n && #[trigger] y(j) != F::szero(); let t = top_nz(y, j, n);
        assert(I.contains(t as usize)); let a = choose|a: int| 0 <= a < I.len() && I[a] == t as usize; assert(tgen(p1, I[a] as int));
        let x = choose|x: spec_fn(int) -> F| same_on(n, y, #[trigger] bimg(B1, x));
        assert(y(t) == bimg(B1, x)(t));
        assert forall|r: int| t < r < B1.m implies #[trigger] mq(B1.n as int, fm(B1), x, r) == F::szero() by { assert(y(r) == bimg(B1, x)(r)); }
        bdry_low(fm(B1), B1.m as int, B1.n as int, p1, x, t);
    }
}
// y2 == y + R x
pub open spec fn tmoved<F: Field>(R: CM<F>, x: spec_fn(int) -> F, y: Seq<Nz<F>>, y2: Seq<Nz<F>>) -> bool { forall|i: int| 0 <= i < R.m ==> #[trigger] sval(y2, i) == F::sadd(sval(y, i), mq(R.n as int, fm(R), x, i)) }
pub proof fn tmoved_id<F: Field>(R: CM<F>, y: Seq<Nz<F>>) ensures tmoved(R, |k: int| F::szero(), y, y)
{ broadcast use field_basic; let x = |k: int| F::szero(); assert forall|i: int| 0 <= i < R.m implies #[trigger] sval(y, i) == F::sadd(sval(y, i), mq(R.n as int, fm(R), x, i)) by { fsum_zero(R.n as int, mqf(fm(R), x, i)); } }
pub proof fn tmoved_step<F: Field>(R: CM<F>, x: spec_fn(int) -> F, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, a: F, b: Seq<Nz<F>>, c: int, y3: Seq<Nz<F>>)
    requires tmoved(R, x, y, y2), 0 <= c < R.n, b == R.col@[c].indval@, forall|i: int| #[trigger] sval(y3, i) == F::sadd(sval(y2, i), F::smul(a, sval(b, i)))
    ensures tmoved(R, vadd1(x, c, a), y, y3)
{
    assert forall|i: int| 0 <= i < R.m implies #[trigger] sval(y3, i) == F::sadd(sval(y, i), mq(R.n as int, fm(R), vadd1(x, c, a), i)) by {
        assert(sval(y2, i) == F::sadd(sval(y, i), mq(R.n as int, fm(R), x, i)));
        mq_add1(R.n as int, fm(R), x, c, a, i); assert(fm(R)(i, c) == sval(b, i));
        F::ax_add_assoc(sval(y, i), mq(R.n as int, fm(R), x, i), F::smul(a, sval(b, i)));
    }
}
pub open spec fn co_moved<F: Field>(X: RCoC<F>, k: int, x: spec_fn(int) -> F, y: Seq<Nz<F>>, y2: Seq<Nz<F>>) -> bool { if co_top(X, k) { tmoved(X.R@[k], x, y, y2) } else { hmoved(X.U@[k + 1], X.R@[k], x, y, y2) } }
pub open spec fn co_move<F: Field>(X: RCoC<F>, k: int, y: Seq<Nz<F>>, y2: Seq<Nz<F>>) -> bool { exists|x: spec_fn(int) -> F| co_moved(X, k, x, y, y2) }
// the preferred representative: only on the generators, and in the same class
pub proof fn co_preferred<F: Field>(C: CoC<F>, X: RCoC<F>, k: int, y: Seq<Nz<F>>, y2: Seq<Nz<F>>)
    requires co_of(C, X), 0 <= k < C.coboundary@.len() <= usize::MAX, sc(y, C.dim@[k] as int), sc(y2, C.dim@[k] as int), co_cyc(C, k, co_comb(X, k, svf(y))), nopivots(X.p2c@[k]@, y2), co_move(X, k, y, y2)
    ensures on_gens(X.I@[k]@, C.dim@[k] as int, svf(y2)), co_bdry(C, k, fdiff(co_comb(X, k, svf(y2)), co_comb(X, k, svf(y))))
{
    co_hom2(C, X, k); let n = C.dim@[k] as int; let B1 = C.coboundary@[k]; let R1 = X.R@[k]; let U1 = X.U@[k]; let p1 = X.p2c@[k]@; let I = X.I@[k]@;
    let x = choose|x: spec_fn(int) -> F| co_moved(X, k, x, y, y2);
    if !co_top(X, k) { assert(bdmove(X.U@[k + 1], R1, y, y2)); preferred2(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1], X.p2c@[k + 1]@, false, B1, R1, U1, p1, I, y, y2); }
    else {
        let x2 = comb(U1, x); red_bdry(B1, R1, U1, x); let d = fdiff(svf(y2), svf(y));
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == bimg(B1, x2)(i) by { assert(sval(y2, i) == F::sadd(sval(y, i), mq(R1.n as int, fm(R1), x, i))); assert(bimg(R1, x)(i) == bimg(B1, x2)(i)); f_add_sub(sval(y, i), bimg(B1, x2)(i)); }
        assert(same_on(n, d, bimg(B1, x2)));
        assert forall|j: int| 0 <= j < n && #[trigger] svf(y2)(j) != F::szero() implies I.contains(j as usize) by { ssorted_sdist(y2); let t = sval_find(y2, j); assert(t != -1); assert(y2[t].ind == j); assert(tgen(p1, j)); }
    }
}
pub proof fn co_chain_lem<F: Field>(C: CoC<F>, X: RCoC<F>, k: int, c: Seq<Nz<F>>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, r: Seq<Nz<F>>)
    requires co_of(C, X), 0 <= k < C.coboundary@.len() <= usize::MAX, sc(c, C.dim@[k] as int), sc(y, C.dim@[k] as int), sc(y2, C.dim@[k] as int), co_cyc(C, k, svf(c)), nopivots(X.p2c@[k]@, y2), co_move(X, k, y, y2),
        co_top(X, k) ==> y == c && r == y2,
        !co_top(X, k) ==> comb_of(X.U@[k + 1], y2, r) && forall|i: int| 0 <= i < X.U@[k + 1].n ==> #[trigger] mvx(X.U@[k + 1].col@, X.U@[k + 1].n as int, y, i) == sval(c, i)
    ensures co_bdry(C, k, fdiff(svf(r), svf(c))), co_cyc(C, k, svf(r))
{
    co_hom2(C, X, k); let x = choose|x: spec_fn(int) -> F| co_moved(X, k, x, y, y2);
    if !co_top(X, k) { assert(bdmove(X.U@[k + 1], X.R@[k], y, y2)); chain_lem2(C.coboundary@[k + 1], X.R@[k + 1], X.U@[k + 1], X.p2c@[k + 1]@, false, C.coboundary@[k], X.R@[k], X.U@[k], X.p2c@[k]@, X.I@[k]@, c, y, y2, r); }
    else { co_preferred(C, X, k, y, y2); }
}
@end
@fn CoC<F>::maxdim() const as coc_maxdim
@prop P09
@requires
  this.dim@.len() > 0
@ensures
  ret == this.dim@.len() - 1
@fn RCoC<F>::hdim(usize) const as rcoc_hdim
@prop P09
@requires
  k < this.I@.len()
@ensures
  ret == this.I@[k as int]@.len()
@fn RCoC<F>::maxdim() const as rcoc_maxdim
@prop P09
@requires
  this.R@.len() > 0
@ensures
  ret == this.R@.len() - 1
@fn RCoC<F>::set_indices() as rcoc_set_indices
@prop P09
@requires
  co_fit(*old(this))
@ensures
  final(this).R == old(this).R, final(this).U == old(this).U, final(this).p2c == old(this).p2c, final(this).dim == old(this).dim, co_gens(*final(this))
@at entry
  let ghost T0 = *this; let ghost mut T2 = *this;
  proof { assert(this.R.len() == this.R@.len()); }
@loop 0
  invariant 0 <= k < this.R@.len(), this.R == T0.R, this.U == T0.U, this.p2c == T0.p2c, this.dim == T0.dim, this.I@.len() == T0.R@.len(), this.R.len() == this.R@.len(), co_fit(*this), forall|q: int| 0 <= q < k ==> #[trigger] co_gens_at(*this, q)
  decreases this.R@.len() - k
@at loop 0 begin
  let ghost T1 = *this; proof { assert(this.R@[k + 1].n == this.p2c@[k as int]@.len()); }
@at loop 0 end
  proof { assert forall|q: int| 0 <= q < k + 1 implies #[trigger] co_gens_at(*this, q) by { if q < k { assert(co_gens_at(T1, q)); assert(this.I@[q] == T1.I@[q]); } else { assert(isgen(this.R@[k + 1], this.p2c@[k as int]@, false, 0) || true); } } }
@at loop 0 after
  proof { T2 = *this; }
@loop 1
  invariant 0 <= j <= T0.p2c@[T0.R@.len() - 1]@.len(), this.R == T0.R, this.U == T0.U, this.p2c == T0.p2c, this.dim == T0.dim, this.I@.len() == T0.R@.len(), this.R.len() == this.R@.len(), this.R@.len() > 0, co_fit(*this), T2.R == T0.R, T2.p2c == T0.p2c, T2.I@.len() == T0.R@.len(), forall|q: int| 0 <= q < T0.R@.len() - 1 ==> #[trigger] this.I@[q] == T2.I@[q], forall|q: int| 0 <= q < T0.R@.len() - 1 ==> #[trigger] co_gens_at(T2, q),
    T0.R@[T0.R@.len() - 1].m == T0.p2c@[T0.R@.len() - 1]@.len(),
    forall|a: int, b: int| 0 <= a < b < this.I@[T0.R@.len() - 1]@.len() ==> #[trigger] this.I@[T0.R@.len() - 1]@[a] < #[trigger] this.I@[T0.R@.len() - 1]@[b],
    forall|a: int| 0 <= a < this.I@[T0.R@.len() - 1]@.len() ==> tgen(T0.p2c@[T0.R@.len() - 1]@, #[trigger] this.I@[T0.R@.len() - 1]@[a] as int) && this.I@[T0.R@.len() - 1]@[a] < j,
    forall|c: int| #[trigger] tgen(T0.p2c@[T0.R@.len() - 1]@, c) && c < j ==> this.I@[T0.R@.len() - 1]@.contains(c as usize),
  decreases T0.p2c@[T0.R@.len() - 1]@.len() - j
@at loop 1 begin
  let ghost S1 = this.I@[T0.R@.len() - 1]@;
@at loop 1 end
  proof { let s = this.I@[T0.R@.len() - 1]@; let p = T0.p2c@[T0.R@.len() - 1]@;
    if p[j as int] == NO_IND { assert(s == S1.push(j)); assert(s[S1.len() as int] == j); }
    assert forall|c: int| #[trigger] tgen(p, c) && c < j + 1 implies s.contains(c as usize) by { if c < j { assert(S1.contains(c as usize)); let a = choose|a: int| 0 <= a < S1.len() && S1[a] == c as usize; assert(s[a] == c as usize); } else { assert(s[S1.len() as int] == c as usize); } } }
@at exit
  proof { assert forall|q: int| 0 <= q < this.R@.len() implies #[trigger] co_gens_at(*this, q) by { if q < this.R@.len() - 1 { assert(co_gens_at(T2, q)); assert(this.I@[q] == T2.I@[q]); } } }
@fn RCoC<F>::new(CoC<F>) as rcoc_new
@prop P09 P10
@opt rlimit=60
@requires
  cowf(*C)
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, co_bas(*C, ret), co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; proof { if k > 0 { assert(C.coboundary@[k - 1].m == C.dim@[k - 1]); assert(B.n == C.dim@[k - 1]); } }
@at before red_u 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); assert(I0.n == B.n); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.coboundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, StdRedFlag) as rcoc_new_s
@prop P09
@opt rlimit=60
@requires
  cowf(*C)
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; proof { if k > 0 { assert(C.coboundary@[k - 1].m == C.dim@[k - 1]); assert(B.n == C.dim@[k - 1]); } }
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, ExtraRedFlag) as rcoc_new_e
@prop P09
@opt rlimit=60
@requires
  cowf(*C), forall|k: int| 0 <= k < C.coboundary@.len() ==> (#[trigger] C.coboundary@[k]).m < usize::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@, forall|q: int| 0 <= q < C.coboundary@.len() ==> (#[trigger] C.coboundary@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; proof { if k > 0 { assert(C.coboundary@[k - 1].m == C.dim@[k - 1]); assert(B.n == C.dim@[k - 1]); } }
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, StdRedFlag, BasisFlag) as rcoc_new_sb
@prop P09 P10
@opt rlimit=60
@requires
  cowf(*C)
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, co_bas(*C, ret), co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; proof { if k > 0 { assert(C.coboundary@[k - 1].m == C.dim@[k - 1]); assert(B.n == C.dim@[k - 1]); } }
@at before red_u_s 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); assert(I0.n == B.n); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.coboundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, ExtraRedFlag, BasisFlag) as rcoc_new_eb
@prop P09 P10
@opt rlimit=60
@requires
  cowf(*C), forall|k: int| 0 <= k < C.coboundary@.len() ==> (#[trigger] C.coboundary@[k]).m < usize::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, co_bas(*C, ret), co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@, forall|q: int| 0 <= q < C.coboundary@.len() ==> (#[trigger] C.coboundary@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; proof { if k > 0 { assert(C.coboundary@[k - 1].m == C.dim@[k - 1]); assert(B.n == C.dim@[k - 1]); } }
@at before red_u_e 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); assert(I0.n == B.n); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.coboundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.coboundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, StdRedFlag, ClearFlag) as rcoc_new_sc
@prop P09
@opt wrap=1 rlimit=90
@requires
  cowf(*C), codd(*C), C.coboundary@.len() <= i64::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@at loop 0 before
  proof { let t: int = 0; plain_pivots(C.coboundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant 1 <= k <= dmax, codd(*C), dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k - 1]@.len() && this.p2c@[k - 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k - 1]@.len() && #[trigger] this.p2c@[k - 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; let ghost P = C.coboundary@[k - 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(codd_at(*C, k - 1)); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 0 end
  proof { clear_pivots(B, P, T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, ExtraRedFlag, ClearFlag) as rcoc_new_ec
@prop P09
@opt wrap=1 rlimit=90
@requires
  cowf(*C), codd(*C), C.coboundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.coboundary@.len() ==> (#[trigger] C.coboundary@[k]).m < usize::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@at loop 0 before
  proof { let t: int = 0; plain_pivots(C.coboundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant 1 <= k <= dmax, codd(*C), dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@, forall|q: int| 0 <= q < C.coboundary@.len() ==> (#[trigger] C.coboundary@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k - 1]@.len() && this.p2c@[k - 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k - 1]@.len() && #[trigger] this.p2c@[k - 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; let ghost P = C.coboundary@[k - 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(codd_at(*C, k - 1)); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 0 end
  proof { clear_pivots(B, P, T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, StdRedFlag, CompFlag) as rcoc_new_sm
@prop P09
@opt wrap=1 rlimit=90
@requires
  cowf(*C), codd(*C), C.coboundary@.len() <= i64::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@at loop 0 before
  proof { let t: int = dmax - 1; plain_pivots(C.coboundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, codd(*C), dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k + 1], comp_inds@),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; let ghost P = C.coboundary@[k + 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(codd_at(*C, k as int)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 0 end
  proof { comp_pivots(P, B, T1.R@[k + 1], T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::new(CoC<F>, ExtraRedFlag, CompFlag) as rcoc_new_em
@prop P09
@opt wrap=1 rlimit=90
@requires
  cowf(*C), codd(*C), C.coboundary@.len() <= i64::MAX, forall|k: int| 0 <= k < C.coboundary@.len() ==> (#[trigger] C.coboundary@[k]).m < usize::MAX
@ensures
  co_red(*C, ret), ret.dim@ == C.dim@, ret.U@.len() == 0, co_gens(ret)
@at entry
  proof { assert(C.coboundary.len() == C.coboundary@.len()); }
@at loop 0 before
  proof { let t: int = dmax - 1; plain_pivots(C.coboundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, codd(*C), dmax == C.coboundary@.len(), dmax == C.dim@.len(), dmax == C.coboundary.len(), cowf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, this.dim@ == C.dim@, forall|q: int| 0 <= q < C.coboundary@.len() ==> (#[trigger] C.coboundary@[q]).m < usize::MAX,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k + 1], comp_inds@),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.coboundary@[k as int]; let ghost P = C.coboundary@[k + 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(codd_at(*C, k as int)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 0 end
  proof { comp_pivots(P, B, T1.R@[k + 1], T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.coboundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.coboundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcoc_set_indices 0
  proof { co_red_fit(*C, this); }
@fn RCoC<F>::to_hom_basis(SV<F>, usize) const as rcoc_to_hom
@prop P10
@requires
  k < this.R@.len() <= usize::MAX, k + 1 < this.R@.len() ==> k + 1 < this.U@.len() && trimat(true, this.U@[k + 1]) && sc(v.indval@, this.U@[k + 1].n as int)
@ensures
  k + 1 == this.R@.len() ==> ret == *v,
  k + 1 < this.R@.len() ==> sc(ret.indval@, this.U@[k + 1].n as int) && forall|i: int| 0 <= i < this.U@[k + 1].n ==> #[trigger] mvx(this.U@[k + 1].col@, this.U@[k + 1].n as int, ret.indval@, i) == sval(v.indval@, i)
@fn RCoC<F>::from_hom_basis(SV<F>, usize) const as rcoc_from_hom
@prop P10
@requires
  k < this.R@.len() <= usize::MAX, k + 1 < this.R@.len() ==> k + 1 < this.U@.len() && cmwf(this.U@[k + 1]) && sc(v.indval@, this.U@[k + 1].n as int)
@ensures
  k + 1 == this.R@.len() ==> ret == *v,
  k + 1 < this.R@.len() ==> sc(ret.indval@, this.U@[k + 1].m as int) && forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.U@[k + 1].col@, this.U@[k + 1].n as int, v.indval@, i)
@fn RCoC<F>::get_preferred_representative(usize, usize) const as rcoc_rep
@prop P10
@requires
  k < this.R@.len() <= usize::MAX, k < this.I@.len(), i < this.I@[k as int]@.len(), k + 1 < this.R@.len() ==> k + 1 < this.U@.len() && this.I@[k as int]@[i as int] < this.U@[k + 1].col@.len()
@ensures
  k + 1 < this.R@.len() ==> ret == this.U@[k + 1].col@[this.I@[k as int]@[i as int] as int],
  k + 1 == this.R@.len() ==> ret.indval@ =~= seq![Nz { ind: this.I@[k as int]@[i as int], val: F::sone() }]
@fn RCoC<F>::find_preferred_representative(&mut SV<F>, usize) const as rcoc_find
@prop P10
@opt wrap=1 rlimit=60
@requires
  co_hfit(*this, k as int), sc(old(y).indval@, this.R@[k as int].m as int)
@ensures
  sc(final(y).indval@, this.R@[k as int].m as int), nopivots(this.p2c@[k as int]@, final(y).indval@), co_move(*this, k as int, old(y).indval@, final(y).indval@)
@at entry
  let ghost y0 = y.indval@; let ghost n = this.R@[k as int].m as int; let ghost mut x = |q: int| F::szero(); let ghost mut J: int = n;
  proof { assert(y0.subrange(0, y0.len() as int) =~= y0); assert(this.R.len() == this.R@.len()); if co_top(*this, k as int) { tmoved_id(this.R@[k as int], y0); } else { hmoved_id(this.U@[k + 1], this.R@[k as int], y0); } }
@loop 0
  invariant co_hfit(*this, k as int), n == this.R@[k as int].m, sc(y.indval@, n), 0 <= yit <= y.indval@.len(), 0 <= J <= n, co_moved(*this, k as int, x, y0, y.indval@),
    forall|t: int| yit <= t < y.indval@.len() ==> this.p2c@[k as int]@[(#[trigger] y.indval@[t]).ind as int] == NO_IND,
    forall|t: int| 0 <= t < y.indval@.len() && (#[trigger] y.indval@[t]).ind >= J ==> this.p2c@[k as int]@[y.indval@[t].ind as int] == NO_IND,
  decreases J, yit
@at loop 0 begin
  let ghost Y1 = y.indval@; let ghost e = yit - 1;
@at after rcoc_to_hom 0
  let ghost rc = this.R@[k as int].col@[i as int].indval@; let ghost b = r_rcoc_to_hom_0.indval@;
  proof { assert(sc(rc, n)); assert(low(rc) == j); if !co_top(*this, k as int) { solve_low(this.U@[k + 1], b, rc); } sc_some(b, n, b.len() - 1); }
@at before sv_axpy 0
  proof { assert(yit == e); }
@at after sv_axpy 0
  proof { let c = F::sneg(a); let z = y.indval@; red_step(Y1, b, z, n, c, e); if co_top(*this, k as int) { tmoved_step(this.R@[k as int], x, y0, Y1, c, b, i as int, z); } else { hmoved_step(this.U@[k + 1], this.R@[k as int], x, y0, Y1, c, b, i as int, z); } x = vadd1(x, i as int, c); J = j as int; assert(z.subrange(0, z.len() as int) =~= z);
    let q = Y1.len() - 1 - e;
    assert forall|t: int| z.len() - q <= t < z.len() implies #[trigger] z[t] == Y1[t - z.len() + Y1.len()] by { let w = z.len() - 1 - t; assert(z[z.len() - 1 - w] == Y1[Y1.len() - 1 - w]); }
    assert forall|t: int| 0 <= t < z.len() - q implies (#[trigger] z[t]).ind < j by { if t < z.len() - q - 1 { assert(z[t].ind < z[z.len() - q - 1].ind); } }
    assert forall|t: int| z.len() - q <= t < z.len() implies (#[trigger] z[t]).ind > j by { let u = t - z.len() + Y1.len(); assert(z[t] == Y1[u]); assert(Y1[e].ind < Y1[u].ind); } }
@at exit
  proof { assert(co_moved(*this, k as int, x, y0, y.indval@)); }
@fn RCoC<F>::chain_preferred_representative(SV<F>, usize) const as rcoc_chain
@prop P10
@requires
  co_hfit(*this, k as int), sc(c.indval@, this.R@[k as int].m as int)
@ensures
  sc(ret.indval@, this.R@[k as int].m as int),
  co_chain_ok(*this, k as int, c.indval@, ret.indval@)
@at after rcoc_to_hom 0
  let ghost b = r_rcoc_to_hom_0.indval@;
@at before return 0
  proof { let y2 = x.indval@; let kk = k as int;
    assert forall|r: SV<F>| (if co_top(*this, kk) { r.indval@ == y2 } else { comb_of(this.U@[kk + 1], y2, r.indval@) }) implies co_chain_ok(*this, kk, c.indval@, #[trigger] r.indval@) by {
      assert forall|C: CoC<F>| #[trigger] co_of(C, *this) && co_cyc(C, kk, svf(c.indval@)) implies co_bdry(C, kk, fdiff(svf(r.indval@), svf(c.indval@))) && co_cyc(C, kk, svf(r.indval@)) by { assert(red_at(C.coboundary@[kk], this.R@[kk], this.p2c@[kk]@)); co_chain_lem(C, *this, kk, c.indval@, b, y2, r.indval@); } } }
