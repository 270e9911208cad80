@unit la
@uses rcc rcc_e cm_red_e dual_rank
@rust
// ---- differential graded vector spaces (degree -1: homology, degree +1: cohomology) ----
// D[k] : for degree -1 the map out of dimension k (into k - 1), for degree +1 the map from dimension k - 1 into dimension k
pub open spec fn dgwf<F: Field>(C: DG<F>) -> bool {
    &&& (C.degree == -1 || C.degree == 1) && C.differential@.len() > 0
    &&& forall|k: int| 0 <= k < C.differential@.len() ==> cmwf(#[trigger] C.differential@[k])
    &&& C.degree == -1 ==> forall|k: int| 1 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m == C.differential@[k - 1].n
    &&& C.degree == 1 ==> forall|k: int| 1 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).n == C.differential@[k - 1].m
}
// the square of the differential is zero
pub open spec fn dgdd<F: Field>(C: DG<F>) -> bool { forall|k: int| 0 <= k < C.differential@.len() - 1 ==> #[trigger] dgdd_at(C, k) }
pub open spec fn dgdd_at<F: Field>(C: DG<F>, k: int) -> bool { if C.degree == -1 { ddz(C.differential@[k], C.differential@[k + 1]) } else { ddz(C.differential@[k + 1], C.differential@[k]) } }
// pivot table of the map INTO the space whose outgoing map is number k
pub open spec fn dg_into<F: Field>(X: RDG<F>, k: int) -> Seq<usize> { if X.degree == -1 { if k + 1 < X.p2c@.len() { X.p2c@[k + 1]@ } else { Seq::empty() } } else { X.p2c@[k - 1]@ } }
pub open spec fn dg_lo(d: i32) -> int { if d == -1 { 0 } else { 1 } }
pub open spec fn dg_gens_at<F: Field>(X: RDG<F>, k: int) -> bool { gens(X.R@[k], dg_into(X, k), X.degree == -1 && k == X.R@.len() - 1, X.I@[k]@) }
pub open spec fn dg_red<F: Field>(C: DG<F>, X: RDG<F>) -> bool { X.degree == C.degree && X.R@.len() == C.differential@.len() && X.p2c@.len() == C.differential@.len() && forall|k: int| 0 <= k < C.differential@.len() ==> #[trigger] red_at(C.differential@[k], X.R@[k], X.p2c@[k]@) }
pub open spec fn dg_gens<F: Field>(X: RDG<F>) -> bool { X.I@.len() == X.R@.len() && forall|k: int| dg_lo(X.degree) <= k < X.R@.len() ==> #[trigger] dg_gens_at(X, k) }
pub open spec fn dg_bas<F: Field>(C: DG<F>, X: RDG<F>) -> bool { X.U@.len() == C.differential@.len() && forall|k: int| 0 <= k < C.differential@.len() ==> #[trigger] bas_at(C.differential@[k], X.R@[k], X.U@[k]) }
pub open spec fn dg_fit<F: Field>(X: RDG<F>) -> bool {
    &&& (X.degree == -1 || X.degree == 1) && X.R@.len() > 0 && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && (forall|k: int| 0 <= k < X.R@.len() ==> cmwf(#[trigger] X.R@[k]))
    &&& X.degree == -1 ==> forall|k: int| 1 <= k < X.R@.len() ==> (#[trigger] X.p2c@[k])@.len() == X.R@[k - 1].n
    &&& X.degree == 1 ==> forall|k: int| 1 <= k < X.R@.len() ==> (#[trigger] X.R@[k]).n == X.p2c@[k - 1]@.len()
}
pub proof fn dg_red_fit<F: Field>(C: DG<F>, X: RDG<F>) requires dgwf(C), dg_red(C, X), X.I@.len() == X.R@.len() ensures dg_fit(X)
{
    assert forall|k: int| 0 <= k < X.R@.len() implies cmwf(#[trigger] X.R@[k]) by { assert(red_at(C.differential@[k], X.R@[k], X.p2c@[k]@)); }
    if X.degree == -1 { assert forall|k: int| 1 <= k < X.R@.len() implies (#[trigger] X.p2c@[k])@.len() == X.R@[k - 1].n by { assert(red_at(C.differential@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.differential@[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); } }
    else { assert forall|k: int| 1 <= k < X.R@.len() implies (#[trigger] X.R@[k]).n == X.p2c@[k - 1]@.len() by { assert(red_at(C.differential@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.differential@[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); } }
}
// any two reductions of one space have the same pivots and the same (co)homology indices
pub proof fn dg_options_agree<F: Field>(C: DG<F>, X: RDG<F>, Y: RDG<F>, k: int)
    requires dgwf(C), dg_red(C, X), dg_gens(X), dg_red(C, Y), dg_gens(Y), dg_lo(C.degree) <= k < C.differential@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@, X.I@[k]@ == Y.I@[k]@, X.I@[k]@.len() == Y.I@[k]@.len()
{
    dg_same_piv(C, X, Y, k); if C.degree == -1 { if k + 1 < C.differential@.len() { dg_same_piv(C, X, Y, k + 1); } } else { dg_same_piv(C, X, Y, k - 1); }
    assert(red_at(C.differential@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.differential@[k], Y.R@[k], Y.p2c@[k]@));
    assert(dg_gens_at(X, k)); assert(dg_gens_at(Y, k));
    reduced_pivtab(X.R@[k], X.p2c@[k]@); reduced_pivtab(Y.R@[k], Y.p2c@[k]@);
    assert(dg_into(X, k) == dg_into(Y, k));
    gens_same(X.R@[k], Y.R@[k], dg_into(X, k), C.degree == -1 && k == X.R@.len() - 1, X.I@[k]@, Y.I@[k]@);
}
pub proof fn dg_same_piv<F: Field>(C: DG<F>, X: RDG<F>, Y: RDG<F>, k: int)
    requires dg_red(C, X), dg_red(C, Y), 0 <= k < C.differential@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@
{ let B = C.differential@[k]; assert(red_at(B, X.R@[k], X.p2c@[k]@)); assert(red_at(B, Y.R@[k], Y.p2c@[k]@)); piv_unique(fm(B), B.m as int, B.n as int, X.p2c@[k]@, Y.p2c@[k]@); }
// the number of generators is (number of columns) - rank of the outgoing map - rank of the incoming map
pub proof fn dg_betti_count<F: Field>(C: DG<F>, X: RDG<F>, k: int)
    requires dgwf(C), dgdd(C), dg_red(C, X), dg_gens(X), dg_lo(C.degree) <= k < C.differential@.len()
    ensures X.I@[k]@.len() == C.differential@[k].n - npiv(X.p2c@[k]@) - npiv(dg_into(X, k))
{
    let B = C.differential@[k]; let R = X.R@[k]; let p = X.p2c@[k]@; let n = B.n as int; let u = dg_into(X, k);
    assert(red_at(B, R, p)); reduced_pivtab(R, p); assert(dg_gens_at(X, k));
    if C.degree == -1 && k == X.R@.len() - 1 { top_count(B, R, p, u, X.I@[k]@); }
    else {
        let q = if C.degree == -1 { k + 1 } else { k - 1 };
        let B1 = C.differential@[q]; let R1 = X.R@[q];
        assert(red_at(B1, R1, u)); assert(dgdd_at(C, if C.degree == -1 { k } else { k - 1 })); assert(B1.m == B.n);
        pair_count(B, R, p, B1, R1, u, X.I@[k]@);
    }
}
pub proof fn top_count<F: Field>(B: CM<F>, R: CM<F>, p: Seq<usize>, u: Seq<usize>, s: Seq<usize>)
    requires red_at(B, R, p), gens(R, u, true, s), u.len() == 0
    ensures s.len() == B.n - npiv(p) - npiv(u)
{
    let n = B.n as int; reduced_pivtab(R, p);
    assert(distinct_tab(p, n)) by { assert forall|i: int, r: int| 0 <= i < r < p.len() && #[trigger] p[i] != NO_IND && #[trigger] p[r] != NO_IND implies p[i] != p[r] by { } }
    piv_cols(p, n);
    let zc = |j: int| !haspiv(p, j); let all = |j: int| true;
    cnt_split(n, all, zc, hp(p)); cnt_all(n, all);
    let g = |j: int| isgen(R, u, true, j);
    list_cnt(n, g, s);
    assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == zc(j) by { assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j)); } cnt_ext(n, g, zc);
}
// B B1 == 0: the columns of B without pivot that are not pivots of B1
pub proof fn pair_count<F: Field>(B: CM<F>, R: CM<F>, p: Seq<usize>, B1: CM<F>, R1: CM<F>, u: Seq<usize>, s: Seq<usize>)
    requires red_at(B, R, p), red_at(B1, R1, u), B1.m == B.n, ddz(B, B1), gens(R, u, false, s), cmwf(B), cmwf(B1)
    ensures s.len() == B.n - npiv(p) - npiv(u)
{
    let n = B.n as int; reduced_pivtab(R, p);
    assert(distinct_tab(p, n)) by { assert forall|i: int, r: int| 0 <= i < r < p.len() && #[trigger] p[i] != NO_IND && #[trigger] p[r] != NO_IND implies p[i] != p[r] by { } }
    piv_cols(p, n);
    let zc = |j: int| !haspiv(p, j); let all = |j: int| true;
    cnt_split(n, all, zc, hp(p)); cnt_all(n, all);
    let g = |j: int| isgen(R, u, false, j);
    list_cnt(n, g, s);
    pair_nopiv(B, R, p, B1, R1, u);
    let hi = has_i(u);
    assert forall|j: int| 0 <= j < n implies #[trigger] zc(j) == (g(j) || hi(j)) by { assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j)); }
    assert forall|j: int| 0 <= j < n implies !(#[trigger] g(j) && hi(j)) by { }
    cnt_split(n, zc, g, hi); npiv_cnt(u);
}
// a row with a pivot in the incoming map is a column without pivot in the outgoing one
pub proof fn pair_nopiv<F: Field>(B: CM<F>, R: CM<F>, p: Seq<usize>, B1: CM<F>, R1: CM<F>, u: Seq<usize>)
    requires red_at(B, R, p), red_at(B1, R1, u), B1.m == B.n, ddz(B, B1), cmwf(B), cmwf(B1)
    ensures forall|i: int| 0 <= i < B.n && u[i] != NO_IND ==> !#[trigger] haspiv(p, i)
{
    let n = B.n as int;
    let V1 = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B1), B1.m as int, B1.n as int, V, u);
    assert forall|i: int| 0 <= i < n && u[i] != NO_IND implies !#[trigger] haspiv(p, i) by {
        let q = u[i] as int; let z = |r: int| mq(B1.n as int, fm(B1), colf(V1, q), r); let w1 = mm(B1.n as int, fm(B1), V1);
        assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), z, r) == F::szero() by { dd_cycle(B, B1, colf(V1, q), r); }
        assert forall|r: int| i < r < n implies #[trigger] z(r) == F::szero() by { assert(w1(r, u[i] as int) == F::szero()); }
        assert(w1(i, u[i] as int) != F::szero());
        cyc_low(fm(B), B.m as int, n, p, z, i);
    }
}
// C2 is the cochain space of the chain space C: transposed maps
pub open spec fn dg_dual_at<F: Field>(C: DG<F>, C2: DG<F>, k: int) -> bool { let A = C.differential@[k]; let B = C2.differential@[k]; B.m == A.n && B.n == A.m && forall|i: int, j: int| 0 <= i < B.m && 0 <= j < B.n ==> #[trigger] cmv(B, i, j) == cmv(A, j, i) }
pub open spec fn dg_dual<F: Field>(C: DG<F>, C2: DG<F>) -> bool { C.degree == -1 && C2.degree == 1 && C2.differential@.len() == C.differential@.len() && forall|k: int| 0 <= k < C.differential@.len() ==> #[trigger] dg_dual_at(C, C2, k) }
// homology and cohomology have the same Betti numbers
pub proof fn dg_dual_betti<F: Field>(C: DG<F>, C2: DG<F>, X: RDG<F>, Y: RDG<F>, k: int)
    requires dgwf(C), dgdd(C), dgwf(C2), dgdd(C2), dg_dual(C, C2), dg_red(C, X), dg_gens(X), dg_red(C2, Y), dg_gens(Y), 0 <= k < C.differential@.len() - 1
    ensures X.I@[k]@.len() == Y.I@[k + 1]@.len()
{ dg_betti_count(C, X, k); dg_betti_count(C2, Y, k + 1); dg_dual_rank(C, C2, X, Y, k); dg_dual_rank(C, C2, X, Y, k + 1); assert(dg_dual_at(C, C2, k + 1)); assert(C.differential@[k + 1].m == C.differential@[k].n); }
pub proof fn dg_dual_rank<F: Field>(C: DG<F>, C2: DG<F>, X: RDG<F>, Y: RDG<F>, k: int)
    requires dg_dual(C, C2), dg_red(C, X), dg_red(C2, Y), 0 <= k < C.differential@.len()
    ensures npiv(X.p2c@[k]@) == npiv(Y.p2c@[k]@)
{
    let A = C.differential@[k]; let B = C2.differential@[k]; let m = A.m as int; let n = A.n as int; let q = Y.p2c@[k]@; assert(red_at(A, X.R@[k], X.p2c@[k]@)); assert(red_at(B, Y.R@[k], q)); assert(dg_dual_at(C, C2, k)); assert(m <= NO_IND && n <= NO_IND);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] fm(B)(i, j) == tp(fm(A))(i, j) by { assert(cmv(B, i, j) == cmv(A, j, i)); } pivots_feq(fm(B), tp(fm(A)), n, m, q); rank_tp(fm(A), m, n, X.p2c@[k]@, q);
}
@end
@fn DG<F>::maxdim() const as dg_maxdim
@prop P09
@opt wrap=1
@requires
  2 <= this.differential@.len() <= i64::MAX
@ensures
  ret == this.differential@.len() - 2
@fn RDG<F>::hdim(usize) const as rdg_hdim
@prop P09
@opt wrap=1
@requires
  k + dg_lo(this.degree) < this.I@.len()
@ensures
  ret == this.I@[k + dg_lo(this.degree)]@.len()
@at entry
  proof { assert(this.I.len() == this.I@.len()); }
@fn RDG<F>::initialize(DG<F>) as rdg_init
@prop P09
@requires
  dgwf(*C)
@ensures
  final(this).degree == C.degree, final(this).R@ =~= C.differential@, final(this).U@.len() == C.differential@.len(), final(this).I@.len() == C.differential@.len(), final(this).p2c@.len() == C.differential@.len(),
  forall|k: int| 0 <= k < C.differential@.len() ==> is_ident(#[trigger] final(this).U@[k]) && final(this).U@[k].n == C.differential@[k].n,
  forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] final(this).p2c@[k])@.len() == C.differential@[k].m
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] this.R@[q] == C.differential@[q],
    forall|q: int| 0 <= q < k ==> is_ident(#[trigger] this.U@[q]) && this.U@[q].n == C.differential@[q].n,
    forall|q: int| 0 <= q < k ==> (#[trigger] this.p2c@[q])@.len() == C.differential@[q].m,
  decreases dmax - k
@fn RDG<F>::set_indices() as rdg_set_indices
@prop P09
@opt wrap=1
@requires
  dg_fit(*old(this))
@ensures
  final(this).R == old(this).R, final(this).U == old(this).U, final(this).p2c == old(this).p2c, final(this).degree == old(this).degree, dg_gens(*final(this))
@at entry
  let ghost T0 = *this; let ghost mut T2 = *this;
  proof { assert(this.R.len() == this.R@.len()); }
@loop 0
  invariant 0 <= k < this.R@.len(), this.R == T0.R, this.U == T0.U, this.p2c == T0.p2c, this.degree == T0.degree, this.degree == -1, this.I@.len() == T0.R@.len(), this.R.len() == this.R@.len(), dg_fit(*this), forall|q: int| 0 <= q < k ==> #[trigger] dg_gens_at(*this, q)
  decreases this.R@.len() - k
@at loop 0 begin
  let ghost T1 = *this;
@at loop 0 end
  proof { assert forall|q: int| 0 <= q < k + 1 implies #[trigger] dg_gens_at(*this, q) by { if q < k { assert(dg_gens_at(T1, q)); assert(this.I@[q] == T1.I@[q]); } else { assert(dg_into(*this, q) == this.p2c@[k + 1]@); } } }
@at loop 0 after
  proof { T2 = *this; }
@loop 1
  invariant 1 <= k <= this.R@.len(), this.R == T0.R, this.U == T0.U, this.p2c == T0.p2c, this.degree == T0.degree, this.degree == 1, this.I@.len() == T0.R@.len(), this.R.len() == this.R@.len(), dg_fit(*this), forall|q: int| 1 <= q < k ==> #[trigger] dg_gens_at(*this, q)
  decreases this.R@.len() - k
@at loop 1 begin
  let ghost T1 = *this;
@at loop 1 end
  proof { assert forall|q: int| 1 <= q < k + 1 implies #[trigger] dg_gens_at(*this, q) by { if q < k { assert(dg_gens_at(T1, q)); assert(this.I@[q] == T1.I@[q]); } else { assert(dg_into(*this, q) == this.p2c@[k - 1]@); } } }
@at exit
  proof { if this.degree == -1 { let t = this.R@.len() - 1; let s = this.I@[t]@; assert forall|j: int| #[trigger] isgen(this.R@[t], dg_into(*this, t), true, j) implies s.contains(j as usize) by { }
    assert forall|q: int| 0 <= q < this.R@.len() implies #[trigger] dg_gens_at(*this, q) by { if q < t { assert(dg_gens_at(T2, q)); assert(dg_into(T2, q) == dg_into(*this, q)); } } } }
@fn RDG<F>::new(DG<F>) as rdg_new
@prop P09 P10
@opt rlimit=60
@requires
  dgwf(*C)
@ensures
  dg_red(*C, ret), dg_bas(*C, ret), dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int];
@at before red_u 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, StdRedFlag) as rdg_new_s
@prop P09
@opt rlimit=60
@requires
  dgwf(*C)
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int];
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, ExtraRedFlag) as rdg_new_e
@prop P09
@opt rlimit=60
@requires
  dgwf(*C), forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m < usize::MAX
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int];
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, StdRedFlag, BasisFlag) as rdg_new_sb
@prop P09 P10
@opt rlimit=60
@requires
  dgwf(*C)
@ensures
  dg_red(*C, ret), dg_bas(*C, ret), dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int];
@at before red_u_s 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, ExtraRedFlag, BasisFlag) as rdg_new_eb
@prop P09 P10
@opt rlimit=60
@requires
  dgwf(*C), forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m < usize::MAX
@ensures
  dg_red(*C, ret), dg_bas(*C, ret), dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int];
@at before red_u_e 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, StdRedFlag, ClearFlag) as rdg_new_sc
@prop P09
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@at loop 0 before
  proof { let t: int = dmax - 1; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k + 1]@.len() && this.p2c@[k + 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k + 1]@.len() && #[trigger] this.p2c@[k + 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(P.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 0 end
  proof { clear_pivots(B, P, T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at loop 1 before
  proof { let t: int = 0; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k - 1]@.len() && this.p2c@[k - 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k - 1]@.len() && #[trigger] this.p2c@[k - 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases dmax - k
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 1 end
  proof { clear_pivots(B, P, T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, StdRedFlag, ClearFlag, BasisFlag) as rdg_new_scb
@prop P09 P10
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX
@ensures
  dg_red(*C, ret), dg_bas(*C, ret), dg_gens(ret)
@at entry
  let ghost mut I0 = C.differential@[0];
  proof { assert(C.differential.len() == C.differential@.len()); }
@at before red_u_s 0
  proof { I0 = this.U@[dmax - 1]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let t: int = dmax - 1; let B = C.differential@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| k < q < dmax ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1];
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(bas_at(P, T1.R@[k + 1], T1.U@[k + 1])); assert(P.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); assert(ddz(B, P)); clear_bas_pre(B, P, T1.R@[k + 1], T1.U@[k + 1], T1.p2c@[k + 1]@); }
@at before red_clear_u 0
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 0 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q > k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before red_u_s 1
  proof { I0 = this.U@[0]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 1 before
  proof { let t: int = 0; let B = C.differential@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1];
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(bas_at(P, T1.R@[k - 1], T1.U@[k - 1])); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); clear_bas_pre(B, P, T1.R@[k - 1], T1.U@[k - 1], T1.p2c@[k - 1]@); }
@at before red_clear_u 1
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 1 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, StdRedFlag, CompFlag) as rdg_new_sm
@prop P09
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@at loop 0 before
  proof { let t: int = 0; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k - 1], comp_inds@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 0 end
  proof { comp_pivots(P, B, T1.R@[k - 1], T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at loop 1 before
  proof { let t: int = dmax - 1; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k + 1], comp_inds@),
  decreases k + 1
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 1 end
  proof { comp_pivots(P, B, T1.R@[k + 1], T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, ExtraRedFlag, ClearFlag) as rdg_new_ec
@prop P09
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX, forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m < usize::MAX
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@at loop 0 before
  proof { let t: int = dmax - 1; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k + 1]@.len() && this.p2c@[k + 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k + 1]@.len() && #[trigger] this.p2c@[k + 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(P.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 0 end
  proof { clear_pivots(B, P, T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at loop 1 before
  proof { let t: int = 0; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k - 1]@.len() && this.p2c@[k - 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k - 1]@.len() && #[trigger] this.p2c@[k - 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize),
  decreases dmax - k
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); }
@at loop 1 end
  proof { clear_pivots(B, P, T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, ExtraRedFlag, ClearFlag, BasisFlag) as rdg_new_ecb
@prop P09 P10
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX, forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m < usize::MAX
@ensures
  dg_red(*C, ret), dg_bas(*C, ret), dg_gens(ret)
@at entry
  let ghost mut I0 = C.differential@[0];
  proof { assert(C.differential.len() == C.differential@.len()); }
@at before red_u_e 0
  proof { I0 = this.U@[dmax - 1]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let t: int = dmax - 1; let B = C.differential@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| k < q < dmax ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1];
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(bas_at(P, T1.R@[k + 1], T1.U@[k + 1])); assert(P.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); assert(ddz(B, P)); clear_bas_pre(B, P, T1.R@[k + 1], T1.U@[k + 1], T1.p2c@[k + 1]@); }
@at before red_clear_u_e 0
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 0 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q > k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before red_u_e 1
  proof { I0 = this.U@[0]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 1 before
  proof { let t: int = 0; let B = C.differential@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1];
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(bas_at(P, T1.R@[k - 1], T1.U@[k - 1])); assert(P.m == B.n); assert(T1.p2c@[k - 1]@.len() == B.n); assert(ddz(B, P)); clear_bas_pre(B, P, T1.R@[k - 1], T1.U@[k - 1], T1.p2c@[k - 1]@); }
@at before red_clear_u_e 1
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 1 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.differential@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.differential@[q], T1.R@[q], T1.U@[q])); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
@fn RDG<F>::new(DG<F>, ExtraRedFlag, CompFlag) as rdg_new_em
@prop P09
@opt wrap=1 rlimit=90
@requires
  dgwf(*C), dgdd(*C), C.differential@.len() <= i64::MAX, forall|k: int| 0 <= k < C.differential@.len() ==> (#[trigger] C.differential@[k]).m < usize::MAX
@ensures
  dg_red(*C, ret), ret.U@.len() == 0, dg_gens(ret)
@at entry
  proof { assert(C.differential.len() == C.differential@.len()); }
@at loop 0 before
  proof { let t: int = 0; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant 1 <= k <= dmax, dgdd(*C), this.degree == -1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k - 1], comp_inds@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k - 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(dgdd_at(*C, k - 1)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 0 end
  proof { comp_pivots(P, B, T1.R@[k - 1], T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at loop 1 before
  proof { let t: int = dmax - 1; plain_pivots(C.differential@[t], this.R@[t], this.p2c@[t]@); }
@loop 1
  invariant -1 <= k <= dmax - 2, dmax <= i64::MAX, dgdd(*C), this.degree == 1, dmax == C.differential@.len(), dmax == C.differential.len(), dgwf(*C), this.degree == C.degree, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.differential@.len() ==> (#[trigger] C.differential@[q]).m < usize::MAX,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@),
    comp_ok(this.R@[k + 1], comp_inds@),
  decreases k + 1
@at loop 1 begin
  let ghost T1 = this; let ghost B = C.differential@[k as int]; let ghost P = C.differential@[k + 1]; let ghost cl = comp_inds@;
  proof { assert(red_at(P, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(dgdd_at(*C, k as int)); assert(B.m == P.n); assert(ddz(P, B)); }
@at loop 1 end
  proof { comp_pivots(P, B, T1.R@[k + 1], T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.differential@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.differential@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rdg_set_indices 0
  proof { dg_red_fit(*C, this); }
