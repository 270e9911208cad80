@unit la
@uses dg_pairs dual_lem
@rust
// ---- persistence pairs of a reduced filtered differential graded vector space ----
pub open spec fn rfd_dim<F: Field>(X: RFDG<F>, k: int) -> int { X.RC.R@[dgo(X.RC.degree, k)].n as int }
pub open spec fn rfd_fit_at<F: Field>(X: RFDG<F>, k: int) -> bool { permu(X.perm@[k]@, rfd_dim(X, k)) && X.val@[k]@.len() == rfd_dim(X, k) }
pub open spec fn rfd_fit<F: Field>(X: RFDG<F>) -> bool {
    let L = X.RC.R@.len();
    &&& dg_fit(X.RC) && 2 <= L <= i64::MAX && X.perm@.len() == L - 1 && X.val@.len() == L - 1
    &&& forall|k: int| 0 <= k < L ==> reduced(#[trigger] X.RC.R@[k], X.RC.p2c@[k]@)
    &&& forall|k: int| 0 <= k < L - 1 ==> #[trigger] rfd_fit_at(X, k)
    &&& X.RC.degree == 1 ==> X.RC.R@[L - 1].m == 0
}
// cell i of dimension k starts a pair: its column is empty (chains); it is not the pivot of a shorter cochain (cochains)
pub open spec fn rfd_sel<F: Field>(X: RFDG<F>, k: int) -> spec_fn(int) -> bool { if X.RC.degree == -1 { emp(X.RC.R@[k]) } else { |i: int| X.RC.R@[k + 1].col@[i].indval@.len() > 0 || X.RC.p2c@[k]@[i] == NO_IND } }
pub open spec fn rfd_inf<F: Field>(X: RFDG<F>, k: int, i: int) -> bool { if X.RC.degree == -1 { k == X.RC.R@.len() - 2 || X.RC.p2c@[k + 1]@[i] == NO_IND } else { X.RC.R@[k + 1].col@[i].indval@.len() == 0 } }
// the cell of dimension k + 1 it is paired with
pub open spec fn rfd_mate<F: Field>(X: RFDG<F>, k: int, i: int) -> int { if X.RC.degree == -1 { X.RC.p2c@[k + 1]@[i] as int } else { low(X.RC.R@[k + 1].col@[i].indval@) as int } }
pub open spec fn rfd_val<F: Field>(X: RFDG<F>, k: int, i: int) -> i32 { X.val@[k]@[X.perm@[k]@[i] as int] }
pub open spec fn rfd_pair<F: Field>(X: RFDG<F>, k: int, i: int) -> PPair {
    if rfd_inf(X, k, i) { PPair { dim: k as usize, birth_ind: X.perm@[k]@[i], death_ind: NO_IND, birth: rfd_val(X, k, i), death: inf_i32() } }
    else { let j = rfd_mate(X, k, i); PPair { dim: k as usize, birth_ind: X.perm@[k]@[i], death_ind: X.perm@[k + 1]@[j], birth: rfd_val(X, k, i), death: rfd_val(X, k + 1, j) } }
}
pub open spec fn rfd_upto<F: Field>(X: RFDG<F>, k: int, n: int, s: Seq<PPair>) -> bool {
    s.len() == cnt(n, rfd_sel(X, k)) && forall|i: int| 0 <= i < n && #[trigger] rfd_sel(X, k)(i) ==> 0 <= cnt(i, rfd_sel(X, k)) < s.len() && s[cnt(i, rfd_sel(X, k))] == rfd_pair(X, k, i)
}
pub open spec fn rfd_pairs<F: Field>(X: RFDG<F>, k: int, s: Seq<PPair>) -> bool { rfd_upto(X, k, rfd_dim(X, k), s) }
pub proof fn rfd_step<F: Field>(X: RFDG<F>, k: int, n: int, s: Seq<PPair>, t: Seq<PPair>)
    requires n >= 0, rfd_upto(X, k, n, s), t == (if rfd_sel(X, k)(n) { s.push(rfd_pair(X, k, n)) } else { s })
    ensures rfd_upto(X, k, n + 1, t)
{ let z = rfd_sel(X, k); assert forall|i: int| 0 <= i < n + 1 && #[trigger] z(i) implies 0 <= cnt(i, z) < t.len() && t[cnt(i, z)] == rfd_pair(X, k, i) by { if i < n { assert(z(i)); } } }
// a filtered space, its cells listed by value (backwards for cochains)
pub open spec fn fdg_ok<F: Field>(D: FDG<F>) -> bool {
    let L = D.C.differential@.len();
    &&& dgwf(D.C) && dgdd(D.C) && 2 <= L <= i64::MAX && dsorted(D.C.degree, D.perm@, D.val@) && dg_vals_fit(D.C, D.val@)
    &&& D.C.degree == -1 ==> D.C.differential@[L - 1].n == 0
    &&& D.C.degree == 1 ==> D.C.differential@[L - 1].m == 0
}
pub open spec fn rfd_of<F: Field>(D: FDG<F>, X: RFDG<F>) -> bool { fdg_ok(D) && dg_red(D.C, X.RC) && dg_gens(X.RC) && X.perm@ == D.perm@ && X.val@ == D.val@ }
pub proof fn rfd_of_fit<F: Field>(D: FDG<F>, X: RFDG<F>) requires rfd_of(D, X) ensures rfd_fit(X), forall|k: int| 0 <= k < D.perm@.len() ==> #[trigger] rfd_dim(X, k) == dgn(D.C, k)
{
    let C = D.C; let L = C.differential@.len(); dg_red_fit(C, X.RC);
    assert forall|k: int| 0 <= k < L implies reduced(#[trigger] X.RC.R@[k], X.RC.p2c@[k]@) by { assert(red_at(C.differential@[k], X.RC.R@[k], X.RC.p2c@[k]@)); }
    assert(red_at(C.differential@[L - 1], X.RC.R@[L - 1], X.RC.p2c@[L - 1]@));
    assert forall|k: int| 0 <= k < L - 1 implies #[trigger] rfd_dim(X, k) == dgn(C, k) by { let q = dgo(C.degree, k); assert(red_at(C.differential@[q], X.RC.R@[q], X.RC.p2c@[q]@)); }
    dsorted_ok(C, C.degree, D.perm@, D.val@);
    assert forall|k: int| 0 <= k < L - 1 implies #[trigger] rfd_fit_at(X, k) by { assert(permu(D.perm@[k]@, dgn(C, k))); assert(D.val@[k]@.len() == dgn(C, k)); assert(rfd_dim(X, k) == dgn(C, k)); }
}
// the pairs do not depend on the reduction options
pub proof fn rfd_same_pairs<F: Field>(D: FDG<F>, X: RFDG<F>, Y: RFDG<F>, k: int, s: Seq<PPair>, t: Seq<PPair>)
    requires rfd_of(D, X), rfd_of(D, Y), 0 <= k < D.C.differential@.len() - 1, rfd_pairs(X, k, s), rfd_pairs(Y, k, t)
    ensures s == t
{
    rfd_of_fit(D, X); rfd_of_fit(D, Y); let C = D.C; assert(rfd_dim(X, k) == dgn(C, k)); assert(rfd_dim(Y, k) == dgn(C, k)); let n = dgn(C, k); let zx = rfd_sel(X, k); let zy = rfd_sel(Y, k);
    dg_same_piv(C, X.RC, Y.RC, k); dg_same_piv(C, X.RC, Y.RC, k + 1); let o = dgo(C.degree, k);
    reduced_pivtab(X.RC.R@[o], X.RC.p2c@[o]@); reduced_pivtab(Y.RC.R@[o], Y.RC.p2c@[o]@); let A = X.RC.R@[o]; let B = Y.RC.R@[o]; let p = X.RC.p2c@[o]@;
    assert forall|j: int| 0 <= j < n implies (#[trigger] A.col@[j]).indval@.len() > 0 <==> B.col@[j].indval@.len() > 0 by { assert(A.col@[j].indval@.len() > 0 <==> haspiv(p, j)); assert(B.col@[j].indval@.len() > 0 <==> haspiv(p, j)); }
    assert forall|j: int| 0 <= j < n && (#[trigger] A.col@[j]).indval@.len() > 0 implies low(A.col@[j].indval@) == low(B.col@[j].indval@) by { let a = low(A.col@[j].indval@); let b = low(B.col@[j].indval@); assert(sc(A.col@[j].indval@, A.m as int)); assert(sc(B.col@[j].indval@, B.m as int)); assert(p[a] == j); assert(p[b] == j); }
    assert forall|j: int| 0 <= j < n implies #[trigger] zx(j) == zy(j) by { assert(A.col@[j].indval@.len() > 0 <==> B.col@[j].indval@.len() > 0); }
    cnt_ext(n, zx, zy);
    assert forall|a: int| 0 <= a < s.len() implies s[a] == #[trigger] t[a] by {
        let i = cnt_nth(n, zx, a); assert(zy(i)); cnt_ext(i, zx, zy); assert(s[cnt(i, zx)] == rfd_pair(X, k, i)); assert(t[cnt(i, zy)] == rfd_pair(Y, k, i)); assert(A.col@[i].indval@.len() > 0 <==> B.col@[i].indval@.len() > 0); assert(rfd_inf(X, k, i) == rfd_inf(Y, k, i)); }
    assert(s =~= t);
}
@end
@fn RFDG<F>::maxdim() const as rfdg_maxdim
@prop P12
@opt wrap=1
@requires
  2 <= this.RC.R@.len() <= i64::MAX
@ensures
  ret == this.RC.R@.len() - 2
@at entry
  proof { assert(this.RC.R.len() == this.RC.R@.len()); }
@fn RFDG<F>::dim(usize) const as rfdg_dim
@prop P12
@opt wrap=1
@requires
  k + 1 < this.RC.R@.len() <= i64::MAX, this.RC.degree == -1 || this.RC.degree == 1
@ensures
  ret == rfd_dim(*this, k as int)
@at entry
  proof { assert(this.RC.R.len() == this.RC.R@.len()); }
@fn RFDG<F>::hdim(usize) const as rfdg_hdim
@prop P12
@requires
  k + dg_lo(this.RC.degree) < this.RC.I@.len()
@ensures
  ret == this.RC.I@[k + dg_lo(this.RC.degree)]@.len()
@fn RFDG<F>::new(FDG<F>) as rfdg_new
@prop P12 P18
@requires
  fdg_ok(*C)
@ensures
  rfd_of(*C, ret), dg_of(C.C, ret.RC)
@fn RFDG<F>::new(FDG<F>, StdRedFlag) as rfdg_new_s
@prop P12
@requires
  fdg_ok(*C)
@ensures
  rfd_of(*C, ret)
@fn RFDG<F>::persistence_pairs(usize) const as rfdg_pairs
@prop P12
@opt rlimit=60
@requires
  rfd_fit(*this), k + 1 < this.RC.R@.len()
@ensures
  rfd_pairs(*this, k as int, ret@)
@at entry
  let ghost X = *this; let ghost kk = k as int; proof { assert(rfd_fit_at(X, kk)); if kk + 2 < X.RC.R@.len() { assert(rfd_fit_at(X, kk + 1)); } }
@loop 0
  invariant i <= rfd_dim(X, kk), X == *this, kk == k, k + 1 < this.RC.R@.len(), X.RC.degree == -1, rfd_fit(X), rfd_upto(X, kk, i as int, pairs@),
  decreases rfd_dim(X, kk) - i
@at loop 0 begin
  let ghost p0 = pairs@;
  proof { assert(rfd_fit_at(X, kk)); if kk + 2 < X.RC.R@.len() { assert(rfd_fit_at(X, kk + 1)); assert(X.RC.R@[kk + 1].n == rfd_dim(X, kk + 1)); assert(X.RC.p2c@[kk + 1]@.len() == X.RC.R@[kk].n); assert(reduced(X.RC.R@[kk + 1], X.RC.p2c@[kk + 1]@)); } }
@at loop 0 end
  proof { rfd_step(X, kk, i as int, p0, pairs@); }
@loop 1
  invariant i <= rfd_dim(X, kk), X == *this, kk == k, k + 1 < this.RC.R@.len(), X.RC.degree == 1, rfd_fit(X), rfd_upto(X, kk, i as int, pairs@),
  decreases rfd_dim(X, kk) - i
@at loop 1 begin
  let ghost p0 = pairs@;
  proof { assert(rfd_fit_at(X, kk)); let R = X.RC.R@[kk + 1]; assert(cmwf(R)); assert(sc(R.col@[i as int].indval@, R.m as int)); assert(R.n == X.RC.p2c@[kk]@.len()); if kk + 2 < X.RC.R@.len() { assert(rfd_fit_at(X, kk + 1)); assert(X.RC.R@[kk + 2].n == X.RC.p2c@[kk + 1]@.len()); assert(reduced(R, X.RC.p2c@[kk + 1]@)); } }
@at loop 1 end
  proof { rfd_step(X, kk, i as int, p0, pairs@); }
@fn RFDG<F>::persistence_pairs_vec(usize, bool) const as rfdg_pairs_vec
@prop P12
@requires
  rfd_fit(*this), k + 1 < this.RC.R@.len(), 2 * rfd_dim(*this, k as int) <= usize::MAX
@ensures
  exists|s: Seq<PPair>| #[trigger] rfd_pairs(*this, k as int, s) && flat_pairs(s, ret.0@, ret.1@)
@at after rfdg_pairs 0
  proof { cnt_bound(rfd_dim(*this, k as int), rfd_sel(*this, k as int)); assert(rfd_pairs(*this, k as int, r_rfdg_pairs_0@)); }
@loop 0
  invariant i <= pairs@.len(), 2 * pairs@.len() <= usize::MAX, bd@.len() == 2 * pairs@.len(), inds@.len() == 2 * pairs@.len(), flat_upto(pairs@, i as int, bd@, inds@), rfd_pairs(*this, k as int, pairs@),
  decreases pairs@.len() - i
@at before return 0
  proof { assert(rfd_pairs(*this, k as int, pairs@) && flat_pairs(pairs@, bd@, inds@)); }
@rust
// ---- what the pairs mean ----
// a cell killed by a cell of the next dimension kills nothing itself
pub proof fn rfd_no_both<F: Field>(D: FDG<F>, X: RFDG<F>, k: int, i: int)
    requires rfd_of(D, X), 0 <= k < D.C.differential@.len() - 1, 0 <= i < dgn(D.C, k)
    ensures D.C.degree == -1 ==> X.RC.p2c@[k + 1]@[i] != NO_IND ==> !haspiv(X.RC.p2c@[k]@, i),
        D.C.degree == 1 ==> X.RC.p2c@[k]@[i] != NO_IND ==> !haspiv(X.RC.p2c@[k + 1]@, i)
{
    let C = D.C; let o = dgo(C.degree, k); let q = if C.degree == -1 { k + 1 } else { k }; let B = C.differential@[o]; let B1 = C.differential@[q];
    assert(red_at(B, X.RC.R@[o], X.RC.p2c@[o]@)); assert(red_at(B1, X.RC.R@[q], X.RC.p2c@[q]@)); assert(dgdd_at(C, k)); assert(B1.m == B.n); assert(cmwf(B)); assert(cmwf(B1));
    pair_nopiv(B, X.RC.R@[o], X.RC.p2c@[o]@, B1, X.RC.R@[q], X.RC.p2c@[q]@);
}
// cell j of dimension k ends the class started by cell r of dimension k - 1
pub open spec fn rfd_ends<F: Field>(X: RFDG<F>, k: int, r: int, j: int) -> bool { 0 <= r < rfd_dim(X, k - 1) && rfd_sel(X, k - 1)(r) && !rfd_inf(X, k - 1, r) && rfd_mate(X, k - 1, r) == j }
// every cell starts exactly one class or ends exactly one class, never both
pub proof fn rfd_xor<F: Field>(D: FDG<F>, X: RFDG<F>, k: int, j: int)
    requires rfd_of(D, X), 0 <= k < D.C.differential@.len() - 1, 0 <= j < dgn(D.C, k)
    ensures
        rfd_sel(X, k)(j) && k > 0 ==> !exists|r: int| #[trigger] rfd_ends(X, k, r, j),
        !rfd_sel(X, k)(j) && k > 0 ==> exists|r: int| #[trigger] rfd_ends(X, k, r, j),
        k > 0 ==> forall|r: int, s: int| #[trigger] rfd_ends(X, k, r, j) && #[trigger] rfd_ends(X, k, s, j) ==> r == s
{
    rfd_of_fit(D, X); let C = D.C; assert(rfd_dim(X, k) == dgn(C, k)); let R = X.RC.R@[k]; let p = X.RC.p2c@[k]@; let n = dgn(C, k); rfd_no_both(D, X, k, j);
    reduced_pivtab(R, p); assert(red_at(C.differential@[k], R, p));
    if k > 0 {
        assert(rfd_dim(X, k - 1) == dgn(C, k - 1)); let o = dgo(C.degree, k - 1);
        if C.degree == -1 {
            assert(p.len() == X.RC.R@[k - 1].n); assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j));
            if emp(R)(j) { assert forall|r: int| !#[trigger] rfd_ends(X, k, r, j) by { if rfd_ends(X, k, r, j) { assert(p[r] == j); } } }
            else { let r = choose|r: int| 0 <= r < p.len() && #[trigger] p[r] == j; rfd_no_both(D, X, k - 1, r); let R0 = X.RC.R@[k - 1]; reduced_pivtab(R0, X.RC.p2c@[k - 1]@); assert(R0.col@[r].indval@.len() > 0 <==> haspiv(X.RC.p2c@[k - 1]@, r)); assert(rfd_ends(X, k, r, j)); }
        } else {
            let R1 = X.RC.R@[k + 1]; reduced_pivtab(R1, X.RC.p2c@[k + 1]@); assert(R1.col@[j].indval@.len() > 0 <==> haspiv(X.RC.p2c@[k + 1]@, j)); assert(p.len() == R.m); assert(R1.n == p.len());
            if p[j] == NO_IND { assert forall|r: int| !#[trigger] rfd_ends(X, k, r, j) by { if rfd_ends(X, k, r, j) { assert(R.col@[r].indval@.len() > 0); assert(p[low(R.col@[r].indval@)] == r); } } }
            else { let r = p[j] as int; assert(R.col@[r].indval@.len() > 0 && low(R.col@[r].indval@) == j); assert(rfd_ends(X, k, r, j)); }
            assert forall|r: int, s: int| #[trigger] rfd_ends(X, k, r, j) && #[trigger] rfd_ends(X, k, s, j) implies r == s by { assert(p[low(R.col@[r].indval@)] == r); assert(p[low(R.col@[s].indval@)] == s); }
        }
    }
}
// ---- updating the values ----
pub open spec fn rfd_refit<F: Field>(X: RFDG<F>, X2: RFDG<F>) -> bool { forall|O: DG<F>, C: DG<F>, C2: DG<F>| dgwf(O) && dg_of(C, X.RC) && #[trigger] dg_perm(O, C, X.perm@) && #[trigger] dg_perm(O, C2, X2.perm@) && dg_perms_ok(O, X.perm@) && dg_perms_ok(O, X2.perm@) ==> dg_of(C2, X2.RC) }
pub proof fn rfd_upd_fit<F: Field>(X: RDG<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, Q: Seq<Vec<usize>>, R: Seq<Vec<usize>>)
    requires dg_pfit(X, P), P2.len() == P.len(), forall|k: int| 0 <= k < P2.len() ==> permu(#[trigger] P2[k]@, P[k]@.len() as int), Q.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> inverse_of(#[trigger] Q[k]@, P[k]@), repos_all(R, Q, P2)
    ensures dg_pfit(X, R)
{ assert forall|k: int| 0 <= k < R.len() implies permu(#[trigger] R[k]@, X.R@[dgo(X.degree, k)].n as int) by { let n = X.R@[dgo(X.degree, k)].n as int; assert(permu(P[k]@, n)); assert(permu(P2[k]@, n)); assert(inverse_of(Q[k]@, P[k]@)); assert(repos_at(R, Q, P2, k)); repos_ok(R[k]@, Q[k]@, P[k]@, P2[k]@, n); } }
// an updated reduction reports the same pairs as a reduction built from the new values
pub proof fn rfd_update_is_rebuild<F: Field>(O: DG<F>, D: FDG<F>, X: RFDG<F>, E: FDG<F>, Y: RFDG<F>, X2: RFDG<F>, k: int, s: Seq<PPair>, t: Seq<PPair>)
    requires dgwf(O), dg_of(D.C, X.RC), dg_perm(O, D.C, X.perm@), dg_perms_ok(O, X.perm@), rfd_refit(X, X2), rfd_of(E, Y), dg_perm(O, E.C, E.perm@), X2.perm@ == E.perm@, X2.val@ == E.val@, dg_perms_ok(O, X2.perm@),
        0 <= k < E.C.differential@.len() - 1, rfd_pairs(X2, k, s), rfd_pairs(Y, k, t)
    ensures s == t
{ assert(dg_perm(O, E.C, X2.perm@)); assert(dg_of(E.C, X2.RC)); assert(rfd_of(E, X2)); rfd_same_pairs(E, X2, Y, k, s, t); }
@end
@fn RFDG<F>::update_filtration(Vec<Vec<i32>>) as rfdg_update
@prop P18 P12
@opt rlimit=60
@requires
  dg_pfit(old(this).RC, old(this).perm@), vals_fit(newval@, old(this).perm@)
@ensures
  final(this).val@ == newval@, dsorted(old(this).RC.degree, final(this).perm@, newval@), rfd_refit(*old(this), *final(this)), final(this).RC.R@.len() == old(this).RC.R@.len(), final(this).RC.degree == old(this).RC.degree
@at before filtration_iperm 0
  proof { assert forall|q: int| 0 <= q < this.perm@.len() implies permu(#[trigger] this.perm@[q]@, this.perm@[q]@.len() as int) by { assert(permu(this.perm@[q]@, X.RC.R@[dgo(X.RC.degree, q)].n as int)); }
    let d = X.RC.degree; assert forall|k: int| 0 <= k < perms@.len() implies dsorts(d, (#[trigger] perms@[k])@, newval@[k]@) && permu(perms@[k]@, X.perm@[k]@.len() as int) by { if d == 1 { assert(perms@[k]@ == P0[k]@.reverse()); assert(perms@[k]@.reverse() =~= P0[k]@); assert(sorts(P0[k]@, newval@[k]@)); } dsorts_permu(d, perms@[k]@, newval@[k]@); assert(newval@[k]@.len() == X.perm@[k]@.len()); } }
@at entry
  let ghost X = *this; let ghost mut P0: Seq<Vec<usize>> = Seq::empty(); let ghost mut Q0: Seq<Vec<usize>> = Seq::empty(); let ghost mut T0: Seq<Vec<usize>> = Seq::empty();
@at loop 0 before
  proof { P0 = perms@; }
@loop 0
  invariant ix0 <= perms@.len(), perms@.len() == P0.len(), forall|k: int| ix0 <= k < P0.len() ==> #[trigger] perms@[k] == P0[k], forall|k: int| 0 <= k < ix0 ==> (#[trigger] perms@[k])@ == P0[k]@.reverse(),
  decreases perms@.len() - ix0
@at loop 1 before
  proof { Q0 = iperm@; }
@loop 1
  invariant *this == X, forall|q: int| 0 <= q < perms@.len() ==> permu(#[trigger] perms@[q]@, X.perm@[q]@.len() as int), k <= iperm@.len(), iperm@.len() == Q0.len(), perms@.len() == Q0.len(), newval@.len() == Q0.len(), X.perm@.len() == Q0.len(), forall|q: int| 0 <= q < Q0.len() ==> inverse_of(#[trigger] Q0[q]@, X.perm@[q]@),
    forall|q: int| k <= q < Q0.len() ==> #[trigger] iperm@[q] == Q0[q], forall|q: int| 0 <= q < k ==> #[trigger] repos_at(iperm@, Q0, perms@, q),
  decreases iperm@.len() - k
@at loop 1 begin
  let ghost p2 = perms@[k as int]@; let ghost q = Q0[k as int]@;
  proof { T0 = iperm@; assert(permu(p2, X.perm@[k as int]@.len() as int)); assert(inverse_of(q, X.perm@[k as int]@)); assert(perms@[k as int].len() == p2.len()); assert(iperm@[k as int] == Q0[k as int]); }
@loop 2
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q == iperm@[k as int]@, tmp@.len() == p2.len(), q.len() == p2.len(), permu(p2, q.len() as int), forall|x: int| 0 <= x < i ==> #[trigger] tmp@[x] == q[p2[x] as int],
  decreases p2.len() - i
@loop 3
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q.len() == p2.len(), iperm@[k as int]@.len() == p2.len(), tmp@.len() == p2.len(), T0.len() == Q0.len(), forall|x: int| 0 <= x < p2.len() ==> #[trigger] tmp@[x] == q[p2[x] as int],
    forall|x: int| 0 <= x < i ==> #[trigger] iperm@[k as int]@[x] == tmp@[x], forall|r: int| 0 <= r < Q0.len() && r != k ==> #[trigger] iperm@[r] == T0[r],
  decreases p2.len() - i
@at loop 1 end
  proof { assert(repos_at(iperm@, Q0, perms@, k as int)); assert forall|r: int| 0 <= r < k + 1 implies #[trigger] repos_at(iperm@, Q0, perms@, r) by { if r < k { assert(repos_at(T0, Q0, perms@, r)); assert(iperm@[r] == T0[r]); } } }
@at before rdg_perm 0
  proof { assert(repos_all(iperm@, Q0, perms@)); rfd_upd_fit(X.RC, X.perm@, perms@, Q0, iperm@); }
@at exit
  proof { assert forall|O: DG<F>, C: DG<F>, C2: DG<F>| dgwf(O) && dg_of(C, X.RC) && #[trigger] dg_perm(O, C, X.perm@) && #[trigger] dg_perm(O, C2, this.perm@) && dg_perms_ok(O, X.perm@) && dg_perms_ok(O, this.perm@) implies dg_of(C2, this.RC) by { dg_repos(O, X.perm@, this.perm@, iperm@, Q0); dg_repos_fwd(O, C, C2, X.perm@, this.perm@, iperm@); } }
@rust
// ---- homology and cohomology of one filtration report the same pairs ----
// E lists the cells of D backwards, its maps are the anti-transposes
pub open spec fn fdg_opp_at<F: Field>(D: FDG<F>, E: FDG<F>, k: int) -> bool { let A = D.C.differential@[k]; let B = E.C.differential@[k]; B.m == A.n && B.n == A.m && feq(B.m as int, B.n as int, atp(A.m as int, A.n as int, fm(A)), fm(B)) }
pub open spec fn rev_at(P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, k: int) -> bool { P2[k]@ == P[k]@.reverse() }
pub open spec fn fdg_opp<F: Field>(D: FDG<F>, E: FDG<F>) -> bool {
    &&& D.C.degree == -1 && E.C.degree == 1 && E.C.differential@.len() == D.C.differential@.len() && E.perm@.len() == D.perm@.len() && E.val@ == D.val@
    &&& forall|k: int| 0 <= k < D.perm@.len() ==> #[trigger] rev_at(D.perm@, E.perm@, k)
    &&& forall|k: int| 0 <= k < D.C.differential@.len() ==> #[trigger] fdg_opp_at(D, E, k)
}
pub proof fn fdg_opp_of<F: Field>(O: DG<F>, O2: DG<F>, D: FDG<F>, E: FDG<F>)
    requires dgwf(O), dgwf(O2), dg_dual(O, O2), fdg_of(O, D), fdg_of(O2, E), D.val@ == E.val@, forall|k: int| 0 <= k < D.perm@.len() ==> #[trigger] rev_at(D.perm@, E.perm@, k), O.differential@[0].m == 0 || O.differential@[0].m == 1, O.differential@[O.differential@.len() - 1].n == 0
    ensures fdg_opp(D, E)
{
    let L = O.differential@.len(); dg_perm_wf(O, D.C, D.perm@); dg_perm_wf(O2, E.C, E.perm@); dsorted_ok(O, O.degree, D.perm@, D.val@);
    assert forall|k: int| 0 <= k < L implies #[trigger] fdg_opp_at(D, E, k) by {
        let A0 = O.differential@[k]; let B0 = O2.differential@[k]; let A = D.C.differential@[k]; let B = E.C.differential@[k]; let m = A.m as int; let n = A.n as int;
        assert(dg_dual_at(O, O2, k)); assert(dg_perm_at(O, D.C, D.perm@, k)); assert(dg_perm_at(O2, E.C, E.perm@, k)); assert(A0.m == m && A0.n == n && B.m == n && B.n == m);
        let rp = dg_rp(-1i32, D.perm@, k, m); let cp = dg_cp(-1i32, D.perm@, k, n); let rq = dg_rp(1, E.perm@, k, n); let cq = dg_cp(1, E.perm@, k, m);
        dg_pc_permu(O, D.perm@, k);
        if k < L - 1 { assert(rev_at(D.perm@, E.perm@, k)); assert(permu(D.perm@[k]@, dgn(O, k))); } if k > 0 { assert(rev_at(D.perm@, E.perm@, k - 1)); assert(permu(D.perm@[k - 1]@, dgn(O, k - 1))); assert(A0.m == O.differential@[k - 1].n); }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] atp(m, n, fm(A))(i, j) == fm(B)(i, j) by {
            assert(cmv(B, i, j) == cmv(B0, rq[i] as int, cq[j] as int)); assert(cmv(A, m - 1 - j, n - 1 - i) == cmv(A0, rp[m - 1 - j] as int, cp[n - 1 - i] as int));
            assert(rq[i] == cp[n - 1 - i]); assert(cq[j] == rp[m - 1 - j]); assert(cmv(B0, rq[i] as int, cq[j] as int) == cmv(A0, cq[j] as int, rq[i] as int)); }
    }
}
pub proof fn opp_piv<F: Field>(D: FDG<F>, E: FDG<F>, X: RFDG<F>, Y: RFDG<F>, k: int)
    requires rfd_of(D, X), rfd_of(E, Y), fdg_opp(D, E), 0 <= k < D.C.differential@.len()
    ensures mirror(D.C.differential@[k].m as int, D.C.differential@[k].n as int, X.RC.p2c@[k]@, Y.RC.p2c@[k]@), X.RC.p2c@[k]@.len() == D.C.differential@[k].m
{
    let A = D.C.differential@[k]; let B = E.C.differential@[k]; let m = A.m as int; let n = A.n as int; let p = X.RC.p2c@[k]@;
    assert(red_at(A, X.RC.R@[k], p)); assert(red_at(B, Y.RC.R@[k], Y.RC.p2c@[k]@)); assert(fdg_opp_at(D, E, k)); assert(m <= NO_IND);
    anti_pivots(fm(A), m, n, p); pivots_feq(atp(m, n, fm(A)), fm(B), n, m, mirror_of(m, n, p)); piv_unique(fm(B), n, m, mirror_of(m, n, p), Y.RC.p2c@[k]@);
}
pub proof fn rfd_dual_at<F: Field>(D: FDG<F>, E: FDG<F>, X: RFDG<F>, Y: RFDG<F>, k: int, i: int)
    requires rfd_of(D, X), rfd_of(E, Y), fdg_opp(D, E), 0 <= k < D.C.differential@.len() - 1, 0 <= i < dgn(D.C, k)
    ensures rfd_dim(Y, k) == rfd_dim(X, k), rfd_dim(X, k) == dgn(D.C, k), rfd_sel(X, k)(i) == rfd_sel(Y, k)(dgn(D.C, k) - 1 - i), rfd_sel(X, k)(i) ==> rfd_pair(X, k, i) == rfd_pair(Y, k, dgn(D.C, k) - 1 - i)
{
    let L = D.C.differential@.len(); let n = dgn(D.C, k); let c = n - 1 - i; rfd_of_fit(D, X); rfd_of_fit(E, Y); assert(rfd_dim(X, k) == n); assert(fdg_opp_at(D, E, k)); assert(fdg_opp_at(D, E, k + 1)); assert(rfd_dim(Y, k) == dgn(E.C, k));
    opp_piv(D, E, X, Y, k); opp_piv(D, E, X, Y, k + 1); rfd_no_both(D, X, k, i);
    let A = D.C.differential@[k + 1]; assert(A.m == n); let p = X.RC.p2c@[k]@; let u = X.RC.p2c@[k + 1]@; let q = Y.RC.p2c@[k]@; let v = Y.RC.p2c@[k + 1]@; let R = X.RC.R@[k]; let T = Y.RC.R@[k + 1]; let n1 = A.n as int;
    reduced_pivtab(R, p); reduced_pivtab(T, v); assert(red_at(D.C.differential@[k], R, p)); assert(red_at(E.C.differential@[k + 1], T, v)); assert(red_at(D.C.differential@[k + 1], X.RC.R@[k + 1], u)); reduced_pivtab(X.RC.R@[k + 1], u);
    assert(R.col@[i].indval@.len() > 0 <==> haspiv(p, i)); assert(T.col@[c].indval@.len() > 0 <==> haspiv(v, c));
    assert(haspiv(v, c) <==> u[i] != NO_IND) by { if haspiv(v, c) { let a = choose|a: int| 0 <= a < v.len() && #[trigger] v[a] == c; assert(v[a] != NO_IND); assert(u[n - 1 - v[a]] == n1 - 1 - a); } if u[i] != NO_IND { assert(v[n1 - 1 - u[i]] == n - 1 - i); } }
    assert(q[c] != NO_IND <==> haspiv(p, i)) by { if q[c] != NO_IND { let m = D.C.differential@[k].m as int; assert(p[m - 1 - q[c]] == n - 1 - c); } if haspiv(p, i) { let a = choose|a: int| 0 <= a < p.len() && #[trigger] p[a] == i; assert(p[a] != NO_IND); assert(q[n - 1 - p[a]] != NO_IND); } }
    assert(rev_at(D.perm@, E.perm@, k)); assert(rfd_fit_at(X, k)); assert(rfd_fit_at(Y, k)); assert(Y.perm@[k]@[c] == X.perm@[k]@[i]);
    if k == L - 2 { assert(n1 == 0); if u[i] != NO_IND { assert(u[i] < n1); } }
    if u[i] != NO_IND {
        let a = low(T.col@[c].indval@) as int; assert(sc(T.col@[c].indval@, T.m as int)); assert(v[a] == c); assert(u[n - 1 - v[a]] == n1 - 1 - a); assert(k + 1 < L - 1); assert(rev_at(D.perm@, E.perm@, k + 1)); assert(rfd_fit_at(X, k + 1)); assert(rfd_dim(X, k + 1) == dgn(D.C, k + 1)); assert(Y.perm@[k + 1]@[a] == X.perm@[k + 1]@[u[i] as int]);
    }
}
pub proof fn cnt_rev(n: int, i: int, z: spec_fn(int) -> bool, y: spec_fn(int) -> bool)
    requires 0 <= i <= n, forall|j: int| 0 <= j < n ==> #[trigger] z(j) == y(n - 1 - j) ensures cnt(n - i, y) + cnt(i, z) == cnt(n, z) decreases n - i
{ if i < n { cnt_rev(n, i + 1, z, y); assert(z(i) == y(n - 1 - i)); } else { } }
// the cochain reduction lists the pairs of the chain reduction, last cell first
pub proof fn rfd_dual_pairs<F: Field>(D: FDG<F>, E: FDG<F>, X: RFDG<F>, Y: RFDG<F>, k: int, s: Seq<PPair>, t: Seq<PPair>)
    requires rfd_of(D, X), rfd_of(E, Y), fdg_opp(D, E), 0 <= k < D.C.differential@.len() - 1, rfd_pairs(X, k, s), rfd_pairs(Y, k, t)
    ensures t == s.reverse()
{
    let n = dgn(D.C, k); let z = rfd_sel(X, k); let y = rfd_sel(Y, k);
    rfd_of_fit(D, X); rfd_of_fit(E, Y); assert(rfd_dim(X, k) == n); assert(fdg_opp_at(D, E, k + 1)); assert(D.C.differential@[k + 1].m == n); assert(rfd_dim(Y, k) == dgn(E.C, k)); 
    assert forall|i: int| 0 <= i < n implies #[trigger] z(i) == y(n - 1 - i) by { rfd_dual_at(D, E, X, Y, k, i); }
    cnt_rev(n, 0, z, y);
    assert forall|a: int| 0 <= a < t.len() implies t[a] == #[trigger] s.reverse()[a] by {
        let b = s.len() - 1 - a; let i = cnt_nth(n, z, b); rfd_dual_at(D, E, X, Y, k, i); let c = n - 1 - i; assert(y(c)); cnt_rev(n, i + 1, z, y); assert(cnt(i + 1, z) == b + 1); assert(cnt(c, y) == a);
        assert(s[cnt(i, z)] == rfd_pair(X, k, i)); assert(t[cnt(c, y)] == rfd_pair(Y, k, c)); }
    assert(t =~= s.reverse());
}
@end
