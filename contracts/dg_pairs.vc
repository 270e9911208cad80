@unit la
@uses dg_fil
@rust
// ---- filtered differential graded vector spaces ----
// the order the cells are listed in: by value for chains, by value backwards for cochains
pub open spec fn dord(d: i32, p: Seq<usize>) -> Seq<usize> { if d == 1 { p.reverse() } else { p } }
pub open spec fn dsorts(d: i32, p: Seq<usize>, v: Seq<i32>) -> bool { sorts(dord(d, p), v) }
pub open spec fn dsorted(d: i32, P: Seq<Vec<usize>>, V: Seq<Vec<i32>>) -> bool { P.len() == V.len() && forall|k: int| 0 <= k < P.len() ==> dsorts(d, (#[trigger] P[k])@, V[k]@) }
pub proof fn dsorts_permu(d: i32, p: Seq<usize>, v: Seq<i32>) requires dsorts(d, p, v) ensures permu(p, v.len() as int)
{
    if d == 1 { let r = p.reverse(); let n = v.len() as int;
        assert(p.len() == r.len());
        assert forall|i: int| 0 <= i < n implies (#[trigger] p[i]) < n by { assert(r[n - 1 - i] == p[i]); assert(r[n - 1 - i] < n); }
        assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] p[i] != #[trigger] p[j] by { assert(r[n - 1 - i] == p[i]); assert(r[n - 1 - j] == p[j]); assert(r[n - 1 - j] != r[n - 1 - i]); } }
}
pub open spec fn dg_vals_fit<F: Field>(C: DG<F>, V: Seq<Vec<i32>>) -> bool { V.len() == C.differential@.len() - 1 && forall|k: int| 0 <= k < V.len() ==> (#[trigger] V[k])@.len() == dgn(C, k) }
pub proof fn dsorted_ok<F: Field>(C: DG<F>, d: i32, P: Seq<Vec<usize>>, V: Seq<Vec<i32>>) requires dgwf(C), dg_vals_fit(C, V), dsorted(d, P, V) ensures dg_perms_ok(C, P)
{ assert forall|k: int| 0 <= k < P.len() implies permu(#[trigger] P[k]@, dgn(C, k)) by { assert(V[k]@.len() == dgn(C, k)); dsorts_permu(d, P[k]@, V[k]@); } }
// D lists the cells of O by value
pub open spec fn fdg_of<F: Field>(O: DG<F>, D: FDG<F>) -> bool { dg_perm(O, D.C, D.perm@) && dsorted(O.degree, D.perm@, D.val@) && dg_vals_fit(O, D.val@) && dgwf(D.C) }
@end
@fn FDG<F>::_set_perms() as fdg_set
@prop P12 P18
@opt rlimit=60
@requires
  dgwf(old(this).C), dg_vals_fit(old(this).C, old(this).val@)
@ensures
  final(this).val == old(this).val, fdg_of(old(this).C, *final(this))
@at entry
  let ghost X = *this; let ghost mut P0: Seq<Vec<usize>> = Seq::empty();
@at loop 0 before
  proof { P0 = perms@; }
@loop 0
  invariant ix0 <= perms@.len(), perms@.len() == P0.len(), forall|k: int| ix0 <= k < P0.len() ==> #[trigger] perms@[k] == P0[k], forall|k: int| 0 <= k < ix0 ==> (#[trigger] perms@[k])@ == P0[k]@.reverse(),
  decreases perms@.len() - ix0
@at before dg_iperm 0
  proof { let d = X.C.degree; assert forall|k: int| 0 <= k < perms@.len() implies dsorts(d, (#[trigger] perms@[k])@, X.val@[k]@) by { if d == 1 { assert(perms@[k]@ == P0[k]@.reverse()); assert(perms@[k]@.reverse() =~= P0[k]@); assert(sorts(P0[k]@, X.val@[k]@)); } } dsorted_ok(X.C, d, perms@, X.val@); }
@rust
pub proof fn fdg_of_view<F: Field>(C: DG<F>, C2: DG<F>, D: FDG<F>) requires fdg_of(C, D), C2.degree == C.degree, C2.differential@ == C.differential@ ensures fdg_of(C2, D)
{ assert forall|k: int| 0 <= k < C2.differential@.len() implies #[trigger] dg_perm_at(C2, D.C, D.perm@, k) by { assert(dg_perm_at(C, D.C, D.perm@, k)); }
  assert forall|k: int| 0 <= k < D.val@.len() implies (#[trigger] D.val@[k])@.len() == dgn(C2, k) by { assert(D.val@[k]@.len() == dgn(C, k)); } }
@end
@fn FDG<F>::new(Vec<CM<F>>, Vec<Vec<i32>>, i32) as fdg_new
@prop P12 P18
@requires
  deg == -1 || deg == 1, diff@.len() > 0, forall|C: DG<F>| C.degree == deg && C.differential@ == diff@ ==> dgwf(C) && dg_vals_fit(C, val@)
@ensures
  forall|C: DG<F>| C.degree == deg && C.differential@ == diff@ ==> fdg_of(C, ret), ret.val@ == val@
@at before fdg_set 0
  let ghost C1 = this.C; proof { assert(C1.differential@ == diff@); }
@at exit
  proof { let C0 = C1; assert forall|C: DG<F>| C.degree == deg && C.differential@ == diff@ implies fdg_of(C, this) by { fdg_of_view(C0, C, this); } }
@fn FDG<F>::update_filtration(Vec<Vec<i32>>) as fdg_update
@prop P18
@opt rlimit=60
@requires
  dgwf(old(this).C), dg_perms_ok(old(this).C, old(this).perm@), old(this).perm@.len() == old(this).C.differential@.len() - 1, dg_vals_fit(old(this).C, newval@)
@ensures
  final(this).val@ == newval@, dsorted(old(this).C.degree, final(this).perm@, newval@), dgwf(final(this).C),
  forall|O: DG<F>| dgwf(O) && #[trigger] dg_perm(O, old(this).C, old(this).perm@) && dg_perms_ok(O, old(this).perm@) ==> dg_perm(O, final(this).C, final(this).perm@)
@at before filtration_iperm 0
  proof { assert forall|q: int| 0 <= q < this.perm@.len() implies permu(#[trigger] this.perm@[q]@, this.perm@[q]@.len() as int) by { assert(permu(this.perm@[q]@, dgn(X.C, q))); }
    let d = X.C.degree; assert forall|k: int| 0 <= k < perms@.len() implies dsorts(d, (#[trigger] perms@[k])@, newval@[k]@) by { if d == 1 { assert(perms@[k]@ == P0[k]@.reverse()); assert(perms@[k]@.reverse() =~= P0[k]@); assert(sorts(P0[k]@, newval@[k]@)); } } dsorted_ok(X.C, d, perms@, newval@); }
@at entry
  let ghost X = *this; let ghost mut P0: Seq<Vec<usize>> = Seq::empty(); let ghost mut Q0: Seq<Vec<usize>> = Seq::empty(); let ghost mut T0: Seq<Vec<usize>> = Seq::empty();
@at loop 0 before
  proof { P0 = perms@; }
@loop 0
  invariant ix0 <= perms@.len(), perms@.len() == P0.len(), forall|k: int| ix0 <= k < P0.len() ==> #[trigger] perms@[k] == P0[k], forall|k: int| 0 <= k < ix0 ==> (#[trigger] perms@[k])@ == P0[k]@.reverse(),
  decreases perms@.len() - ix0
@at loop 1 before
  proof { Q0 = iperm@; }
@loop 1
  invariant *this == X, dg_perms_ok(X.C, X.perm@), dg_perms_ok(X.C, perms@), k <= iperm@.len(), iperm@.len() == Q0.len(), perms@.len() == Q0.len(), newval@.len() == Q0.len(), X.perm@.len() == Q0.len(), forall|q: int| 0 <= q < Q0.len() ==> inverse_of(#[trigger] Q0[q]@, X.perm@[q]@),
    forall|q: int| k <= q < Q0.len() ==> #[trigger] iperm@[q] == Q0[q], forall|q: int| 0 <= q < k ==> #[trigger] repos_at(iperm@, Q0, perms@, q),
  decreases iperm@.len() - k
@at loop 1 begin
  let ghost p2 = perms@[k as int]@; let ghost q = Q0[k as int]@;
  proof { T0 = iperm@; assert(permu(p2, dgn(X.C, k as int))); assert(permu(X.perm@[k as int]@, dgn(X.C, k as int))); assert(inverse_of(q, X.perm@[k as int]@)); assert(perms@[k as int].len() == p2.len()); assert(iperm@[k as int] == Q0[k as int]); }
@loop 2
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q == iperm@[k as int]@, tmp@.len() == p2.len(), q.len() == p2.len(), permu(p2, q.len() as int), forall|x: int| 0 <= x < i ==> #[trigger] tmp@[x] == q[p2[x] as int],
  decreases p2.len() - i
@loop 3
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q.len() == p2.len(), iperm@[k as int]@.len() == p2.len(), tmp@.len() == p2.len(), T0.len() == Q0.len(), forall|x: int| 0 <= x < p2.len() ==> #[trigger] tmp@[x] == q[p2[x] as int],
    forall|x: int| 0 <= x < i ==> #[trigger] iperm@[k as int]@[x] == tmp@[x], forall|r: int| 0 <= r < Q0.len() && r != k ==> #[trigger] iperm@[r] == T0[r],
  decreases p2.len() - i
@at loop 1 end
  proof { assert(repos_at(iperm@, Q0, perms@, k as int)); assert forall|r: int| 0 <= r < k + 1 implies #[trigger] repos_at(iperm@, Q0, perms@, r) by { if r < k { assert(repos_at(T0, Q0, perms@, r)); assert(iperm@[r] == T0[r]); } } }
@at loop 1 after
  proof { assert(repos_all(iperm@, Q0, perms@)); dg_repos(X.C, X.perm@, perms@, iperm@, Q0); }
@at exit
  proof { let C1 = X.C; let C2 = this.C;
    assert forall|O: DG<F>| dgwf(O) && #[trigger] dg_perm(O, X.C, X.perm@) && dg_perms_ok(O, X.perm@) implies dg_perm(O, this.C, this.perm@) by { dg_perm_wf(O, C1, X.perm@); dg_perms_same(O, C1, this.perm@); dg_perms_same(O, C1, iperm@); dg_repos_back(O, C1, C2, X.perm@, this.perm@, iperm@); } }
@rust
pub proof fn dg_perms_same<F: Field>(O: DG<F>, C: DG<F>, P: Seq<Vec<usize>>)
    requires dgwf(O), C.degree == O.degree, C.differential@.len() == O.differential@.len(), forall|k: int| 0 <= k < O.differential@.len() ==> (#[trigger] C.differential@[k]).n == O.differential@[k].n ensures dg_perms_ok(O, P) <==> dg_perms_ok(C, P)
{ assert forall|k: int| 0 <= k < P.len() && P.len() < O.differential@.len() implies dgn(O, k) == #[trigger] dgn(C, k) by { let q = if O.degree == -1 { k } else { k + 1 }; assert(C.differential@[q].n == O.differential@[q].n); }
  if dg_perms_ok(O, P) { assert forall|k: int| 0 <= k < P.len() implies permu(#[trigger] P[k]@, dgn(C, k)) by { assert(permu(P[k]@, dgn(O, k))); assert(dgn(O, k) == dgn(C, k)); } }
  if dg_perms_ok(C, P) { assert forall|k: int| 0 <= k < P.len() implies permu(#[trigger] P[k]@, dgn(O, k)) by { assert(permu(P[k]@, dgn(C, k))); assert(dgn(O, k) == dgn(C, k)); } }
}
@end
