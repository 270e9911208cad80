@unit la
@uses rcc_perm sortp cm_rows cm_pred
@rust
pub open spec fn zero_in<F: Field>(A: CM<F>) -> bool { forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] cmv(A, i, j) == F::szero() }
pub open spec fn dimsum<F: Field>(s: Seq<CM<F>>, n: int) -> int decreases n { if n <= 0 { 0 } else { dimsum(s, n - 1) + s[n - 1].n } }
pub proof fn dimsum_mono<F: Field>(s: Seq<CM<F>>, a: int, b: int) requires a <= b ensures dimsum(s, a) <= dimsum(s, b), 0 <= dimsum(s, a) decreases (if b > a { b - a } else { 0 }), (if a > 0 { a } else { 0 }) { if a < b { dimsum_mono(s, a, b - 1); } else if a > 0 { dimsum_mono(s, a - 1, a - 1); } }
// sorted copies of the selected cells
pub open spec fn sorted_of(s: Seq<usize>, t: Seq<usize>) -> bool { t.to_multiset() == s.to_multiset() && t.len() == s.len() && nondecr_usize(t) }
pub proof fn sorted_ok(s: Seq<usize>, t: Seq<usize>, n: int) requires n >= 0, sorted_of(s, t), s.no_duplicates(), forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < n ensures incr(t), all_lt(t, n), inj(t), t.no_duplicates(), t.len() <= n, forall|x: usize| t.contains(x) <==> s.contains(x)
{
    assert forall|x: usize| t.contains(x) <==> s.contains(x) by { s.to_multiset_ensures(); t.to_multiset_ensures(); assert(s.contains(x) <==> s.to_multiset().count(x) > 0); assert(t.contains(x) <==> t.to_multiset().count(x) > 0); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < n by { assert(t.contains(t[i])); assert(s.contains(t[i])); let a = choose|a: int| 0 <= a < s.len() && s[a] == t[i]; assert(s[a] < n); }
    s.lemma_multiset_has_no_duplicates(); 
    t.to_multiset_ensures();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { if t[i] == t[j] { two_copies(t, i, j); assert(s.to_multiset().count(t[i]) <= 1); } else { assert(t[i] <= t[j]); } }
    incr_len(t, n);
}
pub proof fn incr_len(t: Seq<usize>, n: int) requires incr(t), all_lt(t, n), n >= 0 ensures t.len() <= n decreases n
{ if t.len() > 0 { let u = t.drop_last(); assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] < n - 1 by { assert(t[i] < t[t.len() - 1]); assert(t[t.len() - 1] < n); } assert(t[0] < n); assert forall|i: int, j: int| 0 <= i < j < u.len() implies #[trigger] u[i] < #[trigger] u[j] by { assert(t[i] < t[j]); } incr_len(u, n - 1); } }
pub proof fn two_copies(t: Seq<usize>, i: int, j: int) requires 0 <= i < j < t.len(), t[i] == t[j] ensures t.to_multiset().count(t[i]) >= 2
{
    let u = t.remove(j); t.to_multiset_ensures(); u.to_multiset_ensures();
    assert(u[i] == t[i]); assert(u.contains(t[i])); assert(u.to_multiset().count(t[i]) > 0);
    assert(u.insert(j, t[j]) =~= t); u.to_multiset_ensures(); vstd::seq_lib::to_multiset_insert(u, j, t[j]); assert(t.to_multiset() =~= u.to_multiset().insert(t[j]));
}
// S is C restricted to the cells r[k] of every dimension
pub open spec fn sel_at<F: Field>(C: CC<F>, S: CC<F>, r: Seq<Vec<usize>>, k: int) -> bool {
    &&& cmwf(S.boundary@[k]) && S.boundary@[k].n == r[k]@.len() && (k == 0 ==> S.boundary@[k].m == 1 && zerom(S.boundary@[k]))
    &&& k > 0 ==> S.boundary@[k].m == r[k - 1]@.len() && forall|i: int, j: int| 0 <= i < r[k - 1]@.len() && 0 <= j < r[k]@.len() ==> #[trigger] cmv(S.boundary@[k], i, j) == cmv(C.boundary@[k], r[k - 1]@[i] as int, r[k]@[j] as int)
}
pub open spec fn sel_m<F: Field>(C: CC<F>, b: Seq<CM<F>>, r: Seq<Vec<usize>>, k: int) -> bool {
    &&& cmwf(b[k]) && b[k].n == r[k]@.len() && (k == 0 ==> b[k].m == 1 && zerom(b[k]))
    &&& k > 0 ==> b[k].m == r[k - 1]@.len() && forall|i: int, j: int| 0 <= i < r[k - 1]@.len() && 0 <= j < r[k]@.len() ==> #[trigger] cmv(b[k], i, j) == cmv(C.boundary@[k], r[k - 1]@[i] as int, r[k]@[j] as int)
}
pub open spec fn sel_cc<F: Field>(C: CC<F>, S: CC<F>, r: Seq<Vec<usize>>) -> bool { S.boundary@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] sel_at(C, S, r, k) }
pub open spec fn sel_ok<F: Field>(C: CC<F>, r: Seq<Vec<usize>>) -> bool { r.len() == C.boundary@.len() && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@.no_duplicates() && forall|a: int| 0 <= a < r[k]@.len() ==> #[trigger] r[k]@[a] < C.boundary@[k].n }
pub open spec fn other_of(s: Seq<usize>, t: Seq<usize>, n: int) -> bool { incr(t) && all_lt(t, n) && forall|x: usize| x < n ==> (#[trigger] t.contains(x) <==> !s.contains(x)) }
pub proof fn compl_len(s: Seq<usize>, t: Seq<usize>, n: int) requires incr(s), all_lt(s, n), other_of(s, t, n), 0 <= n <= NO_IND ensures t.len() == n - s.len()
{
    let a = |j: int| s.contains(j as usize); let b = |j: int| t.contains(j as usize); let all = |j: int| true;
    assert forall|j: int| 0 <= j < n implies #[trigger] all(j) == (a(j) || b(j)) by { assert(t.contains(j as usize) <==> !s.contains(j as usize)); }
    assert forall|j: int| 0 <= j < n implies !(#[trigger] a(j) && b(j)) by { assert(t.contains(j as usize) <==> !s.contains(j as usize)); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < n && a(s[i] as int) by { assert(s.contains(s[i])); }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < n && b(t[i] as int) by { assert(t.contains(t[i])); }
    cnt_split(n, all, a, b); cnt_all(n, all); list_cnt(n, a, s); list_cnt(n, b, t);
}
pub open spec fn others<F: Field>(C: CC<F>, s: Seq<Vec<usize>>, r: Seq<Vec<usize>>) -> bool { r.len() == C.boundary@.len() && forall|k: int| 0 <= k < r.len() ==> other_of(s[k]@, (#[trigger] r[k])@, C.boundary@[k].n as int) }
pub open spec fn cols_by<F: Field>(A: CM<F>, A2: CM<F>, p: Seq<usize>) -> bool { A2.m == A.m && A2.n == A.n && p.len() == A.n && forall|j: int| 0 <= j < A.n ==> (#[trigger] A2.col@[j]) == A.col@[p[j] as int] }
pub open spec fn moved_at<F: Field>(C: CC<F>, C2: CC<F>, R: Seq<Vec<usize>>, k: int) -> bool { if k == 0 { C2.boundary@[0] == C.boundary@[0] } else { perm_at(C.boundary@[k], C2.boundary@[k], R[k - 1]@, R[k]@) } }
pub open spec fn moved_all<F: Field>(C: CC<F>, C2: CC<F>, R: Seq<Vec<usize>>) -> bool { C2.boundary@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] moved_at(C, C2, R, k) }
@end
@fn CC<F>::dim() const as cc_dim_all
@prop P09
@requires
  dimsum(this.boundary@, this.boundary@.len() as int) <= usize::MAX
@ensures
  ret == dimsum(this.boundary@, this.boundary@.len() as int)
@loop 0
  invariant k <= this.boundary@.len(), ret == dimsum(this.boundary@, k as int), dimsum(this.boundary@, this.boundary@.len() as int) <= usize::MAX
  decreases this.boundary@.len() - k
@at loop 0 begin
  proof { dimsum_mono(this.boundary@, k + 1, this.boundary@.len() as int); }
@fn CC<F>::is_valid_complex() const as cc_valid
@prop P16 P09
@requires
  ccwf(*this)
@ensures
  ret <==> ccdd(*this)
@loop 0
  invariant 0 <= k <= this.boundary@.len() - 1, ccwf(*this), forall|q: int| 0 <= q < k ==> #[trigger] ddat(*this, q)
  decreases this.boundary@.len() - k
@at loop 0 begin
  proof { let kk = k as int; assert(this.boundary@[kk + 1].m == this.boundary@[kk].n); 
    assert forall|M: CM<F>| #[trigger] cmwf(M) && M.m == this.boundary@[kk].m && M.n == this.boundary@[kk + 1].n && (forall|i: int, j: int| 0 <= j < M.n ==> #[trigger] cmv(M, i, j) == prodv(this.boundary@[kk].col@, this.boundary@[kk].n as int, this.boundary@[kk + 1].col@, i, j)) implies (zero_in(M) <==> ddat(*this, kk)) by {
      if zero_in(M) { assert forall|i: int, j: int| 0 <= j < M.n implies #[trigger] prodv(this.boundary@[kk].col@, this.boundary@[kk].n as int, this.boundary@[kk + 1].col@, i, j) == F::szero() by { assert(cmv(M, i, j) == prodv(this.boundary@[kk].col@, this.boundary@[kk].n as int, this.boundary@[kk + 1].col@, i, j)); if i < 0 || i >= M.m { cmv_out(M, i, j); } } } } }
@fn CC<F>::subcomplex(&mut Vec<Vec<usize>>) const as cc_sub
@prop P10 P16
@requires
  ccwf(*this), sel_ok(*this, old(inds)@), forall|k: int| 0 <= k < this.boundary@.len() ==> (#[trigger] this.boundary@[k]).n < usize::MAX
@ensures
  final(inds)@.len() == old(inds)@.len(), forall|k: int| 0 <= k < old(inds)@.len() ==> sorted_of(old(inds)@[k]@, (#[trigger] final(inds)@[k])@), sel_cc(*this, ret, final(inds)@)
@at entry
  let ghost r0 = inds@; proof { assert(this.boundary.len() == this.boundary@.len()); }
@loop 0
  invariant 0 <= k <= this.boundary@.len(), this.boundary@.len() == this.boundary.len(), ccwf(*this), sel_ok(*this, r0), forall|q: int| 0 <= q < this.boundary@.len() ==> (#[trigger] this.boundary@[q]).n < usize::MAX, newboundary@.len() == this.boundary@.len(), inds@.len() == r0.len(),
    forall|q: int| 0 <= q < k ==> sorted_of(r0[q]@, (#[trigger] inds@[q])@), forall|q: int| k <= q < r0.len() ==> (#[trigger] inds@[q]) == r0[q],
    forall|q: int| 0 <= q < k ==> #[trigger] sel_m(*this, newboundary@, inds@, q),
  decreases this.boundary@.len() - k
@at loop 0 begin
  let ghost n0 = newboundary@; let ghost i0 = inds@; proof { assert(inds@[k as int] == r0[k as int]); if k > 0 { sorted_ok(r0[k - 1]@, inds@[k - 1]@, this.boundary@[k - 1].n as int); assert(this.boundary@[k as int].m == this.boundary@[k - 1].n); } 
}
@at after sort 0
  proof { assert(sorted_of(r0[k as int]@, inds@[k as int]@)); sorted_ok(r0[k as int]@, inds@[k as int]@, this.boundary@[k as int].n as int); assert(inds@[k as int].len() == inds@[k as int]@.len()); if k > 0 { assert(inds@[k - 1] == i0[k - 1]); } }
@at loop 0 end
  proof { sorted_ok(r0[k as int]@, inds@[k as int]@, this.boundary@[k as int].n as int);
    assert(sel_m(*this, newboundary@, inds@, k as int)); assert forall|q: int| 0 <= q < k + 1 implies #[trigger] sel_m(*this, newboundary@, inds@, q) by { if q < k { assert(sel_m(*this, n0, i0, q)); assert(newboundary@[q] == n0[q]); assert(inds@[q] == i0[q]); if q > 0 { assert(inds@[q - 1] == i0[q - 1]); } } } }
@at before return 0
  proof { assert forall|S: CC<F>| S.boundary@ == newboundary@ implies #[trigger] sel_cc(*this, S, inds@) by { assert forall|q: int| 0 <= q < this.boundary@.len() implies #[trigger] sel_at(*this, S, inds@, q) by { assert(sel_m(*this, newboundary@, inds@, q)); } } }
@fn CC<F>::relative_complex(&mut Vec<Vec<usize>>) const as cc_rel
@prop P10 P16
@opt rlimit=40
@requires
  ccwf(*this), sel_ok(*this, old(inds)@), forall|k: int| 0 <= k < this.boundary@.len() ==> (#[trigger] this.boundary@[k]).n < usize::MAX
@ensures
  final(inds)@.len() == old(inds)@.len(), forall|k: int| 0 <= k < old(inds)@.len() ==> sorted_of(old(inds)@[k]@, (#[trigger] final(inds)@[k])@), exists|r: Seq<Vec<usize>>| #[trigger] others(*this, old(inds)@, r) && sel_cc(*this, ret, r)
@at entry
  let ghost r0 = inds@; proof { assert(this.boundary.len() == this.boundary@.len()); }
@loop 0
  invariant 0 <= k <= this.boundary@.len(), this.boundary@.len() == this.boundary.len(), ccwf(*this), sel_ok(*this, r0), forall|q: int| 0 <= q < this.boundary@.len() ==> (#[trigger] this.boundary@[q]).n < usize::MAX, newboundary@.len() == this.boundary@.len(), inds@.len() == r0.len(), cinds@.len() == k,
    forall|q: int| 0 <= q < k ==> sorted_of(r0[q]@, (#[trigger] inds@[q])@), forall|q: int| k <= q < r0.len() ==> (#[trigger] inds@[q]) == r0[q],
    forall|q: int| 0 <= q < k ==> other_of(r0[q]@, (#[trigger] cinds@[q])@, this.boundary@[q].n as int) && cinds@[q]@.len() == this.boundary@[q].n - r0[q]@.len(),
    forall|q: int| 0 <= q < k ==> #[trigger] sel_m(*this, newboundary@, cinds@, q),
  decreases this.boundary@.len() - k
@at loop 0 begin
  let ghost n0 = newboundary@; let ghost i0 = inds@; let ghost c0 = cinds@; proof { assert(inds@[k as int] == r0[k as int]); if k > 0 { assert(other_of(r0[k - 1]@, c0[k - 1]@, this.boundary@[k - 1].n as int)); assert(this.boundary@[k as int].m == this.boundary@[k - 1].n); } }
@at after sort 0
  proof { let n = this.boundary@[k as int].n as int; let s = inds@[k as int]@; assert(sorted_of(r0[k as int]@, s)); sorted_ok(r0[k as int]@, s, n); assert(inds@[k as int].len() == s.len());
    assert forall|t: Seq<usize>| #[trigger] other_of(s, t, n) implies t.len() == n - s.len() by { compl_len(s, t, n); } }
@at after sorted_complement 0
  proof { let n = this.boundary@[k as int].n as int; assert(other_of(inds@[k as int]@, r_sorted_complement_0@, n)); assert forall|x: usize| x < n implies (#[trigger] r_sorted_complement_0@.contains(x) <==> !r0[k as int]@.contains(x)) by { assert(inds@[k as int]@.contains(x) <==> r0[k as int]@.contains(x)); } assert(other_of(r0[k as int]@, r_sorted_complement_0@, n)); }
@at loop 0 end
  proof { 
    assert(sel_m(*this, newboundary@, cinds@, k as int)); assert forall|q: int| 0 <= q < k + 1 implies #[trigger] sel_m(*this, newboundary@, cinds@, q) by { if q < k { assert(sel_m(*this, n0, c0, q)); assert(newboundary@[q] == n0[q]); assert(cinds@[q] == c0[q]); if q > 0 { assert(cinds@[q - 1] == c0[q - 1]); } } }
    assert forall|q: int| 0 <= q < k + 1 implies other_of(r0[q]@, (#[trigger] cinds@[q])@, this.boundary@[q].n as int) && cinds@[q]@.len() == this.boundary@[q].n - r0[q]@.len() by { if q < k { assert(cinds@[q] == c0[q]); } } }
@at before return 0
  proof { assert(others(*this, r0, cinds@)); assert forall|S: CC<F>| S.boundary@ == newboundary@ implies #[trigger] sel_cc(*this, S, cinds@) by { assert forall|q: int| 0 <= q < this.boundary@.len() implies #[trigger] sel_at(*this, S, cinds@, q) by { assert(sel_m(*this, newboundary@, cinds@, q)); } } }
@fn CC<F>::permute_basis(usize, Vec<usize>) as cc_perm_k
@prop P18 P10
@requires
  ccwf(*old(this)), k < old(this).boundary@.len(), permu(perm@, old(this).boundary@[k as int].n as int)
@ensures
  final(this).boundary@.len() == old(this).boundary@.len(), forall|q: int| 0 <= q < old(this).boundary@.len() && q != k + 1 && (q != k || k == 0) ==> (#[trigger] final(this).boundary@[q]) == old(this).boundary@[q], ccwf(*final(this)),
  forall|q: int| 0 <= q < old(this).boundary@.len() ==> (#[trigger] final(this).boundary@[q]).n == old(this).boundary@[q].n && final(this).boundary@[q].m == old(this).boundary@[q].m,
  k > 0 ==> cols_by(final(this).boundary@[k as int], old(this).boundary@[k as int], perm@),
  k + 1 < old(this).boundary@.len() ==> rows_by(final(this).boundary@[k + 1], old(this).boundary@[k + 1], perm@),
@at entry
  let ghost X = *this; let ghost kk = k as int; proof { assert(this.boundary.len() == this.boundary@.len()); permu_isperm(perm@, perm@.len() as int); if kk + 1 < this.boundary@.len() { assert(this.boundary@[kk + 1].m == this.boundary@[kk].n); } assert forall|r: Seq<usize>| #[trigger] permu(r, perm@.len() as int) implies isperm_usize(r) by { permu_isperm(r, perm@.len() as int); } }
@at exit
  proof { let L = X.boundary@.len();
    if kk + 1 < L { let A = X.boundary@[kk + 1]; let A2 = this.boundary@[kk + 1];  }
    assert forall|q: int| 0 <= q < L implies cmwf(#[trigger] this.boundary@[q]) && this.boundary@[q].n == X.boundary@[q].n && this.boundary@[q].m == X.boundary@[q].m by { assert(cmwf(X.boundary@[q])); }
    assert forall|q: int| 1 <= q < L implies (#[trigger] this.boundary@[q]).m == this.boundary@[q - 1].n by { assert(X.boundary@[q].m == X.boundary@[q - 1].n); assert(this.boundary@[q - 1].n == X.boundary@[q - 1].n); } }
@fn CC<F>::ipermute_basis(usize, Vec<usize>) as cc_iperm_k
@prop P18 P10
@requires
  ccwf(*old(this)), k < old(this).boundary@.len(), permu(perm@, old(this).boundary@[k as int].n as int)
@ensures
  final(this).boundary@.len() == old(this).boundary@.len(), forall|q: int| 0 <= q < old(this).boundary@.len() && q != k + 1 && (q != k || k == 0) ==> (#[trigger] final(this).boundary@[q]) == old(this).boundary@[q], ccwf(*final(this)),
  forall|q: int| 0 <= q < old(this).boundary@.len() ==> (#[trigger] final(this).boundary@[q]).n == old(this).boundary@[q].n && final(this).boundary@[q].m == old(this).boundary@[q].m,
  k > 0 ==> cols_by(old(this).boundary@[k as int], final(this).boundary@[k as int], perm@),
  k + 1 < old(this).boundary@.len() ==> rows_by(old(this).boundary@[k + 1], final(this).boundary@[k + 1], perm@),
@at entry
  let ghost X = *this; let ghost kk = k as int; proof { assert(this.boundary.len() == this.boundary@.len()); permu_isperm(perm@, perm@.len() as int); if kk + 1 < this.boundary@.len() { assert(this.boundary@[kk + 1].m == this.boundary@[kk].n); } assert forall|r: Seq<usize>| #[trigger] permu(r, perm@.len() as int) implies isperm_usize(r) by { permu_isperm(r, perm@.len() as int); } }
@at exit
  proof { let L = X.boundary@.len();
    if kk + 1 < L { let A = X.boundary@[kk + 1]; let A2 = this.boundary@[kk + 1]; let p = perm@; let q = choose|q: Seq<usize>| #[trigger] q.len() == p.len() && (forall|j: int| 0 <= j < p.len() ==> q[#[trigger] p[j] as int] == j) && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> cmv(A2, q[i] as int, j) == #[trigger] cmv(A, i, j); rows_by_inv(A, A2, p, q); }
    assert forall|q: int| 0 <= q < L implies cmwf(#[trigger] this.boundary@[q]) && this.boundary@[q].n == X.boundary@[q].n && this.boundary@[q].m == X.boundary@[q].m by { assert(cmwf(X.boundary@[q])); }
    assert forall|q: int| 1 <= q < L implies (#[trigger] this.boundary@[q]).m == this.boundary@[q - 1].n by { assert(X.boundary@[q].m == X.boundary@[q - 1].n); assert(this.boundary@[q - 1].n == X.boundary@[q - 1].n); } }
@fn CC<F>::permute_basis(Vec<Vec<usize>>) as cc_perm
@prop P18 P10
@opt rlimit=40
@requires
  ccwf(*old(this)), perms_ok(*old(this), perm@)
@ensures
  ccwf(*final(this)), moved_all(*final(this), *old(this), perm@), zerom(old(this).boundary@[0]) ==> perm_cc(*final(this), *old(this), perm@)
@at entry
  let ghost X = *this;
@loop 0
  invariant k <= perm@.len(), this.boundary@.len() == X.boundary@.len(), perm@.len() == X.boundary@.len(), ccwf(X), ccwf(*this), perms_ok(X, perm@),
    forall|q: int| 0 <= q < X.boundary@.len() ==> (#[trigger] this.boundary@[q]).n == X.boundary@[q].n && this.boundary@[q].m == X.boundary@[q].m,
    forall|q: int| k < q < X.boundary@.len() ==> (#[trigger] this.boundary@[q]) == X.boundary@[q], this.boundary@[0] == X.boundary@[0],
    0 < k < X.boundary@.len() ==> rows_by(this.boundary@[k as int], X.boundary@[k as int], perm@[k - 1]@),
    forall|q: int| 0 < q < k ==> perm_at(#[trigger] this.boundary@[q], X.boundary@[q], perm@[q - 1]@, perm@[q]@),
  decreases perm@.len() - k
@at loop 0 begin
  let ghost Y = *this; let ghost kk = k as int;
  proof { assert(permu(perm@[kk]@, X.boundary@[kk].n as int)); assert(this.boundary@[kk].n == X.boundary@[kk].n); }
@at loop 0 end
  proof { let p = perm@[kk]@; let L = X.boundary@.len();
    if kk > 0 { let A = X.boundary@[kk]; let A1 = Y.boundary@[kk]; let A2 = this.boundary@[kk]; 
      assert(permu(perm@[kk - 1]@, X.boundary@[kk - 1].n as int)); assert(A.m == X.boundary@[kk - 1].n); assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A, i, j) == cmv(A2, perm@[kk - 1]@[i] as int, p[j] as int) by { assert(A1.col@[j] == A2.col@[p[j] as int]); assert(cmv(A, i, j) == cmv(A1, perm@[kk - 1]@[i] as int, j)); } }
    assert forall|q: int| 0 < q < k + 1 implies perm_at(#[trigger] this.boundary@[q], X.boundary@[q], perm@[q - 1]@, perm@[q]@) by { if q < kk { assert(this.boundary@[q] == Y.boundary@[q]); assert(perm_at(Y.boundary@[q], X.boundary@[q], perm@[q - 1]@, perm@[q]@)); } }
  }
@at exit
  proof { assert forall|q: int| 0 <= q < X.boundary@.len() implies #[trigger] moved_at(*this, X, perm@, q) by { if q > 0 { assert(perm_at(this.boundary@[q], X.boundary@[q], perm@[q - 1]@, perm@[q]@)); } }
    if zerom(X.boundary@[0]) { assert forall|q: int| 0 <= q < X.boundary@.len() implies #[trigger] perm_dim(*this, X, perm@, q) by { assert(moved_at(*this, X, perm@, q)); } } }
@fn CC<F>::ipermute_basis(Vec<Vec<usize>>) as cc_iperm
@prop P18 P10
@opt rlimit=40
@requires
  ccwf(*old(this)), perms_ok(*old(this), perm@)
@ensures
  ccwf(*final(this)), moved_all(*old(this), *final(this), perm@), zerom(old(this).boundary@[0]) ==> perm_cc(*old(this), *final(this), perm@)
@at entry
  let ghost X = *this;
@loop 0
  invariant k <= perm@.len(), this.boundary@.len() == X.boundary@.len(), perm@.len() == X.boundary@.len(), ccwf(X), ccwf(*this), perms_ok(X, perm@),
    forall|q: int| 0 <= q < X.boundary@.len() ==> (#[trigger] this.boundary@[q]).n == X.boundary@[q].n && this.boundary@[q].m == X.boundary@[q].m,
    forall|q: int| k < q < X.boundary@.len() ==> (#[trigger] this.boundary@[q]) == X.boundary@[q], this.boundary@[0] == X.boundary@[0],
    0 < k < X.boundary@.len() ==> rows_by(X.boundary@[k as int], this.boundary@[k as int], perm@[k - 1]@),
    forall|q: int| 0 < q < k ==> perm_at(#[trigger] X.boundary@[q], this.boundary@[q], perm@[q - 1]@, perm@[q]@),
  decreases perm@.len() - k
@at loop 0 begin
  let ghost Y = *this; let ghost kk = k as int;
  proof { assert(permu(perm@[kk]@, X.boundary@[kk].n as int)); assert(this.boundary@[kk].n == X.boundary@[kk].n); }
@at loop 0 end
  proof { let p = perm@[kk]@; let L = X.boundary@.len();
    if kk > 0 { let A = X.boundary@[kk]; let A1 = Y.boundary@[kk]; let A2 = this.boundary@[kk]; 
      assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] cmv(A2, i, j) == cmv(A, perm@[kk - 1]@[i] as int, p[j] as int) by { assert(A2.col@[j] == A1.col@[p[j] as int]); assert(cmv(A1, i, p[j] as int) == cmv(A, perm@[kk - 1]@[i] as int, p[j] as int)); } }
    assert forall|q: int| 0 < q < k + 1 implies perm_at(#[trigger] X.boundary@[q], this.boundary@[q], perm@[q - 1]@, perm@[q]@) by { if q < kk { assert(this.boundary@[q] == Y.boundary@[q]); assert(perm_at(X.boundary@[q], Y.boundary@[q], perm@[q - 1]@, perm@[q]@)); } }
  }
@at exit
  proof { assert forall|q: int| 0 <= q < X.boundary@.len() implies #[trigger] moved_at(X, *this, perm@, q) by { if q > 0 { assert(perm_at(X.boundary@[q], this.boundary@[q], perm@[q - 1]@, perm@[q]@)); } }
    if zerom(X.boundary@[0]) { assert forall|q: int| 0 <= q < X.boundary@.len() implies #[trigger] perm_dim(X, *this, perm@, q) by { assert(moved_at(X, *this, perm@, q)); } } }
