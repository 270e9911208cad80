@unit util
@uses util sortp spx
@rust
pub proof fn spx_closed(X: Spx, s: Seq<usize>)
    requires spx_wf(X), X@.contains(s) ensures s.len() > 0, fin(X.spx_to_idx@, s), s.len() <= X._ncells@.len(), X.spx_to_idx@[s] < nc(X, s.len() - 1), cell(X, s.len() - 1, X.spx_to_idx@[s] as int) == s
{
    if s.len() == 0 { assert(s =~= Seq::<usize>::empty()); }
    assert(at_idx(X, s)); let d = s.len() - 1; assert(cell_ok(X, d, X.spx_to_idx@[s] as int));
    if d == 0 { assert forall|k: int| 0 <= k < s.len() implies X.spx_to_idx@.dom().contains(#[trigger] s.remove(k)) by { assert(s.remove(k) =~= Seq::<usize>::empty()); } }
}
// all simplices list their vertices in increasing order (everything but the directed insertions)
pub open spec fn norm(X: Spx) -> bool { forall|s: Seq<usize>| #[trigger] X@.contains(s) ==> incr(s) }
// the first cells of X: all of dimension below k and the first i of dimension k
pub open spec fn upto(X: Spx, s: Seq<usize>, k: int, i: int) -> bool { X@.contains(s) && (s.len() <= k || (s.len() == k + 1 && X.spx_to_idx@[s] < i)) }
pub proof fn upto_step(X: Spx, k: int, i: int, s: Seq<usize>)
    requires spx_wf(X), 0 <= k < X._ncells@.len(), 0 <= i < nc(X, k)
    ensures upto(X, s, k, i + 1) <==> (upto(X, s, k, i) || s == cell(X, k, i)), X@.contains(cell(X, k, i)), cell(X, k, i).len() == k + 1, !upto(X, cell(X, k, i), k, i)
{
    assert(len_at(X, k)); assert(cell_ok(X, k, i)); blk_bounds(i, nc(X, k), k + 1);
    if upto(X, s, k, i + 1) { spx_closed(X, s); }
}
pub proof fn upto_row(X: Spx, k: int, s: Seq<usize>)
    requires spx_wf(X), 0 <= k
    ensures upto(X, s, k, nc(X, k)) <==> upto(X, s, k + 1, 0), !upto(X, s, 0, 0), k >= X._ncells@.len() ==> (upto(X, s, k, 0) <==> X@.contains(s))
{ if X@.contains(s) { spx_closed(X, s); } }
// Y holds everything in the set c of simplices that is among the first cells of X; so does c's next member's boundary
pub proof fn add_next(X: Spx, Y: Spx, Y2: Spx, k: int, i: int, s: Seq<usize>, r: CellInd)
    requires spx_wf(X), spx_wf(Y), 0 <= k < X._ncells@.len(), 0 <= i < nc(X, k), s == cell(X, k, i), added(Y, Y2, s, r),
        forall|t: int| 0 <= t < s.len() && s.len() >= 2 ==> Y@.contains(#[trigger] s.remove(t))
    ensures Y2@ == Y@.insert(s)
{
    upto_step(X, k, i, s);
    assert forall|t: int| 0 <= t < s.len() implies Y.spx_to_idx@.dom().contains(#[trigger] s.remove(t)) by { if s.len() == 1 { assert(s.remove(t) =~= Seq::<usize>::empty()); } else { assert(Y@.contains(s.remove(t))); } }
    assert(Y2@ =~= Y@.insert(s));
}
// faces do not come later
pub open spec fn filt_mono(F: Filt) -> bool { forall|s: Seq<usize>, k: int| F.X@.contains(s) && s.len() >= 2 && 0 <= k < s.len() ==> F@[#[trigger] s.remove(k)] <= F@[s] }
pub proof fn val_at(F: Filt, k: int, i: int)
    requires filt_wf(F), 0 <= k, 0 <= i < nc(F.X, k)
    ensures vl(F, k) == nc(F.X, k), F@.dom().contains(cell(F.X, k, i)), F@[cell(F.X, k, i)] == F.val@[k]@[i]
{ assert(vl(F, k) == nc(F.X, k)); upto_step(F.X, k, i, cell(F.X, k, i)); assert(cell_ok(F.X, k, i)); }
@end
@fn Spx::add(&&Vec<usize>) as spx_add_rv
@prop P16 P18
@requires
  spx_wf(*old(this)), s@.len() > 0, incr(s@)
@ensures
  spx_wf(*final(this)), added(*old(this), *final(this), s@, ret),
@fn Filt::sublevelset(i32) const as filt_sub
@prop P18
@requires
  filt_wf(*this), norm(this.X), filt_mono(*this), this.val@.len() > 0, this.X._ncells@.len() > 0, forall|s: Seq<usize>| #[trigger] this.X@.contains(s) ==> all_lt(s, usize::MAX as int)
@ensures
  spx_wf(ret), forall|s: Seq<usize>| #[trigger] ret@.contains(s) <==> (this@.dom().contains(s) && this@[s] <= a),
@at entry
  proof { vec_max(this.X._ncells); vec_max(this.val); }
  let ghost M = this.X.spx_to_idx@; let ghost X = this.X; let ghost mut Y0 = X; let ghost mut c: Seq<usize> = Seq::empty();
@loop 0
  invariant i <= nc(X, 0), X == this.X
  decreases nc(X, 0) - i
@at loop 0 begin
  proof { upto_step(X, 0, i as int, cell(X, 0, i as int)); }
@loop 1
  invariant ix1 <= rng__3@.len(), rng__3@ == cell(X, 0, i as int), X@.contains(rng__3@), X == this.X
  decreases rng__3@.len() - ix1
@at loop 2 before
  proof { assert forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, 0, 0) && this@[s] <= a) by { upto_row(X, 0, s); } }
@loop 2
  invariant k <= this.val@.len(), X == this.X, spx_wf(Y), forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, k as int, 0) && this@[s] <= a),
  decreases this.val@.len() - k
@at loop 2 begin
  proof { assert(vl(*this, k as int) == nc(X, k as int)); }
@loop 3
  invariant_except_break k < this.val@.len(), i <= nc(X, k as int), X == this.X, spx_wf(Y), vl(*this, k as int) == nc(X, k as int), forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, k as int, i as int) && this@[s] <= a)
  ensures i == nc(X, k as int), k < this.val@.len(), X == this.X, spx_wf(Y), forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, k as int, nc(X, k as int)) && this@[s] <= a)
  decreases nc(X, k as int) - i
@at loop 3 begin
  proof { Y0 = Y; c = cell(X, k as int, i as int); upto_step(X, k as int, i as int, c); val_at(*this, k as int, i as int); assert(norm(X)); assert(incr(c)); }
@at after spx_add_rv 0
  proof {
      spx_closed(X, c);
      assert forall|t: int| 0 <= t < c.len() && c.len() >= 2 implies Y0@.contains(#[trigger] c.remove(t)) by { assert(this@[c.remove(t)] <= this@[c]); assert(M.dom().contains(c.remove(t))); assert(upto(X, c.remove(t), k as int, i as int)); }
      add_next(X, Y0, Y, k as int, i as int, c, r_spx_add_rv_0);
  }
@at loop 3 end
  proof {
    assert forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, k as int, i + 1) && this@[s] <= a) by { upto_step(X, k as int, i as int, s); assert(Y0@.contains(s) <==> (upto(X, s, k as int, i as int) && this@[s] <= a)); }
  }
@at loop 2 end
  proof { assert forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (upto(X, s, k + 1, 0) && this@[s] <= a) by { upto_row(X, k as int, s); } }
@at before return 0
  proof { assert forall|s: Seq<usize>| #[trigger] Y@.contains(s) <==> (this@.dom().contains(s) && this@[s] <= a) by { if this@.dom().contains(s) { spx_closed(X, s); assert(vl(*this, s.len() - 1) == nc(X, s.len() - 1)); } } }
@rust
// ---- the boundary of a boundary is zero ----
pub open spec fn ssum(a: Seq<int>) -> int decreases a.len() { if a.len() == 0 { 0 } else { ssum(a.drop_last()) + a.last() } }
pub proof fn ssum_remove(a: Seq<int>, i: int)
    requires 0 <= i < a.len() ensures ssum(a) == ssum(a.remove(i)) + a[i]
    decreases a.len()
{
    if i == a.len() - 1 { assert(a.remove(i) =~= a.drop_last()); }
    else { ssum_remove(a.drop_last(), i); assert(a.remove(i).drop_last() =~= a.drop_last().remove(i)); assert(a.remove(i).last() == a.last()); }
}
// the position that w sends to the last index
pub proof fn perm_last(w: Seq<int>, n: int) -> (i: int)
    requires is_perm(w, n), n > 0 ensures 0 <= i < n, w[i] == n - 1
{
    vstd::set_lib::lemma_int_range(0, n);
    assert(w.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by { if i < j { assert(w[i] != w[j]); } else { assert(w[j] != w[i]); } } }
    w.unique_seq_to_set();
    assert(w.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|x: int| w.to_set().contains(x) implies 0 <= x < n by { let k = w.index_of(x); assert(0 <= w[k] < n); } }
    vstd::set_lib::lemma_subset_equality(w.to_set(), vstd::set_lib::set_int_range(0, n));
    assert(w.to_set().contains(n - 1)); w.index_of(n - 1)
}
pub proof fn ssum_perm(a: Seq<int>, w: Seq<int>, b: Seq<int>)
    requires is_perm(w, a.len() as int), b.len() == a.len(), forall|t: int| 0 <= t < a.len() ==> b[t] == a[#[trigger] w[t]]
    ensures ssum(b) == ssum(a)
    decreases a.len()
{
    let n = a.len() as int;
    if n > 0 {
        let i = perm_last(w, n); let v = w.remove(i); let c = b.remove(i); let a1 = a.drop_last();
        assert forall|t: int| 0 <= t < n - 1 implies 0 <= #[trigger] v[t] < n - 1 && c[t] == a1[v[t]] by { let q = if t < i { t } else { t + 1 }; assert(v[t] == w[q] && c[t] == b[q]); assert(w[q] != w[i]) by { if q < i { assert(w[q] != w[i]); } else { assert(w[i] != w[q]); } } }
        assert forall|t: int, u: int| 0 <= t < u < n - 1 implies #[trigger] v[t] != #[trigger] v[u] by { let q = if t < i { t } else { t + 1 }; let r = if u < i { u } else { u + 1 }; assert(v[t] == w[q] && v[u] == w[r]); assert(w[q] != w[r]); }
        ssum_perm(a1, v, c); ssum_remove(b, i); assert(b[i] == a[w[i]]);
    }
}
// the contribution of dropping the k-th and then the j-th vertex to the coefficient of the cell e
pub open spec fn dterm(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, k: int, j: int) -> int { if M[s.remove(s.len() - 1 - k).remove(s.len() - 2 - j)] == e { sg(k) * sg(j) } else { 0 } }
pub open spec fn drow(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, k: int, n: int) -> int decreases n { if n <= 0 { 0 } else { drow(M, s, e, k, n - 1) + dterm(M, s, e, k, n - 1) } }
pub open spec fn dcol(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, j: int, m: int) -> int decreases m { if m <= 0 { 0 } else { dcol(M, s, e, j, m - 1) + dterm(M, s, e, m - 1, j) } }
pub open spec fn dtot(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, m: int, n: int) -> int decreases m { if m <= 0 { 0 } else { dtot(M, s, e, m - 1, n) + drow(M, s, e, m - 1, n) } }
pub proof fn dterm_cancel(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, k: int, j: int)
    requires 0 <= k <= j < s.len() - 1 ensures dterm(M, s, e, k, j) + dterm(M, s, e, j + 1, k) == 0
{
    let n = s.len(); let a = n - 1 - k; let b = n - 2 - j;
    assert(s.remove(a).remove(b) =~= s.remove(b).remove(a - 1));
    assert(sg(j + 1) == -sg(j)); assert(sg(k) * sg(j) + sg(j + 1) * sg(k) == 0) by (nonlinear_arith) requires sg(j + 1) == -sg(j);
}
pub proof fn dtot_col(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, m: int, n: int)
    requires 0 <= m, 0 <= n ensures dtot(M, s, e, m, n + 1) == dtot(M, s, e, m, n) + dcol(M, s, e, n, m)
    decreases m
{ if m > 0 { dtot_col(M, s, e, m - 1, n); } }
pub proof fn col_row(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, n: int, m: int)
    requires 0 <= m <= n + 1, n < s.len() - 1, 0 <= n ensures dcol(M, s, e, n, m) + drow(M, s, e, n + 1, m) == 0
    decreases m
{ if m > 0 { col_row(M, s, e, n, m - 1); dterm_cancel(M, s, e, m - 1, n); } }
pub proof fn dtot_zero(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, n: int)
    requires 0 <= n < s.len() ensures dtot(M, s, e, n + 1, n) == 0
    decreases n
{
    if n == 0 { assert(dtot(M, s, e, 1, 0) == dtot(M, s, e, 0, 0) + drow(M, s, e, 0, 0)); }
    else { dtot_zero(M, s, e, n - 1); dtot_col(M, s, e, n, n - 1); col_row(M, s, e, n - 1, n); }
}
// the faces and signs of cell i in dimension d; what cell f contributes to e; the coefficient of e in the boundary of the boundary
pub open spec fn bf(X: Spx, d: int, i: int) -> Seq<usize> { blk(X.faces@[d - 1]@, d + 1, i) }
pub open spec fn bc(X: Spx, d: int, i: int) -> Seq<i32> { blk(X.coeff@[d - 1]@, d + 1, i) }
pub open spec fn bd_at(X: Spx, d: int, f: int, e: int) -> Seq<int> { Seq::new((d + 1) as nat, |u: int| if bf(X, d, f)[u] == e { bc(X, d, f)[u] as int } else { 0 }) }
pub open spec fn dd_at(X: Spx, d: int, i: int, e: int) -> Seq<int> { Seq::new((d + 1) as nat, |t: int| bc(X, d, i)[t] * ssum(bd_at(X, d - 1, bf(X, d, i)[t] as int, e))) }
pub open spec fn face_terms(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int) -> Seq<int> { Seq::new(s.len(), |j: int| if fi(M, s, j) == e { sg(j) as int } else { 0 }) }
pub proof fn row_terms(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, k: int, n: int)
    requires 0 <= k < s.len(), 0 <= n <= s.len() - 1
    ensures drow(M, s, e, k, n) == sg(k) * ssum(face_terms(M, s.remove(s.len() - 1 - k), e).take(n))
    decreases n
{
    let z = face_terms(M, s.remove(s.len() - 1 - k), e);
    if n > 0 {
        row_terms(M, s, e, k, n - 1); assert(z.take(n).drop_last() =~= z.take(n - 1)); let x = ssum(z.take(n - 1)); let y = z[n - 1];
        assert(sg(k) * (x + y) == sg(k) * x + sg(k) * y) by (nonlinear_arith);
        if y == 0 { assert(sg(k) * y == 0) by (nonlinear_arith) requires y == 0; }
    } else { assert(ssum(z.take(0)) == 0); assert(sg(k) * 0 == 0) by (nonlinear_arith); }
}
pub proof fn tot_terms(M: Map<Seq<usize>, usize>, s: Seq<usize>, e: int, a: Seq<int>, m: int)
    requires 0 <= m <= a.len(), a.len() == s.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] == drow(M, s, e, k, s.len() - 1)
    ensures ssum(a.take(m)) == dtot(M, s, e, m, s.len() - 1)
    decreases m
{ if m > 0 { tot_terms(M, s, e, a, m - 1); assert(a.take(m).drop_last() =~= a.take(m - 1)); } }
// the boundary of a cell, whatever the order it is stored in
pub proof fn bd_terms(X: Spx, d: int, f: int, e: int)
    requires spx_wf(X), 0 < d < X._ncells@.len(), 0 <= f < nc(X, d)
    ensures ssum(bd_at(X, d, f, e)) == ssum(face_terms(X.spx_to_idx@, cell(X, d, f), e)), cell(X, d, f).len() == d + 1, fin(X.spx_to_idx@, cell(X, d, f))
{
    let M = X.spx_to_idx@; let s = cell(X, d, f); assert(len_at(X, d)); assert(cell_ok(X, d, f)); blk_bounds(f, nc(X, d), d + 1);
    let w = choose|w: Seq<int>| #[trigger] bd_by(M, s, bf(X, d, f), bc(X, d, f), w);
    ssum_perm(face_terms(M, s, e), w, bd_at(X, d, f, e));
}
pub proof fn boundary_boundary(X: Spx, d: int, i: int, e: int)
    requires spx_wf(X), 2 <= d < X._ncells@.len(), 0 <= i < nc(X, d)
    ensures ssum(dd_at(X, d, i, e)) == 0
{
    let M = X.spx_to_idx@; let s = cell(X, d, i); bd_terms(X, d, i, e); assert(cell_ok(X, d, i));
    let w = choose|w: Seq<int>| #[trigger] bd_by(M, s, bf(X, d, i), bc(X, d, i), w);
    let a = Seq::new(s.len(), |k: int| sg(k) * ssum(face_terms(M, s.remove(s.len() - 1 - k), e)));
    assert forall|k: int| 0 <= k < s.len() implies ssum(bd_at(X, d - 1, #[trigger] fi(M, s, k) as int, e)) == ssum(face_terms(M, s.remove(s.len() - 1 - k), e)) by {
        let f = s.remove(s.len() - 1 - k); assert(M.dom().contains(f)); assert(at_idx(X, f)); bd_terms(X, d - 1, M[f] as int, e);
    }
    assert forall|t: int| 0 <= t < s.len() implies dd_at(X, d, i, e)[t] == a[#[trigger] w[t]] by { assert(bf(X, d, i)[t] == fi(M, s, w[t])); assert(0 <= w[t] < s.len()); }
    ssum_perm(a, w, dd_at(X, d, i, e));
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] == drow(M, s, e, k, s.len() - 1) by { row_terms(M, s, e, k, s.len() - 1); let z = face_terms(M, s.remove(s.len() - 1 - k), e); assert(z.take(s.len() - 1) =~= z); }
    tot_terms(M, s, e, a, s.len() as int); assert(a.take(s.len() as int) =~= a);
    dtot_zero(M, s, e, s.len() - 1);
}
@end
@fn bats::simplicial_union(Spx, Spx) as spx_union
@prop P16
@requires
  spx_wf(*X), spx_wf(*Y), norm(*X), norm(*Y), X._ncells@.len() > 0, Y._ncells@.len() > 0
@ensures
  spx_wf(ret), norm(ret), forall|s: Seq<usize>| #[trigger] ret@.contains(s) <==> (X@.contains(s) || Y@.contains(s)),
@at entry
  proof { vec_max(X._ncells); vec_max(Y._ncells); }
  let ghost mut Z0 = *X; let ghost mut c: Seq<usize> = Seq::empty();
@at loop 0 before
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> upto(*X, s, 0, 0) by { upto_row(*X, 0, s); } }
@loop 0
  invariant k <= X._ncells@.len(), spx_wf(XY), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> upto(*X, s, k as int, 0),
  decreases X._ncells@.len() - k
@loop 1
  invariant k < X._ncells@.len(), nk <= nc(*X, k as int), spx_wf(XY), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> upto(*X, s, k as int, nk as int),
  decreases nc(*X, k as int) - nk
@at loop 1 begin
  proof { Z0 = XY; c = cell(*X, k as int, nk as int); upto_step(*X, k as int, nk as int, c); assert(incr(c)); }
@at after spx_add_safe 0
  proof { spx_closed(*X, c); assert forall|t: int| 0 <= t < c.len() && c.len() >= 2 implies Z0@.contains(#[trigger] c.remove(t)) by { assert(X.spx_to_idx@.dom().contains(c.remove(t))); assert(upto(*X, c.remove(t), k as int, nk as int)); }
    add_next(*X, Z0, XY, k as int, nk as int, c, r_spx_add_safe_0);
    assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> upto(*X, s, k as int, nk + 1) by { upto_step(*X, k as int, nk as int, s); assert(Z0@.contains(s) <==> upto(*X, s, k as int, nk as int)); } }
@at loop 0 end
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> upto(*X, s, k + 1, 0) by { upto_row(*X, k as int, s); } }
@at loop 2 before
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || upto(*Y, s, 0, 0)) by { upto_row(*Y, 0, s); upto_row(*X, X._ncells@.len() as int, s); } }
@loop 2
  invariant k <= Y._ncells@.len(), spx_wf(XY), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || upto(*Y, s, k as int, 0)),
  decreases Y._ncells@.len() - k
@loop 3
  invariant k < Y._ncells@.len(), nk <= nc(*Y, k as int), spx_wf(XY), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || upto(*Y, s, k as int, nk as int)),
  decreases nc(*Y, k as int) - nk
@at loop 3 begin
  proof { Z0 = XY; c = cell(*Y, k as int, nk as int); upto_step(*Y, k as int, nk as int, c); assert(incr(c)); }
@at after spx_add_safe 1
  proof { spx_closed(*Y, c); assert forall|t: int| 0 <= t < c.len() && c.len() >= 2 implies Z0@.contains(#[trigger] c.remove(t)) by { assert(Y.spx_to_idx@.dom().contains(c.remove(t))); assert(upto(*Y, c.remove(t), k as int, nk as int)); }
    add_next(*Y, Z0, XY, k as int, nk as int, c, r_spx_add_safe_1);
    assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || upto(*Y, s, k as int, nk + 1)) by { upto_step(*Y, k as int, nk as int, s); assert(Z0@.contains(s) <==> (X@.contains(s) || upto(*Y, s, k as int, nk as int))); } }
@at loop 2 end
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || upto(*Y, s, k + 1, 0)) by { upto_row(*Y, k as int, s); } }
@at before return 0
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) || Y@.contains(s)) by { upto_row(*Y, Y._ncells@.len() as int, s); } }
@fn bats::intersection(Spx, Spx) as spx_inter
@prop P16 P11
@requires
  spx_wf(*X), spx_wf(*Y), X._ncells@.len() > 0
@ensures
  spx_wf(ret), forall|s: Seq<usize>| #[trigger] ret@.contains(s) <==> (X@.contains(s) && Y@.contains(s)),
@at entry
  proof { vec_max(X._ncells); }
  let ghost mut Z0 = *X; let ghost mut c: Seq<usize> = Seq::empty();
@at loop 0 before
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (upto(*X, s, 0, 0) && Y@.contains(s)) by { upto_row(*X, 0, s); } }
@loop 0
  invariant k <= X._ncells@.len(), spx_wf(XY), XY._ncells@.len() == X._ncells@.len(), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (upto(*X, s, k as int, 0) && Y@.contains(s)),
  decreases X._ncells@.len() - k
@loop 1
  invariant k < X._ncells@.len(), nk <= nc(*X, k as int), spx_wf(XY), XY._ncells@.len() == X._ncells@.len(), forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (upto(*X, s, k as int, nk as int) && Y@.contains(s)),
  decreases nc(*X, k as int) - nk
@at loop 1 begin
  proof { Z0 = XY; c = cell(*X, k as int, nk as int); upto_step(*X, k as int, nk as int, c); spx_closed(*X, c); if Y@.contains(c) { spx_closed(*Y, c); } assert(!XY@.contains(c)); assert(c.len() == k + 1); }
@at after spx_add_unsafe 0
  proof { assert forall|t: int| 0 <= t < c.len() && c.len() >= 2 implies Z0@.contains(#[trigger] c.remove(t)) by { assert(Y.spx_to_idx@.dom().contains(c.remove(t))); assert(X.spx_to_idx@.dom().contains(c.remove(t))); assert(upto(*X, c.remove(t), k as int, nk as int)); }
    add_next(*X, Z0, XY, k as int, nk as int, c, r_spx_add_unsafe_0); }
@at loop 1 end
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (upto(*X, s, k as int, nk + 1) && Y@.contains(s)) by { upto_step(*X, k as int, nk as int, s); assert(Z0@.contains(s) <==> (upto(*X, s, k as int, nk as int) && Y@.contains(s))); } }
@at loop 0 end
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (upto(*X, s, k + 1, 0) && Y@.contains(s)) by { upto_row(*X, k as int, s); } }
@at before return 0
  proof { assert forall|s: Seq<usize>| #[trigger] XY@.contains(s) <==> (X@.contains(s) && Y@.contains(s)) by { upto_row(*X, X._ncells@.len() as int, s); } }
@fn Spx::get_simplices(usize) const as spx_gets
@prop P16
@requires
  spx_wf(*this), dim < this._ncells@.len()
@ensures
  ret@.len() == nc(*this, dim as int), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == cell(*this, dim as int, i),
@at entry
  proof { assert(len_at(*this, dim as int)); vec_max(this.spx@[dim as int]); vec_max(this._ncells); }
  let ghost W = dim + 1; let ghost v = this.spx@[dim as int]@;
@at loop 0 before
  proof { assert(0 * W == 0) by (nonlinear_arith); assert(s@ =~= v.subrange(0, 0)); }
@loop 0
  invariant ix0 <= v.len(), s@.len() < W, ix0 == simplices@.len() * W + s@.len(), s@ == v.subrange(simplices@.len() * W, ix0 as int), forall|i: int| 0 <= i < simplices@.len() ==> (#[trigger] simplices@[i])@ == blk(v, W, i),
  decreases v.len() - ix0
@at if 0 then begin
  let ghost q = simplices@.len() as int;
  proof { assert(s@ =~= v.subrange(q * W, ix0 + 1)); assert((q + 1) * W == q * W + W) by (nonlinear_arith); }
@at loop 0 end
  proof { assert(s@ =~= v.subrange(simplices@.len() * W, ix0 + 1)); }
@at before return 0
  proof { let n = nc(*this, dim as int); let q = simplices@.len() as int; assert(q == n) by (nonlinear_arith) requires n * W == q * W + s@.len(), s@.len() < W, W > 0, n >= 0, q >= 0; }
@fn Spx::get_indices(Spx, usize) const as spx_inds
@prop P16 P11
@requires
  spx_wf(*A), A._ncells@.len() > 0
@ensures
  ret@.len() == nc(*A, dim as int), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == if this@.contains(cell(*A, dim as int, i)) { this.spx_to_idx@[cell(*A, dim as int, i)] } else { NO_IND },
@loop 0
  invariant i <= nc(*A, dim as int), inds@.len() == nc(*A, dim as int), forall|q: int| 0 <= q < i ==> #[trigger] inds@[q] == if this@.contains(cell(*A, dim as int, q)) { this.spx_to_idx@[cell(*A, dim as int, q)] } else { NO_IND },
  decreases nc(*A, dim as int) - i
@at loop 0 begin
  proof { upto_step(*A, dim as int, i as int, cell(*A, dim as int, i as int)); }
@fn Filt::update_filtration(Vec<Vec<i32>>) as filt_upd
@prop P18
@requires
  filt_wf(*old(this)), vals2@.len() == old(this).val@.len(), forall|d: int| 0 <= d < vals2@.len() ==> (#[trigger] vals2@[d])@.len() == old(this).val@[d]@.len()
@ensures
  filt_wf(*final(this)), final(this).X == old(this).X, final(this).val == *vals2,
@at before return 0
  proof { assert forall|d: int| #[trigger] vl(*this, d) == nc(this.X, d) by { assert(vl(*old(this), d) == nc(old(this).X, d)); if 0 <= d < vals2@.len() { assert(vals2@[d]@.len() == old(this).val@[d]@.len()); } } }
@fn Filt::sortperm() const as filt_sp
@prop P18
@ensures
  ret@.len() == this.val@.len(), forall|k: int| 0 <= k < ret@.len() ==> sorts(#[trigger] ret@[k]@, this.val@[k]@),
@fn Filt::new(Spx, Vec<Vec<i32>>) as filt_new2
@prop P18
@ensures
  ret.X == *C, ret.val == *vals, (spx_wf(*C) && forall|d: int| #[trigger] vl(ret, d) == nc(*C, d)) ==> filt_wf(ret),
