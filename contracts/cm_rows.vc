@unit la
@uses util sparse_vector sv_access sv_arith sv_edit sv_edit2 sv_insrows cm_basic cm_add cm_cols cm_pred
@rust
// canonical vectors with the same values are the same sequence
pub proof fn sc_uniq<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>)
    requires ssorted(s), snz(s), ssorted(t), snz(t), sameval(s, t)
    ensures s =~= t
    decreases s.len() + t.len()
{
    ssorted_sdist(s); ssorted_sdist(t);
    if s.len() == 0 && t.len() > 0 { sval_at(t, t.len() - 1); assert(t[t.len() - 1].val != F::szero()); assert(sval(s, t[t.len() - 1].ind as int) == sval(t, t[t.len() - 1].ind as int)); assert(false); }
    if t.len() == 0 && s.len() > 0 { sval_at(s, s.len() - 1); assert(s[s.len() - 1].val != F::szero()); assert(sval(s, s[s.len() - 1].ind as int) == sval(t, s[s.len() - 1].ind as int)); assert(false); }
    if s.len() > 0 && t.len() > 0 {
        let a = s[s.len() - 1]; let b = t[t.len() - 1]; sval_at(s, s.len() - 1); sval_at(t, t.len() - 1); assert(a.val != F::szero() && b.val != F::szero());
        if a.ind > b.ind { sval_absent_above(t, a.ind as int); assert(sval(s, a.ind as int) == sval(t, a.ind as int)); assert(false); }
        if b.ind > a.ind { sval_absent_above(s, b.ind as int); assert(sval(s, b.ind as int) == sval(t, b.ind as int)); assert(false); }
        assert(sval(s, a.ind as int) == sval(t, a.ind as int)); assert(a == b);
        let s1 = s.drop_last(); let t1 = t.drop_last();
        assert(ssorted(s1)) by { assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (#[trigger] s1[i]).ind < (#[trigger] s1[j]).ind by { assert(s[i].ind < s[j].ind); } }
        assert(ssorted(t1)) by { assert forall|i: int, j: int| 0 <= i < j < t1.len() implies (#[trigger] t1[i]).ind < (#[trigger] t1[j]).ind by { assert(t[i].ind < t[j].ind); } }
        assert(snz(s1)) by { assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).val != F::szero() by { assert(s[i].val != F::szero()); } }
        assert(snz(t1)) by { assert forall|i: int| 0 <= i < t1.len() implies (#[trigger] t1[i]).val != F::szero() by { assert(t[i].val != F::szero()); } }
        assert forall|i: int| #[trigger] sval(s1, i) == sval(t1, i) by {
            if i == a.ind { assert forall|k: int| 0 <= k < s1.len() implies (#[trigger] s1[k]).ind as int != i by { assert(s[k].ind < s[s.len() - 1].ind); } sval_absent(s1, i); assert forall|k: int| 0 <= k < t1.len() implies (#[trigger] t1[k]).ind as int != i by { assert(t[k].ind < t[t.len() - 1].ind); } sval_absent(t1, i); }
            else { assert(sval(s, i) == sval(t, i)); } }
        sc_uniq(s1, t1); assert(s =~= s1.push(a)); assert(t =~= t1.push(b));
    }
}
pub open spec fn samemat<F: Field>(A: CM<F>, B: CM<F>) -> bool { A.m == B.m && A.n == B.n && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] cmv(A, i, j) == cmv(B, i, j) }
pub proof fn col_same<F: Field>(A: CM<F>, B: CM<F>, j: int)
    requires cmwf(A), cmwf(B), A.m == B.m, A.n == B.n, 0 <= j < A.n
    ensures A.col@[j].indval@ =~= B.col@[j].indval@ <==> forall|i: int| 0 <= i < A.m ==> #[trigger] cmv(A, i, j) == cmv(B, i, j)
{
    let s = A.col@[j].indval@; let t = B.col@[j].indval@; assert(sc(s, A.m as int)); assert(sc(t, B.m as int)); sval_out(s, A.m as int); sval_out(t, A.m as int);
    if forall|i: int| 0 <= i < A.m ==> #[trigger] cmv(A, i, j) == cmv(B, i, j) { assert forall|i: int| #[trigger] sval(s, i) == sval(t, i) by { if 0 <= i < A.m { assert(cmv(A, i, j) == cmv(B, i, j)); } else { assert(sval(t, i) == F::szero()); } } sc_uniq(s, t); }
}
@end
@fn CM<F>::operator==(CM<F>) const as cm_eq
@prop P05 P06
@requires
  cmwf(*this), cmwf(*other)
@ensures
  ret <==> samemat(*this, *other)
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), cmwf(*other), this.m == other.m, this.n == other.n, forall|i: int, k: int| 0 <= i < this.m && 0 <= k < j ==> #[trigger] cmv(*this, i, k) == cmv(*other, i, k)
  decreases this.n - j
@at loop 0 begin
  proof { col_same(*this, *other, j as int); }
@fn CM<F>::to_row_array() const as cm_to_row_array
@prop P06
@requires
  cmwf(*this)
@ensures
  ret@.len() == this.m, forall|i: int| 0 <= i < this.m ==> (#[trigger] ret@[i])@.len() == this.n, forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n ==> #[trigger] ret@[i]@[j] == cmv(*this, i, j)
@loop 0
  invariant 0 <= i <= this.m, cmwf(*this), A@.len() == this.m, forall|k: int| i <= k < this.m ==> (#[trigger] A@[k])@.len() == 0, forall|k: int| 0 <= k < i ==> (#[trigger] A@[k])@.len() == this.n, forall|k: int, j: int| 0 <= k < i && 0 <= j < this.n ==> #[trigger] A@[k]@[j] == cmv(*this, k, j)
  decreases this.m - i
@at loop 0 begin
  let ghost A0 = A@;
@loop 1
  invariant 0 <= j <= this.n, 0 <= i < this.m, cmwf(*this), A@.len() == this.m, A@[i as int]@.len() == j, forall|l: int| 0 <= l < j ==> #[trigger] A@[i as int]@[l] == cmv(*this, i as int, l), forall|k: int| 0 <= k < this.m && k != i ==> (#[trigger] A@[k]) == A0[k]
  decreases this.n - j
@fn CM<F>::block(usize, usize, usize, usize) const as cm_block
@prop P06
@requires
  cmwf(*this), i0 <= i1, j0 <= j1 <= this.n
@ensures
  cmwf(ret), ret.m == i1 - i0, ret.n == j1 - j0, forall|i: int, j: int| 0 <= i < i1 - i0 && 0 <= j < j1 - j0 ==> #[trigger] cmv(ret, i, j) == cmv(*this, i + i0, j + j0)
@loop 0
  invariant j0 <= j <= j1, j1 <= this.n, i0 <= i1, cmwf(*this), newcol@.len() == j - j0, forall|k: int| 0 <= k < j - j0 ==> sc((#[trigger] newcol@[k]).indval@, i1 - i0), forall|i: int, k: int| 0 <= i < i1 - i0 && 0 <= k < j - j0 ==> #[trigger] colv(newcol@, i, k) == cmv(*this, i + i0, k + j0)
  decreases j1 - j
@at loop 0 begin
  let ghost nc0 = newcol@;
  proof { assert(sc(this.col@[j as int].indval@, this.m as int)); }
@at loop 0 end
  proof { let q = j - j0; assert forall|i: int, k: int| 0 <= i < i1 - i0 && 0 <= k < q + 1 implies #[trigger] colv(newcol@, i, k) == cmv(*this, i + i0, k + j0) by { if k < q { assert(colv(nc0, i, k) == cmv(*this, i + i0, k + j0)); } else { assert(sval(newcol@[k].indval@, i) == sval(this.col@[j as int].indval@, i + i0)); } } }
@fn CM<F>::submatrix(Vec<usize>, Vec<usize>) const as cm_submatrix
@prop P06
@requires
  cmwf(*this), rind@.len() < usize::MAX, inj(rind@), forall|k: int| 0 <= k < rind@.len() ==> #[trigger] rind@[k] < this.m, forall|k: int| 0 <= k < cind@.len() ==> #[trigger] cind@[k] < this.n
@ensures
  cmwf(ret), ret.m == rind@.len(), ret.n == cind@.len(), forall|i: int, j: int| 0 <= i < rind@.len() && 0 <= j < cind@.len() ==> #[trigger] cmv(ret, i, j) == cmv(*this, rind@[i] as int, cind@[j] as int)
@at before partial_perm 0
  proof { assert(distinct(rind@)) by { assert forall|i: int, j: int| 0 <= i < j < rind@.len() implies #[trigger] rind@[i] != #[trigger] rind@[j] by { } } }
@at after partial_perm 0
  proof { let w = r_partial_perm_0@; assert forall|r: int| 0 <= r < this.m && #[trigger] w[r] != NO_IND implies w[r] < rind@.len() && rind@[w[r] as int] == r by { if !rind@.contains(r as usize) { assert(w[r] == NO_IND); } else { let l = choose|l: int| 0 <= l < rind@.len() && rind@[l] == r as usize; assert(w[rind@[l] as int] == l); } } }
@loop 0
  invariant 0 <= ix0 <= cind@.len(), newcol@.len() == ix0, cmwf(*this), pord(prow@, rind@, this.m as int), forall|k: int| 0 <= k < cind@.len() ==> #[trigger] cind@[k] < this.n,
    forall|k: int| 0 <= k < ix0 ==> sc((#[trigger] newcol@[k]).indval@, rind@.len() as int), forall|i: int, k: int| 0 <= i < rind@.len() && 0 <= k < ix0 ==> #[trigger] colv(newcol@, i, k) == cmv(*this, rind@[i] as int, cind@[k] as int)
  decreases cind@.len() - ix0
@at loop 0 begin
  let ghost nc0 = newcol@; let ghost jj = cind@[ix0 as int] as int;
  proof { assert(sc(this.col@[jj].indval@, this.m as int)); assert forall|i: int, j: int| 0 <= i < j < prow@.len() && prow@[i] != NO_IND && prow@[j] != NO_IND implies #[trigger] prow@[i] != #[trigger] prow@[j] by { } }
@at loop 0 end
  proof { let q = ix0 as int; let x = newcol@[q].indval@; assert(sbelow(x, rind@.len() as int));
    assert forall|i: int, k: int| 0 <= i < rind@.len() && 0 <= k < q + 1 implies #[trigger] colv(newcol@, i, k) == cmv(*this, rind@[i] as int, cind@[k] as int) by { if k < q { assert(colv(nc0, i, k) == cmv(*this, rind@[i] as int, cind@[k] as int)); } else { let r = rind@[i] as int; assert(prow@[r] == i); assert(sval(x, prow@[r] as int) == sval(this.col@[jj].indval@, r)); } } }
@fn direct_sum(CM<F>, CM<F>) as cm_direct_sum
@prop P06
@requires
  cmwf(*A), cmwf(*B), A.m + B.m <= usize::MAX, A.n + B.n <= usize::MAX
@ensures
  cmwf(ret), ret.m == A.m + B.m, ret.n == A.n + B.n, forall|i: int, j: int| 0 <= i < ret.m && 0 <= j < ret.n ==> #[trigger] cmv(ret, i, j) == (if i < A.m && j < A.n { cmv(*A, i, j) } else if i >= A.m && j >= A.n { cmv(*B, i - A.m, j - A.n) } else { F::szero() })
@loop 0
  invariant 0 <= j <= An, An == A.n, Am == A.m, Bn == B.n, Bm == B.m, cmwf(*A), cmwf(*B), newcol@.len() == j, forall|k: int| 0 <= k < j ==> #[trigger] newcol@[k] == A.col@[k]
  decreases An - j
@loop 1
  invariant 0 <= j <= Bn, An == A.n, Am == A.m, Bn == B.n, Bm == B.m, A.m + B.m <= usize::MAX, cmwf(*A), cmwf(*B), newcol@.len() == An + j, forall|k: int| 0 <= k < An ==> #[trigger] newcol@[k] == A.col@[k],
    forall|k: int| An <= k < An + j ==> sc((#[trigger] newcol@[k]).indval@, A.m + B.m), forall|i: int, k: int| An <= k < An + j ==> #[trigger] colv(newcol@, i, k) == cmv(*B, i - A.m, k - A.n)
  decreases Bn - j
@at loop 1 begin
  let ghost nc0 = newcol@;
  proof { let x = B.col@[j as int].indval@; assert(sc(x, B.m as int)); sval_out(x, B.m as int); assert forall|k: int| 0 <= k < x.len() implies (#[trigger] x[k]).ind + Am <= usize::MAX by { assert(x[k].ind < B.m); } }
@at loop 1 end
  proof { let q = An + j; let x = newcol@[q].indval@; let b = B.col@[j as int].indval@; 
    assert forall|i: int| i >= A.m + B.m implies #[trigger] sval(x, i) == F::szero() by { assert(sval(b, i - A.m) == F::szero()); } sc_of(x, A.m + B.m);
    assert forall|i: int, k: int| An <= k < q + 1 implies #[trigger] colv(newcol@, i, k) == cmv(*B, i - A.m, k - A.n) by { if k < q { assert(colv(nc0, i, k) == cmv(*B, i - A.m, k - A.n)); } else { assert(sval(x, i) == sval(b, i - A.m)); } } }
@at loop 1 after
  proof { assert forall|k: int| 0 <= k < A.n + B.n implies sc((#[trigger] newcol@[k]).indval@, A.m + B.m) by { if k < A.n { assert(newcol@[k] == A.col@[k]); assert(sc(A.col@[k].indval@, A.m as int)); sc_mono(A.col@[k].indval@, A.m as int, A.m + B.m); } }
    assert forall|i: int, j: int| 0 <= i < A.m + B.m && 0 <= j < A.n + B.n implies #[trigger] colv(newcol@, i, j) == (if i < A.m && j < A.n { cmv(*A, i, j) } else if i >= A.m && j >= A.n { cmv(*B, i - A.m, j - A.n) } else { F::szero() }) by {
      if j < A.n { assert(newcol@[j] == A.col@[j]); assert(sc(A.col@[j].indval@, A.m as int)); sval_out(A.col@[j].indval@, A.m as int); } else { assert(sc(B.col@[j - A.n].indval@, B.m as int)); sval_out(B.col@[j - A.n].indval@, B.m as int); } } }
@rust
pub open spec fn pord(prow: Seq<usize>, rind: Seq<usize>, m: int) -> bool { prow.len() == m && rind.len() < usize::MAX && (forall|l: int| 0 <= l < rind.len() ==> #[trigger] rind[l] < m && prow[rind[l] as int] == l) && forall|r: int| 0 <= r < m && (#[trigger] prow[r]) != NO_IND ==> prow[r] < rind.len() && rind[prow[r] as int] == r }
@end
@fn CM<F>::erase_row_unsafe() as cm_erase_row_unsafe
@prop P06
@requires
  old(this).m > 0
@ensures
  final(this).m == old(this).m - 1, final(this).n == old(this).n, final(this).col@ == old(this).col@
@fn CM<F>::erase_final_rows_unsafe(usize) as cm_erase_final_rows_unsafe
@prop P06
@requires
  n_delete_rows <= old(this).m
@ensures
  final(this).m == old(this).m - n_delete_rows, final(this).n == old(this).n, final(this).col@ == old(this).col@
@fn CM<F>::append_row(Vec<F>) as cm_append_row_v
@prop P06
@requires
  cmwf(*old(this)), row@.len() == old(this).n, old(this).m < usize::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l == old(this).m { row@[k] } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m + 1, this.n == A.n, this.col@.len() == A.n, cmwf(A), row@.len() == A.n, A.m < usize::MAX,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m + 1),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l == A.m { row@[k] } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost G0 = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@); pushnz_sc(A.col@[j as int].indval@, A.m, row@[j as int]); }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= G0.col@.update(x, this.col@[x])); assert(this.col@[x].indval@ == pushnz(A.col@[x].indval@, A.m, row@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l == A.m { row@[k] } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m + 1);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m + 1) by { if k < x { assert(this.col@[k] == G0.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l == A.m { row@[k] } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == G0.col@[k]); assert(colv(G0.col@, l, k) == if l == A.m { row@[k] } else { cmv(A, l, k) }); } } }
@fn CM<F>::append_sparse_row(SV<F>) as cm_append_sparse_row
@prop P06
@requires
  cmwf(*old(this)), sc(new_row.indval@, old(this).n as int), old(this).m < usize::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l == old(this).m { sval(new_row.indval@, k) } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this; let ghost x = new_row.indval@;
  proof { assert(x.take(0).len() == 0); }
@loop 0
  invariant this.m == A.m + 1, this.n == A.n, this.col@.len() == A.n, cmwf(A), x == new_row.indval@, sc(x, A.n as int), 0 <= it <= x.len(),
    forall|k: int| 0 <= k < A.n ==> (#[trigger] this.col@[k]).indval@ == pushnz(A.col@[k].indval@, A.m, sval(x.take(it as int), k))
  decreases x.len() - it
@at loop 0 begin
  let ghost t1 = this.col@;
  proof { sval_absent_prefix(x, it as int); sval_take(x, it as int); assert(x[it as int].val != F::szero()); }
@at loop 0 end
  proof { let r0 = x[it as int].ind as int; assert(this.col@ =~= t1.update(r0, this.col@[r0]));
    assert forall|r: int| 0 <= r < A.n implies (#[trigger] this.col@[r]).indval@ == pushnz(A.col@[r].indval@, A.m, sval(x.take(it + 1), r)) by { if r != r0 { assert(this.col@[r] == t1[r]); } else { assert(sval(x.take(it + 1), r) == x[it as int].val); assert(t1[r].indval@ == A.col@[r].indval@); } } }
@at exit
  proof { assert(x.take(x.len() as int) =~= x); 
    assert forall|k: int| 0 <= k < A.n implies sc((#[trigger] this.col@[k]).indval@, A.m + 1) by { assert(sc(A.col@[k].indval@, A.m as int)); pushnz_sc(A.col@[k].indval@, A.m, sval(x, k)); }
    assert forall|l: int, k: int| 0 <= k < A.n implies #[trigger] cmv(*this, l, k) == (if l == A.m { sval(x, k) } else { cmv(A, l, k) }) by { assert(sc(A.col@[k].indval@, A.m as int)); pushnz_sc(A.col@[k].indval@, A.m, sval(x, k)); assert(this.col@[k].indval@ == pushnz(A.col@[k].indval@, A.m, sval(x, k))); } }
@fn CM<F>::insert_row(usize, Vec<F>) as cm_insert_row
@prop P06
@opt rlimit=40
@requires
  cmwf(*old(this)), row@.len() == old(this).n, ind <= old(this).m, old(this).m < usize::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= l < final(this).m && 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l < ind { cmv(*old(this), l, k) } else if l == ind { row@[k] } else { cmv(*old(this), l - 1, k) }
@at entry
  let ghost A = *this; let ghost m1 = this.m + 1;
@loop 0
  invariant 0 <= i <= this.m, rowperm@.len() == i, this.m == m1, ind < m1, forall|k: int| 0 <= k < i ==> #[trigger] rowperm@[k] == (if k == m1 - 1 { ind as int } else if k >= ind { k + 1 } else { k })
  decreases this.m - i
@at before cm_permute_rows 0
  proof { assert(isperm_usize(rowperm@)) by { assert forall|a: int, b: int| 0 <= a < b < m1 implies #[trigger] rowperm@[a] != #[trigger] rowperm@[b] by { } } }
  let ghost M1 = *this;
@at exit
  proof { assert forall|l: int, k: int| 0 <= l < m1 && 0 <= k < A.n implies #[trigger] cmv(*this, l, k) == (if l < ind { cmv(A, l, k) } else if l == ind { row@[k] } else { cmv(A, l - 1, k) }) by {
      let s0 = if l == ind { A.m as int } else if l < ind { l } else { l - 1 }; assert(rowperm@[s0] == l); assert(cmv(*this, rowperm@[s0] as int, k) == cmv(M1, s0, k)); } }
@fn CM<F>::insert_row(usize) as cm_insert_zero_row
@prop P06
@opt rlimit=40
@requires
  cmwf(*old(this)), ind <= old(this).m, old(this).m < usize::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= l < final(this).m && 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l < ind { cmv(*old(this), l, k) } else if l == ind { F::szero() } else { cmv(*old(this), l - 1, k) }
@at entry
  let ghost A = *this; let ghost m1 = this.m + 1;
@loop 0
  invariant 0 <= i <= this.m, rowperm@.len() == i, this.m == m1, ind < m1, forall|k: int| 0 <= k < i ==> #[trigger] rowperm@[k] == (if k == m1 - 1 { ind as int } else if k >= ind { k + 1 } else { k })
  decreases this.m - i
@at before cm_permute_rows 0
  proof { assert(isperm_usize(rowperm@)) by { assert forall|a: int, b: int| 0 <= a < b < m1 implies #[trigger] rowperm@[a] != #[trigger] rowperm@[b] by { } } }
  let ghost M1 = *this;
  proof { assert(forall|l: int, k: int| 0 <= k < A.n ==> #[trigger] cmv(M1, l, k) == if l == A.m { F::szero() } else { cmv(A, l, k) }) by { assert forall|l: int, k: int| 0 <= k < A.n implies #[trigger] cmv(M1, l, k) == (if l == A.m { F::szero() } else { cmv(A, l, k) }) by { assert(sc(A.col@[k].indval@, A.m as int)); sval_out(A.col@[k].indval@, A.m as int); assert(cmv(A, l, k) == sval(A.col@[k].indval@, l)); } }
    assert forall|k: int| 0 <= k < A.n implies sc((#[trigger] this.col@[k]).indval@, m1) by { assert(sc(A.col@[k].indval@, A.m as int) || sc(this.col@[k].indval@, m1)); if this.col@ == A.col@ { sc_mono(A.col@[k].indval@, A.m as int, m1); } } }
@at exit
  proof { assert forall|l: int, k: int| 0 <= l < m1 && 0 <= k < A.n implies #[trigger] cmv(*this, l, k) == (if l < ind { cmv(A, l, k) } else if l == ind { F::szero() } else { cmv(A, l - 1, k) }) by {
      let s0 = if l == ind { A.m as int } else if l < ind { l } else { l - 1 }; assert(rowperm@[s0] == l); assert(cmv(*this, rowperm@[s0] as int, k) == cmv(M1, s0, k)); } }
@fn CM<F>::insert_rows(Vec<usize>) as cm_insert_zero_rows
@prop P06
@requires
  cmwf(*old(this)), strict_usize(r_inds@), old(this).m + r_inds@.len() <= i64::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + r_inds@.len(), final(this).n == old(this).n,
  forall|a: int, j: int| 0 <= a < r_inds@.len() && 0 <= j < old(this).n ==> #[trigger] cmv(*final(this), r_inds@[a] as int, j) == F::szero(),
  forall|c: int, p: int, j: int| #[trigger] insrow_at(r_inds@, c, p) && p >= 0 && 0 <= j < old(this).n ==> #[trigger] cmv(*final(this), p, j) == cmv(*old(this), p - c, j)
@at entry
  let ghost A = *this; let ghost r = r_inds@;
@loop 0
  invariant ninserted <= r.len(), *this == A, r == r_inds@, forall|a: int| 0 <= a < ninserted ==> #[trigger] r[a] == a
  decreases r.len() - ninserted
@loop 1
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), r == r_inds@, ninserted <= r.len(), forall|a: int| 0 <= a < ninserted ==> #[trigger] r[a] == a, strict_usize(r), A.m + r.len() <= i64::MAX,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m + r.len()),
    forall|k: int| 0 <= k < j ==> insrow_col((#[trigger] this.col@[k]).indval@, A.col@[k].indval@, r),
  decreases A.n - j
@at loop 1 begin
  let ghost G0 = *this;
  proof { assert(sc(A.col@[j as int].indval@, A.m as int)); let s0 = A.col@[j as int].indval@; assert forall|k: int| 0 <= k < s0.len() implies (#[trigger] s0[k]).ind < usize::MAX - r.len() by { assert(s0[k].ind < A.m); } }
@at loop 1 end
  proof { let x = j as int; assert(this.col@ =~= G0.col@.update(x, this.col@[x])); assert(sbelow(this.col@[x].indval@, A.m + r.len()));
    assert forall|k: int| 0 <= k < x + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m + r.len()) by { if k < x { assert(this.col@[k] == G0.col@[k]); } }
    assert forall|k: int| 0 <= k < x + 1 implies insrow_col((#[trigger] this.col@[k]).indval@, A.col@[k].indval@, r) by { if k < x { assert(this.col@[k] == G0.col@[k]); } } }
@at exit
  proof { assert forall|a: int, j: int| 0 <= a < r.len() && 0 <= j < A.n implies #[trigger] cmv(*this, r[a] as int, j) == F::szero() by { assert(insrow_col(this.col@[j].indval@, A.col@[j].indval@, r)); }
    assert forall|c: int, p: int, j: int| #[trigger] insrow_at(r, c, p) && p >= 0 && 0 <= j < A.n implies #[trigger] cmv(*this, p, j) == cmv(A, p - c, j) by { assert(insrow_col(this.col@[j].indval@, A.col@[j].indval@, r)); } }
@rust
pub open spec fn insrow_col<F: Field>(t: Seq<Nz<F>>, y: Seq<Nz<F>>, r: Seq<usize>) -> bool { (forall|a: int| 0 <= a < r.len() ==> sval(t, (#[trigger] r[a]) as int) == F::szero()) && forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && p >= 0 ==> sval(t, p) == sval(y, p - c) }
@end
@fn CM<F>::set_block(usize, usize, usize, usize, CM<F>) as cm_set_block
@prop P06
@requires
  cmwf(*old(this)), cmwf(*B), i0 <= i1 <= old(this).m, j0 <= j1 <= old(this).n, B.m == i1 - i0, B.n == j1 - j0
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|i: int, j: int| 0 <= j < old(this).n ==> #[trigger] cmv(*final(this), i, j) == if i0 <= i < i1 && j0 <= j < j1 { cmv(*B, i - i0, j - j0) } else { cmv(*old(this), i, j) }
@at entry
  let ghost A = *this;
@loop 0
  invariant j0 <= j <= j1, k == j - j0, j1 <= A.n, i0 <= i1 <= A.m, B.m == i1 - i0, B.n == j1 - j0, cmwf(*B), cmwf(A), this.m == A.m, this.n == A.n, this.col@.len() == A.n,
    forall|q: int| 0 <= q < A.n && !(j0 <= q < j) ==> (#[trigger] this.col@[q]) == A.col@[q],
    forall|q: int| j0 <= q < j ==> sc((#[trigger] this.col@[q]).indval@, A.m as int),
    forall|i: int, q: int| j0 <= q < j ==> #[trigger] colv(this.col@, i, q) == if i0 <= i < i1 { cmv(*B, i - i0, q - j0) } else { cmv(A, i, q) }
  decreases j1 - j
@at loop 0 begin
  let ghost G0 = *this;
  proof { assert(sc(A.col@[j as int].indval@, A.m as int)); assert(sc(B.col@[k as int].indval@, B.m as int)); sval_out(A.col@[j as int].indval@, A.m as int); }
@at loop 0 end
  proof { let x = j as int; let s1 = this.col@[x].indval@; assert(this.col@ =~= G0.col@.update(x, this.col@[x]));
    assert forall|i: int| i >= A.m implies #[trigger] sval(s1, i) == F::szero() by { assert(sval(A.col@[x].indval@, i) == F::szero()); } sc_of(s1, A.m as int);
    assert forall|q: int| 0 <= q < A.n && !(j0 <= q < x + 1) implies (#[trigger] this.col@[q]) == A.col@[q] by { assert(this.col@[q] == G0.col@[q]); }
    assert forall|q: int| j0 <= q < x + 1 implies sc((#[trigger] this.col@[q]).indval@, A.m as int) by { if q < x { assert(this.col@[q] == G0.col@[q]); } }
    assert forall|i: int, q: int| j0 <= q < x + 1 implies #[trigger] colv(this.col@, i, q) == (if i0 <= i < i1 { cmv(*B, i - i0, q - j0) } else { cmv(A, i, q) }) by { if q < x { assert(this.col@[q] == G0.col@[q]); assert(colv(G0.col@, i, q) == if i0 <= i < i1 { cmv(*B, i - i0, q - j0) } else { cmv(A, i, q) }); } else { assert(sval(s1, i) == if i0 <= i < i1 { sval(B.col@[q - j0].indval@, i - i0) } else { sval(A.col@[q].indval@, i) }); } } }
@at exit
  proof { assert forall|q: int| 0 <= q < A.n implies sc((#[trigger] this.col@[q]).indval@, A.m as int) by { if !(j0 <= q < j1) { assert(this.col@[q] == A.col@[q]); } }
    assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] cmv(*this, i, j) == (if i0 <= i < i1 && j0 <= j < j1 { cmv(*B, i - i0, j - j0) } else { cmv(A, i, j) }) by { if !(j0 <= j < j1) { assert(this.col@[j] == A.col@[j]); } } }
@fn CM<F>::insert_sparse_rows(Vec<usize>, Vec<SV<F>>) as cm_insert_sparse_rows
@prop P06
@opt rlimit=60
@requires
  cmwf(*old(this)), strict_usize(r_inds@), r_inds@.len() == new_rows@.len(), old(this).m + r_inds@.len() <= i64::MAX, forall|a: int| 0 <= a < r_inds@.len() ==> #[trigger] r_inds@[a] < old(this).m + r_inds@.len(),
  forall|a: int| 0 <= a < new_rows@.len() ==> sc((#[trigger] new_rows@[a]).indval@, old(this).n as int)
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + r_inds@.len(), final(this).n == old(this).n,
  forall|a: int, j: int| 0 <= a < r_inds@.len() && 0 <= j < old(this).n ==> #[trigger] cmv(*final(this), r_inds@[a] as int, j) == sval(new_rows@[a].indval@, j),
  forall|c: int, p: int, j: int| #[trigger] insrow_at(r_inds@, c, p) && 0 <= p < final(this).m && 0 <= j < old(this).n ==> #[trigger] cmv(*final(this), p, j) == cmv(*old(this), p - c, j)
@at entry
  let ghost A = *this; let ghost r = r_inds@; let ghost mut cs: Seq<int> = Seq::empty(); let ghost mut M1 = *this; let ghost mut rp0: Seq<usize> = Seq::empty();
@loop 0
  invariant 0 <= ix0 <= new_rows@.len(), cmwf(*this), this.m == A.m + ix0, this.n == A.n, r == r_inds@, r.len() == new_rows@.len(), A.m + r.len() <= i64::MAX, forall|a: int| 0 <= a < new_rows@.len() ==> sc((#[trigger] new_rows@[a]).indval@, A.n as int),
    forall|l: int, j: int| 0 <= l < A.m + ix0 && 0 <= j < A.n ==> #[trigger] cmv(*this, l, j) == if l < A.m { cmv(A, l, j) } else { sval(new_rows@[l - A.m].indval@, j) }
  decreases new_rows@.len() - ix0
@at loop 0 begin
  let ghost G0 = *this;
@at loop 0 end
  proof { assert forall|l: int, j: int| 0 <= l < A.m + ix0 + 1 && 0 <= j < A.n implies #[trigger] cmv(*this, l, j) == (if l < A.m { cmv(A, l, j) } else { sval(new_rows@[l - A.m].indval@, j) }) by { if l < A.m + ix0 { assert(cmv(*this, l, j) == cmv(G0, l, j)); } } }
@at loop 0 after
  proof { M1 = *this; assert(r.subrange(0, r.len() as int) =~= r); }
@loop 1
  invariant 0 <= i <= A.m, *this == M1, M1.m == A.m + r.len(), length_new_rows == r.len(), r == r_inds@, strict_usize(r), A.m + r.len() <= i64::MAX, rowperm@.len() == i, cs.len() == i, forall|k: int| 0 <= k < i ==> inswit(r, k, (#[trigger] rowperm@[k]) as int, cs[k])
  decreases A.m - i
@loop 2
  invariant it_r_inds <= r.len(), r == r_inds@, j == i + it_r_inds, i < A.m, forall|a: int| 0 <= a < it_r_inds ==> (#[trigger] r[a]) < j
  decreases r.len() - it_r_inds
@at loop 2 before
  proof { assert(r.subrange(0, r.len() as int) =~= r); }
@at loop 2 after
  proof { cs = cs.push(it_r_inds as int); assert forall|a: int| it_r_inds <= a < r.len() implies (#[trigger] r[a]) > j by { if a > it_r_inds { assert(r[it_r_inds as int] < r[a]); } } }
@at loop 1 after
  proof { rp0 = rowperm@; }
@at before cm_permute_rows 0
  proof { let rp = rowperm@; assert(rp =~= rp0 + r);
    assert forall|a: int| 0 <= a < rp.len() implies #[trigger] rp[a] < M1.m by { if a < A.m { assert(rp[a] == rp0[a]); assert(inswit(r, a, rp0[a] as int, cs[a])); } else { assert(rp[a] == r[a - A.m]); } }
    assert forall|a: int, b: int| 0 <= a < b < rp.len() implies #[trigger] rp[a] != #[trigger] rp[b] by {
      if b < A.m { assert(rp[a] == rp0[a] && rp[b] == rp0[b]); inspos_mono(r, a, rp0[a] as int, cs[a], b, rp0[b] as int, cs[b]); }
      else if a < A.m { assert(rp[a] == rp0[a] && rp[b] == r[b - A.m]); assert(inswit(r, a, rp0[a] as int, cs[a])); } else { assert(rp[a] == r[a - A.m] && rp[b] == r[b - A.m]); assert(r[a - A.m] < r[b - A.m]); } } }
@at exit
  proof { let rp = rowperm@;
    assert forall|a: int, j: int| 0 <= a < r.len() && 0 <= j < A.n implies #[trigger] cmv(*this, r[a] as int, j) == sval(new_rows@[a].indval@, j) by { assert(rp[A.m + a] == r[a]); assert(cmv(*this, rp[A.m + a] as int, j) == cmv(M1, A.m + a, j)); }
    assert forall|c: int, p: int, j: int| #[trigger] insrow_at(r, c, p) && 0 <= p < this.m && 0 <= j < A.n implies #[trigger] cmv(*this, p, j) == cmv(A, p - c, j) by {
      insrow_range(r, c, p, A.m as int); let i = p - c; assert(inswit(r, i, p, c)); assert(inswit(r, i, rp0[i] as int, cs[i])); inspos_mono(r, i, p, c, i, rp0[i] as int, cs[i]); assert(rp[i] == rp0[i]); assert(cmv(*this, rp[i] as int, j) == cmv(M1, i, j)); } }
@rust
// position p with c inserted rows before it is old row p - c, which lies in 0..m
pub proof fn insrow_range(r: Seq<usize>, c: int, p: int, m: int)
    requires insrow_at(r, c, p), strict_usize(r), 0 <= p < m + r.len(), forall|a: int| 0 <= a < r.len() ==> #[trigger] r[a] < m + r.len()
    ensures 0 <= p - c < m
{
    strict_ge(r, c - 1);
    if c > 0 { assert(r[c - 1] < p); }
    if c < r.len() { assert(r[c] > p); strict_top(r, c, m + r.len()); }
}
pub proof fn strict_ge(r: Seq<usize>, k: int) requires strict_usize(r), k < r.len() ensures k >= 0 ==> r[k] >= k decreases k { if k > 0 { strict_ge(r, k - 1); assert(r[k - 1] < r[k]); } }
pub proof fn strict_top(r: Seq<usize>, k: int, n: int) requires strict_usize(r), 0 <= k < r.len(), forall|a: int| 0 <= a < r.len() ==> #[trigger] r[a] < n ensures r[k] <= n - (r.len() - k) decreases r.len() - k { if k < r.len() - 1 { strict_top(r, k + 1, n); assert(r[k] < r[k + 1]); } else { assert(r[k] < n); } }
@end
