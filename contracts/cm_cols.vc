@unit la
@uses sv_edit cm_basic sv_insrows
@rust
pub open spec fn cols_same<F: Field>(A: CM<F>, B: CM<F>, lo: int, hi: int) -> bool { forall|k: int| lo <= k < hi ==> (#[trigger] A.col@[k]) == B.col@[k] }
pub proof fn strict_gap(s: Seq<usize>, a: int, b: int)
    requires strict_usize(s), 0 <= a <= b < s.len()
    ensures s[b] >= s[a] + (b - a)
    decreases b - a
{ if a < b { strict_gap(s, a, b - 1); assert(s[b - 1] < s[b]); } }
// position p of the merged sequence holds old column q
pub open spec fn cwit<F: Field>(r: Seq<usize>, p: int, q: int) -> bool { insrow_at(r, p - q, p) }
// the state of insert_columns after i output positions
pub open spec fn insc_inv<F: Field>(A: Seq<SV<F>>, N: Seq<SV<F>>, r: Seq<usize>, w: Seq<SV<F>>, i: int, newi: int, oldi: int) -> bool {
    &&& i == newi + oldi && 0 <= newi <= r.len() && 0 <= oldi <= A.len()
    &&& (newi < r.len() ==> r[newi] >= i)
    &&& (newi > 0 ==> r[newi - 1] < i)
    &&& (forall|a: int| 0 <= a < newi ==> w[(#[trigger] r[a]) as int] == N[a])
    &&& (forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && 0 <= p < i ==> 0 <= p - c < A.len() && w[p] == A[p - c])
}
pub proof fn insc_step<F: Field>(A: Seq<SV<F>>, N: Seq<SV<F>>, r: Seq<usize>, w: Seq<SV<F>>, w2: Seq<SV<F>>, i: int, newi: int, oldi: int)
    requires insc_inv(A, N, r, w, i, newi, oldi), strict_usize(r), N.len() == r.len(), w.len() == A.len() + r.len(), r.len() > 0 ==> r[r.len() - 1] < w.len(), i < w.len()
    ensures
        newi < r.len() && r[newi] == i && w2 == w.update(i, N[newi]) ==> insc_inv(A, N, r, w2, i + 1, newi + 1, oldi),
        (newi == r.len() || r[newi] != i) && oldi < A.len() && w2 == w.update(i, A[oldi]) ==> insc_inv(A, N, r, w2, i + 1, newi, oldi + 1),
        newi < r.len() && oldi == A.len() ==> r[newi] == i,
{
    if newi < r.len() && oldi == A.len() { strict_gap(r, newi, r.len() - 1); }
    if newi < r.len() && r[newi] == i && w2 == w.update(i, N[newi]) {
        assert forall|a: int| 0 <= a < newi + 1 implies w2[(#[trigger] r[a]) as int] == N[a] by { if a < newi { assert(r[a] < r[newi]); } }
        assert forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && 0 <= p < i + 1 implies 0 <= p - c < A.len() && w2[p] == A[p - c] by { if p == i { assert(r[newi] == i); if newi < c { } else { } } else { } }
        if newi + 1 < r.len() { assert(r[newi] < r[newi + 1]); }
    }
    if (newi == r.len() || r[newi] != i) && oldi < A.len() && w2 == w.update(i, A[oldi]) {
        assert forall|a: int| 0 <= a < newi implies w2[(#[trigger] r[a]) as int] == N[a] by { if a < newi - 1 { assert(r[a] < r[newi - 1]); } }
        assert forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && 0 <= p < i + 1 implies 0 <= p - c < A.len() && w2[p] == A[p - c] by {
            if p == i { if c > newi { assert(r[newi] < i); } else if c < newi { assert(r[newi - 1] > i); } assert(c == newi); } }
    }
}
@end
@fn bats::util::apply_perm_swap(&mut Vec<SV<F>>, Vec<usize>) as cols_perm_swap
@prop P06
@requires
  isperm_usize(perm@), perm@.len() == old(data)@.len()
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> final(data)@[#[trigger] perm@[i] as int] == old(data)@[i],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| 0 <= k < i ==> tmp@[#[trigger] perm@[k] as int] == d0[k],
    forall|k: int| i <= k < d0.len() ==> #[trigger] data@[k] == d0[k],
  decreases perm@.len() - i
@at loop 1 before
  let ghost t0 = tmp@;
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| i <= k < d0.len() ==> tmp@[k] == t0[k],
    forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == t0[k],
  decreases perm@.len() - i
@fn bats::util::apply_iperm_swap(&mut Vec<SV<F>>, Vec<usize>) as cols_iperm_swap
@prop P06
@requires
  isperm_usize(perm@), perm@.len() == old(data)@.len()
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> #[trigger] final(data)@[i] == old(data)@[perm@[i] as int],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
    forall|k: int| i <= k < d0.len() ==> data@[#[trigger] perm@[k] as int] == d0[perm@[k] as int],
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| i <= k < d0.len() ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
    forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@fn CM<F>::permute_cols(Vec<usize>) as cm_permute_cols
@prop P06
@requires
  cmwf(*old(this)), isperm_usize(colperm@), colperm@.len() == old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|j: int| 0 <= j < old(this).n ==> final(this).col@[(#[trigger] colperm@[j]) as int] == old(this).col@[j],
@at exit
  proof { assert forall|j: int| 0 <= j < this.n implies sc((#[trigger] this.col@[j]).indval@, this.m as int) by { let i = isperm_onto(colperm@, j); assert(this.col@[colperm@[i] as int] == old(this).col@[i]); } }
@fn CM<F>::ipermute_cols(Vec<usize>) as cm_ipermute_cols
@prop P06
@requires
  cmwf(*old(this)), isperm_usize(colperm@), colperm@.len() == old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|j: int| 0 <= j < old(this).n ==> (#[trigger] final(this).col@[j]) == old(this).col@[colperm@[j] as int],
@fn CM<F>::permute(Vec<usize>, Vec<usize>) as cm_permute
@prop P06
@requires
  cmwf(*old(this)), isperm_usize(colperm@), colperm@.len() == old(this).n, isperm_usize(rowperm@), rowperm@.len() == old(this).m
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|i: int, j: int| 0 <= i < old(this).m && 0 <= j < old(this).n ==> cmv(*final(this), rowperm@[i] as int, colperm@[j] as int) == #[trigger] cmv(*old(this), i, j),
@at before cm_permute_rows 0
  let ghost C = *this;
@at exit
  proof { assert forall|i: int, j: int| 0 <= i < old(this).m && 0 <= j < old(this).n implies cmv(*this, rowperm@[i] as int, colperm@[j] as int) == #[trigger] cmv(*old(this), i, j) by { let q = colperm@[j] as int; assert(C.col@[q] == old(this).col@[j]); assert(cmv(C, i, q) == cmv(*old(this), i, j)); } }
@fn CM<F>::append_column(SV<F>) as cm_append_column
@prop P06
@requires
  cmwf(*old(this)), sc(args.indval@, old(this).m as int)
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n + 1, final(this).col@ == old(this).col@.push(*args)
@at after push 0
  proof { assert(this.col.len() == this.col@.len()); }
@fn CM<F>::append_column() as cm_append_zero
@prop P06
@requires
  cmwf(*old(this))
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n + 1, cols_same(*final(this), *old(this), 0, old(this).n as int), final(this).col@[old(this).n as int].indval@.len() == 0
@at after push 0
  proof { assert(this.col.len() == this.col@.len()); }
@fn CM<F>::append_row() as cm_append_row
@prop P06
@requires
  cmwf(*old(this)), old(this).m < usize::MAX
@ensures
  cmwf(*final(this)), final(this).m == old(this).m + 1, final(this).n == old(this).n, final(this).col@ == old(this).col@
@at exit
  proof { assert forall|j: int| 0 <= j < this.n implies sc((#[trigger] this.col@[j]).indval@, this.m as int) by { assert(sc(old(this).col@[j].indval@, old(this).m as int)); } }
@fn CM<F>::insert_column(usize, SV<F>) as cm_insert_column
@prop P06
@requires
  cmwf(*old(this)), sc(args.indval@, old(this).m as int), index <= old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n + 1, final(this).col@ =~= old(this).col@.insert(index as int, *args)
@loop 0
  invariant i <= this.n, colperm@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] colperm@[k] == if k == index { this.n - 1 } else if k > index { k - 1 } else { k }
  decreases this.n - i
@fn CM<F>::insert_column(usize) as cm_insert_zero_column
@prop P06
@requires
  cmwf(*old(this)), index <= old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n + 1, final(this).col@[index as int].indval@.len() == 0,
  forall|k: int| 0 <= k < final(this).n && k != index ==> (#[trigger] final(this).col@[k]) == old(this).col@[if k < index { k } else { k - 1 }],
@loop 0
  invariant i <= this.n, colperm@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] colperm@[k] == if k == index { this.n - 1 } else if k > index { k - 1 } else { k }
  decreases this.n - i
@fn CM<F>::insert_columns(Vec<usize>, &mut Vec<SV<F>>) as cm_insert_columns
@prop P06
@requires
  cmwf(*old(this)), strict_usize(c_inds@), c_inds@.len() == old(insert_col)@.len(), old(this).n + c_inds@.len() <= usize::MAX, c_inds@.len() > 0 ==> c_inds@[c_inds@.len() - 1] < old(this).n + c_inds@.len(),
  forall|a: int| 0 <= a < old(insert_col)@.len() ==> sc((#[trigger] old(insert_col)@[a]).indval@, old(this).m as int),
@ensures
  final(this).m == old(this).m, final(this).n == old(this).n + c_inds@.len(), final(this).col@.len() == final(this).n,
  forall|a: int| 0 <= a < c_inds@.len() ==> final(this).col@[(#[trigger] c_inds@[a]) as int] == old(insert_col)@[a],
  forall|c: int, p: int| #[trigger] insrow_at(c_inds@, c, p) && 0 <= p < final(this).n ==> 0 <= p - c < old(this).n && final(this).col@[p] == old(this).col@[p - c],
@at entry
  let ghost A = this.col@; let ghost N = insert_col@;
@loop 0
  invariant insc_inv(A, N, c_inds@, newcol@, i as int, newi as int, oldi as int), newcol@.len() == A.len() + N.len(), this.col@.len() == A.len(), insert_col@.len() == N.len(),
    forall|k: int| oldi <= k < A.len() ==> #[trigger] this.col@[k] == A[k], forall|k: int| newi <= k < N.len() ==> #[trigger] insert_col@[k] == N[k],
  decreases A.len() - oldi + N.len() - newi
@at loop 0 begin
  let ghost w = newcol@; let ghost (gi, gn, go) = (i as int, newi as int, oldi as int);
@at loop 0 end
  proof { insc_step(A, N, c_inds@, w, newcol@, gi, gn, go); assert(newi > gn ==> newcol@ =~= w.update(gi, N[gn])); assert(oldi > go ==> newcol@ =~= w.update(gi, A[go])); }
@loop 1
  invariant insc_inv(A, N, c_inds@, newcol@, i as int, newi as int, oldi as int), newcol@.len() == A.len() + N.len(), this.col@.len() == A.len(), insert_col@.len() == N.len(), oldi == A.len() || newi == N.len(),
    forall|k: int| oldi <= k < A.len() ==> #[trigger] this.col@[k] == A[k], forall|k: int| newi <= k < N.len() ==> #[trigger] insert_col@[k] == N[k],
  decreases A.len() - oldi
@at loop 1 begin
  let ghost w = newcol@; let ghost (gi, gn, go) = (i as int, newi as int, oldi as int);
@at loop 1 end
  proof { insc_step(A, N, c_inds@, w, newcol@, gi, gn, go); assert(newcol@ =~= w.update(gi, A[go])); }
@loop 2
  invariant insc_inv(A, N, c_inds@, newcol@, i as int, newi as int, oldi as int), newcol@.len() == A.len() + N.len(), this.col@.len() == A.len(), insert_col@.len() == N.len(), oldi == A.len(),
    forall|k: int| newi <= k < N.len() ==> #[trigger] insert_col@[k] == N[k],
  decreases N.len() - newi
@at loop 2 begin
  let ghost w = newcol@; let ghost (gi, gn, go) = (i as int, newi as int, oldi as int);
@at loop 2 end
  proof { insc_step(A, N, c_inds@, w, newcol@, gi, gn, go); assert(newcol@ =~= w.update(gi, N[gn])); }
@fn CM<F>::erase_column(usize) as cm_erase_column
@prop P06
@requires
  cmwf(*old(this)), index < old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n - 1, final(this).col@ == old(this).col@.remove(index as int)
@fn CM<F>::erase_column() as cm_erase_last_column
@prop P06
@requires
  cmwf(*old(this)), old(this).n > 0
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n - 1, final(this).col@ =~= old(this).col@.drop_last()
@fn CM<F>::erase_final_columns(usize) as cm_erase_final_columns
@prop P06
@requires
  cmwf(*old(this)), ndelete <= old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n - ndelete, final(this).col@ =~= old(this).col@.take(final(this).n as int)
@fn CM<F>::erase_initial_cols(usize) as cm_erase_initial_cols
@prop P06
@requires
  cmwf(*old(this)), ndelete <= old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n - ndelete, final(this).col@ =~= old(this).col@.skip(ndelete as int)
@fn CM<F>::swap_cols(usize, usize) as cm_swap_cols
@prop P06
@requires
  cmwf(*old(this)), j1 < old(this).n, j2 < old(this).n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|j: int| 0 <= j < old(this).n ==> (#[trigger] final(this).col@[j]) == old(this).col@[if j == j1 { j2 as int } else if j == j2 { j1 as int } else { j }],
@fn CM<F>::J_right_inplace() as cm_J_right_inplace
@opt retthis=1
@prop P06
@requires
  cmwf(*old(this))
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|j: int| 0 <= j < old(this).n ==> (#[trigger] final(this).col@[j]) == old(this).col@[old(this).n - 1 - j],
@at entry
  let ghost A = *this;
@loop 0
  invariant j <= this.n / 2, this.m == A.m, this.n == A.n, this.col@.len() == A.n, forall|k: int| 0 <= k < A.n ==> (#[trigger] this.col@[k]) == if k < j || k > A.n - 1 - j { A.col@[A.n - 1 - k] } else { A.col@[k] }
  decreases this.n / 2 - j
@fn CM<F>::J_right() const as cm_J_right
@prop P06
@requires
  cmwf(*this)
@ensures
  cmwf(ret), ret.m == this.m, ret.n == this.n, forall|j: int| 0 <= j < ret.n ==> (#[trigger] ret.col@[j]) == this.col@[this.n - 1 - j]
@fn CM<F>::J_left() const as cm_J_left
@prop P06
@requires
  cmwf(*this)
@ensures
  cmwf(ret), ret.m == this.m, ret.n == this.n, forall|l: int, k: int| 0 <= k < this.n ==> #[trigger] cmv(ret, l, k) == cmv(*this, this.m - 1 - l, k)
@fn CM<F>::J_conjugation_inplace() as cm_J_conj_inplace
@opt retthis=1
@prop P06
@requires
  cmwf(*old(this))
@ensures
  cmwf(*final(this)), is_jconj(*final(this), *old(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == cmv(*old(this), old(this).m - 1 - l, old(this).n - 1 - k)
@at before cm_J_right_inplace 0
  let ghost C = *this;
@at before return 0
  proof { assert forall|l: int, k: int| 0 <= k < this.n implies #[trigger] cmv(*this, l, k) == cmv(*old(this), this.m - 1 - l, this.n - 1 - k) by { assert(this.col@[k] == C.col@[this.n - 1 - k]); assert(cmv(C, l, this.n - 1 - k) == cmv(*old(this), this.m - 1 - l, this.n - 1 - k)); } }
@fn CM<F>::J_conjugation() const as cm_J_conj
@prop P06
@requires
  cmwf(*this)
@ensures
  cmwf(ret), is_jconj(ret, *this), ret.m == this.m, ret.n == this.n, forall|l: int, k: int| 0 <= k < this.n ==> #[trigger] cmv(ret, l, k) == cmv(*this, this.m - 1 - l, this.n - 1 - k)
@fn CM<F>::clear_cols(Vec<bool>) as cm_clear_cols
@prop P06
@throws c@.len() != old(this).n
@requires
  cmwf(*old(this))
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|k: int| 0 <= k < old(this).n ==> if c@[k] { (#[trigger] final(this).col@[k]).indval@.len() == 0 } else { final(this).col@[k] == old(this).col@[k] },
@at entry
  let ghost A = *this;
@loop 0
  invariant j <= this.n, c@.len() == A.n, this.m == A.m, this.n == A.n, this.col@.len() == A.n, forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> if c@[k] { (#[trigger] this.col@[k]).indval@.len() == 0 } else { this.col@[k] == A.col@[k] },
  decreases this.n - j
