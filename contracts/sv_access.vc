@unit la
@rust
// canonical vectors (sorted, no stored zero) are determined by their values
pub proof fn sv_canonical<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>)
    requires ssorted(s), ssorted(t), snz(s), snz(t), sameval(s, t)
    ensures s =~= t
    decreases s.len()
{
    if s.len() == 0 { if t.len() > 0 { sval_at(t, 0); assert(sval(s, t[0].ind as int) == F::szero()); } }
    else if t.len() == 0 { sval_at(s, 0); assert(sval(t, s[0].ind as int) == F::szero()); }
    else {
        let i = s.last().ind as int; let j = t.last().ind as int; let s1 = s.drop_last(); let t1 = t.drop_last();
        ssorted_sdist(s); ssorted_sdist(t);
        let k = sval_find(t, i); sval_at(s, s.len() - 1); assert(k != -1);
        let l = sval_find(s, j); sval_at(t, t.len() - 1); assert(l != -1);
        assert(s[l].ind <= s[s.len() - 1].ind); assert(t[k].ind <= t[t.len() - 1].ind); assert(i == j); assert(s.last() == t.last());
        assert forall|a: int, b: int| 0 <= a < b < s1.len() implies (#[trigger] s1[a]).ind < (#[trigger] s1[b]).ind by { assert(s[a].ind < s[b].ind); }
        assert forall|a: int, b: int| 0 <= a < b < t1.len() implies (#[trigger] t1[a]).ind < (#[trigger] t1[b]).ind by { assert(t[a].ind < t[b].ind); }
        assert forall|a: int| 0 <= a < s1.len() implies (#[trigger] s1[a]).val != F::szero() by { assert(s1[a] == s[a]); }
        assert forall|a: int| 0 <= a < t1.len() implies (#[trigger] t1[a]).val != F::szero() by { assert(t1[a] == t[a]); }
        assert forall|m: int| #[trigger] sval(s1, m) == sval(t1, m) by { assert(sval(s, m) == sval(t, m)); if m == i {
            sval_absent_prefix(s, s.len() - 1); assert(s.take(s.len() - 1) =~= s1); sval_absent_prefix(t, t.len() - 1); assert(t.take(t.len() - 1) =~= t1); } }
        sv_canonical(s1, t1); assert(s =~= s1.push(s.last())); assert(t =~= t1.push(t.last()));
    }
}
@end
@fn SV<F>::new(Vec<usize>, Vec<F>) as sv_from_iv
@prop P04
@requires
  ind@.len() <= val@.len()
@ensures
  ret.indval@.len() == ind@.len(), forall|k: int| 0 <= k < ind@.len() ==> #[trigger] ret.indval@[k] == (Nz { ind: ind@[k], val: val@[k] })
@loop 0
  invariant i <= nz, nz == ind@.len(), this.indval@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] this.indval@[k] == (Nz { ind: ind@[k], val: val@[k] })
  decreases nz - i
@fn SV<F>::new(Vec<(usize, i32,)>) as sv_from_tup
@prop P04
@requires
  forall|k: int, l: int| 0 <= k < l < ival@.len() ==> (#[trigger] ival@[k]).0 != (#[trigger] ival@[l]).0
@ensures
  ssorted(ret.indval@), ret.indval@.len() == ival@.len(),
  forall|k: int| 0 <= k < ival@.len() ==> sval(ret.indval@, (#[trigger] ival@[k]).0 as int) == F::sint(ival@[k].1 as int),
  forall|i: int| (forall|k: int| 0 <= k < ival@.len() ==> (#[trigger] ival@[k]).0 != i) ==> #[trigger] sval(ret.indval@, i) == F::szero(),
@loop 0
  invariant ix0 <= ival@.len(), this.indval@.len() == ix0, forall|k: int| 0 <= k < ix0 ==> (#[trigger] this.indval@[k]).ind == ival@[k].0 && this.indval@[k].val == F::sint(ival@[k].1 as int)
  decreases ival@.len() - ix0
@at before sv_sort 0
  let ghost y = this.indval@;
  proof { assert(sdist(y)) by { assert forall|i: int, j: int| 0 <= i < j < y.len() implies (#[trigger] y[i]).ind != (#[trigger] y[j]).ind by { assert(ival@[i].0 != ival@[j].0); } } }
@at exit
  proof {
    assert forall|k: int| 0 <= k < ival@.len() implies sval(this.indval@, (#[trigger] ival@[k]).0 as int) == F::sint(ival@[k].1 as int) by { sval_at_d(y, k); assert(y[k].ind == ival@[k].0); }
    assert forall|i: int| (forall|k: int| 0 <= k < ival@.len() ==> (#[trigger] ival@[k]).0 != i) implies #[trigger] sval(this.indval@, i) == F::szero() by { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind as int != i by { assert(ival@[k].0 != i); } sval_absent(y, i); }
  }
@fn SV<F>::new(usize, F) as sv_unit
@prop P04
@ensures
  ret.indval@ == seq![Nz { ind: i, val: v }], ssorted(ret.indval@), forall|k: int| #[trigger] sval(ret.indval@, k) == if k == i { v } else { F::szero() }, v != F::szero() ==> snz(ret.indval@)
@at entry
  broadcast use sv_basic;
@at exit
  proof { assert(this.indval@ =~= seq![Nz { ind: i, val: v }]); assert(this.indval@ =~= Seq::<Nz<F>>::empty().push(Nz { ind: i, val: v })); }
@fn SV<F>::dense(F, usize) as sv_dense
@prop P04
@ensures
  ssorted(ret.indval@), forall|k: int| #[trigger] sval(ret.indval@, k) == if 0 <= k < m { a } else { F::szero() }, a != F::szero() ==> snz(ret.indval@), sbelow(ret.indval@, m as int)
@at entry
  broadcast use sv_basic;
@loop 0
  invariant i <= m, vindval@.len() == i, ssorted(vindval@), forall|k: int| 0 <= k < i ==> (#[trigger] vindval@[k]).ind == k && vindval@[k].val == a, forall|k: int| #[trigger] sval(vindval@, k) == if 0 <= k < i { a } else { F::szero() }
  decreases m - i
@fn SV<F>::shift_inds(usize) const as sv_shift
@prop P04
@requires
  ssorted(this.indval@), forall|k: int| 0 <= k < this.indval@.len() ==> (#[trigger] this.indval@[k]).ind + shift <= usize::MAX
@ensures
  ssorted(ret.indval@), snz(this.indval@) ==> snz(ret.indval@), forall|i: int| #[trigger] sval(ret.indval@, i) == sval(this.indval@, i - shift)
@loop 0
  invariant ix0 <= v.indval@.len(), v.indval@.len() == this.indval@.len(), forall|k: int| 0 <= k < v.indval@.len() ==> (#[trigger] v.indval@[k]).val == this.indval@[k].val && v.indval@[k].ind == this.indval@[k].ind + if k < ix0 { shift as int } else { 0 }
  decreases v.indval@.len() - ix0
@at loop 0 begin
  assert(this.indval@[ix0 as int].ind + shift <= usize::MAX);
@at loop 0 after
  proof {
    let s = this.indval@; let t = v.indval@;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { assert(s[i].ind < s[j].ind); }
    ssorted_sdist(s); ssorted_sdist(t);
    assert forall|i: int| #[trigger] sval(t, i) == sval(s, i - shift) by { sval_pos(t, i, s, i - shift); }
  }
@fn SV<F>::reverse_inds(usize) as sv_reverse_inds
@prop P04
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, n + 1)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), forall|i: int| #[trigger] sval(final(this).indval@, i) == sval(old(this).indval@, n - i)
@at entry
  let ghost y = this.indval@;
@loop 0
  invariant ix0 <= y.len(), this.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] this.indval@[k]).val == y[k].val && this.indval@[k].ind == if k < ix0 { n - y[k].ind } else { y[k].ind as int }
  decreases y.len() - ix0
@at loop 0 begin
  assert(y[ix0 as int].ind <= n);
@at exit
  proof {
    let t = this.indval@; let N = y.len();
    let w = Seq::new(N, |k: int| N - 1 - k); let r = y.reverse();
    assert(rearranged(y, w, r)); ssorted_sdist(y); rearr_sval(y, r);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { assert(y[N - 1 - j].ind < y[N - 1 - i].ind); assert(y[N - 1 - i].ind < n + 1); }
    ssorted_sdist(t);
    assert forall|k: int| 0 <= k < N implies (#[trigger] r[k]).val == t[k].val && r[k].ind as int == n - t[k].ind as int by { assert(y[N - 1 - k].ind < n + 1); }
    assert forall|i: int| #[trigger] sval(t, i) == sval(y, n - i) by { sval_pos(r, n - i, t, i); assert(sval(r, n - i) == sval(y, n - i)); }
    if snz(y) { assert forall|k: int| 0 <= k < N implies (#[trigger] t[k]).val != F::szero() by { assert(y[N - 1 - k].val != F::szero()); } }
  }
@fn SV<F>::operator==(SV<F>) const as sv_eq
@prop P04
@ensures
  ret == (this.indval@ =~= other.indval@)
@loop 0
  invariant it1 == it2, it1 <= this.indval@.len(), it2 <= other.indval@.len(), forall|k: int| 0 <= k < it1 ==> #[trigger] this.indval@[k] == other.indval@[k]
  decreases this.indval@.len() - it1
@fn SV<F>::operator!=(SV<F>) const as sv_ne
@prop P04
@ensures
  ret == !(this.indval@ =~= other.indval@)
@fn SV<F>::clear() as sv_clear
@prop P04
@ensures
  final(this).indval@.len() == 0
@fn SV<F>::clear_dealloc() as sv_clear_dealloc
@prop P04
@ensures
  final(this).indval@.len() == 0
@fn SV<F>::erase_all() as sv_erase_all
@prop P04
@ensures
  final(this).indval@.len() == 0
@fn SV<F>::nzinds() const as sv_nzinds
@prop P04
@ensures
  ret@.len() == this.indval@.len(), forall|k: int| 0 <= k < ret@.len() ==> #[trigger] ret@[k] == this.indval@[k].ind
@loop 0
  invariant it <= this.indval@.len(), ind@.len() == it, forall|k: int| 0 <= k < it ==> #[trigger] ind@[k] == this.indval@[k].ind
  decreases this.indval@.len() - it
@fn SV<F>::nzvals() const as sv_nzvals
@prop P04
@ensures
  ret@.len() == this.indval@.len(), forall|k: int| 0 <= k < ret@.len() ==> #[trigger] ret@[k] == this.indval@[k].val
@loop 0
  invariant it <= this.indval@.len(), val@.len() == it, forall|k: int| 0 <= k < it ==> #[trigger] val@[k] == this.indval@[k].val
  decreases this.indval@.len() - it
@fn SV<F>::nzs() const as sv_nzs
@prop P04
@ensures
  ret.0@.len() == this.indval@.len(), ret.1@.len() == this.indval@.len(), forall|k: int| 0 <= k < ret.0@.len() ==> #[trigger] ret.0@[k] == this.indval@[k].ind && ret.1@[k] == this.indval@[k].val
@loop 0
  invariant it <= this.indval@.len(), val@.len() == it, ind@.len() == it, forall|k: int| 0 <= k < it ==> #[trigger] ind@[k] == this.indval@[k].ind && val@[k] == this.indval@[k].val
  decreases this.indval@.len() - it
@fn SV<F>::getval(usize) const as sv_getval
@prop P04
@requires
  ssorted(this.indval@)
@ensures
  ret == sval(this.indval@, i as int)
@at entry
  proof { ssorted_sdist(this.indval@); let k = sval_find(this.indval@, i as int); assert(this.indval@.subrange(0, this.indval@.len() as int) =~= this.indval@); }
@fn SV<F>::operator[](usize) const as sv_at
@prop P04
@requires
  ssorted(this.indval@)
@ensures
  ret == sval(this.indval@, i as int)
@fn SV<F>::clear_inds(Vec<bool>) as sv_clear_inds
@prop P04
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, c@.len() as int)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == if 0 <= i < c@.len() && c@[i] { F::szero() } else { sval(old(this).indval@, i) },
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@;
@loop 0
  invariant
    ix0 <= y.len(), this.indval@ == y,
    ssorted(indval2@), snz(y) ==> snz(indval2@),
    forall|k: int, l: int| 0 <= k < indval2.len() && ix0 <= l < y.len() ==> (#[trigger] indval2@[k]).ind < (#[trigger] y[l]).ind,
    forall|i: int| #[trigger] sval(indval2@, i) == if 0 <= i < c@.len() && c@[i] { F::szero() } else { sval(y.take(ix0 as int), i) },
  decreases y.len() - ix0
@at loop 0 begin
  proof { sval_take(y, ix0 as int); sval_absent_prefix(y, ix0 as int); assert(y[ix0 as int].ind < c@.len()); }
@at loop 0 after
  proof { assert(y.take(ix0 as int) =~= y); }
@fn SV<F>::clear_inds(Vec<bool>, &mut Vec<Nz<F>>) as sv_clear_inds_tmp
@prop P04
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, c@.len() as int)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == if 0 <= i < c@.len() && c@[i] { F::szero() } else { sval(old(this).indval@, i) },
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@;
@loop 0
  invariant
    ix0 <= y.len(), this.indval@ == y,
    ssorted(tmp@), snz(y) ==> snz(tmp@),
    forall|k: int, l: int| 0 <= k < tmp.len() && ix0 <= l < y.len() ==> (#[trigger] tmp@[k]).ind < (#[trigger] y[l]).ind,
    forall|i: int| #[trigger] sval(tmp@, i) == if 0 <= i < c@.len() && c@[i] { F::szero() } else { sval(y.take(ix0 as int), i) },
  decreases y.len() - ix0
@at loop 0 begin
  proof { sval_take(y, ix0 as int); sval_absent_prefix(y, ix0 as int); assert(y[ix0 as int].ind < c@.len()); }
@at loop 0 after
  proof { assert(y.take(ix0 as int) =~= y); }
