@unit la
@uses sv_access
@rust
pub open spec fn inj_on<F>(s: Seq<Nz<F>>, p: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> p[(#[trigger] s[i]).ind as int] != p[(#[trigger] s[j]).ind as int] }
pub open spec fn inj(p: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }
pub open spec fn strict_usize(p: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] < #[trigger] p[j] }
pub open spec fn isperm_usize(p: Seq<usize>) -> bool { inj(p) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < p.len() }
pub proof fn isperm_onto(p: Seq<usize>, v: int) -> (i: int)
    requires isperm_usize(p), 0 <= v < p.len()
    ensures 0 <= i < p.len(), p[i] == v
{ let w = Seq::new(p.len(), |k: int| p[k] as int); assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by { assert(p[i] != p[j]); } perm_onto(w, p.len() as int, v) }
@end
@fn SV<F>::operator[](Vec<usize>) const as sv_select
@prop P04
@requires
  ssorted(this.indval@), strict_usize(indset@)
@ensures
  ssorted(ret.indval@), snz(this.indval@) ==> snz(ret.indval@), sbelow(ret.indval@, indset@.len() as int),
  forall|k: int| 0 <= k < indset@.len() ==> sval(ret.indval@, k) == sval(this.indval@, (#[trigger] indset@[k]) as int),
  forall|k: int| !(0 <= k < indset@.len()) ==> #[trigger] sval(ret.indval@, k) == F::szero(),
@at entry
  broadcast use sv_basic;
  let ghost y = this.indval@; let ghost p = indset@;
  proof { ssorted_sdist(y); }
@loop 0
  invariant it <= p.len(), end == p.len(), selfit <= y.len(), selfend == y.len(), ct == it, ssorted(indval2@), snz(y) ==> snz(indval2@), sbelow(indval2@, ct as int),
    forall|k: int| 0 <= k < ct ==> sval(indval2@, k) == sval(y, (#[trigger] p[k]) as int),
    forall|k: int| !(0 <= k < ct) ==> #[trigger] sval(indval2@, k) == F::szero(),
    forall|a: int, k: int| 0 <= a < selfit && it <= k < p.len() ==> (#[trigger] y[a]).ind < #[trigger] p[k],
  decreases p.len() - it + y.len() - selfit
@at loop 0 begin
  proof {
    let x = p[it as int] as int;
    if p[it as int] < y[selfit as int].ind { assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).ind != x by { if a > selfit { assert(y[selfit as int].ind < y[a].ind); } } sval_absent(y, x); }
    if p[it as int] == y[selfit as int].ind { sval_at(y, selfit as int); }
    assert forall|k: int| it < k < p.len() implies p[it as int] < #[trigger] p[k] by { }
  }
@at loop 0 after
  proof {
    assert forall|k: int| it <= k < p.len() implies sval(y, (#[trigger] p[k]) as int) == F::szero() by { assert forall|a: int| 0 <= a < y.len() implies (#[trigger] y[a]).ind as int != p[k] as int by { assert(y[a].ind < p[k]); } sval_absent(y, p[k] as int); }
  }
@fn SV<F>::permute(Vec<usize>) as sv_permute
@prop P04
@requires
  sdist(old(this).indval@), sbelow(old(this).indval@, perm@.len() as int), inj(perm@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), final(this).indval@.len() == old(this).indval@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> sval(final(this).indval@, (#[trigger] perm@[i]) as int) == sval(old(this).indval@, i),
  forall|j: int| (forall|i: int| 0 <= i < perm@.len() ==> (#[trigger] perm@[i]) != j) ==> #[trigger] sval(final(this).indval@, j) == F::szero(),
  forall|m: int| (forall|i: int| 0 <= i < perm@.len() ==> (#[trigger] perm@[i]) < m) ==> #[trigger] sbelow(final(this).indval@, m),
@at entry
  let ghost y = this.indval@; let ghost p = perm@;
@loop 0
  invariant i <= y.len(), this.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] this.indval@[k]).val == y[k].val && this.indval@[k].ind == if k < i { p[y[k].ind as int] } else { y[k].ind }
  decreases y.len() - i
@at loop 0 begin
  assert(y[i as int].ind < p.len());
@at before sv_sort 0
  let ghost z = this.indval@;
  proof { assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind != (#[trigger] z[b]).ind by { assert(y[a].ind != y[b].ind); assert(y[a].ind < p.len()); assert(y[b].ind < p.len()); let u = y[a].ind as int; let v = y[b].ind as int; if u < v { assert(p[u] != p[v]); } else { assert(p[v] != p[u]); } } 
    assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind == p[y[k].ind as int] by { }
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
    assert forall|i: int| 0 <= i < p.len() implies sval(z, (#[trigger] p[i]) as int) == sval(y, i) by {
      assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val == y[k].val && (z[k].ind as int == p[i] <==> y[k].ind as int == i) by { let u = y[k].ind as int; assert(y[k].ind < p.len()); if u < i { assert(p[u] != p[i]); } else if u > i { assert(p[i] != p[u]); } }
      sval_pos(z, p[i] as int, y, i);
    }
    assert forall|j: int| (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) != j) implies #[trigger] sval(z, j) == F::szero() by { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind != j by { assert(y[k].ind < p.len()); assert(p[y[k].ind as int] != j); } sval_absent(z, j); }
    assert forall|m: int| (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < m) implies #[trigger] sbelow(z, m) by { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind < m by { assert(y[k].ind < p.len()); assert(p[y[k].ind as int] < m); } }
  }
@at exit
  proof { assert forall|m: int| (forall|i: int| 0 <= i < perm@.len() ==> (#[trigger] perm@[i]) < m) implies #[trigger] sbelow(this.indval@, m) by { assert(sbelow(z, m)); } }
@fn SV<F>::ipermute(Vec<usize>) as sv_ipermute
@prop P04
@requires
  sdist(old(this).indval@), sbelow(old(this).indval@, perm@.len() as int), isperm_usize(perm@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), final(this).indval@.len() == old(this).indval@.len(), sbelow(final(this).indval@, perm@.len() as int),
  forall|i: int| 0 <= i < perm@.len() ==> sval(final(this).indval@, i) == sval(old(this).indval@, (#[trigger] perm@[i]) as int),
  forall|i: int| !(0 <= i < perm@.len()) ==> #[trigger] sval(final(this).indval@, i) == F::szero(),
@at entry
  let ghost y = this.indval@; let ghost p = perm@;
@loop 0
  invariant i <= p.len(), iperm@.len() == p.len(), this.indval@ == y, forall|k: int| 0 <= k < i ==> iperm@[(#[trigger] p[k]) as int] == k
  decreases p.len() - i
@at loop 0 begin
  proof { assert(p[i as int] < p.len()); assert forall|k: int| 0 <= k < i implies #[trigger] p[k] != p[i as int] by { } }
@at before sv_permute 0
  proof {
    let q = iperm@;
    assert forall|v: int| 0 <= v < p.len() implies (#[trigger] q[v]) < p.len() && p[q[v] as int] == v by { let k = isperm_onto(p, v); assert(q[p[k] as int] == k); }
    assert forall|a: int, b: int| 0 <= a < b < q.len() implies #[trigger] q[a] != #[trigger] q[b] by { assert(p[q[a] as int] == a); assert(p[q[b] as int] == b); }
  }
@at exit
  proof {
    let q = iperm@; let t = this.indval@;
    assert forall|i: int| 0 <= i < p.len() implies sval(t, i) == sval(y, (#[trigger] p[i]) as int) by { assert(p[i] < p.len()); assert(q[p[i] as int] == i); }
    assert(sbelow(t, p.len() as int)) by { assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < p.len() by { } }
    assert forall|i: int| !(0 <= i < p.len()) implies #[trigger] sval(t, i) == F::szero() by { assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) != i by { assert(q[k] < p.len()); } }
  }
@fn SV<F>::subvector(Vec<usize>) const as sv_subvector
@prop P04
@requires
  ssorted(this.indval@), sbelow(this.indval@, pind@.len() as int),
  forall|i: int, j: int| 0 <= i < j < pind@.len() && pind@[i] != NO_IND && pind@[j] != NO_IND ==> #[trigger] pind@[i] != #[trigger] pind@[j],
@ensures
  ssorted(ret.indval@), snz(this.indval@) ==> snz(ret.indval@),
  forall|i: int| 0 <= i < pind@.len() && pind@[i] != NO_IND ==> sval(ret.indval@, (#[trigger] pind@[i]) as int) == sval(this.indval@, i),
  forall|j: int| (forall|i: int| 0 <= i < pind@.len() && pind@[i] != NO_IND ==> (#[trigger] pind@[i]) != j) ==> #[trigger] sval(ret.indval@, j) == F::szero(),
  forall|m: int| (forall|i: int| 0 <= i < pind@.len() && pind@[i] != NO_IND ==> (#[trigger] pind@[i]) < m) ==> #[trigger] sbelow(ret.indval@, m),
@at entry
  broadcast use sv_basic;
  let ghost y = this.indval@; let ghost p = pind@; let ghost mut src: Seq<int> = Seq::empty();
  proof { ssorted_sdist(y); }
@loop 0
  invariant it <= y.len(), this.indval@ == y, src.len() == newindval@.len(),
    forall|k: int| 0 <= k < src.len() ==> 0 <= #[trigger] src[k] < it && p[y[src[k]].ind as int] != NO_IND && newindval@[k] == (Nz { ind: p[y[src[k]].ind as int], val: y[src[k]].val }),
    forall|k: int, l: int| 0 <= k < l < src.len() ==> #[trigger] src[k] < #[trigger] src[l],
    forall|a: int| 0 <= a < it && p[(#[trigger] y[a]).ind as int] != NO_IND ==> src.contains(a),
  decreases y.len() - it
@at loop 0 begin
  let ghost osrc = src;
  proof { assert(y[it as int].ind < p.len()); if p[y[it as int].ind as int] != NO_IND { src = src.push(it as int); 
     assert(src[osrc.len() as int] == it as int); assert forall|a: int| osrc.contains(a) implies src.contains(a) by { let k = choose|k: int| 0 <= k < osrc.len() && osrc[k] == a; assert(src[k] == a); } } }
@at before sort 0
  let ghost z = newindval@;
  proof {
    assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind != (#[trigger] z[b]).ind by { let u = y[src[a]].ind as int; let v = y[src[b]].ind as int; assert(src[a] < src[b]); assert(y[src[a]].ind < y[src[b]].ind); assert(y[src[b]].ind < p.len()); assert(p[u] != p[v]); }
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[src[k]].val != F::szero()); } }
    assert forall|i: int| 0 <= i < p.len() && p[i] != NO_IND implies sval(z, (#[trigger] p[i]) as int) == sval(y, i) by {
      let k = sval_find(z, p[i] as int); let a = sval_find(y, i);
      if k != -1 { let u = y[src[k]].ind as int; assert(y[src[k]].ind < p.len()); if u < i { assert(p[u] != p[i]); } else if u > i { assert(p[i] != p[u]); } assert(a == src[k]); }
      else if a != -1 { assert(src.contains(a)); let l = choose|l: int| 0 <= l < src.len() && src[l] == a; assert(z[l].ind == p[i]); }
    }
    assert forall|j: int| (forall|i: int| 0 <= i < p.len() && p[i] != NO_IND ==> (#[trigger] p[i]) != j) implies #[trigger] sval(z, j) == F::szero() by { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind != j by { assert(y[src[k]].ind < p.len()); assert(p[y[src[k]].ind as int] != j); } sval_absent(z, j); }
    assert forall|m: int| (forall|i: int| 0 <= i < p.len() && p[i] != NO_IND ==> (#[trigger] p[i]) < m) implies #[trigger] sbelow(z, m) by { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind < m by { assert(y[src[k]].ind < p.len()); assert(p[y[src[k]].ind as int] < m); } }
  }
@at after sort 0
  proof { rearr_sval(z, newindval@); assert forall|m: int| (forall|i: int| 0 <= i < p.len() && p[i] != NO_IND ==> (#[trigger] p[i]) < m) implies #[trigger] sbelow(newindval@, m) by { assert(sbelow(z, m)); } }
@fn SV<F>::block(usize, usize) const as sv_block
@prop P04
@requires
  ssorted(this.indval@)
@ensures
  ssorted(ret.indval@), snz(this.indval@) ==> snz(ret.indval@),
  forall|i: int| #[trigger] sval(ret.indval@, i) == if 0 <= i && i + i0 < i1 { sval(this.indval@, i + i0) } else { F::szero() },
  i0 <= i1 ==> sbelow(ret.indval@, i1 - i0),
@at entry
  broadcast use sv_basic;
  let ghost y = this.indval@;
  proof { ssorted_sdist(y); assert(y.subrange(0, y.len() as int) =~= y); }
@loop 0
  invariant_except_break newindval@.len() == it - st, it <= y.len(),
    forall|k: int| 0 <= k < newindval@.len() ==> (#[trigger] newindval@[k]).ind == y[st + k].ind - i0 && newindval@[k].val == y[st + k].val && y[st + k].ind < i1,
  ensures newindval@.len() == it - st, it <= y.len(), it == y.len() || y[it as int].ind >= i1,
    forall|k: int| 0 <= k < newindval@.len() ==> (#[trigger] newindval@[k]).ind == y[st + k].ind - i0 && newindval@[k].val == y[st + k].val && y[st + k].ind < i1,
  decreases y.len() - it
@at loop 0 before
  let ghost st = it as int;
  proof { assert forall|k: int| st <= k < y.len() implies (#[trigger] y[k]).ind >= i0 by { } }
@at loop 0 after
  proof {
    let z = newindval@;
    assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind < (#[trigger] z[b]).ind by { assert(y[st + a].ind < y[st + b].ind); }
    ssorted_sdist(z);
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[st + k].val != F::szero()); } }
    assert forall|i: int| #[trigger] sval(z, i) == if 0 <= i && i + i0 < i1 { sval(y, i + i0) } else { F::szero() } by {
      let k = sval_find(z, i); let a = sval_find(y, i + i0);
      if k != -1 { assert(y[st + k].ind == i + i0); assert(a == st + k); }
      else if 0 <= i && i + i0 < i1 && a != -1 { if a >= st && a < it { assert(z[a - st].ind == i); } if a >= it { if a > it { assert(y[it as int].ind < y[a].ind); } } if a < st { assert(y[a].ind < i0); } }
    }
  }
@fn SV<F>::J(usize) as sv_J
@prop P04
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, m as int)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), sbelow(final(this).indval@, m as int),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == sval(old(this).indval@, m - 1 - i),
@at entry
  let ghost y = this.indval@;
@loop 0
  invariant i <= y.len(), this.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] this.indval@[k]).val == y[k].val && this.indval@[k].ind == if k < i { m - 1 - y[k].ind } else { y[k].ind as int }
  decreases y.len() - i
@at loop 0 begin
  assert(y[i as int].ind < m);
@at before sv_sort 0
  let ghost z = this.indval@;
  proof {
    assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind != (#[trigger] z[b]).ind by { assert(y[a].ind < y[b].ind); }
    ssorted_sdist(y);
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
    assert(sbelow(z, m as int)) by { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind < m by { assert(y[k].ind < m); } }
    assert forall|i: int| #[trigger] sval(z, i) == sval(y, m - 1 - i) by { sval_pos(z, i, y, m - 1 - i); }
  }
@fn SV<F>::swap_rows(usize, usize) as sv_swap_rows
@prop P04
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k == i { sval(old(this).indval@, j as int) } else if k == j { sval(old(this).indval@, i as int) } else { sval(old(this).indval@, k) },
@at entry
  let ghost y = this.indval@;
  proof { ssorted_sdist(y); assert(y.subrange(0, y.len() as int) =~= y); let a = sval_find(y, i as int); let b = sval_find(y, j as int); }
@at before sv_sort 0
  let ghost z = this.indval@;
  proof { assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind != (#[trigger] z[b]).ind by { assert(y[a].ind < y[b].ind); }
    assert forall|k: int| #[trigger] sval(z, k) == if k == i { sval(y, j as int) } else if k == j { sval(y, i as int) } else { sval(y, k) } by { let k2: int = if k == i { j as int } else if k == j { i as int } else { k }; 
      assert forall|l: int| 0 <= l < z.len() implies (#[trigger] z[l]).val == y[l].val && (z[l].ind as int == k <==> y[l].ind as int == k2) by { assert(y[l].ind < y[pi as int].ind || l >= pi); assert(y[pi as int].ind < y[l].ind || l <= pi); }
      sval_pos(z, k, y, k2); }
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
  }
@at before sv_sort 1
  let ghost z = this.indval@;
  proof { assert forall|a: int, b: int| 0 <= a < b < z.len() implies (#[trigger] z[a]).ind != (#[trigger] z[b]).ind by { assert(y[a].ind < y[b].ind); }
    assert forall|k: int| #[trigger] sval(z, k) == if k == i { sval(y, j as int) } else if k == j { sval(y, i as int) } else { sval(y, k) } by { let k2: int = if k == i { j as int } else if k == j { i as int } else { k }; 
      assert forall|l: int| 0 <= l < z.len() implies (#[trigger] z[l]).val == y[l].val && (z[l].ind as int == k <==> y[l].ind as int == k2) by { assert(y[l].ind < y[pj as int].ind || l >= pj); assert(y[pj as int].ind < y[l].ind || l <= pj); }
      sval_pos(z, k, y, k2); }
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
  }
@at exit
  proof {
    let t = this.indval@;
    if pi < y.len() && pj < y.len() && y[pi as int].ind == i && y[pj as int].ind == j {
      if i != j { let u = y.update(pi as int, Nz { ind: y[pi as int].ind, val: y[pj as int].val });
      assert(t =~= u.update(pj as int, Nz { ind: y[pj as int].ind, val: y[pi as int].val }));
      sval_setval(y, pi as int, y[pj as int].val); sval_setval(u, pj as int, y[pi as int].val); sval_at(y, pi as int); sval_at(y, pj as int); } else { assert(t =~= y); }
    }
  }
@fn SV<F>::scale_inplace(usize, F) as sv_scale_at
@prop P03
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k == i { F::smul(c, sval(old(this).indval@, k)) } else { sval(old(this).indval@, k) },
@at entry
  broadcast use field_basic;
  let ghost y = this.indval@;
  proof { ssorted_sdist(y); assert(y.subrange(0, y.len() as int) =~= y); let a = sval_find(y, i as int); }
@at before return 0
  proof { sval_remove(y, pi as int); }
@at before return 1
  proof { if pi < y.len() && y[pi as int].ind == i { let v = F::smul(c, y[pi as int].val); sval_setval(y, pi as int, v); assert(this.indval@ =~= y.update(pi as int, Nz { ind: y[pi as int].ind, val: v })); sval_at(y, pi as int); } }
@fn SV<F>::erase_last_row_of_matrix(usize) as sv_erase_last_row
@prop P04
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, i + 1)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), sbelow(final(this).indval@, i as int),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k == i { F::szero() } else { sval(old(this).indval@, k) },
@at entry
  let ghost y = this.indval@;
  proof { if y.len() > 0 && y.last().ind == i { sval_remove(y, y.len() - 1); assert(y.remove(y.len() - 1) =~= y.drop_last()); } else { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind < i by { assert(y.last() == y[y.len() - 1]); assert(y[k].ind < i + 1); if k < y.len() - 1 { assert(y[k].ind < y[y.len() - 1].ind); assert(y[y.len() - 1].ind < i + 1); } } sval_absent(y, i as int); } }
@at exit
  proof { if y.len() > 0 && y.last().ind == i { assert forall|k: int| 0 <= k < this.indval@.len() implies (#[trigger] this.indval@[k]).ind < i by { assert(this.indval@[k] == y[k]); assert(y[k].ind < y[y.len() - 1].ind); } } }
@fn SV<F>::erase_rows_after(usize) as sv_erase_after
@prop P04
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), sbelow(final(this).indval@, m + 1),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k > m { F::szero() } else { sval(old(this).indval@, k) },
@at entry
  let ghost y = this.indval@;
@loop 0
  invariant this.indval@.len() <= y.len(), this.indval@ == y.take(this.indval@.len() as int), forall|k: int| this.indval@.len() <= k < y.len() ==> (#[trigger] y[k]).ind > m
  decreases this.indval@.len()
@at exit
  proof { let n = this.indval@.len() as int; let t = this.indval@; sval_part(y, 0, n); assert(y.subrange(0, n) =~= t); 
    assert(sbelow(t, m + 1)) by { assert forall|k: int| 0 <= k < n implies (#[trigger] t[k]).ind < m + 1 by { assert(t[k] == y[k]); if k < n - 1 { assert(y[k].ind < y[n - 1].ind); } assert(t[n - 1] == y[n - 1]); } }
    assert forall|k: int| #[trigger] sval(t, k) == if k > m { F::szero() } else { sval(y, k) } by { if k > m { sval_absent(t, k); } } }
