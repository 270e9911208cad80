@unit la
@uses sv_edit
@rust
// entries moved down by d from position q on
pub open spec fn seg_shift<F>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, q: int, d: int) -> bool {
    t.len() == y.len() && forall|k: int| 0 <= k < y.len() ==> (#[trigger] t[k]).val == y[k].val && t[k].ind == if k < q { y[k].ind as int } else { y[k].ind - d }
}
// where row i goes when rows are inserted at (sorted, distinct) positions r: the i-th row not in r
pub open spec fn inspos(r: Seq<usize>, i: int, p: int) -> bool { exists|c: int| #[trigger] inswit(r, i, p, c) }
pub open spec fn inswit(r: Seq<usize>, i: int, p: int, c: int) -> bool { 0 <= c <= r.len() && p == i + c && (forall|a: int| 0 <= a < c ==> (#[trigger] r[a]) < p) && (forall|a: int| c <= a < r.len() ==> (#[trigger] r[a]) > p) }
pub proof fn inspos_mono(r: Seq<usize>, i: int, p: int, c: int, i2: int, p2: int, c2: int)
    requires strict_usize(r), inswit(r, i, p, c), inswit(r, i2, p2, c2)
    ensures i < i2 ==> p < p2 && c <= c2, i == i2 ==> p == p2 && c == c2
{
    if i <= i2 && c > c2 { assert(r[c2] < p); assert(r[c2] > p2); 
        // r[c2..c) lies strictly between p2 and p: p - p2 > c - c2
        assert(r[c - 1] < p); incr_gap(r, c2, c - 1); }
    if i == i2 && c < c2 { assert(r[c] > p); assert(r[c2 - 1] < p2); incr_gap(r, c, c2 - 1); }
}
pub proof fn incr_gap(r: Seq<usize>, a: int, b: int)
    requires strict_usize(r), 0 <= a <= b < r.len()
    ensures r[b] - r[a] >= b - a
    decreases b - a
{ if a < b { incr_gap(r, a, b - 1); assert(r[b - 1] < r[b]); } }
pub open spec fn erased_row<F: Field>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, i: int) -> bool {
    ssorted(t) && (snz(y) ==> snz(t)) && (forall|k: int| #[trigger] sval(t, k) == if k < i { sval(y, k) } else { sval(y, k + 1) }) && (forall|m: int| i < m && sbelow(y, m) ==> #[trigger] sbelow(t, m - 1))
}
pub proof fn erase_row_lem<F: Field>(y: Seq<Nz<F>>, q: int, i: int, z: Seq<Nz<F>>, t: Seq<Nz<F>>)
    requires ssorted(y), 0 <= q < y.len(), forall|k: int| 0 <= k < q ==> (#[trigger] y[k]).ind < i, y[q].ind >= i, z == if y[q].ind == i { y.remove(q) } else { y }, t.len() == z.len(),
       forall|k: int| 0 <= k < z.len() ==> (#[trigger] t[k]).val == z[k].val && t[k].ind == if q <= k { z[k].ind - 1 } else { z[k].ind as int }
    ensures erased_row(y, t, i)
{
    if y[q].ind == i { sval_remove(y, q); }
    assert forall|k: int| q <= k < z.len() implies (#[trigger] z[k]).ind > i by { if y[q].ind == i { assert(z[k] == y[k + 1]); assert(y[q].ind < y[k + 1].ind); } else if k > q { assert(y[q].ind < y[k].ind); } }
    assert forall|k: int| 0 <= k < q implies (#[trigger] z[k]).ind < i by { assert(z[k] == y[k]); } 
    erase_row_lem3(q, i, z, t);
    assert(snz(y) ==> snz(t));
    assert forall|k: int| #[trigger] sval(t, k) == if k < i { sval(y, k) } else { sval(y, k + 1) } by { assert(sval(z, k) == sval(y, k) || k == i); assert(sval(z, k + 1) == sval(y, k + 1) || k + 1 == i); }
    assert forall|m: int| i < m && sbelow(y, m) implies #[trigger] sbelow(t, m - 1) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind < m - 1 by { if k < q { assert(z[k].ind < i); } else { if y[q].ind == i { assert(z[k] == y[k + 1]); assert(y[k + 1].ind < m); } else { assert(z[k] == y[k]); assert(y[k].ind < m); } } } }
}
pub proof fn erase_row_lem3<F: Field>(q: int, i: int, z: Seq<Nz<F>>, t: Seq<Nz<F>>)
    requires ssorted(z), 0 <= q <= z.len(), forall|k: int| 0 <= k < q ==> (#[trigger] z[k]).ind < i, forall|k: int| q <= k < z.len() ==> (#[trigger] z[k]).ind > i, t.len() == z.len(),
       forall|k: int| 0 <= k < z.len() ==> (#[trigger] t[k]).val == z[k].val && t[k].ind == if q <= k { z[k].ind - 1 } else { z[k].ind as int }
    ensures ssorted(t), snz(z) ==> snz(t), forall|k: int| #[trigger] sval(t, k) == if k < i { sval(z, k) } else { sval(z, k + 1) }
{
    ssorted_sdist(z);
    assert forall|a: int, c: int| 0 <= a < c < t.len() implies (#[trigger] t[a]).ind < (#[trigger] t[c]).ind by { assert(z[a].ind < z[c].ind); if a < q && c >= q { assert(z[a].ind < i); assert(z[c].ind > i); } }
    ssorted_sdist(t);
    if snz(z) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val != F::szero() by { assert(z[k].val != F::szero()); } }
    assert forall|k: int| #[trigger] sval(t, k) == if k < i { sval(z, k) } else { sval(z, k + 1) } by {
      let k2 = if k < i { k } else { k + 1 };
      assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).val == z[l].val && (t[l].ind as int == k <==> z[l].ind as int == k2) by { if l < q { assert(z[l].ind < i); } else { assert(z[l].ind > i); } }
      sval_pos(t, k, z, k2); }
}
pub proof fn erase_row_lem2<F: Field>(y: Seq<Nz<F>>, i: int)
    requires ssorted(y), forall|k: int| 0 <= k < y.len() ==> (#[trigger] y[k]).ind < i
    ensures erased_row(y, y, i)
{
    assert forall|k: int| #[trigger] sval(y, k) == if k < i { sval(y, k) } else { sval(y, k + 1) } by { if k >= i { sval_absent(y, k); sval_absent(y, k + 1); } } 
    assert forall|m: int| i < m && sbelow(y, m) implies #[trigger] sbelow(y, m - 1) by { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind < m - 1 by { assert(y[k].ind < i); } }
}
@end
@fn SV<F>::set_block(usize, usize, SV<F>) as sv_set_block
@opt rlimit=80
@prop P04
@requires
  ssorted(old(this).indval@), ssorted(b.indval@), i0 <= i1, sbelow(b.indval@, i1 - i0)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) && snz(b.indval@) ==> snz(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == if i0 <= i < i1 { sval(b.indval@, i - i0) } else { sval(old(this).indval@, i) },
@at entry
  let ghost y = this.indval@; let ghost B = b.indval@;
  proof { ssorted_sdist(y); ssorted_sdist(B); assert(y.subrange(0, y.len() as int) =~= y); 
     assert forall|a: int, c: int| 0 <= a < c < y.len() implies (#[trigger] y[a]).ind <= (#[trigger] y[c]).ind by { } }
@at before erase 0
  proof { if erb0 > ere0 { assert(y[ere0 as int].ind < i0); } }
@at after insert 0
  proof { assert(this.indval.len() == this.indval@.len()); }
@at loop 0 before
  let ghost z = this.indval@;
  proof {
    // z is y without the rows i0..i1
    assert forall|a: int| 0 <= a < z.len() implies (exists|c: int| 0 <= c < y.len() && #[trigger] y[c] == z[a]) && ((#[trigger] z[a]).ind < i0 || z[a].ind >= i1) by { 
       if a < erb0 { assert(z[a] == y[a]); } else { assert(z[a] == y[a - erb0 + ere0]); } }
    assert forall|a: int, c: int| 0 <= a < c < z.len() implies (#[trigger] z[a]).ind < (#[trigger] z[c]).ind by { let p = if a < erb0 { a } else { a - erb0 + ere0 }; let q = if c < erb0 { c } else { c - erb0 + ere0 }; assert(z[a] == y[p] && z[c] == y[q]); assert(y[p].ind < y[q].ind); }
    ssorted_sdist(z);
    if snz(y) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { let c = choose|c: int| 0 <= c < y.len() && y[c] == z[k]; assert(y[c].val != F::szero()); } }
    assert forall|i: int| #[trigger] sval(z, i) == if i0 <= i < i1 { F::szero() } else { sval(y, i) } by {
      if i0 <= i < i1 { sval_absent(z, i); } else {
        assert forall|k: int| 0 <= k < z.len() && (#[trigger] z[k]).ind as int == i implies exists|l: int| 0 <= l < y.len() && (#[trigger] y[l]).ind as int == i && y[l].val == z[k].val by { let c = choose|c: int| 0 <= c < y.len() && y[c] == z[k]; assert(y[c].ind == i); }
        assert forall|l: int| 0 <= l < y.len() && (#[trigger] y[l]).ind as int == i implies exists|k: int| 0 <= k < z.len() && (#[trigger] z[k]).ind as int == i by { let k = if l < erb0 { l } else { l - ere0 + erb0 }; assert(l < erb0 || l >= ere0); assert(z[k] == y[l]); }
        sval_same(z, i, y, i); } }
    assert(z.subrange(0, z.len() as int) =~= z);
    assert(B.take(0) =~= Seq::<Nz<F>>::empty());
  }
@loop 0
  invariant bit <= B.len(), ssorted(this.indval@), it <= this.indval@.len(), snz(y) && snz(B) ==> snz(this.indval@),
    forall|k: int| 0 <= k < it ==> (#[trigger] this.indval@[k]).ind < i0 + if bit < B.len() { B[bit as int].ind as int } else { i1 - i0 },
    forall|k: int| it <= k < this.indval@.len() ==> (#[trigger] this.indval@[k]).ind >= i1,
    forall|i: int| #[trigger] sval(this.indval@, i) == if i0 <= i < i1 { sval(B.take(bit as int), i - i0) } else { sval(y, i) },
  decreases B.len() - bit
@at loop 0 begin
  let ghost w = this.indval@;
  proof { assert(B[bit as int].ind < i1 - i0); sval_insert(w, it as int, Nz { ind: (B[bit as int].ind + i0) as usize, val: B[bit as int].val }); sval_take(B, bit as int); if bit + 1 < B.len() { assert(B[bit as int].ind < B[bit + 1].ind); } 
    if snz(B) { assert(B[bit as int].val != F::szero()); } }
@at loop 0 after
  proof { assert(B.take(B.len() as int) =~= B); }
@fn SV<F>::erase_initial_rows(usize) as sv_erase_initial
@prop P04
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k < 0 { F::szero() } else { sval(old(this).indval@, k + ndelete) },
  forall|m: int| sbelow(old(this).indval@, m) ==> #[trigger] sbelow(final(this).indval@, m - ndelete),
@at entry
  let ghost y = this.indval@; let ghost n = y.len() as int;
@loop 0
  invariant_except_break i <= n, this.indval@ == y, forall|k: int| 0 <= k < i ==> (#[trigger] y[k]).ind < ndelete
  ensures i <= n, this.indval@ == y, forall|k: int| 0 <= k < i ==> (#[trigger] y[k]).ind < ndelete, i < n ==> y[i as int].ind >= ndelete
  decreases n - i
@at loop 1 before
  let ghost st = i as int;
@loop 1
  invariant st <= i <= n, j == i - st, this.indval@.len() == n, forall|k: int| i <= k < n ==> #[trigger] this.indval@[k] == y[k],
    forall|k: int| 0 <= k < j ==> (#[trigger] this.indval@[k]).ind == y[k + st].ind - ndelete && this.indval@[k].val == y[k + st].val,
  decreases n - i
@at loop 1 begin
  proof { if i > st { assert(y[st].ind < y[i as int].ind); } }
@at exit
  proof {
    let t = this.indval@; ssorted_sdist(y);
    assert forall|k: int| st <= k < n implies (#[trigger] y[k]).ind >= ndelete by { if k > st { assert(y[st].ind < y[k].ind); } }
    assert forall|a: int, c: int| 0 <= a < c < t.len() implies (#[trigger] t[a]).ind < (#[trigger] t[c]).ind by { assert(y[a + st].ind < y[c + st].ind); }
    ssorted_sdist(t);
    if snz(y) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val != F::szero() by { assert(y[k + st].val != F::szero()); } }
    assert forall|k: int| #[trigger] sval(t, k) == if k < 0 { F::szero() } else { sval(y, k + ndelete) } by {
      if k < 0 { sval_absent(t, k); } else {
        assert forall|a: int| 0 <= a < t.len() && (#[trigger] t[a]).ind as int == k implies exists|l: int| 0 <= l < y.len() && (#[trigger] y[l]).ind as int == k + ndelete && y[l].val == t[a].val by { assert(y[a + st].ind == k + ndelete); }
        assert forall|l: int| 0 <= l < y.len() && (#[trigger] y[l]).ind as int == k + ndelete implies exists|a: int| 0 <= a < t.len() && (#[trigger] t[a]).ind as int == k by { assert(l >= st); assert(t[l - st].ind == k); }
        sval_same(t, k, y, k + ndelete); } }
    assert forall|m: int| sbelow(y, m) implies #[trigger] sbelow(t, m - ndelete) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind < m - ndelete by { assert(y[k + st].ind < m); } }
  }
@fn SV<F>::erase_last_rows_of_matrix(usize, usize) as sv_erase_last_rows
@prop P04
@opt wrap=1
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, i + 1), n_deletions <= i + 1
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@), sbelow(final(this).indval@, i + 1 - n_deletions),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k >= i + 1 - n_deletions { F::szero() } else { sval(old(this).indval@, k) },
@at entry
  let ghost y = this.indval@;
  proof { assert(y.take(y.len() as int) =~= y); }
@loop 0
  invariant j <= n_deletions, this.indval@.len() <= y.len(), this.indval@ == y.take(this.indval@.len() as int), this.indval@.len() > 0 && j <= i ==> last_row_ind == i - j,
    forall|k: int| this.indval@.len() <= k < y.len() ==> (#[trigger] y[k]).ind >= i + 1 - j,
    forall|k: int| 0 <= k < this.indval@.len() ==> (#[trigger] y[k]).ind < i + 1 - j,
  decreases n_deletions - j
@at loop 0 begin
  proof { let l = this.indval@.len() as int; if l > 0 { assert(this.indval@[l - 1] == y[l - 1]); assert forall|k: int| 0 <= k < l - 1 implies (#[trigger] y[k]).ind < y[l - 1].ind by { } assert(y[l - 1].ind < i + 1 - j); assert(y.take(l).drop_last() =~= y.take(l - 1)); } }
@at exit
  proof { let n = this.indval@.len() as int; let t = this.indval@; sval_part(y, 0, n); assert(y.subrange(0, n) =~= t); 
    assert(sbelow(t, i + 1 - n_deletions)) by { assert forall|k: int| 0 <= k < n implies (#[trigger] t[k]).ind < i + 1 - n_deletions by { assert(t[k] == y[k]); } }
    assert forall|k: int| #[trigger] sval(t, k) == if k >= i + 1 - n_deletions { F::szero() } else { sval(y, k) } by { if k >= i + 1 - n_deletions { sval_absent(t, k); } } }
@fn SV<F>::erase_for_matrix(usize) as sv_erase_row
@prop P04
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k < i { sval(old(this).indval@, k) } else { sval(old(this).indval@, k + 1) },
  forall|m: int| i < m && sbelow(old(this).indval@, m) ==> #[trigger] sbelow(final(this).indval@, m - 1),
@at entry
  let ghost y = this.indval@; let ghost mut z = y; 
  proof { assert(y.subrange(0, y.len() as int) =~= y); }
@at before return 0
  proof { assert forall|k: int| #[trigger] sval(this.indval@, k) == if k < i { sval(y, k) } else { sval(y, k + 1) } by { } }
@at loop 0 before
  let ghost q = pi as int; 
  proof { z = this.indval@;
    assert forall|k: int| q <= k < z.len() implies (#[trigger] z[k]).ind > i by { if y[q].ind == i { assert(z[k] == y[k + 1]); assert(y[q].ind < y[k + 1].ind); } else if k > q { assert(y[q].ind < y[k].ind); } } }
@loop 0
  invariant q <= pi, pi <= z.len(), this.indval@.len() == z.len(), forall|k: int| 0 <= k < z.len() ==> (#[trigger] this.indval@[k]).val == z[k].val && this.indval@[k].ind == if q <= k < pi { z[k].ind - 1 } else { z[k].ind as int }
  decreases z.len() - pi
@at loop 0 after
  proof { erase_row_lem(y, q, i as int, z, this.indval@); }
@at exit
  proof { if pi == y.len() && this.indval@ == y { erase_row_lem2(y, i as int); } }
