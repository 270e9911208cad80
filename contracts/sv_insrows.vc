@unit la
@uses sv_edit2
@rust
pub open spec fn insrow_at(r: Seq<usize>, c: int, p: int) -> bool { 0 <= c <= r.len() && (forall|a: int| 0 <= a < c ==> (#[trigger] r[a]) < p) && (forall|a: int| c <= a < r.len() ==> (#[trigger] r[a]) > p) }
pub open spec fn moved<F>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, r: Seq<usize>, cs: Seq<int>, n: int) -> bool {
    cs.len() == n && n <= y.len() && t.len() >= y.len() && (forall|k: int| 0 <= k < n ==> inswit(r, y[k].ind as int, (#[trigger] t[k]).ind as int, cs[k]) && t[k].val == y[k].val) && (forall|k: int| n <= k < y.len() ==> #[trigger] t[k] == y[k])
}
pub proof fn moved_sval<F: Field>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, r: Seq<usize>, cs: Seq<int>)
    requires moved(y, t, r, cs, y.len() as int), t.len() == y.len(), ssorted(y), strict_usize(r)
    ensures ssorted(t), snz(y) ==> snz(t), forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && p >= 0 ==> sval(t, p) == sval(y, p - c),
        forall|a: int| 0 <= a < r.len() ==> sval(t, (#[trigger] r[a]) as int) == F::szero(), forall|k: int, a: int| 0 <= k < t.len() && 0 <= a < r.len() ==> (#[trigger] t[k]).ind != #[trigger] r[a], forall|m: int| sbelow(y, m) ==> #[trigger] sbelow(t, m + r.len()),
{
    assert forall|m: int| sbelow(y, m) implies #[trigger] sbelow(t, m + r.len()) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind < m + r.len() by { assert(inswit(r, y[k].ind as int, t[k].ind as int, cs[k])); assert(y[k].ind < m); } }
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ind < (#[trigger] t[b]).ind by { assert(y[a].ind < y[b].ind); inspos_mono(r, y[a].ind as int, t[a].ind as int, cs[a], y[b].ind as int, t[b].ind as int, cs[b]); }
    if snz(y) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
    ssorted_sdist(t); ssorted_sdist(y);
    assert forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && p >= 0 implies sval(t, p) == sval(y, p - c) by {
        assert(inswit(r, p - c, p, c));
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val == y[k].val && (t[k].ind as int == p <==> y[k].ind as int == p - c) by {
            inspos_mono(r, p - c, p, c, y[k].ind as int, t[k].ind as int, cs[k]); inspos_mono(r, y[k].ind as int, t[k].ind as int, cs[k], p - c, p, c);
        }
        sval_pos(t, p, y, p - c);
    }
    assert forall|k: int, a: int| 0 <= k < t.len() && 0 <= a < r.len() implies (#[trigger] t[k]).ind != #[trigger] r[a] by { assert(inswit(r, y[k].ind as int, t[k].ind as int, cs[k])); }
    assert forall|a: int| 0 <= a < r.len() implies sval(t, (#[trigger] r[a]) as int) == F::szero() by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind as int != r[a] as int by { } sval_absent(t, r[a] as int); }
}
@end
@fn SV<F>::insert_rows(Vec<usize>, Vec<F>) as sv_insert_rows_v
@prop P04
@requires
  ssorted(old(this).indval@), strict_usize(r_inds@), r_inds@.len() <= r_vals@.len(), r_inds@.len() <= i64::MAX, sbelow(old(this).indval@, usize::MAX - r_inds@.len())
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) && (forall|k: int| 0 <= k < r_inds@.len() ==> #[trigger] r_vals@[k] != F::szero()) ==> snz(final(this).indval@),
  forall|a: int| 0 <= a < r_inds@.len() ==> sval(final(this).indval@, (#[trigger] r_inds@[a]) as int) == r_vals@[a],
  forall|c: int, p: int| #[trigger] insrow_at(r_inds@, c, p) && p >= 0 ==> sval(final(this).indval@, p) == sval(old(this).indval@, p - c),
@at entry
  broadcast use sv_basic;
  let ghost y = this.indval@; let ghost r = r_inds@; let ghost mut cs: Seq<int> = Seq::empty(); let ghost mut z = y;
@loop 0
  invariant iv <= y.len(), this.indval@.len() == y.len(), moved(y, this.indval@, r, cs, iv as int)
  decreases y.len() - iv
@at loop 0 begin
  let ghost lb0 = this.indval@;
  proof { assert(y[iv as int].ind < usize::MAX - r.len()); assert(r.subrange(0, r.len() as int) =~= r); }
@loop 1
  invariant it_r_inds <= r.len(), iv < y.len(), this.indval@.len() == y.len(), this.indval@[iv as int].ind == y[iv as int].ind + it_r_inds, this.indval@[iv as int].val == y[iv as int].val,
    forall|a: int| 0 <= a < it_r_inds ==> (#[trigger] r[a]) < this.indval@[iv as int].ind, moved(y, this.indval@.update(iv as int, y[iv as int]), r, cs, iv as int)
  decreases r.len() - it_r_inds
@at loop 1 before
  proof { assert(this.indval@.update(iv as int, y[iv as int]) =~= lb0); }
@at loop 1 begin
  let ghost l1 = this.indval@;
@at loop 1 end
  proof { assert(this.indval@.update(iv as int, y[iv as int]) =~= l1.update(iv as int, y[iv as int])); }
@at loop 1 after
  proof {
    let t = this.indval@; let u = t.update(iv as int, y[iv as int]); cs = cs.push(it_r_inds as int);
    assert forall|a: int| it_r_inds <= a < r.len() implies (#[trigger] r[a]) > t[iv as int].ind by { if a > it_r_inds { assert(r[it_r_inds as int] < r[a]); } }
    assert forall|k: int| 0 <= k < iv + 1 implies inswit(r, y[k].ind as int, (#[trigger] t[k]).ind as int, cs[k]) && t[k].val == y[k].val by { if k < iv { assert(u[k] == t[k]); assert(inswit(r, y[k].ind as int, u[k].ind as int, cs[k])); } }
    assert forall|k: int| iv + 1 <= k < y.len() implies #[trigger] t[k] == y[k] by { assert(u[k] == t[k]); }
  }
@at loop 2 before
  proof { z = this.indval@; moved_sval(y, z, r, cs); }
@loop 2
  invariant i <= r.len(), this.indval@.len() == z.len() + i, forall|k: int| 0 <= k < z.len() ==> #[trigger] this.indval@[k] == z[k], forall|k: int| z.len() <= k < z.len() + i ==> #[trigger] this.indval@[k] == (Nz { ind: r[k - z.len()], val: r_vals@[k - z.len()] }),
    forall|p: int| #[trigger] sval(this.indval@, p) == sval(z, p) || exists|a: int| 0 <= a < i && (#[trigger] r[a]) == p,
    sdist(this.indval@), 
  decreases r.len() - i
@at loop 2 begin
  let ghost l2 = this.indval@;
@at loop 2 end
  proof { let t = this.indval@; let n = z.len() as int; 
    assert forall|p: int| #[trigger] sval(t, p) == sval(z, p) || exists|a: int| 0 <= a < i + 1 && (#[trigger] r[a]) == p by { assert(sval(l2, p) == sval(z, p) || exists|a: int| 0 <= a < i && (#[trigger] r[a]) == p); if p == r[i as int] { } }
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ind != (#[trigger] t[b]).ind by { if b < n { assert(z[a].ind < z[b].ind); } else if a < n { assert(z[a].ind != r[b - n]); } else { assert(r[a - n] < r[b - n]); } } }
@at before sv_sort 0
  let ghost w = this.indval@;
  proof { let n = z.len() as int;
    assert forall|a: int| 0 <= a < r.len() implies sval(w, (#[trigger] r[a]) as int) == r_vals@[a] by { assert(w[n + a].ind == r[a]); sval_at_d(w, n + a); }
    assert forall|c: int, p: int| #[trigger] insrow_at(r, c, p) && p >= 0 implies sval(w, p) == sval(y, p - c) by { assert(sval(z, p) == sval(y, p - c)); assert(sval(w, p) == sval(z, p)); }
    if snz(y) && (forall|k: int| 0 <= k < r.len() ==> #[trigger] r_vals@[k] != F::szero()) { assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).val != F::szero() by { if k < n { assert(z[k].val != F::szero()); } else { assert(r_vals@[k - n] != F::szero()); } } }
  }
@fn SV<F>::insert_rows(Vec<usize>, usize) as sv_insert_rows
@prop P04
@requires
  ssorted(old(this).indval@), strict_usize(r_inds@), ninserted <= r_inds@.len(), forall|a: int| 0 <= a < ninserted ==> #[trigger] r_inds@[a] == a, r_inds@.len() <= i64::MAX, sbelow(old(this).indval@, usize::MAX - r_inds@.len())
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|a: int| 0 <= a < r_inds@.len() ==> sval(final(this).indval@, (#[trigger] r_inds@[a]) as int) == F::szero(),
  forall|c: int, p: int| #[trigger] insrow_at(r_inds@, c, p) && p >= 0 ==> sval(final(this).indval@, p) == sval(old(this).indval@, p - c),
  forall|m: int| sbelow(old(this).indval@, m) ==> #[trigger] sbelow(final(this).indval@, m + r_inds@.len()),
@at entry
  let ghost y = this.indval@; let ghost r = r_inds@; let ghost mut cs: Seq<int> = Seq::empty();
@at before return 0
  proof { moved_sval(y, y, r, Seq::new(y.len(), |k: int| 0)); }
@loop 0
  invariant iv <= y.len(), this.indval@.len() == y.len(), moved(y, this.indval@, r, cs, iv as int), ninserted <= r.len(), iv < y.len() ==> forall|a: int| 0 <= a < ninserted ==> (#[trigger] r[a]) < y[iv as int].ind + ninserted,
  decreases y.len() - iv
@at loop 0 begin
  let ghost lb0 = this.indval@;
  proof { assert(y[iv as int].ind < usize::MAX - r.len()); assert forall|i: int, j: int| 0 <= i <= j < r.subrange(ninserted as int, r.len() as int).len() implies #[trigger] r.subrange(ninserted as int, r.len() as int)[i] <= #[trigger] r.subrange(ninserted as int, r.len() as int)[j] by { if i < j { assert(r[ninserted + i] < r[ninserted + j]); } } }
@at loop 1 before
  proof { assert(this.indval@.update(iv as int, y[iv as int]) =~= lb0); }
@loop 1
  invariant ri <= r.len(), ninserted == ri, iv < y.len(), this.indval@.len() == y.len(), this.indval@[iv as int].ind == y[iv as int].ind + ri, this.indval@[iv as int].val == y[iv as int].val,
    forall|a: int| 0 <= a < ri ==> (#[trigger] r[a]) < this.indval@[iv as int].ind, moved(y, this.indval@.update(iv as int, y[iv as int]), r, cs, iv as int)
  decreases r.len() - ri
@at loop 1 begin
  let ghost l1 = this.indval@;
@at loop 1 end
  proof { assert(this.indval@.update(iv as int, y[iv as int]) =~= l1.update(iv as int, y[iv as int])); }
@at loop 1 after
  proof {
    let t = this.indval@; let u = t.update(iv as int, y[iv as int]); cs = cs.push(ri as int);
    assert forall|a: int| ri <= a < r.len() implies (#[trigger] r[a]) > t[iv as int].ind by { if a > ri { assert(r[ri as int] < r[a]); } }
    assert forall|k: int| 0 <= k < iv + 1 implies inswit(r, y[k].ind as int, (#[trigger] t[k]).ind as int, cs[k]) && t[k].val == y[k].val by { if k < iv { assert(u[k] == t[k]); assert(inswit(r, y[k].ind as int, u[k].ind as int, cs[k])); } }
    assert forall|k: int| iv + 1 <= k < y.len() implies #[trigger] t[k] == y[k] by { assert(u[k] == t[k]); }
    if iv + 1 < y.len() { assert(y[iv as int].ind < y[iv + 1].ind); }
  }
@at exit
  proof { moved_sval(y, this.indval@, r, cs); }
