@unit la
@uses sv_edit
@rust
pub open spec fn mixed<F: Field>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, i: int, j: int, na: F, nb: F) -> bool {
    ssorted(t) && (forall|k: int| #[trigger] sval(t, k) == if k == i { na } else if k == j { nb } else { sval(y, k) })
}
// all entries but the one of row i are nonzero
pub open spec fn snzx<F: Field>(t: Seq<Nz<F>>, i: int) -> bool { forall|k: int| 0 <= k < t.len() && (#[trigger] t[k]).ind != i ==> t[k].val != F::szero() }
pub proof fn mix_both<F: Field>(y: Seq<Nz<F>>, pi: int, pj: int, na: F, nb: F)
    requires ssorted(y), 0 <= pi < y.len(), 0 <= pj < y.len(), y[pi].ind != y[pj].ind
    ensures ({ let u = y.update(pi, Nz { ind: y[pi].ind, val: na }).update(pj, Nz { ind: y[pj].ind, val: nb }); 
        mixed(y, u, y[pi].ind as int, y[pj].ind as int, na, nb) && (snz(y) && nb != F::szero() ==> snzx(u, y[pi].ind as int))
        && (nb == F::szero() ==> mixed(y, u.remove(pj), y[pi].ind as int, y[pj].ind as int, na, nb) && (snz(y) ==> snzx(u.remove(pj), y[pi].ind as int)) && u.remove(pj)[if pi < pj { pi } else { pi - 1 }].ind == y[pi].ind) })
{
    let u1 = y.update(pi, Nz { ind: y[pi].ind, val: na }); sval_setval(y, pi, na); sval_setval(u1, pj, nb); let u = u1.update(pj, Nz { ind: y[pj].ind, val: nb });
    if snz(y) && nb != F::szero() { assert forall|k: int| 0 <= k < u.len() && (#[trigger] u[k]).ind != y[pi].ind implies u[k].val != F::szero() by { if k != pj && k != pi { assert(y[k].val != F::szero()); } } }
    if nb == F::szero() { sval_remove(u, pj); let r = u.remove(pj);
        if snz(y) { assert forall|k: int| 0 <= k < r.len() && (#[trigger] r[k]).ind != y[pi].ind implies r[k].val != F::szero() by { let l = if k < pj { k } else { k + 1 }; assert(r[k] == u[l]); if l != pi { assert(u[l] == y[l]); assert(y[l].val != F::szero()); } } } }
}
pub proof fn mix_one<F: Field>(y: Seq<Nz<F>>, pi: int, pj: int, j: usize, na: F, nb: F)
    requires ssorted(y), 0 <= pi < y.len(), 0 <= pj <= y.len(), forall|k: int| 0 <= k < pj ==> (#[trigger] y[k]).ind < j, forall|k: int| pj <= k < y.len() ==> (#[trigger] y[k]).ind > j
    ensures ({ let u = y.update(pi, Nz { ind: y[pi].ind, val: na }); let r = u.insert(pj, Nz { ind: j, val: nb });
        (nb == F::szero() ==> mixed(y, u, y[pi].ind as int, j as int, na, nb) && (snz(y) ==> snzx(u, y[pi].ind as int)))
        && (nb != F::szero() ==> mixed(y, r, y[pi].ind as int, j as int, na, nb) && (snz(y) ==> snzx(r, y[pi].ind as int)) && r[if pi < pj { pi } else { pi + 1 }].ind == y[pi].ind) })
{
    let u = y.update(pi, Nz { ind: y[pi].ind, val: na }); sval_setval(y, pi, na); sval_absent(y, j as int);
    assert forall|k: int| 0 <= k < pj implies (#[trigger] u[k]).ind < j by { assert(y[k].ind < j); }
    assert forall|k: int| pj <= k < u.len() implies (#[trigger] u[k]).ind > j by { assert(y[k].ind > j); }
    sval_insert(u, pj, Nz { ind: j, val: nb }); let r = u.insert(pj, Nz { ind: j, val: nb });
    if snz(y) { assert forall|k: int| 0 <= k < u.len() && (#[trigger] u[k]).ind != y[pi].ind implies u[k].val != F::szero() by { if k != pi { assert(y[k].val != F::szero()); } }
      if nb != F::szero() { assert forall|k: int| 0 <= k < r.len() && (#[trigger] r[k]).ind != y[pi].ind implies r[k].val != F::szero() by { if k != pj { let l = if k < pj { k } else { k - 1 }; assert(r[k] == u[l]); } } } }
}
pub proof fn mix_fin<F: Field>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, p: int, i: int, j: int, na: F, nb: F)
    requires mixed(y, t, i, j, na, nb), 0 <= p < t.len(), t[p].ind == i
    ensures na == F::szero() ==> mixed(y, t.remove(p), i, j, na, nb) && (snzx(t, i) ==> snz(t.remove(p))), na != F::szero() && snzx(t, i) ==> snz(t), t[p].val == na
{
    sval_at(t, p); sval_remove(t, p); let r = t.remove(p);
    if na == F::szero() && snzx(t, i) { assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).val != F::szero() by { let l = if k < p { k } else { k + 1 }; assert(r[k] == t[l]); if l < p { assert(t[l].ind < t[p].ind); } else { assert(t[p].ind < t[l].ind); } } }
    if na != F::szero() && snzx(t, i) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val != F::szero() by { if k < p { assert(t[k].ind < t[p].ind); } else if k > p { assert(t[p].ind < t[k].ind); } } }
}
@end
@fn SV<F>::mix_rows(usize, usize, F, F, F, F) as sv_mix_rows
@prop P03
@opt rlimit=100 spinoff=1
@requires
  ssorted(old(this).indval@), i != j
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|k: int| #[trigger] sval(final(this).indval@, k) == if k == i { F::sadd(F::smul(a, sval(old(this).indval@, i as int)), F::smul(b, sval(old(this).indval@, j as int))) } else if k == j { F::sadd(F::smul(c, sval(old(this).indval@, i as int)), F::smul(d, sval(old(this).indval@, j as int))) } else { sval(old(this).indval@, k) },
@at entry
  broadcast use field_basic;
  let ghost y = this.indval@; let ghost mut pa: int = -1; let ghost mut pb: int = -1;
  let ghost na = F::sadd(F::smul(a, sval(y, i as int)), F::smul(b, sval(y, j as int))); let ghost nb = F::sadd(F::smul(c, sval(y, i as int)), F::smul(d, sval(y, j as int)));
  proof {
    ssorted_sdist(y); assert(y.subrange(0, y.len() as int) =~= y); pa = sval_find(y, i as int); pb = sval_find(y, j as int);
    if pa != -1 && pb != -1 { mix_both(y, pa, pb, na, nb); let u = y.update(pa, Nz { ind: y[pa].ind, val: na }).update(pb, Nz { ind: y[pb].ind, val: nb }); mix_fin(y, u, pa, i as int, j as int, na, nb); }
  }
@at after erase 0
  proof { let u = y.update(pa, Nz { ind: y[pa].ind, val: na }).update(pb, Nz { ind: y[pb].ind, val: nb }); let z = this.indval@; assert(pi == pa && pj == pb); assert(z =~= u.remove(pb)); assert(z.subrange(0, z.len() as int) =~= z); mix_fin(y, z, if pa < pb { pa } else { pa - 1 }, i as int, j as int, na, nb); }
@at before insert 0
  proof { assert(pi == pa); assert(forall|k: int| pj <= k < y.len() ==> (#[trigger] y[k]).ind != j); }
@at after insert 0
  proof { mix_one(y, pa, pj as int, j, na, nb); let u = y.update(pa, Nz { ind: y[pa].ind, val: na }); let z = this.indval@; assert(z =~= u.insert(pj as int, Nz { ind: j, val: nb })); assert(z.subrange(0, z.len() as int) =~= z); mix_fin(y, z, if pa < pj { pa } else { pa + 1 }, i as int, j as int, na, nb); }
@at before erase 1
  proof { let z = this.indval@; 
    if pb == -1 && nb == F::szero() { mix_one(y, pa, pj as int, j, na, nb); assert(z =~= y.update(pa, Nz { ind: y[pa].ind, val: na })); }
    if pb != -1 && nb != F::szero() { assert(z =~= y.update(pa, Nz { ind: y[pa].ind, val: na }).update(pb, Nz { ind: y[pb].ind, val: nb })); }
    mix_fin(y, z, pi as int, i as int, j as int, na, nb); }
@at before erase 2
  proof { assert(pj == pb); sval_remove(y, pb); let r = y.remove(pb); assert(r.subrange(0, r.len() as int) =~= r); assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).ind != i by { assert(r[k] == y[if k < pb { k } else { k + 1 }]); } }
@at before insert 1
  proof { let z = this.indval@; if nb != F::szero() { sval_setval(y, pb, nb); assert(z =~= y.update(pb, Nz { ind: y[pb].ind, val: nb })); }
    assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).ind != i by { if nb != F::szero() { assert(z[k].ind == y[k].ind); } else { assert(z[k] == y[if k < pb { k } else { k + 1 }]); } }
    assert(0 <= ins1 <= z.len());
    sval_insert(z, ins1 as int, Nz { ind: i, val: na }); }
@at exit
  proof { let z = this.indval@;
    if pa == -1 && pb == -1 { assert(z == y); }
    if pa != -1 && na != F::szero() { 
      if pb == -1 && nb == F::szero() { mix_one(y, pa, pj as int, j, na, nb); assert(z =~= y.update(pa, Nz { ind: y[pa].ind, val: na })); }
      if pb != -1 && nb != F::szero() { assert(z =~= y.update(pa, Nz { ind: y[pa].ind, val: na }).update(pb, Nz { ind: y[pb].ind, val: nb })); }
      mix_fin(y, z, pi as int, i as int, j as int, na, nb); }
    if pa == -1 && pb != -1 && na == F::szero() { if nb != F::szero() { sval_setval(y, pb, nb); assert(z =~= y.update(pb, Nz { ind: y[pb].ind, val: nb })); } }
  }
