@unit la
@uses quiv_ops quiv_com
@rust
pub open spec fn lfe(e: DEdge) -> bool { e.targ < e.src }
pub open spec fn dlf<F: Field>(D: Dgm<F>) -> spec_fn(int) -> bool { |k: int| lfe(D.elist@[k]) }
// the dimensions of the nodes
pub open spec fn dnd<F: Field>(D: Dgm<F>) -> spec_fn(int) -> int { |k: int| if 0 <= k < D.edata@.len() { (if lfe(D.elist@[k]) { D.edata@[k].m } else { D.edata@[k].n }) as int } else if 0 < k == D.edata@.len() { (if lfe(D.elist@[k - 1]) { D.edata@[k - 1].n } else { D.edata@[k - 1].m }) as int } else { 0int } }
pub open spec fn dem<F: Field>(D: Dgm<F>, k: int, M: CM<F>) -> bool { edgem(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), M) }
pub open spec fn dgok<F: Field>(D: Dgm<F>) -> bool { D.edata@.len() >= 1 && D.elist@.len() == D.edata@.len() && forall|k: int| 0 <= k < D.edata@.len() ==> dem(D, k, #[trigger] D.edata@[k]) }
pub open spec fn dfg<F: Field>(D: Dgm<F>, el: bool, k: int, f: SFact<F>) -> bool { fgen(el, dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), f) }
pub open spec fn dfe<F: Field>(D: Dgm<F>, el: bool, k: int, E: CM<F>) -> bool { eshape(el, dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), E) }
pub open spec fn dfr<F: Field>(D: Dgm<F>, el: bool, k: int, f: SFact<F>) -> MF<F> { fro(el, dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), f) }
// edges p-1 and p after a change of basis at node p
pub open spec fn dch<F: Field>(D: Dgm<F>, p: int, R0: MF<F>, S0: MF<F>, R1: MF<F>, S1: MF<F>) -> bool { nchg(dlf(D)(p - 1), dlf(D)(p), dnd(D)(p - 1), dnd(D)(p), dnd(D)(p + 1), R0, S0, R1, S1) }
pub open spec fn except1<T>(s: Seq<T>, t: Seq<T>, i: int) -> bool { s.len() == t.len() && forall|k: int| 0 <= k < s.len() && k != i ==> #[trigger] s[k] == t[k] }
pub open spec fn except2<T>(s: Seq<T>, t: Seq<T>, i: int, j: int) -> bool { s.len() == t.len() && forall|k: int| 0 <= k < s.len() && k != i && k != j ==> #[trigger] s[k] == t[k] }
@end
@fn bats::is_left_arrow(DEdge) as is_left_arrow
@prop P19
@ensures
  ret == lfe(*e)
@fn bats::pass_UP_right(Dgm<F>, &mut Vec<SFact<F>>, &mut Vec<CM<F>>, i64) as pass_up_right
@prop P19
@requires
  dgok(*dgm), 0 <= i, i + 1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), old(mats)@.len() == dgm.edata@.len(), dfg(*dgm, true, i as int, old(facts)@[i as int]), dem(*dgm, i + 1, old(mats)@[i + 1])
@ensures
  except1(final(facts)@, old(facts)@, i as int), except1(final(mats)@, old(mats)@, i + 1),
  dem(*dgm, i + 1, final(mats)@[i + 1]), dfg(*dgm, true, i as int, final(facts)@[i as int]), final(facts)@[i as int].L == old(facts)@[i as int].L, final(facts)@[i as int].E == old(facts)@[i as int].E,
  is_identn(final(facts)@[i as int].U, dnd(*dgm)(i + 1)), is_identn(final(facts)@[i as int].P, dnd(*dgm)(i + 1)),
  dch(*dgm, i + 1, dfr(*dgm, true, i as int, old(facts)@[i as int]), dfr(*dgm, true, i as int, final(facts)@[i as int]), fm(old(mats)@[i + 1]), fm(final(mats)@[i + 1]))
@at entry
  let ghost D = *dgm;
  let ghost f0 = facts@[i as int];
  let ghost M0 = mats@[i + 1];
  proof { vec_max(dgm.elist); upr_all(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i as int), dnd(D)(i + 1), dnd(D)(i + 2), f0, M0); }
@at after if 0
  proof { assert(upr_nx(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i as int), dnd(D)(i + 1), dnd(D)(i + 2), f0, M0, mats@[i + 1])); }
@at exit
  proof { upr_fin(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i as int), dnd(D)(i + 1), dnd(D)(i + 2), f0, facts@[i as int], M0, mats@[i + 1]); }
@fn bats::pass_PL_left(Dgm<F>, &mut Vec<SFact<F>>, &mut Vec<CM<F>>, i64) as pass_pl_left
@prop P19
@requires
  dgok(*dgm), 1 <= i, i < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), old(mats)@.len() == dgm.edata@.len(), dfg(*dgm, false, i as int, old(facts)@[i as int]), dem(*dgm, i - 1, old(mats)@[i - 1])
@ensures
  except1(final(facts)@, old(facts)@, i as int), except1(final(mats)@, old(mats)@, i - 1),
  dem(*dgm, i - 1, final(mats)@[i - 1]), dfg(*dgm, false, i as int, final(facts)@[i as int]), final(facts)@[i as int].U == old(facts)@[i as int].U, final(facts)@[i as int].E == old(facts)@[i as int].E,
  is_identn(final(facts)@[i as int].L, dnd(*dgm)(i as int)), is_identn(final(facts)@[i as int].P, dnd(*dgm)(i as int)),
  dch(*dgm, i as int, fm(old(mats)@[i - 1]), fm(final(mats)@[i - 1]), dfr(*dgm, false, i as int, old(facts)@[i as int]), dfr(*dgm, false, i as int, final(facts)@[i as int]))
@at entry
  let ghost D = *dgm;
  let ghost f0 = facts@[i as int];
  let ghost M0 = mats@[i - 1];
  proof { pll_all(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), dnd(D)(i + 1), f0, M0); }
@at after if 0
  proof { assert(pll_nx(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), dnd(D)(i + 1), f0, M0, mats@[i - 1])); }
@at exit
  proof { pll_fin(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), dnd(D)(i + 1), f0, facts@[i as int], M0, mats@[i - 1]); }
@fn bats::pass_L_left(Dgm<F>, &mut Vec<SFact<F>>, i64) as pass_l_left
@prop P19
@requires
  dgok(*dgm), 1 <= i, i < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), dfg(*dgm, true, i as int, old(facts)@[i as int]), dfg(*dgm, true, i - 1, old(facts)@[i - 1]), dfe(*dgm, true, i - 1, old(facts)@[i - 1].E),
  is_identn(old(facts)@[i - 1].U, dnd(*dgm)(i as int)), is_identn(old(facts)@[i - 1].P, dnd(*dgm)(i as int))
@ensures
  except2(final(facts)@, old(facts)@, i - 1, i as int), dfg(*dgm, true, i as int, final(facts)@[i as int]), dfg(*dgm, true, i - 1, final(facts)@[i - 1]),
  final(facts)@[i as int].E == old(facts)@[i as int].E, final(facts)@[i as int].U == old(facts)@[i as int].U, final(facts)@[i as int].P == old(facts)@[i as int].P, is_identn(final(facts)@[i as int].L, dnd(*dgm)(i as int)),
  final(facts)@[i - 1].E == old(facts)@[i - 1].E, final(facts)@[i - 1].U == old(facts)@[i - 1].U, final(facts)@[i - 1].P == old(facts)@[i - 1].P,
  dch(*dgm, i as int, dfr(*dgm, true, i - 1, old(facts)@[i - 1]), dfr(*dgm, true, i - 1, final(facts)@[i - 1]), dfr(*dgm, true, i as int, old(facts)@[i as int]), dfr(*dgm, true, i as int, final(facts)@[i as int]))
@at entry
  let ghost D = *dgm;
  let ghost f0 = facts@[i - 1];
  let ghost f1 = facts@[i as int];
  proof { ll_all(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), f0, f1.L); }
@at after if 0
  proof { assert(ll_nx(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), f0, f1.L, facts@[i - 1].L)); }
@at exit
  proof { ll_fin(dlf(D)(i - 1), dlf(D)(i as int), dnd(D)(i - 1), dnd(D)(i as int), dnd(D)(i + 1), f0, facts@[i - 1], f1, facts@[i as int]); }
@fn bats::pass_U_right(Dgm<F>, &mut Vec<SFact<F>>, i64) as pass_u_right
@prop P19
@requires
  dgok(*dgm), 0 <= i, i + 1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), dfg(*dgm, false, i as int, old(facts)@[i as int]), dfg(*dgm, false, i + 1, old(facts)@[i + 1]), dfe(*dgm, false, i + 1, old(facts)@[i + 1].E),
  is_identn(old(facts)@[i + 1].L, dnd(*dgm)(i + 1)), is_identn(old(facts)@[i + 1].P, dnd(*dgm)(i + 1))
@ensures
  except2(final(facts)@, old(facts)@, i as int, i + 1), dfg(*dgm, false, i as int, final(facts)@[i as int]), dfg(*dgm, false, i + 1, final(facts)@[i + 1]),
  final(facts)@[i as int].E == old(facts)@[i as int].E, final(facts)@[i as int].L == old(facts)@[i as int].L, final(facts)@[i as int].P == old(facts)@[i as int].P, is_identn(final(facts)@[i as int].U, dnd(*dgm)(i + 1)),
  final(facts)@[i + 1].E == old(facts)@[i + 1].E, final(facts)@[i + 1].L == old(facts)@[i + 1].L, final(facts)@[i + 1].P == old(facts)@[i + 1].P,
  dch(*dgm, i + 1, dfr(*dgm, false, i as int, old(facts)@[i as int]), dfr(*dgm, false, i as int, final(facts)@[i as int]), dfr(*dgm, false, i + 1, old(facts)@[i + 1]), dfr(*dgm, false, i + 1, final(facts)@[i + 1]))
@at entry
  let ghost D = *dgm;
  let ghost f0 = facts@[i as int];
  let ghost f1 = facts@[i + 1];
  proof { vec_max(dgm.elist); ur_all(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i + 1), dnd(D)(i + 2), f1, f0.U); }
@at after if 0
  proof { assert(ur_nx(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i + 1), dnd(D)(i + 2), f1, f0.U, facts@[i + 1].U)); }
@at exit
  proof { ur_fin(dlf(D)(i as int), dlf(D)(i + 1), dnd(D)(i as int), dnd(D)(i + 1), dnd(D)(i + 2), f0, facts@[i as int], f1, facts@[i + 1]); }
