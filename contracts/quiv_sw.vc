@unit la
@uses quiv
@rust
pub open spec fn mrep<F: Field>(mats: Seq<CM<F>>) -> spec_fn(int) -> MF<F> { |k: int| fm(mats[k]) }
pub open spec fn frep<F: Field>(D: Dgm<F>, el: bool, fs: Seq<SFact<F>>) -> spec_fn(int) -> MF<F> { |k: int| dfr(D, el, k, fs[k]) }
// factored edges below j (el) or from j on (otherwise), the others as they are
pub open spec fn xrep<F: Field>(D: Dgm<F>, el: bool, fs: Seq<SFact<F>>, mats: Seq<CM<F>>, j: int) -> spec_fn(int) -> MF<F> { |k: int| if (k < j) == el { dfr(D, el, k, fs[k]) } else { fm(mats[k]) } }
pub open spec fn diso<F: Field>(D: Dgm<F>, ends: bool, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int) -> bool { iso(ends, dlf(D), dnd(D), R, S, j0, j1) }
pub proof fn dnd_ok<F: Field>(D: Dgm<F>) ensures ndok(dnd(D)) {}
pub open spec fn dfx<F: Field>(D: Dgm<F>, el: bool, k: int, f: SFact<F>) -> bool { dfg(D, el, k, f) && dfe(D, el, k, f.E) }
pub open spec fn upid<F: Field>(D: Dgm<F>, k: int, f: SFact<F>) -> bool { is_identn(f.U, dnd(D)(k + 1)) && is_identn(f.P, dnd(D)(k + 1)) }
pub open spec fn lpid<F: Field>(D: Dgm<F>, k: int, f: SFact<F>) -> bool { is_identn(f.L, dnd(D)(k)) && is_identn(f.P, dnd(D)(k)) }
// L E U P / P U E L on the edges j0..=j1, U and P only on the last
pub open spec fn elreg<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j0: int, j1: int) -> bool { forall|k: int| j0 <= k <= j1 ==> dfx(D, true, k, #[trigger] fs[k]) && (k < j1 ==> upid(D, k, fs[k])) }
// P L E U / U E L P, L and P only on the first
pub open spec fn eureg<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j0: int, j1: int) -> bool { forall|k: int| j0 <= k <= j1 ==> dfx(D, false, k, #[trigger] fs[k]) && (k > j0 ==> lpid(D, k, fs[k])) }
pub open spec fn lids<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, a: int, b: int) -> bool { forall|k: int| a <= k <= b ==> is_identn((#[trigger] fs[k]).L, dnd(D)(k)) }
pub open spec fn uids<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, a: int, b: int) -> bool { forall|k: int| a <= k <= b ==> is_identn((#[trigger] fs[k]).U, dnd(D)(k + 1)) }
pub open spec fn outside<T>(s: Seq<T>, t: Seq<T>, a: int, b: int) -> bool { s.len() == t.len() && forall|k: int| 0 <= k < s.len() && (k < a || k > b) ==> #[trigger] s[k] == t[k] }
pub open spec fn mats_ok<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, a: int, b: int) -> bool { forall|k: int| a <= k <= b ==> dem(D, k, #[trigger] mats[k]) }
pub proof fn fact_el<F: Field>(D: Dgm<F>, k: int, A: CM<F>, S: SFact<F>)
    requires dem(D, k, A), if dlf(D)(k) { leup_at(A, S) } else { puel_of(A, S) }
    ensures dfx(D, true, k, S), eeq(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), fm(A), dfr(D, true, k, S))
{ let l = dlf(D)(k); let a = dnd(D)(k); let b = dnd(D)(k + 1); ul_tri(S.L, a); uu_tri(S.U, b); }
pub proof fn fact_eu<F: Field>(D: Dgm<F>, k: int, A: CM<F>, S: SFact<F>)
    requires dem(D, k, A), if dlf(D)(k) { pleu_of(A, S) } else { uelp_of(A, S) }
    ensures dfx(D, false, k, S), eeq(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), fm(A), dfr(D, false, k, S))
{ let l = dlf(D)(k); let a = dnd(D)(k); let b = dnd(D)(k + 1); ul_tri(S.L, a); uu_tri(S.U, b); }
pub proof fn eeq_refl<F: Field>(l: bool, a: int, b: int, R: MF<F>) ensures eeq(l, a, b, R, R) {}
// the first factorization
pub proof fn sw1_start<F: Field>(D: Dgm<F>, el: bool, fs: Seq<SFact<F>>, mats: Seq<CM<F>>, j: int, j0: int, j1: int)
    requires dem(D, j, mats[j]), j0 <= j <= j1, if el { j == j0 } else { j == j1 }, eeq(dlf(D)(j), dnd(D)(j), dnd(D)(j + 1), fm(mats[j]), dfr(D, el, j, fs[j]))
    ensures diso(D, true, mrep(mats), xrep(D, el, fs, mats, if el { j + 1 } else { j }), j0, j1)
{
    let R = mrep(mats); let S = xrep(D, el, fs, mats, if el { j + 1 } else { j });
    assert(reqv(dlf(D), dnd(D), R, S, j0, j1)) by { assert forall|k: int| j0 <= k <= j1 implies eeq(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), #[trigger] R(k), S(k)) by { if k != j { eeq_refl(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), fm(mats[k])); } } }
    iso_eq(true, dlf(D), dnd(D), R, S, j0, j1);
}
// pass U P from edge j-1 to edge j, factor edge j
pub proof fn sw1_step<F: Field>(D: Dgm<F>, m0: Seq<CM<F>>, fa: Seq<SFact<F>>, ma: Seq<CM<F>>, fb: Seq<SFact<F>>, mb: Seq<CM<F>>, fc: Seq<SFact<F>>, j: int, j0: int, j1: int)
    requires 0 <= j0 < j <= j1 < ma.len(), ma.len() == fa.len(), diso(D, true, mrep(m0), xrep(D, true, fa, ma, j), j0, j1), except1(fb, fa, j - 1), except1(mb, ma, j), except1(fc, fb, j),
        dch(D, j, dfr(D, true, j - 1, fa[j - 1]), dfr(D, true, j - 1, fb[j - 1]), fm(ma[j]), fm(mb[j])), eeq(dlf(D)(j), dnd(D)(j), dnd(D)(j + 1), fm(mb[j]), dfr(D, true, j, fc[j]))
    ensures diso(D, true, mrep(m0), xrep(D, true, fc, mb, j + 1), j0, j1)
{
    let lf = dlf(D); let nd = dnd(D); let A = xrep(D, true, fa, ma, j); let B = xrep(D, true, fb, mb, j); let C = xrep(D, true, fc, mb, j + 1); dnd_ok(D);
    assert forall|k: int| j0 <= k <= j1 && k != j - 1 && k != j implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] A(k), B(k)) by { assert(fb[k] == fa[k] && mb[k] == ma[k]); eeq_refl(lf(k), nd(k), nd(k + 1), A(k)); }
    nchg_iso(true, lf, nd, A, B, j, j0, j1); iso_trans(true, lf, nd, mrep(m0), A, B, j0, j1);
    assert forall|k: int| j0 <= k <= j1 implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] B(k), C(k)) by { if k != j { assert(fc[k] == fb[k]); eeq_refl(lf(k), nd(k), nd(k + 1), B(k)); } }
    iso_eq(true, lf, nd, B, C, j0, j1); iso_trans(true, lf, nd, mrep(m0), B, C, j0, j1);
}
// pass P L from edge j+1 to edge j, factor edge j
pub proof fn sw1_left<F: Field>(D: Dgm<F>, m0: Seq<CM<F>>, fa: Seq<SFact<F>>, ma: Seq<CM<F>>, fb: Seq<SFact<F>>, mb: Seq<CM<F>>, fc: Seq<SFact<F>>, j: int, j0: int, j1: int)
    requires 0 <= j0 <= j < j1 < ma.len(), ma.len() == fa.len(), diso(D, true, mrep(m0), xrep(D, false, fa, ma, j + 1), j0, j1), except1(fb, fa, j + 1), except1(mb, ma, j), except1(fc, fb, j),
        dch(D, j + 1, fm(ma[j]), fm(mb[j]), dfr(D, false, j + 1, fa[j + 1]), dfr(D, false, j + 1, fb[j + 1])), eeq(dlf(D)(j), dnd(D)(j), dnd(D)(j + 1), fm(mb[j]), dfr(D, false, j, fc[j]))
    ensures diso(D, true, mrep(m0), xrep(D, false, fc, mb, j), j0, j1)
{
    let lf = dlf(D); let nd = dnd(D); let A = xrep(D, false, fa, ma, j + 1); let B = xrep(D, false, fb, mb, j + 1); let C = xrep(D, false, fc, mb, j); dnd_ok(D);
    assert forall|k: int| j0 <= k <= j1 && k != j + 1 && k != j implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] A(k), B(k)) by { assert(fb[k] == fa[k] && mb[k] == ma[k]); eeq_refl(lf(k), nd(k), nd(k + 1), A(k)); }
    nchg_iso(true, lf, nd, A, B, j + 1, j0, j1); iso_trans(true, lf, nd, mrep(m0), A, B, j0, j1);
    assert forall|k: int| j0 <= k <= j1 implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] B(k), C(k)) by { if k != j { assert(fc[k] == fb[k]); eeq_refl(lf(k), nd(k), nd(k + 1), B(k)); } }
    iso_eq(true, lf, nd, B, C, j0, j1); iso_trans(true, lf, nd, mrep(m0), B, C, j0, j1);
}
pub proof fn sw1_end<F: Field>(D: Dgm<F>, el: bool, m0: Seq<CM<F>>, fs: Seq<SFact<F>>, mats: Seq<CM<F>>, j0: int, j1: int)
    requires j0 <= j1, diso(D, true, mrep(m0), xrep(D, el, fs, mats, if el { j1 + 1 } else { j0 }), j0, j1) ensures diso(D, true, mrep(m0), frep(D, el, fs), j0, j1)
{
    let lf = dlf(D); let nd = dnd(D); let A = xrep(D, el, fs, mats, if el { j1 + 1 } else { j0 }); let B = frep(D, el, fs); dnd_ok(D);
    assert forall|k: int| j0 <= k <= j1 implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] A(k), B(k)) by { eeq_refl(lf(k), nd(k), nd(k + 1), A(k)); }
    iso_eq(true, lf, nd, A, B, j0, j1); iso_trans(true, lf, nd, mrep(m0), A, B, j0, j1);
}
// a change at node p between factored edges
pub proof fn sw2_step<F: Field>(D: Dgm<F>, el: bool, f0: Seq<SFact<F>>, fa: Seq<SFact<F>>, fb: Seq<SFact<F>>, p: int, j0: int, j1: int)
    requires 0 <= j0 < p <= j1 < fa.len(), diso(D, true, frep(D, el, f0), frep(D, el, fa), j0, j1), except2(fb, fa, p - 1, p), dch(D, p, dfr(D, el, p - 1, fa[p - 1]), dfr(D, el, p - 1, fb[p - 1]), dfr(D, el, p, fa[p]), dfr(D, el, p, fb[p]))
    ensures diso(D, true, frep(D, el, f0), frep(D, el, fb), j0, j1)
{
    let lf = dlf(D); let nd = dnd(D); let A = frep(D, el, fa); let B = frep(D, el, fb); dnd_ok(D);
    assert forall|k: int| j0 <= k <= j1 && k != p - 1 && k != p implies eeq(lf(k), nd(k), nd(k + 1), #[trigger] A(k), B(k)) by { assert(fb[k] == fa[k]); eeq_refl(lf(k), nd(k), nd(k + 1), A(k)); }
    nchg_iso(true, lf, nd, A, B, p, j0, j1); iso_trans(true, lf, nd, frep(D, el, f0), A, B, j0, j1);
}
pub proof fn frep_refl<F: Field>(D: Dgm<F>, R: spec_fn(int) -> MF<F>, j0: int, j1: int) ensures diso(D, true, R, R, j0, j1)
{ assert forall|k: int| j0 <= k <= j1 implies eeq(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), #[trigger] R(k), R(k)) by { eeq_refl(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), R(k)); } iso_eq(true, dlf(D), dnd(D), R, R, j0, j1); }
pub open spec fn same_eup<F: Field>(f: SFact<F>, g: SFact<F>) -> bool { f.E == g.E && f.U == g.U && f.P == g.P }
pub open spec fn same_elp<F: Field>(f: SFact<F>, g: SFact<F>) -> bool { f.E == g.E && f.L == g.L && f.P == g.P }
@end
@fn bats::type_A_leftright_sweep1(Dgm<F>, &mut Vec<SFact<F>>, &mut Vec<CM<F>>, i64, i64) as lr_sweep1
@prop P19
@requires
  dgok(*dgm), 0 <= j0, j0 <= j1, j1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), old(mats)@.len() == dgm.edata@.len(), mats_ok(*dgm, old(mats)@, j0 as int, j1 as int)
@ensures
  outside(final(facts)@, old(facts)@, j0 as int, j1 as int), outside(final(mats)@, old(mats)@, j0 as int, j1 as int), elreg(*dgm, final(facts)@, j0 as int, j1 as int),
  diso(*dgm, true, mrep(old(mats)@), frep(*dgm, true, final(facts)@), j0 as int, j1 as int)
@opt rlimit=60
@at entry
  proof { vec_max(dgm.elist); }
@at loop 0 before
  proof { fact_el(*dgm, j0 as int, mats@[j0 as int], facts@[j0 as int]); sw1_start(*dgm, true, facts@, mats@, j0 as int, j0 as int, j1 as int); }
@loop 0
  invariant dgok(*dgm), 0 <= j0 < j, j <= j1 + 1, j1 < dgm.edata@.len(), dgm.edata@.len() <= i64::MAX, facts@.len() == dgm.edata@.len(), mats@.len() == dgm.edata@.len(), mats_ok(*dgm, mats@, j as int, j1 as int),
    outside(facts@, old(facts)@, j0 as int, j1 as int), outside(mats@, old(mats)@, j0 as int, j1 as int), elreg(*dgm, facts@, j0 as int, j - 1), diso(*dgm, true, mrep(old(mats)@), xrep(*dgm, true, facts@, mats@, j as int), j0 as int, j1 as int)
  decreases j1 + 1 - j
@at loop 0 begin
  let ghost fa = facts@;
  let ghost ma = mats@;
@at after pass_up_right 0
  let ghost fb = facts@;
  let ghost mb = mats@;
  assert(dfx(*dgm, true, j - 1, fa[j - 1]));
@at loop 0 end
  proof {
    fact_el(*dgm, j as int, mats@[j as int], facts@[j as int]); sw1_step(*dgm, old(mats)@, fa, ma, fb, mb, facts@, j as int, j0 as int, j1 as int);
    assert forall|k: int| j0 <= k <= j implies dfx(*dgm, true, k, #[trigger] facts@[k]) && (k < j ==> upid(*dgm, k, facts@[k])) by { if k < j { assert(facts@[k] == fb[k]); assert(dfx(*dgm, true, k, fa[k])); } }
  }
@at exit
  proof { sw1_end(*dgm, true, old(mats)@, facts@, mats@, j0 as int, j1 as int); }
@fn bats::type_A_leftright_sweep2(Dgm<F>, &mut Vec<SFact<F>>, i64, i64) as lr_sweep2
@prop P19
@requires
  dgok(*dgm), 0 <= j0, j0 <= j1, j1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), elreg(*dgm, old(facts)@, j0 as int, j1 as int)
@ensures
  outside(final(facts)@, old(facts)@, j0 as int, j1 as int), elreg(*dgm, final(facts)@, j0 as int, j1 as int), lids(*dgm, final(facts)@, j0 + 1, j1 as int),
  forall|k: int| 0 <= k < final(facts)@.len() ==> same_eup(#[trigger] final(facts)@[k], old(facts)@[k]), diso(*dgm, true, frep(*dgm, true, old(facts)@), frep(*dgm, true, final(facts)@), j0 as int, j1 as int)
@at loop 0 before
  proof { vec_max(dgm.elist); frep_refl(*dgm, frep(*dgm, true, facts@), j0 as int, j1 as int); }
@loop 0
  invariant dgok(*dgm), 0 <= j0 <= j, j <= j1, j1 < dgm.edata@.len(), facts@.len() == dgm.edata@.len(),
    outside(facts@, old(facts)@, j0 as int, j1 as int), elreg(*dgm, facts@, j0 as int, j1 as int), lids(*dgm, facts@, j + 1, j1 as int),
    forall|k: int| 0 <= k < facts@.len() ==> same_eup(#[trigger] facts@[k], old(facts)@[k]), diso(*dgm, true, frep(*dgm, true, old(facts)@), frep(*dgm, true, facts@), j0 as int, j1 as int)
  decreases j
@at loop 0 begin
  let ghost fa = facts@;
  assert(dfx(*dgm, true, j - 1, fa[j - 1]) && dfx(*dgm, true, j as int, fa[j as int]) && upid(*dgm, j - 1, fa[j - 1]));
@at loop 0 end
  proof {
    sw2_step(*dgm, true, old(facts)@, fa, facts@, j as int, j0 as int, j1 as int);
    assert forall|k: int| 0 <= k < facts@.len() implies same_eup(#[trigger] facts@[k], fa[k]) by { }
    assert forall|k: int| j0 <= k <= j1 implies dfx(*dgm, true, k, #[trigger] facts@[k]) && (k < j1 ==> upid(*dgm, k, facts@[k])) by { assert(dfx(*dgm, true, k, fa[k])); assert(same_eup(facts@[k], fa[k])); }
    assert forall|k: int| 0 <= k < facts@.len() implies same_eup(#[trigger] facts@[k], old(facts)@[k]) by { assert(same_eup(fa[k], old(facts)@[k])); }
  }
@fn bats::type_A_rightleft_sweep1(Dgm<F>, &mut Vec<SFact<F>>, &mut Vec<CM<F>>, i64, i64) as rl_sweep1
@prop P19
@requires
  dgok(*dgm), 0 <= j0, j0 <= j1, j1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), old(mats)@.len() == dgm.edata@.len(), mats_ok(*dgm, old(mats)@, j0 as int, j1 as int)
@ensures
  outside(final(facts)@, old(facts)@, j0 as int, j1 as int), outside(final(mats)@, old(mats)@, j0 as int, j1 as int), eureg(*dgm, final(facts)@, j0 as int, j1 as int),
  diso(*dgm, true, mrep(old(mats)@), frep(*dgm, false, final(facts)@), j0 as int, j1 as int)
@at loop 0 before
  proof { vec_max(dgm.elist); fact_eu(*dgm, j1 as int, mats@[j1 as int], facts@[j1 as int]); sw1_start(*dgm, false, facts@, mats@, j1 as int, j0 as int, j1 as int); }
@loop 0
  invariant dgok(*dgm), 0 <= j0 <= j + 1, j < j1, j1 < dgm.edata@.len(), dgm.edata@.len() <= i64::MAX, facts@.len() == dgm.edata@.len(), mats@.len() == dgm.edata@.len(), mats_ok(*dgm, mats@, j0 as int, j as int),
    outside(facts@, old(facts)@, j0 as int, j1 as int), outside(mats@, old(mats)@, j0 as int, j1 as int), eureg(*dgm, facts@, j + 1, j1 as int), diso(*dgm, true, mrep(old(mats)@), xrep(*dgm, false, facts@, mats@, j + 1), j0 as int, j1 as int)
  decreases j + 1
@at loop 0 begin
  let ghost fa = facts@;
  let ghost ma = mats@;
  assert(dfx(*dgm, false, j + 1, fa[j + 1]));
@at after pass_pl_left 0
  let ghost fb = facts@;
  let ghost mb = mats@;
@at loop 0 end
  proof {
    fact_eu(*dgm, j as int, mats@[j as int], facts@[j as int]); sw1_left(*dgm, old(mats)@, fa, ma, fb, mb, facts@, j as int, j0 as int, j1 as int);
    assert forall|k: int| j <= k <= j1 implies dfx(*dgm, false, k, #[trigger] facts@[k]) && (k > j ==> lpid(*dgm, k, facts@[k])) by { if k > j { assert(facts@[k] == fb[k]); assert(dfx(*dgm, false, k, fa[k])); } }
  }
@at exit
  proof { sw1_end(*dgm, false, old(mats)@, facts@, mats@, j0 as int, j1 as int); }
@fn bats::type_A_rightleft_sweep2(Dgm<F>, &mut Vec<SFact<F>>, i64, i64) as rl_sweep2
@prop P19
@requires
  dgok(*dgm), 0 <= j0, j0 <= j1, j1 < dgm.edata@.len(), old(facts)@.len() == dgm.edata@.len(), eureg(*dgm, old(facts)@, j0 as int, j1 as int)
@ensures
  outside(final(facts)@, old(facts)@, j0 as int, j1 as int), eureg(*dgm, final(facts)@, j0 as int, j1 as int), uids(*dgm, final(facts)@, j0 as int, j1 - 1),
  forall|k: int| 0 <= k < final(facts)@.len() ==> same_elp(#[trigger] final(facts)@[k], old(facts)@[k]), diso(*dgm, true, frep(*dgm, false, old(facts)@), frep(*dgm, false, final(facts)@), j0 as int, j1 as int)
@at loop 0 before
  proof { vec_max(dgm.elist); frep_refl(*dgm, frep(*dgm, false, facts@), j0 as int, j1 as int); }
@loop 0
  invariant dgok(*dgm), 0 <= j0 <= j, j <= j1, j1 < dgm.edata@.len(), dgm.edata@.len() <= i64::MAX, facts@.len() == dgm.edata@.len(),
    outside(facts@, old(facts)@, j0 as int, j1 as int), eureg(*dgm, facts@, j0 as int, j1 as int), uids(*dgm, facts@, j0 as int, j - 1),
    forall|k: int| 0 <= k < facts@.len() ==> same_elp(#[trigger] facts@[k], old(facts)@[k]), diso(*dgm, true, frep(*dgm, false, old(facts)@), frep(*dgm, false, facts@), j0 as int, j1 as int)
  decreases j1 - j
@at loop 0 begin
  let ghost fa = facts@;
  assert(dfx(*dgm, false, j + 1, fa[j + 1]) && dfx(*dgm, false, j as int, fa[j as int]) && lpid(*dgm, j + 1, fa[j + 1]));
@at loop 0 end
  proof {
    sw2_step(*dgm, false, old(facts)@, fa, facts@, j + 1, j0 as int, j1 as int);
    assert forall|k: int| 0 <= k < facts@.len() implies same_elp(#[trigger] facts@[k], fa[k]) by { }
    assert forall|k: int| j0 <= k <= j1 implies dfx(*dgm, false, k, #[trigger] facts@[k]) && (k > j0 ==> lpid(*dgm, k, facts@[k])) by { assert(dfx(*dgm, false, k, fa[k])); assert(same_elp(facts@[k], fa[k])); }
    assert forall|k: int| 0 <= k < facts@.len() implies same_elp(#[trigger] facts@[k], old(facts)@[k]) by { assert(same_elp(fa[k], old(facts)@[k])); }
  }
