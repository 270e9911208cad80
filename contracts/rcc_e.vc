@unit la
@uses rcc cm_red_e
@fn RCC<F>::new(CC<F>, ExtraRedFlag, ClearFlag) as rcc_new_ec
@prop P09
@opt wrap=1 rlimit=60
@requires
  forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX, ccwf(*C), ccdd(*C), C.boundary@.len() <= i64::MAX
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at loop 0 before
  proof { let t = dmax - 1; plain_pivots(C.boundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax == C.boundary@.len(), dmax == C.boundary.len(), dmax <= i64::MAX, ccwf(*C), ccdd(*C), forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k + 1]@.len() && this.p2c@[k + 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k + 1]@.len() && #[trigger] this.p2c@[k + 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize)
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int]; let ghost B1 = C.boundary@[k + 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(B1, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(ddat(*C, k as int)); assert(B1.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); }
@at loop 0 end
  proof { clear_pivots(B, B1, T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, ExtraRedFlag, ClearFlag, BasisFlag) as rcc_new_ecb
@prop P09 P10
@opt wrap=1 rlimit=60
@requires
  forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX, ccwf(*C), ccdd(*C), C.boundary@.len() <= i64::MAX
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  let ghost mut I0 = C.boundary@[0];
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at before red_u_e 0
  proof { I0 = this.U@[dmax - 1]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let t = dmax - 1; let B = C.boundary@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax == C.boundary@.len(), dmax == C.boundary.len(), dmax <= i64::MAX, ccwf(*C), ccdd(*C), forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| k < q < dmax ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int]; let ghost B1 = C.boundary@[k + 1];
  proof { assert(red_at(B1, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(bas_at(B1, T1.R@[k + 1], T1.U@[k + 1])); assert(ddat(*C, k as int)); assert(B1.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); clear_bas_pre(B, B1, T1.R@[k + 1], T1.U@[k + 1], T1.p2c@[k + 1]@); }
@at before red_clear_u_e 0
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 0 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q > k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, ExtraRedFlag, CompFlag) as rcc_new_em
@prop P09
@opt rlimit=60
@requires
  forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX, ccwf(*C), ccdd(*C)
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at loop 0 before
  proof { plain_pivots(C.boundary@[0], this.R@[0], this.p2c@[0]@); }
@loop 0
  invariant 1 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), ccdd(*C), forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX, this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@), comp_ok(this.R@[k - 1], comp_inds@)
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k - 1]; let ghost B1 = C.boundary@[k as int]; let ghost cl = comp_inds@;
  proof { assert(red_at(B, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(ddat(*C, k - 1)); assert(B1.m == B.n); }
@at loop 0 end
  proof { comp_pivots(B, B1, T1.R@[k - 1], T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, ExtraRedFlag, CompFlag, BasisFlag) as rcc_new_emb
@prop P09 P10
@opt rlimit=60
@requires
  forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX, ccwf(*C), ccdd(*C)
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  let ghost mut I0 = C.boundary@[0];
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at before red_u_e 0
  proof { I0 = this.U@[0]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let B = C.boundary@[0]; from_ident(B, this.R@[0], I0, this.U@[0]); prod_pivots(B, this.U@[0], this.R@[0], this.p2c@[0]@); }
@loop 0
  invariant 1 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), ccdd(*C), forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX, this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@), comp_ok(this.R@[k - 1], comp_inds@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k - 1]; let ghost B1 = C.boundary@[k as int]; let ghost cl = comp_inds@;
  proof { assert(red_at(B, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(ddat(*C, k - 1)); assert(B1.m == B.n); comp_bas_pre(B, B1, T1.R@[k - 1], T1.p2c@[k - 1]@, cl); }
@at before red_comp_u_e 0
  let ghost J0 = this.U@[k as int];
  proof { assert(is_ident(J0)); }
@at loop 0 end
  proof { comp_bas(B1, this.R@[k as int], J0, this.U@[k as int]); prod_pivots(B1, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
