@unit la
@uses cm_red
@fn bats::reduce_matrix_clearing(&mut CM<F>, Vec<usize>, ExtraRedFlag) as red_clear_e
@prop P08 P09
@requires
  old(M).m < usize::MAX, cmwf(*old(M)), forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < old(M).n
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  clears(*old(M), clear_inds@, *final(M))
@at entry
  let ghost A = *M;
@loop 0
  invariant 0 <= ix0 <= clear_inds@.len(), cmwf(*M), M.m == A.m, M.n == A.n, A.col@.len() == A.n, forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < A.n, zerocols(A.col@, A.n as int, hasv(clear_inds@, ix0 as int), M.col@)
  decreases clear_inds@.len() - ix0
@at loop 0 begin
  let ghost B = *M;
@at loop 0 end
  proof { let c = cind as int; assert(M.col@ =~= B.col@.update(c, M.col@[c])); let z0 = hasv(clear_inds@, ix0 as int); let z1 = hasv(clear_inds@, ix0 + 1); assert(clear_inds@[ix0 as int] == c);
    assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, i, j) == if z1(j) { F::szero() } else { colv(A.col@, i, j) } by { assert(colv(B.col@, i, j) == if z0(j) { F::szero() } else { colv(A.col@, i, j) });
      if z0(j) { let k = choose|k: int| 0 <= k < ix0 && clear_inds@[k] == j; assert(clear_inds@[k] == j); assert(z1(j)); } if j == c { assert(z1(j)); } else if z1(j) { let k = choose|k: int| 0 <= k < ix0 + 1 && clear_inds@[k] == j; assert(k < ix0); assert(clear_inds@[k] == j); assert(z0(j)); } } }
@at before red_e 0
  let ghost C = *M;
@at after red_e 0
  proof { let V = choose|V: spec_fn(int, int) -> F| redrel(C.n as int, V, C.col@, M.col@); assert(redrel(A.n as int, V, C.col@, M.col@)); assert(redfrom(A.n as int, C.col@, M.col@)); assert(clears(A, clear_inds@, *M)); }
@fn bats::reduce_matrix_clearing(&mut CM<F>, &mut CM<F>, CM<F>, Vec<usize>, ExtraRedFlag) as red_clear_u_e
@prop P08 P09
@opt rlimit=60
@requires
  old(M).m < usize::MAX, cmwf(*old(M)), is_ident(*old(U)), old(U).n == old(M).n, clear_pre(*old(M), *R, p2c@)
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)),
  trimat(true, *final(U)), final(U).n == old(U).n, is_prod(*old(M), *final(U), *final(M))
@at entry
  let ghost A = *M; let ghost U0 = *U;
  proof { assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, i, j) == prodv(A.col@, A.n as int, U.col@, i, j) by { assert forall|k: int| #[trigger] sval(U.col@[j].indval@, k) == if k == j { F::sone() } else { F::szero() } by { assert(cmv(*U, k, j) == if k == j { F::sone() } else { F::szero() }); } prod_ident(A.col@, A.n as int, U.col@[j].indval@, j, i); } assert(p2c@.len() == p2c.len());
    assert forall|a: int| 0 <= a < A.n implies #[trigger] cmv(*U, a, a) != F::szero() by { F::ax_one_ne_zero(); } }
@loop 0
  invariant 0 <= i <= A.n, i == it, p2c@.len() == A.n, p2c@.len() == p2c.len(), cmwf(A), cmwf(*M), M.m == A.m, M.n == A.n, trimat(true, *U), U.n == A.n, clear_pre(A, *R, p2c@),
    forall|r: int, j: int| 0 <= j < A.n ==> #[trigger] colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j)
  decreases p2c@.len() - i
@at loop 0 begin
  let ghost M0 = *M; let ghost V0 = *U; let ghost q = p2c@[i as int] as int; let ghost i0 = i as int;
  proof { if q != NO_IND { assert(sc(R.col@[q].indval@, A.n as int)); } }
@at loop 0 end
  proof { if q != NO_IND { let s = R.col@[q].indval@; assert(M.col@ =~= M0.col@.update(i0, M.col@[i0])); assert(U.col@ =~= V0.col@.update(i0, U.col@[i0])); assert(U.col@[i0].indval@ == s); sval_at(s, s.len() - 1); assert(s[s.len() - 1].val != F::szero());
    assert forall|r: int, j: int| 0 <= j < A.n implies #[trigger] colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j) by { assert(colv(M0.col@, r, j) == prodv(A.col@, A.n as int, V0.col@, r, j)); if j == i0 { assert(prodv(A.col@, A.n as int, R.col@, r, q) == F::szero()); } }
    assert forall|r: int, j: int| 0 <= r < U.n && 0 <= j < U.n && r > j implies #[trigger] cmv(*U, r, j) == F::szero() by { assert(cmv(V0, r, j) == F::szero()); if j == i0 { sval_absent_above(s, r); } }
    assert forall|j: int| 0 <= j < U.n implies #[trigger] cmv(*U, j, j) != F::szero() by { assert(cmv(V0, j, j) != F::szero()); }
  } }
@at before red_u_e 0
  let ghost C = *M; let ghost W = *U;
@at after red_u_e 0
  proof { let V = choose|V: spec_fn(int, int) -> F| redrel2(C.n as int, V, C.col@, M.col@, W.col@, U.col@); assert(redrel2(A.n as int, V, C.col@, M.col@, W.col@, U.col@)); comb_prod(A.col@, A.n as int, C.col@, W.col@, A.n as int, V, M.col@, U.col@);
    assert forall|r: int, j: int| 0 <= j < A.n implies #[trigger] cmv(*M, r, j) == prodv(A.col@, A.n as int, U.col@, r, j) by { assert(colv(M.col@, r, j) == prodv(A.col@, A.n as int, U.col@, r, j)); } }
@fn bats::reduce_matrix_compression(&mut CM<F>, Vec<bool>, ExtraRedFlag) as red_comp_e
@prop P08 P09
@throws comp_inds@.len() != old(M).m
@requires
  old(M).m < usize::MAX, cmwf(*old(M))
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, reduced(*final(M), ret@), is_red(*final(M)), compresses(*old(M), comp_inds@, *final(M))
@at entry
  let ghost A = *M;
@at before red_e 0
  let ghost C = *M;
@at after red_e 0
  proof { assert(zerorows(A, comp_inds@, C)); let V = choose|V: spec_fn(int, int) -> F| redrel(C.n as int, V, C.col@, M.col@); assert(redrel(C.n as int, V, C.col@, M.col@)); assert(redfrom(C.n as int, C.col@, M.col@)); assert(compresses(A, comp_inds@, *M)); }
@fn bats::reduce_matrix_compression(&mut CM<F>, &mut CM<F>, Vec<bool>, ExtraRedFlag) as red_comp_u_e
@prop P08 P09
@opt rlimit=60
@throws comp_inds@.len() != old(M).m
@requires
  old(M).m < usize::MAX, cmwf(*old(M)), cmwf(*old(U)), old(U).n == old(M).n
@ensures
  cmwf(*final(M)), final(M).m == old(M).m, final(M).n == old(M).n, cmwf(*final(U)), final(U).m == old(U).m, final(U).n == old(U).n,
  by_basis(*old(M), *final(M), *old(U), *final(U)),
  nopiv(*old(M), comp_inds@) ==> reduced(*final(M), ret@) && is_red(*final(M))
@at entry
  let ghost A = *M; let ghost U0 = *U; let ghost mut C = *M; let ghost mut I0 = *M;
@at after cm_identity 0
  proof { I0 = r_cm_identity_0; }
@at before red_u_e 0
  let ghost W = V;
  proof { C = *M; assert(zerorows(A, comp_inds@, C));
    assert forall|a: int| 0 <= a < A.n implies #[trigger] cmv(V, a, a) != F::szero() by { F::ax_one_ne_zero(); } assert(trimat(true, V)); }
@at after red_u_e 0
  let ghost R1 = *M;
  proof { let n = A.n as int; let X = choose|X: spec_fn(int, int) -> F| redrel2(C.n as int, X, C.col@, M.col@, W.col@, V.col@); assert(redrel2(n, X, C.col@, M.col@, W.col@, V.col@));
    assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(C.col@, i, j) == prodv(C.col@, n, W.col@, i, j) by { assert forall|k: int| #[trigger] sval(W.col@[j].indval@, k) == if k == j { F::sone() } else { F::szero() } by { assert(cmv(W, k, j) == if k == j { F::sone() } else { F::szero() }); } prod_ident(C.col@, n, W.col@[j].indval@, j, i); }
    comb_prod(C.col@, n, C.col@, W.col@, n, X, M.col@, V.col@);
    assert forall|r: int, j: int| 0 <= j < n implies #[trigger] cmv(*M, r, j) == prodv(C.col@, n, V.col@, r, j) by { assert(colv(M.col@, r, j) == prodv(C.col@, n, V.col@, r, j)); }
    assert(is_prod(C, V, *M)); }
@at before return 0
  proof { assert(is_prod(A, V, *M)); assert(is_prod(U0, V, *U)); assert(trimat(true, V) && V.n == A.n); assert(by_basis(A, *M, U0, *U));
    if nopiv(A, comp_inds@) { comp_reduced(A, comp_inds@, C, V, R1, *M, p2c@); reduced_is_red(*M, p2c@); } }
