@unit la
@uses sv_axpy2
@rust
pub proof fn diag_entry<F: Field>(up: bool, A: CM<F>, j: int)
    requires trimat(up, A), 0 <= j < A.n
    ensures ({ let s = A.col@[j].indval@; s.subrange(0, s.len() as int) =~= s && ssorted(s) && snz(s) && sbelow(s, A.n as int) && colv(A.col@, j, j) != F::szero() &&
        (exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind == j) && (forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind == j ==> s[k].val == colv(A.col@, j, j))
        && (forall|i: int| 0 <= i < A.n && (if up { i > j } else { i < j }) ==> #[trigger] colv(A.col@, i, j) == F::szero()) && (forall|i: int| (i < 0 || i >= A.n) ==> #[trigger] colv(A.col@, i, j) == F::szero()) })
{
    let s = A.col@[j].indval@; assert(sc(s, A.m as int)); ssorted_sdist(s); assert(cmv(A, j, j) != F::szero());
    let k = sval_find(s, j); assert(k != -1); sval_out(s, A.m as int);
    assert forall|i: int| 0 <= i < A.n && (if up { i > j } else { i < j }) implies #[trigger] colv(A.col@, i, j) == F::szero() by { assert(cmv(A, i, j) == F::szero()); }
}
// x_j / d is nonzero, and (x_j / d) * d == x_j
pub proof fn f_div_mul<F: Field>(a: F, d: F) requires d != F::szero() ensures F::smul(F::smul(a, F::sinv(d)), d) == a, a != F::szero() ==> F::smul(a, F::sinv(d)) != F::szero()
{ broadcast use field_basic; F::ax_inv(d); F::ax_mul_comm(d, F::sinv(d)); F::ax_mul_assoc(a, F::sinv(d), d); F::ax_mul_one(a); F::ax_one_ne_zero(); }
@end
@fn l_solve(CM<F>, SV<F>) as cm_l_solve
@prop P05 P07
@opt rlimit=60
@requires
  trimat(false, *L), sc(y.indval@, L.n as int)
@ensures
  sc(ret.indval@, L.n as int), forall|i: int| 0 <= i < L.n ==> #[trigger] mvx(L.col@, L.n as int, ret.indval@, i) == sval(y.indval@, i)
@at entry
  proof { assert(y.indval@.subrange(0, y.indval@.len() as int) =~= y.indval@); tri_init::<F>(false, L.col@, L.n as int, y.indval@, 0); }
@at before return 0
  proof { assert forall|i: int| 0 <= i < L.n && !tdone(false, i, 0) implies #[trigger] sval(x.indval@, i) == F::szero() by { } tri_done(false, L.col@, L.n as int, x.indval@, y.indval@, 0); }
@at loop 0 before
  let ghost mut p: int = 0;
@loop 0
  invariant sc(x.indval@, L.n as int), 0 <= p <= L.n, xit <= x.indval@.len(), forall|k: int| 0 <= k < xit ==> (#[trigger] x.indval@[k]).ind < p, forall|k: int| xit <= k < x.indval@.len() ==> (#[trigger] x.indval@[k]).ind >= p,
    tinv(false, L.col@, L.n as int, x.indval@, y.indval@, p), m == L.n, trimat(false, *L),
  decreases L.n - p
@at loop 0 begin
  let ghost x0 = x.indval@; let ghost q = x.indval@[xit as int].ind as int; let ghost d = colv(L.col@, q, q); let ghost av = F::smul(x0[xit as int].val, F::sinv(d));
  proof { ssorted_sdist(x0); diag_entry(false, *L, q); f_div_mul(x0[xit as int].val, d);
    assert forall|k: int| 0 <= k < L.n && p <= k < q implies #[trigger] sval(x0, k) == F::szero() by { let l = sval_find(x0, k); if l != -1 { if l < xit { } else if l > xit { assert(x0[xit as int].ind < x0[l].ind); } } }
    sval_at(x0, xit as int); sval_out(x0, L.n as int);
    sval_setval(x0, xit as int, av); }
@at before sv_axpy_range 0
  let ghost x1 = x.indval@;
  proof { assert(x1 == x0.update(xit as int, Nz { ind: x0[xit as int].ind, val: av })); }
@at after sv_axpy_range 0
  proof { assert(x.indval@.subrange(0, x.indval@.len() as int) =~= x.indval@); broadcast use field_basic;
    assert forall|i: int| i >= L.n implies #[trigger] sval(x.indval@, i) == F::szero() by { assert(colv(L.col@, i, q) == F::szero()); }
    sc_of(x.indval@, L.n as int);
    assert forall|i: int| 0 <= i < L.n implies #[trigger] sval(x.indval@, i) == (if i == q { av } else if i > q { F::sadd(sval(x0, i), F::smul(F::sneg(av), colv(L.col@, i, q))) } else { sval(x0, i) }) by { assert(sval(x1, i) == sval(x1, i)); }
    tri_step(false, L.col@, L.n as int, x0, x.indval@, y.indval@, p, q, q + 1, av);
    p = q + 1; }
@at loop 0 after
  proof { ssorted_sdist(x.indval@); assert forall|i: int| 0 <= i < L.n && !tdone(false, i, p) implies #[trigger] sval(x.indval@, i) == F::szero() by { let k = sval_find(x.indval@, i); } tri_done(false, L.col@, L.n as int, x.indval@, y.indval@, p); }
@fn u_solve(CM<F>, SV<F>) as cm_u_solve
@prop P05 P07
@opt rlimit=60
@requires
  trimat(true, *U), sc(y.indval@, U.n as int)
@ensures
  sc(ret.indval@, U.n as int), forall|i: int| 0 <= i < U.n ==> #[trigger] mvx(U.col@, U.n as int, ret.indval@, i) == sval(y.indval@, i)
@at entry
  proof { assert(y.indval@.subrange(0, y.indval@.len() as int) =~= y.indval@); tri_init::<F>(true, U.col@, U.n as int, y.indval@, U.n as int); }
@at before return 0
  proof { assert forall|i: int| 0 <= i < U.n && !tdone(true, i, U.n as int) implies #[trigger] sval(x.indval@, i) == F::szero() by { } tri_done(true, U.col@, U.n as int, x.indval@, y.indval@, U.n as int); }
@at loop 0 before
  let ghost mut p: int = U.n as int;
  proof { ssorted_sdist(x.indval@); if xit == 0 { assert forall|i: int| 0 <= i < U.n && !tdone(true, i, p) implies #[trigger] sval(x.indval@, i) == F::szero() by { let k = sval_find(x.indval@, i); } } }
@loop 0
  invariant_except_break xit <= x.indval@.len(), forall|k: int| 0 <= k < xit ==> (#[trigger] x.indval@[k]).ind < p, forall|k: int| xit <= k < x.indval@.len() ==> (#[trigger] x.indval@[k]).ind >= p,
    xit == 0 ==> forall|i: int| 0 <= i < U.n && !tdone(true, i, p) ==> #[trigger] sval(x.indval@, i) == F::szero()
  invariant sc(x.indval@, U.n as int), 0 <= p <= U.n, 
    tinv(true, U.col@, U.n as int, x.indval@, y.indval@, p), trimat(true, *U),
  ensures forall|i: int| 0 <= i < U.n && !tdone(true, i, p) ==> #[trigger] sval(x.indval@, i) == F::szero()
  decreases p
@at loop 0 begin
  let ghost x0 = x.indval@; let ghost xp = xit - 1; let ghost q = x.indval@[xp].ind as int; let ghost d = colv(U.col@, q, q); let ghost av = F::smul(x0[xp].val, F::sinv(d));
  proof { ssorted_sdist(x0); diag_entry(true, *U, q); f_div_mul(x0[xp].val, d);
    assert forall|k: int| 0 <= k < U.n && q < k < p implies #[trigger] sval(x0, k) == F::szero() by { let l = sval_find(x0, k); if l != -1 { if l < xp { assert(x0[l].ind < x0[xp].ind); } } }
    sval_at(x0, xp); sval_out(x0, U.n as int);
    sval_setval(x0, xp, av); }
@at before if 2
  let ghost x1 = x.indval@;
  proof { assert(x1 == x0.update(xp, Nz { ind: x0[xp].ind, val: av })); 
    if j == 0 {
       sc_of(x1, U.n as int);
       assert forall|i: int| 0 <= i < U.n implies #[trigger] sval(x1, i) == (if i == q { av } else if i < q { F::sadd(sval(x0, i), F::smul(F::sneg(av), colv(U.col@, i, q))) } else { sval(x0, i) }) by { }
       tri_step(true, U.col@, U.n as int, x0, x1, y.indval@, p, q, q, av); p = 0;
    } }
@at after sv_axpy_range 0
  proof { assert(x.indval@.subrange(0, x.indval@.len() as int) =~= x.indval@); broadcast use field_basic;
    assert forall|i: int| i >= U.n implies #[trigger] sval(x.indval@, i) == F::szero() by { assert(colv(U.col@, i, q) == F::szero()); }
    sc_of(x.indval@, U.n as int);
    assert forall|i: int| 0 <= i < U.n implies #[trigger] sval(x.indval@, i) == (if i == q { av } else if i < q { F::sadd(sval(x0, i), F::smul(F::sneg(av), colv(U.col@, i, q))) } else { sval(x0, i) }) by { assert(sval(x1, i) == sval(x1, i)); }
    tri_step(true, U.col@, U.n as int, x0, x.indval@, y.indval@, p, q, q, av);
    p = q; }
@at loop 0 end
  proof { ssorted_sdist(x.indval@); if xit == 0 { assert forall|i: int| 0 <= i < U.n && !tdone(true, i, p) implies #[trigger] sval(x.indval@, i) == F::szero() by { let k = sval_find(x.indval@, i); } } }
@at loop 0 after
  proof { tri_done(true, U.col@, U.n as int, x.indval@, y.indval@, p); }
@fn l_solve(CM<F>, CM<F>) as cm_l_solve_m
@prop P05 P07
@requires
  trimat(false, *L), cmwf(*A), A.m == L.n
@ensures
  cmwf(ret), ret.m == A.m, ret.n == A.n, forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] prodv(L.col@, L.n as int, ret.col@, i, j) == cmv(*A, i, j)
@loop 0
  invariant 0 <= j <= n, n == A.n, col@.len() == j, cmwf(*A), A.m == L.n, trimat(false, *L),
    forall|k: int| 0 <= k < j ==> sc((#[trigger] col@[k]).indval@, L.n as int),
    forall|i: int, k: int| 0 <= i < A.m && 0 <= k < j ==> #[trigger] prodv(L.col@, L.n as int, col@, i, k) == cmv(*A, i, k)
  decreases n - j
@at loop 0 begin
  let ghost col0 = col@;
  proof { assert(sc(A.col@[j as int].indval@, A.m as int)); }
@at loop 0 end
  proof { assert forall|i: int, k: int| 0 <= i < A.m && 0 <= k < j + 1 implies #[trigger] prodv(L.col@, L.n as int, col@, i, k) == cmv(*A, i, k) by { if k < j { assert(prodv(L.col@, L.n as int, col0, i, k) == cmv(*A, i, k)); } else { assert(mvx(L.col@, L.n as int, col@[k].indval@, i) == sval(A.col@[k].indval@, i)); } } }
@fn u_solve(CM<F>, CM<F>) as cm_u_solve_m
@prop P05 P07
@requires
  trimat(true, *U), cmwf(*A), A.m == U.n
@ensures
  cmwf(ret), ret.m == A.m, ret.n == A.n, forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] prodv(U.col@, U.n as int, ret.col@, i, j) == cmv(*A, i, j)
@loop 0
  invariant 0 <= j <= n, n == A.n, col@.len() == j, cmwf(*A), A.m == U.n, trimat(true, *U),
    forall|k: int| 0 <= k < j ==> sc((#[trigger] col@[k]).indval@, U.n as int),
    forall|i: int, k: int| 0 <= i < A.m && 0 <= k < j ==> #[trigger] prodv(U.col@, U.n as int, col@, i, k) == cmv(*A, i, k)
  decreases n - j
@at loop 0 begin
  let ghost col0 = col@;
  proof { assert(sc(A.col@[j as int].indval@, A.m as int)); }
@at loop 0 end
  proof { assert forall|i: int, k: int| 0 <= i < A.m && 0 <= k < j + 1 implies #[trigger] prodv(U.col@, U.n as int, col@, i, k) == cmv(*A, i, k) by { if k < j { assert(prodv(U.col@, U.n as int, col0, i, k) == cmv(*A, i, k)); } else { assert(mvx(U.col@, U.n as int, col@[k].indval@, i) == sval(A.col@[k].indval@, i)); } } }
@fn CM<F>::identity(usize) as cm_identity
@prop P05 P07
@ensures
  cmwf(ret), ret.m == n, ret.n == n, forall|i: int, j: int| 0 <= j < n ==> #[trigger] cmv(ret, i, j) == if i == j { F::sone() } else { F::szero() }
@loop 0
  invariant 0 <= j <= n, col@.len() == n, forall|k: int| 0 <= k < j ==> (#[trigger] col@[k]).indval@ == seq![Nz { ind: k as usize, val: F::sone() }]
  decreases n - j
@at loop 0 after
  proof { F::ax_one_ne_zero(); broadcast use sv_basic; assert forall|i: int, j: int| 0 <= j < n implies #[trigger] colv(col@, i, j) == (if i == j { F::sone() } else { F::szero() }) by { assert(col@[j].indval@ == Seq::<Nz<F>>::empty().push(Nz { ind: j as usize, val: F::sone() })); } }
@fn u_inv(CM<F>) as cm_u_inv
@prop P05 P07
@requires
  trimat(true, *U)
@ensures
  uinv_of(ret, *U), cmwf(ret), ret.m == U.n, ret.n == U.n, forall|i: int, j: int| 0 <= i < U.n && 0 <= j < U.n ==> #[trigger] prodv(U.col@, U.n as int, ret.col@, i, j) == if i == j { F::sone() } else { F::szero() }
@fn l_inv(CM<F>) as cm_l_inv
@prop P05 P07
@requires
  trimat(false, *L)
@ensures
  uinv_of(ret, *L), cmwf(ret), ret.m == L.n, ret.n == L.n, forall|i: int, j: int| 0 <= i < L.n && 0 <= j < L.n ==> #[trigger] prodv(L.col@, L.n as int, ret.col@, i, j) == if i == j { F::sone() } else { F::szero() }
