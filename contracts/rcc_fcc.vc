@unit la
@uses rcc_perm sortp cc
@rust
// ---- persistence pairs of a reduced filtered complex ----
// what reading the pairs of dimension k needs: shapes fit and the sort order lists the cells
pub open spec fn rfit_at<F: Field>(X: RFCC<F>, k: int) -> bool { cmwf(X.RC.R@[k]) && reduced(X.RC.R@[k], X.RC.p2c@[k]@) && (k > 0 ==> X.RC.R@[k].m == X.RC.R@[k - 1].n) && permu(X.perm@[k]@, X.RC.R@[k].n as int) && X.val@[k]@.len() == X.RC.R@[k].n }
pub open spec fn rfit<F: Field>(X: RFCC<F>) -> bool { X.RC.R@.len() > 0 && X.RC.p2c@.len() == X.RC.R@.len() && X.perm@.len() == X.RC.R@.len() && X.val@.len() == X.RC.R@.len() && forall|k: int| 0 <= k < X.RC.R@.len() ==> #[trigger] rfit_at(X, k) }
pub open spec fn emp<F: Field>(R: CM<F>) -> spec_fn(int) -> bool { |j: int| R.col@[j].indval@.len() == 0 }
pub open spec fn inf_pair<F: Field>(X: RFCC<F>, k: int, i: int) -> bool { k == X.RC.R@.len() - 1 || X.RC.p2c@[k + 1]@[i] == NO_IND }
// the value and the original index of the i-th cell of dimension k in filtration order
pub open spec fn cval<F: Field>(X: RFCC<F>, k: int, i: int) -> i32 { X.val@[k]@[X.perm@[k]@[i] as int] }
pub open spec fn cind<F: Field>(X: RFCC<F>, k: int, i: int, permuted: bool) -> usize { if permuted { i as usize } else { X.perm@[k]@[i] } }
pub open spec fn mkpair<F: Field>(X: RFCC<F>, k: int, i: int, permuted: bool) -> PPair {
    if inf_pair(X, k, i) { PPair { dim: k as usize, birth_ind: cind(X, k, i, permuted), death_ind: NO_IND, birth: cval(X, k, i), death: inf_i32() } }
    else { let j = X.RC.p2c@[k + 1]@[i] as int; PPair { dim: k as usize, birth_ind: cind(X, k, i, permuted), death_ind: cind(X, k + 1, j, permuted), birth: cval(X, k, i), death: cval(X, k + 1, j) } }
}
// one pair per zero column, in order, each from the pivot in its row of the next matrix
pub open spec fn pairs_upto<F: Field>(X: RFCC<F>, k: int, n: int, permuted: bool, s: Seq<PPair>) -> bool {
    s.len() == cnt(n, emp(X.RC.R@[k])) && forall|i: int| 0 <= i < n && #[trigger] emp(X.RC.R@[k])(i) ==> 0 <= cnt(i, emp(X.RC.R@[k])) < s.len() && s[cnt(i, emp(X.RC.R@[k]))] == mkpair(X, k, i, permuted)
}
pub open spec fn pairs_of<F: Field>(X: RFCC<F>, k: int, permuted: bool, s: Seq<PPair>) -> bool { pairs_upto(X, k, X.RC.R@[k].n as int, permuted, s) }
pub proof fn pairs_step<F: Field>(X: RFCC<F>, k: int, n: int, permuted: bool, s: Seq<PPair>, t: Seq<PPair>)
    requires n >= 0, pairs_upto(X, k, n, permuted, s), t == (if emp(X.RC.R@[k])(n) { s.push(mkpair(X, k, n, permuted)) } else { s })
    ensures pairs_upto(X, k, n + 1, permuted, t)
{ let z = emp(X.RC.R@[k]); assert forall|i: int| 0 <= i < n + 1 && #[trigger] z(i) implies 0 <= cnt(i, z) < t.len() && t[cnt(i, z)] == mkpair(X, k, i, permuted) by { if i < n { assert(z(i)); } } }
pub proof fn cnt_bound(n: int, z: spec_fn(int) -> bool) requires n >= 0 ensures 0 <= cnt(n, z) <= n decreases n { if n > 0 { cnt_bound(n - 1, z); } }
pub open spec fn flat_upto(s: Seq<PPair>, n: int, bd: Seq<i32>, inds: Seq<usize>) -> bool { forall|i: int| 0 <= i < n ==> bd[2 * i] == (#[trigger] s[i]).birth && bd[2 * i + 1] == s[i].death && inds[2 * i] == s[i].birth_ind && inds[2 * i + 1] == s[i].death_ind }
pub open spec fn flat_pairs(s: Seq<PPair>, bd: Seq<i32>, inds: Seq<usize>) -> bool { bd.len() == 2 * s.len() && inds.len() == 2 * s.len() && flat_upto(s, s.len() as int, bd, inds) }
// ---- what the pairs mean ----
// a complex whose cells are listed in filtration order
pub open spec fn filt_at<F: Field>(D: FCC<F>, k: int) -> bool { D.val@[k]@.len() == D.C.boundary@[k].n && sorts(D.perm@[k]@, D.val@[k]@) }
pub open spec fn filt_ok<F: Field>(D: FCC<F>) -> bool { ccwf(D.C) && ccdd(D.C) && D.perm@.len() == D.C.boundary@.len() && D.val@.len() == D.C.boundary@.len() && forall|k: int| 0 <= k < D.C.boundary@.len() ==> #[trigger] filt_at(D, k) }
pub open spec fn fval<F: Field>(D: FCC<F>, k: int, i: int) -> i32 { D.val@[k]@[D.perm@[k]@[i] as int] }
// no cell comes before one of its faces
pub open spec fn monotone<F: Field>(D: FCC<F>) -> bool { forall|k: int, i: int, j: int| 1 <= k < D.C.boundary@.len() && 0 <= i < D.C.boundary@[k].m && 0 <= j < D.C.boundary@[k].n && #[trigger] bnz(D, k, i, j) ==> fval(D, k - 1, i) <= fval(D, k, j) }
pub open spec fn bnz<F: Field>(D: FCC<F>, k: int, i: int, j: int) -> bool { cmv(D.C.boundary@[k], i, j) != F::szero() }
// X is a reduction of D (whatever the options)
pub open spec fn rf_of<F: Field>(D: FCC<F>, X: RFCC<F>) -> bool { filt_ok(D) && rcc_red(D.C, X.RC) && rcc_gens(X.RC) && X.perm@.len() == D.perm@.len() && X.val@.len() == D.val@.len() && forall|k: int| 0 <= k < D.C.boundary@.len() ==> #[trigger] same_filt(D, X, k) }
pub open spec fn same_filt<F: Field>(D: FCC<F>, X: RFCC<F>, k: int) -> bool { X.perm@[k]@ == D.perm@[k]@ && X.val@[k]@ == D.val@[k]@ }
pub proof fn rf_fit<F: Field>(D: FCC<F>, X: RFCC<F>) requires rf_of(D, X) ensures rfit(X)
{ assert forall|k: int| 0 <= k < X.RC.R@.len() implies #[trigger] rfit_at(X, k) by { assert(same_filt(D, X, k)); assert(filt_at(D, k)); assert(red_at(D.C.boundary@[k], X.RC.R@[k], X.RC.p2c@[k]@)); if k > 0 { assert(red_at(D.C.boundary@[k - 1], X.RC.R@[k - 1], X.RC.p2c@[k - 1]@)); assert(D.C.boundary@[k].m == D.C.boundary@[k - 1].n); } } }
// a cell that is killed by a cell of the next dimension has a zero column
pub proof fn killed_is_birth<F: Field>(C: CC<F>, X: RCC<F>, k: int, i: int)
    requires ccwf(C), ccdd(C), rcc_red(C, X), 0 <= k < C.boundary@.len() - 1, 0 <= i < C.boundary@[k].n, X.p2c@[k + 1]@[i] != NO_IND
    ensures !haspiv(X.p2c@[k]@, i), emp(X.R@[k])(i)
{
    let B = C.boundary@[k]; let B1 = C.boundary@[k + 1]; let n = B.n as int; let p = X.p2c@[k]@; let u = X.p2c@[k + 1]@;
    assert(red_at(B, X.R@[k], p)); assert(red_at(B1, X.R@[k + 1], u)); assert(ddat(C, k)); assert(B1.m == B.n); reduced_pivtab(X.R@[k], p);
    let V1 = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B1), B1.m as int, B1.n as int, V, u);
    let q = u[i] as int; let z = |r: int| mq(B1.n as int, fm(B1), colf(V1, q), r); let w1 = mm(B1.n as int, fm(B1), V1);
    assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), z, r) == F::szero() by { dd_cycle(B, B1, colf(V1, q), r); }
    assert forall|r: int| i < r < n implies #[trigger] z(r) == F::szero() by { assert(w1(r, u[i] as int) == F::szero()); }
    assert(w1(i, u[i] as int) != F::szero());
    cyc_low(fm(B), B.m as int, n, p, z, i);
}
pub open spec fn ends<F: Field>(X: RCC<F>, k: int, r: int, j: int) -> bool { 0 <= r < X.p2c@[k]@.len() && X.p2c@[k]@[r] == j }
// every cell starts exactly one class or ends exactly one class, never both
pub proof fn birth_xor_death<F: Field>(D: FCC<F>, X: RFCC<F>, k: int, j: int)
    requires rf_of(D, X), 0 <= k < D.C.boundary@.len(), 0 <= j < D.C.boundary@[k].n
    ensures emp(X.RC.R@[k])(j) ==> !exists|r: int| #[trigger] ends(X.RC, k, r, j),
        !emp(X.RC.R@[k])(j) ==> exists|r: int| #[trigger] ends(X.RC, k, r, j),
        forall|r: int, s: int| #[trigger] ends(X.RC, k, r, j) && #[trigger] ends(X.RC, k, s, j) ==> r == s,
        k > 0 ==> forall|r: int| #[trigger] ends(X.RC, k, r, j) ==> emp(X.RC.R@[k - 1])(r) && !inf_pair(X, k - 1, r) && mkpair(X, k - 1, r, true).death_ind == j && mkpair(X, k - 1, r, false).death_ind == X.perm@[k]@[j]
{
    let C = D.C; let R = X.RC.R@[k]; let p = X.RC.p2c@[k]@;
    assert(red_at(C.boundary@[k], R, p)); reduced_pivtab(R, p); assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j));
    if emp(R)(j) { assert forall|r: int| !#[trigger] ends(X.RC, k, r, j) by { if ends(X.RC, k, r, j) { assert(p[r] == j); } } }
    else { let r = choose|r: int| 0 <= r < p.len() && #[trigger] p[r] == j; assert(ends(X.RC, k, r, j)); }
    assert forall|r: int, s: int| #[trigger] ends(X.RC, k, r, j) && #[trigger] ends(X.RC, k, s, j) implies r == s by { assert(p[r] == p[s]); }
    if k > 0 { assert forall|r: int| #[trigger] ends(X.RC, k, r, j) implies emp(X.RC.R@[k - 1])(r) && !inf_pair(X, k - 1, r) && mkpair(X, k - 1, r, true).death_ind == j && mkpair(X, k - 1, r, false).death_ind == X.perm@[k]@[j] by {
        assert(C.boundary@[k].m == C.boundary@[k - 1].n); assert(p.len() == C.boundary@[k].m); assert(p[r] != NO_IND); killed_is_birth(C, X.RC, k - 1, r); assert(rcc_red(C, X.RC)); } }
}
pub proof fn sum_nz<F: Field>(n: int, A: spec_fn(int, int) -> F, y: spec_fn(int) -> F, i: int) -> (l: int)
    requires n >= 0, mq(n, A, y, i) != F::szero() ensures 0 <= l < n, y(l) != F::szero(), A(i, l) != F::szero()
{
    broadcast use field_basic;
    if forall|l: int| 0 <= l < n ==> y(l) == F::szero() || #[trigger] A(i, l) == F::szero() { assert forall|l: int| 0 <= l < n implies #[trigger] mqf(A, y, i)(l) == F::szero() by { assert(y(l) == F::szero() || A(i, l) == F::szero()); F::ax_mul_comm(y(l), A(i, l)); } fsum_zero(n, mqf(A, y, i)); }
    choose|l: int| 0 <= l < n && y(l) != F::szero() && #[trigger] A(i, l) != F::szero()
}
// a class is not born after it dies
pub proof fn birth_le_death<F: Field>(D: FCC<F>, X: RFCC<F>, k: int, i: int)
    requires rf_of(D, X), monotone(D), 0 <= k < D.C.boundary@.len(), 0 <= i < D.C.boundary@[k].n, !inf_pair(X, k, i)
    ensures mkpair(X, k, i, true).birth <= mkpair(X, k, i, true).death, mkpair(X, k, i, false).birth <= mkpair(X, k, i, false).death
{
    let B = D.C.boundary@[k + 1]; let n = B.n as int; let p = X.RC.p2c@[k + 1]@; let j = p[i] as int;
    assert(red_at(B, X.RC.R@[k + 1], p)); assert(B.m == D.C.boundary@[k].n); assert(same_filt(D, X, k)); assert(same_filt(D, X, k + 1)); assert(filt_at(D, k + 1)); assert(filt_at(D, k));
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B), B.m as int, n, V, p);
    let w = mm(n, fm(B), V); assert(w(i, p[i] as int) != F::szero());
    let l = sum_nz(n, fm(B), colf(V, j), i);
    assert(l <= j) by { if l > j { assert(V(l, j) == F::szero()); } }
    assert(bnz(D, k + 1, i, l)); assert(fval(D, k, i) <= fval(D, k + 1, l));
    if l < j { assert(D.perm@[k + 1]@[l] < n); assert(D.val@[k + 1]@[D.perm@[k + 1]@[l] as int] <= D.val@[k + 1]@[D.perm@[k + 1]@[j] as int]); }
}
// the pairs do not depend on the reduction options
pub proof fn same_pairs<F: Field>(D: FCC<F>, X: RFCC<F>, Y: RFCC<F>, k: int, permuted: bool, s: Seq<PPair>, t: Seq<PPair>)
    requires rf_of(D, X), rf_of(D, Y), 0 <= k < D.C.boundary@.len(), pairs_of(X, k, permuted, s), pairs_of(Y, k, permuted, t)
    ensures s == t
{
    let C = D.C; let n = C.boundary@[k].n as int; let zx = emp(X.RC.R@[k]); let zy = emp(Y.RC.R@[k]);
    same_piv(C, X.RC, Y.RC, k); if k + 1 < C.boundary@.len() { same_piv(C, X.RC, Y.RC, k + 1); assert(same_filt(D, X, k + 1)); assert(same_filt(D, Y, k + 1)); }
    assert(red_at(C.boundary@[k], X.RC.R@[k], X.RC.p2c@[k]@)); assert(red_at(C.boundary@[k], Y.RC.R@[k], Y.RC.p2c@[k]@)); assert(same_filt(D, X, k)); assert(same_filt(D, Y, k));
    reduced_pivtab(X.RC.R@[k], X.RC.p2c@[k]@); reduced_pivtab(Y.RC.R@[k], Y.RC.p2c@[k]@);
    assert forall|j: int| 0 <= j < n implies #[trigger] zx(j) == zy(j) by { assert(X.RC.R@[k].col@[j].indval@.len() > 0 <==> haspiv(X.RC.p2c@[k]@, j)); assert(Y.RC.R@[k].col@[j].indval@.len() > 0 <==> haspiv(Y.RC.p2c@[k]@, j)); }
    cnt_ext(n, zx, zy);
    assert forall|a: int| 0 <= a < s.len() implies s[a] == #[trigger] t[a] by {
        let i = cnt_nth(n, zx, a); assert(zy(i)); cnt_ext(i, zx, zy); assert(s[cnt(i, zx)] == mkpair(X, k, i, permuted)); assert(t[cnt(i, zy)] == mkpair(Y, k, i, permuted)); assert(inf_pair(X, k, i) == inf_pair(Y, k, i)); }
    assert(s =~= t);
}
pub proof fn cnt_nth(n: int, z: spec_fn(int) -> bool, a: int) -> (i: int) requires 0 <= a < cnt(n, z) ensures 0 <= i < n, z(i), cnt(i, z) == a decreases n
{ if n <= 0 { 0 } else if z(n - 1) && a == cnt(n - 1, z) { n - 1 } else { cnt_nth(n - 1, z, a) } }
pub proof fn cnt_tail(a: int, n: int, z: spec_fn(int) -> bool) requires 0 <= a <= n, forall|j: int| a <= j < n ==> !#[trigger] z(j) ensures cnt(n, z) == cnt(a, z) decreases n { if n > a { cnt_tail(a, n - 1, z); assert(!z(n - 1)); } }
pub proof fn fsum_tail<F: Field>(a: int, n: int, f: spec_fn(int) -> F) requires 0 <= a <= n, forall|j: int| a <= j < n ==> #[trigger] f(j) == F::szero() ensures fsum(n, f) == fsum(a, f) decreases n
{ broadcast use field_basic; if n > a { fsum_tail(a, n - 1, f); assert(f(n - 1) == F::szero()); } }
// ---- sublevel sets: S is the part of C spanned by the first a(k) cells of every dimension ----
pub open spec fn lead_at<F: Field>(C: CC<F>, S: CC<F>, a: spec_fn(int) -> int, k: int) -> bool {
    &&& 0 <= a(k) <= C.boundary@[k].n && S.boundary@[k].n == a(k) && S.boundary@[k].m == (if k > 0 { a(k - 1) } else { C.boundary@[0].m as int })
    &&& forall|i: int, j: int| 0 <= i < S.boundary@[k].m && 0 <= j < a(k) ==> #[trigger] cmv(S.boundary@[k], i, j) == cmv(C.boundary@[k], i, j)
    &&& k > 0 ==> forall|i: int, j: int| a(k - 1) <= i < C.boundary@[k].m && 0 <= j < a(k) ==> #[trigger] cmv(C.boundary@[k], i, j) == F::szero()
}
pub open spec fn lead_cc<F: Field>(C: CC<F>, S: CC<F>, a: spec_fn(int) -> int) -> bool { ccwf(C) && ccwf(S) && S.boundary@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] lead_at(C, S, a, k) }
pub open spec fn lead_piv(p: Seq<usize>, m: int, n: int) -> Seq<usize> { Seq::new(m as nat, |i: int| if p[i] < n { p[i] } else { NO_IND }) }
pub proof fn lead_pivots<F: Field>(B: CM<F>, S: CM<F>, p: Seq<usize>)
    requires cmwf(B), cmwf(S), S.n <= B.n, S.m <= B.m, pivots_of(fm(B), B.m as int, B.n as int, p), forall|i: int, j: int| 0 <= i < S.m && 0 <= j < S.n ==> #[trigger] cmv(S, i, j) == cmv(B, i, j), forall|i: int, j: int| S.m <= i < B.m && 0 <= j < S.n ==> #[trigger] cmv(B, i, j) == F::szero()
    ensures pivots_of(fm(S), S.m as int, S.n as int, lead_piv(p, S.m as int, S.n as int)), forall|j: int| 0 <= j < S.n ==> (#[trigger] haspiv(lead_piv(p, S.m as int, S.n as int), j) <==> haspiv(p, j))
{
    broadcast use field_basic;
    let m = B.m as int; let n = B.n as int; let a = S.m as int; let b = S.n as int; let q = lead_piv(p, a, b);
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B), m, n, V, p);
    let w = mm(n, fm(B), V); let v = mm(b, fm(S), V);
    assert forall|i: int, j: int| 0 <= i < a && 0 <= j < b implies #[trigger] v(i, j) == w(i, j) by {
        let f = mqf(fm(B), colf(V, j), i); assert forall|l: int| b <= l < n implies #[trigger] f(l) == F::szero() by { assert(V(l, j) == F::szero()); } fsum_tail(b, n, f);
        assert forall|l: int| 0 <= l < b implies #[trigger] mqf(fm(S), colf(V, j), i)(l) == f(l) by { assert(cmv(S, i, l) == cmv(B, i, l)); } fsum_ext(b, mqf(fm(S), colf(V, j), i), f); }
    assert forall|i: int, j: int| a <= i < m && 0 <= j < b implies #[trigger] w(i, j) == F::szero() by {
        let f = mqf(fm(B), colf(V, j), i); assert forall|l: int| 0 <= l < n implies #[trigger] f(l) == F::szero() by { if l < b { assert(cmv(B, i, l) == F::szero()); F::ax_mul_comm(V(l, j), F::szero()); } else { assert(V(l, j) == F::szero()); } } fsum_zero(n, f); }
    assert forall|j: int| 0 <= j < b implies (#[trigger] haspiv(q, j) <==> haspiv(p, j)) by {
        if haspiv(q, j) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == j; assert(p[i] == j); }
        if haspiv(p, j) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(p[i] != NO_IND); assert(w(i, p[i] as int) != F::szero()); assert(i < a) by { if i >= a { assert(w(i, j) == F::szero()); } } assert(q[i] == j); }
    }
    assert(pivtab(v, a, b, q)) by {
        assert forall|i: int| 0 <= i < a && #[trigger] q[i] != NO_IND implies q[i] < b && v(i, q[i] as int) != F::szero() by { assert(p[i] != NO_IND); assert(v(i, q[i] as int) == w(i, p[i] as int)); }
        assert forall|i: int, r: int| 0 <= i < r < a && #[trigger] q[i] != NO_IND implies #[trigger] v(r, q[i] as int) == F::szero() by { assert(p[i] != NO_IND); assert(q[i] == p[i]); assert(v(r, q[i] as int) == w(r, p[i] as int)); }
        assert forall|j: int, r: int| 0 <= j < b && 0 <= r < a && !haspiv(q, j) implies #[trigger] v(r, j) == F::szero() by { assert(!haspiv(p, j)); assert(w(r, j) == F::szero()); assert(v(r, j) == w(r, j)); }
    }
    assert(utri(b, V)); assert(pivots_by(fm(S), a, b, V, q));
}
pub open spec fn lives<F: Field>(X: RCC<F>, k: int, b: int) -> spec_fn(int) -> bool { |j: int| X.R@[k].col@[j].indval@.len() == 0 && (k == X.R@.len() - 1 || X.p2c@[k + 1]@[j] >= b) }
// the homology of a leading subcomplex is read off the reduction of the whole complex
pub proof fn lead_betti<F: Field>(C: CC<F>, S: CC<F>, a: spec_fn(int) -> int, X: RCC<F>, Y: RCC<F>, k: int)
    requires lead_cc(C, S, a), rcc_red(C, X), rcc_red(S, Y), rcc_gens(Y), X.I@.len() == X.R@.len(), 0 <= k < C.boundary@.len()
    ensures Y.I@[k]@.len() == cnt(a(k), lives(X, k, a(k + 1)))
{
    let B = C.boundary@[k]; let T = S.boundary@[k]; let p = X.p2c@[k]@; let b = a(k); let top = k == C.boundary@.len() - 1;
    assert(lead_at(C, S, a, k)); assert(red_at(B, X.R@[k], p)); assert(red_at(T, Y.R@[k], Y.p2c@[k]@)); if k > 0 { assert(lead_at(C, S, a, k - 1)); assert(B.m == C.boundary@[k - 1].n); }
    lead_pivots(B, T, p); piv_unique(fm(T), T.m as int, T.n as int, Y.p2c@[k]@, lead_piv(p, T.m as int, T.n as int));
    reduced_pivtab(X.R@[k], p); reduced_pivtab(Y.R@[k], Y.p2c@[k]@);
    if !top {
        let B1 = C.boundary@[k + 1]; let T1 = S.boundary@[k + 1]; assert(lead_at(C, S, a, k + 1)); assert(red_at(B1, X.R@[k + 1], X.p2c@[k + 1]@)); assert(red_at(T1, Y.R@[k + 1], Y.p2c@[k + 1]@)); assert(B1.m == B.n); assert(T1.m == T.n);
        lead_pivots(B1, T1, X.p2c@[k + 1]@); piv_unique(fm(T1), T1.m as int, T1.n as int, Y.p2c@[k + 1]@, lead_piv(X.p2c@[k + 1]@, T1.m as int, T1.n as int));
    }
    assert(gens_at(Y, k)); let z = lives(X, k, a(k + 1)); let u = p_up(Y, k);
    assert forall|j: int| 0 <= j < b implies #[trigger] z(j) == isgen(Y.R@[k], u, top, j) by {
        assert(haspiv(Y.p2c@[k]@, j) <==> haspiv(p, j)); assert(X.R@[k].col@[j].indval@.len() > 0 <==> haspiv(p, j)); assert(Y.R@[k].col@[j].indval@.len() > 0 <==> haspiv(Y.p2c@[k]@, j));
    }
    let s = Y.I@[k]@;
    assert forall|c: int| 0 <= c < s.len() implies #[trigger] s[c] < b && z(s[c] as int) by { assert(isgen(Y.R@[k], u, top, s[c] as int)); }
    assert forall|j: int| 0 <= j < b && #[trigger] z(j) implies s.contains(j as usize) by { assert(isgen(Y.R@[k], u, top, j)); }
    list_cnt(b, z, s);
}
pub open spec fn alive(q: PPair, t: i32) -> bool { q.birth <= t && (q.death_ind == NO_IND || t < q.death) }
pub open spec fn bar_at<F: Field>(X: RFCC<F>, k: int, t: i32) -> spec_fn(int) -> bool { |j: int| emp(X.RC.R@[k])(j) && alive(mkpair(X, k, j, true), t) }
pub open spec fn below_t<F: Field>(D: FCC<F>, a: spec_fn(int) -> int, t: i32) -> bool { forall|k: int, i: int| 0 <= k < D.C.boundary@.len() && 0 <= i < D.C.boundary@[k].n ==> (#[trigger] fval(D, k, i) <= t <==> i < a(k)) }
// S is the sublevel set of t
pub open spec fn sub_at<F: Field>(D: FCC<F>, S: CC<F>, a: spec_fn(int) -> int, k: int) -> bool {
    &&& 0 <= a(k) <= D.C.boundary@[k].n && S.boundary@[k].n == a(k) && S.boundary@[k].m == (if k > 0 { a(k - 1) } else { D.C.boundary@[0].m as int })
    &&& forall|i: int, j: int| 0 <= i < S.boundary@[k].m && 0 <= j < a(k) ==> #[trigger] cmv(S.boundary@[k], i, j) == cmv(D.C.boundary@[k], i, j)
}
pub open spec fn sublevel<F: Field>(D: FCC<F>, S: CC<F>, a: spec_fn(int) -> int, t: i32) -> bool { ccwf(S) && S.boundary@.len() == D.C.boundary@.len() && below_t(D, a, t) && forall|k: int| 0 <= k < D.C.boundary@.len() ==> #[trigger] sub_at(D, S, a, k) }
// the number of reported bars alive at t is the Betti number of the sublevel set of t
pub proof fn sublevel_bars<F: Field>(D: FCC<F>, S: CC<F>, a: spec_fn(int) -> int, t: i32, X: RFCC<F>, Y: RCC<F>, k: int)
    requires rf_of(D, X), monotone(D), sublevel(D, S, a, t), rcc_red(S, Y), rcc_gens(Y), 0 <= k < D.C.boundary@.len()
    ensures Y.I@[k]@.len() == cnt(D.C.boundary@[k].n as int, bar_at(X, k, t))
{
    let C = D.C; let n = C.boundary@[k].n as int;
    assert forall|q: int| 0 <= q < C.boundary@.len() implies #[trigger] lead_at(C, S, a, q) by {
        assert(sub_at(D, S, a, q)); if q > 0 { assert(sub_at(D, S, a, q - 1)); assert(C.boundary@[q].m == C.boundary@[q - 1].n);
            assert forall|i: int, j: int| a(q - 1) <= i < C.boundary@[q].m && 0 <= j < a(q) implies #[trigger] cmv(C.boundary@[q], i, j) == F::szero() by { if cmv(C.boundary@[q], i, j) != F::szero() { assert(bnz(D, q, i, j)); assert(fval(D, q - 1, i) <= fval(D, q, j)); } } } }
    lead_betti(C, S, a, X.RC, Y, k);
    let z = lives(X.RC, k, a(k + 1)); let g = bar_at(X, k, t);
    assert(sub_at(D, S, a, k)); assert(same_filt(D, X, k)); assert(filt_at(D, k)); assert(red_at(C.boundary@[k], X.RC.R@[k], X.RC.p2c@[k]@));
    let top = k == C.boundary@.len() - 1; if !top { assert(sub_at(D, S, a, k + 1)); assert(same_filt(D, X, k + 1)); assert(filt_at(D, k + 1)); assert(red_at(C.boundary@[k + 1], X.RC.R@[k + 1], X.RC.p2c@[k + 1]@)); assert(C.boundary@[k + 1].m == n); }
    assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == (j < a(k) && z(j)) by {
        assert(fval(D, k, j) <= t <==> j < a(k)); assert(cval(X, k, j) == fval(D, k, j));
        if !top { let u = X.RC.p2c@[k + 1]@; if u[j] != NO_IND { let d = u[j] as int; assert(d < C.boundary@[k + 1].n); assert(fval(D, k + 1, d) <= t <==> d < a(k + 1)); assert(cval(X, k + 1, d) == fval(D, k + 1, d)); assert(D.perm@[k + 1]@[d] < C.boundary@[k + 1].n); } }
    }
    cnt_tail(a(k), n, g);
    cnt_ext(a(k), z, g);
}
@end
@fn RFCC<F>::persistence_pairs(usize, bool) const as rfcc_pairs
@prop P12
@opt rlimit=60
@requires
  rfit(*this), k < this.RC.R@.len()
@ensures
  pairs_of(*this, k as int, permuted, ret@)
@at entry
  proof { assert(rfit_at(*this, k as int)); if k + 1 < this.RC.R@.len() { assert(rfit_at(*this, k + 1)); } }
@loop 0
  invariant i <= this.RC.R@[k as int].n, rfit(*this), k < this.RC.R@.len(), pairs_upto(*this, k as int, i as int, true, pairs@), permuted == true,
  ensures i == this.RC.R@[k as int].n,
  decreases this.RC.R@[k as int].n - i
@at loop 0 begin
  let ghost p0 = pairs@;
  proof { let X = *this; let kk = k as int; assert(rfit_at(X, kk)); if kk + 1 < X.RC.R@.len() { assert(rfit_at(X, kk + 1)); } }
@at loop 0 end
  proof { pairs_step(*this, k as int, i as int, true, p0, pairs@); }
@loop 1
  invariant i <= this.RC.R@[k as int].n, rfit(*this), k < this.RC.R@.len(), pairs_upto(*this, k as int, i as int, false, pairs@), permuted == false,
  ensures i == this.RC.R@[k as int].n,
  decreases this.RC.R@[k as int].n - i
@at loop 1 begin
  let ghost p0 = pairs@;
  proof { let X = *this; let kk = k as int; assert(rfit_at(X, kk)); if kk + 1 < X.RC.R@.len() { assert(rfit_at(X, kk + 1)); } }
@at loop 1 end
  proof { pairs_step(*this, k as int, i as int, false, p0, pairs@); }
@fn RFCC<F>::persistence_pairs_vec(usize, bool) const as rfcc_pairs_vec
@prop P12
@requires
  rfit(*this), k < this.RC.R@.len(), 2 * this.RC.R@[k as int].n <= usize::MAX
@ensures
  exists|s: Seq<PPair>| #[trigger] pairs_of(*this, k as int, permuted, s) && flat_pairs(s, ret.0@, ret.1@)
@at after rfcc_pairs 0
  proof { cnt_bound(this.RC.R@[k as int].n as int, emp(this.RC.R@[k as int])); assert(pairs_of(*this, k as int, permuted, r_rfcc_pairs_0@)); }
@loop 0
  invariant i <= pairs@.len(), 2 * pairs@.len() <= usize::MAX, bd@.len() == 2 * pairs@.len(), inds@.len() == 2 * pairs@.len(), flat_upto(pairs@, i as int, bd@, inds@), pairs_of(*this, k as int, permuted, pairs@),
  decreases pairs@.len() - i
@at before return 0
  proof { assert(pairs_of(*this, k as int, permuted, pairs@) && flat_pairs(pairs@, bd@, inds@)); }
@rust
// ---- updating the values ----
// r lists, for every new position, the old position of the cell that goes there
pub open spec fn repos(r: Seq<usize>, q: Seq<usize>, p2: Seq<usize>) -> bool { r.len() == p2.len() && forall|i: int| 0 <= i < p2.len() ==> #[trigger] r[i] == q[p2[i] as int] }
pub proof fn repos_ok(r: Seq<usize>, q: Seq<usize>, p: Seq<usize>, p2: Seq<usize>, n: int)
    requires permu(p, n), permu(p2, n), inverse_of(q, p), repos(r, q, p2)
    ensures permu(r, n), forall|i: int| 0 <= i < n ==> p[#[trigger] r[i] as int] == p2[i]
{
    permu_isperm(p, n);
    assert forall|i: int| 0 <= i < n implies (#[trigger] r[i]) < n && p[r[i] as int] == p2[i] by { let c = isperm_onto(p, p2[i] as int); assert(q[p[c] as int] == c); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { if r[i] == r[j] { assert(p2[i] == p2[j]); } }
}
pub open spec fn repos_all(R: Seq<Vec<usize>>, Q: Seq<Vec<usize>>, P2: Seq<Vec<usize>>) -> bool { R.len() == P2.len() && forall|k: int| 0 <= k < R.len() ==> #[trigger] repos_at(R, Q, P2, k) }
pub open spec fn repos_at(R: Seq<Vec<usize>>, Q: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, k: int) -> bool { repos(R[k]@, Q[k]@, P2[k]@) }
pub open spec fn permlens(P: Seq<Vec<usize>>, n: spec_fn(int) -> int) -> bool { forall|k: int| 0 <= k < P.len() ==> permu(#[trigger] P[k]@, n(k)) }
// O renamed by P is C, O renamed by P2 is C2: then C2 is C renamed by the repositioning
pub proof fn repos_cc<F: Field>(O: CC<F>, C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>, Q: Seq<Vec<usize>>)
    requires ccwf(O), perm_cc(O, C, P), perm_cc(O, C2, P2), perms_ok(O, P), perms_ok(O, P2), Q.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> inverse_of(#[trigger] Q[k]@, P[k]@), repos_all(R, Q, P2)
    ensures perm_cc(C, C2, R), perms_ok(C, R)
{
    perm_cc_wf(O, C, P); perm_cc_wf(O, C2, P2);
    assert forall|k: int| 0 <= k < P.len() implies #[trigger] permu(R[k]@, O.boundary@[k].n as int) && forall|i: int| 0 <= i < O.boundary@[k].n ==> P[k]@[#[trigger] R[k]@[i] as int] == P2[k]@[i] by { assert(permu(P[k]@, O.boundary@[k].n as int)); assert(permu(P2[k]@, O.boundary@[k].n as int)); assert(inverse_of(Q[k]@, P[k]@)); assert(repos_at(R, Q, P2, k)); repos_ok(R[k]@, Q[k]@, P[k]@, P2[k]@, O.boundary@[k].n as int); }
    assert forall|k: int| 0 <= k < C.boundary@.len() implies #[trigger] perm_dim(C, C2, R, k) by {
        assert(perm_dim(O, C, P, k)); assert(perm_dim(O, C2, P2, k));
        if k > 0 {
            let B = O.boundary@[k]; assert(B.m == O.boundary@[k - 1].n); assert(permu(R[k]@, B.n as int)); assert(permu(R[k - 1]@, B.m as int));
            assert forall|i: int, j: int| 0 <= i < B.m && 0 <= j < B.n implies #[trigger] cmv(C2.boundary@[k], i, j) == cmv(C.boundary@[k], R[k - 1]@[i] as int, R[k]@[j] as int) by {
                let a = R[k - 1]@[i] as int; let b = R[k]@[j] as int; assert(cmv(C2.boundary@[k], i, j) == cmv(B, P2[k - 1]@[i] as int, P2[k]@[j] as int)); assert(cmv(C.boundary@[k], a, b) == cmv(B, P[k - 1]@[a] as int, P[k]@[b] as int)); }
        }
    }
    assert forall|k: int| 0 <= k < R.len() implies permu(#[trigger] R[k]@, C.boundary@[k].n as int) by { assert(C.boundary@[k].n == O.boundary@[k].n); assert(permu(R[k]@, O.boundary@[k].n as int)); }
}
pub proof fn repos_back<F: Field>(O: CC<F>, C: CC<F>, C2: CC<F>, P: Seq<Vec<usize>>, P2: Seq<Vec<usize>>, R: Seq<Vec<usize>>, Q: Seq<Vec<usize>>)
    requires ccwf(O), perm_cc(O, C, P), perms_ok(O, P), P2.len() == P.len(), C2.boundary@.len() == C.boundary@.len(), forall|k: int| 0 <= k < P.len() ==> permu(#[trigger] P2[k]@, O.boundary@[k].n as int), Q.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> inverse_of(#[trigger] Q[k]@, P[k]@), repos_all(R, Q, P2), forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] moved_at(C, C2, R, k)
    ensures perm_cc(O, C2, P2)
{
    perm_cc_wf(O, C, P);
    assert forall|k: int| 0 <= k < P.len() implies #[trigger] permu(R[k]@, O.boundary@[k].n as int) && forall|i: int| 0 <= i < O.boundary@[k].n ==> P[k]@[#[trigger] R[k]@[i] as int] == P2[k]@[i] by { assert(permu(P[k]@, O.boundary@[k].n as int)); assert(permu(P2[k]@, O.boundary@[k].n as int)); assert(inverse_of(Q[k]@, P[k]@)); assert(repos_at(R, Q, P2, k)); repos_ok(R[k]@, Q[k]@, P[k]@, P2[k]@, O.boundary@[k].n as int); }
    assert forall|k: int| 0 <= k < O.boundary@.len() implies #[trigger] perm_dim(O, C2, P2, k) by {
        assert(perm_dim(O, C, P, k)); assert(moved_at(C, C2, R, k));
        if k > 0 {
            let B = O.boundary@[k]; assert(B.m == O.boundary@[k - 1].n); assert(permu(R[k]@, B.n as int)); assert(permu(R[k - 1]@, B.m as int));
            assert forall|i: int, j: int| 0 <= i < B.m && 0 <= j < B.n implies #[trigger] cmv(C2.boundary@[k], i, j) == cmv(B, P2[k - 1]@[i] as int, P2[k]@[j] as int) by {
                let a = R[k - 1]@[i] as int; let b = R[k]@[j] as int; assert(cmv(C2.boundary@[k], i, j) == cmv(C.boundary@[k], a, b)); assert(cmv(C.boundary@[k], a, b) == cmv(B, P[k - 1]@[a] as int, P[k]@[b] as int)); }
        }
    }
}
// the cycle of column c, expressed in the original cells
pub open spec fn rep_at<F: Field>(X: RFCC<F>, p: PPair, c: int, v: SV<F>) -> bool {
    let P = X.perm@[p.dim as int]@; let U = X.RC.U@[p.dim as int];
    0 <= c < P.len() && P[c] == p.birth_ind && forall|i: int| 0 <= i < P.len() ==> sval(v.indval@, #[trigger] P[i] as int) == cmv(U, i, c)
}
// a complex listed in two orders: X reduces the first, X2 the second, whatever the original O is
pub open spec fn refit_ok<F: Field>(X: RFCC<F>, X2: RFCC<F>) -> bool { forall|O: CC<F>, C: CC<F>, C2: CC<F>| ccwf(O) && hom_of(C, X.RC) && #[trigger] perm_cc(O, C, X.perm@) && #[trigger] perm_cc(O, C2, X2.perm@) && perms_ok(O, X.perm@) && perms_ok(O, X2.perm@) ==> hom_of(C2, X2.RC) }
pub open spec fn vals_fit(V: Seq<Vec<i32>>, P: Seq<Vec<usize>>) -> bool { V.len() == P.len() && forall|k: int| 0 <= k < V.len() ==> (#[trigger] V[k])@.len() == P[k]@.len() }
pub open spec fn sorted_by(V: Seq<Vec<i32>>, P: Seq<Vec<usize>>) -> bool { P.len() == V.len() && forall|k: int| 0 <= k < V.len() ==> sorts(#[trigger] P[k]@, V[k]@) }
pub open spec fn upd_fit<F: Field>(X: RCC<F>, P: Seq<Vec<usize>>) -> bool {
    &&& X.R@.len() > 0 && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && P.len() == X.R@.len()
    &&& forall|k: int| 0 <= k < X.R@.len() ==> #[trigger] perm_fit_at(X, P, k)
}
pub proof fn upd_fit_new<F: Field>(X: RCC<F>, P: Seq<Vec<usize>>, V: Seq<Vec<i32>>, P2: Seq<Vec<usize>>, Q: Seq<Vec<usize>>, R: Seq<Vec<usize>>)
    requires upd_fit(X, P), vals_fit(V, P), sorted_by(V, P2), Q.len() == P.len(), forall|k: int| 0 <= k < P.len() ==> inverse_of(#[trigger] Q[k]@, P[k]@), repos_all(R, Q, P2)
    ensures perm_fit(X, R)
{ assert forall|k: int| 0 <= k < X.R@.len() implies #[trigger] perm_fit_at(X, R, k) by { assert(perm_fit_at(X, P, k)); assert(V[k]@.len() == P[k]@.len()); assert(sorts(P2[k]@, V[k]@)); assert(inverse_of(Q[k]@, P[k]@)); assert(repos_at(R, Q, P2, k)); repos_ok(R[k]@, Q[k]@, P[k]@, P2[k]@, X.U@[k].n as int); } }
// an updated reduction reports the same pairs as a reduction built from the new values
pub proof fn update_is_rebuild<F: Field>(O: CC<F>, D: FCC<F>, X: RFCC<F>, E: FCC<F>, Y: RFCC<F>, X2: RFCC<F>, k: int, permuted: bool, s: Seq<PPair>, t: Seq<PPair>)
    requires ccwf(O), hom_of(D.C, X.RC), perm_cc(O, D.C, X.perm@), perms_ok(O, X.perm@), refit_ok(X, X2), sorted_by(X2.val@, X2.perm@),
        filt_ok(E), perm_cc(O, E.C, E.perm@), rf_of(E, Y), E.perm@.len() == X2.perm@.len(), E.val@.len() == X2.val@.len(), perms_ok(O, X2.perm@), perm_cc(O, E.C, X2.perm@), forall|q: int| 0 <= q < E.perm@.len() ==> #[trigger] same_filt(E, X2, q),
        0 <= k < E.C.boundary@.len(), pairs_of(X2, k, permuted, s), pairs_of(Y, k, permuted, t)
    ensures s == t
{ assert(hom_of(E.C, X2.RC)); assert(rf_of(E, X2)); same_pairs(E, X2, Y, k, permuted, s, t); }
@end
@fn RFCC<F>::representative(PPair, bool) const as rfcc_rep
@prop P12 P10
@requires
  p.dim < this.RC.U@.len(), cmwf(this.RC.U@[p.dim as int]), this.RC.U@[p.dim as int].m == this.RC.U@[p.dim as int].n, p.birth_ind < this.RC.U@[p.dim as int].n, this.perm@.len() == this.RC.U@.len(), permu(this.perm@[p.dim as int]@, this.RC.U@[p.dim as int].n as int), this.RC.U@[p.dim as int].n <= i64::MAX
@ensures
  sc(ret.indval@, this.RC.U@[p.dim as int].m as int),
  permuted ==> ret == this.RC.U@[p.dim as int].col@[p.birth_ind as int],
  !permuted ==> exists|c: int| #[trigger] rep_at(*this, p, c, ret)
@at entry
  proof { let P = this.perm@[p.dim as int]@; permu_isperm(P, P.len() as int); let c0 = isperm_onto(P, p.birth_ind as int); assert(this.perm@[p.dim as int].len() == P.len()); }
@at after sv_permute 0
  proof { assert(rep_at(*this, p, it as int, v)); }
@fn RFCC<F>::update_filtration(Vec<Vec<i32>>) as rfcc_update
@prop P18 P12
@opt rlimit=60
@requires
  upd_fit(old(this).RC, old(this).perm@), vals_fit(newval@, old(this).perm@)
@ensures
  final(this).val@ == newval@, sorted_by(newval@, final(this).perm@), refit_ok(*old(this), *final(this)), final(this).RC.R@.len() == old(this).RC.R@.len()
@at before filtration_iperm 0
  proof { assert forall|q: int| 0 <= q < this.perm@.len() implies permu(#[trigger] this.perm@[q]@, this.perm@[q]@.len() as int) by { assert(perm_fit_at(this.RC, this.perm@, q)); } }
@at entry
  let ghost X = *this; let ghost mut Q0: Seq<Vec<usize>> = Seq::empty(); let ghost mut T0: Seq<Vec<usize>> = Seq::empty();
@at loop 0 before
  proof { Q0 = iperm@; }
@loop 0
  invariant *this == X, upd_fit(X.RC, X.perm@), k <= iperm@.len(), iperm@.len() == Q0.len(), perms@.len() == Q0.len(), newval@.len() == Q0.len(), X.perm@.len() == Q0.len(), vals_fit(newval@, X.perm@), sorted_by(newval@, perms@), forall|q: int| 0 <= q < Q0.len() ==> inverse_of(#[trigger] Q0[q]@, X.perm@[q]@),
    forall|q: int| k <= q < Q0.len() ==> #[trigger] iperm@[q] == Q0[q], forall|q: int| 0 <= q < k ==> #[trigger] repos_at(iperm@, Q0, perms@, q),
  decreases iperm@.len() - k
@at loop 0 begin
  let ghost p2 = perms@[k as int]@; let ghost q = Q0[k as int]@;
  proof { T0 = iperm@; assert(newval@[k as int]@.len() == X.perm@[k as int]@.len()); assert(sorts(p2, newval@[k as int]@)); assert(inverse_of(q, X.perm@[k as int]@)); assert(perms@[k as int].len() == p2.len()); assert(iperm@[k as int] == Q0[k as int]); }
@loop 1
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q == iperm@[k as int]@, tmp@.len() == p2.len(), q.len() == p2.len(), permu(p2, q.len() as int), forall|x: int| 0 <= x < i ==> #[trigger] tmp@[x] == q[p2[x] as int],
  decreases p2.len() - i
@loop 2
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q.len() == p2.len(), iperm@[k as int]@.len() == p2.len(), tmp@.len() == p2.len(), T0.len() == Q0.len(), forall|x: int| 0 <= x < p2.len() ==> #[trigger] tmp@[x] == q[p2[x] as int],
    forall|x: int| 0 <= x < i ==> #[trigger] iperm@[k as int]@[x] == tmp@[x], forall|r: int| 0 <= r < Q0.len() && r != k ==> #[trigger] iperm@[r] == T0[r],
  decreases p2.len() - i
@at loop 0 end
  proof { assert(repos_at(iperm@, Q0, perms@, k as int)); assert forall|r: int| 0 <= r < k + 1 implies #[trigger] repos_at(iperm@, Q0, perms@, r) by { if r < k { assert(repos_at(T0, Q0, perms@, r)); assert(iperm@[r] == T0[r]); } } }
@at before rcc_perm 0
  proof { assert(repos_all(iperm@, Q0, perms@)); upd_fit_new(X.RC, X.perm@, newval@, perms@, Q0, iperm@); }
@at exit
  proof { assert forall|O: CC<F>, C: CC<F>, C2: CC<F>| ccwf(O) && hom_of(C, X.RC) && #[trigger] perm_cc(O, C, X.perm@) && #[trigger] perm_cc(O, C2, this.perm@) && perms_ok(O, X.perm@) && perms_ok(O, this.perm@) implies hom_of(C2, this.RC) by { repos_cc(O, C, C2, X.perm@, this.perm@, iperm@, Q0); } }
@fn RFCC<F>::new(FCC<F>) as rfcc_new
@prop P12 P18
@requires
  filt_ok(*C)
@ensures
  rf_of(*C, ret), hom_of(C.C, ret.RC)
@at exit
  proof { assert forall|k: int| 0 <= k < C.C.boundary@.len() implies #[trigger] same_filt(*C, this, k) by { } }
@fn FCC<F>::update_filtration(Vec<Vec<i32>>) as fcc_update
@prop P18
@opt rlimit=60
@requires
  ccwf(old(this).C), perms_ok(old(this).C, old(this).perm@), vals_fit(newval@, old(this).perm@)
@ensures
  final(this).val@ == newval@, sorted_by(newval@, final(this).perm@), ccwf(final(this).C),
  forall|O: CC<F>| ccwf(O) && #[trigger] perm_cc(O, old(this).C, old(this).perm@) && perms_ok(O, old(this).perm@) ==> perm_cc(O, final(this).C, final(this).perm@)
@at before filtration_iperm 0
  proof { assert forall|q: int| 0 <= q < this.perm@.len() implies permu(#[trigger] this.perm@[q]@, this.perm@[q]@.len() as int) by { } }
@at entry
  let ghost X = *this; let ghost mut Q0: Seq<Vec<usize>> = Seq::empty(); let ghost mut T0: Seq<Vec<usize>> = Seq::empty();
@at loop 0 before
  proof { Q0 = iperm@; }
@loop 0
  invariant *this == X, ccwf(X.C), perms_ok(X.C, X.perm@), k <= iperm@.len(), iperm@.len() == Q0.len(), perms@.len() == Q0.len(), newval@.len() == Q0.len(), X.perm@.len() == Q0.len(), vals_fit(newval@, X.perm@), sorted_by(newval@, perms@), forall|q: int| 0 <= q < Q0.len() ==> inverse_of(#[trigger] Q0[q]@, X.perm@[q]@),
    forall|q: int| k <= q < Q0.len() ==> #[trigger] iperm@[q] == Q0[q], forall|q: int| 0 <= q < k ==> #[trigger] repos_at(iperm@, Q0, perms@, q),
  decreases iperm@.len() - k
@at loop 0 begin
  let ghost p2 = perms@[k as int]@; let ghost q = Q0[k as int]@;
  proof { T0 = iperm@; assert(newval@[k as int]@.len() == X.perm@[k as int]@.len()); assert(sorts(p2, newval@[k as int]@)); assert(inverse_of(q, X.perm@[k as int]@)); assert(perms@[k as int].len() == p2.len()); assert(iperm@[k as int] == Q0[k as int]); }
@loop 1
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q == iperm@[k as int]@, tmp@.len() == p2.len(), q.len() == p2.len(), permu(p2, q.len() as int), forall|x: int| 0 <= x < i ==> #[trigger] tmp@[x] == q[p2[x] as int],
  decreases p2.len() - i
@loop 2
  invariant i <= p2.len(), begin__1 == 0, k < Q0.len(), Q0.len() == perms@.len(), iperm@.len() == Q0.len(), p2 == perms@[k as int]@, q.len() == p2.len(), iperm@[k as int]@.len() == p2.len(), tmp@.len() == p2.len(), T0.len() == Q0.len(), forall|x: int| 0 <= x < p2.len() ==> #[trigger] tmp@[x] == q[p2[x] as int],
    forall|x: int| 0 <= x < i ==> #[trigger] iperm@[k as int]@[x] == tmp@[x], forall|r: int| 0 <= r < Q0.len() && r != k ==> #[trigger] iperm@[r] == T0[r],
  decreases p2.len() - i
@at loop 0 end
  proof { assert(repos_at(iperm@, Q0, perms@, k as int)); assert forall|r: int| 0 <= r < k + 1 implies #[trigger] repos_at(iperm@, Q0, perms@, r) by { if r < k { assert(repos_at(T0, Q0, perms@, r)); assert(iperm@[r] == T0[r]); } } }
@at loop 0 after
  proof { assert(repos_all(iperm@, Q0, perms@));
    assert forall|q: int| 0 <= q < iperm@.len() implies permu(#[trigger] iperm@[q]@, X.C.boundary@[q].n as int) by { assert(permu(X.perm@[q]@, X.C.boundary@[q].n as int)); assert(newval@[q]@.len() == X.perm@[q]@.len()); assert(sorts(perms@[q]@, newval@[q]@)); assert(inverse_of(Q0[q]@, X.perm@[q]@)); assert(repos_at(iperm@, Q0, perms@, q)); repos_ok(iperm@[q]@, Q0[q]@, X.perm@[q]@, perms@[q]@, X.C.boundary@[q].n as int); } }
@at exit
  proof { let C1 = X.C; let C2 = this.C;
    assert forall|O: CC<F>| ccwf(O) && #[trigger] perm_cc(O, X.C, X.perm@) && perms_ok(O, X.perm@) implies perm_cc(O, this.C, this.perm@) by { perm_cc_wf(O, C1, X.perm@); assert forall|q: int| 0 <= q < X.perm@.len() implies permu(#[trigger] this.perm@[q]@, O.boundary@[q].n as int) by { assert(newval@[q]@.len() == X.perm@[q]@.len()); assert(permu(X.perm@[q]@, O.boundary@[q].n as int)); assert(sorts(this.perm@[q]@, newval@[q]@)); } repos_back(O, C1, C2, X.perm@, this.perm@, iperm@, Q0); } }
