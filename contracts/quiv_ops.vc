@unit la
@uses quiv_lem
@rust
// ---- factorized edges ----  a, b: dims of the left and right node; l: the edge points left; el: L E U P / P U E L, else P L E U / U E L P
pub open spec fn erows(l: bool, a: int, b: int) -> int { if l { a } else { b } }
pub open spec fn ecols(l: bool, a: int, b: int) -> int { if l { b } else { a } }
pub open spec fn eshape<F: Field>(el: bool, l: bool, a: int, b: int, E: CM<F>) -> bool {
    if el { if l { elv(fm(E), a, b) } else { elv(tp(jc(b, a, fm(E))), a, b) } } else { if l { elv(tp(fm(E)), b, a) } else { elv(jc(b, a, fm(E)), b, a) } }
}
// L at the left node, U at the right node, P next to U (el) or L
pub open spec fn fgen<F: Field>(el: bool, l: bool, a: int, b: int, f: SFact<F>) -> bool { trimat(false, f.L) && f.L.n == a && trimat(true, f.U) && f.U.n == b && pm(f.P, if el { b } else { a }) && dims(f.E, erows(l, a, b), ecols(l, a, b)) }
pub open spec fn fok<F: Field>(el: bool, l: bool, a: int, b: int, f: SFact<F>) -> bool { fgen(el, l, a, b, f) && eshape(el, l, a, b, f.E) }
pub open spec fn fro<F: Field>(el: bool, l: bool, a: int, b: int, f: SFact<F>) -> MF<F> {
    if el { if l { p4(a, b, b, fm(f.L), fm(f.E), fm(f.U), fm(f.P)) } else { p4(b, b, a, fm(f.P), fm(f.U), fm(f.E), fm(f.L)) } }
    else { if l { p4(a, a, b, fm(f.P), fm(f.L), fm(f.E), fm(f.U)) } else { p4(b, a, a, fm(f.U), fm(f.E), fm(f.L), fm(f.P)) } }
}
// the products without U and P (el), without L and P (otherwise)
pub open spec fn fr0<F: Field>(el: bool, l: bool, a: int, b: int, f: SFact<F>) -> MF<F> {
    if el { if l { mm(a, fm(f.L), fm(f.E)) } else { mm(a, fm(f.E), fm(f.L)) } } else { if l { mm(b, fm(f.E), fm(f.U)) } else { mm(b, fm(f.U), fm(f.E)) } }
}
pub open spec fn edgem<F: Field>(l: bool, a: int, b: int, M: CM<F>) -> bool { dims(M, erows(l, a, b), ecols(l, a, b)) }
pub proof fn identn_feq<F: Field>(A: CM<F>, n: int) requires is_identn(A, n) ensures isid(n, fm(A)), dims(A, n, n), pm(A, n), trimat(true, A), trimat(false, A), A.n == n
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(A)(i, j) == idf::<F>()(i, j) by { assert(cmv(A, i, j) == kdel::<F>(i, j)); }
    let sg = Seq::new(n as nat, |i: int| i); assert(injperm(sg, A.n as int) && permcols(A, sg));
    F::ax_one_ne_zero();
    assert forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.n && (i > j || i < j) implies #[trigger] cmv(A, i, j) == F::szero() by { assert(cmv(A, i, j) == kdel::<F>(i, j)); }
    assert forall|j: int| 0 <= j < A.n implies #[trigger] cmv(A, j, j) != F::szero() by { assert(cmv(A, j, j) == kdel::<F>(j, j)); }
}
pub proof fn ul_tri<F: Field>(L: CM<F>, n: int) requires ul(L, n) ensures trimat(false, L), L.n == n
{
    F::ax_one_ne_zero();
    assert forall|i: int, j: int| 0 <= i < L.n && 0 <= j < L.n && i < j implies #[trigger] cmv(L, i, j) == F::szero() by { assert(cmv(L, i, j) == kdel::<F>(i, j)); }
    assert forall|j: int| 0 <= j < L.n implies #[trigger] cmv(L, j, j) != F::szero() by { assert(cmv(L, j, j) == kdel::<F>(j, j)); }
}
pub proof fn uu_tri<F: Field>(U: CM<F>, n: int) requires uu(U, n) ensures trimat(true, U), U.n == n
{
    F::ax_one_ne_zero();
    assert forall|i: int, j: int| 0 <= i < U.n && 0 <= j < U.n && i > j implies #[trigger] cmv(U, i, j) == F::szero() by { assert(cmv(U, i, j) == kdel::<F>(i, j)); }
    assert forall|j: int| 0 <= j < U.n implies #[trigger] cmv(U, j, j) != F::szero() by { assert(cmv(U, j, j) == kdel::<F>(j, j)); }
}
pub proof fn fr_id<F: Field>(el: bool, l: bool, a: int, b: int, f: SFact<F>)
    requires a >= 0, b >= 0, fgen(el, l, a, b, f), is_identn(f.P, f.P.n as int), if el { is_identn(f.U, b) } else { is_identn(f.L, a) }
    ensures eeq(l, a, b, fro(el, l, a, b, f), fr0(el, l, a, b, f))
{
    let L = fm(f.L); let E = fm(f.E); let U = fm(f.U); let P = fm(f.P); identn_feq(f.P, f.P.n as int);
    if el {
        identn_feq(f.U, b);
        if l { let x = mm(a, L, E); mm_idr(a, b, x, U); mm_idr(a, b, mm(b, x, U), P); feq_trans(a, b, fro(el, l, a, b, f), mm(b, x, U), x); }
        else { mm_idl(b, b, P, U); feq_trans(b, b, mm(b, P, U), U, idf::<F>()); mm_idl(b, a, mm(b, P, U), E); feq_refl(a, a, L); mm_ext(b, a, a, mm(b, mm(b, P, U), E), E, L, L); }
    } else {
        identn_feq(f.L, a);
        if l { mm_idl(a, a, P, L); feq_trans(a, a, mm(a, P, L), L, idf::<F>()); mm_idl(a, b, mm(a, P, L), E); feq_refl(b, b, U); mm_ext(a, b, b, mm(a, mm(a, P, L), E), E, U, U); }
        else { let x = mm(b, U, E); mm_idr(b, a, x, L); mm_idr(b, a, mm(a, x, L), P); feq_trans(b, a, fro(el, l, a, b, f), mm(a, x, L), x); }
    }
}
pub proof fn pm_pivm<F: Field>(P: CM<F>, n: int) requires pm(P, n), n >= 0 ensures pivm(fm(P), n, n), forall|i: int| 0 <= i < n ==> #[trigger] hasnz(fm(P), n, i)
{
    F::ax_one_ne_zero();
    let sg = choose|sg: Seq<int>| #[trigger] injperm(sg, P.n as int) && permcols(P, sg); let f = fm(P);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies (#[trigger] f(i, j)) == kdel::<F>(i, sg[j]) by { assert(cmv(P, i, j) == kdel::<F>(i, sg[j])); }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k implies #[trigger] f(i, k) == F::szero() by { if j < k { assert(sg[j] != sg[k]); } else { assert(sg[k] != sg[j]); } }
    assert forall|i: int| 0 <= i < n implies #[trigger] hasnz(f, n, i) by { perm_pre_ok(sg, n, i); let k = perm_pre(sg, n, i); assert(f(i, k) != F::szero()); }
}
// V T: the inverses of a triangular Q and of the permutation P
pub proof fn pm_ivp<F: Field>(P: CM<F>, T: CM<F>, n: int) requires pm(P, n), n >= 0, is_transpose(T, P) ensures ivp(n, fm(P), fm(T)), ivp(n, fm(T), fm(P)), dims(T, n, n)
{ pm_pivm(P, n); pivm_inv(n, fm(P)); feq_t(P, T); feq_sym(n, n, tp(fm(P)), fm(T)); feq_refl(n, n, fm(P)); ivp_ext(n, fm(P), tp(fm(P)), fm(P), fm(T)); }
pub proof fn tri_ivp<F: Field>(up: bool, Q: CM<F>, V: CM<F>, n: int) requires trimat(up, Q), Q.n == n, uinv_of(V, Q) ensures ivp(n, fm(Q), fm(V)), ivp(n, fm(V), fm(Q)), dims(V, n, n)
{ uinv_feq(V, Q); if up { trimat_utri(Q); utri_linv(n, fm(Q), fm(V)); } else { trimat_ltri(Q); ltri_linv(n, fm(Q), fm(V)); } }
// a product applied to the edge M on its first node (fst) or second node: Y == (X1 X2) M, or (M X1) X2
pub proof fn two_left<F: Field>(b: int, c: int, X1: MF<F>, X2: MF<F>, M: MF<F>, Y: MF<F>) requires feq(b, c, Y, p3(b, b, X1, X2, M)) ensures feq(b, c, Y, mm(b, mm(b, X1, X2), M)) {}
pub proof fn two_right<F: Field>(c: int, b: int, M: MF<F>, X1: MF<F>, X2: MF<F>, Y: MF<F>) requires b >= 0, feq(c, b, Y, p3(b, b, M, X1, X2)) ensures feq(c, b, Y, mm(b, M, mm(b, X1, X2)))
{ mm_assoc(c, b, b, b, M, X1, X2); feq_trans(c, b, Y, p3(b, b, M, X1, X2), mm(b, M, mm(b, X1, X2))); }
pub proof fn upr_first<F: Field>(l: bool, a: int, b: int, f: SFact<F>, B: MF<F>, C: MF<F>)
    requires a >= 0, b >= 0, fgen(true, l, a, b, f), ivp(b, B, C), if l { C == mm(b, fm(f.U), fm(f.P)) } else { B == mm(b, fm(f.P), fm(f.U)) }
    ensures eqn(l, a, b, fro(true, l, a, b, f), fr0(true, l, a, b, f), idf::<F>(), B)
{
    let L = fm(f.L); let E = fm(f.E); let U = fm(f.U); let P = fm(f.P);
    if l { mm_assoc(a, b, b, b, mm(a, L, E), U, P); } else { mm_assoc(b, b, a, a, mm(b, P, U), E, L); }
    eqn_snd2(l, a, b, fro(true, l, a, b, f), fr0(true, l, a, b, f), B, C);
}
pub open spec fn upr_nx<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>, Y: CM<F>) -> bool { edgem(l1, b, c, Y) && nchg(l0, l1, a, b, c, fro(true, l0, a, b, f), fr0(true, l0, a, b, f), fm(M), fm(Y)) }
pub proof fn upr_one<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>, V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(true, l0, a, b, f), edgem(l1, b, c, M), (l1 != l0) ==> is_transpose(T, f.P) && uinv_of(V, f.U),
        if l1 { if l0 { mulof(X, f.U, f.P) && mulof(Y, X, M) } else { mulof(X, V, T) && mulof(Y, X, M) } } else { if l0 { mulof(X, M, T) && mulof(Y, X, V) } else { mulof(X, M, f.P) && mulof(Y, X, f.U) } }
    ensures upr_nx(l0, l1, a, b, c, f, M, Y)
{
    let n = b; let Q = f.U; let U = fm(f.U); let P = fm(f.P); trimat_utri(Q);
    let V1 = if l1 != l0 { fm(V) } else { rinv_exists(n, U) }; let T1 = if l1 != l0 { fm(T) } else { tp(P) };
    assert(ivp(n, U, V1) && ivp(n, P, T1)) by { if l1 != l0 { tri_ivp(true, Q, V, n); pm_ivp(f.P, T, n); } else { utri_linv(n, U, V1); pm_pivm(f.P, n); pivm_inv(n, P); } }
    ivp_mul(n, P, T1, U, V1); ivp_mul(n, T1, P, V1, U);
    let B = if l0 { mm(n, T1, V1) } else { mm(n, P, U) }; let C = if l0 { mm(n, U, P) } else { mm(n, V1, T1) };
    upr_first(l0, a, b, f, B, C);
    if l1 { prod3_feq(Y, X, if l0 { f.U } else { V }, if l0 { f.P } else { T }, M); }
    else if l0 { prod3_feq(Y, X, M, T, V); two_right(c, b, fm(M), T1, V1, fm(Y)); } else { prod3_feq(Y, X, M, f.P, f.U); two_right(c, b, fm(M), P, U, fm(Y)); }
    eqn_fst(l1, b, c, fm(M), fm(Y), B, C);
    assert(chb(l0, l1, a, b, c, fro(true, l0, a, b, f), fr0(true, l0, a, b, f), fm(M), fm(Y), B, C));
}
pub proof fn upr_all<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(true, l0, a, b, f), edgem(l1, b, c, M)
    ensures
        l1 && l0 ==> forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, f.U, f.P) && #[trigger] mulof(Y, X, M) ==> upr_nx(l0, l1, a, b, c, f, M, Y),
        l1 && !l0 ==> forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, V, T) && #[trigger] mulof(Y, X, M) && uinv_of(V, f.U) ==> upr_nx(l0, l1, a, b, c, f, M, Y),
        !l1 && l0 ==> forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, M, T) && #[trigger] mulof(Y, X, V) && uinv_of(V, f.U) ==> upr_nx(l0, l1, a, b, c, f, M, Y),
        !l1 && !l0 ==> forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, M, f.P) && #[trigger] mulof(Y, X, f.U) ==> upr_nx(l0, l1, a, b, c, f, M, Y)
{
    if l1 && l0 { assert forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, f.U, f.P) && #[trigger] mulof(Y, X, M) implies upr_nx(l0, l1, a, b, c, f, M, Y) by { upr_one(l0, l1, a, b, c, f, M, X, X, X, Y); } }
    if l1 && !l0 { assert forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, V, T) && #[trigger] mulof(Y, X, M) && uinv_of(V, f.U) implies upr_nx(l0, l1, a, b, c, f, M, Y) by { upr_one(l0, l1, a, b, c, f, M, V, T, X, Y); } }
    if !l1 && l0 { assert forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, M, T) && #[trigger] mulof(Y, X, V) && uinv_of(V, f.U) implies upr_nx(l0, l1, a, b, c, f, M, Y) by { upr_one(l0, l1, a, b, c, f, M, V, T, X, Y); } }
    if !l1 && !l0 { assert forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, M, f.P) && #[trigger] mulof(Y, X, f.U) implies upr_nx(l0, l1, a, b, c, f, M, Y) by { upr_one(l0, l1, a, b, c, f, M, X, X, X, Y); } }
}
// the new state of edge i: U and P are identities
pub proof fn upr_fin<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, g: SFact<F>, M: CM<F>, Y: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(true, l0, a, b, f), upr_nx(l0, l1, a, b, c, f, M, Y), g.L == f.L, g.E == f.E, is_identn(g.U, b), is_identn(g.P, b)
    ensures fgen(true, l0, a, b, g), nchg(l0, l1, a, b, c, fro(true, l0, a, b, f), fro(true, l0, a, b, g), fm(M), fm(Y))
{
    identn_feq(g.U, b); identn_feq(g.P, b); fr_id(true, l0, a, b, g);
    let R = fro(true, l0, a, b, f); let S = fr0(true, l0, a, b, f); let S2 = fro(true, l0, a, b, g); let I = idf::<F>();
    let (B, C) = choose|B: MF<F>, C: MF<F>| #[trigger] chb(l0, l1, a, b, c, R, S, fm(M), fm(Y), B, C);
    feq_refl(b, b, B); feq_refl(a, a, I);
    eqn_ext(l0, a, b, R, S, I, B, R, S2, I, B);
    assert(chb(l0, l1, a, b, c, R, S2, fm(M), fm(Y), B, C));
}
// ---- the same toward the left: facts[i].P, L into mats[i-1] ----
pub proof fn pll_second<F: Field>(l: bool, b: int, c: int, f: SFact<F>, B: MF<F>, C: MF<F>)
    requires b >= 0, c >= 0, fgen(false, l, b, c, f), ivp(b, B, C), if l { B == mm(b, fm(f.P), fm(f.L)) } else { C == mm(b, fm(f.L), fm(f.P)) }
    ensures eqn(l, b, c, fro(false, l, b, c, f), fr0(false, l, b, c, f), B, idf::<F>())
{
    let L = fm(f.L); let E = fm(f.E); let U = fm(f.U); let P = fm(f.P);
    if l { mm_assoc(b, b, c, c, mm(b, P, L), E, U); } else { mm_assoc(c, b, b, b, mm(c, U, E), L, P); }
    eqn_fst2(l, b, c, fro(false, l, b, c, f), fr0(false, l, b, c, f), B, C);
}
pub open spec fn pll_nx<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>, Y: CM<F>) -> bool { edgem(l0, a, b, Y) && nchg(l0, l1, a, b, c, fm(M), fm(Y), fro(false, l1, b, c, f), fr0(false, l1, b, c, f)) }
pub proof fn linv_ivp<F: Field>(n: int, L: MF<F>) -> (V: MF<F>) requires n >= 0, ltri(n, L) ensures ivp(n, L, V)
{
    let W = rinv_exists(n, tp(L)); utri_linv(n, tp(L), W); let V = tp(W);
    // W L^T == 1 gives L V == 1
    mm_tp(n, n, n, W, tp(L)); id_tp(n, mm(n, W, tp(L))); mm_tp(n, n, n, tp(L), W); id_tp(n, mm(n, tp(L), W)); feq_refl(n, n, V); feq_refl(n, n, L);
    assert(feq(n, n, mm(n, L, V), idf::<F>())) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, L, V)(i, j) == idf::<F>()(i, j) by { mm_ext(n, n, n, tp(tp(L)), L, V, V); assert(mm(n, tp(tp(L)), V)(i, j) == mm(n, L, V)(i, j)); assert(tp(mm(n, W, tp(L)))(i, j) == mm(n, tp(tp(L)), tp(W))(i, j)); } }
    assert(feq(n, n, mm(n, V, L), idf::<F>())) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, V, L)(i, j) == idf::<F>()(i, j) by { mm_ext(n, n, n, V, V, tp(tp(L)), L); assert(mm(n, V, tp(tp(L)))(i, j) == mm(n, V, L)(i, j)); assert(tp(mm(n, tp(L), W))(i, j) == mm(n, tp(W), tp(tp(L)))(i, j)); } }
    V
}
pub proof fn pll_one<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>, V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(false, l1, b, c, f), edgem(l0, a, b, M), (l1 != l0) ==> is_transpose(T, f.P) && uinv_of(V, f.L),
        if l0 { if l1 { mulof(X, M, f.P) && mulof(Y, X, f.L) } else { mulof(X, M, T) && mulof(Y, X, V) } } else { if l1 { mulof(X, V, T) && mulof(Y, X, M) } else { mulof(X, f.L, f.P) && mulof(Y, X, M) } }
    ensures pll_nx(l0, l1, a, b, c, f, M, Y)
{
    let n = b; let Q = f.L; let L = fm(f.L); let P = fm(f.P); trimat_ltri(Q);
    let V0 = linv_ivp(n, L); let V1 = if l1 != l0 { fm(V) } else { V0 }; let T1 = if l1 != l0 { fm(T) } else { tp(P) };
    assert(ivp(n, L, V1) && ivp(n, P, T1)) by { if l1 != l0 { tri_ivp(false, Q, V, n); pm_ivp(f.P, T, n); } else { pm_pivm(f.P, n); pivm_inv(n, P); } }
    ivp_mul(n, P, T1, L, V1); ivp_mul(n, T1, P, V1, L);
    let B = if l1 { mm(n, P, L) } else { mm(n, T1, V1) }; let C = if l1 { mm(n, V1, T1) } else { mm(n, L, P) };
    pll_second(l1, b, c, f, B, C);
    if !l0 { prod3_feq(Y, X, if l1 { V } else { f.L }, if l1 { T } else { f.P }, M); }
    else if l1 { prod3_feq(Y, X, M, f.P, f.L); two_right(a, b, fm(M), P, L, fm(Y)); } else { prod3_feq(Y, X, M, T, V); two_right(a, b, fm(M), T1, V1, fm(Y)); }
    eqn_snd(l0, a, b, fm(M), fm(Y), B, C);
    assert(chb(l0, l1, a, b, c, fm(M), fm(Y), fro(false, l1, b, c, f), fr0(false, l1, b, c, f), B, C));
}
pub proof fn pll_all<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, M: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(false, l1, b, c, f), edgem(l0, a, b, M)
    ensures
        l0 && l1 ==> forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, M, f.P) && #[trigger] mulof(Y, X, f.L) ==> pll_nx(l0, l1, a, b, c, f, M, Y),
        l0 && !l1 ==> forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, M, T) && #[trigger] mulof(Y, X, V) && uinv_of(V, f.L) ==> pll_nx(l0, l1, a, b, c, f, M, Y),
        !l0 && l1 ==> forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, V, T) && #[trigger] mulof(Y, X, M) && uinv_of(V, f.L) ==> pll_nx(l0, l1, a, b, c, f, M, Y),
        !l0 && !l1 ==> forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, f.L, f.P) && #[trigger] mulof(Y, X, M) ==> pll_nx(l0, l1, a, b, c, f, M, Y)
{
    if l0 && l1 { assert forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, M, f.P) && #[trigger] mulof(Y, X, f.L) implies pll_nx(l0, l1, a, b, c, f, M, Y) by { pll_one(l0, l1, a, b, c, f, M, X, X, X, Y); } }
    if l0 && !l1 { assert forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, M, T) && #[trigger] mulof(Y, X, V) && uinv_of(V, f.L) implies pll_nx(l0, l1, a, b, c, f, M, Y) by { pll_one(l0, l1, a, b, c, f, M, V, T, X, Y); } }
    if !l0 && l1 { assert forall|V: CM<F>, T: CM<F>, X: CM<F>, Y: CM<F>| #[trigger] is_transpose(T, f.P) && #[trigger] mulof(X, V, T) && #[trigger] mulof(Y, X, M) && uinv_of(V, f.L) implies pll_nx(l0, l1, a, b, c, f, M, Y) by { pll_one(l0, l1, a, b, c, f, M, V, T, X, Y); } }
    if !l0 && !l1 { assert forall|X: CM<F>, Y: CM<F>| #[trigger] mulof(X, f.L, f.P) && #[trigger] mulof(Y, X, M) implies pll_nx(l0, l1, a, b, c, f, M, Y) by { pll_one(l0, l1, a, b, c, f, M, X, X, X, Y); } }
}
pub proof fn pll_fin<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f: SFact<F>, g: SFact<F>, M: CM<F>, Y: CM<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(false, l1, b, c, f), pll_nx(l0, l1, a, b, c, f, M, Y), g.U == f.U, g.E == f.E, is_identn(g.L, b), is_identn(g.P, b)
    ensures fgen(false, l1, b, c, g), nchg(l0, l1, a, b, c, fm(M), fm(Y), fro(false, l1, b, c, f), fro(false, l1, b, c, g))
{
    identn_feq(g.L, b); identn_feq(g.P, b); fr_id(false, l1, b, c, g);
    let R = fro(false, l1, b, c, f); let S = fr0(false, l1, b, c, f); let S2 = fro(false, l1, b, c, g); let I = idf::<F>();
    let (B, C) = choose|B: MF<F>, C: MF<F>| #[trigger] chb(l0, l1, a, b, c, fm(M), fm(Y), R, S, B, C);
    feq_refl(b, b, B); feq_refl(c, c, I);
    eqn_ext(l1, b, c, R, S, B, I, R, S2, B, I);
    assert(chb(l0, l1, a, b, c, fm(M), fm(Y), R, S2, B, C));
}
@end
