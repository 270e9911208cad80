@unit la
@uses quiv_ops
@rust
pub proof fn ltri_mm<F: Field>(n: int, V: MF<F>, W: MF<F>) requires ltri(n, V), ltri(n, W) ensures ltri(n, mm(n, V, W))
{ utri_mm(n, tp(W), tp(V)); mm_tp(n, n, n, V, W); utri_feq(n, mm(n, tp(W), tp(V)), tp(mm(n, V, W))); }
pub proof fn tri_mul<F: Field>(up: bool, A: CM<F>, B: CM<F>, Z: CM<F>) requires trimat(up, A), trimat(up, B), mulof(Z, A, B) ensures trimat(up, Z), Z.n == A.n, B.n == A.n
{
    let n = A.n as int; prod_feq(Z, A, B);
    if up { trimat_utri(A); trimat_utri(B); utri_mm(n, fm(A), fm(B)); utri_feq(n, mm(n, fm(A), fm(B)), fm(Z)); utri_trimat(Z); }
    else { trimat_ltri(A); trimat_ltri(B); ltri_mm(n, fm(A), fm(B)); assert(feq(n, n, tp(fm(Z)), tp(mm(n, fm(A), fm(B))))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] tp(fm(Z))(i, j) == tp(mm(n, fm(A), fm(B)))(i, j) by { assert(fm(Z)(j, i) == mm(n, fm(A), fm(B))(j, i)); } } utri_feq(n, tp(mm(n, fm(A), fm(B))), tp(fm(Z))); ltri_trimat(Z); }
}
pub proof fn tri_inv<F: Field>(up: bool, Q: CM<F>, V: CM<F>) requires trimat(up, Q), uinv_of(V, Q) ensures trimat(up, V), V.n == Q.n
{
    let n = Q.n as int; tri_ivp(up, Q, V, n);
    if up { trimat_utri(Q); rinv_utri(n, fm(Q), fm(V)); utri_trimat(V); }
    else {
        trimat_ltri(Q); mm_tp(n, n, n, fm(V), fm(Q)); id_tp(n, mm(n, fm(V), fm(Q)));
        assert(feq(n, n, mm(n, tp(fm(Q)), tp(fm(V))), idf::<F>())) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, tp(fm(Q)), tp(fm(V)))(i, j) == idf::<F>()(i, j) by { assert(tp(mm(n, fm(V), fm(Q)))(i, j) == mm(n, tp(fm(Q)), tp(fm(V)))(i, j)); } }
        rinv_utri(n, tp(fm(Q)), tp(fm(V))); ltri_trimat(V);
    }
}
pub proof fn all_tri_inv<F: Field>(up: bool, Q: CM<F>) requires trimat(up, Q) ensures forall|V: CM<F>| #[trigger] uinv_of(V, Q) ==> trimat(up, V) && V.n == Q.n
{ assert forall|V: CM<F>| #[trigger] uinv_of(V, Q) implies trimat(up, V) && V.n == Q.n by { tri_inv(up, Q, V); } }
// L E / E L on an edge with left node a; E U / U E on an edge with right node b
pub open spec fn fle<F: Field>(l: bool, a: int, L: MF<F>, E: MF<F>) -> MF<F> { if l { mm(a, L, E) } else { mm(a, E, L) } }
pub open spec fn feu<F: Field>(l: bool, b: int, E: MF<F>, U: MF<F>) -> MF<F> { if l { mm(b, E, U) } else { mm(b, U, E) } }
// the change B carried by a triangular Q (with inverse V): inv: B is the inverse of Q
pub open spec fn bof<F: Field>(l: bool, Q: MF<F>, V: MF<F>) -> MF<F> { if l { Q } else { V } }
// ---- L of edge i goes left: el edges ----
pub proof fn ll_second<F: Field>(l: bool, b: int, c: int, f: SFact<F>, g: SFact<F>, V: MF<F>)
    requires b >= 0, c >= 0, fgen(true, l, b, c, f), ivp(b, fm(f.L), V), g.E == f.E, g.U == f.U, g.P == f.P, is_identn(g.L, b)
    ensures fgen(true, l, b, c, g), eqn(l, b, c, fro(true, l, b, c, f), fro(true, l, b, c, g), bof(l, fm(f.L), V), idf::<F>())
{
    let L = fm(f.L); let E = fm(f.E); let U = fm(f.U); let P = fm(f.P); let J = fm(g.L); identn_feq(g.L, b);
    let R = fro(true, l, b, c, f); let S = fro(true, l, b, c, g); let I = idf::<F>();
    if l {
        let s0 = mm(c, mm(c, E, U), P);
        mm_idl(b, c, J, E); feq_refl(c, c, U); feq_refl(c, c, P); mm_ext(b, c, c, mm(b, J, E), E, U, U); mm_ext(b, c, c, mm(c, mm(b, J, E), U), mm(c, E, U), P, P);
        // ((L E) U) P == L ((E U) P)
        mm_assoc(b, b, c, c, L, E, U); mm_ext(b, c, c, mm(c, mm(b, L, E), U), mm(b, L, mm(c, E, U)), P, P); mm_assoc(b, b, c, c, L, mm(c, E, U), P);
        let m1 = mm(c, mm(b, L, mm(c, E, U)), P); feq_trans(b, c, R, m1, mm(b, L, s0));
        eqn_fst2(l, b, c, R, s0, L, V); feq_refl(b, b, L); feq_refl(c, c, I); feq_refl(b, c, R); eqn_ext(l, b, c, R, s0, L, I, R, S, L, I);
    } else {
        let s0 = mm(c, mm(c, P, U), E); mm_idr(c, b, s0, J); 
        eqn_fst2(l, b, c, R, s0, V, L); feq_refl(b, b, V); feq_refl(c, c, I); feq_refl(c, b, R); eqn_ext(l, b, c, R, s0, V, I, R, S, V, I);
    }
}
pub proof fn ll_first<F: Field>(l: bool, a: int, b: int, L: MF<F>, E: MF<F>, Y: MF<F>, Z: MF<F>, B: MF<F>, C: MF<F>)
    requires a >= 0, b >= 0, ivp(b, B, C), if l { feq(a, b, mm(a, Y, E), mm(b, E, B)) && feq(a, a, Z, mm(a, L, Y)) } else { feq(b, a, mm(b, C, E), mm(a, E, Y)) && feq(a, a, Z, mm(a, Y, L)) }
    ensures eqn(l, a, b, fle(l, a, L, E), fle(l, a, Z, E), idf::<F>(), B)
{
    if l {
        let s = mm(a, Z, E); let x1 = mm(a, mm(a, L, Y), E); let x2 = mm(a, L, mm(a, Y, E)); let x3 = mm(a, L, mm(b, E, B)); let x4 = mm(b, mm(a, L, E), B);
        feq_refl(a, b, E); feq_refl(a, a, L); mm_ext(a, a, b, Z, mm(a, L, Y), E, E); mm_assoc(a, a, a, b, L, Y, E); mm_ext(a, a, b, L, L, mm(a, Y, E), mm(b, E, B)); mm_assoc(a, a, b, b, L, E, B); feq_sym(a, b, x4, x3);
        feq_trans(a, b, s, x1, x2); feq_trans(a, b, s, x2, x3); feq_trans(a, b, s, x3, x4);
    } else {
        let s = mm(a, E, Z); let x1 = mm(a, E, mm(a, Y, L)); let x2 = mm(a, mm(a, E, Y), L); let x3 = mm(a, mm(b, C, E), L); let x4 = mm(b, C, mm(a, E, L));
        feq_refl(b, a, E); feq_refl(a, a, L); mm_ext(b, a, a, E, E, Z, mm(a, Y, L)); mm_assoc(b, a, a, a, E, Y, L); feq_sym(b, a, x2, x1); feq_sym(b, a, mm(b, C, E), mm(a, E, Y)); mm_ext(b, a, a, mm(a, E, Y), mm(b, C, E), L, L); mm_assoc(b, b, a, a, C, E, L);
        feq_trans(b, a, s, x1, x2); feq_trans(b, a, s, x2, x3); feq_trans(b, a, s, x3, x4);
    }
    eqn_snd(l, a, b, fle(l, a, L, E), fle(l, a, Z, E), B, C);
}
// X is what is commuted through E of the left edge: the change B, or its inverse
pub open spec fn ll_y<F: Field>(l0: bool, E: CM<F>, X: CM<F>, L: CM<F>, Y: CM<F>, Z: CM<F>) -> bool { if l0 { elc_of(E, X, Y) && mulof(Z, L, Y) } else { cmr_of(false, X, E, Y) && mulof(Z, Y, L) } }
pub open spec fn ll_x<F: Field>(l0: bool, l1: bool, L1: CM<F>, X: CM<F>) -> bool { if l0 == l1 { X == L1 } else { uinv_of(X, L1) } }
pub open spec fn ll_nx<F: Field>(l0: bool, l1: bool, a: int, b: int, f0: SFact<F>, L1: CM<F>, Z: CM<F>) -> bool { trimat(false, Z) && Z.n == a && exists|B: MF<F>, V: MF<F>| #[trigger] ll_w(l0, l1, a, b, f0, L1, Z, B, V) }
pub open spec fn ll_w<F: Field>(l0: bool, l1: bool, a: int, b: int, f0: SFact<F>, L1: CM<F>, Z: CM<F>, B: MF<F>, V: MF<F>) -> bool { ivp(b, fm(L1), V) && B == bof(l1, fm(L1), V) && eqn(l0, a, b, fle(l0, a, fm(f0.L), fm(f0.E)), fle(l0, a, fm(Z), fm(f0.E)), idf::<F>(), B) }
pub proof fn ll_one<F: Field>(l0: bool, l1: bool, a: int, b: int, f0: SFact<F>, L1: CM<F>, X: CM<F>, Y: CM<F>, Z: CM<F>)
    requires a >= 0, b >= 0, fok(true, l0, a, b, f0), trimat(false, L1), L1.n == b, ll_x(l0, l1, L1, X), ll_y(l0, f0.E, X, f0.L, Y, Z)
    ensures ll_nx(l0, l1, a, b, f0, L1, Z)
{
    trimat_ltri(L1); let V0 = linv_ivp(b, fm(L1)); let V = if l0 == l1 { V0 } else { tri_ivp(false, L1, X, b); fm(X) };
    let B = bof(l1, fm(L1), V); let C = bof(!l1, fm(L1), V); assert(ivp(b, B, C));
    if l0 { tri_mul(false, f0.L, Y, Z); prod_feq(Z, f0.L, Y); } else { tri_mul(false, Y, f0.L, Z); prod_feq(Z, Y, f0.L); }
    ll_first(l0, a, b, fm(f0.L), fm(f0.E), fm(Y), fm(Z), B, C);
    assert(ll_w(l0, l1, a, b, f0, L1, Z, B, V));
}
pub proof fn ll_all<F: Field>(l0: bool, l1: bool, a: int, b: int, f0: SFact<F>, L1: CM<F>)
    requires a >= 0, b >= 0, fok(true, l0, a, b, f0), trimat(false, L1), L1.n == b
    ensures forall|V: CM<F>| #[trigger] uinv_of(V, L1) ==> trimat(false, V) && V.n == b,
        l0 && l1 ==> forall|Y: CM<F>, Z: CM<F>| #[trigger] elc_of(f0.E, L1, Y) && #[trigger] mulof(Z, f0.L, Y) ==> ll_nx(l0, l1, a, b, f0, L1, Z),
        l0 && !l1 ==> forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] elc_of(f0.E, X, Y) && uinv_of(X, L1) && #[trigger] mulof(Z, f0.L, Y) ==> ll_nx(l0, l1, a, b, f0, L1, Z),
        !l0 && l1 ==> forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(false, X, f0.E, Y) && uinv_of(X, L1) && #[trigger] mulof(Z, Y, f0.L) ==> ll_nx(l0, l1, a, b, f0, L1, Z),
        !l0 && !l1 ==> forall|Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(false, L1, f0.E, Y) && #[trigger] mulof(Z, Y, f0.L) ==> ll_nx(l0, l1, a, b, f0, L1, Z)
{
    all_tri_inv(false, L1);
    if l0 && l1 { assert forall|Y: CM<F>, Z: CM<F>| #[trigger] elc_of(f0.E, L1, Y) && #[trigger] mulof(Z, f0.L, Y) implies ll_nx(l0, l1, a, b, f0, L1, Z) by { ll_one(l0, l1, a, b, f0, L1, L1, Y, Z); } }
    if l0 && !l1 { assert forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] elc_of(f0.E, X, Y) && uinv_of(X, L1) && #[trigger] mulof(Z, f0.L, Y) implies ll_nx(l0, l1, a, b, f0, L1, Z) by { ll_one(l0, l1, a, b, f0, L1, X, Y, Z); } }
    if !l0 && l1 { assert forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(false, X, f0.E, Y) && uinv_of(X, L1) && #[trigger] mulof(Z, Y, f0.L) implies ll_nx(l0, l1, a, b, f0, L1, Z) by { ll_one(l0, l1, a, b, f0, L1, X, Y, Z); } }
    if !l0 && !l1 { assert forall|Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(false, L1, f0.E, Y) && #[trigger] mulof(Z, Y, f0.L) implies ll_nx(l0, l1, a, b, f0, L1, Z) by { ll_one(l0, l1, a, b, f0, L1, L1, Y, Z); } }
}
pub proof fn fr0_le<F: Field>(l: bool, a: int, b: int, f: SFact<F>) ensures fr0(true, l, a, b, f) == fle(l, a, fm(f.L), fm(f.E)), fr0(false, l, a, b, f) == feu(l, b, fm(f.E), fm(f.U)) {}
pub proof fn ll_fin<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f0: SFact<F>, g0: SFact<F>, f1: SFact<F>, g1: SFact<F>)
    requires a >= 0, b >= 0, c >= 0, fok(true, l0, a, b, f0), fgen(true, l1, b, c, f1), is_identn(f0.U, b), is_identn(f0.P, b), g0.E == f0.E, g0.U == f0.U, g0.P == f0.P, ll_nx(l0, l1, a, b, f0, f1.L, g0.L), g1.E == f1.E, g1.U == f1.U, g1.P == f1.P, is_identn(g1.L, b)
    ensures fok(true, l0, a, b, g0), fgen(true, l1, b, c, g1), nchg(l0, l1, a, b, c, fro(true, l0, a, b, f0), fro(true, l0, a, b, g0), fro(true, l1, b, c, f1), fro(true, l1, b, c, g1))
{
    let (B, V) = choose|B: MF<F>, V: MF<F>| #[trigger] ll_w(l0, l1, a, b, f0, f1.L, g0.L, B, V); let I = idf::<F>();
    ll_second(l1, b, c, f1, g1, V); identn_feq(f0.U, b); identn_feq(f0.P, b); fr_id(true, l0, a, b, f0); fr_id(true, l0, a, b, g0); fr0_le(l0, a, b, f0); fr0_le(l0, a, b, g0); feq_refl(a, a, I); feq_refl(b, b, B);
    eqn_ext(l0, a, b, fle(l0, a, fm(f0.L), fm(f0.E)), fle(l0, a, fm(g0.L), fm(f0.E)), I, B, fro(true, l0, a, b, f0), fro(true, l0, a, b, g0), I, B);
    assert(chb(l0, l1, a, b, c, fro(true, l0, a, b, f0), fro(true, l0, a, b, g0), fro(true, l1, b, c, f1), fro(true, l1, b, c, g1), B, bof(!l1, fm(f1.L), V)));
}
// ---- U of edge i goes right: edges P L E U / U E L P ----
pub proof fn ur_first<F: Field>(l: bool, a: int, b: int, f: SFact<F>, g: SFact<F>, V: MF<F>)
    requires a >= 0, b >= 0, fgen(false, l, a, b, f), ivp(b, fm(f.U), V), g.E == f.E, g.L == f.L, g.P == f.P, is_identn(g.U, b)
    ensures fgen(false, l, a, b, g), eqn(l, a, b, fro(false, l, a, b, f), fro(false, l, a, b, g), idf::<F>(), bof(!l, fm(f.U), V))
{
    let L = fm(f.L); let E = fm(f.E); let U = fm(f.U); let P = fm(f.P); let J = fm(g.U); identn_feq(g.U, b);
    let R = fro(false, l, a, b, f); let S = fro(false, l, a, b, g); let I = idf::<F>();
    if l {
        let s0 = mm(a, mm(a, P, L), E); mm_idr(a, b, s0, J);
        eqn_snd2(l, a, b, R, s0, V, U); feq_refl(b, b, V); feq_refl(a, a, I); feq_refl(a, b, R); eqn_ext(l, a, b, R, s0, I, V, R, S, I, V);
    } else {
        let s0 = mm(a, mm(a, E, L), P);
        mm_idl(b, a, J, E); feq_refl(a, a, L); feq_refl(a, a, P); mm_ext(b, a, a, mm(b, J, E), E, L, L); mm_ext(b, a, a, mm(a, mm(b, J, E), L), mm(a, E, L), P, P);
        mm_assoc(b, b, a, a, U, E, L); mm_ext(b, a, a, mm(a, mm(b, U, E), L), mm(b, U, mm(a, E, L)), P, P); mm_assoc(b, b, a, a, U, mm(a, E, L), P);
        let m1 = mm(a, mm(b, U, mm(a, E, L)), P); feq_trans(b, a, R, m1, mm(b, U, s0));
        eqn_snd2(l, a, b, R, s0, U, V); feq_refl(b, b, U); feq_refl(a, a, I); feq_refl(b, a, R); eqn_ext(l, a, b, R, s0, I, U, R, S, I, U);
    }
}
pub proof fn ur_second<F: Field>(l: bool, b: int, c: int, E: MF<F>, U: MF<F>, Y: MF<F>, Z: MF<F>, B: MF<F>, C: MF<F>)
    requires b >= 0, c >= 0, ivp(b, B, C), if l { feq(b, c, mm(b, C, E), mm(c, E, Y)) && feq(c, c, Z, mm(c, Y, U)) } else { feq(c, b, mm(b, E, B), mm(c, Y, E)) && feq(c, c, Z, mm(c, U, Y)) }
    ensures eqn(l, b, c, feu(l, c, E, U), feu(l, c, E, Z), B, idf::<F>())
{
    if l {
        let s = mm(c, E, Z); let x1 = mm(c, E, mm(c, Y, U)); let x2 = mm(c, mm(c, E, Y), U); let x3 = mm(c, mm(b, C, E), U); let x4 = mm(b, C, mm(c, E, U));
        feq_refl(b, c, E); feq_refl(c, c, U); mm_ext(b, c, c, E, E, Z, mm(c, Y, U)); mm_assoc(b, c, c, c, E, Y, U); feq_sym(b, c, x2, x1); feq_sym(b, c, mm(b, C, E), mm(c, E, Y)); mm_ext(b, c, c, mm(c, E, Y), mm(b, C, E), U, U); mm_assoc(b, b, c, c, C, E, U);
        feq_trans(b, c, s, x1, x2); feq_trans(b, c, s, x2, x3); feq_trans(b, c, s, x3, x4);
    } else {
        let s = mm(c, Z, E); let x1 = mm(c, mm(c, U, Y), E); let x2 = mm(c, U, mm(c, Y, E)); let x3 = mm(c, U, mm(b, E, B)); let x4 = mm(b, mm(c, U, E), B);
        feq_refl(c, b, E); feq_refl(c, c, U); mm_ext(c, c, b, Z, mm(c, U, Y), E, E); mm_assoc(c, c, c, b, U, Y, E); feq_sym(c, b, mm(b, E, B), mm(c, Y, E)); mm_ext(c, c, b, U, U, mm(c, Y, E), mm(b, E, B)); mm_assoc(c, c, b, b, U, E, B); feq_sym(c, b, x4, x3);
        feq_trans(c, b, s, x1, x2); feq_trans(c, b, s, x2, x3); feq_trans(c, b, s, x3, x4);
    }
    eqn_fst(l, b, c, feu(l, c, E, U), feu(l, c, E, Z), B, C);
}
pub open spec fn ur_y<F: Field>(l1: bool, E: CM<F>, X: CM<F>, U: CM<F>, Y: CM<F>, Z: CM<F>) -> bool { if l1 { cmr_of(true, X, E, Y) && mulof(Z, Y, U) } else { cml_of(true, E, X, Y) && mulof(Z, U, Y) } }
pub open spec fn ur_nx<F: Field>(l0: bool, l1: bool, b: int, c: int, f1: SFact<F>, U0: CM<F>, Z: CM<F>) -> bool { trimat(true, Z) && Z.n == c && exists|B: MF<F>, V: MF<F>| #[trigger] ur_w(l0, l1, b, c, f1, U0, Z, B, V) }
pub open spec fn ur_w<F: Field>(l0: bool, l1: bool, b: int, c: int, f1: SFact<F>, U0: CM<F>, Z: CM<F>, B: MF<F>, V: MF<F>) -> bool { ivp(b, fm(U0), V) && B == bof(!l0, fm(U0), V) && eqn(l1, b, c, feu(l1, c, fm(f1.E), fm(f1.U)), feu(l1, c, fm(f1.E), fm(Z)), B, idf::<F>()) }
pub proof fn ur_one<F: Field>(l0: bool, l1: bool, b: int, c: int, f1: SFact<F>, U0: CM<F>, X: CM<F>, Y: CM<F>, Z: CM<F>)
    requires b >= 0, c >= 0, fok(false, l1, b, c, f1), trimat(true, U0), U0.n == b, ll_x(l0, l1, U0, X), ur_y(l1, f1.E, X, f1.U, Y, Z)
    ensures ur_nx(l0, l1, b, c, f1, U0, Z)
{
    trimat_utri(U0); let V0 = rinv_exists(b, fm(U0)); utri_linv(b, fm(U0), V0); let V = if l0 == l1 { V0 } else { tri_ivp(true, U0, X, b); fm(X) };
    let B = bof(!l0, fm(U0), V); let C = bof(l0, fm(U0), V); assert(ivp(b, B, C));
    if l1 { tri_mul(true, Y, f1.U, Z); prod_feq(Z, Y, f1.U); } else { tri_mul(true, f1.U, Y, Z); prod_feq(Z, f1.U, Y); }
    ur_second(l1, b, c, fm(f1.E), fm(f1.U), fm(Y), fm(Z), B, C);
    assert(ur_w(l0, l1, b, c, f1, U0, Z, B, V));
}
pub proof fn ur_all<F: Field>(l0: bool, l1: bool, b: int, c: int, f1: SFact<F>, U0: CM<F>)
    requires b >= 0, c >= 0, fok(false, l1, b, c, f1), trimat(true, U0), U0.n == b
    ensures forall|V: CM<F>| #[trigger] uinv_of(V, U0) ==> trimat(true, V) && V.n == b,
        l0 && l1 ==> forall|Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(true, U0, f1.E, Y) && #[trigger] mulof(Z, Y, f1.U) ==> ur_nx(l0, l1, b, c, f1, U0, Z),
        !l0 && l1 ==> forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(true, X, f1.E, Y) && uinv_of(X, U0) && #[trigger] mulof(Z, Y, f1.U) ==> ur_nx(l0, l1, b, c, f1, U0, Z),
        l0 && !l1 ==> forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cml_of(true, f1.E, X, Y) && uinv_of(X, U0) && #[trigger] mulof(Z, f1.U, Y) ==> ur_nx(l0, l1, b, c, f1, U0, Z),
        !l0 && !l1 ==> forall|Y: CM<F>, Z: CM<F>| #[trigger] cml_of(true, f1.E, U0, Y) && #[trigger] mulof(Z, f1.U, Y) ==> ur_nx(l0, l1, b, c, f1, U0, Z)
{
    all_tri_inv(true, U0);
    if l0 && l1 { assert forall|Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(true, U0, f1.E, Y) && #[trigger] mulof(Z, Y, f1.U) implies ur_nx(l0, l1, b, c, f1, U0, Z) by { ur_one(l0, l1, b, c, f1, U0, U0, Y, Z); } }
    if !l0 && l1 { assert forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cmr_of(true, X, f1.E, Y) && uinv_of(X, U0) && #[trigger] mulof(Z, Y, f1.U) implies ur_nx(l0, l1, b, c, f1, U0, Z) by { ur_one(l0, l1, b, c, f1, U0, X, Y, Z); } }
    if l0 && !l1 { assert forall|X: CM<F>, Y: CM<F>, Z: CM<F>| #[trigger] cml_of(true, f1.E, X, Y) && uinv_of(X, U0) && #[trigger] mulof(Z, f1.U, Y) implies ur_nx(l0, l1, b, c, f1, U0, Z) by { ur_one(l0, l1, b, c, f1, U0, X, Y, Z); } }
    if !l0 && !l1 { assert forall|Y: CM<F>, Z: CM<F>| #[trigger] cml_of(true, f1.E, U0, Y) && #[trigger] mulof(Z, f1.U, Y) implies ur_nx(l0, l1, b, c, f1, U0, Z) by { ur_one(l0, l1, b, c, f1, U0, U0, Y, Z); } }
}
pub proof fn ur_fin<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, f0: SFact<F>, g0: SFact<F>, f1: SFact<F>, g1: SFact<F>)
    requires a >= 0, b >= 0, c >= 0, fgen(false, l0, a, b, f0), fok(false, l1, b, c, f1), is_identn(f1.L, b), is_identn(f1.P, b), g1.E == f1.E, g1.L == f1.L, g1.P == f1.P, ur_nx(l0, l1, b, c, f1, f0.U, g1.U), g0.E == f0.E, g0.L == f0.L, g0.P == f0.P, is_identn(g0.U, b)
    ensures fgen(false, l0, a, b, g0), fok(false, l1, b, c, g1), nchg(l0, l1, a, b, c, fro(false, l0, a, b, f0), fro(false, l0, a, b, g0), fro(false, l1, b, c, f1), fro(false, l1, b, c, g1))
{
    let (B, V) = choose|B: MF<F>, V: MF<F>| #[trigger] ur_w(l0, l1, b, c, f1, f0.U, g1.U, B, V); let I = idf::<F>();
    ur_first(l0, a, b, f0, g0, V); identn_feq(f1.L, b); identn_feq(f1.P, b); fr_id(false, l1, b, c, f1); fr_id(false, l1, b, c, g1); fr0_le(l1, b, c, f1); fr0_le(l1, b, c, g1); feq_refl(c, c, I); feq_refl(b, b, B);
    eqn_ext(l1, b, c, feu(l1, c, fm(f1.E), fm(f1.U)), feu(l1, c, fm(f1.E), fm(g1.U)), B, I, fro(false, l1, b, c, f1), fro(false, l1, b, c, g1), B, I);
    assert(chb(l0, l1, a, b, c, fro(false, l0, a, b, f0), fro(false, l0, a, b, g0), fro(false, l1, b, c, f1), fro(false, l1, b, c, g1), B, bof(l0, fm(f0.U), V)));
}
@end
