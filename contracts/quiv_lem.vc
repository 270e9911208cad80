@unit la
@uses commute lqu3
@rust
// ---- representations of a type-A quiver: the matrix on edge k joins nodes k and k+1; lf(k): it points left ----
pub type MF<F> = spec_fn(int, int) -> F;
pub open spec fn ivp<F: Field>(n: int, B: MF<F>, C: MF<F>) -> bool { feq(n, n, mm(n, B, C), idf::<F>()) && feq(n, n, mm(n, C, B), idf::<F>()) }
// the bases Da, Db of the two end nodes carry R to S
pub open spec fn eqn<F: Field>(l: bool, a: int, b: int, R: MF<F>, S: MF<F>, Da: MF<F>, Db: MF<F>) -> bool { if l { feq(a, b, mm(b, R, Db), mm(a, Da, S)) } else { feq(b, a, mm(a, R, Da), mm(b, Db, S)) } }
pub open spec fn isid<F: Field>(n: int, D: MF<F>) -> bool { feq(n, n, D, idf::<F>()) }
#[verifier::opaque]
pub open spec fn isw<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int, D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>) -> bool {
    &&& forall|k: int| j0 <= k <= j1 + 1 ==> ivp(nd(k), #[trigger] D(k), Di(k))
    &&& forall|k: int| j0 <= k <= j1 ==> eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), D(k), D(k + 1))
    &&& ends ==> isid(nd(j0), D(j0)) && isid(nd(j1 + 1), D(j1 + 1))
}
// an isomorphism of representations on the edges j0..=j1 (ends: it is the identity on the two end nodes)
pub open spec fn iso<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int) -> bool { exists|D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>| #[trigger] isw(ends, lf, nd, R, S, j0, j1, D, Di) }
pub open spec fn ndok(nd: spec_fn(int) -> int) -> bool { forall|k: int| 0 <= #[trigger] nd(k) <= usize::MAX }
pub proof fn ivp_id<F: Field>(n: int, A: MF<F>, B: MF<F>) requires isid(n, A), isid(n, B) ensures ivp(n, A, B)
{ mm_idl(n, n, A, B); feq_trans(n, n, mm(n, A, B), B, idf::<F>()); mm_idl(n, n, B, A); feq_trans(n, n, mm(n, B, A), A, idf::<F>()); }
// (Z A) (B W) == Z W when A B == 1
pub proof fn cancel_r<F: Field>(m: int, n: int, p: int, Z: MF<F>, A: MF<F>, B: MF<F>, W: MF<F>)
    requires n >= 0, feq(n, n, mm(n, A, B), idf::<F>())
    ensures feq(m, p, mm(n, mm(n, Z, A), mm(n, B, W)), mm(n, Z, W))
{
    let bw = mm(n, B, W); mm_assoc(m, n, n, p, Z, A, bw); mm_assoc(n, n, n, p, A, B, W); mm_idl(n, p, mm(n, A, B), W);
    feq_sym(n, p, mm(n, mm(n, A, B), W), mm(n, A, bw)); feq_trans(n, p, mm(n, A, bw), mm(n, mm(n, A, B), W), W); feq_refl(m, n, Z); mm_ext(m, n, p, Z, Z, mm(n, A, bw), W);
    feq_trans(m, p, mm(n, mm(n, Z, A), bw), mm(n, Z, mm(n, A, bw)), mm(n, Z, W));
}
pub proof fn ivp_mul<F: Field>(n: int, B: MF<F>, C: MF<F>, B2: MF<F>, C2: MF<F>) requires n >= 0, ivp(n, B, C), ivp(n, B2, C2) ensures ivp(n, mm(n, B, B2), mm(n, C2, C))
{
    cancel_r(n, n, n, B, B2, C2, C); feq_trans(n, n, mm(n, mm(n, B, B2), mm(n, C2, C)), mm(n, B, C), idf::<F>());
    cancel_r(n, n, n, C2, C, B, B2); feq_trans(n, n, mm(n, mm(n, C2, C), mm(n, B, B2)), mm(n, C2, B2), idf::<F>());
}
pub proof fn ivp_ext<F: Field>(n: int, B: MF<F>, C: MF<F>, B2: MF<F>, C2: MF<F>) requires ivp(n, B, C), feq(n, n, B2, B), feq(n, n, C2, C) ensures ivp(n, B2, C2)
{ mm_ext(n, n, n, B2, B, C2, C); feq_trans(n, n, mm(n, B2, C2), mm(n, B, C), idf::<F>()); mm_ext(n, n, n, C2, C, B2, B); feq_trans(n, n, mm(n, C2, B2), mm(n, C, B), idf::<F>()); }
pub proof fn eqn_ext<F: Field>(l: bool, a: int, b: int, R: MF<F>, S: MF<F>, Da: MF<F>, Db: MF<F>, R2: MF<F>, S2: MF<F>, Da2: MF<F>, Db2: MF<F>)
    requires eqn(l, a, b, R, S, Da, Db), if l { feq(a, b, R2, R) && feq(a, b, S2, S) } else { feq(b, a, R2, R) && feq(b, a, S2, S) }, feq(a, a, Da2, Da), feq(b, b, Db2, Db)
    ensures eqn(l, a, b, R2, S2, Da2, Db2)
{
    if l { mm_ext(a, b, b, R2, R, Db2, Db); mm_ext(a, a, b, Da2, Da, S2, S); feq_sym(a, b, mm(a, Da2, S2), mm(a, Da, S)); feq_trans(a, b, mm(b, R2, Db2), mm(b, R, Db), mm(a, Da, S)); feq_trans(a, b, mm(b, R2, Db2), mm(a, Da, S), mm(a, Da2, S2)); }
    else { mm_ext(b, a, a, R2, R, Da2, Da); mm_ext(b, b, a, Db2, Db, S2, S); feq_sym(b, a, mm(b, Db2, S2), mm(b, Db, S)); feq_trans(b, a, mm(a, R2, Da2), mm(a, R, Da), mm(b, Db, S)); feq_trans(b, a, mm(a, R2, Da2), mm(b, Db, S), mm(b, Db2, S2)); }
}
pub proof fn eqn_id<F: Field>(l: bool, a: int, b: int, R: MF<F>, S: MF<F>, Da: MF<F>, Db: MF<F>)
    requires if l { feq(a, b, R, S) } else { feq(b, a, R, S) }, isid(a, Da), isid(b, Db)
    ensures eqn(l, a, b, R, S, Da, Db)
{
    if l { mm_idr(a, b, R, Db); mm_idl(a, b, Da, S); feq_sym(a, b, mm(a, Da, S), S); feq_trans(a, b, mm(b, R, Db), R, S); feq_trans(a, b, mm(b, R, Db), S, mm(a, Da, S)); }
    else { mm_idr(b, a, R, Da); mm_idl(b, a, Db, S); feq_sym(b, a, mm(b, Db, S), S); feq_trans(b, a, mm(a, R, Da), R, S); feq_trans(b, a, mm(a, R, Da), S, mm(b, Db, S)); }
}
// R Db == Da S, S Gb == Ga T
pub proof fn sq_trans<F: Field>(a: int, b: int, R: MF<F>, S: MF<F>, T: MF<F>, Da: MF<F>, Db: MF<F>, Ga: MF<F>, Gb: MF<F>)
    requires a >= 0, b >= 0, feq(a, b, mm(b, R, Db), mm(a, Da, S)), feq(a, b, mm(b, S, Gb), mm(a, Ga, T))
    ensures feq(a, b, mm(b, R, mm(b, Db, Gb)), mm(a, mm(a, Da, Ga), T))
{
    mm_assoc(a, b, b, b, R, Db, Gb); feq_sym(a, b, mm(b, mm(b, R, Db), Gb), mm(b, R, mm(b, Db, Gb)));
    feq_refl(b, b, Gb); mm_ext(a, b, b, mm(b, R, Db), mm(a, Da, S), Gb, Gb); mm_assoc(a, a, b, b, Da, S, Gb);
    feq_refl(a, a, Da); mm_ext(a, a, b, Da, Da, mm(b, S, Gb), mm(a, Ga, T)); mm_assoc(a, a, a, b, Da, Ga, T); feq_sym(a, b, mm(a, mm(a, Da, Ga), T), mm(a, Da, mm(a, Ga, T)));
    let x0 = mm(b, R, mm(b, Db, Gb)); let x1 = mm(b, mm(b, R, Db), Gb); let x2 = mm(b, mm(a, Da, S), Gb); let x3 = mm(a, Da, mm(b, S, Gb)); let x4 = mm(a, Da, mm(a, Ga, T)); let x5 = mm(a, mm(a, Da, Ga), T);
    feq_trans(a, b, x0, x1, x2); feq_trans(a, b, x0, x2, x3); feq_trans(a, b, x0, x3, x4); feq_trans(a, b, x0, x4, x5);
}
pub proof fn eqn_trans<F: Field>(l: bool, a: int, b: int, R: MF<F>, S: MF<F>, T: MF<F>, Da: MF<F>, Db: MF<F>, Ga: MF<F>, Gb: MF<F>)
    requires a >= 0, b >= 0, eqn(l, a, b, R, S, Da, Db), eqn(l, a, b, S, T, Ga, Gb)
    ensures eqn(l, a, b, R, T, mm(a, Da, Ga), mm(b, Db, Gb))
{ if l { sq_trans(a, b, R, S, T, Da, Db, Ga, Gb); } else { sq_trans(b, a, R, S, T, Db, Da, Gb, Ga); } }
pub open spec fn eeq<F: Field>(l: bool, a: int, b: int, R: MF<F>, S: MF<F>) -> bool { if l { feq(a, b, R, S) } else { feq(b, a, R, S) } }
pub open spec fn reqv<F: Field>(lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int) -> bool { forall|k: int| j0 <= k <= j1 ==> eeq(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k)) }
pub proof fn iso_eq<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int) requires reqv(lf, nd, R, S, j0, j1) ensures iso(ends, lf, nd, R, S, j0, j1)
{
    let D = |k: int| idf::<F>();
    assert(isw(ends, lf, nd, R, S, j0, j1, D, D)) by {
        reveal(isw);
        assert forall|k: int| j0 <= k <= j1 + 1 implies ivp(nd(k), #[trigger] D(k), D(k)) by { ivp_id(nd(k), idf::<F>(), idf::<F>()); }
        assert forall|k: int| j0 <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), D(k), D(k + 1)) by { eqn_id(lf(k), nd(k), nd(k + 1), R(k), S(k), idf::<F>(), idf::<F>()); }
    }
}
pub proof fn iso_trans<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, T: spec_fn(int) -> MF<F>, j0: int, j1: int)
    requires ndok(nd), iso(ends, lf, nd, R, S, j0, j1), iso(ends, lf, nd, S, T, j0, j1) ensures iso(ends, lf, nd, R, T, j0, j1)
{
    let (D, Di) = choose|D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>| #[trigger] isw(ends, lf, nd, R, S, j0, j1, D, Di);
    let (G, Gi) = choose|D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>| #[trigger] isw(ends, lf, nd, S, T, j0, j1, D, Di);
    let H = |k: int| mm(nd(k), D(k), G(k)); let Hi = |k: int| mm(nd(k), Gi(k), Di(k));
    assert(isw(ends, lf, nd, R, T, j0, j1, H, Hi)) by {
        reveal(isw);
        assert forall|k: int| j0 <= k <= j1 + 1 implies ivp(nd(k), #[trigger] H(k), Hi(k)) by { assert(ivp(nd(k), D(k), Di(k)) && ivp(nd(k), G(k), Gi(k))); ivp_mul(nd(k), D(k), Di(k), G(k), Gi(k)); }
        assert forall|k: int| j0 <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), T(k), H(k), H(k + 1)) by { assert(eqn(lf(k), nd(k), nd(k + 1), S(k), T(k), G(k), G(k + 1))); eqn_trans(lf(k), nd(k), nd(k + 1), R(k), S(k), T(k), D(k), D(k + 1), G(k), G(k + 1)); }
        if ends { let a = nd(j0); mm_idl(a, a, D(j0), G(j0)); feq_trans(a, a, mm(a, D(j0), G(j0)), G(j0), idf::<F>()); let b = nd(j1 + 1); mm_idl(b, b, D(j1 + 1), G(j1 + 1)); feq_trans(b, b, mm(b, D(j1 + 1), G(j1 + 1)), G(j1 + 1), idf::<F>()); }
    }
}
pub proof fn iso_free<F: Field>(lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, j0: int, j1: int) requires iso(true, lf, nd, R, S, j0, j1) ensures iso(false, lf, nd, R, S, j0, j1)
{ let (D, Di) = choose|D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>| #[trigger] isw(true, lf, nd, R, S, j0, j1, D, Di); assert(isw(false, lf, nd, R, S, j0, j1, D, Di)) by { reveal(isw); } }
// an isomorphism on a part that is the identity on the ends, with equality elsewhere, extends
pub proof fn iso_widen<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, a: int, b: int, j0: int, j1: int)
    requires j0 <= a, b <= j1, a <= b + 1, iso(true, lf, nd, R, S, a, b), reqv(lf, nd, R, S, j0, a - 1), reqv(lf, nd, R, S, b + 1, j1) ensures iso(ends, lf, nd, R, S, j0, j1)
{
    let (D, Di) = choose|D: spec_fn(int) -> MF<F>, Di: spec_fn(int) -> MF<F>| #[trigger] isw(true, lf, nd, R, S, a, b, D, Di);
    let G = |k: int| if a <= k <= b + 1 { D(k) } else { idf::<F>() }; let Gi = |k: int| if a <= k <= b + 1 { Di(k) } else { idf::<F>() };
    assert(isw(ends, lf, nd, R, S, j0, j1, G, Gi)) by {
        reveal(isw);
        assert forall|k: int| j0 <= k <= j1 + 1 implies ivp(nd(k), #[trigger] G(k), Gi(k)) by { if a <= k <= b + 1 { assert(ivp(nd(k), D(k), Di(k))); } else { ivp_id(nd(k), idf::<F>(), idf::<F>()); } }
        assert forall|k: int| j0 <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), G(k), G(k + 1)) by {
            if a <= k <= b { assert(G(k) == D(k) && G(k + 1) == D(k + 1)); assert(eqn(lf(k), nd(k), nd(k + 1), R(k), S(k), D(k), D(k + 1))); } else { assert(eeq(lf(k), nd(k), nd(k + 1), R(k), S(k))); eqn_id(lf(k), nd(k), nd(k + 1), R(k), S(k), G(k), G(k + 1)); }
        }
    }
}
// ---- a change of basis B at the node between two edges (dims a, b, c) ----
pub open spec fn chb<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, R0: MF<F>, S0: MF<F>, R1: MF<F>, S1: MF<F>, B: MF<F>, C: MF<F>) -> bool { ivp(b, B, C) && eqn(l0, a, b, R0, S0, idf::<F>(), B) && eqn(l1, b, c, R1, S1, B, idf::<F>()) }
pub open spec fn nchg<F: Field>(l0: bool, l1: bool, a: int, b: int, c: int, R0: MF<F>, S0: MF<F>, R1: MF<F>, S1: MF<F>) -> bool { exists|B: MF<F>, C: MF<F>| #[trigger] chb(l0, l1, a, b, c, R0, S0, R1, S1, B, C) }
pub proof fn nchg_iso<F: Field>(ends: bool, lf: spec_fn(int) -> bool, nd: spec_fn(int) -> int, R: spec_fn(int) -> MF<F>, S: spec_fn(int) -> MF<F>, p: int, j0: int, j1: int)
    requires j0 < p <= j1, nchg(lf(p - 1), lf(p), nd(p - 1), nd(p), nd(p + 1), R(p - 1), S(p - 1), R(p), S(p)), reqv(lf, nd, R, S, j0, p - 2), reqv(lf, nd, R, S, p + 1, j1)
    ensures iso(ends, lf, nd, R, S, j0, j1)
{
    let (B, C) = choose|B: MF<F>, C: MF<F>| #[trigger] chb(lf(p - 1), lf(p), nd(p - 1), nd(p), nd(p + 1), R(p - 1), S(p - 1), R(p), S(p), B, C);
    let D = |k: int| if k == p { B } else { idf::<F>() }; let Di = |k: int| if k == p { C } else { idf::<F>() };
    assert(isw(ends, lf, nd, R, S, j0, j1, D, Di)) by {
        reveal(isw);
        assert forall|k: int| j0 <= k <= j1 + 1 implies ivp(nd(k), #[trigger] D(k), Di(k)) by { if k != p { ivp_id(nd(k), idf::<F>(), idf::<F>()); } }
        assert forall|k: int| j0 <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), D(k), D(k + 1)) by {
            if k == p - 1 || k == p { assert(D(p) == B && D(p - 1) == idf::<F>() && D(p + 1) == idf::<F>()); } else { assert(eeq(lf(k), nd(k), nd(k + 1), R(k), S(k))); eqn_id(lf(k), nd(k), nd(k + 1), R(k), S(k), D(k), D(k + 1)); }
        }
    }
}
// an edge changed on its first (l: target) node; on its second node
pub proof fn eqn_fst<F: Field>(l: bool, b: int, c: int, M: MF<F>, S: MF<F>, B: MF<F>, C: MF<F>)
    requires b >= 0, c >= 0, ivp(b, B, C), if l { feq(b, c, S, mm(b, C, M)) } else { feq(c, b, S, mm(b, M, B)) }
    ensures eqn(l, b, c, M, S, B, idf::<F>())
{
    let I = idf::<F>();
    if l {
        // M I == B S
        mm_idr(b, c, M, I); mm_assoc(b, b, b, c, B, C, M); mm_idl(b, c, mm(b, B, C), M); feq_refl(b, b, B); mm_ext(b, b, c, B, B, S, mm(b, C, M));
        feq_sym(b, c, mm(b, B, S), mm(b, B, mm(b, C, M))); feq_sym(b, c, mm(b, mm(b, B, C), M), M);
        feq_trans(b, c, mm(c, M, I), M, mm(b, mm(b, B, C), M)); feq_trans(b, c, mm(c, M, I), mm(b, mm(b, B, C), M), mm(b, B, mm(b, C, M))); feq_trans(b, c, mm(c, M, I), mm(b, B, mm(b, C, M)), mm(b, B, S));
    } else { mm_idl(c, b, I, S); feq_sym(c, b, mm(c, I, S), S); feq_sym(c, b, S, mm(b, M, B)); feq_trans(c, b, mm(b, M, B), S, mm(c, I, S)); }
}
pub proof fn eqn_snd<F: Field>(l: bool, a: int, b: int, M: MF<F>, S: MF<F>, B: MF<F>, C: MF<F>)
    requires a >= 0, b >= 0, ivp(b, B, C), if l { feq(a, b, S, mm(b, M, B)) } else { feq(b, a, S, mm(b, C, M)) }
    ensures eqn(l, a, b, M, S, idf::<F>(), B)
{ eqn_fst(!l, b, a, M, S, B, C); }
// the same, from the changed edge: M == S C, M == B S
pub proof fn eqn_snd2<F: Field>(l: bool, a: int, b: int, M: MF<F>, S: MF<F>, B: MF<F>, C: MF<F>)
    requires a >= 0, b >= 0, ivp(b, B, C), if l { feq(a, b, M, mm(b, S, C)) } else { feq(b, a, M, mm(b, B, S)) }
    ensures eqn(l, a, b, M, S, idf::<F>(), B)
{
    if l {
        feq_refl(b, b, B); mm_ext(a, b, b, M, mm(b, S, C), B, B); mm_assoc(a, b, b, b, S, C, B); mm_idr(a, b, S, mm(b, C, B));
        feq_sym(a, b, mm(b, S, mm(b, C, B)), S); let m2 = mm(b, mm(b, S, C), B); let m3 = mm(b, S, mm(b, C, B)); feq_trans(a, b, mm(b, M, B), m2, m3);
        assert(feq(a, b, S, mm(b, M, B))) by { assert forall|i: int, j: int| 0 <= i < a && 0 <= j < b implies #[trigger] S(i, j) == mm(b, M, B)(i, j) by { assert(m3(i, j) == S(i, j)); assert(mm(b, M, B)(i, j) == m3(i, j)); } }
    } else {
        feq_refl(b, b, C); mm_ext(b, b, a, C, C, M, mm(b, B, S)); mm_assoc(b, b, b, a, C, B, S); mm_idl(b, a, mm(b, C, B), S);
        let m2 = mm(b, C, mm(b, B, S)); let m3 = mm(b, mm(b, C, B), S);
        assert(feq(b, a, S, mm(b, C, M))) by { assert forall|i: int, j: int| 0 <= i < b && 0 <= j < a implies #[trigger] S(i, j) == mm(b, C, M)(i, j) by { assert(mm(b, C, M)(i, j) == m2(i, j)); assert(m3(i, j) == m2(i, j)); assert(m3(i, j) == S(i, j)); } }
    }
    eqn_snd(l, a, b, M, S, B, C);
}
pub proof fn eqn_fst2<F: Field>(l: bool, b: int, c: int, M: MF<F>, S: MF<F>, B: MF<F>, C: MF<F>)
    requires b >= 0, c >= 0, ivp(b, B, C), if l { feq(b, c, M, mm(b, B, S)) } else { feq(c, b, M, mm(b, S, C)) }
    ensures eqn(l, b, c, M, S, B, idf::<F>())
{ eqn_snd2(!l, c, b, M, S, B, C); }
@end
