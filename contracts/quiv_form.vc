@unit la
@uses quiv_sw
@rust
// ---- from the factored edges to the pivot matrices: L, U, P are absorbed by changes of basis at the nodes ----
pub open spec fn pv1<F: Field>(f: MF<F>, m: int, n: int) -> bool {
    &&& forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k ==> #[trigger] f(i, k) == F::szero()
    &&& forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] f(i, j) != F::szero() && i != k ==> #[trigger] f(k, j) == F::szero()
}
pub proof fn elv_pv1<F: Field>(f: MF<F>, m: int, n: int) requires elv(f, m, n) ensures pv1(f, m, n)
{
    let pv = choose|pv: Seq<int>| el_at(f, m, n, pv);
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k implies #[trigger] f(i, k) == F::szero() by { if f(i, k) != F::szero() { if j < k { assert(pv[j] < pv[k]); } else { assert(pv[k] < pv[j]); } } }
}
pub proof fn pv1_tp<F: Field>(f: MF<F>, m: int, n: int) requires pv1(tp(f), n, m) ensures pv1(f, m, n)
{
    let t = tp(f);
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k implies #[trigger] f(i, k) == F::szero() by { assert(t(j, i) != F::szero()); assert(t(k, i) == F::szero()); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] f(i, j) != F::szero() && i != k implies #[trigger] f(k, j) == F::szero() by { assert(t(j, i) != F::szero()); assert(t(j, k) == F::szero()); }
}
pub proof fn pv1_jc<F: Field>(f: MF<F>, m: int, n: int) requires pv1(jc(m, n, f), m, n) ensures pv1(f, m, n)
{
    let t = jc(m, n, f);
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < n && #[trigger] f(i, j) != F::szero() && j != k implies #[trigger] f(i, k) == F::szero() by { assert(t(m - 1 - i, n - 1 - j) == f(i, j)); assert(t(m - 1 - i, n - 1 - k) == f(i, k)); }
    assert forall|i: int, j: int, k: int| 0 <= i < m && 0 <= j < n && 0 <= k < m && #[trigger] f(i, j) != F::szero() && i != k implies #[trigger] f(k, j) == F::szero() by { assert(t(m - 1 - i, n - 1 - j) == f(i, j)); assert(t(m - 1 - k, n - 1 - j) == f(k, j)); }
}
pub proof fn eshape_pv1<F: Field>(el: bool, l: bool, a: int, b: int, E: CM<F>) requires eshape(el, l, a, b, E) ensures pv1(fm(E), erows(l, a, b), ecols(l, a, b))
{
    let f = fm(E);
    if el { if l { elv_pv1(f, a, b); } else { elv_pv1(tp(jc(b, a, f)), a, b); pv1_tp(jc(b, a, f), b, a); pv1_jc(f, b, a); } }
    else { if l { elv_pv1(tp(f), b, a); pv1_tp(f, a, b); } else { elv_pv1(jc(b, a, f), b, a); pv1_jc(f, b, a); } }
}
// Y with Y E == E L
pub open spec fn elx<F: Field>(pv: Seq<int>, l: MF<F>) -> MF<F> { |i: int, j: int| if inpv(pv, j) { if inpv(pv, i) { l(pv.index_of(i), pv.index_of(j)) } else { F::szero() } } else { kdel::<F>(i, j) } }
pub proof fn idx_pv(pv: Seq<int>, m: int, k: int) requires sincr(pv, m), 0 <= k < pv.len() ensures inpv(pv, pv[k]), pv.index_of(pv[k]) == k
{ assert(pv.contains(pv[k])); let q = pv.index_of(pv[k]); assert(0 <= q < pv.len() && pv[q] == pv[k]); if q < k { assert(pv[q] < pv[k]); } if k < q { assert(pv[k] < pv[q]); } }
pub open spec fn ely<F: Field>(x: MF<F>, c: Seq<F>) -> MF<F> { |i: int, j: int| F::smul(F::smul(x(i, j), c[i]), F::sinv(c[j])) }
pub proof fn elc_exists<F: Field>(m: int, n: int, e: MF<F>, l: MF<F>) -> (y: MF<F>)
    requires m >= 0, n >= 0, elv(e, m, n), ltri(n, l)
    ensures ltri(m, y), feq(m, n, mm(m, y, e), mm(n, e, l))
{
    broadcast use field_basic; F::ax_one_ne_zero();
    let pv = choose|pv: Seq<int>| el_at(e, m, n, pv); let r = pv.len() as int;
    let c = Seq::new(m as nat, |i: int| if inpv(pv, i) { e(i, pv.index_of(i)) } else { F::sone() });
    let x = elx(pv, l); let y = ely(x, c);
    assert forall|a: int, b: int| 0 <= a < r && 0 <= b < r implies x(#[trigger] pv[a], #[trigger] pv[b]) == l(a, b) by { idx_pv(pv, m, a); idx_pv(pv, m, b); }
    assert forall|k: int| 0 <= k < r implies e(#[trigger] pv[k], k) == c[pv[k]] by { idx_pv(pv, m, k); }
    assert forall|i: int| 0 <= i < m implies #[trigger] c[i] != F::szero() by { if inpv(pv, i) { let k = choose|k: int| 0 <= k < pv.len() && #[trigger] pv[k] == i; assert(e(pv[k], k) == c[pv[k]]); assert(e(i, k) != F::szero()); } }
    assert forall|i: int| 0 <= i < m implies F::smul(#[trigger] c[i], F::sinv(c[i])) == F::sone() && F::sinv(c[i]) != F::szero() by { F::ax_inv(c[i]); }
    assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] l(j, k) == F::szero() by { assert(tp(l)(k, j) == F::szero()); }
    assert forall|j: int| 0 <= j < n implies #[trigger] l(j, j) != F::szero() by { assert(tp(l)(j, j) != F::szero()); }
    assert(ltri(m, y)) by {
        assert forall|j: int, i: int| 0 <= i < j < m implies #[trigger] tp(y)(j, i) == F::szero() by {
            assert(x(i, j) == F::szero()) by {
                if inpv(pv, j) { let b = choose|b: int| 0 <= b < pv.len() && #[trigger] pv[b] == j; if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; if b < a { assert(pv[b] < pv[a]); } assert(a < b); assert(x(pv[a], pv[b]) == l(a, b)); } }
            }
            assert(y(i, j) == F::smul(F::smul(x(i, j), c[i]), F::sinv(c[j])));
        }
        assert forall|j: int| 0 <= j < m implies #[trigger] tp(y)(j, j) != F::szero() by {
            assert(x(j, j) != F::szero()) by { if inpv(pv, j) { let b = choose|b: int| 0 <= b < pv.len() && #[trigger] pv[b] == j; assert(x(pv[b], pv[b]) == l(b, b)); } }
            assert(c[j] != F::szero()); fb_nz(x(j, j), c[j]); fb_nz(F::smul(x(j, j), c[j]), F::sinv(c[j]));
        }
    }
    assert forall|i: int, k: int| 0 <= i < m && 0 <= k < n implies #[trigger] mm(m, y, e)(i, k) == mm(n, e, l)(i, k) by {
        let f = mqf(y, colf(e, k), i); let g = mqf(e, colf(l, k), i);
        if inpv(pv, i) {
            let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i;
            assert forall|q: int| 0 <= q < n && q != a implies #[trigger] g(q) == F::szero() by { if e(i, q) != F::szero() { assert(pv[q] == i); if q < a { assert(pv[q] < pv[a]); } else { assert(pv[a] < pv[q]); } } }
            fsum_one(n, g, a); assert(e(pv[a], a) == c[i]); assert(g(a) == F::smul(l(a, k), c[i]));
        } else { assert forall|q: int| 0 <= q < n implies #[trigger] g(q) == F::szero() by { if e(i, q) != F::szero() { assert(pv[q] == i); } } fsum_zero(n, g); }
        if k < r {
            let p = pv[k];
            assert forall|q: int| 0 <= q < m && q != p implies #[trigger] f(q) == F::szero() by { assert(e(q, k) == F::szero()); }
            fsum_one(m, f, p); assert(f(p) == F::smul(c[p], y(i, p)));
            let z = F::smul(x(i, p), c[i]); let cp = c[p]; let ip = F::sinv(cp);
            assert(y(i, p) == F::smul(z, ip)); F::ax_mul_comm(cp, F::smul(z, ip)); F::ax_mul_assoc(z, ip, cp); F::ax_mul_comm(ip, cp); F::ax_mul_one(z);
            assert(f(p) == z);
            idx_pv(pv, m, k);
            if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; assert(x(pv[a], pv[k]) == l(a, k)); } else { assert(x(i, p) == F::szero()); }
        } else {
            assert forall|q: int| 0 <= q < m implies #[trigger] f(q) == F::szero() by { assert(e(q, k) == F::szero()); }
            fsum_zero(m, f);
            if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; assert(l(a, k) == F::szero()); }
        }
    }
    y
}
pub open spec fn tj<F: Field>(m: int, n: int, f: MF<F>) -> MF<F> { |i: int, j: int| f(m - 1 - j, n - 1 - i) }
pub proof fn mm_tj<F: Field>(m: int, n: int, p: int, A: MF<F>, B: MF<F>) requires 0 <= n <= usize::MAX ensures feq(p, m, tj(m, p, mm(n, A, B)), mm(n, tj(n, p, B), tj(m, n, A)))
{
    mm_tp(m, n, p, A, B); mm_jc(p, n, m, tp(B), tp(A)); let jb = jc(p, n, tp(B)); let ja = jc(n, m, tp(A));
    assert(feq(p, n, tj(n, p, B), jb)); assert(feq(n, m, tj(m, n, A), ja)); mm_ext(p, n, m, tj(n, p, B), jb, tj(m, n, A), ja);
    assert forall|i: int, j: int| 0 <= i < p && 0 <= j < m implies #[trigger] tj(m, p, mm(n, A, B))(i, j) == mm(n, tj(n, p, B), tj(m, n, A))(i, j) by {
        assert(jc(p, m, mm(n, tp(B), tp(A)))(i, j) == mm(n, jb, ja)(i, j)); assert(tp(mm(n, A, B))(p - 1 - i, m - 1 - j) == mm(n, tp(B), tp(A))(p - 1 - i, m - 1 - j));
        assert(mm(n, tj(n, p, B), tj(m, n, A))(i, j) == mm(n, jb, ja)(i, j));
    }
}
pub proof fn ltri_tj<F: Field>(n: int, l: MF<F>) requires ltri(n, l) ensures ltri(n, tj(n, n, l))
{
    let t = tj(n, n, l);
    assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] tp(t)(k, j) == F::szero() by { assert(tp(l)(n - 1 - j, n - 1 - k) == F::szero()); }
    assert forall|j: int| 0 <= j < n implies #[trigger] tp(t)(j, j) != F::szero() by { assert(tp(l)(n - 1 - j, n - 1 - j) != F::szero()); }
}
// Z with E Z == B E
pub proof fn cmr_exists<F: Field>(m: int, n: int, e: MF<F>, b: MF<F>) -> (z: MF<F>)
    requires 0 <= m <= usize::MAX, 0 <= n <= usize::MAX, elv(tp(jc(m, n, e)), n, m), ltri(m, b)
    ensures ltri(n, z), feq(m, n, mm(m, b, e), mm(n, e, z))
{
    let et = tp(jc(m, n, e)); let bt = tj(m, m, b); ltri_tj(m, b);
    let y = elc_exists(n, m, et, bt); let z = tj(n, n, y); ltri_tj(n, y);
    mm_tj(m, m, n, b, e); mm_tj(m, n, n, e, z); let e2 = tj(m, n, e); let z2 = tj(n, n, z);
    assert(feq(n, m, et, e2)); assert(feq(n, n, y, z2)); feq_refl(m, m, bt); mm_ext(n, m, m, et, e2, bt, bt); mm_ext(n, n, m, y, z2, et, e2);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(m, b, e)(i, j) == mm(n, e, z)(i, j) by {
        let p = n - 1 - j; let q = m - 1 - i;
        assert(tj(m, n, mm(m, b, e))(p, q) == mm(m, e2, bt)(p, q)); assert(tj(m, n, mm(n, e, z))(p, q) == mm(n, z2, e2)(p, q));
        assert(mm(m, et, bt)(p, q) == mm(m, e2, bt)(p, q)); assert(mm(n, y, et)(p, q) == mm(n, z2, e2)(p, q)); assert(mm(n, y, et)(p, q) == mm(m, et, bt)(p, q));
    }
    z
}
pub proof fn ltri_rinv<F: Field>(n: int, L: MF<F>, V: MF<F>) requires n >= 0, ltri(n, L), ivp(n, L, V) ensures ltri(n, V)
{
    mm_tp(n, n, n, V, L); id_tp(n, mm(n, V, L));
    assert(feq(n, n, mm(n, tp(L), tp(V)), idf::<F>())) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(n, tp(L), tp(V))(i, j) == idf::<F>()(i, j) by { assert(tp(mm(n, V, L))(i, j) == mm(n, tp(L), tp(V))(i, j)); } }
    rinv_utri(n, tp(L), tp(V));
}
pub proof fn ltri_id<F: Field>(n: int) ensures ltri(n, idf::<F>()) { F::ax_one_ne_zero(); }
// L E and E with a lower triangular change at the right node
pub proof fn lstep<F: Field>(l: bool, a: int, b: int, L: MF<F>, E: MF<F>, B: MF<F>) -> (A: MF<F>)
    requires 0 <= a <= usize::MAX, 0 <= b <= usize::MAX, ltri(a, L), ltri(b, B), if l { elv(E, a, b) } else { elv(tp(jc(b, a, E)), a, b) }
    ensures ltri(a, A), eqn(l, a, b, fle(l, a, L, E), E, A, B)
{
    if l {
        let y = elc_exists(a, b, E, B); let A = mm(a, L, y); ltri_mm(a, L, y);
        // (L E) B == L (E B) == L (Y E) == (L Y) E
        mm_assoc(a, a, b, b, L, E, B); feq_sym(a, b, mm(a, y, E), mm(b, E, B)); feq_refl(a, a, L); mm_ext(a, a, b, L, L, mm(b, E, B), mm(a, y, E)); mm_assoc(a, a, a, b, L, y, E);
        let x0 = mm(b, mm(a, L, E), B); let x1 = mm(a, L, mm(b, E, B)); let x2 = mm(a, L, mm(a, y, E)); let x3 = mm(a, A, E);
        feq_sym(a, b, x3, x2); feq_trans(a, b, x0, x1, x2); feq_trans(a, b, x0, x2, x3); A
    } else {
        let z = cmr_exists(b, a, E, B); let V = linv_ivp(a, L); ltri_rinv(a, L, V); let A = mm(a, V, z); ltri_mm(a, V, z);
        // (E L) (V Z) == E Z == B E
        cancel_r(b, a, a, E, L, V, z); feq_sym(b, a, mm(b, B, E), mm(a, E, z)); feq_trans(b, a, mm(a, mm(a, E, L), A), mm(a, E, z), mm(b, B, E)); A
    }
}
pub open spec fn erep<F: Field>(fs: Seq<SFact<F>>) -> spec_fn(int) -> MF<F> { |k: int| fm(fs[k].E) }
pub open spec fn lch<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j: int, j1: int, G: spec_fn(int) -> MF<F>, Gi: spec_fn(int) -> MF<F>) -> bool { isw(false, dlf(D), dnd(D), frep(D, true, fs), erep(fs), j, j1, G, Gi) && ltri(dnd(D)(j), G(j)) }
pub proof fn el_last<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j: int) -> (w: (MF<F>, MF<F>, MF<F>, MF<F>))
    requires dfx(D, true, j, fs[j])
    ensures ltri(dnd(D)(j), w.0), ivp(dnd(D)(j), w.0, w.1), ivp(dnd(D)(j + 1), w.2, w.3), eqn(dlf(D)(j), dnd(D)(j), dnd(D)(j + 1), frep(D, true, fs)(j), erep(fs)(j), w.0, w.2)
{
    let l = dlf(D)(j); let a = dnd(D)(j); let b = dnd(D)(j + 1); let f = fs[j]; let I = idf::<F>(); let E = fm(f.E); dnd_ok(D); assert(0 <= dnd(D)(j) <= usize::MAX && 0 <= dnd(D)(j + 1) <= usize::MAX);
    let U = fm(f.U); let P = fm(f.P); trimat_utri(f.U); let V = rinv_exists(b, U); utri_linv(b, U, V); assert(ivp(b, U, V) && ivp(b, V, U));
    pm_pivm(f.P, b); pivm_inv(b, P); let T = tp(P); assert(ivp(b, P, T) && ivp(b, T, P));
    let B = if l { mm(b, T, V) } else { mm(b, P, U) }; let C = if l { mm(b, U, P) } else { mm(b, V, T) };
    if l { ivp_mul(b, T, P, V, U); } else { ivp_mul(b, P, T, U, V); }
    upr_first(l, a, b, f, B, C); trimat_ltri(f.L); ltri_id::<F>(b);
    let A = lstep(l, a, b, fm(f.L), E, I); let Ai = linv_ivp(a, A); fr0_le(l, a, b, f);
    eqn_trans(l, a, b, fro(true, l, a, b, f), fr0(true, l, a, b, f), E, I, B, A, I);
    mm_idl(a, a, I, A); mm_idr(b, b, B, I); feq_sym(a, a, mm(a, I, A), A); feq_sym(b, b, mm(b, B, I), B); feq_refl(erows(l, a, b), ecols(l, a, b), E); feq_refl(erows(l, a, b), ecols(l, a, b), fro(true, l, a, b, f));
    eqn_ext(l, a, b, fro(true, l, a, b, f), E, mm(a, I, A), mm(b, B, I), fro(true, l, a, b, f), E, A, B);
    (A, Ai, B, C)
}
pub proof fn el_mid<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j: int, B: MF<F>) -> (w: (MF<F>, MF<F>))
    requires dfx(D, true, j, fs[j]), upid(D, j, fs[j]), ltri(dnd(D)(j + 1), B)
    ensures ltri(dnd(D)(j), w.0), ivp(dnd(D)(j), w.0, w.1), eqn(dlf(D)(j), dnd(D)(j), dnd(D)(j + 1), frep(D, true, fs)(j), erep(fs)(j), w.0, B)
{
    let l = dlf(D)(j); let a = dnd(D)(j); let b = dnd(D)(j + 1); let f = fs[j]; let E = fm(f.E); dnd_ok(D); assert(0 <= dnd(D)(j) <= usize::MAX && 0 <= dnd(D)(j + 1) <= usize::MAX);
    trimat_ltri(f.L); let A = lstep(l, a, b, fm(f.L), E, B); let Ai = linv_ivp(a, A); fr0_le(l, a, b, f); identn_feq(f.P, b); fr_id(true, l, a, b, f);
    feq_refl(a, a, A); feq_refl(b, b, B); feq_refl(erows(l, a, b), ecols(l, a, b), E);
    eqn_ext(l, a, b, fle(l, a, fm(f.L), E), E, A, B, fro(true, l, a, b, f), E, A, B);
    (A, Ai)
}
pub proof fn lchain<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j: int, j0: int, j1: int)
    requires j0 <= j <= j1, elreg(D, fs, j0, j1)
    ensures exists|G: spec_fn(int) -> MF<F>, Gi: spec_fn(int) -> MF<F>| #[trigger] lch(D, fs, j, j1, G, Gi)
    decreases j1 - j
{
    let lf = dlf(D); let nd = dnd(D); let R = frep(D, true, fs); let S = erep(fs); assert(dfx(D, true, j, fs[j]));
    if j == j1 {
        let w = el_last(D, fs, j);
        let G = |k: int| if k <= j { w.0 } else { w.2 }; let Gi = |k: int| if k <= j { w.1 } else { w.3 };
        assert(isw(false, lf, nd, R, S, j, j1, G, Gi)) by {
            reveal(isw);
            assert forall|k: int| j <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), G(k), G(k + 1)) by { assert(k == j); }
        }
        assert(lch(D, fs, j, j1, G, Gi));
    } else {
        lchain(D, fs, j + 1, j0, j1);
        let (H, Hi) = choose|G: spec_fn(int) -> MF<F>, Gi: spec_fn(int) -> MF<F>| #[trigger] lch(D, fs, j + 1, j1, G, Gi);
        let w = el_mid(D, fs, j, H(j + 1));
        let G = |k: int| if k <= j { w.0 } else { H(k) }; let Gi = |k: int| if k <= j { w.1 } else { Hi(k) };
        assert(isw(false, lf, nd, R, S, j, j1, G, Gi)) by {
            reveal(isw);
            assert forall|k: int| j <= k <= j1 + 1 implies ivp(nd(k), #[trigger] G(k), Gi(k)) by { if k > j { assert(ivp(nd(k), H(k), Hi(k))); } }
            assert forall|k: int| j <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), G(k), G(k + 1)) by { if k > j { assert(eqn(lf(k), nd(k), nd(k + 1), R(k), S(k), H(k), H(k + 1))); } }
        }
        assert(lch(D, fs, j, j1, G, Gi));
    }
}
pub proof fn el_drop<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j0: int, j1: int) requires j0 <= j1, elreg(D, fs, j0, j1) ensures diso(D, false, frep(D, true, fs), erep(fs), j0, j1)
{ lchain(D, fs, j0, j0, j1); let (G, Gi) = choose|G: spec_fn(int) -> MF<F>, Gi: spec_fn(int) -> MF<F>| #[trigger] lch(D, fs, j0, j1, G, Gi); assert(isw(false, dlf(D), dnd(D), frep(D, true, fs), erep(fs), j0, j1, G, Gi)); }
// an edge P L E U / U E L P; Da, Db absorb P L and U, where these are not the identity
pub proof fn eu_edge<F: Field>(l: bool, a: int, b: int, f: SFact<F>, first: bool, last: bool) -> (w: (MF<F>, MF<F>, MF<F>, MF<F>))
    requires 0 <= a, 0 <= b, fgen(false, l, a, b, f), first || is_identn(f.L, a) && is_identn(f.P, a), last || is_identn(f.U, b)
    ensures ivp(a, w.0, w.1), ivp(b, w.2, w.3), eqn(l, a, b, fro(false, l, a, b, f), fm(f.E), w.0, w.2), !first ==> w.0 == idf::<F>() && w.1 == idf::<F>(), !last ==> w.2 == idf::<F>() && w.3 == idf::<F>()
{
    let E = fm(f.E); let I = idf::<F>(); let L = fm(f.L); let U = fm(f.U); let P = fm(f.P); let R = fro(false, l, a, b, f); let R0 = fr0(false, l, a, b, f); ivp_id(a, I, I); ivp_id(b, I, I);
    trimat_ltri(f.L); let V = linv_ivp(a, L); assert(ivp(a, V, L)); pm_pivm(f.P, a); pivm_inv(a, P); let T = tp(P); assert(ivp(a, P, T) && ivp(a, T, P));
    let B = if first { if l { mm(a, P, L) } else { mm(a, T, V) } } else { I }; let C = if first { if l { mm(a, V, T) } else { mm(a, L, P) } } else { I };
    if first { if l { ivp_mul(a, P, T, L, V); } else { ivp_mul(a, T, P, V, L); } pll_second(l, a, b, f, B, C); }
    else { fr_id(false, l, a, b, f); eqn_id(l, a, b, R, R0, I, I); }
    fr0_le(l, a, b, f);
    trimat_utri(f.U); let W = rinv_exists(b, U); utri_linv(b, U, W); assert(ivp(b, U, W) && ivp(b, W, U));
    let Q = if last { if l { W } else { U } } else { I }; let Qi = if last { if l { U } else { W } } else { I };
    assert(eqn(l, a, b, R0, E, I, Q)) by {
        if last { if l { feq_refl(a, b, R0); } else { feq_refl(b, a, R0); } eqn_snd2(l, a, b, R0, E, Q, Qi); }
        else { identn_feq(f.U, b); if l { mm_idr(a, b, E, U); } else { mm_idl(b, a, U, E); } eqn_id(l, a, b, R0, E, I, I); }
    }
    eqn_trans(l, a, b, R, R0, E, B, I, I, Q);
    mm_idr(a, a, B, I); mm_idl(b, b, I, Q); feq_sym(a, a, mm(a, B, I), B); feq_sym(b, b, mm(b, I, Q), Q); feq_refl(erows(l, a, b), ecols(l, a, b), E); feq_refl(erows(l, a, b), ecols(l, a, b), R);
    eqn_ext(l, a, b, R, E, mm(a, B, I), mm(b, I, Q), R, E, B, Q);
    (B, C, Q, Qi)
}
pub proof fn eu_drop<F: Field>(D: Dgm<F>, fs: Seq<SFact<F>>, j0: int, j1: int) requires j0 <= j1, eureg(D, fs, j0, j1), uids(D, fs, j0, j1 - 1) ensures diso(D, false, frep(D, false, fs), erep(fs), j0, j1)
{
    let lf = dlf(D); let nd = dnd(D); let R = frep(D, false, fs); let S = erep(fs); dnd_ok(D); assert(dfx(D, false, j0, fs[j0])); assert(dfx(D, false, j1, fs[j1])); assert(nd(j0) >= 0 && nd(j1) >= 0 && nd(j0 + 1) >= 0 && nd(j1 + 1) >= 0);
    if j0 < j1 { assert(is_identn(fs[j0].U, nd(j0 + 1))); assert(lpid(D, j1, fs[j1])); }
    let w = eu_edge(lf(j0), nd(j0), nd(j0 + 1), fs[j0], true, j0 == j1); let v = eu_edge(lf(j1), nd(j1), nd(j1 + 1), fs[j1], j0 == j1, true);
    let I = idf::<F>(); let x = if j0 == j1 { w.2 } else { v.2 }; let xi = if j0 == j1 { w.3 } else { v.3 };
    let G = |k: int| if k == j0 { w.0 } else if k == j1 + 1 { x } else { I }; let Gi = |k: int| if k == j0 { w.1 } else if k == j1 + 1 { xi } else { I };
    assert(isw(false, lf, nd, R, S, j0, j1, G, Gi)) by {
        reveal(isw);
        assert forall|k: int| j0 <= k <= j1 + 1 implies ivp(nd(k), #[trigger] G(k), Gi(k)) by { if k != j0 && k != j1 + 1 { ivp_id(nd(k), I, I); } }
        assert forall|k: int| j0 <= k <= j1 implies eqn(lf(k), nd(k), nd(k + 1), #[trigger] R(k), S(k), G(k), G(k + 1)) by {
            if k == j0 { } else if k == j1 { } else {
                assert(dfx(D, false, k, fs[k]) && lpid(D, k, fs[k])); assert(is_identn(fs[k].U, nd(k + 1))); assert(nd(k) >= 0 && nd(k + 1) >= 0);
                let u = eu_edge(lf(k), nd(k), nd(k + 1), fs[k], false, false);
            }
        }
    }
}
// pivot matrices on the edges of a representation isomorphic to the diagram
pub open spec fn barmat<F: Field>(D: Dgm<F>, k: int, M: CM<F>) -> bool { dem(D, k, M) && pv1(fm(M), M.m as int, M.n as int) }
pub open spec fn barform<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>) -> bool { mats.len() == D.edata@.len() && (forall|k: int| 0 <= k < mats.len() ==> barmat(D, k, #[trigger] mats[k])) && diso(D, false, mrep(D.edata@), mrep(mats), 0, mats.len() - 1) }
pub proof fn form_done<F: Field>(D: Dgm<F>, el: bool, fs: Seq<SFact<F>>, m: int, mats: Seq<CM<F>>)
    requires m >= 1, m == D.edata@.len(), m == mats.len(), diso(D, true, mrep(D.edata@), frep(D, el, fs), 0, m - 1), diso(D, false, frep(D, el, fs), erep(fs), 0, m - 1), forall|k: int| 0 <= k < m ==> dfx(D, el, k, #[trigger] fs[k]), forall|k: int| 0 <= k < m ==> #[trigger] mats[k] == fs[k].E
    ensures barform(D, mats)
{
    dnd_ok(D); iso_free(dlf(D), dnd(D), mrep(D.edata@), frep(D, el, fs), 0, m - 1); iso_trans(false, dlf(D), dnd(D), mrep(D.edata@), frep(D, el, fs), erep(fs), 0, m - 1);
    let R = erep(fs); let S = mrep(mats);
    assert forall|k: int| 0 <= k <= m - 1 implies eeq(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), #[trigger] R(k), S(k)) by { assert(mats[k] == fs[k].E); eeq_refl(dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), R(k)); }
    iso_eq(false, dlf(D), dnd(D), R, S, 0, m - 1); iso_trans(false, dlf(D), dnd(D), mrep(D.edata@), R, S, 0, m - 1);
    assert forall|k: int| 0 <= k < mats.len() implies barmat(D, k, #[trigger] mats[k]) by { assert(dfx(D, el, k, fs[k])); eshape_pv1(el, dlf(D)(k), dnd(D)(k), dnd(D)(k + 1), fs[k].E); }
}
@end
@fn bats::barcode_form_leftright(Dgm<F>) as bf_leftright
@prop P19
@requires
  dgok(*dgm)
@ensures
  barform(*dgm, ret@)
@at entry
  proof { vec_max(dgm.edata); }
@at after lr_sweep1 0
  let ghost ms = mats@;
  proof { el_drop(*dgm, facts@, 0, m - 1); }
@loop 0
  invariant m == dgm.edata@.len(), mats@.len() == m, facts@.len() == m, 0 <= j <= m, forall|k: int| 0 <= k < j ==> #[trigger] mats@[k] == facts@[k].E
  decreases m - j
@at before return 0
  proof { assert forall|k: int| 0 <= k < m implies dfx(*dgm, true, k, #[trigger] facts@[k]) by { } form_done(*dgm, true, facts@, m as int, mats@); }
@fn bats::barcode_form_rightleft(Dgm<F>) as bf_rightleft
@prop P19
@requires
  dgok(*dgm)
@ensures
  barform(*dgm, ret@)
@at entry
  proof { vec_max(dgm.edata); }
@at after rl_sweep1 0
  let ghost f1 = facts@;
@at after rl_sweep2 0
  proof { eu_drop(*dgm, facts@, 0, m - 1); dnd_ok(*dgm); iso_trans(true, dlf(*dgm), dnd(*dgm), mrep(dgm.edata@), frep(*dgm, false, f1), frep(*dgm, false, facts@), 0, m - 1); }
@loop 0
  invariant m == dgm.edata@.len(), mats@.len() == m, facts@.len() == m, 0 <= j <= m, forall|k: int| 0 <= k < j ==> #[trigger] mats@[k] == facts@[k].E
  decreases m - j
@at before return 0
  proof { assert forall|k: int| 0 <= k < m implies dfx(*dgm, false, k, #[trigger] facts@[k]) by { } form_done(*dgm, false, facts@, m as int, mats@); }
