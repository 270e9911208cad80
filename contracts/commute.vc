@unit la
@uses lqu2 cm_pred
@rust
// ---- E with at most one entry per column, in increasing rows; L lower triangular ----
pub open spec fn pvs<F: Field>(E: CM<F>, r: int) -> Seq<int> { Seq::new(r as nat, |k: int| E.col@[k].indval@[0].ind as int) }
pub open spec fn inpv(pv: Seq<int>, i: int) -> bool { exists|k: int| 0 <= k < pv.len() && #[trigger] pv[k] == i }
pub proof fn el_store<F: Field>(E: CM<F>) -> (r: int) requires cmwf(E), elv(fm(E), E.m as int, E.n as int) ensures el_form(E, r), el_at(fm(E), E.m as int, E.n as int, pvs(E, r))
{
    let m = E.m as int; let n = E.n as int; let pv = choose|pv: Seq<int>| el_at(fm(E), m, n, pv); let r = pv.len() as int;
    assert forall|k: int| 0 <= k < n implies (#[trigger] E.col@[k]).indval@.len() == (if k < r { 1int } else { 0 }) && (k < r ==> E.col@[k].indval@[0].ind == pv[k]) by {
        let s = E.col@[k].indval@;
        assert forall|q: int| 0 <= q < s.len() implies k < r && (#[trigger] s[q]).ind == pv[k] by { sc_some(s, m, q); assert(fm(E)(s[q].ind as int, k) == s[q].val); }
        if s.len() >= 2 { assert(s[0].ind < s[1].ind); }
        if k < r && s.len() == 0 { sval_absent(s, pv[k]); assert(fm(E)(pv[k], k) != F::szero()); }
    }
    assert(pvs(E, r) =~= pv) by { assert forall|k: int| 0 <= k < r implies #[trigger] pvs(E, r)[k] == pv[k] by { assert(E.col@[k].indval@.len() == 1); } }
    assert forall|k: int| 0 <= k < r implies #[trigger] E.col@[k].indval@.len() == 1 by { assert(E.col@[k].indval@.len() == 1int); }
    assert forall|k: int| r <= k < n implies #[trigger] E.col@[k].indval@.len() == 0 by { assert(E.col@[k].indval@.len() == 0int); }
    assert forall|a: int, b: int| 0 <= a < b < r implies (#[trigger] E.col@[a]).indval@[0].ind < (#[trigger] E.col@[b]).indval@[0].ind by { assert(pv[a] < pv[b]); assert(E.col@[a].indval@[0].ind == pv[a]); assert(E.col@[b].indval@[0].ind == pv[b]); }
    r
}
pub open spec fn ers_col<F: Field>(E0: CM<F>, E1: CM<F>, c: Seq<F>, j: int) -> bool { let s = E0.col@[j].indval@; let t = E1.col@[j].indval@; t.len() == s.len() && (s.len() > 0 ==> t[0].ind == s[0].ind && c[s[0].ind as int] == s[0].val) }
pub open spec fn ers_of<F: Field>(E0: CM<F>, E1: CM<F>, c: Seq<F>) -> bool { E1.m == E0.m && E1.n == E0.n && E1.col@.len() == E0.n && c.len() == E0.m && (forall|j: int| 0 <= j < E0.n ==> #[trigger] ers_col(E0, E1, c, j)) && forall|i: int| 0 <= i < E0.m ==> #[trigger] c[i] != F::szero() }
// the first b entries of t, moved to the rows pv
pub open spec fn mvd<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>, pv: Seq<int>, b: int) -> bool { s.len() == b && 0 <= b <= t.len() && forall|k: int| 0 <= k < b ==> t[k].ind < pv.len() && (#[trigger] s[k]).ind == pv[t[k].ind as int] && s[k].val == t[k].val }
pub open spec fn mvd_all<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>, pv: Seq<int>) -> bool { mvd(s, t, pv, s.len() as int) && (s.len() < t.len() ==> t[s.len() as int].ind >= pv.len()) }
pub proof fn mvd_val<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>, pv: Seq<int>, m: int, n: int)
    requires mvd_all(s, t, pv), sincr(pv, m), sc(t, n)
    ensures sc(s, m), forall|a: int| 0 <= a < pv.len() ==> sval(s, #[trigger] pv[a]) == sval(t, a), forall|i: int| !inpv(pv, i) ==> #[trigger] sval(s, i) == F::szero()
{
    let b = s.len() as int;
    assert(ssorted(s)) by { assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).ind < (#[trigger] s[j]).ind by { assert(s[i].ind == pv[t[i].ind as int] && s[j].ind == pv[t[j].ind as int]); assert(t[i].ind < t[j].ind); assert(pv[t[i].ind as int] < pv[t[j].ind as int]); } }
    assert(snz(s)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).val != F::szero() by { sc_some(t, n, i); } }
    assert(sbelow(s, m)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).ind < m by { assert(s[i].ind == pv[t[i].ind as int]); assert(0 <= pv[t[i].ind as int] < m); } }
    ssorted_sdist(t);
    assert forall|a: int| 0 <= a < pv.len() implies sval(s, #[trigger] pv[a]) == sval(t, a) by {
        let k = sval_find(t, a);
        if k != -1 { if k >= b { assert(t[b].ind >= pv.len()); if k > b { assert(t[b].ind < t[k].ind); } } sval_at(s, k); assert(s[k].ind == pv[a]); }
        else { assert forall|q: int| 0 <= q < s.len() implies (#[trigger] s[q]).ind as int != pv[a] by { let c = t[q].ind as int; assert(s[q].ind == pv[c] && c < pv.len()); assert(c != a); if c < a { assert(pv[c] < pv[a]); } else { assert(pv[a] < pv[c]); } } sval_absent(s, pv[a]); }
    }
    assert forall|i: int| !inpv(pv, i) implies #[trigger] sval(s, i) == F::szero() by { assert forall|q: int| 0 <= q < s.len() implies (#[trigger] s[q]).ind as int != i by { assert(s[q].ind == pv[t[q].ind as int] && t[q].ind < pv.len()); } sval_absent(s, i); }
}
// the columns pv[0..l] are set, the others are those of the identity
#[verifier::opaque]
pub open spec fn lt_at<F: Field>(T: CM<F>, L: CM<F>, m: int, pv: Seq<int>, l: int) -> bool {
    &&& T.m == m && T.n == m && T.col@.len() == m && l <= pv.len() && l <= L.n
    &&& forall|a: int| 0 <= a < l ==> mvd_all(T.col@[#[trigger] pv[a]].indval@, L.col@[a].indval@, pv)
    &&& forall|j: int| 0 <= j < m && !inpv(pv.subrange(0, l), j) ==> sc((#[trigger] T.col@[j]).indval@, m) && forall|i: int| #[trigger] sval(T.col@[j].indval@, i) == kdel::<F>(i, j)
}
pub proof fn lt_start<F: Field>(T: CM<F>, L: CM<F>, m: int, pv: Seq<int>) requires is_identn(T, m) ensures lt_at(T, L, m, pv, 0)
{ reveal(lt_at); assert forall|j: int| 0 <= j < m && !inpv(pv.subrange(0, 0), j) implies sc((#[trigger] T.col@[j]).indval@, m) && forall|i: int| #[trigger] sval(T.col@[j].indval@, i) == kdel::<F>(i, j) by { assert forall|i: int| #[trigger] sval(T.col@[j].indval@, i) == kdel::<F>(i, j) by { assert(cmv(T, i, j) == kdel::<F>(i, j)); } } }
pub proof fn lt_dims<F: Field>(T: CM<F>, L: CM<F>, m: int, pv: Seq<int>, l: int) requires lt_at(T, L, m, pv, l) ensures T.m == m && T.n == m && T.col@.len() == m { reveal(lt_at); }
pub proof fn lt_step<F: Field>(T: CM<F>, T2: CM<F>, L: CM<F>, m: int, pv: Seq<int>, l: int)
    requires lt_at(T, L, m, pv, l), 0 <= l < pv.len(), l < L.n, sincr(pv, m), T2.m == m, T2.n == m, T2.col@.len() == m, forall|j: int| 0 <= j < m && j != pv[l] ==> #[trigger] T2.col@[j] == T.col@[j], mvd_all(T2.col@[pv[l]].indval@, L.col@[l].indval@, pv)
    ensures lt_at(T2, L, m, pv, l + 1)
{
    reveal(lt_at);
    assert forall|a: int| 0 <= a < l + 1 implies mvd_all(T2.col@[#[trigger] pv[a]].indval@, L.col@[a].indval@, pv) by { if a < l { assert(pv[a] < pv[l]); assert(T2.col@[pv[a]] == T.col@[pv[a]]); } }
    assert forall|j: int| 0 <= j < m && !inpv(pv.subrange(0, l + 1), j) implies sc((#[trigger] T2.col@[j]).indval@, m) && forall|i: int| #[trigger] sval(T2.col@[j].indval@, i) == kdel::<F>(i, j) by {
        assert(pv.subrange(0, l + 1)[l] == pv[l]); assert(T2.col@[j] == T.col@[j]);
        if inpv(pv.subrange(0, l), j) { let k = choose|k: int| 0 <= k < l && #[trigger] pv.subrange(0, l)[k] == j; assert(pv.subrange(0, l + 1)[k] == j); }
    }
}
pub open spec fn x_ok<F: Field>(X: spec_fn(int, int) -> F, L: spec_fn(int, int) -> F, m: int, pv: Seq<int>) -> bool {
    &&& forall|a: int, c: int| 0 <= a < pv.len() && 0 <= c < pv.len() ==> X(#[trigger] pv[a], #[trigger] pv[c]) == L(a, c)
    &&& forall|i: int, c: int| 0 <= i < m && 0 <= c < pv.len() && !inpv(pv, i) ==> #[trigger] X(i, pv[c]) == F::szero()
    &&& forall|i: int, j: int| 0 <= i < m && 0 <= j < m && !inpv(pv, j) ==> #[trigger] X(i, j) == kdel::<F>(i, j)
}
pub proof fn lt_done<F: Field>(T: CM<F>, L: CM<F>, m: int, pv: Seq<int>) requires lt_at(T, L, m, pv, pv.len() as int), sincr(pv, m), cmwf(L) ensures dims(T, m, m), x_ok(fm(T), fm(L), m, pv)
{
    reveal(lt_at); assert(pv.subrange(0, pv.len() as int) =~= pv);
    assert forall|j: int| 0 <= j < m implies sc((#[trigger] T.col@[j]).indval@, m) by { if inpv(pv, j) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == j; mvd_val(T.col@[pv[a]].indval@, L.col@[a].indval@, pv, m, L.m as int); } }
    assert forall|a: int, c: int| 0 <= a < pv.len() && 0 <= c < pv.len() implies fm(T)(#[trigger] pv[a], #[trigger] pv[c]) == fm(L)(a, c) by { mvd_val(T.col@[pv[c]].indval@, L.col@[c].indval@, pv, m, L.m as int); }
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < pv.len() && !inpv(pv, i) implies #[trigger] fm(T)(i, pv[c]) == F::szero() by { mvd_val(T.col@[pv[c]].indval@, L.col@[c].indval@, pv, m, L.m as int); }
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && !inpv(pv, j) implies #[trigger] fm(T)(i, j) == kdel::<F>(i, j) by { assert(sval(T.col@[j].indval@, i) == kdel::<F>(i, j)); }
}
// Y E == E L
pub open spec fn elc_of<F: Field>(E: CM<F>, L: CM<F>, Y: CM<F>) -> bool { let m = E.m as int; let n = E.n as int; trimat(false, Y) && Y.n == m && feq(m, n, mm(m, fm(Y), fm(E)), mm(n, fm(E), fm(L))) }
pub open spec fn y_of<F: Field>(X: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F, c: Seq<F>, m: int) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] Y(i, j) == F::smul(F::smul(X(i, j), c[i]), F::sinv(c[j])) }
pub proof fn elc_done<F: Field>(E: CM<F>, EL: CM<F>, L: CM<F>, X: CM<F>, Y: CM<F>, c: Seq<F>, r: int)
    requires cmwf(E), el_form(E, r), el_at(fm(E), E.m as int, E.n as int, pvs(E, r)), ers_of(E, EL, c), trimat(false, L), L.n == E.n, x_ok(fm(X), fm(L), E.m as int, pvs(E, r)), dims(Y, E.m as int, E.m as int), y_of(fm(X), fm(Y), c, E.m as int)
    ensures elc_of(E, L, Y)
{
    broadcast use field_basic; F::ax_one_ne_zero();
    let m = E.m as int; let n = E.n as int; let pv = pvs(E, r); let e = fm(E); let l = fm(L); let x = fm(X); let y = fm(Y);
    assert forall|k: int| 0 <= k < r implies e(#[trigger] pv[k], k) == c[pv[k]] by { assert(ers_col(E, EL, c, k)); let s = E.col@[k].indval@; assert(E.col@[k].indval@.len() == 1); sval_at(s, 0); }
    assert forall|i: int| 0 <= i < m implies F::smul(#[trigger] c[i], F::sinv(c[i])) == F::sone() && F::sinv(c[i]) != F::szero() by { F::ax_inv(c[i]); }
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && i < j implies #[trigger] cmv(Y, i, j) == F::szero() by {
        assert(y(i, j) == F::smul(F::smul(x(i, j), c[i]), F::sinv(c[j])));
        assert(x(i, j) == F::szero()) by {
            if inpv(pv, j) { let b = choose|b: int| 0 <= b < pv.len() && #[trigger] pv[b] == j; if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; if b < a { assert(pv[b] < pv[a]); } assert(a < b); assert(cmv(L, a, b) == F::szero()); assert(x(pv[a], pv[b]) == l(a, b)); } }
        }
    }
    assert forall|j: int| 0 <= j < m implies #[trigger] cmv(Y, j, j) != F::szero() by {
        assert(y(j, j) == F::smul(F::smul(x(j, j), c[j]), F::sinv(c[j])));
        assert(x(j, j) != F::szero()) by { if inpv(pv, j) { let b = choose|b: int| 0 <= b < pv.len() && #[trigger] pv[b] == j; assert(cmv(L, b, b) != F::szero()); assert(x(pv[b], pv[b]) == l(b, b)); } }
        fb_nz(x(j, j), c[j]); fb_nz(F::smul(x(j, j), c[j]), F::sinv(c[j]));
    }
    assert forall|i: int, k: int| 0 <= i < m && 0 <= k < n implies #[trigger] mm(m, y, e)(i, k) == mm(n, e, l)(i, k) by {
        let f = mqf(y, colf(e, k), i); let g = mqf(e, colf(l, k), i);
        // right side: only a with pv[a] == i
        if inpv(pv, i) {
            let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i;
            assert forall|q: int| 0 <= q < n && q != a implies #[trigger] g(q) == F::szero() by { if e(i, q) != F::szero() { assert(pv[q] == i); if q < a { assert(pv[q] < pv[a]); } else { assert(pv[a] < pv[q]); } } }
            fsum_one(n, g, a); assert(e(pv[a], a) == c[i]); assert(g(a) == F::smul(l(a, k), c[i]));
        } else { assert forall|q: int| 0 <= q < n implies #[trigger] g(q) == F::szero() by { if e(i, q) != F::szero() { assert(pv[q] == i); } } fsum_zero(n, g); }
        if k < r {
            let p = pv[k];
            assert forall|q: int| 0 <= q < m && q != p implies #[trigger] f(q) == F::szero() by { assert(e(q, k) == F::szero()); }
            fsum_one(m, f, p); assert(f(p) == F::smul(c[p], y(i, p)));
            let z = F::smul(x(i, p), c[i]); let cp = c[p]; let ip = F::sinv(cp);
            assert(y(i, p) == F::smul(z, ip)); F::ax_mul_comm(cp, F::smul(z, ip)); F::ax_mul_assoc(z, ip, cp); F::ax_mul_comm(ip, cp); F::ax_mul_one(z);
            assert(f(p) == z);
            if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; assert(x(pv[a], pv[k]) == l(a, k)); } else { assert(x(i, pv[k]) == F::szero()); }
        } else {
            assert forall|q: int| 0 <= q < m implies #[trigger] f(q) == F::szero() by { assert(e(q, k) == F::szero()); }
            fsum_zero(m, f);
            if inpv(pv, i) { let a = choose|a: int| 0 <= a < pv.len() && #[trigger] pv[a] == i; assert(cmv(L, a, k) == F::szero()); }
        }
    }
}
pub proof fn trimat_t<F: Field>(up: bool, A: CM<F>, T: CM<F>) requires trimat(up, A), is_transpose(T, A) ensures trimat(!up, T)
{
    assert forall|i: int, j: int| 0 <= i < T.n && 0 <= j < T.n && (if !up { i > j } else { i < j }) implies #[trigger] cmv(T, i, j) == F::szero() by { assert(cmv(T, i, j) == cmv(A, j, i)); assert(cmv(A, j, i) == F::szero()); }
    assert forall|j: int| 0 <= j < T.n implies #[trigger] cmv(T, j, j) != F::szero() by { assert(cmv(T, j, j) == cmv(A, j, j)); assert(cmv(A, j, j) != F::szero()); }
}
pub proof fn trimat_j<F: Field>(up: bool, A: CM<F>, T: CM<F>) requires trimat(up, A), is_jconj(T, A) ensures trimat(!up, T)
{
    let n = A.n as int;
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (if !up { i > j } else { i < j }) implies #[trigger] cmv(T, i, j) == F::szero() by { assert(cmv(T, i, j) == cmv(A, n - 1 - i, n - 1 - j)); assert(cmv(A, n - 1 - i, n - 1 - j) == F::szero()); }
    assert forall|j: int| 0 <= j < n implies #[trigger] cmv(T, j, j) != F::szero() by { assert(cmv(T, j, j) == cmv(A, n - 1 - j, n - 1 - j)); assert(cmv(A, n - 1 - j, n - 1 - j) != F::szero()); }
}
pub proof fn trimat_tj<F: Field>(up: bool, A: CM<F>, T: CM<F>) requires trimat(up, A), is_tj(T, A) ensures trimat(up, T)
{
    let n = A.n as int;
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && (if up { i > j } else { i < j }) implies #[trigger] cmv(T, i, j) == F::szero() by { assert(cmv(T, i, j) == cmv(A, n - 1 - j, n - 1 - i)); assert(cmv(A, n - 1 - j, n - 1 - i) == F::szero()); }
    assert forall|j: int| 0 <= j < n implies #[trigger] cmv(T, j, j) != F::szero() by { assert(cmv(T, j, j) == cmv(A, n - 1 - j, n - 1 - j)); assert(cmv(A, n - 1 - j, n - 1 - j) != F::szero()); }
}
// U E == E R
pub open spec fn cmr_of<F: Field>(up: bool, U: CM<F>, E: CM<F>, R: CM<F>) -> bool { let m = E.m as int; let n = E.n as int; trimat(up, R) && R.n == n && feq(m, n, mm(m, fm(U), fm(E)), mm(n, fm(E), fm(R))) }
// E U == R E
pub open spec fn cml_of<F: Field>(up: bool, E: CM<F>, U: CM<F>, R: CM<F>) -> bool { let m = E.m as int; let n = E.n as int; trimat(up, R) && R.n == m && feq(m, n, mm(n, fm(E), fm(U)), mm(m, fm(R), fm(E))) }
pub proof fn ueu_from<F: Field>(U: CM<F>, E: CM<F>, Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>)
    requires cmwf(E), trimat(true, U), U.n == E.m, is_transpose(Ut, U), is_transpose(Et, E), elc_of(Et, Ut, Y), is_transpose(R, Y)
    ensures cmr_of(true, U, E, R)
{
    let m = E.m as int; let n = E.n as int; trimat_t(false, Y, R); feq_t(U, Ut); feq_t(E, Et);
    mm_tp(m, n, n, fm(E), fm(R)); mm_tp(m, m, n, fm(U), fm(E));
    assert(feq(n, n, fm(Y), tp(fm(R)))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(Y)(i, j) == tp(fm(R))(i, j) by { assert(cmv(R, j, i) == cmv(Y, i, j)); } }
    mm_ext(n, n, m, fm(Y), tp(fm(R)), fm(Et), tp(fm(E))); mm_ext(n, m, m, fm(Et), tp(fm(E)), fm(Ut), tp(fm(U)));
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(m, fm(U), fm(E))(i, j) == mm(n, fm(E), fm(R))(i, j) by {
        assert(tp(mm(m, fm(U), fm(E)))(j, i) == mm(m, tp(fm(E)), tp(fm(U)))(j, i)); assert(mm(m, fm(Et), fm(Ut))(j, i) == mm(m, tp(fm(E)), tp(fm(U)))(j, i));
        assert(mm(n, fm(Y), fm(Et))(j, i) == mm(m, fm(Et), fm(Ut))(j, i)); assert(mm(n, fm(Y), fm(Et))(j, i) == mm(n, tp(fm(R)), tp(fm(E)))(j, i)); assert(tp(mm(n, fm(E), fm(R)))(j, i) == mm(n, tp(fm(R)), tp(fm(E)))(j, i));
    }
}
pub proof fn euu_from<F: Field>(E: CM<F>, U: CM<F>, Uj: CM<F>, Ej: CM<F>, Y: CM<F>, R: CM<F>)
    requires cmwf(E), trimat(true, U), U.n == E.n, is_jconj(Uj, U), is_jconj(Ej, E), elc_of(Ej, Uj, Y), is_jconj(R, Y)
    ensures cml_of(true, E, U, R)
{
    let m = E.m as int; let n = E.n as int; trimat_j(false, Y, R); feq_j(U, Uj); feq_j(E, Ej);
    mm_jc(m, m, n, fm(R), fm(E)); mm_jc(m, n, n, fm(E), fm(U));
    assert(feq(m, m, fm(Y), jc(m, m, fm(R)))) by { assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] fm(Y)(i, j) == jc(m, m, fm(R))(i, j) by { assert(cmv(R, m - 1 - i, m - 1 - j) == cmv(Y, i, j)); } }
    mm_ext(m, m, n, fm(Y), jc(m, m, fm(R)), fm(Ej), jc(m, n, fm(E))); mm_ext(m, n, n, fm(Ej), jc(m, n, fm(E)), fm(Uj), jc(n, n, fm(U)));
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(n, fm(E), fm(U))(i, j) == mm(m, fm(R), fm(E))(i, j) by {
        let a = m - 1 - i; let b = n - 1 - j;
        assert(jc(m, n, mm(n, fm(E), fm(U)))(a, b) == mm(n, jc(m, n, fm(E)), jc(n, n, fm(U)))(a, b)); assert(mm(n, fm(Ej), fm(Uj))(a, b) == mm(n, jc(m, n, fm(E)), jc(n, n, fm(U)))(a, b));
        assert(mm(m, fm(Y), fm(Ej))(a, b) == mm(n, fm(Ej), fm(Uj))(a, b)); assert(mm(m, fm(Y), fm(Ej))(a, b) == mm(m, jc(m, m, fm(R)), jc(m, n, fm(E)))(a, b)); assert(jc(m, n, mm(m, fm(R), fm(E)))(a, b) == mm(m, jc(m, m, fm(R)), jc(m, n, fm(E)))(a, b));
    }
}
pub proof fn lel_from<F: Field>(L: CM<F>, E: CM<F>, Lt: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>)
    requires cmwf(E), trimat(false, L), L.n == E.m, is_tj(Lt, L), is_tj(Et, E), elc_of(Et, Lt, Y), is_tj(R, Y)
    ensures cmr_of(false, L, E, R)
{
    let m = E.m as int; let n = E.n as int; trimat_tj(false, Y, R); tj_feq(L, Lt); tj_feq(E, Et);
    // J (E R)^T J and J (L E)^T J
    mm_tp(m, n, n, fm(E), fm(R)); mm_jc(n, n, m, tp(fm(R)), tp(fm(E))); mm_tp(m, m, n, fm(L), fm(E)); mm_jc(n, m, m, tp(fm(E)), tp(fm(L)));
    let jr = jc(n, n, tp(fm(R))); let je = jc(n, m, tp(fm(E))); let jl = jc(m, m, tp(fm(L)));
    assert(feq(n, n, fm(Y), jr)) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(Y)(i, j) == jr(i, j) by { assert(cmv(R, n - 1 - j, n - 1 - i) == cmv(Y, i, j)); } }
    mm_ext(n, n, m, fm(Y), jr, fm(Et), je); mm_ext(n, m, m, fm(Et), je, fm(Lt), jl);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] mm(m, fm(L), fm(E))(i, j) == mm(n, fm(E), fm(R))(i, j) by {
        let a = n - 1 - j; let b = m - 1 - i;
        assert(tp(mm(m, fm(L), fm(E)))(j, i) == mm(m, tp(fm(E)), tp(fm(L)))(j, i)); assert(jc(n, m, mm(m, tp(fm(E)), tp(fm(L))))(a, b) == mm(m, je, jl)(a, b)); assert(mm(m, fm(Et), fm(Lt))(a, b) == mm(m, je, jl)(a, b));
        assert(mm(n, fm(Y), fm(Et))(a, b) == mm(m, fm(Et), fm(Lt))(a, b)); assert(mm(n, fm(Y), fm(Et))(a, b) == mm(n, jr, je)(a, b)); assert(jc(n, m, mm(n, tp(fm(R)), tp(fm(E))))(a, b) == mm(n, jr, je)(a, b)); assert(tp(mm(n, fm(E), fm(R)))(j, i) == mm(n, tp(fm(R)), tp(fm(E)))(j, i));
    }
}
pub proof fn ueu_all<F: Field>(U: CM<F>, E: CM<F>)
    requires cmwf(E), trimat(true, U), U.n == E.m, elv(tp(fm(E)), E.n as int, E.m as int)
    ensures forall|T: CM<F>| #[trigger] is_transpose(T, U) ==> trimat(false, T), forall|T: CM<F>| #[trigger] is_transpose(T, E) ==> elv(fm(T), E.n as int, E.m as int),
        forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_transpose(Ut, U) && #[trigger] is_transpose(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_transpose(R, Y) ==> cmr_of(true, U, E, R)
{
    assert forall|T: CM<F>| #[trigger] is_transpose(T, U) implies trimat(false, T) by { trimat_t(true, U, T); }
    assert forall|T: CM<F>| #[trigger] is_transpose(T, E) implies elv(fm(T), E.n as int, E.m as int) by { feq_t(E, T); elv_ext(tp(fm(E)), fm(T), E.n as int, E.m as int); }
    assert forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_transpose(Ut, U) && #[trigger] is_transpose(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_transpose(R, Y) implies cmr_of(true, U, E, R) by { ueu_from(U, E, Ut, Et, Y, R); }
}
pub proof fn euu_all<F: Field>(E: CM<F>, U: CM<F>)
    requires cmwf(E), trimat(true, U), U.n == E.n, elv(jc(E.m as int, E.n as int, fm(E)), E.m as int, E.n as int)
    ensures forall|T: CM<F>| #[trigger] is_jconj(T, U) ==> trimat(false, T), forall|T: CM<F>| #[trigger] is_jconj(T, E) ==> elv(fm(T), E.m as int, E.n as int),
        forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_jconj(Ut, U) && #[trigger] is_jconj(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_jconj(R, Y) ==> cml_of(true, E, U, R)
{
    assert forall|T: CM<F>| #[trigger] is_jconj(T, U) implies trimat(false, T) by { trimat_j(true, U, T); }
    assert forall|T: CM<F>| #[trigger] is_jconj(T, E) implies elv(fm(T), E.m as int, E.n as int) by { feq_j(E, T); elv_ext(jc(E.m as int, E.n as int, fm(E)), fm(T), E.m as int, E.n as int); }
    assert forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_jconj(Ut, U) && #[trigger] is_jconj(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_jconj(R, Y) implies cml_of(true, E, U, R) by { euu_from(E, U, Ut, Et, Y, R); }
}
pub proof fn lel_all<F: Field>(L: CM<F>, E: CM<F>)
    requires cmwf(E), trimat(false, L), L.n == E.m, elv(tp(jc(E.m as int, E.n as int, fm(E))), E.n as int, E.m as int)
    ensures forall|T: CM<F>| #[trigger] is_tj(T, L) ==> trimat(false, T), forall|T: CM<F>| #[trigger] is_tj(T, E) ==> elv(fm(T), E.n as int, E.m as int),
        forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_tj(Ut, L) && #[trigger] is_tj(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_tj(R, Y) ==> cmr_of(false, L, E, R)
{
    assert forall|T: CM<F>| #[trigger] is_tj(T, L) implies trimat(false, T) by { trimat_tj(false, L, T); }
    assert forall|T: CM<F>| #[trigger] is_tj(T, E) implies elv(fm(T), E.n as int, E.m as int) by {
        let f = tp(jc(E.m as int, E.n as int, fm(E)));
        assert forall|i: int, j: int| 0 <= i < E.n && 0 <= j < E.m implies #[trigger] fm(T)(i, j) == f(i, j) by { assert(cmv(T, i, j) == cmv(E, E.m - 1 - j, E.n - 1 - i)); }
        elv_ext(f, fm(T), E.n as int, E.m as int);
    }
    assert forall|Ut: CM<F>, Et: CM<F>, Y: CM<F>, R: CM<F>| #[trigger] is_tj(Ut, L) && #[trigger] is_tj(Et, E) && #[trigger] elc_of(Et, Ut, Y) && #[trigger] is_tj(R, Y) implies cmr_of(false, L, E, R) by { lel_from(L, E, Ut, Et, Y, R); }
}
@end
@fn pivot_ind(CM<F>, usize) as pivot_ind
@prop P07
@requires
  j < E.col@.len()
@ensures
  ret == if E.col@[j as int].indval@.len() == 0 { NO_IND } else { E.col@[j as int].indval@[0].ind }
@fn extract_row_scale(&mut CM<F>) as extract_row_scale
@prop P07
@requires
  cmwf(*old(E)), exists|r: int| el_form(*old(E), r)
@ensures
  ers_of(*old(E), *final(E), ret@)
@at entry
  let ghost E0 = *E;
  let ghost r = choose|r: int| el_form(E0, r);
  proof { F::ax_one_ne_zero(); }
@loop 0
  invariant 0 <= j <= n, n == E0.n, m == E0.m, cmwf(E0), el_form(E0, r), E.m == E0.m, E.n == E0.n, E.col@.len() == n, coeff@.len() == m, forall|c: int| j <= c < n ==> #[trigger] E.col@[c] == E0.col@[c],
    forall|c: int| 0 <= c < j ==> #[trigger] ers_col(E0, *E, coeff@, c), forall|i: int| 0 <= i < m ==> #[trigger] coeff@[i] != F::szero()
  decreases n - j
@at loop 0 begin
  let ghost EB = *E;
  let ghost cB = coeff@;
  proof { assert(E.col@[j as int] == E0.col@[j as int]); if E0.col@[j as int].indval@.len() > 0 { sc_some(E0.col@[j as int].indval@, m as int, 0); } }
@at loop 0 end
  proof {
      assert forall|c: int| 0 <= c < j + 1 implies #[trigger] ers_col(E0, *E, coeff@, c) by {
          if c < j { assert(ers_col(E0, EB, cB, c)); assert(E.col@[c] == EB.col@[c]); if E0.col@[c].indval@.len() > 0 && E0.col@[j as int].indval@.len() > 0 { assert(c < r); assert(j < r) by { if j >= r { assert(E0.col@[j as int].indval@.len() == 0); } } assert(E0.col@[c].indval@[0].ind < E0.col@[j as int].indval@[0].ind); sc_some(E0.col@[c].indval@, m as int, 0); } }
      }
  }
@fn EL_L_commute(CM<F>, CM<F>) as el_l_commute
@prop P07
@requires
  cmwf(*E), elv(fm(*E), E.m as int, E.n as int), trimat(false, *L), L.n == E.n
@ensures
  elc_of(*E, *L, ret)
@at entry
  let ghost r = el_store(*E);
  let ghost pv = pvs(*E, r);
@at after extract_row_scale 0
  let ghost EL1 = EL;
@at loop 0 before
  proof { vec_max(coeff); }
@loop 0
  invariant 0 <= j <= n, n == E.n, idx_map@.len() == n, forall|k: int| 0 <= k < j ==> #[trigger] idx_map@[k] == if k < r { E.col@[k].indval@[0].ind } else { NO_IND }
  decreases n - j
@at loop 0 begin
  proof { assert(ers_col(*E, EL, coeff@, j as int)); if j < r { assert(E.col@[j as int].indval@.len() == 1); } else { assert(E.col@[j as int].indval@.len() == 0); } }
@at loop 0 after
  proof { assert forall|k: int| 0 <= k < r implies #[trigger] idx_map@[k] == pv[k] && idx_map@[k] < m && idx_map@[k] != NO_IND by { assert(0 <= pv[k] < m); } }
@at loop 1 before
  proof { lt_start(Ltilde, *L, m as int, pv); }
@loop 1
  invariant_except_break lt_at(Ltilde, *L, m as int, pv, ell as int)
  invariant 0 <= ell <= n, ell <= r
  ensures lt_at(Ltilde, *L, m as int, pv, r)
  decreases n - ell
@at before sv_clear 0
  let ghost TB = Ltilde;
  proof { lt_dims(Ltilde, *L, m as int, pv, ell as int); assert(pv[ell as int] == idx_map@[ell as int]); }
@loop 2
  invariant 0 <= it <= L.col@[ell as int].indval@.len(), j_ell == pv[ell as int], Ltilde.m == m, Ltilde.n == m, Ltilde.col@.len() == m, forall|j: int| 0 <= j < m && j != pv[ell as int] ==> #[trigger] Ltilde.col@[j] == TB.col@[j], mvd(Ltilde.col@[j_ell as int].indval@, L.col@[ell as int].indval@, pv, it as int)
  decreases L.col@[ell as int].indval@.len() - it
@at loop 1 end
  proof { lt_step(TB, Ltilde, *L, m as int, pv, ell as int); }
@at before cm_row_scale 0
  let ghost XG = Ltilde;
  proof { lt_done(Ltilde, *L, m as int, pv); }
@at before return 0
  proof { elc_done(*E, EL1, *L, XG, Ltilde, coeff@, r); }
@fn L_EL_commute(CM<F>, CM<F>) as l_el_commute
@prop P07
@requires
  cmwf(*EL), trimat(false, *L), L.n == EL.m, elv(tp(jc(EL.m as int, EL.n as int, fm(*EL))), EL.n as int, EL.m as int)
@ensures
  cmr_of(false, *L, *EL, ret)
@at entry
  proof { all_tj::<F>(); lel_all(*L, *EL); }
@fn U_EU_commute(CM<F>, CM<F>) as u_eu_commute
@prop P07
@requires
  cmwf(*EU), trimat(true, *U), U.n == EU.m, elv(tp(fm(*EU)), EU.n as int, EU.m as int)
@ensures
  cmr_of(true, *U, *EU, ret)
@at entry
  proof { ueu_all(*U, *EU); }
@fn EU_U_commute(CM<F>, CM<F>) as eu_u_commute
@prop P07
@requires
  cmwf(*EU), trimat(true, *U), U.n == EU.n, elv(jc(EU.m as int, EU.n as int, fm(*EU)), EU.m as int, EU.n as int)
@ensures
  cml_of(true, *EU, *U, ret)
@at entry
  proof { euu_all(*EU, *U); }
