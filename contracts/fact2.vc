@unit la
@uses fact hom_red rcc_perm
@rust
// ---- products of four matrices, transposed and conjugated by J ----
pub open spec fn tp<F: Field>(f: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { |i: int, j: int| f(j, i) }
pub open spec fn jc<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { |i: int, j: int| f(m - 1 - i, n - 1 - j) }
pub open spec fn feq<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F) -> bool { forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] f(i, j) == g(i, j) }
pub proof fn mm_ext<F: Field>(m: int, n: int, p: int, A: spec_fn(int, int) -> F, A2: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, B2: spec_fn(int, int) -> F)
    requires feq(m, n, A, A2), feq(n, p, B, B2)
    ensures feq(m, p, mm(n, A, B), mm(n, A2, B2))
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < p implies #[trigger] mm(n, A, B)(i, j) == mm(n, A2, B2)(i, j) by { assert forall|k: int| 0 <= k < n implies #[trigger] colf(B, j)(k) == colf(B2, j)(k) by { assert(B(k, j) == B2(k, j)); } mq_ext(n, A, A2, colf(B, j), colf(B2, j), i); } }
pub proof fn mm_assoc<F: Field>(m: int, n: int, l: int, p: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F)
    requires n >= 0, l >= 0
    ensures feq(m, p, mm(l, mm(n, A, B), C), mm(n, A, mm(l, B, C)))
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < p implies #[trigger] mm(l, mm(n, A, B), C)(i, j) == mm(n, A, mm(l, B, C))(i, j) by { mq_assoc(n, A, l, B, colf(C, j), i); mq_ext(n, A, A, |k: int| mq(l, B, colf(C, j), k), colf(mm(l, B, C), j), i); } }
pub proof fn mm_tp<F: Field>(m: int, n: int, p: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F)
    ensures feq(p, m, tp(mm(n, A, B)), mm(n, tp(B), tp(A)))
{
    broadcast use field_basic;
    assert forall|i: int, j: int| 0 <= i < p && 0 <= j < m implies #[trigger] tp(mm(n, A, B))(i, j) == mm(n, tp(B), tp(A))(i, j) by {
        let f = mqf(A, colf(B, i), j); let g = mqf(tp(B), colf(tp(A), j), i);
        assert forall|k: int| 0 <= k < n implies #[trigger] f(k) == g(k) by { F::ax_mul_comm(B(k, i), A(j, k)); }
        fsum_ext(n, f, g);
    }
}
pub proof fn fsum_rev<F: Field>(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F)
    requires 0 <= n <= usize::MAX, forall|k: int| 0 <= k < n ==> #[trigger] g(k) == f(n - 1 - k)
    ensures fsum(n, f) == fsum(n, g)
{ let p = Seq::new(n as nat, |k: int| (n - 1 - k) as usize); fsum_perm(n, p, f, g); }
pub proof fn mm_jc<F: Field>(m: int, n: int, p: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F)
    requires 0 <= n <= usize::MAX
    ensures feq(m, p, jc(m, p, mm(n, A, B)), mm(n, jc(m, n, A), jc(n, p, B)))
{
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < p implies #[trigger] jc(m, p, mm(n, A, B))(i, j) == mm(n, jc(m, n, A), jc(n, p, B))(i, j) by {
        fsum_rev(n, mqf(A, colf(B, p - 1 - j), m - 1 - i), mqf(jc(m, n, A), colf(jc(n, p, B), j), i));
    }
}
pub open spec fn p4<F: Field>(k1: int, k2: int, k3: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, D: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { mm(k3, mm(k2, mm(k1, A, B), C), D) }
pub proof fn feq_trans<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, h: spec_fn(int, int) -> F) requires feq(m, n, f, g), feq(m, n, g, h) ensures feq(m, n, f, h)
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] f(i, j) == h(i, j) by { assert(g(i, j) == h(i, j)); } }
pub proof fn feq_refl<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F) ensures feq(m, n, f, f) { }
pub proof fn feq_sym<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F) requires feq(m, n, f, g) ensures feq(m, n, g, f) 
{ assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] g(i, j) == f(i, j) by { assert(f(i, j) == g(i, j)); } }
pub proof fn p4_ext<F: Field>(m: int, k1: int, k2: int, k3: int, n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, D: spec_fn(int, int) -> F, A2: spec_fn(int, int) -> F, B2: spec_fn(int, int) -> F, C2: spec_fn(int, int) -> F, D2: spec_fn(int, int) -> F)
    requires feq(m, k1, A, A2), feq(k1, k2, B, B2), feq(k2, k3, C, C2), feq(k3, n, D, D2)
    ensures feq(m, n, p4(k1, k2, k3, A, B, C, D), p4(k1, k2, k3, A2, B2, C2, D2))
{ mm_ext(m, k1, k2, A, A2, B, B2); mm_ext(m, k2, k3, mm(k1, A, B), mm(k1, A2, B2), C, C2); mm_ext(m, k3, n, mm(k2, mm(k1, A, B), C), mm(k2, mm(k1, A2, B2), C2), D, D2); }
// (((A B) C) D)^T == ((D^T C^T) B^T) A^T
pub proof fn p4_tp<F: Field>(m: int, k1: int, k2: int, k3: int, n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, D: spec_fn(int, int) -> F)
    requires k1 >= 0, k2 >= 0, k3 >= 0
    ensures feq(n, m, tp(p4(k1, k2, k3, A, B, C, D)), p4(k3, k2, k1, tp(D), tp(C), tp(B), tp(A)))
{
    let ab = mm(k1, A, B); let abc = mm(k2, ab, C); let t = tp(D);
    mm_tp(m, k3, n, abc, D);
    // D^T (ab C)^T
    mm_tp(m, k2, k3, ab, C); feq_refl(n, k3, t); mm_ext(n, k3, m, t, t, tp(abc), mm(k2, tp(C), tp(ab)));
    feq_trans(n, m, tp(p4(k1, k2, k3, A, B, C, D)), mm(k3, t, tp(abc)), mm(k3, t, mm(k2, tp(C), tp(ab))));
    mm_assoc(n, k3, k2, m, t, tp(C), tp(ab)); let dc = mm(k3, t, tp(C));
    feq_sym(n, m, mm(k2, dc, tp(ab)), mm(k3, t, mm(k2, tp(C), tp(ab))));
    feq_trans(n, m, tp(p4(k1, k2, k3, A, B, C, D)), mm(k3, t, mm(k2, tp(C), tp(ab))), mm(k2, dc, tp(ab)));
    mm_tp(m, k1, k2, A, B); feq_refl(n, k2, dc); mm_ext(n, k2, m, dc, dc, tp(ab), mm(k1, tp(B), tp(A)));
    feq_trans(n, m, tp(p4(k1, k2, k3, A, B, C, D)), mm(k2, dc, tp(ab)), mm(k2, dc, mm(k1, tp(B), tp(A))));
    mm_assoc(n, k2, k1, m, dc, tp(B), tp(A));
    feq_sym(n, m, mm(k1, mm(k2, dc, tp(B)), tp(A)), mm(k2, dc, mm(k1, tp(B), tp(A))));
    feq_trans(n, m, tp(p4(k1, k2, k3, A, B, C, D)), mm(k2, dc, mm(k1, tp(B), tp(A))), mm(k1, mm(k2, dc, tp(B)), tp(A)));
}
pub proof fn p4_jc<F: Field>(m: int, k1: int, k2: int, k3: int, n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, D: spec_fn(int, int) -> F)
    requires 0 <= k1 <= usize::MAX, 0 <= k2 <= usize::MAX, 0 <= k3 <= usize::MAX
    ensures feq(m, n, jc(m, n, p4(k1, k2, k3, A, B, C, D)), p4(k1, k2, k3, jc(m, k1, A), jc(k1, k2, B), jc(k2, k3, C), jc(k3, n, D)))
{
    let ab = mm(k1, A, B); let abc = mm(k2, ab, C); let ja = jc(m, k1, A); let jb = jc(k1, k2, B); let j3 = jc(k2, k3, C); let jd = jc(k3, n, D);
    mm_jc(m, k1, k2, A, B); feq_refl(k2, k3, j3); mm_ext(m, k2, k3, jc(m, k2, ab), mm(k1, ja, jb), j3, j3);
    mm_jc(m, k2, k3, ab, C); feq_trans(m, k3, jc(m, k3, abc), mm(k2, jc(m, k2, ab), j3), mm(k2, mm(k1, ja, jb), j3));
    feq_refl(k3, n, jd); mm_ext(m, k3, n, jc(m, k3, abc), mm(k2, mm(k1, ja, jb), j3), jd, jd);
    mm_jc(m, k3, n, abc, D); feq_trans(m, n, jc(m, n, p4(k1, k2, k3, A, B, C, D)), mm(k3, jc(m, k3, abc), jd), p4(k1, k2, k3, ja, jb, j3, jd));
}
// ---- shapes ----
pub open spec fn dims<F: Field>(A: CM<F>, m: int, n: int) -> bool { cmwf(A) && A.m == m && A.n == n }
pub open spec fn ul<F: Field>(L: CM<F>, n: int) -> bool { dims(L, n, n) && lshape(L, n) }
pub open spec fn uu<F: Field>(U: CM<F>, n: int) -> bool { dims(U, n, n) && ushape(U, n) }
pub open spec fn pm<F: Field>(P: CM<F>, n: int) -> bool { dims(P, n, n) && is_pmat(P) }
pub open spec fn sincr(pv: Seq<int>, m: int) -> bool { (forall|a: int, b: int| 0 <= a < b < pv.len() ==> #[trigger] pv[a] < #[trigger] pv[b]) && forall|a: int| 0 <= a < pv.len() ==> 0 <= #[trigger] pv[a] < m }
// the first columns have one nonzero entry each, in increasing rows; the others are zero
pub open spec fn el_at<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int, pv: Seq<int>) -> bool { pv.len() <= n && sincr(pv, m) && forall|t: int, k: int| 0 <= t < m && 0 <= k < n ==> ((#[trigger] f(t, k)) != F::szero() <==> k < pv.len() && t == pv[k]) }
pub open spec fn elv<F: Field>(f: spec_fn(int, int) -> F, m: int, n: int) -> bool { exists|pv: Seq<int>| el_at(f, m, n, pv) }
pub proof fn el_value<F: Field>(E: CM<F>) requires cmwf(E), is_el(E) ensures elv(fm(E), E.m as int, E.n as int)
{
    let r = choose|r: int| el_form(E, r); let pv = Seq::new(r as nat, |k: int| E.col@[k].indval@[0].ind as int); let m = E.m as int;
    assert forall|a: int| 0 <= a < pv.len() implies 0 <= #[trigger] pv[a] < m by { assert(E.col@[a].indval@.len() == 1); sc_some(E.col@[a].indval@, m, 0); }
    assert forall|t: int, k: int| 0 <= t < m && 0 <= k < E.n implies ((#[trigger] fm(E)(t, k)) != F::szero() <==> k < pv.len() && t == pv[k]) by {
        let s = E.col@[k].indval@; if k < r { assert(E.col@[k].indval@.len() == 1); sc_some(s, m, 0); single_val(s); assert(cmv(E, t, k) == sval(s, t)); } else { assert(E.col@[k].indval@.len() == 0); sval_absent(s, t); }
    }
    assert(el_at(fm(E), m, E.n as int, pv));
}
pub proof fn elv_ext<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int) requires elv(f, m, n), feq(m, n, g, f) ensures elv(g, m, n)
{ let pv = choose|pv: Seq<int>| el_at(f, m, n, pv); assert forall|t: int, k: int| 0 <= t < m && 0 <= k < n implies ((#[trigger] g(t, k)) != F::szero() <==> k < pv.len() && t == pv[k]) by { assert(g(t, k) == f(t, k)); } assert(el_at(g, m, n, pv)); }
pub proof fn kdel_out<F: Field>(A: CM<F>, n: int) requires dims(A, n, n) ensures forall|r: int, c: int| 0 <= c < n && (r < 0 || r >= n) ==> #[trigger] cmv(A, r, c) == F::szero()
{ assert forall|r: int, c: int| 0 <= c < n && (r < 0 || r >= n) implies #[trigger] cmv(A, r, c) == F::szero() by { sval_out(A.col@[c].indval@, n); } }
pub proof fn shape_t<F: Field>(A: CM<F>, T: CM<F>, n: int) requires dims(A, n, n), is_transpose(T, A) ensures ul(A, n) ==> uu(T, n), uu(A, n) ==> ul(T, n), pm(A, n) ==> pm(T, n), feq(n, n, fm(T), tp(fm(A)))
{
    kdel_out(A, n); kdel_out(T, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(T)(i, j) == tp(fm(A))(i, j) by { assert(cmv(T, i, j) == cmv(A, j, i)); }
    if ul(A, n) { assert forall|k: int, c: int| 0 <= c < n && (c >= n || k >= c) implies #[trigger] cmv(T, k, c) == kdel::<F>(k, c) by { if k < n { assert(cmv(T, k, c) == cmv(A, c, k)); assert(cmv(A, c, k) == kdel::<F>(c, k)); } } }
    if uu(A, n) { assert forall|r: int, t: int| 0 <= t < n && (t >= n || r <= t) implies #[trigger] cmv(T, r, t) == kdel::<F>(r, t) by { if r >= 0 { assert(cmv(T, r, t) == cmv(A, t, r)); assert(cmv(A, t, r) == kdel::<F>(t, r)); } } }
    if pm(A, n) {
        let sg = choose|sg: Seq<int>| #[trigger] injperm(sg, A.n as int) && permcols(A, sg);
        let iv = Seq::new(n as nat, |c: int| perm_pre(sg, n, c));
        assert forall|c: int| 0 <= c < n implies 0 <= #[trigger] iv[c] < n && sg[iv[c]] == c by { perm_pre_ok(sg, n, c); }
        assert(injperm(iv, n));
        assert(permcols(T, iv)) by { assert forall|r: int, c: int| 0 <= c < T.n implies #[trigger] cmv(T, r, c) == kdel::<F>(r, iv[c]) by {
            if 0 <= r < n { assert(cmv(T, r, c) == cmv(A, c, r)); assert(cmv(A, c, r) == kdel::<F>(c, sg[r])); if sg[r] == c && r != iv[c] { if r < iv[c] { assert(sg[r] != sg[iv[c]]); } else { assert(sg[iv[c]] != sg[r]); } } } } }
        assert(injperm(iv, T.n as int));
    }
}
pub proof fn shape_j<F: Field>(A: CM<F>, T: CM<F>, n: int) requires dims(A, n, n), is_jconj(T, A) ensures ul(A, n) ==> uu(T, n), uu(A, n) ==> ul(T, n), pm(A, n) ==> pm(T, n), feq(n, n, fm(T), jc(n, n, fm(A)))
{
    kdel_out(A, n); kdel_out(T, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(T)(i, j) == jc(n, n, fm(A))(i, j) by { assert(cmv(T, i, j) == cmv(A, n - 1 - i, n - 1 - j)); }
    if ul(A, n) { assert forall|k: int, c: int| 0 <= c < n && (c >= n || k >= c) implies #[trigger] cmv(T, k, c) == kdel::<F>(k, c) by { if k < n { assert(cmv(T, k, c) == cmv(A, n - 1 - k, n - 1 - c)); assert(cmv(A, n - 1 - k, n - 1 - c) == kdel::<F>(n - 1 - k, n - 1 - c)); } } }
    if uu(A, n) { assert forall|r: int, t: int| 0 <= t < n && (t >= n || r <= t) implies #[trigger] cmv(T, r, t) == kdel::<F>(r, t) by { if r >= 0 { assert(cmv(T, r, t) == cmv(A, n - 1 - r, n - 1 - t)); assert(cmv(A, n - 1 - r, n - 1 - t) == kdel::<F>(n - 1 - r, n - 1 - t)); } } }
    if pm(A, n) {
        let sg = choose|sg: Seq<int>| #[trigger] injperm(sg, A.n as int) && permcols(A, sg);
        let iv = Seq::new(n as nat, |c: int| n - 1 - sg[n - 1 - c]);
        assert(injperm(iv, n)) by { assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] iv[a] != #[trigger] iv[b] by { assert(sg[n - 1 - b] != sg[n - 1 - a]); } }
        assert(permcols(T, iv)) by { assert forall|r: int, c: int| 0 <= c < T.n implies #[trigger] cmv(T, r, c) == kdel::<F>(r, iv[c]) by { assert(0 <= sg[n - 1 - c] < n); if 0 <= r < n { assert(cmv(T, r, c) == cmv(A, n - 1 - r, n - 1 - c)); assert(cmv(A, n - 1 - r, n - 1 - c) == kdel::<F>(n - 1 - r, sg[n - 1 - c])); } } }
        assert(injperm(iv, T.n as int));
    }
}
pub proof fn feq_t<F: Field>(A: CM<F>, T: CM<F>) requires is_transpose(T, A) ensures feq(A.n as int, A.m as int, fm(T), tp(fm(A)))
{ assert forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.m implies #[trigger] fm(T)(i, j) == tp(fm(A))(i, j) by { assert(cmv(T, i, j) == cmv(A, j, i)); } }
pub proof fn feq_j<F: Field>(A: CM<F>, T: CM<F>) requires is_jconj(T, A) ensures feq(A.m as int, A.n as int, fm(T), jc(A.m as int, A.n as int, fm(A)))
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n implies #[trigger] fm(T)(i, j) == jc(A.m as int, A.n as int, fm(A))(i, j) by { assert(cmv(T, i, j) == cmv(A, A.m - 1 - i, A.n - 1 - j)); } }
// ---- the four factorizations ----
pub open spec fn pleu_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    pm(S.P, m) && ul(S.L, m) && dims(S.E, m, n) && elv(tp(fm(S.E)), n, m) && uu(S.U, n) && feq(m, n, fm(A), p4(m, m, n, fm(S.P), fm(S.L), fm(S.E), fm(S.U)))
}
pub open spec fn uelp_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    uu(S.U, m) && dims(S.E, m, n) && elv(jc(m, n, fm(S.E)), m, n) && ul(S.L, n) && pm(S.P, n) && feq(m, n, fm(A), p4(m, n, n, fm(S.U), fm(S.E), fm(S.L), fm(S.P)))
}
pub open spec fn puel_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    pm(S.P, m) && uu(S.U, m) && dims(S.E, m, n) && elv(tp(jc(m, n, fm(S.E))), n, m) && ul(S.L, n) && feq(m, n, fm(A), p4(m, m, n, fm(S.P), fm(S.U), fm(S.E), fm(S.L)))
}
pub open spec fn leup_at<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    let m = A.m as int; let n = A.n as int;
    ul(S.L, m) && dims(S.E, m, n) && elv(fm(S.E), m, n) && uu(S.U, n) && pm(S.P, n) && feq(m, n, fm(A), p4(m, n, n, fm(S.L), fm(S.E), fm(S.U), fm(S.P)))
}
pub proof fn leup_ats<F: Field>(A: CM<F>, S: SFact<F>) requires leup_of(A, S) ensures leup_at(A, S)
{ el_value(S.E); assert forall|r: int, c: int| 0 <= r < A.m && 0 <= c < A.n implies #[trigger] fm(A)(r, c) == p4(A.m as int, A.n as int, A.n as int, fm(S.L), fm(S.E), fm(S.U), fm(S.P))(r, c) by { assert(cmv(A, r, c) == prod4(A.m as int, S.L, A.n as int, S.E, A.n as int, S.U, S.P)(r, c)); } }
// S factors A^T as L E U P; R holds the transposes
pub proof fn pleu_from<F: Field>(A: CM<F>, At: CM<F>, S: SFact<F>, R: SFact<F>)
    requires cmwf(A), is_transpose(At, A), leup_at(At, S), is_transpose(R.E, S.E), is_transpose(R.P, S.P), is_transpose(R.U, S.L), is_transpose(R.L, S.U)
    ensures pleu_of(A, R)
{
    let m = A.m as int; let n = A.n as int;
    shape_t(S.P, R.P, m); shape_t(S.L, R.U, n); shape_t(S.U, R.L, m); feq_t(S.E, R.E); feq_t(A, At);
    let f = p4(n, m, m, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    p4_tp(n, n, m, m, m, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    let g = p4(m, m, n, tp(fm(S.P)), tp(fm(S.U)), tp(fm(S.E)), tp(fm(S.L))); let h = p4(m, m, n, fm(R.P), fm(R.L), fm(R.E), fm(R.U));
    p4_ext(m, m, m, n, n, fm(R.P), fm(R.L), fm(R.E), fm(R.U), tp(fm(S.P)), tp(fm(S.U)), tp(fm(S.E)), tp(fm(S.L)));
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(A)(i, j) == h(i, j) by { assert(cmv(At, j, i) == cmv(A, i, j)); assert(fm(At)(j, i) == f(j, i)); assert(tp(f)(i, j) == g(i, j)); assert(h(i, j) == g(i, j)); }
    assert(feq(n, m, tp(fm(R.E)), fm(S.E))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] tp(fm(R.E))(i, j) == fm(S.E)(i, j) by { assert(cmv(R.E, j, i) == cmv(S.E, i, j)); } }
    elv_ext(fm(S.E), tp(fm(R.E)), n, m);
}
pub proof fn uelp_from<F: Field>(A: CM<F>, Aj: CM<F>, S: SFact<F>, R: SFact<F>)
    requires cmwf(A), is_jconj(Aj, A), leup_at(Aj, S), is_jconj(R.E, S.E), is_jconj(R.P, S.P), is_jconj(R.U, S.L), is_jconj(R.L, S.U)
    ensures uelp_of(A, R)
{
    let m = A.m as int; let n = A.n as int;
    shape_j(S.P, R.P, n); shape_j(S.L, R.U, m); shape_j(S.U, R.L, n); feq_j(S.E, R.E); feq_j(A, Aj);
    let f = p4(m, n, n, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    p4_jc(m, m, n, n, n, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    let g = p4(m, n, n, jc(m, m, fm(S.L)), jc(m, n, fm(S.E)), jc(n, n, fm(S.U)), jc(n, n, fm(S.P))); let h = p4(m, n, n, fm(R.U), fm(R.E), fm(R.L), fm(R.P));
    p4_ext(m, m, n, n, n, fm(R.U), fm(R.E), fm(R.L), fm(R.P), jc(m, m, fm(S.L)), jc(m, n, fm(S.E)), jc(n, n, fm(S.U)), jc(n, n, fm(S.P)));
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(A)(i, j) == h(i, j) by { let i2 = m - 1 - i; let j2 = n - 1 - j; assert(cmv(Aj, i2, j2) == cmv(A, i, j)); assert(fm(Aj)(i2, j2) == f(i2, j2)); assert(jc(m, n, f)(i, j) == g(i, j)); assert(h(i, j) == g(i, j)); }
    assert(feq(m, n, jc(m, n, fm(R.E)), fm(S.E))) by { assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] jc(m, n, fm(R.E))(i, j) == fm(S.E)(i, j) by { assert(cmv(R.E, m - 1 - i, n - 1 - j) == cmv(S.E, i, j)); } }
    elv_ext(fm(S.E), jc(m, n, fm(R.E)), m, n);
}
// T is J A^T J
pub open spec fn is_tj<F: Field>(T: CM<F>, A: CM<F>) -> bool { cmwf(T) && T.m == A.n && T.n == A.m && forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.m ==> #[trigger] cmv(T, i, j) == cmv(A, A.m - 1 - j, A.n - 1 - i) }
pub proof fn tj_jt<F: Field>(T: CM<F>, X: CM<F>, A: CM<F>) requires (is_transpose(X, A) && is_jconj(T, X)) || (is_jconj(X, A) && is_transpose(T, X)) ensures is_tj(T, A)
{
    assert forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.m implies #[trigger] cmv(T, i, j) == cmv(A, A.m - 1 - j, A.n - 1 - i) by {
        if is_transpose(X, A) && is_jconj(T, X) { assert(cmv(T, i, j) == cmv(X, A.n - 1 - i, A.m - 1 - j)); assert(cmv(X, A.n - 1 - i, A.m - 1 - j) == cmv(A, A.m - 1 - j, A.n - 1 - i)); }
        else { assert(cmv(T, i, j) == cmv(X, j, i)); assert(cmv(X, j, i) == cmv(A, A.m - 1 - j, A.n - 1 - i)); }
    }
}
pub proof fn shape_tj<F: Field>(A: CM<F>, T: CM<F>, n: int) requires dims(A, n, n), is_tj(T, A) ensures ul(A, n) ==> ul(T, n), uu(A, n) ==> uu(T, n), pm(A, n) ==> pm(T, n)
{
    kdel_out(A, n); kdel_out(T, n);
    if ul(A, n) { assert forall|r: int, t: int| 0 <= t < n && (t >= n || r <= t) implies #[trigger] cmv(T, r, t) == kdel::<F>(r, t) by { if r >= 0 { assert(cmv(T, r, t) == cmv(A, n - 1 - t, n - 1 - r)); assert(cmv(A, n - 1 - t, n - 1 - r) == kdel::<F>(n - 1 - t, n - 1 - r)); } } }
    if uu(A, n) { assert forall|k: int, c: int| 0 <= c < n && (c >= n || k >= c) implies #[trigger] cmv(T, k, c) == kdel::<F>(k, c) by { if k < n { assert(cmv(T, k, c) == cmv(A, n - 1 - c, n - 1 - k)); assert(cmv(A, n - 1 - c, n - 1 - k) == kdel::<F>(n - 1 - c, n - 1 - k)); } } }
    if pm(A, n) {
        let sg = choose|sg: Seq<int>| #[trigger] injperm(sg, A.n as int) && permcols(A, sg);
        let iv = Seq::new(n as nat, |c: int| n - 1 - perm_pre(sg, n, n - 1 - c));
        assert forall|c: int| 0 <= c < n implies 0 <= #[trigger] iv[c] < n && sg[n - 1 - iv[c]] == n - 1 - c by { perm_pre_ok(sg, n, n - 1 - c); }
        assert(injperm(iv, n)) by { assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] iv[a] != #[trigger] iv[b] by { assert(sg[n - 1 - iv[a]] == n - 1 - a); assert(sg[n - 1 - iv[b]] == n - 1 - b); } }
        assert(permcols(T, iv)) by { assert forall|r: int, c: int| 0 <= c < T.n implies #[trigger] cmv(T, r, c) == kdel::<F>(r, iv[c]) by {
            if 0 <= r < n { let a = n - 1 - r; let b = n - 1 - c; let q = n - 1 - iv[c]; assert(cmv(T, r, c) == cmv(A, b, a)); assert(cmv(A, b, a) == kdel::<F>(b, sg[a])); if sg[a] == b && a != q { if a < q { assert(sg[a] != sg[q]); } else { assert(sg[q] != sg[a]); } } } else { assert(0 <= iv[c] < n); } } }
        assert(injperm(iv, T.n as int));
    }
}
pub proof fn puel_from<F: Field>(A: CM<F>, B: CM<F>, S: SFact<F>, R: SFact<F>)
    requires cmwf(A), is_tj(B, A), leup_at(B, S), is_tj(R.E, S.E), is_tj(R.P, S.P), is_tj(R.U, S.U), is_tj(R.L, S.L)
    ensures puel_of(A, R)
{
    let m = A.m as int; let n = A.n as int;
    shape_tj(S.P, R.P, m); shape_tj(S.L, R.L, n); shape_tj(S.U, R.U, m);
    let f = p4(n, m, m, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    p4_tp(n, n, m, m, m, fm(S.L), fm(S.E), fm(S.U), fm(S.P));
    let g = p4(m, m, n, tp(fm(S.P)), tp(fm(S.U)), tp(fm(S.E)), tp(fm(S.L)));
    p4_jc(m, m, m, n, n, tp(fm(S.P)), tp(fm(S.U)), tp(fm(S.E)), tp(fm(S.L)));
    let a = jc(m, m, tp(fm(S.P))); let b = jc(m, m, tp(fm(S.U))); let c = jc(m, n, tp(fm(S.E))); let d = jc(n, n, tp(fm(S.L)));
    let g2 = p4(m, m, n, a, b, c, d); let h = p4(m, m, n, fm(R.P), fm(R.U), fm(R.E), fm(R.L));
    tj_feq(S.P, R.P); tj_feq(S.U, R.U); tj_feq(S.E, R.E); tj_feq(S.L, R.L);
    p4_ext(m, m, m, n, n, fm(R.P), fm(R.U), fm(R.E), fm(R.L), a, b, c, d);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(A)(i, j) == h(i, j) by { let i2 = m - 1 - i; let j2 = n - 1 - j; assert(cmv(B, j2, i2) == cmv(A, i, j)); assert(fm(B)(j2, i2) == f(j2, i2)); assert(tp(f)(i2, j2) == g(i2, j2)); assert(jc(m, n, g)(i, j) == g2(i, j)); assert(h(i, j) == g2(i, j)); }
    let e = tp(jc(m, n, fm(R.E)));
    assert(feq(n, m, e, fm(S.E))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] e(i, j) == fm(S.E)(i, j) by { assert(cmv(R.E, m - 1 - j, n - 1 - i) == cmv(S.E, i, j)); } }
    elv_ext(fm(S.E), e, n, m);
}
pub proof fn tj_feq<F: Field>(A: CM<F>, T: CM<F>) requires is_tj(T, A) ensures feq(A.n as int, A.m as int, fm(T), jc(A.n as int, A.m as int, tp(fm(A))))
{ let g = jc(A.n as int, A.m as int, tp(fm(A))); assert forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.m implies #[trigger] fm(T)(i, j) == g(i, j) by { assert(cmv(T, i, j) == cmv(A, A.m - 1 - j, A.n - 1 - i)); } }
pub proof fn prod_feq<F: Field>(C: CM<F>, A: CM<F>, B: CM<F>) requires mulof(C, A, B) ensures feq(A.m as int, B.n as int, fm(C), mm(A.n as int, fm(A), fm(B)))
{ assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < B.n implies #[trigger] fm(C)(i, j) == mm(A.n as int, fm(A), fm(B))(i, j) by { prod_mm(A, B, i, j); assert(cmv(C, i, j) == prodv(A.col@, A.n as int, B.col@, i, j)); } }
pub proof fn prod3_feq<F: Field>(Y: CM<F>, X: CM<F>, A: CM<F>, B: CM<F>, C: CM<F>) requires mulof(X, A, B), mulof(Y, X, C)
    ensures feq(A.m as int, C.n as int, fm(Y), mm(C.m as int, mm(A.n as int, fm(A), fm(B)), fm(C)))
{ let m = A.m as int; let k = C.m as int; let n = C.n as int; prod_feq(X, A, B); prod_feq(Y, X, C); feq_refl(k, n, fm(C)); let ab = mm(A.n as int, fm(A), fm(B)); mm_ext(m, k, n, fm(X), ab, fm(C), fm(C)); feq_trans(m, n, fm(Y), mm(k, fm(X), fm(C)), mm(k, ab, fm(C))); }
pub proof fn prod4_feq<F: Field>(Z: CM<F>, Y: CM<F>, X: CM<F>, A: CM<F>, B: CM<F>, C: CM<F>, D: CM<F>) requires mulof(X, A, B), mulof(Y, X, C), mulof(Z, Y, D)
    ensures feq(A.m as int, D.n as int, fm(Z), p4(A.n as int, B.n as int, C.n as int, fm(A), fm(B), fm(C), fm(D)))
{ let m = A.m as int; let k = D.m as int; let n = D.n as int; prod3_feq(Y, X, A, B, C); prod_feq(Z, Y, D); feq_refl(k, n, fm(D)); let abc = mm(C.m as int, mm(A.n as int, fm(A), fm(B)), fm(C)); mm_ext(m, k, n, fm(Y), abc, fm(D), fm(D)); feq_trans(m, n, fm(Z), mm(k, fm(Y), fm(D)), mm(k, abc, fm(D))); }
pub proof fn all_mm4<F: Field>(A: CM<F>, B: CM<F>, C: CM<F>, D: CM<F>)
    ensures forall|Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) ==> feq(A.m as int, C.n as int, fm(Y), mm(C.m as int, mm(A.n as int, fm(A), fm(B)), fm(C))),
        forall|Z: CM<F>, Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) && #[trigger] mulof(Z, Y, D) ==> feq(A.m as int, D.n as int, fm(Z), p4(A.n as int, B.n as int, C.n as int, fm(A), fm(B), fm(C), fm(D)))
{
    assert forall|Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) implies feq(A.m as int, C.n as int, fm(Y), mm(C.m as int, mm(A.n as int, fm(A), fm(B)), fm(C))) by { prod3_feq(Y, X, A, B, C); }
    assert forall|Z: CM<F>, Y: CM<F>, X: CM<F>| #[trigger] mulof(X, A, B) && #[trigger] mulof(Y, X, C) && #[trigger] mulof(Z, Y, D) implies feq(A.m as int, D.n as int, fm(Z), p4(A.n as int, B.n as int, C.n as int, fm(A), fm(B), fm(C), fm(D))) by { prod4_feq(Z, Y, X, A, B, C, D); }
}
pub proof fn all_tj<F: Field>() ensures forall|T: CM<F>, X: CM<F>, A: CM<F>| #[trigger] is_transpose(X, A) && #[trigger] is_jconj(T, X) ==> is_tj(T, A), forall|T: CM<F>, X: CM<F>, A: CM<F>| #[trigger] is_jconj(X, A) && #[trigger] is_transpose(T, X) ==> is_tj(T, A)
{
    assert forall|T: CM<F>, X: CM<F>, A: CM<F>| #[trigger] is_transpose(X, A) && #[trigger] is_jconj(T, X) implies is_tj(T, A) by { tj_jt(T, X, A); }
    assert forall|T: CM<F>, X: CM<F>, A: CM<F>| #[trigger] is_jconj(X, A) && #[trigger] is_transpose(T, X) implies is_tj(T, A) by { tj_jt(T, X, A); }
}
@end
@fn LEUP(CM<F>) as leup
@prop P07
@requires
  cmwf(*A)
@ensures
  leup_of(*A, ret), leup_at(*A, ret)
@at before return 0
  proof { leup_ats(*A, F); }
@fn PLEU(CM<F>) as pleu
@prop P07
@requires
  cmwf(*A)
@ensures
  pleu_of(*A, ret)
@at after leup 0
  let ghost S0 = r_leup_0;
@at before return 0
  proof { pleu_from(*A, At, S0, F); }
@fn UELP(CM<F>) as uelp
@prop P07
@requires
  cmwf(*A)
@ensures
  uelp_of(*A, ret)
@at after cm_J_conj 0
  let ghost Aj = r_cm_J_conj_0;
@at after leup 0
  let ghost S0 = r_leup_0;
@at before return 0
  proof { uelp_from(*A, Aj, S0, F); }
@fn PUEL(CM<F>) as puel
@prop P07
@requires
  cmwf(*A)
@ensures
  puel_of(*A, ret)
@at after cm_T 0
  let ghost B = r_cm_T_0;
@at after leup 0
  let ghost S0 = r_leup_0;
@at before return 0
  proof { all_tj::<F>(); puel_from(*A, B, S0, F); }
@fn PLEU_inplace(&mut SFact<F>) as pleu_inplace
@prop P07
@requires
  cmwf(old(F).E), is_identn(old(F).L, old(F).E.n as int), is_identn(old(F).U, old(F).E.m as int), is_identn(old(F).P, old(F).E.m as int)
@ensures
  pleu_of(old(F).E, *final(F))
@at before leup_inplace 0
  let ghost At = F.E;
@at after leup_inplace 0
  let ghost S0 = *F;
  proof { leup_ats(At, S0); }
@at exit
  proof { pleu_from(old(F).E, At, S0, *F); }
@fn UELP_inplace(&mut SFact<F>) as uelp_inplace
@prop P07
@requires
  cmwf(old(F).E), is_identn(old(F).L, old(F).E.m as int), is_identn(old(F).U, old(F).E.n as int), is_identn(old(F).P, old(F).E.n as int)
@ensures
  uelp_of(old(F).E, *final(F))
@at before leup_inplace 0
  let ghost Aj = F.E;
@at after leup_inplace 0
  let ghost S0 = *F;
  proof { leup_ats(Aj, S0); }
@at exit
  proof { uelp_from(old(F).E, Aj, S0, *F); }
@fn PUEL_inplace(&mut SFact<F>) as puel_inplace
@prop P07
@requires
  cmwf(old(F).E), is_identn(old(F).L, old(F).E.n as int), is_identn(old(F).U, old(F).E.m as int), is_identn(old(F).P, old(F).E.m as int)
@ensures
  puel_of(old(F).E, *final(F))
@at before leup_inplace 0
  let ghost B = F.E;
  proof { all_tj::<F>(); assert(is_tj(B, old(F).E)); }
@at after leup_inplace 0
  let ghost S0 = *F;
  proof { leup_ats(B, S0); }
@at exit
  proof { all_tj::<F>(); puel_from(old(F).E, B, S0, *F); }
@fn SFact<F>::LEUP_prod() const as leup_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), cmwf(this.P), this.L.n == this.E.m, this.E.n == this.U.m, this.U.n == this.P.m
@ensures
  dims(ret, this.L.m as int, this.P.n as int), feq(this.L.m as int, this.P.n as int, fm(ret), p4(this.L.n as int, this.E.n as int, this.U.n as int, fm(this.L), fm(this.E), fm(this.U), fm(this.P)))
@at before return 0
  proof { all_mm4(this.L, this.E, this.U, this.P); }
@fn SFact<F>::PLEU_prod() const as pleu_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), cmwf(this.P), this.P.n == this.L.m, this.L.n == this.E.m, this.E.n == this.U.m
@ensures
  dims(ret, this.P.m as int, this.U.n as int), feq(this.P.m as int, this.U.n as int, fm(ret), p4(this.P.n as int, this.L.n as int, this.E.n as int, fm(this.P), fm(this.L), fm(this.E), fm(this.U)))
@at before return 0
  proof { all_mm4(this.P, this.L, this.E, this.U); }
@fn SFact<F>::UELP_prod() const as uelp_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), cmwf(this.P), this.U.n == this.E.m, this.E.n == this.L.m, this.L.n == this.P.m
@ensures
  dims(ret, this.U.m as int, this.P.n as int), feq(this.U.m as int, this.P.n as int, fm(ret), p4(this.U.n as int, this.E.n as int, this.L.n as int, fm(this.U), fm(this.E), fm(this.L), fm(this.P)))
@at before return 0
  proof { all_mm4(this.U, this.E, this.L, this.P); }
@fn SFact<F>::PUEL_prod() const as puel_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), cmwf(this.P), this.P.n == this.U.m, this.U.n == this.E.m, this.E.n == this.L.m
@ensures
  dims(ret, this.P.m as int, this.L.n as int), feq(this.P.m as int, this.L.n as int, fm(ret), p4(this.P.n as int, this.U.n as int, this.E.n as int, fm(this.P), fm(this.U), fm(this.E), fm(this.L)))
@at before return 0
  proof { all_mm4(this.P, this.U, this.E, this.L); }
@fn SFact<F>::LQU_prod() const as lqu_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), this.L.n == this.E.m, this.E.n == this.U.m
@ensures
  dims(ret, this.L.m as int, this.U.n as int), feq(this.L.m as int, this.U.n as int, fm(ret), mm(this.E.n as int, mm(this.L.n as int, fm(this.L), fm(this.E)), fm(this.U)))
@at before return 0
  proof { all_mm4(this.L, this.E, this.U, this.U); }
@fn SFact<F>::UQL_prod() const as uql_prod
@prop P07
@requires
  cmwf(this.L), cmwf(this.E), cmwf(this.U), this.U.n == this.E.m, this.E.n == this.L.m
@ensures
  dims(ret, this.U.m as int, this.L.n as int), feq(this.U.m as int, this.L.n as int, fm(ret), mm(this.E.n as int, mm(this.U.n as int, fm(this.U), fm(this.E)), fm(this.L)))
@at before return 0
  proof { all_mm4(this.U, this.E, this.L, this.L); }
