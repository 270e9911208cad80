@unit la
@uses fact2 rcc_ind rcc_hom
@rust
// ---- columns whose first entry is 1 with zeros to its right ----
pub open spec fn hasrow(p: Seq<i64>, c: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == c }
// p names the column of each pivot row (-1: none)
pub open spec fn cu_tab<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p: Seq<i64>) -> bool {
    &&& p.len() == m
    &&& forall|i: int| 0 <= i < m ==> -1 <= #[trigger] p[i] < j
    &&& forall|i: int| 0 <= i < m && #[trigger] p[i] != -1 ==> f(i, p[i] as int) == F::sone()
    &&& forall|t: int, i: int| 0 <= t < i < m && #[trigger] p[i] != -1 ==> #[trigger] f(t, p[i] as int) == F::szero()
    &&& forall|i: int, c: int| 0 <= i < m && #[trigger] p[i] != -1 && p[i] < c < j ==> #[trigger] f(i, c) == F::szero()
    &&& forall|t: int, c: int| 0 <= c < j && 0 <= t < m && !hasrow(p, c) ==> #[trigger] f(t, c) == F::szero()
}
// column j is being worked on, its rows below b are done; p0 is the table at the start
#[verifier::opaque]
pub open spec fn cu_work<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, found: bool) -> bool {
    &&& cu_tab(f, m, j, p0) && 0 <= b <= m && p.len() == m && j <= i64::MAX
    &&& !found ==> p == p0 && forall|t: int| 0 <= t < b ==> #[trigger] f(t, j) == F::szero()
    &&& found ==> exists|i1: int| #[trigger] cu_piv(f, p0, p, j, b, i1)
    &&& forall|t: int| 0 <= t < b && #[trigger] p0[t] != -1 ==> f(t, j) == F::szero()
}
pub open spec fn cu_piv<F: Field>(f: spec_fn(int, int) -> F, p0: Seq<i64>, p: Seq<i64>, j: int, b: int, i1: int) -> bool { 0 <= i1 < b && p0[i1] == -1 && p == p0.update(i1, j as i64) && f(i1, j) == F::sone() && forall|t: int| 0 <= t < i1 ==> #[trigger] f(t, j) == F::szero() }
pub proof fn cu_start<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p: Seq<i64>) requires cu_tab(f, m, j, p), 0 <= m, 0 <= j <= i64::MAX ensures cu_work(f, m, j, p, p, 0, false) { reveal(cu_work); }
pub proof fn cu_facts<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, found: bool)
    requires cu_work(f, m, j, p0, p, b, found) ensures 0 <= b <= m, p.len() == m, forall|i: int| b <= i < m ==> #[trigger] p[i] == p0[i] && -1 <= p[i] < j { reveal(cu_work); }
pub open spec fn upd_col<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int, j: int, k: int, a: F) -> bool { forall|t: int, c: int| 0 <= t < m && 0 <= c < n ==> #[trigger] g(t, c) == if c == j { F::sadd(f(t, j), F::smul(a, f(t, k))) } else { f(t, c) } }
pub open spec fn upd_scale<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int, j: int, a: F) -> bool { forall|t: int, c: int| 0 <= t < m && 0 <= c < n ==> #[trigger] g(t, c) == if c == j { F::smul(f(t, j), a) } else { f(t, c) } }
pub proof fn cu_tab_ext<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, j: int, p: Seq<i64>)
    requires cu_tab(f, m, j, p), forall|t: int, c: int| 0 <= t < m && 0 <= c < j ==> #[trigger] g(t, c) == f(t, c)
    ensures cu_tab(g, m, j, p)
{ }
pub proof fn cu_elim<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, found: bool, i0: int)
    requires cu_work(f, m, j, p0, p, b, found), 0 <= j < n, b <= i0 < m, p[i0] != -1, upd_col(f, g, m, n, j, p[i0] as int, F::sneg(f(i0, j))), forall|t: int| b <= t < i0 ==> #[trigger] f(t, j) == F::szero()
    ensures cu_work(g, m, j, p0, p, i0 + 1, found), g(i0, j) == F::szero()
{
    broadcast use field_basic; reveal(cu_work);
    cu_facts(f, m, j, p0, p, b, found); let k = p[i0] as int; assert(p0[i0] == k); cu_tab_ext(f, g, m, j, p0);
    assert forall|t: int| 0 <= t < i0 implies #[trigger] g(t, j) == f(t, j) by { assert(f(t, k) == F::szero()); }
    assert(f(i0, k) == F::sone()); let x = f(i0, j); F::ax_mul_one(F::sneg(x)); F::ax_add_neg(x);
    assert(g(i0, j) == F::sadd(x, F::smul(F::sneg(x), F::sone())));
    if found { let i1 = choose|i1: int| #[trigger] cu_piv(f, p0, p, j, b, i1); assert(cu_piv(g, p0, p, j, i0 + 1, i1)); }
}
pub proof fn cu_pivot<F: Field>(f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, m: int, n: int, j: int, p0: Seq<i64>, p: Seq<i64>, p2: Seq<i64>, b: int, i0: int)
    requires cu_work(f, m, j, p0, p, b, false), 0 <= j < n, b <= i0 < m, p[i0] == -1, f(i0, j) != F::szero(), p2 == p.update(i0, j as i64), upd_scale(f, g, m, n, j, F::sinv(f(i0, j))), forall|t: int| b <= t < i0 ==> #[trigger] f(t, j) == F::szero()
    ensures cu_work(g, m, j, p0, p2, i0 + 1, true)
{
    broadcast use field_basic; reveal(cu_work);
    cu_tab_ext(f, g, m, j, p0); F::ax_inv(f(i0, j));
    assert forall|t: int| 0 <= t < i0 implies #[trigger] g(t, j) == F::szero() by { assert(f(t, j) == F::szero()); }
    assert(g(i0, j) == F::sone());
    assert(cu_piv(g, p0, p2, j, i0 + 1, i0));
}
pub proof fn cu_skip<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, i0: int)
    requires cu_work(f, m, j, p0, p, b, true), 0 <= j, b <= i0 < m, p[i0] == -1, forall|t: int| b <= t < i0 ==> #[trigger] f(t, j) == F::szero()
    ensures cu_work(f, m, j, p0, p, i0 + 1, true)
{ reveal(cu_work); cu_facts(f, m, j, p0, p, b, true); let i1 = choose|i1: int| #[trigger] cu_piv(f, p0, p, j, b, i1); assert(cu_piv(f, p0, p, j, i0 + 1, i1)); }
pub proof fn cu_fin<F: Field>(f: spec_fn(int, int) -> F, m: int, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, found: bool)
    requires cu_work(f, m, j, p0, p, b, found), 0 <= j, forall|t: int| b <= t < m ==> #[trigger] f(t, j) == F::szero()
    ensures cu_tab(f, m, j + 1, p)
{
    reveal(cu_work);
    if found {
        let i1 = choose|i1: int| #[trigger] cu_piv(f, p0, p, j, b, i1);
        assert forall|i: int| 0 <= i < m && i != i1 implies #[trigger] p[i] == p0[i] by { }
        assert(p[i1] == j);
        assert forall|t: int, c: int| 0 <= c < j + 1 && 0 <= t < m && !hasrow(p, c) implies #[trigger] f(t, c) == F::szero() by { if c < j { if hasrow(p0, c) { let i = choose|i: int| 0 <= i < p0.len() && #[trigger] p0[i] == c; assert(p[i] == c); } } }
        assert forall|i: int, c: int| 0 <= i < m && #[trigger] p[i] != -1 && p[i] < c < j + 1 implies #[trigger] f(i, c) == F::szero() by { if i != i1 { assert(p0[i] != -1); } }
    } else {
        assert forall|t: int| 0 <= t < m implies #[trigger] f(t, j) == F::szero() by { }
        assert forall|t: int, c: int| 0 <= c < j + 1 && 0 <= t < m && !hasrow(p, c) implies #[trigger] f(t, c) == F::szero() by { }
    }
}
// ---- the column operations as a right factor W ----
#[verifier::opaque]
pub open spec fn by_w<F: Field>(m: int, n: int, f0: spec_fn(int, int) -> F, f: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F) -> bool { feq(m, n, f, mm(n, f0, W)) }
pub open spec fn w_axpy<F: Field>(W: spec_fn(int, int) -> F, j: int, k: int, a: F) -> spec_fn(int, int) -> F { |r: int, c: int| if c == j { F::sadd(W(r, j), F::smul(a, W(r, k))) } else { W(r, c) } }
pub open spec fn w_scale<F: Field>(W: spec_fn(int, int) -> F, j: int, a: F) -> spec_fn(int, int) -> F { |r: int, c: int| if c == j { F::smul(W(r, j), a) } else { W(r, c) } }
pub proof fn by_start<F: Field>(m: int, n: int, f: spec_fn(int, int) -> F) ensures by_w(m, n, f, f, |r: int, c: int| kdel::<F>(r, c))
{
    broadcast use field_basic; reveal(by_w); let W = |r: int, c: int| kdel::<F>(r, c);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] f(i, j) == mm(n, f, W)(i, j) by { fsum_one(n, mqf(f, colf(W, j), i), j); }
}
pub proof fn by_axpy<F: Field>(m: int, n: int, f0: spec_fn(int, int) -> F, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F, j: int, k: int, a: F)
    requires by_w(m, n, f0, f, W), upd_col(f, g, m, n, j, k, a), 0 <= j < n, 0 <= k < n
    ensures by_w(m, n, f0, g, w_axpy(W, j, k, a))
{
    reveal(by_w); let V = w_axpy(W, j, k, a);
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] g(i, c) == mm(n, f0, V)(i, c) by {
        assert(f(i, c) == mm(n, f0, W)(i, c));
        if c == j { mq_axpy(n, f0, colf(W, j), a, colf(W, k), i); assert(f(i, k) == mm(n, f0, W)(i, k)); mq_ext(n, f0, f0, colf(V, j), faxpy(colf(W, j), a, colf(W, k)), i); }
        else { mq_ext(n, f0, f0, colf(V, c), colf(W, c), i); }
    }
}
pub proof fn by_scale<F: Field>(m: int, n: int, f0: spec_fn(int, int) -> F, f: spec_fn(int, int) -> F, g: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F, j: int, a: F)
    requires by_w(m, n, f0, f, W), upd_scale(f, g, m, n, j, a), 0 <= j < n
    ensures by_w(m, n, f0, g, w_scale(W, j, a))
{
    reveal(by_w); let V = w_scale(W, j, a);
    assert forall|i: int, c: int| 0 <= i < m && 0 <= c < n implies #[trigger] g(i, c) == mm(n, f0, V)(i, c) by {
        assert(f(i, c) == mm(n, f0, W)(i, c));
        if c == j {
            let x = mqf(f0, colf(W, j), i); let y = mqf(f0, colf(V, j), i);
            assert forall|t: int| 0 <= t < n implies #[trigger] y(t) == F::smul(a, x(t)) by { F::ax_mul_comm(W(t, j), a); F::ax_mul_assoc(a, W(t, j), f0(i, t)); }
            fsum_scale(n, a, x, y); F::ax_mul_comm(f(i, j), a);
        } else { mq_ext(n, f0, f0, colf(V, c), colf(W, c), i); }
    }
}
pub proof fn utri_start<F: Field>(n: int) ensures utri(n, |r: int, c: int| kdel::<F>(r, c)) { F::ax_one_ne_zero(); }
pub proof fn utri_axpy<F: Field>(n: int, W: spec_fn(int, int) -> F, j: int, k: int, a: F) requires utri(n, W), 0 <= k < j < n ensures utri(n, w_axpy(W, j, k, a))
{ broadcast use field_basic; let V = w_axpy(W, j, k, a);
  assert forall|r: int, c: int| 0 <= c < r < n implies #[trigger] V(r, c) == F::szero() by { assert(W(r, c) == F::szero()); if c == j { assert(W(r, k) == F::szero()); } }
  assert forall|c: int| 0 <= c < n implies #[trigger] V(c, c) != F::szero() by { assert(W(c, c) != F::szero()); if c == j { assert(W(j, k) == F::szero()); } } }
pub proof fn utri_scale<F: Field>(n: int, W: spec_fn(int, int) -> F, j: int, a: F) requires utri(n, W), 0 <= j < n, a != F::szero() ensures utri(n, w_scale(W, j, a))
{ broadcast use field_basic; let V = w_scale(W, j, a);
  assert forall|r: int, c: int| 0 <= c < r < n implies #[trigger] V(r, c) == F::szero() by { assert(W(r, c) == F::szero()); }
  assert forall|c: int| 0 <= c < n implies #[trigger] V(c, c) != F::szero() by { assert(W(c, c) != F::szero()); if c == j { fb_nz(W(j, j), a); } } }
pub open spec fn cu_by<F: Field>(C0: CM<F>, U0: CM<F>, C: CM<F>, U: CM<F>, W: spec_fn(int, int) -> F) -> bool { utri(C0.n as int, W) && by_w(C0.m as int, C0.n as int, fm(C0), fm(C), W) && by_w(U0.m as int, C0.n as int, fm(U0), fm(U), W) }
pub open spec fn cu_of<F: Field>(C0: CM<F>, U0: CM<F>, C: CM<F>, U: CM<F>) -> bool {
    dims(C, C0.m as int, C0.n as int) && dims(U, U0.m as int, U0.n as int) && (exists|W: spec_fn(int, int) -> F| #[trigger] cu_by(C0, U0, C, U, W)) && exists|p: Seq<i64>| #[trigger] cu_tab(fm(C), C0.m as int, C0.n as int, p)
}
pub open spec fn cu_at<F: Field>(s: Seq<Nz<F>>, piv: int, b: int) -> bool { 0 <= piv <= s.len() && (forall|k: int| 0 <= k < piv ==> (#[trigger] s[k]).ind < b) && forall|k: int| piv <= k < s.len() ==> (#[trigger] s[k]).ind >= b }
pub proof fn cu_here<F: Field>(C: CM<F>, j: int, piv: int, b: int)
    requires cmwf(C), 0 <= j < C.n, cu_at(C.col@[j].indval@, piv, b)
    ensures ({ let s = C.col@[j].indval@; &&& piv < s.len() ==> b <= s[piv].ind < C.m && s[piv].val != F::szero() && fm(C)(s[piv].ind as int, j) == s[piv].val && forall|t: int| b <= t < s[piv].ind ==> #[trigger] fm(C)(t, j) == F::szero()
        &&& piv == s.len() ==> forall|t: int| b <= t < C.m ==> #[trigger] fm(C)(t, j) == F::szero() })
{
    let s = C.col@[j].indval@; let m = C.m as int;
    if piv < s.len() { sc_some(s, m, piv); assert forall|t: int| b <= t < s[piv].ind implies #[trigger] fm(C)(t, j) == F::szero() by { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ind as int != t by { if k > piv { assert(s[piv].ind < s[k].ind); } } sval_absent(s, t); } }
    else { assert forall|t: int| b <= t < m implies #[trigger] fm(C)(t, j) == F::szero() by { sval_absent(s, t); } }
}
pub open spec fn othercols<F: Field>(C: CM<F>, C2: CM<F>, j: int) -> bool { C2.m == C.m && C2.n == C.n && C2.col@.len() == C.n && (forall|c: int| 0 <= c < C.n && c != j ==> #[trigger] C2.col@[c] == C.col@[c]) && ssorted(C2.col@[j].indval@) && snz(C2.col@[j].indval@) }
pub proof fn col_axpy<F: Field>(C: CM<F>, C2: CM<F>, j: int, k: int, a: F)
    requires cmwf(C), 0 <= j < C.n, 0 <= k < C.n, othercols(C, C2, j), forall|i: int| #[trigger] sval(C2.col@[j].indval@, i) == F::sadd(sval(C.col@[j].indval@, i), F::smul(a, sval(C.col@[k].indval@, i)))
    ensures cmwf(C2), upd_col(fm(C), fm(C2), C.m as int, C.n as int, j, k, a)
{
    broadcast use field_basic;
    let s = C2.col@[j].indval@; let m = C.m as int; sval_out(C.col@[j].indval@, m); sval_out(C.col@[k].indval@, m);
    assert forall|i: int| i >= m implies #[trigger] sval(s, i) == F::szero() by { }
    sc_of(s, m);
    assert forall|c: int| 0 <= c < C2.n implies sc((#[trigger] C2.col@[c]).indval@, C2.m as int) by { if c != j { assert(C2.col@[c] == C.col@[c]); } }
    assert forall|t: int, c: int| 0 <= t < m && 0 <= c < C.n implies #[trigger] fm(C2)(t, c) == (if c == j { F::sadd(fm(C)(t, j), F::smul(a, fm(C)(t, k))) } else { fm(C)(t, c) }) by { if c == j { assert(cmv(C2, t, c) == sval(s, t)); } else { assert(C2.col@[c] == C.col@[c]); } }
}
pub proof fn col_scale<F: Field>(C: CM<F>, C2: CM<F>, j: int, a: F)
    requires cmwf(C), 0 <= j < C.n, othercols(C, C2, j), forall|i: int| #[trigger] sval(C2.col@[j].indval@, i) == F::smul(sval(C.col@[j].indval@, i), a)
    ensures cmwf(C2), upd_scale(fm(C), fm(C2), C.m as int, C.n as int, j, a)
{
    broadcast use field_basic;
    let s = C2.col@[j].indval@; let m = C.m as int; sval_out(C.col@[j].indval@, m);
    assert forall|i: int| i >= m implies #[trigger] sval(s, i) == F::szero() by { }
    sc_of(s, m);
    assert forall|c: int| 0 <= c < C2.n implies sc((#[trigger] C2.col@[c]).indval@, C2.m as int) by { if c != j { assert(C2.col@[c] == C.col@[c]); } }
    assert forall|t: int, c: int| 0 <= t < m && 0 <= c < C.n implies #[trigger] fm(C2)(t, c) == (if c == j { F::smul(fm(C)(t, j), a) } else { fm(C)(t, c) }) by { if c == j { assert(cmv(C2, t, c) == sval(s, t)); } else { assert(C2.col@[c] == C.col@[c]); } }
}
pub proof fn cu_elim_step<F: Field>(C0: CM<F>, U0: CM<F>, C: CM<F>, U: CM<F>, C2: CM<F>, U2: CM<F>, W: spec_fn(int, int) -> F, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, found: bool, piv: int, piv2: int) -> (W2: spec_fn(int, int) -> F)
    requires cmwf(C), cmwf(U), C.m == C0.m, C.n == C0.n, U.m == U0.m, U.n == C.n, 0 <= j < C.n, cu_by(C0, U0, C, U, W), cu_work(fm(C), C.m as int, j, p0, p, b, found), cu_at(C.col@[j].indval@, piv, b), piv < C.col@[j].indval@.len(),
        ({ let e = C.col@[j].indval@[piv]; let k = p[e.ind as int] as int; &&& k != -1 && othercols(C, C2, j) && othercols(U, U2, j) 
           &&& forall|i: int| #[trigger] sval(C2.col@[j].indval@, i) == F::sadd(sval(C.col@[j].indval@, i), F::smul(F::sneg(e.val), sval(C.col@[k].indval@, i)))
           &&& forall|i: int| #[trigger] sval(U2.col@[j].indval@, i) == F::sadd(sval(U.col@[j].indval@, i), F::smul(F::sneg(e.val), sval(U.col@[k].indval@, i)))
           &&& cu_at(C2.col@[j].indval@, piv2, e.ind as int) })
    ensures cmwf(C2), cmwf(U2), cu_by(C0, U0, C2, U2, W2), cu_work(fm(C2), C.m as int, j, p0, p, C.col@[j].indval@[piv].ind + 1, found), cu_at(C2.col@[j].indval@, piv2, C.col@[j].indval@[piv].ind + 1)
{
    let e = C.col@[j].indval@[piv]; let i0 = e.ind as int; let m = C.m as int; let n = C.n as int; cu_here(C, j, piv, b); cu_facts(fm(C), m, j, p0, p, b, found);
    let k = p[i0] as int; let a = F::sneg(e.val);
    col_axpy(C, C2, j, k, a); col_axpy(U, U2, j, k, a);
    by_axpy(m, n, fm(C0), fm(C), fm(C2), W, j, k, a); by_axpy(U.m as int, n, fm(U0), fm(U), fm(U2), W, j, k, a); utri_axpy(n, W, j, k, a);
    cu_elim(fm(C), fm(C2), m, n, j, p0, p, b, found, i0);
    let s = C2.col@[j].indval@;
    assert forall|q: int| piv2 <= q < s.len() implies (#[trigger] s[q]).ind >= i0 + 1 by { sc_some(s, m, q); if s[q].ind == i0 { assert(fm(C2)(i0, j) == sval(s, i0)); } }
    w_axpy(W, j, k, a)
}
pub proof fn cu_pivot_step<F: Field>(C0: CM<F>, U0: CM<F>, C: CM<F>, U: CM<F>, C2: CM<F>, U2: CM<F>, W: spec_fn(int, int) -> F, j: int, p0: Seq<i64>, p: Seq<i64>, p2: Seq<i64>, b: int, piv: int) -> (W2: spec_fn(int, int) -> F)
    requires cmwf(C), cmwf(U), C.m == C0.m, C.n == C0.n, U.m == U0.m, U.n == C.n, 0 <= j < C.n, cu_by(C0, U0, C, U, W), cu_work(fm(C), C.m as int, j, p0, p, b, false), cu_at(C.col@[j].indval@, piv, b), piv < C.col@[j].indval@.len(),
        ({ let e = C.col@[j].indval@[piv]; let s2 = C2.col@[j].indval@; let s = C.col@[j].indval@; &&& p[e.ind as int] == -1 && p2 == p.update(e.ind as int, j as i64) && othercols(C, C2, j) && othercols(U, U2, j) 
           &&& forall|i: int| #[trigger] sval(s2, i) == F::smul(sval(s, i), F::sinv(e.val))
           &&& forall|i: int| #[trigger] sval(U2.col@[j].indval@, i) == F::smul(sval(U.col@[j].indval@, i), F::sinv(e.val))
           &&& F::sinv(e.val) != F::szero() ==> s2.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s2[k]).ind == s[k].ind })
    ensures cmwf(C2), cmwf(U2), cu_by(C0, U0, C2, U2, W2), cu_work(fm(C2), C.m as int, j, p0, p2, C.col@[j].indval@[piv].ind + 1, true), cu_at(C2.col@[j].indval@, piv + 1, C.col@[j].indval@[piv].ind + 1)
{
    broadcast use field_basic;
    let s = C.col@[j].indval@; let e = s[piv]; let i0 = e.ind as int; let m = C.m as int; let n = C.n as int; cu_here(C, j, piv, b); cu_facts(fm(C), m, j, p0, p, b, false);
    let a = F::sinv(e.val); F::ax_inv(e.val); F::ax_one_ne_zero(); 
    assert(a != F::szero());
    col_scale(C, C2, j, a); col_scale(U, U2, j, a);
    by_scale(m, n, fm(C0), fm(C), fm(C2), W, j, a); by_scale(U.m as int, n, fm(U0), fm(U), fm(U2), W, j, a); utri_scale(n, W, j, a);
    cu_pivot(fm(C), fm(C2), m, n, j, p0, p, p2, b, i0);
    let s2 = C2.col@[j].indval@;
    assert forall|q: int| piv + 1 <= q < s2.len() implies (#[trigger] s2[q]).ind >= i0 + 1 by { assert(s2[q].ind == s[q].ind); assert(s[piv].ind < s[q].ind); }
    assert forall|q: int| 0 <= q < piv + 1 implies (#[trigger] s2[q]).ind < i0 + 1 by { assert(s2[q].ind == s[q].ind); if q < piv { assert(s[q].ind < b); } }
    w_scale(W, j, a)
}
pub proof fn cu_skip_step<F: Field>(C: CM<F>, j: int, p0: Seq<i64>, p: Seq<i64>, b: int, piv: int)
    requires cmwf(C), 0 <= j < C.n, cu_work(fm(C), C.m as int, j, p0, p, b, true), cu_at(C.col@[j].indval@, piv, b), piv < C.col@[j].indval@.len(), p[C.col@[j].indval@[piv].ind as int] == -1
    ensures cu_work(fm(C), C.m as int, j, p0, p, C.col@[j].indval@[piv].ind + 1, true), cu_at(C.col@[j].indval@, piv + 1, C.col@[j].indval@[piv].ind + 1)
{
    let s = C.col@[j].indval@; cu_here(C, j, piv, b); cu_skip(fm(C), C.m as int, j, p0, p, b, s[piv].ind as int);
    assert forall|q: int| piv + 1 <= q < s.len() implies (#[trigger] s[q]).ind >= s[piv].ind + 1 by { assert(s[piv].ind < s[q].ind); }
}
@end
@fn CU_inplace(&mut CM<F>, &mut CM<F>) as cu_inplace
@prop P07
@requires
  cmwf(*old(C)), cmwf(*old(U)), old(U).n == old(C).n
@ensures
  cu_of(*old(C), *old(U), *final(C), *final(U))
@at entry
  let ghost C0 = *C;
  let ghost U0 = *U;
  let ghost mut W: spec_fn(int, int) -> F = |r: int, c: int| kdel::<F>(r, c);
  proof { by_start(C0.m as int, C0.n as int, fm(C0)); by_start(U0.m as int, C0.n as int, fm(U0)); utri_start::<F>(C0.n as int); vec_max(C.col); }
@loop 0
  invariant 0 <= j <= n, n == C0.n, m == C0.m, dims(*C, m as int, n as int), dims(*U, U0.m as int, n as int), cu_by(C0, U0, *C, *U, W), cu_tab(fm(*C), m as int, j as int, p2c@), n <= i64::MAX
  decreases n - j
@at loop 0 begin
  let ghost p0 = p2c@;
  let ghost mut b: int = 0;
  proof { cu_start(fm(*C), m as int, j as int, p0); }
@loop 1
  invariant index__1 == j, 0 <= j < n, n == C0.n, m == C0.m, dims(*C, m as int, n as int), dims(*U, U0.m as int, n as int), cu_by(C0, U0, *C, *U, W), n <= i64::MAX,
    cu_work(fm(*C), m as int, j as int, p0, p2c@, b, found_pivot), 0 <= b <= m, cu_at(C.col@[j as int].indval@, piv as int, b)
  decreases m - b
@at loop 1 begin
  let ghost CB = *C;
  let ghost UB = *U;
  let ghost WB = W;
  let ghost pB = p2c@;
  proof { cu_facts(fm(*C), m as int, j as int, p0, p2c@, b, found_pivot); cu_here(CB, j as int, piv as int, b); }
@at loop 1 begin
  let ghost foundB = found_pivot;
  let ghost pivB = piv as int;
  let ghost e = C.col@[j as int].indval@[piv as int];
@at loop 1 end
  proof {
      if pB[e.ind as int] != -1 { W = cu_elim_step(C0, U0, CB, UB, *C, *U, WB, j as int, p0, pB, b, foundB, pivB, piv as int); }
      else if !foundB { W = cu_pivot_step(C0, U0, CB, UB, *C, *U, WB, j as int, p0, pB, p2c@, b, pivB); }
      else { cu_skip_step(CB, j as int, p0, pB, b, pivB); }
      b = e.ind + 1;
  }
@at loop 1 after
  proof { cu_here(*C, j as int, piv as int, b); cu_fin(fm(*C), m as int, j as int, p0, p2c@, b, found_pivot); }
@at exit
  proof { assert(cu_by(C0, U0, *C, *U, W)); assert(cu_tab(fm(*C), m as int, n as int, p2c@)); }
