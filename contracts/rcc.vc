@unit la
@uses hom_red util sortp
@rust
// every boundary matrix is well formed and consecutive ones fit
pub open spec fn ccwf<F: Field>(C: CC<F>) -> bool { C.boundary@.len() > 0 && (forall|k: int| 0 <= k < C.boundary@.len() ==> cmwf(#[trigger] C.boundary@[k])) && forall|k: int| 1 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m == C.boundary@[k - 1].n }
// consecutive boundary matrices multiply to zero
pub open spec fn ccdd<F: Field>(C: CC<F>) -> bool { forall|k: int| 0 <= k < C.boundary@.len() - 1 ==> #[trigger] ddat(C, k) }
pub open spec fn ddat<F: Field>(C: CC<F>, k: int) -> bool { ddz(C.boundary@[k], C.boundary@[k + 1]) }
// cell j of dimension k generates homology
pub open spec fn isgen<F: Field>(R: CM<F>, p: Seq<usize>, top: bool, j: int) -> bool { 0 <= j < R.n && R.col@[j].indval@.len() == 0 && (top || p[j] == NO_IND) }
pub open spec fn gens<F: Field>(R: CM<F>, p: Seq<usize>, top: bool, s: Seq<usize>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b]
    &&& forall|a: int| 0 <= a < s.len() ==> isgen(R, p, top, #[trigger] s[a] as int)
    &&& forall|j: int| #[trigger] isgen(R, p, top, j) ==> s.contains(j as usize)
}
pub open spec fn p_up<F: Field>(X: RCC<F>, k: int) -> Seq<usize> { if k + 1 < X.p2c@.len() { X.p2c@[k + 1]@ } else { Seq::empty() } }
pub open spec fn gens_at<F: Field>(X: RCC<F>, k: int) -> bool { gens(X.R@[k], p_up(X, k), k == X.R@.len() - 1, X.I@[k]@) }
// X is a reduction of C: matrices, pivot tables and homology indices
pub open spec fn rcc_red<F: Field>(C: CC<F>, X: RCC<F>) -> bool { X.R@.len() == C.boundary@.len() && X.p2c@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@) }
pub open spec fn rcc_gens<F: Field>(X: RCC<F>) -> bool { X.I@.len() == X.R@.len() && forall|k: int| 0 <= k < X.R@.len() ==> #[trigger] gens_at(X, k) }
pub open spec fn rcc_bas<F: Field>(C: CC<F>, X: RCC<F>) -> bool { X.U@.len() == C.boundary@.len() && forall|k: int| 0 <= k < C.boundary@.len() ==> #[trigger] bas_at(C.boundary@[k], X.R@[k], X.U@[k]) }
// what homology queries need: dimensions fit
pub open spec fn rcc_fit<F: Field>(X: RCC<F>) -> bool { X.R@.len() > 0 && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && (forall|k: int| 0 <= k < X.R@.len() ==> cmwf(#[trigger] X.R@[k])) && forall|k: int| 1 <= k < X.R@.len() ==> (#[trigger] X.p2c@[k])@.len() == X.R@[k - 1].n }
pub proof fn red_fit<F: Field>(C: CC<F>, X: RCC<F>) requires ccwf(C), rcc_red(C, X), X.I@.len() == X.R@.len() ensures rcc_fit(X)
{ assert forall|k: int| 0 <= k < X.R@.len() implies cmwf(#[trigger] X.R@[k]) by { assert(red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@)); } assert forall|k: int| 1 <= k < X.R@.len() implies (#[trigger] X.p2c@[k])@.len() == X.R@[k - 1].n by { assert(red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.boundary@[k - 1], X.R@[k - 1], X.p2c@[k - 1]@)); } }
// ---- consequences: independence of the options, Betti numbers ----
pub proof fn gens_same<F: Field>(R: CM<F>, R2: CM<F>, p: Seq<usize>, top: bool, s: Seq<usize>, s2: Seq<usize>)
    requires R.n == R2.n, gens(R, p, top, s), gens(R2, p, top, s2), forall|j: int| 0 <= j < R.n ==> ((#[trigger] R.col@[j]).indval@.len() == 0 <==> R2.col@[j].indval@.len() == 0)
    ensures s =~= s2
{
    assert forall|j: int| isgen(R, p, top, j) == isgen(R2, p, top, j) by { }
    assert forall|x: usize| s.contains(x) == s2.contains(x) by {
        if s.contains(x) { let a = choose|a: int| 0 <= a < s.len() && s[a] == x; assert(isgen(R, p, top, s[a] as int)); assert(isgen(R2, p, top, x as int)); }
        if s2.contains(x) { let a = choose|a: int| 0 <= a < s2.len() && s2[a] == x; assert(isgen(R2, p, top, s2[a] as int)); assert(isgen(R, p, top, x as int)); }
    }
    incr_unique(s, s2);
}
pub proof fn incr_unique(s: Seq<usize>, t: Seq<usize>)
    requires forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b], forall|a: int, b: int| 0 <= a < b < t.len() ==> #[trigger] t[a] < #[trigger] t[b], forall|x: usize| s.contains(x) == t.contains(x)
    ensures s =~= t
    decreases s.len()
{
    if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } }
    else if t.len() == 0 { assert(s.contains(s[0])); assert(t.contains(s[0])); }
    else {
        let x = s[s.len() - 1]; let y = t[t.len() - 1];
        assert(s.contains(x)); assert(t.contains(x)); assert(t.contains(y)); assert(s.contains(y));
        let a = choose|a: int| 0 <= a < t.len() && t[a] == x; let b = choose|b: int| 0 <= b < s.len() && s[b] == y;
        assert(x == y) by { if a < t.len() - 1 { assert(t[a] < t[t.len() - 1]); } if b < s.len() - 1 { assert(s[b] < s[s.len() - 1]); } }
        let s1 = s.drop_last(); let t1 = t.drop_last();
        assert forall|z: usize| s1.contains(z) == t1.contains(z) by {
            if s1.contains(z) { let c = choose|c: int| 0 <= c < s1.len() && s1[c] == z; assert(s[c] == z); assert(s.contains(z)); let d = choose|d: int| 0 <= d < t.len() && t[d] == z; assert(s[c] < s[s.len() - 1]); assert(t1[d] == z); }
            if t1.contains(z) { let c = choose|c: int| 0 <= c < t1.len() && t1[c] == z; assert(t[c] == z); assert(t.contains(z)); let d = choose|d: int| 0 <= d < s.len() && s[d] == z; assert(t[c] < t[t.len() - 1]); assert(s1[d] == z); }
        }
        incr_unique(s1, t1); assert(s =~= s1.push(x)); assert(t =~= t1.push(x));
    }
}
// any two reductions of one complex have the same pivots and the same homology indices (so the same Betti numbers)
pub proof fn options_agree<F: Field>(C: CC<F>, X: RCC<F>, Y: RCC<F>, k: int)
    requires ccwf(C), rcc_red(C, X), rcc_gens(X), rcc_red(C, Y), rcc_gens(Y), 0 <= k < C.boundary@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@, X.I@[k]@ == Y.I@[k]@, X.I@[k]@.len() == Y.I@[k]@.len()
{
    same_piv(C, X, Y, k); if k + 1 < C.boundary@.len() { same_piv(C, X, Y, k + 1); }
    assert(red_at(C.boundary@[k], X.R@[k], X.p2c@[k]@)); assert(red_at(C.boundary@[k], Y.R@[k], Y.p2c@[k]@));
    assert(gens_at(X, k)); assert(gens_at(Y, k));
    reduced_pivtab(X.R@[k], X.p2c@[k]@); reduced_pivtab(Y.R@[k], Y.p2c@[k]@);
    assert(p_up(X, k) == p_up(Y, k));
    gens_same(X.R@[k], Y.R@[k], p_up(X, k), k == X.R@.len() - 1, X.I@[k]@, Y.I@[k]@);
}
pub proof fn same_piv<F: Field>(C: CC<F>, X: RCC<F>, Y: RCC<F>, k: int)
    requires rcc_red(C, X), rcc_red(C, Y), 0 <= k < C.boundary@.len()
    ensures X.p2c@[k]@ == Y.p2c@[k]@
{ let B = C.boundary@[k]; assert(red_at(B, X.R@[k], X.p2c@[k]@)); assert(red_at(B, Y.R@[k], Y.p2c@[k]@)); piv_unique(fm(B), B.m as int, B.n as int, X.p2c@[k]@, Y.p2c@[k]@); }
// number of pivots (the rank)
pub open spec fn npiv(p: Seq<usize>) -> int decreases p.len() { if p.len() == 0 { 0 } else { npiv(p.drop_last()) + if p.last() != NO_IND { 1int } else { 0 } } }
// number of j < n for which z holds
pub open spec fn cnt(n: int, z: spec_fn(int) -> bool) -> int decreases n { if n <= 0 { 0 } else { cnt(n - 1, z) + if z(n - 1) { 1int } else { 0 } } }
pub proof fn cnt_ext(n: int, z: spec_fn(int) -> bool, y: spec_fn(int) -> bool) requires forall|j: int| 0 <= j < n ==> #[trigger] z(j) == y(j) ensures cnt(n, z) == cnt(n, y) decreases n { if n > 0 { cnt_ext(n - 1, z, y); assert(z(n - 1) == y(n - 1)); } }
pub proof fn cnt_split(n: int, z: spec_fn(int) -> bool, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool)
    requires n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] z(j) == (a(j) || b(j)), forall|j: int| 0 <= j < n ==> !(#[trigger] a(j) && b(j))
    ensures cnt(n, z) == cnt(n, a) + cnt(n, b)
    decreases n
{ if n > 0 { cnt_split(n - 1, z, a, b); assert(z(n - 1) == (a(n - 1) || b(n - 1))); assert(!(a(n - 1) && b(n - 1))); } }
pub proof fn cnt_remove(n: int, z: spec_fn(int) -> bool, y: spec_fn(int) -> bool, k: int)
    requires 0 <= k < n, z(k), forall|j: int| 0 <= j < n ==> #[trigger] y(j) == (z(j) && j != k)
    ensures cnt(n, y) == cnt(n, z) - 1
    decreases n
{ assert(y(n - 1) == (z(n - 1) && n - 1 != k)); if n - 1 == k { cnt_ext(n - 1, z, y); } else { cnt_remove(n - 1, z, y, k); } }
// an increasing list of exactly the j < n with z has cnt(n, z) entries
pub proof fn list_cnt(n: int, z: spec_fn(int) -> bool, s: Seq<usize>)
    requires 0 <= n, forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b], forall|a: int| 0 <= a < s.len() ==> #[trigger] s[a] < n && z(s[a] as int), forall|j: int| 0 <= j < n && #[trigger] z(j) ==> s.contains(j as usize), n <= NO_IND
    ensures s.len() == cnt(n, z)
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(s[0] < n); } }
    else if z(n - 1) {
        assert(s.contains((n - 1) as usize)); let a = choose|a: int| 0 <= a < s.len() && s[a] == (n - 1) as usize;
        assert(a == s.len() - 1) by { if a < s.len() - 1 { assert(s[a] < s[s.len() - 1]); assert(s[s.len() - 1] < n); } }
        let t = s.drop_last();
        assert forall|b: int| 0 <= b < t.len() implies #[trigger] t[b] < n - 1 && z(t[b] as int) by { assert(s[b] < s[s.len() - 1]); }
        assert forall|j: int| 0 <= j < n - 1 && #[trigger] z(j) implies t.contains(j as usize) by { assert(s.contains(j as usize)); let b = choose|b: int| 0 <= b < s.len() && s[b] == j as usize; assert(t[b] == j as usize); }
        list_cnt(n - 1, z, t);
    } else {
        assert forall|b: int| 0 <= b < s.len() implies #[trigger] s[b] < n - 1 && z(s[b] as int) by { }
        list_cnt(n - 1, z, s);
    }
}
pub open spec fn hp(p: Seq<usize>) -> spec_fn(int) -> bool { |j: int| haspiv(p, j) }
pub open spec fn distinct_tab(p: Seq<usize>, n: int) -> bool { (forall|i: int| 0 <= i < p.len() && #[trigger] p[i] != NO_IND ==> p[i] < n) && forall|i: int, r: int| 0 <= i < r < p.len() && #[trigger] p[i] != NO_IND && #[trigger] p[r] != NO_IND ==> p[i] != p[r] }
// as many columns with a pivot as rows with one
pub proof fn piv_cols(p: Seq<usize>, n: int)
    requires 0 <= n <= NO_IND, distinct_tab(p, n)
    ensures cnt(n, hp(p)) == npiv(p)
    decreases p.len()
{
    if p.len() == 0 { assert forall|j: int| 0 <= j < n implies !#[trigger] hp(p)(j) by { } cnt_none(n, hp(p)); }
    else {
        let q = p.drop_last(); let l = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() && #[trigger] q[i] != NO_IND implies q[i] < n by { assert(p[i] == q[i]); }
        assert forall|i: int, r: int| 0 <= i < r < q.len() && #[trigger] q[i] != NO_IND && #[trigger] q[r] != NO_IND implies q[i] != q[r] by { assert(p[i] == q[i] && p[r] == q[r]); }
        piv_cols(q, n);
        assert forall|j: int| 0 <= j < n implies #[trigger] hp(p)(j) == (hp(q)(j) || p[l] == j) by {
            if haspiv(p, j) && p[l] != j { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(q[i] == j); }
            if haspiv(q, j) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == j; assert(p[i] == j); }
        }
        if p[l] != NO_IND {
            let c = p[l] as int;
            assert(!haspiv(q, c)) by { if haspiv(q, c) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == c; assert(p[i] == c); } }
            assert(hp(p)(c)) by { assert(p[l] == c); }
            cnt_remove(n, hp(p), hp(q), c);
        } else { cnt_ext(n, hp(p), hp(q)); }
    }
}
pub proof fn cnt_none(n: int, z: spec_fn(int) -> bool) requires forall|j: int| 0 <= j < n ==> !#[trigger] z(j) ensures cnt(n, z) == 0 decreases n { if n > 0 { cnt_none(n - 1, z); assert(!z(n - 1)); } }
pub proof fn cnt_all(n: int, z: spec_fn(int) -> bool) requires n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] z(j) ensures cnt(n, z) == n decreases n { if n > 0 { cnt_all(n - 1, z); assert(z(n - 1)); } }
pub open spec fn has_i(p: Seq<usize>) -> spec_fn(int) -> bool { |i: int| p[i] != NO_IND }
pub proof fn npiv_cnt(p: Seq<usize>) ensures npiv(p) == cnt(p.len() as int, has_i(p)) decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); npiv_cnt(q); cnt_ext(q.len() as int, has_i(p), has_i(q)); } }
// dim H_k == dim ker B_k - rank B_(k+1) == n_k - rank B_k - rank B_(k+1)
pub proof fn betti_count<F: Field>(C: CC<F>, X: RCC<F>, k: int)
    requires ccwf(C), ccdd(C), rcc_red(C, X), rcc_gens(X), 0 <= k < C.boundary@.len()
    ensures X.I@[k]@.len() == C.boundary@[k].n - npiv(X.p2c@[k]@) - npiv(p_up(X, k))
{
    let B = C.boundary@[k]; let R = X.R@[k]; let p = X.p2c@[k]@; let n = B.n as int; let u = p_up(X, k);
    assert(red_at(B, R, p)); reduced_pivtab(R, p);
    assert(distinct_tab(p, n)) by { assert forall|i: int, r: int| 0 <= i < r < p.len() && #[trigger] p[i] != NO_IND && #[trigger] p[r] != NO_IND implies p[i] != p[r] by { } }
    piv_cols(p, n);
    let zc = |j: int| !haspiv(p, j); let all = |j: int| true;
    cnt_split(n, all, zc, hp(p)); cnt_all(n, all);
    assert(gens_at(X, k));
    let top = k == X.R@.len() - 1; let g = |j: int| isgen(R, u, top, j);
    list_cnt(n, g, X.I@[k]@);
    if top { assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == zc(j) by { assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j)); } cnt_ext(n, g, zc); }
    else {
        let B1 = C.boundary@[k + 1]; let R1 = X.R@[k + 1];
        assert(red_at(B1, R1, u)); assert(ddat(C, k)); assert(B1.m == B.n);
        let V1 = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B1), B1.m as int, B1.n as int, V, u);
        let hi = has_i(u);
        assert forall|i: int| 0 <= i < n && u[i] != NO_IND implies !haspiv(p, i) by {
            let q = u[i] as int; let z = |r: int| mq(B1.n as int, fm(B1), colf(V1, q), r); let w1 = mm(B1.n as int, fm(B1), V1);
            assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), z, r) == F::szero() by { dd_cycle(B, B1, colf(V1, q), r); }
            assert forall|r: int| i < r < n implies #[trigger] z(r) == F::szero() by { assert(w1(r, u[i] as int) == F::szero()); }
            assert(w1(i, u[i] as int) != F::szero());
            cyc_low(fm(B), B.m as int, n, p, z, i);
        }
        assert forall|j: int| 0 <= j < n implies #[trigger] zc(j) == (g(j) || hi(j)) by { assert(R.col@[j].indval@.len() > 0 <==> haspiv(p, j)); }
        assert forall|j: int| 0 <= j < n implies !(#[trigger] g(j) && hi(j)) by { }
        cnt_split(n, zc, g, hi); npiv_cnt(u);
    }
}
@end
@fn CC<F>::maxdim() const as cc_maxdim
@prop P09
@requires
  this.boundary@.len() > 0
@ensures
  ret == this.boundary@.len() - 1
@fn CC<F>::dim(usize) const as cc_dim
@prop P09
@requires
  k < this.boundary@.len()
@ensures
  ret == this.boundary@[k as int].n
@fn RCC<F>::initialize(CC<F>) as rcc_init
@prop P09
@requires
  ccwf(*C)
@ensures
  final(this).R@ =~= C.boundary@, final(this).U@.len() == C.boundary@.len(), final(this).I@.len() == C.boundary@.len(), final(this).p2c@.len() == C.boundary@.len(),
  forall|k: int| 0 <= k < C.boundary@.len() ==> is_ident(#[trigger] final(this).U@[k]) && final(this).U@[k].n == C.boundary@[k].n,
  forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] final(this).p2c@[k])@.len() == C.boundary@[k].m
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] this.R@[q] == C.boundary@[q],
    forall|q: int| 0 <= q < k ==> is_ident(#[trigger] this.U@[q]) && this.U@[q].n == C.boundary@[q].n,
    forall|q: int| 0 <= q < k ==> (#[trigger] this.p2c@[q])@.len() == C.boundary@[q].m,
  decreases dmax - k
@fn RCC<F>::set_indices() as rcc_set_indices
@prop P09
@requires
  rcc_fit(*old(this))
@ensures
  final(this).R == old(this).R, final(this).U == old(this).U, final(this).p2c == old(this).p2c, rcc_gens(*final(this))
@at entry
  let ghost T0 = *this; let ghost mut T2 = *this;
  proof { assert(this.R.len() == this.R@.len()); }
@loop 0
  invariant 0 <= k < this.R@.len(), this.R == T0.R, this.U == T0.U, this.p2c == T0.p2c, this.I@.len() == T0.R@.len(), this.R.len() == this.R@.len(), rcc_fit(*this), forall|q: int| 0 <= q < k ==> #[trigger] gens_at(*this, q)
  decreases this.R@.len() - k
@at loop 0 begin
  let ghost T1 = *this;
@at loop 0 end
  proof { assert forall|q: int| 0 <= q < k + 1 implies #[trigger] gens_at(*this, q) by { if q < k { assert(gens_at(T1, q)); assert(this.I@[q] == T1.I@[q]); } else { assert(p_up(*this, q) == this.p2c@[k + 1]@); } } }
@at loop 0 after
  proof { T2 = *this; }
@at exit
  proof { let t = this.R@.len() - 1; let s = this.I@[t]@; assert forall|j: int| #[trigger] isgen(this.R@[t], p_up(*this, t), true, j) implies s.contains(j as usize) by { }
    assert forall|q: int| 0 <= q < this.R@.len() implies #[trigger] gens_at(*this, q) by { if q < t { assert(gens_at(T2, q)); assert(p_up(T2, q) == p_up(*this, q)); } } }
@fn RCC<F>::new(CC<F>) as rcc_new
@prop P09 P10
@opt rlimit=60
@requires
  ccwf(*C)
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int];
@at before red_u 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag) as rcc_new_s
@prop P09
@requires
  ccwf(*C)
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int];
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, ExtraRedFlag) as rcc_new_e
@prop P09
@requires
  ccwf(*C), forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int];
@at loop 0 end
  proof { plain_pivots(B, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag, BasisFlag) as rcc_new_sb
@prop P09 P10
@opt rlimit=60
@requires
  ccwf(*C)
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int];
@at before red_u_s 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, ExtraRedFlag, BasisFlag) as rcc_new_eb
@prop P09 P10
@opt rlimit=60
@requires
  ccwf(*C), forall|k: int| 0 <= k < C.boundary@.len() ==> (#[trigger] C.boundary@[k]).m < usize::MAX
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@loop 0
  invariant 0 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax, forall|q: int| 0 <= q < C.boundary@.len() ==> (#[trigger] C.boundary@[q]).m < usize::MAX,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int];
@at before red_u_e 0
  let ghost I0 = this.U@[k as int];
  proof { assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 end
  proof { from_ident(B, this.R@[k as int], I0, this.U@[k as int]); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag, ClearFlag) as rcc_new_sc
@prop P09
@opt wrap=1 rlimit=60
@requires
  ccwf(*C), ccdd(*C), C.boundary@.len() <= i64::MAX
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at loop 0 before
  proof { let t = dmax - 1; plain_pivots(C.boundary@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax == C.boundary@.len(), dmax == C.boundary.len(), dmax <= i64::MAX, ccwf(*C), ccdd(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|a: int| 0 <= a < clear_inds@.len() ==> #[trigger] clear_inds@[a] < this.p2c@[k + 1]@.len() && this.p2c@[k + 1]@[clear_inds@[a] as int] != NO_IND,
    forall|i: int| 0 <= i < this.p2c@[k + 1]@.len() && #[trigger] this.p2c@[k + 1]@[i] != NO_IND ==> clear_inds@.contains(i as usize)
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int]; let ghost B1 = C.boundary@[k + 1]; let ghost cl = clear_inds@;
  proof { assert(red_at(B1, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(ddat(*C, k as int)); assert(B1.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); }
@at loop 0 end
  proof { clear_pivots(B, B1, T1.p2c@[k + 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag, ClearFlag, BasisFlag) as rcc_new_scb
@prop P09 P10
@opt wrap=1 rlimit=60
@requires
  ccwf(*C), ccdd(*C), C.boundary@.len() <= i64::MAX
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  let ghost mut I0 = C.boundary@[0];
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at before red_u_s 0
  proof { I0 = this.U@[dmax - 1]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let t = dmax - 1; let B = C.boundary@[t]; from_ident(B, this.R@[t], I0, this.U@[t]); prod_pivots(B, this.U@[t], this.R@[t], this.p2c@[t]@); }
@loop 0
  invariant -1 <= k <= dmax - 2, dmax == C.boundary@.len(), dmax == C.boundary.len(), dmax <= i64::MAX, ccwf(*C), ccdd(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| k < q < dmax ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@),
    forall|q: int| k < q < dmax ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases k + 1
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k as int]; let ghost B1 = C.boundary@[k + 1];
  proof { assert(red_at(B1, T1.R@[k + 1], T1.p2c@[k + 1]@)); assert(bas_at(B1, T1.R@[k + 1], T1.U@[k + 1])); assert(ddat(*C, k as int)); assert(B1.m == B.n); assert(T1.p2c@[k + 1]@.len() == B.n); clear_bas_pre(B, B1, T1.R@[k + 1], T1.U@[k + 1], T1.p2c@[k + 1]@); }
@at before red_clear_u 0
  proof { assert(is_ident(this.U@[k as int])); }
@at loop 0 end
  proof { assert(bas_at(B, this.R@[k as int], this.U@[k as int])); prod_pivots(B, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q > k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| k - 1 < q < dmax implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q > k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag, CompFlag) as rcc_new_sm
@prop P09
@opt rlimit=60
@requires
  ccwf(*C), ccdd(*C)
@ensures
  rcc_red(*C, ret), ret.U@.len() == 0, rcc_gens(ret)
@at entry
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at loop 0 before
  proof { plain_pivots(C.boundary@[0], this.R@[0], this.p2c@[0]@); }
@loop 0
  invariant 1 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), ccdd(*C), this.R@.len() == dmax, this.U@.len() == 0, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@), comp_ok(this.R@[k - 1], comp_inds@)
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k - 1]; let ghost B1 = C.boundary@[k as int]; let ghost cl = comp_inds@;
  proof { assert(red_at(B, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(ddat(*C, k - 1)); assert(B1.m == B.n); }
@at loop 0 end
  proof { comp_pivots(B, B1, T1.R@[k - 1], T1.p2c@[k - 1]@, cl, this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
@fn RCC<F>::new(CC<F>, StdRedFlag, CompFlag, BasisFlag) as rcc_new_smb
@prop P09 P10
@opt rlimit=60
@requires
  ccwf(*C), ccdd(*C)
@ensures
  rcc_red(*C, ret), rcc_bas(*C, ret), rcc_gens(ret)
@at entry
  let ghost mut I0 = C.boundary@[0];
  proof { assert(C.boundary.len() == C.boundary@.len()); }
@at before red_u_s 0
  proof { I0 = this.U@[0]; assert(is_ident(I0)); ident_tri(I0); }
@at loop 0 before
  proof { let B = C.boundary@[0]; from_ident(B, this.R@[0], I0, this.U@[0]); prod_pivots(B, this.U@[0], this.R@[0], this.p2c@[0]@); }
@loop 0
  invariant 1 <= k <= dmax, dmax == C.boundary@.len(), dmax == C.boundary.len(), ccwf(*C), ccdd(*C), this.R@.len() == dmax, this.U@.len() == dmax, this.I@.len() == dmax, this.p2c@.len() == dmax,
    forall|q: int| 0 <= q < k ==> #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@), comp_ok(this.R@[k - 1], comp_inds@),
    forall|q: int| 0 <= q < k ==> #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]),
  decreases dmax - k
@at loop 0 begin
  let ghost T1 = this; let ghost B = C.boundary@[k - 1]; let ghost B1 = C.boundary@[k as int]; let ghost cl = comp_inds@;
  proof { assert(red_at(B, T1.R@[k - 1], T1.p2c@[k - 1]@)); assert(ddat(*C, k - 1)); assert(B1.m == B.n); comp_bas_pre(B, B1, T1.R@[k - 1], T1.p2c@[k - 1]@, cl); }
@at before red_comp_u 0
  let ghost J0 = this.U@[k as int];
  proof { assert(is_ident(J0)); }
@at loop 0 end
  proof { comp_bas(B1, this.R@[k as int], J0, this.U@[k as int]); prod_pivots(B1, this.U@[k as int], this.R@[k as int], this.p2c@[k as int]@);
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] red_at(C.boundary@[q], this.R@[q], this.p2c@[q]@) by { if q < k { assert(red_at(C.boundary@[q], T1.R@[q], T1.p2c@[q]@)); } }
    assert forall|q: int| 0 <= q < k + 1 implies #[trigger] bas_at(C.boundary@[q], this.R@[q], this.U@[q]) by { if q < k { assert(bas_at(C.boundary@[q], T1.R@[q], T1.U@[q])); } } }
@at before rcc_set_indices 0
  proof { red_fit(*C, this); }
