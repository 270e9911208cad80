@unit la
@uses csc
@rust
pub open spec fn idx_from(r: Seq<usize>, a: int, x: usize) -> bool { exists|l: int| a <= l < r.len() && #[trigger] r[l] == x }
pub proof fn csum_trunc<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, a: int, b: int, i: int)
    requires 0 <= a, forall|k: int| a <= k < b ==> #[trigger] r2[k] == r[k], forall|k: int| a <= k < b ==> #[trigger] v2[k] == v[k] ensures csum(r2, v2, a, b, i) == csum(r, v, a, b, i)
{ assert forall|k: int| a <= k < b implies #[trigger] r[k] == r2[k + 0] && v[k] == v2[k + 0] by { assert(r2[k] == r[k]); assert(v2[k] == v[k]); } csum_ext(r, v, r2, v2, a, b, 0, i); }
pub proof fn csum_set<F: Field>(r: Seq<usize>, v: Seq<F>, v2: Seq<F>, a: int, b: int, k: int, y: F, i: int)
    requires 0 <= a <= k < b <= v.len(), v2 == v.update(k, F::sadd(v[k], y)) ensures csum(r, v2, a, b, i) == F::sadd(csum(r, v, a, b, i), if r[k] == i { y } else { F::szero() })
{
    broadcast use field_basic;
    csum_split(r, v, a, k + 1, b, i); csum_split(r, v2, a, k + 1, b, i);
    csum_trunc(r, v, r, v2, a, k, i); csum_trunc(r, v, r, v2, k + 1, b, i);
    let p = csum(r, v, a, k, i); let s = csum(r, v, k + 1, b, i);
    if r[k] == i { F::ax_add_assoc(p, v[k], y); F::ax_add_assoc(F::sadd(p, v[k]), y, s); F::ax_add_comm(y, s); F::ax_add_assoc(F::sadd(p, v[k]), s, y); }
}
// ---- accumulating a sorted run: (ind, val) up to f stands for (r1, v1) up to l ----
#[verifier::opaque]
pub open spec fn accum<F: Field>(r1: Seq<usize>, v1: Seq<F>, r: Seq<usize>, v: Seq<F>, o: int, f: int, l: int) -> bool {
    &&& 0 <= o <= f < l <= r1.len() && r.len() == r1.len() && v.len() == r1.len() && v1.len() == r1.len()
    &&& (forall|k: int| l <= k < r1.len() || 0 <= k < o ==> #[trigger] r[k] == r1[k]) && (forall|k: int| l <= k < r1.len() || 0 <= k < o ==> #[trigger] v[k] == v1[k])
    &&& rincr(r, o, f + 1) && r[f] == r1[l - 1] && (forall|k: int| o <= k < f ==> #[trigger] v[k] != F::szero())
    &&& (forall|k: int| o <= k <= f ==> idx_from(r1, o, #[trigger] r[k]))
    &&& (forall|i: int| #[trigger] csum(r, v, o, f + 1, i) == csum(r1, v1, o, l, i))
}
pub proof fn accum_start<F: Field>(r1: Seq<usize>, v1: Seq<F>, o: int) requires 0 <= o < r1.len(), v1.len() == r1.len() ensures accum(r1, v1, r1, v1, o, o, o + 1) { reveal(accum); }
pub proof fn accum_facts<F: Field>(r1: Seq<usize>, v1: Seq<F>, r: Seq<usize>, v: Seq<F>, o: int, f: int, l: int) requires accum(r1, v1, r, v, o, f, l)
    ensures 0 <= o <= f < l <= r1.len(), r.len() == r1.len(), v.len() == r1.len(), l < r1.len() ==> r[l] == r1[l] && v[l] == v1[l] { reveal(accum); }
pub proof fn accum_add<F: Field>(r1: Seq<usize>, v1: Seq<F>, r: Seq<usize>, v: Seq<F>, v2: Seq<F>, o: int, f: int, l: int)
    requires accum(r1, v1, r, v, o, f, l), l < r1.len(), r1[l] == r[f], v2 == v.update(f, F::sadd(v[f], v1[l])) ensures accum(r1, v1, r, v2, o, f, l + 1)
{ reveal(accum); assert forall|i: int| #[trigger] csum(r, v2, o, f + 1, i) == csum(r1, v1, o, l + 1, i) by { csum_set(r, v, v2, o, f + 1, f, v1[l], i); assert(csum(r, v, o, f + 1, i) == csum(r1, v1, o, l, i)); } }
pub proof fn accum_new<F: Field>(r1: Seq<usize>, v1: Seq<F>, r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, o: int, f: int, l: int, f2: int)
    requires accum(r1, v1, r, v, o, f, l), l < r1.len(), rnondecr(r1, o, r1.len() as int), r1[l] != r[f], f2 == if v[f] == F::szero() { f } else { f + 1 }, r2 == r.update(f2, r1[l]), v2 == v.update(f2, v1[l])
    ensures accum(r1, v1, r2, v2, o, f2, l + 1)
{
    reveal(accum); broadcast use field_basic;
    assert(r1[l - 1] <= r1[l]);
    assert forall|k: int, q: int| o <= k < q < f2 + 1 implies #[trigger] r2[k] < #[trigger] r2[q] by { if q < f2 { assert(r[k] < r[q]); } else if k < f { assert(r[k] < r[f]); } }
    assert forall|k: int| o <= k <= f2 implies idx_from(r1, o, #[trigger] r2[k]) by { if k < f2 { assert(idx_from(r1, o, r[k])); } else { assert(r1[l] == r2[k]); } }
    assert forall|i: int| #[trigger] csum(r2, v2, o, f2 + 1, i) == csum(r1, v1, o, l + 1, i) by { assert(csum(r, v, o, f + 1, i) == csum(r1, v1, o, l, i)); csum_trunc(r, v, r2, v2, o, f2, i); }
}
// what sort_sum_reduce leaves: the same sums, rows increasing, no zeros, the part before o untouched
pub open spec fn reduced_run<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, o: int) -> bool {
    &&& o <= r2.len() && r2.len() == v2.len() && rincr(r2, o, r2.len() as int) && (forall|k: int| 0 <= k < o ==> #[trigger] r2[k] == r[k]) && (forall|k: int| 0 <= k < o ==> #[trigger] v2[k] == v[k])
    &&& (forall|k: int| o <= k < r2.len() ==> #[trigger] v2[k] != F::szero()) && (forall|k: int| o <= k < r2.len() ==> idx_from(r, o, #[trigger] r2[k]))
    &&& (forall|i: int| #[trigger] csum(r2, v2, o, r2.len() as int, i) == csum(r, v, o, r.len() as int, i))
}
pub proof fn accum_done<F: Field>(r0: Seq<usize>, v0: Seq<F>, r1: Seq<usize>, v1: Seq<F>, r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, o: int, f: int, e: int, q: Seq<usize>)
    requires accum(r1, v1, r, v, o, f, r1.len() as int), permrun(r0, r1, o, r0.len() as int, q), permrun(v0, v1, o, r0.len() as int, q), r0.len() == v0.len(), e == if v[f] == F::szero() { f } else { f + 1 }, r2.len() == e, v2.len() == e, forall|k: int| 0 <= k < e ==> #[trigger] r2[k] == r[k], forall|k: int| 0 <= k < e ==> #[trigger] v2[k] == v[k]
    ensures reduced_run(r0, v0, r2, v2, o)
{
    reveal(accum); broadcast use field_basic;
    assert forall|k: int, q: int| o <= k < q < e implies #[trigger] r2[k] < #[trigger] r2[q] by { assert(r[k] < r[q]); }
    assert forall|k: int| o <= k < e implies idx_from(r0, o, #[trigger] r2[k]) by { assert(idx_from(r1, o, r[k])); let l = choose|l: int| o <= l < r1.len() && #[trigger] r1[l] == r[k]; let x = q[l - o]; assert(r1[o + (l - o)] == r0[o + x]); }
    assert forall|i: int| #[trigger] csum(r2, v2, o, e, i) == csum(r0, v0, o, r0.len() as int, i) by { assert(csum(r, v, o, f + 1, i) == csum(r1, v1, o, r1.len() as int, i)); csum_trunc(r, v, r2, v2, o, e, i); csum_rearr(r0, v0, r1, v1, o, r0.len() as int, q, i); }
}
// ---- appending terms whose sums per row are G ----
#[verifier::opaque]
pub open spec fn appd<F: Field>(r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>, m: int, G: spec_fn(int) -> F) -> bool {
    &&& extends(r0, r) && extends(v0, v) && r0.len() == v0.len() && r.len() == v.len() && (forall|k: int| r0.len() <= k < r.len() ==> #[trigger] r[k] < m)
    &&& (forall|i: int| #[trigger] csum(r, v, r0.len() as int, r.len() as int, i) == G(i))
}
pub proof fn appd_start<F: Field>(r0: Seq<usize>, v0: Seq<F>, m: int, G: spec_fn(int) -> F) requires r0.len() == v0.len(), forall|i: int| #[trigger] G(i) == F::szero() ensures appd(r0, v0, r0, v0, m, G) { reveal(appd); }
pub proof fn appd_ext<F: Field>(r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>, m: int, G: spec_fn(int) -> F, H: spec_fn(int) -> F) requires appd(r0, v0, r, v, m, G), forall|i: int| #[trigger] H(i) == G(i) ensures appd(r0, v0, r, v, m, H) { reveal(appd); }
pub proof fn appd_push<F: Field>(r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>, x: usize, y: F, m: int, G: spec_fn(int) -> F, H: spec_fn(int) -> F)
    requires appd(r0, v0, r, v, m, G), x < m, forall|i: int| #[trigger] H(i) == F::sadd(G(i), if x == i { y } else { F::szero() })
    ensures appd(r0, v0, r.push(x), v.push(y), m, H)
{ reveal(appd); assert forall|i: int| #[trigger] csum(r.push(x), v.push(y), r0.len() as int, (r.len() + 1) as int, i) == H(i) by { csum_push(r, v, r.push(x), v.push(y), r0.len() as int, i); assert(csum(r, v, r0.len() as int, r.len() as int, i) == G(i)); } }
pub proof fn appd_len<F: Field>(r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>, m: int, G: spec_fn(int) -> F) requires appd(r0, v0, r, v, m, G) ensures r.len() == v.len(), r0.len() <= r.len() { reveal(appd); }
pub proof fn appd_built<F: Field>(p: Seq<usize>, r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>, p2: Seq<usize>, r2: Seq<usize>, v2: Seq<F>, m: int, j: int, G: spec_fn(int) -> F, T: spec_fn(int, int) -> F)
    requires built(true, p, r0, v0, m, j, T), appd(r0, v0, r, v, m, G), reduced_run(r, v, r2, v2, r0.len() as int), 0 <= j, j + 1 < p.len(), r2.len() <= usize::MAX, p2 == p.update(j + 1, r2.len() as usize), forall|i: int| #[trigger] T(i, j) == G(i)
    ensures built(true, p2, r2, v2, m, j + 1, T)
{
    reveal(appd);
    assert forall|k: int| r0.len() <= k < r2.len() implies #[trigger] r2[k] < m by { assert(idx_from(r, r0.len() as int, r2[k])); }
    assert forall|k: int| 0 <= k < r0.len() implies #[trigger] r2[k] == r0[k] by { assert(r2[k] == r[k]); }
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] v2[k] == v0[k] by { assert(v2[k] == v[k]); }
    assert forall|i: int| #[trigger] csum(r2, v2, r0.len() as int, r2.len() as int, i) == T(i, j) by { assert(csum(r, v, r0.len() as int, r.len() as int, i) == G(i)); }
    built_next(true, p, r0, v0, p2, r2, v2, m, j, T);
}
pub open spec fn coltop<F>(A: CSC<F>, j: int) -> bool { 0 <= A.colptr@[j] <= A.colptr@[j + 1] <= A.rowind@.len() }
pub proof fn coltop_is<F: Field>(A: CSC<F>, j: int) requires cshape(A), 0 <= j < A.n ensures coltop(A, j) { assert(A.colptr@[j] <= A.colptr@[j + 1]); assert(A.colptr@[j + 1] <= A.colptr@[A.n as int]); }
// ---- products ----
pub open spec fn gmf<F: Field>(A: CSC<F>, B: CSC<F>, i: int, j: int) -> spec_fn(int) -> F { |k: int| F::smul(cscv(A, i, k), cscv(B, k, j)) }
pub open spec fn gmul<F: Field>(A: CSC<F>, B: CSC<F>) -> spec_fn(int, int) -> F { |i: int, j: int| fsum(A.n as int, gmf(A, B, i, j)) }
pub open spec fn gsum<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int, i: int) -> F
    decreases q - a
{ if q <= a { F::szero() } else { F::sadd(gsum(A, B, a, q - 1, i), F::smul(B.val@[q - 1], cscv(A, i, B.rowind@[q - 1] as int))) } }
pub open spec fn gB<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int) -> spec_fn(int) -> F { |i: int| gsum(A, B, a, q, i) }
pub open spec fn gA<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int, c: int, t: int) -> spec_fn(int) -> F { |i: int| F::sadd(gsum(A, B, a, q, i), F::smul(B.val@[q], csum(A.rowind@, A.val@, c, t, i))) }
pub open spec fn gmp<F: Field>(A: CSC<F>, B: CSC<F>, i: int, a: int, q: int) -> spec_fn(int) -> F { |k: int| F::smul(cscv(A, i, k), csum(B.rowind@, B.val@, a, q, k)) }
pub proof fn fsum_bump<F: Field>(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F, k: int, d: F)
    requires 0 <= k < n, g(k) == F::sadd(f(k), d), forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == g(i) ensures fsum(n, g) == F::sadd(fsum(n, f), d)
{
    broadcast use field_basic;
    let h = |i: int| if i == k { d } else { F::szero() };
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == F::sadd(f(i), h(i)) by { if i != k { assert(f(i) == g(i)); } }
    fsum_add(n, f, h, g); fsum_one(n, h, k);
}
pub proof fn gsum_fsum<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int, i: int)
    requires 0 <= a <= q <= B.rowind@.len(), cshape(B), A.n == B.m ensures gsum(A, B, a, q, i) == fsum(A.n as int, gmp(A, B, i, a, q))
    decreases q - a
{
    broadcast use field_basic;
    if a == q { assert forall|k: int| 0 <= k < A.n implies #[trigger] gmp(A, B, i, a, q)(k) == F::szero() by { } fsum_zero(A.n as int, gmp(A, B, i, a, q)); }
    else { gsum_fsum(A, B, a, q - 1, i); let k = B.rowind@[q - 1] as int; let f = gmp(A, B, i, a, q - 1); let g = gmp(A, B, i, a, q);
        F::ax_distrib(cscv(A, i, k), csum(B.rowind@, B.val@, a, q - 1, k), B.val@[q - 1]);
        fsum_bump(A.n as int, f, g, k, F::smul(B.val@[q - 1], cscv(A, i, k))); }
}
pub proof fn gA_push<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int, c: int, t: int, r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>)
    requires appd(r0, v0, r, v, A.m as int, gA(A, B, a, q, c, t)), 0 <= c <= t < A.rowind@.len(), cshape(A)
    ensures appd(r0, v0, r.push(A.rowind@[t]), v.push(F::smul(B.val@[q], A.val@[t])), A.m as int, gA(A, B, a, q, c, t + 1))
{
    broadcast use field_basic;
    let x = A.rowind@[t]; let y = F::smul(B.val@[q], A.val@[t]);
    assert forall|i: int| #[trigger] gA(A, B, a, q, c, t + 1)(i) == F::sadd(gA(A, B, a, q, c, t)(i), if x == i { y } else { F::szero() }) by {
        let s = csum(A.rowind@, A.val@, c, t, i); let w = ctm(A.rowind@, A.val@, t, i);
        F::ax_distrib(B.val@[q], s, w); F::ax_add_assoc(gsum(A, B, a, q, i), F::smul(B.val@[q], s), F::smul(B.val@[q], w)); }
    appd_push(r0, v0, r, v, x, y, A.m as int, gA(A, B, a, q, c, t), gA(A, B, a, q, c, t + 1));
}
pub proof fn gB_next<F: Field>(A: CSC<F>, B: CSC<F>, a: int, q: int, r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>)
    requires a <= q
    ensures appd(r0, v0, r, v, A.m as int, gB(A, B, a, q)) ==> appd(r0, v0, r, v, A.m as int, gA(A, B, a, q, A.colptr@[B.rowind@[q] as int] as int, A.colptr@[B.rowind@[q] as int] as int)),
        appd(r0, v0, r, v, A.m as int, gA(A, B, a, q, A.colptr@[B.rowind@[q] as int] as int, A.colptr@[B.rowind@[q] + 1] as int)) ==> appd(r0, v0, r, v, A.m as int, gB(A, B, a, q + 1))
{
    broadcast use field_basic;
    let k = B.rowind@[q] as int; let c = A.colptr@[k] as int; let d = A.colptr@[k + 1] as int;
    if appd(r0, v0, r, v, A.m as int, gB(A, B, a, q)) { appd_ext(r0, v0, r, v, A.m as int, gB(A, B, a, q), gA(A, B, a, q, c, c)); }
    if appd(r0, v0, r, v, A.m as int, gA(A, B, a, q, c, d)) { appd_ext(r0, v0, r, v, A.m as int, gA(A, B, a, q, c, d), gB(A, B, a, q + 1)); }
}
// ---- sums al * A + B ----
pub open spec fn axpb<F: Field>(al: F, A: CSC<F>, B: CSC<F>) -> spec_fn(int, int) -> F { |i: int, j: int| F::sadd(F::smul(al, cscv(A, i, j)), cscv(B, i, j)) }
pub open spec fn sB<F: Field>(al: F, A: CSC<F>, B: CSC<F>, a: int, q: int, c: int, t: int) -> spec_fn(int) -> F { |i: int| F::sadd(csum(B.rowind@, B.val@, a, q, i), F::smul(al, csum(A.rowind@, A.val@, c, t, i))) }
pub proof fn sB_push<F: Field>(al: F, A: CSC<F>, B: CSC<F>, a: int, q: int, c: int, t: int, r0: Seq<usize>, v0: Seq<F>, r: Seq<usize>, v: Seq<F>)
    requires appd(r0, v0, r, v, A.m as int, sB(al, A, B, a, q, c, t)), cshape(A), cshape(B), B.m == A.m
    ensures 0 <= a <= q < B.rowind@.len() && c == t ==> appd(r0, v0, r.push(B.rowind@[q]), v.push(B.val@[q]), A.m as int, sB(al, A, B, a, q + 1, c, t)),
        0 <= c <= t < A.rowind@.len() ==> appd(r0, v0, r.push(A.rowind@[t]), v.push(F::smul(al, A.val@[t])), A.m as int, sB(al, A, B, a, q, c, t + 1))
{
    broadcast use field_basic;
    if 0 <= a <= q < B.rowind@.len() && c == t { appd_push(r0, v0, r, v, B.rowind@[q], B.val@[q], A.m as int, sB(al, A, B, a, q, c, t), sB(al, A, B, a, q + 1, c, t)); }
    if 0 <= c <= t < A.rowind@.len() {
        let x = A.rowind@[t]; let y = F::smul(al, A.val@[t]);
        assert forall|i: int| #[trigger] sB(al, A, B, a, q, c, t + 1)(i) == F::sadd(sB(al, A, B, a, q, c, t)(i), if x == i { y } else { F::szero() }) by {
            let s = csum(A.rowind@, A.val@, c, t, i); let w = ctm(A.rowind@, A.val@, t, i);
            F::ax_distrib(al, s, w); F::ax_add_assoc(csum(B.rowind@, B.val@, a, q, i), F::smul(al, s), F::smul(al, w)); }
        appd_push(r0, v0, r, v, x, y, A.m as int, sB(al, A, B, a, q, c, t), sB(al, A, B, a, q, c, t + 1)); }
}
pub open spec fn cadd<F: Field>(A: CSC<F>, B: CSC<F>) -> spec_fn(int, int) -> F { |i: int, j: int| F::sadd(cscv(A, i, j), cscv(B, i, j)) }
@end
@fn bats::util::sort_sum_reduce(&mut Vec<usize>, &mut Vec<F>, usize, &mut Vec<usize>, &mut Vec<usize>, &mut Vec<F>) as sort_sum_reduce
@prop P15
@requires
  old(ind)@.len() == old(val)@.len(), offset <= old(ind)@.len(),
@ensures
  reduced_run(old(ind)@, old(val)@, final(ind)@, final(val)@, offset as int),
@at entry
  let ghost r0 = ind@; let ghost v0 = val@; let ghost a = offset as int; let ghost b = ind@.len() as int; let ghost mut q = Seq::<usize>::empty();
  proof { vec_max(*ind); }
@at cmp 0 requires
  begin__1 + a < ind@.len(), begin__1 + b < ind@.len()
@at cmp 0 spec
  ind@[begin__1 + a] < ind@[begin__1 + b]
@at before sort 0
  let ghost s0 = perm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, perm@); q = perm@;
    assert forall|k: int, l: int| 0 <= k < l < b - a implies r0[a + #[trigger] q[k]] <= r0[a + #[trigger] q[l]] by { assert(!lt0(q[l], q[k])); } }
@loop 0
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= r0.len(), begin__3 == a, ind@ == r0, tmpind@.len() == b - a, forall|k: int| 0 <= k < i ==> #[trigger] tmpind@[k] == r0[a + q[k]]
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= r0.len(), begin__3 == a, ind@.len() == r0.len(), tmpind@.len() == b - a, forall|k: int| 0 <= k < b - a ==> #[trigger] tmpind@[k] == r0[a + q[k]],
    forall|k: int| 0 <= k < i ==> ind@[a + k] == r0[a + #[trigger] q[k]], forall|k: int| 0 <= k < a || b <= k < r0.len() ==> #[trigger] ind@[k] == r0[k],
  decreases perm@.len() - i
@loop 2
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= r0.len(), r0.len() == v0.len(), begin__4 == a, val@ == v0, tmpval@.len() == b - a, forall|k: int| 0 <= k < i ==> #[trigger] tmpval@[k] == v0[a + q[k]]
  decreases perm@.len() - i
@loop 3
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= r0.len(), r0.len() == v0.len(), begin__4 == a, val@.len() == v0.len(), tmpval@.len() == b - a, forall|k: int| 0 <= k < b - a ==> #[trigger] tmpval@[k] == v0[a + q[k]],
    forall|k: int| 0 <= k < i ==> val@[a + k] == v0[a + #[trigger] q[k]], forall|k: int| 0 <= k < a || b <= k < v0.len() ==> #[trigger] val@[k] == v0[k],
  decreases perm@.len() - i
@at loop 4 before
  let ghost r1 = ind@; let ghost v1 = val@;
  proof { assert(permrun(r0, r1, a, b, q)); assert(permrun(v0, v1, a, b, q)); accum_start(r1, v1, a);
    assert forall|k: int, l: int| a <= k < l < b implies #[trigger] r1[k] <= #[trigger] r1[l] by { let x = q[k - a]; let y = q[l - a]; assert(r1[a + (k - a)] == r0[a + x]); assert(r1[a + (l - a)] == r0[a + y]); } }
@loop 4
  invariant rnondecr(r1, a, b), b == r1.len(), b <= i64::MAX, look_ptr <= b, accum(r1, v1, ind@, val@, a, fill_ptr as int, look_ptr as int)
  decreases b - look_ptr
@at loop 4 begin
  let ghost r2 = ind@; let ghost v2 = val@; let ghost f2 = fill_ptr as int; let ghost l2 = look_ptr as int; proof { accum_facts(r1, v1, r2, v2, a, f2, l2); }
@at loop 4 end
  proof { if r1[l2] == r2[f2] { accum_add(r1, v1, r2, v2, val@, a, f2, l2); } else { accum_new(r1, v1, r2, v2, ind@, val@, a, f2, l2, fill_ptr as int); } }
@at loop 4 after
  let ghost r3 = ind@; let ghost v3 = val@; let ghost f3 = fill_ptr as int; proof { accum_facts(r1, v1, r3, v3, a, f3, look_ptr as int); }
@at exit
  proof { if a < b { accum_done(r0, v0, r1, v1, r3, v3, ind@, val@, a, f3, ind@.len() as int, q); } }
@fn gemm(CSC<F>, CSC<F>, &mut CSC<F>) as csc_gemm
@prop P15
@requires
  cshape(*A), cshape(*B), A.n == B.m
@ensures
  cok(*final(C)), final(C).m == A.m, final(C).n == B.n, has_entries(*final(C), gmul(*A, *B)),
@at entry
  let ghost T: spec_fn(int, int) -> F = gmul(*A, *B); proof { vec_max(B.colptr); vec_max(A.colptr); }
@at loop 0 before
  proof { built_start(true, C.colptr@, C.rowind@, C.val@, m as int, T); }
@loop 0
  invariant j <= n, n == B.n, m == A.m, cshape(*A), cshape(*B), A.n == B.m, C.m == m, C.n == n, n < i64::MAX, C.colptr@.len() == n + 1, T == gmul(*A, *B), built(true, C.colptr@, C.rowind@, C.val@, m as int, j as int, T)
  decreases n - j
@at loop 0 begin
  let ghost p0 = C.colptr@; let ghost r0 = C.rowind@; let ghost v0 = C.val@; let ghost a = B.colptr@[j as int] as int;
  proof { built_len(true, p0, r0, v0, m as int, j as int, T); coltop_is(*B, j as int); appd_start(r0, v0, m as int, gB(*A, *B, a, a)); }
@loop 1
  invariant j < n, n == B.n, m == A.m, cshape(*A), cshape(*B), A.n == B.m, A.n < i64::MAX, C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, a == B.colptr@[j as int], coltop(*B, j as int), a <= pBj <= B.colptr@[j + 1], appd(r0, v0, C.rowind@, C.val@, m as int, gB(*A, *B, a, pBj as int))
  decreases B.colptr@[j + 1] - pBj
@at loop 1 begin
  let ghost c = A.colptr@[B.rowind@[pBj as int] as int] as int;
  proof { assert(B.rowind@[pBj as int] < A.n); coltop_is(*A, B.rowind@[pBj as int] as int); gB_next(*A, *B, a, pBj as int, r0, v0, C.rowind@, C.val@); }
@loop 2
  invariant j < n, n == B.n, m == A.m, cshape(*A), cshape(*B), A.n == B.m, A.n < i64::MAX, C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, a <= pBj < B.rowind@.len(), k == B.rowind@[pBj as int], k < A.n, v == B.val@[pBj as int], c == A.colptr@[k as int], coltop(*A, k as int), c <= pAk <= A.colptr@[k + 1], appd(r0, v0, C.rowind@, C.val@, m as int, gA(*A, *B, a, pBj as int, c, pAk as int))
  decreases A.colptr@[k + 1] - pAk
@at loop 2 begin
  proof { gA_push(*A, *B, a, pBj as int, c, pAk as int, r0, v0, C.rowind@, C.val@); }
@at loop 2 after
  proof { gB_next(*A, *B, a, pBj as int, r0, v0, C.rowind@, C.val@); }
@at before sort_sum_reduce 0
  let ghost r1 = C.rowind@; let ghost v1 = C.val@; proof { appd_len(r0, v0, r1, v1, m as int, gB(*A, *B, a, B.colptr@[j + 1] as int)); }
@at loop 0 end
  proof { vec_max(C.rowind); 
    assert forall|i: int| #[trigger] T(i, j as int) == gB(*A, *B, a, B.colptr@[j + 1] as int)(i) by { gsum_fsum(*A, *B, a, B.colptr@[j + 1] as int, i); fsum_ext(A.n as int, gmf(*A, *B, i, j as int), gmp(*A, *B, i, a, B.colptr@[j + 1] as int)); }
    appd_built(p0, r0, v0, r1, v1, C.colptr@, C.rowind@, C.val@, m as int, j as int, gB(*A, *B, a, B.colptr@[j + 1] as int), T); }
@at exit
  proof { built_done(true, *C, T); }
@fn CSC<F>::operator*(CSC<F>) const as csc_mul
@prop P15
@requires
  cshape(*this), cshape(*other), this.n == other.m
@ensures
  cok(ret), ret.m == this.m, ret.n == other.n, has_entries(ret, gmul(*this, *other)),
@fn sum(CSC<F>, CSC<F>, &mut CSC<F>) as csc_sum
@prop P15
@requires
  cshape(*A), cshape(*B), A.n == B.n, A.m == B.m
@ensures
  cok(*final(C)), final(C).m == A.m, final(C).n == A.n, has_entries(*final(C), cadd(*A, *B)),
@at entry
  let ghost al: F = F::sone(); let ghost T: spec_fn(int, int) -> F = cadd(*A, *B); proof { vec_max(B.colptr); }
@at loop 0 before
  proof { built_start(true, C.colptr@, C.rowind@, C.val@, m as int, T); }
@loop 0
  invariant j <= n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, n < i64::MAX, C.colptr@.len() == n + 1, al == F::sone(), T == cadd(*A, *B), built(true, C.colptr@, C.rowind@, C.val@, m as int, j as int, T)
  decreases n - j
@at loop 0 begin
  let ghost p0 = C.colptr@; let ghost r0 = C.rowind@; let ghost v0 = C.val@; let ghost a = B.colptr@[j as int] as int; let ghost c = A.colptr@[j as int] as int;
  proof { broadcast use field_basic; built_len(true, p0, r0, v0, m as int, j as int, T); coltop_is(*B, j as int); coltop_is(*A, j as int); appd_start(r0, v0, m as int, sB(al, *A, *B, a, a, c, c)); }
@loop 1
  invariant j < n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, a == B.colptr@[j as int], coltop(*B, j as int), a <= pBj <= B.colptr@[j + 1], appd(r0, v0, C.rowind@, C.val@, m as int, sB(al, *A, *B, a, pBj as int, c, c))
  decreases B.colptr@[j + 1] - pBj
@at loop 1 begin
  proof { sB_push(al, *A, *B, a, pBj as int, c, c, r0, v0, C.rowind@, C.val@); }
@loop 2
  invariant j < n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, al == F::sone(), c == A.colptr@[j as int], coltop(*A, j as int), c <= pAj <= A.colptr@[j + 1], appd(r0, v0, C.rowind@, C.val@, m as int, sB(al, *A, *B, a, B.colptr@[j + 1] as int, c, pAj as int))
  decreases A.colptr@[j + 1] - pAj
@at loop 2 begin
  proof { broadcast use field_basic; sB_push(al, *A, *B, a, B.colptr@[j + 1] as int, c, pAj as int, r0, v0, C.rowind@, C.val@); }
@at before sort_sum_reduce 0
  let ghost G: spec_fn(int) -> F = sB(al, *A, *B, a, B.colptr@[j + 1] as int, c, A.colptr@[j + 1] as int);
  let ghost r1 = C.rowind@; let ghost v1 = C.val@; proof { appd_len(r0, v0, r1, v1, m as int, G); }
@at loop 0 end
  proof { broadcast use field_basic; vec_max(C.rowind); 
    assert forall|i: int| #[trigger] T(i, j as int) == G(i) by { }
    appd_built(p0, r0, v0, r1, v1, C.colptr@, C.rowind@, C.val@, m as int, j as int, G, T); }
@at exit
  proof { built_done(true, *C, T); }
@fn sum(F, CSC<F>, CSC<F>, &mut CSC<F>) as csc_sum_a
@prop P15
@requires
  cshape(*A), cshape(*B), A.n == B.n, A.m == B.m
@ensures
  cok(*final(C)), final(C).m == A.m, final(C).n == A.n, has_entries(*final(C), axpb(alpha, *A, *B)),
@at entry
  let ghost al: F = alpha; let ghost T: spec_fn(int, int) -> F = axpb(alpha, *A, *B); proof { vec_max(B.colptr); }
@at loop 0 before
  proof { built_start(true, C.colptr@, C.rowind@, C.val@, m as int, T); }
@loop 0
  invariant j <= n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, n < i64::MAX, C.colptr@.len() == n + 1, al == alpha, T == axpb(alpha, *A, *B), built(true, C.colptr@, C.rowind@, C.val@, m as int, j as int, T)
  decreases n - j
@at loop 0 begin
  let ghost p0 = C.colptr@; let ghost r0 = C.rowind@; let ghost v0 = C.val@; let ghost a = B.colptr@[j as int] as int; let ghost c = A.colptr@[j as int] as int;
  proof { broadcast use field_basic; built_len(true, p0, r0, v0, m as int, j as int, T); coltop_is(*B, j as int); coltop_is(*A, j as int); appd_start(r0, v0, m as int, sB(al, *A, *B, a, a, c, c)); }
@loop 1
  invariant j < n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, a == B.colptr@[j as int], coltop(*B, j as int), a <= pBj <= B.colptr@[j + 1], appd(r0, v0, C.rowind@, C.val@, m as int, sB(al, *A, *B, a, pBj as int, c, c))
  decreases B.colptr@[j + 1] - pBj
@at loop 1 begin
  proof { sB_push(al, *A, *B, a, pBj as int, c, c, r0, v0, C.rowind@, C.val@); }
@loop 2
  invariant j < n, n == B.n, n == A.n, m == A.m, m == B.m, cshape(*A), cshape(*B), C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, al == alpha, c == A.colptr@[j as int], coltop(*A, j as int), c <= pAj <= A.colptr@[j + 1], appd(r0, v0, C.rowind@, C.val@, m as int, sB(al, *A, *B, a, B.colptr@[j + 1] as int, c, pAj as int))
  decreases A.colptr@[j + 1] - pAj
@at loop 2 begin
  proof { broadcast use field_basic; sB_push(al, *A, *B, a, B.colptr@[j + 1] as int, c, pAj as int, r0, v0, C.rowind@, C.val@); }
@at before sort_sum_reduce 0
  let ghost G: spec_fn(int) -> F = sB(al, *A, *B, a, B.colptr@[j + 1] as int, c, A.colptr@[j + 1] as int);
  let ghost r1 = C.rowind@; let ghost v1 = C.val@; proof { appd_len(r0, v0, r1, v1, m as int, G); }
@at loop 0 end
  proof { broadcast use field_basic; vec_max(C.rowind); 
    assert forall|i: int| #[trigger] T(i, j as int) == G(i) by { }
    appd_built(p0, r0, v0, r1, v1, C.colptr@, C.rowind@, C.val@, m as int, j as int, G, T); }
@at exit
  proof { built_done(true, *C, T); }
