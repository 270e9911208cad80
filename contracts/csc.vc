@unit la
@uses rcc_perm
@rust
// ---- compressed sparse columns: the entry (i, j) is the sum of the stored terms of column j in row i ----
pub open spec fn ctm<F: Field>(r: Seq<usize>, v: Seq<F>, k: int, i: int) -> F { if r[k] == i { v[k] } else { F::szero() } }
pub open spec fn csum<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, b: int, i: int) -> F
    decreases b - a
{ if b <= a { F::szero() } else { F::sadd(csum(r, v, a, b - 1, i), ctm(r, v, b - 1, i)) } }
pub open spec fn cfn<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, i: int) -> spec_fn(int) -> F { |k: int| ctm(r, v, a + k, i) }
pub proof fn csum_fsum<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, b: int, i: int)
    requires a <= b ensures csum(r, v, a, b, i) == fsum(b - a, cfn(r, v, a, i))
    decreases b - a
{ if a < b { csum_fsum(r, v, a, b - 1, i); assert(a + (b - a - 1) == b - 1); assert(cfn(r, v, a, i)(b - a - 1) == ctm(r, v, b - 1, i)); } }
pub proof fn csum_ext<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, a: int, b: int, d: int, i: int)
    requires forall|k: int| a <= k < b ==> #[trigger] r[k] == r2[k + d] && v[k] == v2[k + d]
    ensures csum(r2, v2, a + d, b + d, i) == csum(r, v, a, b, i)
    decreases b - a
{ if a < b { csum_ext(r, v, r2, v2, a, b - 1, d, i); assert(r[b - 1] == r2[b - 1 + d]); } }
pub proof fn csum_split<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, c: int, b: int, i: int)
    requires a <= c <= b ensures csum(r, v, a, b, i) == F::sadd(csum(r, v, a, c, i), csum(r, v, c, b, i))
    decreases b - c
{ broadcast use field_basic; if c < b { csum_split(r, v, a, c, b - 1, i); F::ax_add_assoc(csum(r, v, a, c, i), csum(r, v, c, b - 1, i), ctm(r, v, b - 1, i)); } }
pub proof fn csum_none<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, b: int, i: int)
    requires forall|k: int| a <= k < b ==> #[trigger] r[k] != i || v[k] == F::szero() ensures csum(r, v, a, b, i) == F::szero()
    decreases b - a
{ broadcast use field_basic; if a < b { csum_none(r, v, a, b - 1, i); assert(r[b - 1] != i || v[b - 1] == F::szero()); } }
pub proof fn csum_one<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, b: int, k0: int)
    requires a <= k0 < b, forall|k: int| a <= k < b && k != k0 ==> #[trigger] r[k] != r[k0] ensures csum(r, v, a, b, r[k0] as int) == v[k0]
{
    broadcast use field_basic;
    let i = r[k0] as int;
    csum_split(r, v, a, k0 + 1, b, i); csum_none(r, v, a, k0, i); csum_none(r, v, k0 + 1, b, i);
}
// columns delimited by the column pointers, rows in range
pub open spec fn cdata(p: Seq<usize>, r: Seq<usize>, nv: int, m: int, n: int) -> bool {
    &&& p.len() == n + 1 && r.len() == nv && p[0] == 0 && p[n] == r.len()
    &&& (forall|a: int, b: int| 0 <= a <= b <= n ==> #[trigger] p[a] <= #[trigger] p[b])
    &&& (forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < m)
}
pub open spec fn cdata_distinct(p: Seq<usize>, r: Seq<usize>, nv: int, m: int, n: int) -> bool { cdata(p, r, nv, m, n) && forall|j: int| 0 <= j < n ==> #[trigger] cdist(p, r, j) }
pub open spec fn cshape<F>(A: CSC<F>) -> bool { cdata(A.colptr@, A.rowind@, A.val@.len() as int, A.m as int, A.n as int) }
pub open spec fn rdistinct(r: Seq<usize>, a: int, b: int) -> bool { forall|k: int, l: int| a <= k < l < b ==> #[trigger] r[k] != #[trigger] r[l] }
pub open spec fn rincr(r: Seq<usize>, a: int, b: int) -> bool { forall|k: int, l: int| a <= k < l < b ==> #[trigger] r[k] < #[trigger] r[l] }
pub open spec fn rnondecr(r: Seq<usize>, a: int, b: int) -> bool { forall|k: int, l: int| a <= k < l < b ==> #[trigger] r[k] <= #[trigger] r[l] }
pub open spec fn ccol(A: Seq<usize>, r: Seq<usize>, j: int) -> bool { rincr(r, A[j] as int, A[j + 1] as int) }
pub open spec fn cdist(A: Seq<usize>, r: Seq<usize>, j: int) -> bool { rdistinct(r, A[j] as int, A[j + 1] as int) }
// every column has its rows increasing
pub open spec fn cok<F>(A: CSC<F>) -> bool { cshape(A) && forall|j: int| 0 <= j < A.n ==> #[trigger] ccol(A.colptr@, A.rowind@, j) }
pub open spec fn cdistinct<F>(A: CSC<F>) -> bool { cdata_distinct(A.colptr@, A.rowind@, A.val@.len() as int, A.m as int, A.n as int) }
pub open spec fn cent<F: Field>(p: Seq<usize>, r: Seq<usize>, v: Seq<F>, i: int, j: int) -> F { csum(r, v, p[j] as int, p[j + 1] as int, i) }
pub open spec fn cscv<F: Field>(A: CSC<F>, i: int, j: int) -> F { cent(A.colptr@, A.rowind@, A.val@, i, j) }
// (r2, v2) is (r, v) with the positions a..b rearranged by q
pub open spec fn permrun<T>(r: Seq<T>, r2: Seq<T>, a: int, b: int, q: Seq<usize>) -> bool {
    &&& r2.len() == r.len() && 0 <= a <= b <= r.len() && permu(q, b - a)
    &&& (forall|k: int| 0 <= k < b - a ==> r2[a + k] == r[a + #[trigger] q[k]])
    &&& (forall|k: int| 0 <= k < a || b <= k < r.len() ==> #[trigger] r2[k] == r[k])
}
pub proof fn csum_rearr<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, a: int, b: int, q: Seq<usize>, i: int)
    requires permrun(r, r2, a, b, q), permrun(v, v2, a, b, q) ensures csum(r2, v2, a, b, i) == csum(r, v, a, b, i)
{
    csum_fsum(r, v, a, b, i); csum_fsum(r2, v2, a, b, i);
    let f = cfn(r, v, a, i); let g = cfn(r2, v2, a, i);
    assert forall|k: int| 0 <= k < b - a implies #[trigger] g(k) == f(q[k] as int) by { let x = q[k]; assert(r2[a + k] == r[a + x]); assert(v2[a + k] == v[a + x]); }
    fsum_perm(b - a, q, f, g);
}
pub proof fn rearr_distinct(r: Seq<usize>, r2: Seq<usize>, a: int, b: int, q: Seq<usize>)
    requires permrun(r, r2, a, b, q), rdistinct(r, a, b) ensures rdistinct(r2, a, b)
{ assert forall|k: int, l: int| a <= k < l < b implies #[trigger] r2[k] != #[trigger] r2[l] by { let x = q[k - a]; let y = q[l - a]; assert(r2[a + (k - a)] == r[a + x]); assert(r2[a + (l - a)] == r[a + y]); assert(x != y); if x < y { } else { assert(r[a + y] != r[a + x]); } } }
pub proof fn rearr_all(r: Seq<usize>, r2: Seq<usize>, a: int, b: int, q: Seq<usize>, m: int)
    requires permrun(r, r2, a, b, q), forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < m ensures forall|k: int| 0 <= k < r2.len() ==> #[trigger] r2[k] < m
{ assert forall|k: int| 0 <= k < r2.len() implies #[trigger] r2[k] < m by { if a <= k < b { let x = q[k - a]; assert(r2[a + (k - a)] == r[a + x]); } else { assert(r2[k] == r[k]); } } }
// the entries, and the distinctness of rows within columns, survive sorting
pub open spec fn same_entries<F: Field>(A: CSC<F>, B: CSC<F>) -> bool {
    &&& B.colptr@ == A.colptr@ && B.m == A.m && B.n == A.n && B.rowind@.len() == A.rowind@.len() && cshape(B)
    &&& (forall|i: int, j: int| 0 <= j < A.n ==> #[trigger] cscv(B, i, j) == cscv(A, i, j))
    &&& (forall|j: int| 0 <= j < A.n && #[trigger] cdist(A.colptr@, A.rowind@, j) ==> cdist(B.colptr@, B.rowind@, j))
}
pub open spec fn sorted_upto<F>(A: CSC<F>, n: int) -> bool { forall|j: int| 0 <= j < n ==> rnondecr(A.rowind@, #[trigger] A.colptr@[j] as int, A.colptr@[j + 1] as int) }
pub proof fn sort_step<F: Field>(A: CSC<F>, B: CSC<F>, j0: int, q: Seq<usize>)
    requires cshape(A), 0 <= j0 < A.n, B.colptr@ == A.colptr@, B.m == A.m, B.n == A.n, permrun(A.rowind@, B.rowind@, A.colptr@[j0] as int, A.colptr@[j0 + 1] as int, q), permrun(A.val@, B.val@, A.colptr@[j0] as int, A.colptr@[j0 + 1] as int, q)
    ensures same_entries(A, B), sorted_upto(A, j0) && rnondecr(B.rowind@, B.colptr@[j0] as int, B.colptr@[j0 + 1] as int) ==> sorted_upto(B, j0 + 1)
{
    let p = A.colptr@; let a = p[j0] as int; let b = p[j0 + 1] as int;
    rearr_all(A.rowind@, B.rowind@, a, b, q, A.m as int);
    assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] cscv(B, i, j) == cscv(A, i, j) by {
        if j == j0 { csum_rearr(A.rowind@, A.val@, B.rowind@, B.val@, a, b, q, i); }
        else { assert(p[j] <= p[j + 1]); assert(p[0] <= p[j]); assert(p[j + 1] <= p[A.n as int]); if j < j0 { assert(p[j + 1] <= p[j0]); } else { assert(p[j0 + 1] <= p[j]); }
            assert forall|k: int| p[j] <= k < p[j + 1] implies #[trigger] A.rowind@[k] == B.rowind@[k + 0] && A.val@[k] == B.val@[k + 0] by { }
            csum_ext(A.rowind@, A.val@, B.rowind@, B.val@, p[j] as int, p[j + 1] as int, 0, i); }
    }
    assert forall|j: int| 0 <= j < A.n && #[trigger] cdist(p, A.rowind@, j) implies cdist(p, B.rowind@, j) by {
        if j == j0 { rearr_distinct(A.rowind@, B.rowind@, a, b, q); }
        else { assert(p[j] <= p[j + 1]); assert(p[0] <= p[j]); assert(p[j + 1] <= p[A.n as int]); if j < j0 { assert(p[j + 1] <= p[j0]); } else { assert(p[j0 + 1] <= p[j]); } }
    }
    if sorted_upto(A, j0) && rnondecr(B.rowind@, a, b) {
        assert forall|j: int| 0 <= j < j0 + 1 implies rnondecr(B.rowind@, #[trigger] B.colptr@[j] as int, B.colptr@[j + 1] as int) by {
            if j < j0 { assert(rnondecr(A.rowind@, A.colptr@[j] as int, A.colptr@[j + 1] as int)); assert(p[0] <= p[j]); assert(p[j + 1] <= p[j0]); assert(p[j0] <= p[A.n as int]);
                assert forall|k: int, l: int| p[j] <= k < l < p[j + 1] implies #[trigger] B.rowind@[k] <= #[trigger] B.rowind@[l] by { assert(B.rowind@[k] == A.rowind@[k]); assert(B.rowind@[l] == A.rowind@[l]); } }
        }
    }
}
pub proof fn same_trans<F: Field>(A: CSC<F>, B: CSC<F>, C: CSC<F>) requires same_entries(A, B), same_entries(B, C) ensures same_entries(A, C)
{ assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] cscv(C, i, j) == cscv(A, i, j) by { assert(cscv(B, i, j) == cscv(A, i, j)); } 
  assert forall|j: int| 0 <= j < A.n && #[trigger] cdist(A.colptr@, A.rowind@, j) implies cdist(C.colptr@, C.rowind@, j) by { assert(cdist(B.colptr@, B.rowind@, j)); } }
pub open spec fn col_sorted_by<F>(A: CSC<F>, B: CSC<F>, j: int) -> bool {
    (exists|q: Seq<usize>| permrun(A.rowind@, B.rowind@, A.colptr@[j] as int, A.colptr@[j + 1] as int, q) && #[trigger] permrun(A.val@, B.val@, A.colptr@[j] as int, A.colptr@[j + 1] as int, q))
    && rnondecr(B.rowind@, A.colptr@[j] as int, A.colptr@[j + 1] as int) && B.colptr == A.colptr && B.m == A.m && B.n == A.n }
#[verifier::opaque]
pub open spec fn sort_inv<F: Field>(A: CSC<F>, B: CSC<F>, n: int) -> bool { cshape(A) && same_entries(A, B) && sorted_upto(B, n) }
pub proof fn sort_start<F: Field>(A: CSC<F>) requires cshape(A) ensures sort_inv(A, A, 0) { reveal(sort_inv); }
pub proof fn sort_shape<F: Field>(A: CSC<F>, B: CSC<F>, n: int) requires sort_inv(A, B, n) ensures cshape(B), B.n == A.n { reveal(sort_inv); }
pub proof fn sort_advance<F: Field>(A: CSC<F>, B: CSC<F>, C: CSC<F>, j: int) requires sort_inv(A, B, j), col_sorted_by(B, C, j), 0 <= j < A.n ensures sort_inv(A, C, j + 1)
{ reveal(sort_inv);
  let q = choose|q: Seq<usize>| permrun(B.rowind@, C.rowind@, B.colptr@[j] as int, B.colptr@[j + 1] as int, q) && #[trigger] permrun(B.val@, C.val@, B.colptr@[j] as int, B.colptr@[j + 1] as int, q); sort_step(B, C, j, q); same_trans(A, B, C); }
pub proof fn sort_done<F: Field>(A: CSC<F>, B: CSC<F>) requires sort_inv(A, B, A.n as int) ensures same_entries(A, B), sorted_upto(B, B.n as int), cdistinct(A) ==> cok(B) { reveal(sort_inv);
  if cdistinct(A) { assert forall|j: int| 0 <= j < B.n implies #[trigger] cdist(B.colptr@, B.rowind@, j) by { assert(cdist(A.colptr@, A.rowind@, j)); } sorted_ok(B); } }
pub proof fn sorted_ok<F: Field>(A: CSC<F>) requires cdistinct(A), sorted_upto(A, A.n as int) ensures cok(A)
{ assert forall|j: int| 0 <= j < A.n implies #[trigger] ccol(A.colptr@, A.rowind@, j) by { assert(cdist(A.colptr@, A.rowind@, j)); assert(rnondecr(A.rowind@, A.colptr@[j] as int, A.colptr@[j + 1] as int)); assert forall|k: int, l: int| A.colptr@[j] <= k < l < A.colptr@[j + 1] implies #[trigger] A.rowind@[k] < #[trigger] A.rowind@[l] by { assert(A.rowind@[k] != A.rowind@[l]); } } }
// ---- building a matrix column after column: columns 0..j are finished and agree with T ----
pub open spec fn colprop(inc: bool, r: Seq<usize>, a: int, b: int) -> bool { if inc { rincr(r, a, b) } else { rdistinct(r, a, b) } }
#[verifier::opaque]
pub open spec fn built<F: Field>(inc: bool, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, m: int, j: int, T: spec_fn(int, int) -> F) -> bool {
    &&& 0 <= j < p.len() && r.len() == v.len() && p[0] == 0 && p[j] == r.len()
    &&& (forall|a: int, b: int| 0 <= a <= b <= j ==> #[trigger] p[a] <= #[trigger] p[b])
    &&& (forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < m)
    &&& (forall|c: int| 0 <= c < j ==> colprop(inc, r, #[trigger] p[c] as int, p[c + 1] as int))
    &&& (forall|i: int, c: int| 0 <= c < j ==> #[trigger] cent(p, r, v, i, c) == T(i, c))
}
pub open spec fn extends<T>(r: Seq<T>, r2: Seq<T>) -> bool { r.len() <= r2.len() && forall|k: int| 0 <= k < r.len() ==> #[trigger] r2[k] == r[k] }
pub proof fn built_start<F: Field>(inc: bool, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, m: int, T: spec_fn(int, int) -> F)
    requires p.len() > 0, p[0] == 0, r.len() == 0, v.len() == 0 ensures built(inc, p, r, v, m, 0, T) { reveal(built); }
pub proof fn built_len<F: Field>(inc: bool, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, m: int, j: int, T: spec_fn(int, int) -> F)
    requires built(inc, p, r, v, m, j, T) ensures p[j] == r.len(), r.len() == v.len() { reveal(built); }
pub proof fn colprop_ext(inc: bool, r: Seq<usize>, r2: Seq<usize>, a: int, b: int)
    requires colprop(inc, r, a, b), 0 <= a <= b <= r.len(), extends(r, r2) ensures colprop(inc, r2, a, b)
{ assert forall|k: int| a <= k < b implies #[trigger] r2[k] == r[k] by { } }
pub proof fn csum_extends<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, a: int, b: int, i: int)
    requires 0 <= a, b <= r.len(), r.len() == v.len(), extends(r, r2), extends(v, v2) ensures csum(r2, v2, a, b, i) == csum(r, v, a, b, i)
{
    assert forall|k: int| a <= k < b implies #[trigger] r[k] == r2[k + 0] && v[k] == v2[k + 0] by { assert(r2[k] == r[k]); assert(v2[k] == v[k]); }
    csum_ext(r, v, r2, v2, a, b, 0, i);
}
pub proof fn built_next<F: Field>(inc: bool, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, p2: Seq<usize>, r2: Seq<usize>, v2: Seq<F>, m: int, j: int, T: spec_fn(int, int) -> F)
    requires built(inc, p, r, v, m, j, T), j + 1 < p.len(), extends(r, r2), extends(v, v2), r2.len() == v2.len(), r2.len() <= usize::MAX, p2 == p.update(j + 1, r2.len() as usize),
        forall|k: int| r.len() <= k < r2.len() ==> #[trigger] r2[k] < m, colprop(inc, r2, r.len() as int, r2.len() as int),
        forall|i: int| #[trigger] csum(r2, v2, r.len() as int, r2.len() as int, i) == T(i, j)
    ensures built(inc, p2, r2, v2, m, j + 1, T)
{
    assert(p[j] == r.len() && 0 <= j) by { reveal(built); }
    assert forall|k: int| 0 <= k < r2.len() implies #[trigger] r2[k] < m by { reveal(built); if k < r.len() { assert(r2[k] == r[k]); } }
    assert(forall|a: int, b: int| 0 <= a <= b <= j + 1 ==> #[trigger] p2[a] <= #[trigger] p2[b]) by { reveal(built);
        assert forall|a: int, b: int| 0 <= a <= b <= j + 1 implies #[trigger] p2[a] <= #[trigger] p2[b] by { if b <= j { assert(p2[a] == p[a] && p2[b] == p[b]); } else if a <= j { assert(p2[a] == p[a]); assert(p[a] <= p[j]); } } }
    assert forall|c: int| 0 <= c < j + 1 implies colprop(inc, r2, #[trigger] p2[c] as int, p2[c + 1] as int) by {
        if c < j { assert(colprop(inc, r, p[c] as int, p[c + 1] as int) && p[c] <= p[c + 1] <= p[j]) by { reveal(built); } assert(p2[c] == p[c] && p2[c + 1] == p[c + 1]); colprop_ext(inc, r, r2, p[c] as int, p[c + 1] as int); } }
    assert forall|i: int, c: int| 0 <= c < j + 1 implies #[trigger] cent(p2, r2, v2, i, c) == T(i, c) by {
        if c < j { assert(cent(p, r, v, i, c) == T(i, c) && 0 <= p[c] && p[c + 1] <= p[j] && r.len() == v.len()) by { reveal(built); } assert(p2[c] == p[c] && p2[c + 1] == p[c + 1]); csum_extends(r, v, r2, v2, p[c] as int, p[c + 1] as int, i); }
        else { assert(p2[c] == r.len() && p2[c + 1] == r2.len()); assert(csum(r2, v2, r.len() as int, r2.len() as int, i) == T(i, j)); } }
    assert(p2[0] == 0) by { reveal(built); }
    reveal(built);
}
pub open spec fn has_entries<F: Field>(A: CSC<F>, T: spec_fn(int, int) -> F) -> bool { forall|i: int, j: int| 0 <= j < A.n ==> #[trigger] cscv(A, i, j) == T(i, j) }
pub proof fn built_done<F: Field>(inc: bool, A: CSC<F>, T: spec_fn(int, int) -> F)
    requires built(inc, A.colptr@, A.rowind@, A.val@, A.m as int, A.n as int, T), A.colptr@.len() == A.n + 1
    ensures cshape(A), if inc { cok(A) } else { cdistinct(A) }, has_entries(A, T)
{
    reveal(built);
    assert forall|j: int| 0 <= j < A.n implies if inc { #[trigger] ccol(A.colptr@, A.rowind@, j) } else { #[trigger] cdist(A.colptr@, A.rowind@, j) } by { assert(colprop(inc, A.rowind@, A.colptr@[j] as int, A.colptr@[j + 1] as int)); }
    assert forall|i: int, j: int| 0 <= j < A.n implies #[trigger] cscv(A, i, j) == T(i, j) by { assert(cent(A.colptr@, A.rowind@, A.val@, i, j) == T(i, j)); }
}
pub proof fn ok_distinct<F: Field>(A: CSC<F>) requires cok(A) ensures cdistinct(A)
{ assert forall|j: int| 0 <= j < A.n implies #[trigger] cdist(A.colptr@, A.rowind@, j) by { assert(ccol(A.colptr@, A.rowind@, j)); assert forall|k: int, l: int| A.colptr@[j] <= k < l < A.colptr@[j + 1] implies #[trigger] A.rowind@[k] != #[trigger] A.rowind@[l] by { } } }
// ---- selecting rows by a partial permutation ----
pub open spec fn psel(prow: Seq<usize>, M: int, m: int) -> bool {
    &&& prow.len() == M && (forall|i: int| 0 <= i < M && #[trigger] prow[i] != NO_IND ==> prow[i] < m)
    &&& (forall|i: int, j: int| 0 <= i < j < M && #[trigger] prow[i] != NO_IND ==> prow[i] != #[trigger] prow[j])
}
pub open spec fn pfrom(prow: Seq<usize>, i: int, x: int) -> bool { 0 <= i < prow.len() && prow[i] == x && prow[i] != NO_IND }
pub open spec fn psrc(prow: Seq<usize>, x: int) -> int { choose|i: int| pfrom(prow, i, x) }
// entry (x, j) of the selection
pub open spec fn selv<F: Field>(A: CSC<F>, prow: Seq<usize>, cind: Seq<usize>) -> spec_fn(int, int) -> F { |x: int, j: int| if pfrom(prow, psrc(prow, x), x) { cscv(A, psrc(prow, x), cind[j] as int) } else { F::szero() } }
pub proof fn psrc_is(prow: Seq<usize>, M: int, m: int, i: int) requires psel(prow, M, m), 0 <= i < M, prow[i] != NO_IND ensures psrc(prow, prow[i] as int) == i
{ assert(pfrom(prow, i, prow[i] as int)); let c = psrc(prow, prow[i] as int); if c < i { assert(prow[c] != prow[i]); } else if i < c { assert(prow[i] != prow[c]); } }
// the column under construction holds the selected terms a..q of the column a..b
#[verifier::opaque]
pub open spec fn selcol<F: Field>(R: Seq<usize>, V: Seq<F>, a: int, q: int, b: int, prow: Seq<usize>, m: int, r: Seq<usize>, v: Seq<F>, s: int) -> bool {
    &&& s <= r.len() && r.len() == v.len() && rdistinct(r, s, r.len() as int)
    &&& (forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < m && r[k] != NO_IND)
    &&& (forall|k: int, l: int| s <= k < r.len() && q <= l < b ==> #[trigger] r[k] != prow[#[trigger] R[l] as int])
    &&& (forall|i: int| 0 <= i < prow.len() && #[trigger] prow[i] != NO_IND ==> csum(r, v, s, r.len() as int, prow[i] as int) == csum(R, V, a, q, i))
    &&& (forall|x: int| !pfrom(prow, psrc(prow, x), x) ==> #[trigger] csum(r, v, s, r.len() as int, x) == F::szero())
}
pub proof fn selcol_start<F: Field>(R: Seq<usize>, V: Seq<F>, a: int, b: int, prow: Seq<usize>, m: int, r: Seq<usize>, v: Seq<F>)
    requires r.len() == v.len() ensures selcol(R, V, a, a, b, prow, m, r, v, r.len() as int) { reveal(selcol); }
pub proof fn csum_push<F: Field>(r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, a: int, i: int)
    requires r.len() == v.len(), 0 <= a <= r.len(), r2.len() == r.len() + 1, v2.len() == r2.len(), extends(r, r2), extends(v, v2)
    ensures csum(r2, v2, a, r2.len() as int, i) == F::sadd(csum(r, v, a, r.len() as int, i), ctm(r2, v2, r.len() as int, i))
{ assert forall|k: int| a <= k < r.len() implies #[trigger] r[k] == r2[k + 0] && v[k] == v2[k + 0] by { assert(r2[k] == r[k]); assert(v2[k] == v[k]); } csum_ext(r, v, r2, v2, a, r.len() as int, 0, i); }
pub proof fn selcol_step<F: Field>(R: Seq<usize>, V: Seq<F>, a: int, q: int, b: int, prow: Seq<usize>, m: int, r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, s: int)
    requires selcol(R, V, a, q, b, prow, m, r, v, s), psel(prow, prow.len() as int, m), 0 <= a <= q < b <= R.len(), rdistinct(R, a, b), forall|k: int| 0 <= k < R.len() ==> #[trigger] R[k] < prow.len(), 0 <= s,
        if prow[R[q] as int] == NO_IND { r2 == r && v2 == v } else { r2 == r.push(prow[R[q] as int]) && v2 == v.push(V[q]) }
    ensures selcol(R, V, a, q + 1, b, prow, m, r2, v2, s)
{
    reveal(selcol); broadcast use field_basic;
    let i0 = R[q] as int;
    if prow[i0] != NO_IND {
        let x0 = prow[i0];
        psrc_is(prow, prow.len() as int, m, i0);
        assert forall|i: int| 0 <= i < prow.len() && #[trigger] prow[i] != NO_IND implies csum(r2, v2, s, r2.len() as int, prow[i] as int) == csum(R, V, a, q + 1, i) by {
            csum_push(r, v, r2, v2, s, prow[i] as int); if i < i0 { assert(prow[i] != prow[i0]); } else if i0 < i { assert(prow[i0] != prow[i]); } }
        assert forall|x: int| !pfrom(prow, psrc(prow, x), x) implies #[trigger] csum(r2, v2, s, r2.len() as int, x) == F::szero() by { csum_push(r, v, r2, v2, s, x); assert(csum(r, v, s, r.len() as int, x) == F::szero()); if x == x0 { assert(pfrom(prow, i0, x)); } }
        assert forall|k: int, l: int| s <= k < l < r2.len() implies #[trigger] r2[k] != #[trigger] r2[l] by { assert(r2[k] == r[k]); if l < r.len() { assert(r2[l] == r[l]); } else { assert(r[k] != prow[R[q] as int]); } }
        assert forall|k: int, l: int| s <= k < r2.len() && q + 1 <= l < b implies #[trigger] r2[k] != prow[#[trigger] R[l] as int] by { if k < r.len() { assert(r2[k] == r[k]); assert(r[k] != prow[R[l] as int]); } else { let y = R[l] as int; assert(R[q] != R[l]); if y < i0 { if prow[y] != NO_IND { assert(prow[y] != prow[i0]); } } else { assert(prow[i0] != prow[y]); } } }
    } else {
        assert forall|i: int| 0 <= i < prow.len() && #[trigger] prow[i] != NO_IND implies csum(r2, v2, s, r2.len() as int, prow[i] as int) == csum(R, V, a, q + 1, i) by { }
    }
}
pub proof fn selcol_done<F: Field>(R: Seq<usize>, V: Seq<F>, a: int, b: int, prow: Seq<usize>, m: int, r: Seq<usize>, v: Seq<F>, s: int, x: int)
    requires selcol(R, V, a, b, b, prow, m, r, v, s) ensures s <= r.len(), r.len() == v.len(), rdistinct(r, s, r.len() as int), forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < m,
        csum(r, v, s, r.len() as int, x) == if pfrom(prow, psrc(prow, x), x) { csum(R, V, a, b, psrc(prow, x)) } else { F::szero() }
{ reveal(selcol); if pfrom(prow, psrc(prow, x), x) { assert(prow[psrc(prow, x)] != NO_IND); } }
pub proof fn sel_next<F: Field>(M: CSC<F>, cind: Seq<usize>, prow: Seq<usize>, m: int, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, p2: Seq<usize>, r2: Seq<usize>, v2: Seq<F>, j: int)
    requires built(false, p, r, v, m, j, selv(M, prow, cind)), 0 <= j < cind.len(), j + 1 < p.len(), extends(r, r2), extends(v, v2), r2.len() <= usize::MAX, p2 == p.update(j + 1, r2.len() as usize),
        selcol(M.rowind@, M.val@, M.colptr@[cind[j] as int] as int, M.colptr@[cind[j] + 1] as int, M.colptr@[cind[j] + 1] as int, prow, m, r2, v2, r.len() as int)
    ensures built(false, p2, r2, v2, m, j + 1, selv(M, prow, cind))
{
    let a = M.colptr@[cind[j] as int] as int; let b = M.colptr@[cind[j] + 1] as int;
    selcol_done(M.rowind@, M.val@, a, b, prow, m, r2, v2, r.len() as int, 0);
    assert forall|i: int| #[trigger] csum(r2, v2, r.len() as int, r2.len() as int, i) == selv(M, prow, cind)(i, j) by { selcol_done(M.rowind@, M.val@, a, b, prow, m, r2, v2, r.len() as int, i); }
    built_next(false, p, r, v, p2, r2, v2, m, j, selv(M, prow, cind));
}
@end
@fn CSC<F>::getval(usize, usize) const as csc_getval
@prop P15
@requires
  cdistinct(*this), j < this.n
@ensures
  ret == cscv(*this, i as int, j as int),
@at entry
  proof { assert(cdist(this.colptr@, this.rowind@, j as int)); assert(this.colptr@[j as int] <= this.colptr@[j + 1]); assert(this.colptr@[j + 1] <= this.colptr@[this.n as int]); }
@loop 0
  invariant cdistinct(*this), j < this.n, this.colptr@[j as int] <= k <= this.colptr@[j + 1] <= this.rowind@.len(), cdist(this.colptr@, this.rowind@, j as int),
    forall|l: int| this.colptr@[j as int] <= l < k ==> #[trigger] this.rowind@[l] != i
  decreases this.colptr@[j + 1] - k
@at before return 0
  proof { assert forall|l: int| this.colptr@[j as int] <= l < this.colptr@[j + 1] && l != k implies #[trigger] this.rowind@[l] != this.rowind@[k as int] by { } csum_one(this.rowind@, this.val@, this.colptr@[j as int] as int, this.colptr@[j + 1] as int, k as int); }
@at loop 0 after
  proof { csum_none(this.rowind@, this.val@, this.colptr@[j as int] as int, this.colptr@[j + 1] as int, i as int); }
@fn CSC<F>::sort_col(usize, &mut Vec<usize>, &mut Vec<usize>, &mut Vec<F>) as csc_sort_col
@prop P15
@requires
  cshape(*old(this)), j < old(this).n
@ensures
  col_sorted_by(*old(this), *final(this), j as int),
@at entry
  let ghost t0 = *this; let ghost a = this.colptr@[j as int] as int; let ghost b = this.colptr@[j + 1] as int; let ghost mut q = Seq::<usize>::empty();
  proof { vec_max(this.rowind); assert(this.colptr@[j as int] <= this.colptr@[j + 1]); assert(this.colptr@[j + 1] <= this.colptr@[this.n as int]); }
@at cmp 0 requires
  begin__1 + a < this.rowind@.len(), begin__1 + b < this.rowind@.len()
@at cmp 0 spec
  this.rowind@[begin__1 + a] < this.rowind@[begin__1 + b]
@at before sort 0
  let ghost s0 = perm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, perm@); q = perm@;
    assert forall|k: int, l: int| 0 <= k < l < b - a implies t0.rowind@[a + #[trigger] q[k]] <= t0.rowind@[a + #[trigger] q[l]] by { assert(!lt0(q[l], q[k])); } }
@loop 0
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= t0.rowind@.len(), begin__3 == a, this.rowind@ == t0.rowind@, tmp1@.len() == b - a, forall|k: int| 0 <= k < i ==> #[trigger] tmp1@[k] == t0.rowind@[a + q[k]]
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= t0.rowind@.len(), begin__3 == a, this.rowind@.len() == t0.rowind@.len(), tmp1@.len() == b - a, forall|k: int| 0 <= k < b - a ==> #[trigger] tmp1@[k] == t0.rowind@[a + q[k]],
    forall|k: int| 0 <= k < i ==> this.rowind@[a + k] == t0.rowind@[a + #[trigger] q[k]], forall|k: int| 0 <= k < a || b <= k < t0.rowind@.len() ==> #[trigger] this.rowind@[k] == t0.rowind@[k],
    this.val == t0.val, this.colptr == t0.colptr, this.m == t0.m, this.n == t0.n
  decreases perm@.len() - i
@loop 2
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= t0.rowind@.len(), t0.rowind@.len() == t0.val@.len(), begin__4 == a, this.val@ == t0.val@, tmp2@.len() == b - a, forall|k: int| 0 <= k < i ==> #[trigger] tmp2@[k] == t0.val@[a + q[k]]
  decreases perm@.len() - i
@at loop 3 before
  let ghost r1 = this.rowind@;
@loop 3
  invariant i <= perm@.len(), perm@ == q, permu(q, b - a), 0 <= a <= b <= t0.rowind@.len(), t0.rowind@.len() == t0.val@.len(), begin__4 == a, this.val@.len() == t0.val@.len(), tmp2@.len() == b - a, forall|k: int| 0 <= k < b - a ==> #[trigger] tmp2@[k] == t0.val@[a + q[k]],
    forall|k: int| 0 <= k < i ==> this.val@[a + k] == t0.val@[a + #[trigger] q[k]], forall|k: int| 0 <= k < a || b <= k < t0.val@.len() ==> #[trigger] this.val@[k] == t0.val@[k],
    this.rowind@ == r1, this.colptr == t0.colptr, this.m == t0.m, this.n == t0.n
  decreases perm@.len() - i
@at exit
  proof { assert(permrun(t0.rowind@, this.rowind@, a, b, q)); assert(permrun(t0.val@, this.val@, a, b, q));
    assert forall|k: int, l: int| a <= k < l < b implies #[trigger] this.rowind@[k] <= #[trigger] this.rowind@[l] by { let x = q[k - a]; let y = q[l - a]; assert(this.rowind@[a + (k - a)] == t0.rowind@[a + x]); assert(this.rowind@[a + (l - a)] == t0.rowind@[a + y]); } }
@fn CSC<F>::sort() as csc_sort
@prop P15
@requires
  cshape(*old(this))
@ensures
  same_entries(*old(this), *final(this)), sorted_upto(*final(this), final(this).n as int), cdistinct(*old(this)) ==> cok(*final(this)),
@at entry
  let ghost t0 = *this; proof { sort_start(t0); }
@loop 0
  invariant j <= this.n, this.n == t0.n, sort_inv(t0, *this, j as int)
  decreases this.n - j
@at loop 0 begin
  let ghost t1 = *this; proof { sort_shape(t0, t1, j as int); }
@at loop 0 end
  proof { sort_advance(t0, t1, *this, j as int); }
@at exit
  proof { sort_done(t0, *this); }
@fn CSC<F>::new() as csc_new
@prop P15
@ensures
  ret.m == 0, ret.n == 0, ret.colptr@.len() == 0, ret.rowind@.len() == 0, ret.val@.len() == 0,
@fn CSC<F>::new(usize, usize, Vec<usize>, Vec<usize>, Vec<F>) as csc_new5
@prop P15
@requires
  cdata_distinct(colptr@, rowind@, val@.len() as int, m as int, n as int)
@ensures
  cok(ret), ret.m == m, ret.n == n, ret.colptr@ == colptr@, forall|i: int, j: int| 0 <= j < n ==> #[trigger] cscv(ret, i, j) == cent(colptr@, rowind@, val@, i, j),
@at before csc_sort 0
  let ghost t0 = this;
@at exit
  proof { assert forall|i: int, j: int| 0 <= j < n implies #[trigger] cscv(this, i, j) == cent(colptr@, rowind@, val@, i, j) by { assert(cscv(this, i, j) == cscv(t0, i, j)); } }
@fn CSC<F>::new(Vec<usize>, Vec<usize>, Vec<F>) as csc_new3
@prop P15
@requires
  colptr@.len() > 0, cdata_distinct(colptr@, rowind@, val@.len() as int, usize::MAX as int, colptr@.len() - 1)
@ensures
  cok(ret), ret.n == colptr@.len() - 1, ret.colptr@ == colptr@, forall|i: int, j: int| 0 <= j < ret.n ==> #[trigger] cscv(ret, i, j) == cent(colptr@, rowind@, val@, i, j),
  forall|k: int| 0 <= k < rowind@.len() ==> #[trigger] rowind@[k] < ret.m, ret.m > 0 ==> rowind@.contains((ret.m - 1) as usize),
@loop 0
  invariant ix0 <= rowind@.len(), this.n == colptr@.len() - 1, this.colptr@ == colptr@, this.rowind@ == rowind@, this.val@ == val@, forall|k: int| 0 <= k < rowind@.len() ==> #[trigger] rowind@[k] < usize::MAX,
     forall|k: int| 0 <= k < ix0 ==> #[trigger] rowind@[k] < this.m, this.m > 0 ==> rowind@.contains((this.m - 1) as usize)
  decreases rowind@.len() - ix0
@at before csc_sort 0
  let ghost t0 = this;
@at exit
  proof { assert forall|i: int, j: int| 0 <= j < this.n implies #[trigger] cscv(this, i, j) == cent(colptr@, rowind@, val@, i, j) by { assert(cscv(this, i, j) == cscv(t0, i, j)); } }
@fn CSC<F>::submatrix(Vec<usize>, Vec<usize>) const as csc_submatrix
@prop P15
@requires
  cdistinct(*this), all_lt(rind@, this.m as int), distinct(rind@), all_lt(cind@, this.n as int)
@ensures
  cok(ret), ret.m == rind@.len(), ret.n == cind@.len(), forall|i: int, j: int| 0 <= i < rind@.len() && 0 <= j < cind@.len() ==> #[trigger] cscv(ret, i, j) == cscv(*this, rind@[i] as int, cind@[j] as int),
@at entry
  let ghost mut T: spec_fn(int, int) -> F = |i: int, j: int| F::szero();
  proof { vec_max(*rind); vec_max(*cind); }
@at loop 0 before
  proof { T = selv(*this, prow@, cind@);
    assert(psel(prow@, this.m as int, rind@.len() as int)) by {
      assert forall|i: int| 0 <= i < this.m && #[trigger] prow@[i] != NO_IND implies prow@[i] < rind@.len() && rind@[prow@[i] as int] == i by { assert(rind@.contains(i as usize)); let k = rind@.index_of(i as usize); assert(rind@[k] == i as usize); }
      assert forall|i: int, j: int| 0 <= i < j < this.m && #[trigger] prow@[i] != NO_IND implies prow@[i] != #[trigger] prow@[j] by { if prow@[j] != NO_IND { assert(rind@[prow@[i] as int] == i); assert(rind@[prow@[j] as int] == j); } } }
    built_start(false, A.colptr@, A.rowind@, A.val@, rind@.len() as int, T); }
@loop 0
  invariant ix0 <= cind@.len(), j == ix0, A.m == rind@.len(), A.n == cind@.len(), A.colptr@.len() == A.n + 1, T == selv(*this, prow@, cind@), cdistinct(*this), all_lt(cind@, this.n as int), psel(prow@, this.m as int, rind@.len() as int), cind@.len() <= i64::MAX,
    built(false, A.colptr@, A.rowind@, A.val@, rind@.len() as int, ix0 as int, T)
  decreases cind@.len() - ix0
@at loop 0 begin
  let ghost p0 = A.colptr@; let ghost r0 = A.rowind@; let ghost v0 = A.val@; let ghost cj = cind@[ix0 as int] as int;
  proof { built_len(false, p0, r0, v0, rind@.len() as int, ix0 as int, T); assert(cj < this.n); assert(this.colptr@[cj] <= this.colptr@[cj + 1]); assert(this.colptr@[cj + 1] <= this.colptr@[this.n as int]); assert(cdist(this.colptr@, this.rowind@, cj));
     selcol_start(this.rowind@, this.val@, this.colptr@[cj] as int, this.colptr@[cj + 1] as int, prow@, rind@.len() as int, r0, v0); }
@loop 1
  invariant ix0 < cind@.len(), j == ix0, Mj == cj, cj == cind@[ix0 as int], cj < this.n, A.m == rind@.len(), A.n == cind@.len(), A.colptr@ == p0, extends(r0, A.rowind@), extends(v0, A.val@), cdistinct(*this), psel(prow@, this.m as int, rind@.len() as int),
     this.colptr@[cj] <= Mp <= this.colptr@[cj + 1] <= this.rowind@.len(), cdist(this.colptr@, this.rowind@, cj),
     selcol(this.rowind@, this.val@, this.colptr@[cj] as int, Mp as int, this.colptr@[cj + 1] as int, prow@, rind@.len() as int, A.rowind@, A.val@, r0.len() as int)
  decreases this.colptr@[cj + 1] - Mp
@at loop 1 begin
  let ghost r1 = A.rowind@; let ghost v1 = A.val@;
@at loop 1 end
  proof { selcol_step(this.rowind@, this.val@, this.colptr@[cj] as int, Mp as int, this.colptr@[cj + 1] as int, prow@, rind@.len() as int, r1, v1, A.rowind@, A.val@, r0.len() as int); }
@at loop 1 after
  let ghost p1 = A.colptr@; proof { vec_max(A.rowind); }
@at loop 0 end
  proof { sel_next(*this, cind@, prow@, rind@.len() as int, p0, r0, v0, A.colptr@, A.rowind@, A.val@, ix0 as int); }
@at before csc_sort 0
  let ghost t1 = A; proof { built_done(false, A, T); }
@at after csc_sort 0
  proof { assert forall|i: int, k: int| 0 <= i < rind@.len() && 0 <= k < cind@.len() implies #[trigger] cscv(A, i, k) == cscv(*this, rind@[i] as int, cind@[k] as int) by {
     assert(cscv(A, i, k) == cscv(t1, i, k)); assert(cscv(t1, i, k) == T(i, k)); assert(prow@[rind@[i] as int] == i); psrc_is(prow@, this.m as int, rind@.len() as int, rind@[i] as int); } }
@fn block_select(CSC<F>, Vec<usize>, Vec<usize>, usize, &mut CSC<F>) as csc_block_select
@prop P15
@requires
  cdistinct(*M), psel(prow@, M.m as int, m as int), all_lt(cind@, M.n as int)
@ensures
  cok(*final(A)), final(A).m == m, final(A).n == cind@.len(), has_entries(*final(A), selv(*M, prow@, cind@)),
  forall|i: int, j: int| 0 <= i < M.m && prow@[i] != NO_IND && 0 <= j < cind@.len() ==> cscv(*final(A), prow@[i] as int, j) == #[trigger] cscv(*M, i, cind@[j] as int),
@at entry
  let ghost T: spec_fn(int, int) -> F = selv(*M, prow@, cind@);
  proof { vec_max(*cind); }
@at loop 0 before
  proof { built_start(false, A.colptr@, A.rowind@, A.val@, m as int, T); }
@loop 0
  invariant ix0 <= cind@.len(), j == ix0, A.m == m, A.n == cind@.len(), A.colptr@.len() == A.n + 1, T == selv(*M, prow@, cind@), cdistinct(*M), all_lt(cind@, M.n as int), psel(prow@, M.m as int, m as int), cind@.len() <= i64::MAX,
    built(false, A.colptr@, A.rowind@, A.val@, m as int, ix0 as int, T)
  decreases cind@.len() - ix0
@at loop 0 begin
  let ghost p0 = A.colptr@; let ghost r0 = A.rowind@; let ghost v0 = A.val@; let ghost cj = cind@[ix0 as int] as int;
  proof { built_len(false, p0, r0, v0, m as int, ix0 as int, T); assert(cj < M.n); assert(M.colptr@[cj] <= M.colptr@[cj + 1]); assert(M.colptr@[cj + 1] <= M.colptr@[M.n as int]); assert(cdist(M.colptr@, M.rowind@, cj));
     selcol_start(M.rowind@, M.val@, M.colptr@[cj] as int, M.colptr@[cj + 1] as int, prow@, m as int, r0, v0); }
@loop 1
  invariant ix0 < cind@.len(), j == ix0, Mj == cj, cj == cind@[ix0 as int], cj < M.n, A.m == m, A.n == cind@.len(), A.colptr@ == p0, extends(r0, A.rowind@), extends(v0, A.val@), cdistinct(*M), psel(prow@, M.m as int, m as int),
     M.colptr@[cj] <= Mp <= M.colptr@[cj + 1] <= M.rowind@.len(), cdist(M.colptr@, M.rowind@, cj),
     selcol(M.rowind@, M.val@, M.colptr@[cj] as int, Mp as int, M.colptr@[cj + 1] as int, prow@, m as int, A.rowind@, A.val@, r0.len() as int)
  decreases M.colptr@[cj + 1] - Mp
@at loop 1 begin
  let ghost r1 = A.rowind@; let ghost v1 = A.val@;
@at loop 1 end
  proof { selcol_step(M.rowind@, M.val@, M.colptr@[cj] as int, Mp as int, M.colptr@[cj + 1] as int, prow@, m as int, r1, v1, A.rowind@, A.val@, r0.len() as int); }
@at loop 1 after
  proof { vec_max(A.rowind); }
@at loop 0 end
  proof { sel_next(*M, cind@, prow@, m as int, p0, r0, v0, A.colptr@, A.rowind@, A.val@, ix0 as int); }
@at before csc_sort 0
  let ghost t1 = *A; proof { built_done(false, *A, T); }
@at exit
  proof { assert forall|i: int, k: int| 0 <= k < A.n implies #[trigger] cscv(*A, i, k) == T(i, k) by { assert(cscv(*A, i, k) == cscv(t1, i, k)); }
     assert forall|i: int, k: int| 0 <= i < M.m && prow@[i] != NO_IND && 0 <= k < cind@.len() implies cscv(*A, prow@[i] as int, k) == #[trigger] cscv(*M, i, cind@[k] as int) by {
     assert(cscv(*A, prow@[i] as int, k) == T(prow@[i] as int, k)); psrc_is(prow@, M.m as int, m as int, i); } }
