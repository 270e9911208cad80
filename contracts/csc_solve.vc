@unit la
@uses csc_mul util
@rust
// square, upper triangular, with the (nonzero) diagonal entry stored last in each column
pub open spec fn diag_last<F: Field>(A: CSC<F>, k: int) -> bool { A.colptr@[k] < A.colptr@[k + 1] && A.rowind@[A.colptr@[k + 1] - 1] == k && A.val@[A.colptr@[k + 1] - 1] != F::szero() }
pub open spec fn cupper<F: Field>(A: CSC<F>) -> bool { cok(A) && A.m == A.n && forall|k: int| 0 <= k < A.n ==> #[trigger] diag_last(A, k) }
pub open spec fn swf<F: Field>(r: Seq<usize>, v: Seq<F>, s: int, u: int) -> spec_fn(int) -> F { |k: int| if k >= u { csum(r, v, s, r.len() as int, k) } else { F::szero() } }
pub open spec fn slf<F: Field>(A: CSC<F>, i: int, w: spec_fn(int) -> F) -> spec_fn(int) -> F { |k: int| F::smul(cscv(A, i, k), w(k)) }
pub open spec fn slv<F: Field>(A: CSC<F>, r: Seq<usize>, v: Seq<F>, s: int, u: int, i: int) -> F { F::sadd(if i < u { csum(r, v, s, r.len() as int, i) } else { F::szero() }, fsum(A.n as int, slf(A, i, swf(r, v, s, u)))) }
// rows from u on are solved: b = (what is left above u) + A * (solved part)
#[verifier::opaque]
pub open spec fn solving<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, r: Seq<usize>, v: Seq<F>, s: int, u: int) -> bool {
    &&& 0 <= s <= r.len() && r.len() == v.len() && rincr(r, s, r.len() as int) && (forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < A.m) && 0 <= u <= A.m
    &&& (forall|i: int| 0 <= i < A.m ==> #[trigger] b(i) == slv(A, r, v, s, u, i))
}
pub proof fn solving_facts<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, r: Seq<usize>, v: Seq<F>, s: int, u: int) requires solving(A, b, r, v, s, u)
    ensures 0 <= s <= r.len(), r.len() == v.len(), rincr(r, s, r.len() as int), forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < A.m { reveal(solving); }
pub proof fn solving_start<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, r: Seq<usize>, v: Seq<F>, s: int)
    requires 0 <= s <= r.len(), r.len() == v.len(), rincr(r, s, r.len() as int), forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < A.m, forall|i: int| 0 <= i < A.m ==> #[trigger] b(i) == csum(r, v, s, r.len() as int, i), A.n == A.m, cupper(A)
    ensures solving(A, b, r, v, s, A.m as int)
{
    reveal(solving); broadcast use field_basic;
    assert forall|i: int| 0 <= i < A.m implies #[trigger] b(i) == slv(A, r, v, s, A.m as int, i) by { let f = slf(A, i, swf(r, v, s, A.m as int)); assert forall|k: int| 0 <= k < A.n implies #[trigger] f(k) == F::szero() by { } fsum_zero(A.n as int, f); }
}
// no entries left above u: solved
pub proof fn solving_done<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, r: Seq<usize>, v: Seq<F>, s: int, u: int)
    requires solving(A, b, r, v, s, u), forall|k: int| s <= k < r.len() ==> #[trigger] r[k] >= u, A.n == A.m
    ensures solving(A, b, r, v, s, 0)
{
    reveal(solving); broadcast use field_basic;
    assert forall|i: int| 0 <= i < A.m implies #[trigger] b(i) == slv(A, r, v, s, 0, i) by {
        assert(b(i) == slv(A, r, v, s, u, i)); if i < u { csum_none(r, v, s, r.len() as int, i); }
        let f = slf(A, i, swf(r, v, s, u)); let g = slf(A, i, swf(r, v, s, 0));
        assert forall|k: int| 0 <= k < A.n implies #[trigger] f(k) == g(k) by { if k < u { csum_none(r, v, s, r.len() as int, k); } }
        fsum_ext(A.n as int, f, g); }
}
pub proof fn upper_zero<F: Field>(A: CSC<F>, i: int, k: int)
    requires cupper(A), 0 <= k < A.n ensures i > k ==> cscv(A, i, k) == F::szero(), cscv(A, k, k) == A.val@[A.colptr@[k + 1] - 1], A.colptr@[k + 1] <= A.rowind@.len()
{
    let a = A.colptr@[k] as int; let d = A.colptr@[k + 1] - 1;
    assert(diag_last(A, k)); assert(ccol(A.colptr@, A.rowind@, k)); coltop_is(A, k);
    assert forall|l: int| a <= l < d + 1 && l != d implies #[trigger] A.rowind@[l] != A.rowind@[d] by { }
    csum_one(A.rowind@, A.val@, a, d + 1, d);
    if i > k { assert forall|l: int| a <= l < d + 1 implies #[trigger] A.rowind@[l] != i by { if l < d { assert(A.rowind@[l] < A.rowind@[d]); } } csum_none(A.rowind@, A.val@, a, d + 1, i); }
}
// one elimination: the entry z at row i becomes y = z / A(i,i), and y times column i is taken off above
pub proof fn solving_step<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, s: int, u: int, i: int, y: F)
    requires solving(A, b, r, v, s, u), cupper(A), 0 <= i < u, forall|k: int| s <= k < r.len() ==> #[trigger] r[k] <= i || r[k] >= u,
        csum(r, v, s, r.len() as int, i) == F::smul(y, A.val@[A.colptr@[i + 1] - 1]),
        s <= r2.len(), r2.len() == v2.len(), rincr(r2, s, r2.len() as int), forall|k: int| s <= k < r2.len() ==> #[trigger] r2[k] < A.m,
        forall|x: int| #[trigger] csum(r2, v2, s, r2.len() as int, x) == if x == i { y } else if x > i { csum(r, v, s, r.len() as int, x) } else { F::sadd(csum(r, v, s, r.len() as int, x), F::sneg(F::smul(y, cscv(A, x, i)))) },
    ensures solving(A, b, r2, v2, s, i)
{
    reveal(solving); broadcast use field_basic;
    assert forall|x: int| 0 <= x < A.m implies #[trigger] b(x) == slv(A, r2, v2, s, i, x) by {
        assert(b(x) == slv(A, r, v, s, u, x));
        let f = slf(A, x, swf(r, v, s, u)); let g = slf(A, x, swf(r2, v2, s, i));
        upper_zero(A, x, i);
        assert forall|k: int| 0 <= k < A.n && k != i implies #[trigger] f(k) == g(k) by {
            assert(csum(r2, v2, s, r2.len() as int, k) == if k == i { y } else if k > i { csum(r, v, s, r.len() as int, k) } else { F::sadd(csum(r, v, s, r.len() as int, k), F::sneg(F::smul(y, cscv(A, k, i)))) });
            if i < k < u { csum_none(r, v, s, r.len() as int, k); } }
        assert(csum(r2, v2, s, r2.len() as int, i) == y);
        let d = F::smul(cscv(A, x, i), y);
        fsum_bump(A.n as int, f, g, i, d);
        let S = fsum(A.n as int, f); let o = csum(r, v, s, r.len() as int, x);
        if x < i { assert(csum(r2, v2, s, r2.len() as int, x) == F::sadd(o, F::sneg(d)));
            // (o - d) + (S + d) == o + S
            F::ax_add_assoc(o, F::sneg(d), F::sadd(S, d)); F::ax_add_comm(S, d); F::ax_add_assoc(F::sneg(d), d, S); F::ax_add_neg(d); F::ax_add_comm(d, F::sneg(d)); }
        else if x == i { assert(o == d); }
        else { if x < u { csum_none(r, v, s, r.len() as int, x); } }
    }
}
// inside the elimination: column i of A is merged up to position t
#[verifier::opaque]
pub open spec fn merging<F: Field>(A: CSC<F>, i: int, y: F, r1: Seq<usize>, v1: Seq<F>, s: int, r: Seq<usize>, v: Seq<F>, q: int, t: int, P: int) -> bool {
    &&& 0 <= s <= q <= P < r.len() && r.len() == v.len() && rincr(r, s, r.len() as int) && (forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < A.m)
    &&& A.colptr@[i] <= t < A.colptr@[i + 1] && r[P] == i && (forall|k: int| s <= k < q ==> #[trigger] r[k] < A.rowind@[t])
    &&& (forall|x: int| #[trigger] csum(r, v, s, r.len() as int, x) == F::sadd(csum(r1, v1, s, r1.len() as int, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x)))))
    &&& s <= r1.len() && (forall|k: int| 0 <= k < s ==> #[trigger] r[k] == r1[k]) && (forall|k: int| 0 <= k < s ==> #[trigger] v[k] == v1[k])
}
pub proof fn merging_start<F: Field>(A: CSC<F>, i: int, y: F, r: Seq<usize>, v: Seq<F>, s: int, P: int)
    requires 0 <= s <= P < r.len(), r.len() == v.len(), r[P] == i, rincr(r, s, r.len() as int), forall|k: int| s <= k < r.len() ==> #[trigger] r[k] < A.m, A.colptr@[i] < A.colptr@[i + 1]
    ensures merging(A, i, y, r, v, s, r, v, s, A.colptr@[i] as int, P)
{ reveal(merging); broadcast use field_basic; f_neg_zero::<F>(); }
pub proof fn merging_facts<F: Field>(A: CSC<F>, i: int, y: F, r1: Seq<usize>, v1: Seq<F>, s: int, r: Seq<usize>, v: Seq<F>, q: int, t: int, P: int)
    requires merging(A, i, y, r1, v1, s, r, v, q, t, P), cupper(A), 0 <= i < A.n
    ensures 0 <= s <= q <= P < r.len(), r.len() == v.len(), A.colptr@[i] <= t < A.colptr@[i + 1] <= A.rowind@.len(), r[q] <= i, q < P ==> r[q] < i, r[q] < i ==> q < P, A.rowind@[t] <= i, A.rowind@[t] < i <==> t < A.colptr@[i + 1] - 1
{ reveal(merging); assert(diag_last(A, i)); assert(ccol(A.colptr@, A.rowind@, i)); coltop_is(A, i); if t < A.colptr@[i + 1] - 1 { assert(A.rowind@[t] < A.rowind@[A.colptr@[i + 1] - 1]); } if q < P { assert(r[q] < r[P]); } }
pub proof fn f_sub_step<F: Field>(a: F, y: F, c: F, w: F) ensures F::sadd(F::sadd(a, F::sneg(F::smul(y, c))), F::sneg(F::smul(y, w))) == F::sadd(a, F::sneg(F::smul(y, F::sadd(c, w))))
{ F::ax_distrib(y, c, w); f_neg_add(F::smul(y, c), F::smul(y, w)); F::ax_add_assoc(a, F::sneg(F::smul(y, c)), F::sneg(F::smul(y, w))); }
pub proof fn merging_eq<F: Field>(A: CSC<F>, i: int, y: F, r1: Seq<usize>, v1: Seq<F>, s: int, r: Seq<usize>, v: Seq<F>, v2: Seq<F>, q: int, t: int, P: int)
    requires merging(A, i, y, r1, v1, s, r, v, q, t, P), cupper(A), 0 <= i < A.n, r[q] == A.rowind@[t], r[q] < i, v2 == v.update(q, F::sadd(v[q], F::sneg(F::smul(y, A.val@[t]))))
    ensures merging(A, i, y, r1, v1, s, r, v2, q + 1, t + 1, P)
{
    merging_facts(A, i, y, r1, v1, s, r, v, q, t, P); reveal(merging); broadcast use field_basic; assert(ccol(A.colptr@, A.rowind@, i)); assert(A.rowind@[t] < A.rowind@[t + 1]);
    assert forall|x: int| #[trigger] csum(r, v2, s, r.len() as int, x) == F::sadd(csum(r1, v1, s, r1.len() as int, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t + 1, x)))) by {
        csum_set(r, v, v2, s, r.len() as int, q, F::sneg(F::smul(y, A.val@[t])), x); f_neg_zero::<F>();
        assert(csum(r, v, s, r.len() as int, x) == F::sadd(csum(r1, v1, s, r1.len() as int, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x)))));
        f_sub_step(csum(r1, v1, s, r1.len() as int, x), y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x), ctm(A.rowind@, A.val@, t, x)); }
}
pub proof fn merging_skip<F: Field>(A: CSC<F>, i: int, y: F, r1: Seq<usize>, v1: Seq<F>, s: int, r: Seq<usize>, v: Seq<F>, q: int, t: int, P: int)
    requires merging(A, i, y, r1, v1, s, r, v, q, t, P), cupper(A), 0 <= i < A.n, r[q] < A.rowind@[t] ensures merging(A, i, y, r1, v1, s, r, v, q + 1, t, P)
{ merging_facts(A, i, y, r1, v1, s, r, v, q, t, P); reveal(merging); }
pub proof fn csum_insert<F: Field>(r: Seq<usize>, v: Seq<F>, a: int, q: int, x: usize, y: F, i: int)
    requires 0 <= a <= q <= r.len(), r.len() == v.len() ensures csum(r.insert(q, x), v.insert(q, y), a, (r.len() + 1) as int, i) == F::sadd(csum(r, v, a, r.len() as int, i), if x == i { y } else { F::szero() })
{
    broadcast use field_basic;
    let r2 = r.insert(q, x); let v2 = v.insert(q, y); let n = r.len() as int;
    csum_split(r2, v2, a, q + 1, n + 1, i); csum_split(r, v, a, q, n, i);
    csum_trunc(r, v, r2, v2, a, q, i);
    assert forall|k: int| q <= k < n implies #[trigger] r[k] == r2[k + 1] && v[k] == v2[k + 1] by { }
    csum_ext(r, v, r2, v2, q, n, 1, i);
    let p = csum(r, v, a, q, i); let z = csum(r, v, q, n, i); let w = ctm(r2, v2, q, i);
    F::ax_add_assoc(p, w, z); F::ax_add_comm(w, z); F::ax_add_assoc(p, z, w);
}
pub proof fn merging_ins<F: Field>(A: CSC<F>, i: int, y: F, r1: Seq<usize>, v1: Seq<F>, s: int, r: Seq<usize>, v: Seq<F>, r2: Seq<usize>, v2: Seq<F>, q: int, t: int, P: int)
    requires merging(A, i, y, r1, v1, s, r, v, q, t, P), cupper(A), 0 <= i < A.n, r[q] > A.rowind@[t], r2 == r.insert(q, A.rowind@[t]), v2 == v.insert(q, F::sneg(F::smul(y, A.val@[t])))
    ensures merging(A, i, y, r1, v1, s, r2, v2, q + 1, t + 1, P + 1)
{
    merging_facts(A, i, y, r1, v1, s, r, v, q, t, P); reveal(merging); broadcast use field_basic; assert(ccol(A.colptr@, A.rowind@, i)); assert(A.rowind@[t] < A.rowind@[t + 1]);
    let x0 = A.rowind@[t];
    assert forall|k: int, l: int| s <= k < l < r2.len() implies #[trigger] r2[k] < #[trigger] r2[l] by {
        let k0 = if k < q { k } else { k - 1 }; let l0 = if l < q { l } else { l - 1 };
        if k == q { if l0 > q { assert(r[q] < r[l0]); } } else if l == q { } else { assert(r[k0] < r[l0]); } }
    assert forall|k: int| s <= k < r2.len() implies #[trigger] r2[k] < A.m by { if k < q { assert(r[k] < A.m); } else if k > q { assert(r[k - 1] < A.m); } }
    assert(r2[P + 1] == r[P]);
    assert forall|x: int| #[trigger] csum(r2, v2, s, r2.len() as int, x) == F::sadd(csum(r1, v1, s, r1.len() as int, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t + 1, x)))) by {
        csum_insert(r, v, s, q, x0, F::sneg(F::smul(y, A.val@[t])), x); f_neg_zero::<F>();
        assert(csum(r, v, s, r.len() as int, x) == F::sadd(csum(r1, v1, s, r1.len() as int, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x)))));
        f_sub_step(csum(r1, v1, s, r1.len() as int, x), y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x), ctm(A.rowind@, A.val@, t, x)); }
}
// (r0, v0) is the column before the division
pub proof fn merging_done<F: Field>(A: CSC<F>, b: spec_fn(int) -> F, i: int, y: F, r0: Seq<usize>, v0: Seq<F>, v1: Seq<F>, s: int, u: int, r: Seq<usize>, v: Seq<F>, q: int, t: int, P: int, P0: int)
    requires merging(A, i, y, r0, v1, s, r, v, q, t, P), cupper(A), 0 <= i < u <= A.n, r[q] >= i, A.rowind@[t] >= i, solving(A, b, r0, v0, s, u), s <= P0 < r0.len(), r0[P0] == i, v1 == v0.update(P0, y), y == F::smul(v0[P0], F::sinv(A.val@[A.colptr@[i + 1] - 1])),
        forall|k: int| P0 < k < r0.len() ==> #[trigger] r0[k] >= u
    ensures solving(A, b, r, v, s, i), extends(r0.take(s), r), extends(v0.take(s), v)
{
    merging_facts(A, i, y, r0, v1, s, r, v, q, t, P); solving_facts(A, b, r0, v0, s, u); reveal(merging); broadcast use field_basic;
    let d = A.val@[A.colptr@[i + 1] - 1]; let n0 = r0.len() as int;
    assert(diag_last(A, i));
    assert forall|k: int| s <= k < n0 && k != P0 implies #[trigger] r0[k] != r0[P0] by { if k < P0 { assert(r0[k] < r0[P0]); } else { assert(r0[P0] < r0[k]); } }
    csum_one(r0, v0, s, n0, P0); csum_one(r0, v1, s, n0, P0);
    F::ax_inv(d); F::ax_mul_assoc(v0[P0], F::sinv(d), d); F::ax_mul_comm(d, F::sinv(d));
    assert forall|k: int| s <= k < n0 implies #[trigger] r0[k] <= i || r0[k] >= u by { if k < P0 { assert(r0[k] < r0[P0]); } }
    assert(ccol(A.colptr@, A.rowind@, i)); upper_zero(A, i, i); 
    assert forall|x: int| #[trigger] csum(r, v, s, r.len() as int, x) == if x == i { y } else if x > i { csum(r0, v0, s, n0, x) } else { F::sadd(csum(r0, v0, s, n0, x), F::sneg(F::smul(y, cscv(A, x, i)))) } by {
        assert(csum(r, v, s, r.len() as int, x) == F::sadd(csum(r0, v1, s, n0, x), F::sneg(F::smul(y, csum(A.rowind@, A.val@, A.colptr@[i] as int, t, x)))));
        f_neg_zero::<F>();
        if x != i { 
            csum_split(r0, v0, s, P0 + 1, n0, x); csum_split(r0, v1, s, P0 + 1, n0, x); csum_trunc(r0, v0, r0, v1, s, P0, x); csum_trunc(r0, v0, r0, v1, P0 + 1, n0, x);
            assert(csum(r0, v1, s, n0, x) == csum(r0, v0, s, n0, x)); 
            assert(t == A.colptr@[i + 1] - 1);
            if x > i { upper_zero(A, x, i); }
        } else {
            assert forall|k: int| A.colptr@[i] <= k < t implies #[trigger] A.rowind@[k] != i by { assert(A.rowind@[k] < A.rowind@[t]); }
            csum_none(A.rowind@, A.val@, A.colptr@[i] as int, t, i);
        }
    }
    solving_step(A, b, r0, v0, r, v, s, u, i, y);
}
pub open spec fn bcol<F: Field>(B: CSC<F>, j: int) -> spec_fn(int) -> F { |i: int| cscv(B, i, j) }
// A * C == B, column after column
pub open spec fn solved_col<F: Field>(A: CSC<F>, B: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, j: int) -> bool { forall|i: int| 0 <= i < A.m ==> cscv(B, i, j) == fsum(A.n as int, #[trigger] scf(A, p, r, v, i, j)) }
pub open spec fn scf<F: Field>(A: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, i: int, j: int) -> spec_fn(int) -> F { |k: int| F::smul(cscv(A, i, k), cent(p, r, v, k, j)) }
#[verifier::opaque]
pub open spec fn sbuilt<F: Field>(A: CSC<F>, B: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, j: int) -> bool {
    &&& 0 <= j < p.len() && r.len() == v.len() && p[0] == 0 && p[j] == r.len()
    &&& (forall|a: int, b: int| 0 <= a <= b <= j ==> #[trigger] p[a] <= #[trigger] p[b])
    &&& (forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] < A.m)
    &&& (forall|c: int| 0 <= c < j ==> #[trigger] ccol(p, r, c) && solved_col(A, B, p, r, v, c))
}
pub proof fn sbuilt_start<F: Field>(A: CSC<F>, B: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>) requires p.len() > 0, p[0] == 0, r.len() == 0, v.len() == 0 ensures sbuilt(A, B, p, r, v, 0) { reveal(sbuilt); }
pub proof fn sbuilt_len<F: Field>(A: CSC<F>, B: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, j: int) requires sbuilt(A, B, p, r, v, j) ensures p[j] == r.len(), r.len() == v.len() { reveal(sbuilt); }
pub proof fn sbuilt_next<F: Field>(A: CSC<F>, B: CSC<F>, p: Seq<usize>, r: Seq<usize>, v: Seq<F>, p2: Seq<usize>, r2: Seq<usize>, v2: Seq<F>, j: int)
    requires sbuilt(A, B, p, r, v, j), j + 1 < p.len(), extends(r, r2), extends(v, v2), r2.len() <= usize::MAX, p2 == p.update(j + 1, r2.len() as usize), solving(A, bcol(B, j), r2, v2, r.len() as int, 0), A.n == A.m
    ensures sbuilt(A, B, p2, r2, v2, j + 1)
{
    reveal(sbuilt); broadcast use field_basic; solving_facts(A, bcol(B, j), r2, v2, r.len() as int, 0);
    assert forall|k: int| 0 <= k < r2.len() implies #[trigger] r2[k] < A.m by { if k < r.len() { assert(r2[k] == r[k]); } }
    assert forall|c: int| 0 <= c < j + 1 implies #[trigger] ccol(p2, r2, c) && solved_col(A, B, p2, r2, v2, c) by {
        if c < j {
            assert(p2[c] == p[c] && p2[c + 1] == p[c + 1]); assert(ccol(p, r, c)); assert(solved_col(A, B, p, r, v, c)); assert(p[c + 1] <= p[j]);
            assert forall|k: int, l: int| p2[c] <= k < l < p2[c + 1] implies #[trigger] r2[k] < #[trigger] r2[l] by { assert(r2[k] == r[k]); assert(r2[l] == r[l]); assert(r[k] < r[l]); }
            assert forall|i: int| 0 <= i < A.m implies cscv(B, i, c) == fsum(A.n as int, #[trigger] scf(A, p2, r2, v2, i, c)) by {
                let f = scf(A, p, r, v, i, c); let g = scf(A, p2, r2, v2, i, c); assert(cscv(B, i, c) == fsum(A.n as int, f));
                assert forall|k: int| 0 <= k < A.n implies #[trigger] f(k) == g(k) by { csum_trunc(r, v, r2, v2, p[c] as int, p[c + 1] as int, k); }
                fsum_ext(A.n as int, f, g); }
        } else {
            assert(p2[c] == r.len() && p2[c + 1] == r2.len());
            assert forall|k: int, l: int| p2[c] <= k < l < p2[c + 1] implies #[trigger] r2[k] < #[trigger] r2[l] by { }
            assert forall|i: int| 0 <= i < A.m implies cscv(B, i, c) == fsum(A.n as int, #[trigger] scf(A, p2, r2, v2, i, c)) by {
                reveal(solving); let b = bcol(B, j); assert(b(i) == slv(A, r2, v2, r.len() as int, 0, i));
                let f = slf(A, i, swf(r2, v2, r.len() as int, 0)); let g = scf(A, p2, r2, v2, i, c);
                assert forall|k: int| 0 <= k < A.n implies #[trigger] f(k) == g(k) by { }
                fsum_ext(A.n as int, f, g); }
        }
    }
}
pub proof fn sbuilt_done<F: Field>(A: CSC<F>, B: CSC<F>, C: CSC<F>)
    requires sbuilt(A, B, C.colptr@, C.rowind@, C.val@, C.n as int), C.m == A.m, C.n == B.n, C.colptr@.len() == C.n + 1
    ensures cok(C), forall|i: int, j: int| 0 <= i < A.m && 0 <= j < B.n ==> #[trigger] cscv(B, i, j) == gmul(A, C)(i, j)
{
    reveal(sbuilt);
    assert forall|i: int, j: int| 0 <= i < A.m && 0 <= j < B.n implies #[trigger] cscv(B, i, j) == gmul(A, C)(i, j) by {
        assert(ccol(C.colptr@, C.rowind@, j)); assert(solved_col(A, B, C.colptr@, C.rowind@, C.val@, j));
        let f = scf(A, C.colptr@, C.rowind@, C.val@, i, j); assert(cscv(B, i, j) == fsum(A.n as int, f));
        assert forall|k: int| 0 <= k < A.n implies #[trigger] f(k) == gmf(A, C, i, j)(k) by { }
        fsum_ext(A.n as int, f, gmf(A, C, i, j)); }
}
@end
@fn trilu(CSC<F>, CSC<F>, &mut CSC<F>) as csc_trilu
@prop P15
@requires
  cupper(*A), cok(*B), A.n == B.m
@ensures
  cok(*final(C)), final(C).m == A.m, final(C).n == B.n, forall|i: int, j: int| 0 <= i < A.m && 0 <= j < B.n ==> #[trigger] cscv(*B, i, j) == gmul(*A, *final(C))(i, j),
@at entry
  let ghost mut u: int = 0; let ghost mut P: int = 0; proof { vec_max(B.colptr); vec_max(A.colptr); }
@at loop 0 before
  proof { sbuilt_start(*A, *B, C.colptr@, C.rowind@, C.val@); }
@loop 0
  invariant j <= n, n == B.n, m == A.m, cupper(*A), cok(*B), A.n == B.m, A.n < i64::MAX, C.m == m, C.n == n, n < i64::MAX, C.colptr@.len() == n + 1, sbuilt(*A, *B, C.colptr@, C.rowind@, C.val@, j as int)
  decreases n - j
@at loop 0 begin
  let ghost p0 = C.colptr@; let ghost r0 = C.rowind@; let ghost v0 = C.val@; let ghost a = B.colptr@[j as int] as int; let ghost s = C.rowind@.len() as int; let ghost b = bcol(*B, j as int);
  proof { sbuilt_len(*A, *B, p0, r0, v0, j as int); coltop_is(*B, j as int); assert(ccol(B.colptr@, B.rowind@, j as int)); vec_max(C.rowind); }
@loop 1
  invariant j < n, n == B.n, m == A.m, m == B.m, cok(*B), C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, a == B.colptr@[j as int], coltop(*B, j as int), a <= pBj <= B.colptr@[j + 1], extends(r0, C.rowind@), extends(v0, C.val@), s == r0.len(), C.rowind@.len() == s + (pBj - a), C.val@.len() == C.rowind@.len(),
    forall|k: int| a <= k < pBj ==> #[trigger] B.rowind@[k] == C.rowind@[k + (s - a)] && B.val@[k] == C.val@[k + (s - a)]
  decreases B.colptr@[j + 1] - pBj
@at loop 1 after
  proof {
    assert forall|k: int, l: int| s <= k < l < C.rowind@.len() implies #[trigger] C.rowind@[k] < #[trigger] C.rowind@[l] by { assert(B.rowind@[k - (s - a)] == C.rowind@[(k - (s - a)) + (s - a)]); assert(B.rowind@[l - (s - a)] == C.rowind@[(l - (s - a)) + (s - a)]); }
    assert forall|k: int| s <= k < C.rowind@.len() implies #[trigger] C.rowind@[k] < A.m by { assert(B.rowind@[k - (s - a)] == C.rowind@[(k - (s - a)) + (s - a)]); }
    assert forall|i: int| 0 <= i < A.m implies #[trigger] b(i) == csum(C.rowind@, C.val@, s, C.rowind@.len() as int, i) by { csum_ext(B.rowind@, B.val@, C.rowind@, C.val@, a, B.colptr@[j + 1] as int, s - a, i); }
    solving_start(*A, b, C.rowind@, C.val@, s); u = m as int; vec_max(C.rowind); }
@at after find_sorted_lt 0
  let ghost lz = r_find_sorted_lt_0;
@loop 2
  invariant j < n, n == B.n, m == A.m, cupper(*A), A.n < i64::MAX, C.m == m, C.n == n, C.colptr@ == p0, p0.len() == n + 1, offsetCj == s, extends(r0, C.rowind@), extends(v0, C.val@), s == r0.len(), solving(*A, b, C.rowind@, C.val@, s, u), 0 <= u <= m,
    lastnz == NO_IND ==> forall|k: int| s <= k < C.rowind@.len() ==> #[trigger] C.rowind@[k] >= u,
    lastnz != NO_IND ==> s + lastnz < C.rowind@.len() && C.rowind@[s + lastnz] < u && forall|k: int| s + lastnz < k < C.rowind@.len() ==> #[trigger] C.rowind@[k] >= u,
  decreases u
@at loop 2 begin
  let ghost r1 = C.rowind@; let ghost v1 = C.val@; let ghost P0 = s + lastnz;
  proof { solving_facts(*A, b, r1, v1, s, u); let i0 = r1[P0] as int; assert(i0 < A.n); assert(diag_last(*A, i0)); coltop_is(*A, i0); vec_max(C.rowind); vec_max(A.rowind); P = P0; }
@at loop 3 before
  let ghost v2 = C.val@;
  proof { assert(diag_last(*A, i as int)); merging_start(*A, i as int, yi, r1, v2, s, P0); }
@loop 3
  invariant cupper(*A), i < A.n, C.m == m, C.n == n, C.colptr@ == p0, Cr == Cv, Ar == Av, A.rowind@.len() == A.val@.len(), A.rowind@.len() <= i64::MAX, Cr < C.rowind@.len(), Ar < A.rowind@.len(), merging(*A, i as int, yi, r1, v2, s, C.rowind@, C.val@, Cr as int, Ar as int, P)
  decreases (P - Cr) + (A.colptr@[i + 1] - Ar) + (A.colptr@[i + 1] - Ar)
@at loop 3 begin
  let ghost r3 = C.rowind@; let ghost v3 = C.val@; let ghost q3 = Cr as int; let ghost t3 = Ar as int;
  proof { broadcast use field_basic; merging_facts(*A, i as int, yi, r1, v2, s, r3, v3, q3, t3, P); vec_max(C.rowind); f_neg_mul(yi, A.val@[t3]); f_neg_mul(A.val@[t3], yi); }
@at loop 3 end
  proof { broadcast use field_basic;
    if r3[q3] == A.rowind@[t3] { merging_eq(*A, i as int, yi, r1, v2, s, r3, v3, C.val@, q3, t3, P); }
    else if r3[q3] < A.rowind@[t3] { merging_skip(*A, i as int, yi, r1, v2, s, r3, v3, q3, t3, P); }
    else { merging_ins(*A, i as int, yi, r1, v2, s, r3, v3, C.rowind@, C.val@, q3, t3, P); P = P + 1; }
    merging_facts(*A, i as int, yi, r1, v2, s, C.rowind@, C.val@, Cr as int, Ar as int, P); }
@at loop 3 after
  proof { merging_done(*A, b, i as int, yi, r1, v1, v2, s, u, C.rowind@, C.val@, Cr as int, Ar as int, P, P0); u = i as int; vec_max(C.rowind); solving_facts(*A, b, C.rowind@, C.val@, s, u);
    assert forall|k: int| 0 <= k < r0.len() implies #[trigger] C.rowind@[k] == r0[k] by { assert(r1.take(s)[k] == r1[k]); }
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] C.val@[k] == v0[k] by { assert(v1.take(s)[k] == v1[k]); } }
@at loop 2 after
  proof { solving_done(*A, b, C.rowind@, C.val@, s, u); vec_max(C.rowind); }
@at loop 0 end
  proof { sbuilt_next(*A, *B, p0, r0, v0, C.colptr@, C.rowind@, C.val@, j as int); }
@at exit
  proof { sbuilt_done(*A, *B, *C); }
