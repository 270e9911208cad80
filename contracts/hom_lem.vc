@unit la
@uses cm_red
@rust
// ---- matrices as functions (row, column); upper triangular changes of basis; pivot tables ----
pub open spec fn fm<F: Field>(A: CM<F>) -> spec_fn(int, int) -> F { |i: int, j: int| cmv(A, i, j) }
pub open spec fn mqf<F: Field>(A: spec_fn(int, int) -> F, y: spec_fn(int) -> F, i: int) -> spec_fn(int) -> F { |k: int| F::smul(y(k), A(i, k)) }
// row i of A (n columns) times y
pub open spec fn mq<F: Field>(n: int, A: spec_fn(int, int) -> F, y: spec_fn(int) -> F, i: int) -> F { fsum(n, mqf(A, y, i)) }
pub open spec fn colf<F: Field>(A: spec_fn(int, int) -> F, j: int) -> spec_fn(int) -> F { |k: int| A(k, j) }
pub open spec fn mm<F: Field>(n: int, A: spec_fn(int, int) -> F, V: spec_fn(int, int) -> F) -> spec_fn(int, int) -> F { |i: int, j: int| mq(n, A, colf(V, j), i) }
// upper triangular and invertible
pub open spec fn utri<F: Field>(n: int, V: spec_fn(int, int) -> F) -> bool { (forall|k: int, j: int| 0 <= j < k < n ==> #[trigger] V(k, j) == F::szero()) && forall|j: int| 0 <= j < n ==> #[trigger] V(j, j) != F::szero() }
pub open spec fn haspiv(p: Seq<usize>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
// p is the table of the last nonzero rows of the columns of w, which are distinct
pub open spec fn pivtab<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>) -> bool {
    &&& p.len() == m && n <= NO_IND
    &&& forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND ==> p[i] < n && w(i, p[i] as int) != F::szero()
    &&& forall|i: int, r: int| 0 <= i < r < m && #[trigger] p[i] != NO_IND ==> #[trigger] w(r, p[i] as int) == F::szero()
    &&& forall|j: int, r: int| 0 <= j < n && 0 <= r < m && !haspiv(p, j) ==> #[trigger] w(r, j) == F::szero()
}
// p is the pivot table of A: of some (then of every) reduced A * V with V upper triangular and invertible
pub open spec fn pivots_by<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, V: spec_fn(int, int) -> F, p: Seq<usize>) -> bool { utri(n, V) && pivtab(mm(n, A, V), m, n, p) }
pub open spec fn pivots_of<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>) -> bool { exists|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p) }

pub proof fn mq_ext<F: Field>(n: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, y: spec_fn(int) -> F, z: spec_fn(int) -> F, i: int)
    requires forall|k: int| 0 <= k < n ==> #[trigger] y(k) == z(k), forall|k: int| 0 <= k < n ==> #[trigger] A(i, k) == B(i, k)
    ensures mq(n, A, y, i) == mq(n, B, z, i)
{ assert forall|k: int| 0 <= k < n implies #[trigger] mqf(A, y, i)(k) == mqf(B, z, i)(k) by { assert(y(k) == z(k)); assert(A(i, k) == B(i, k)); } fsum_ext(n, mqf(A, y, i), mqf(B, z, i)); }
// (A V) y == A (V y)
pub proof fn mq_assoc<F: Field>(n: int, A: spec_fn(int, int) -> F, l: int, V: spec_fn(int, int) -> F, y: spec_fn(int) -> F, i: int)
    requires n >= 0, l >= 0
    ensures mq(l, mm(n, A, V), y, i) == mq(n, A, |k: int| mq(l, V, y, k), i)
{
    let g = |k: int, q: int| F::smul(y(k), F::smul(V(q, k), A(i, q)));
    let r = mqf(mm(n, A, V), y, i);
    assert forall|k: int| 0 <= k < l implies #[trigger] r(k) == fsum(n, |q: int| g(k, q)) by { fsum_scale(n, y(k), mqf(A, colf(V, k), i), |q: int| g(k, q)); }
    let x = |k: int| mq(l, V, y, k); let s = mqf(A, x, i);
    assert forall|q: int| 0 <= q < n implies #[trigger] s(q) == fsum(l, |k: int| g(k, q)) by {
        let f = mqf(V, y, q); let w = A(i, q); let h = |k: int| g(k, q);
        assert forall|k: int| 0 <= k < l implies #[trigger] h(k) == F::smul(w, f(k)) by { F::ax_mul_assoc(y(k), V(q, k), w); F::ax_mul_comm(F::smul(y(k), V(q, k)), w); }
        fsum_scale(l, w, f, h); F::ax_mul_comm(w, fsum(l, f));
    }
    fubini(l, n, g, r, s);
}
// y + a e_j
pub open spec fn vadd1<F: Field>(y: spec_fn(int) -> F, j: int, a: F) -> spec_fn(int) -> F { |k: int| if k == j { F::sadd(y(k), a) } else { y(k) } }
pub proof fn mq_add1<F: Field>(n: int, A: spec_fn(int, int) -> F, y: spec_fn(int) -> F, j: int, a: F, i: int)
    requires 0 <= j < n
    ensures mq(n, A, vadd1(y, j, a), i) == F::sadd(mq(n, A, y, i), F::smul(a, A(i, j)))
{
    broadcast use field_basic;
    let h = |k: int| if k == j { F::smul(a, A(i, j)) } else { F::szero() };
    assert forall|k: int| 0 <= k < n implies #[trigger] mqf(A, vadd1(y, j, a), i)(k) == F::sadd(mqf(A, y, i)(k), h(k)) by { if k == j { let w = A(i, j); F::ax_distrib(w, y(j), a); F::ax_mul_comm(w, y(j)); F::ax_mul_comm(w, a); F::ax_mul_comm(w, F::sadd(y(j), a)); } }
    fsum_add(n, mqf(A, y, i), h, mqf(A, vadd1(y, j, a), i)); fsum_one(n, h, j);
}
pub open spec fn solves<F: Field>(n: int, V: spec_fn(int, int) -> F, y: spec_fn(int) -> F, x: spec_fn(int) -> F, p: int) -> bool { (forall|i: int| p <= i < n ==> #[trigger] y(i) == F::szero()) && forall|i: int| 0 <= i < n ==> #[trigger] mq(n, V, y, i) == x(i) }
// an upper triangular invertible V reaches every x with the same support bound
pub proof fn tri_exists<F: Field>(n: int, V: spec_fn(int, int) -> F, x: spec_fn(int) -> F, p: int) -> (y: spec_fn(int) -> F)
    requires 0 <= p <= n, utri(n, V), forall|i: int| p <= i < n ==> #[trigger] x(i) == F::szero()
    ensures solves(n, V, y, x, p), p > 0 && x(p - 1) != F::szero() ==> y(p - 1) != F::szero()
    decreases p
{
    broadcast use field_basic;
    if p == 0 {
        let y = |k: int| F::szero();
        assert forall|i: int| 0 <= i < n implies #[trigger] mq(n, V, y, i) == x(i) by { fsum_zero(n, mqf(V, y, i)); }
        y
    } else {
        let q = p - 1; let d = V(q, q); let c = F::smul(x(q), F::sinv(d));
        let x1 = |i: int| F::sadd(x(i), F::sneg(F::smul(c, V(i, q))));
        f_div_mul(x(q), d); F::ax_add_neg(x(q));
        assert forall|i: int| q <= i < n implies #[trigger] x1(i) == F::szero() by { if i == q { assert(x1(q) == F::szero()); } else { assert(V(i, q) == F::szero()); assert(x(i) == F::szero()); F::ax_add_neg(F::szero()); } }
        let y1 = tri_exists(n, V, x1, q);
        let y = vadd1(y1, q, c);
        assert(y1(q) == F::szero());
        assert forall|i: int| 0 <= i < n implies #[trigger] mq(n, V, y, i) == x(i) by { mq_add1(n, V, y1, q, c, i); assert(mq(n, V, y1, i) == x1(i)); f_sub_add(x(i), F::smul(c, V(i, q))); }
        assert forall|i: int| p <= i < n implies #[trigger] y(i) == F::szero() by { assert(y1(i) == F::szero()); }
        if x(q) != F::szero() && y(q) == F::szero() { assert(y(q) == c); assert(F::smul(c, d) == x(q)); }
        y
    }
}
// a combination involving the column with pivot row r has a nonzero entry in row r or below
pub proof fn comb_top<F: Field>(w: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, y: spec_fn(int) -> F, r: int) -> (t: int)
    requires pivtab(w, m, n, p), 0 <= r < m, p[r] != NO_IND, y(p[r] as int) != F::szero()
    ensures r <= t < m, mq(n, w, y, t) != F::szero()
    decreases m - r
{
    broadcast use field_basic;
    if exists|q: int| r < q < m && #[trigger] p[q] != NO_IND && y(p[q] as int) != F::szero() {
        let q = choose|q: int| r < q < m && #[trigger] p[q] != NO_IND && y(p[q] as int) != F::szero();
        comb_top(w, m, n, p, y, q)
    } else {
        let j = p[r] as int; let f = mqf(w, y, r);
        assert forall|k: int| 0 <= k < n && k != j implies #[trigger] f(k) == F::szero() by {
            if y(k) != F::szero() {
                if haspiv(p, k) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k; assert(p[i] != NO_IND); assert(i <= r); assert(i != r); assert(w(r, p[i] as int) == F::szero()); } else { assert(w(r, k) == F::szero()); }
            }
        }
        fsum_one(n, f, j); assert(f(j) == F::smul(y(j), w(r, j)));
        r
    }
}
proof fn piv_le<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, V: spec_fn(int, int) -> F, p: Seq<usize>, V2: spec_fn(int, int) -> F, p2: Seq<usize>, i: int) -> (i2: int)
    requires m >= 0, n >= 0, pivots_by(A, m, n, V, p), pivots_by(A, m, n, V2, p2), 0 <= i < m, p[i] != NO_IND
    ensures i <= i2 < m, p2[i2] == p[i]
{
    let j = p[i] as int; let x = colf(V2, j); let w = mm(n, A, V); let w2 = mm(n, A, V2);
    assert forall|k: int| j + 1 <= k < n implies #[trigger] x(k) == F::szero() by { assert(V2(k, j) == F::szero()); }
    assert(V2(j, j) != F::szero()); assert(x(j) == V2(j, j));
    let y = tri_exists(n, V, x, j + 1);
    let t = comb_top(w, m, n, p, y, i);
    mq_assoc(n, A, n, V, y, t);
    mq_ext(n, A, A, |k: int| mq(n, V, y, k), x, t);
    assert(w2(t, j) != F::szero());
    assert(haspiv(p2, j));
    let i2 = choose|i2: int| 0 <= i2 < p2.len() && #[trigger] p2[i2] == j;
    if i2 < t { assert(w2(t, p2[i2] as int) == F::szero()); }
    i2
}
// the pivot table is determined by the matrix
pub proof fn piv_unique<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, p2: Seq<usize>)
    requires m >= 0, n >= 0, pivots_of(A, m, n, p), pivots_of(A, m, n, p2)
    ensures p == p2
{
    let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p);
    let V2 = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p2);
    assert forall|i: int| 0 <= i < m implies #[trigger] p[i] == p2[i] by {
        if p[i] != NO_IND { let a = piv_le(A, m, n, V, p, V2, p2, i); let b = piv_le(A, m, n, V2, p2, V, p, a); let w = mm(n, A, V); if b > i { assert(w(b, p[i] as int) == F::szero()); assert(w(b, p[b] as int) != F::szero()); } }
        if p2[i] != NO_IND { let a = piv_le(A, m, n, V2, p2, V, p, i); let b = piv_le(A, m, n, V, p, V2, p2, a); let w = mm(n, A, V2); if b > i { assert(w(b, p2[i] as int) == F::szero()); assert(w(b, p2[b] as int) != F::szero()); } }
    }
    assert(p =~= p2);
}
// the last nonzero of a cycle names a zero column
pub proof fn cyc_low<F: Field>(A: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>, z: spec_fn(int) -> F, i: int)
    requires m >= 0, pivots_of(A, m, n, p), 0 <= i < n, z(i) != F::szero(), forall|r: int| i < r < n ==> #[trigger] z(r) == F::szero(), forall|r: int| 0 <= r < m ==> #[trigger] mq(n, A, z, r) == F::szero()
    ensures !haspiv(p, i)
{
    if haspiv(p, i) {
        let V = choose|V: spec_fn(int, int) -> F| pivots_by(A, m, n, V, p);
        let y = tri_exists(n, V, z, i + 1);
        let r = choose|r: int| 0 <= r < p.len() && #[trigger] p[r] == i;
        let t = comb_top(mm(n, A, V), m, n, p, y, r);
        mq_assoc(n, A, n, V, y, t); mq_ext(n, A, A, |k: int| mq(n, V, y, k), z, t);
        assert(mq(n, A, z, t) == F::szero());
    }
}
pub proof fn utri_mm<F: Field>(n: int, V: spec_fn(int, int) -> F, W: spec_fn(int, int) -> F)
    requires utri(n, V), utri(n, W)
    ensures utri(n, mm(n, V, W))
{
    broadcast use field_basic;
    let X = mm(n, V, W);
    assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] X(k, j) == F::szero() by {
        assert forall|q: int| 0 <= q < n implies #[trigger] mqf(V, colf(W, j), k)(q) == F::szero() by { if q > j { assert(W(q, j) == F::szero()); } else { assert(V(k, q) == F::szero()); } }
        fsum_zero(n, mqf(V, colf(W, j), k));
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] X(j, j) != F::szero() by {
        let f = mqf(V, colf(W, j), j);
        assert forall|q: int| 0 <= q < n && q != j implies #[trigger] f(q) == F::szero() by { if q > j { assert(W(q, j) == F::szero()); } else { assert(V(j, q) == F::szero()); } }
        fsum_one(n, f, j); assert(V(j, j) != F::szero()); assert(W(j, j) != F::szero());
    }
}
pub proof fn pivtab_ext<F: Field>(w: spec_fn(int, int) -> F, v: spec_fn(int, int) -> F, m: int, n: int, p: Seq<usize>)
    requires pivtab(w, m, n, p), forall|i: int, j: int| 0 <= i < m && 0 <= j < n ==> #[trigger] w(i, j) == v(i, j)
    ensures pivtab(v, m, n, p)
{
    assert forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND implies p[i] < n && v(i, p[i] as int) != F::szero() by { assert(w(i, p[i] as int) == v(i, p[i] as int)); }
    assert forall|i: int, r: int| 0 <= i < r < m && #[trigger] p[i] != NO_IND implies #[trigger] v(r, p[i] as int) == F::szero() by { assert(w(r, p[i] as int) == v(r, p[i] as int)); }
    assert forall|j: int, r: int| 0 <= j < n && 0 <= r < m && !haspiv(p, j) implies #[trigger] v(r, j) == F::szero() by { assert(w(r, j) == v(r, j)); }
}
// a reduced sparse matrix and its table
pub proof fn reduced_pivtab<F: Field>(A: CM<F>, p: Seq<usize>)
    requires cmwf(A), reduced(A, p)
    ensures pivtab(fm(A), A.m as int, A.n as int, p), forall|j: int| 0 <= j < A.n ==> ((#[trigger] A.col@[j]).indval@.len() > 0 <==> haspiv(p, j))
{
    let w = fm(A); let m = A.m as int;
    assert forall|i: int| 0 <= i < m && #[trigger] p[i] != NO_IND implies p[i] < A.n && w(i, p[i] as int) != F::szero() by { let s = A.col@[p[i] as int].indval@; assert(sc(s, m)); sc_some(s, m, s.len() - 1); }
    assert forall|i: int, r: int| 0 <= i < r < m && #[trigger] p[i] != NO_IND implies #[trigger] w(r, p[i] as int) == F::szero() by { let s = A.col@[p[i] as int].indval@; assert(sc(s, m)); sval_absent_above(s, r); }
    assert forall|j: int| 0 <= j < A.n implies ((#[trigger] A.col@[j]).indval@.len() > 0 <==> haspiv(p, j)) by { let s = A.col@[j].indval@; assert(sc(s, m)); if s.len() > 0 { assert(p[low(s)] == j); } if haspiv(p, j) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j; assert(p[i] != NO_IND); } }
    assert forall|j: int, r: int| 0 <= j < A.n && 0 <= r < m && !haspiv(p, j) implies #[trigger] w(r, j) == F::szero() by { let s = A.col@[j].indval@; assert(s.len() == 0); }
}
// c1 == c0 * V reduced, V upper triangular: the table is that of c0
pub proof fn red_pivots<F: Field>(M0: CM<F>, V: spec_fn(int, int) -> F, M1: CM<F>, p: Seq<usize>)
    requires cmwf(M0), cmwf(M1), M1.m == M0.m, M1.n == M0.n, utri(M0.n as int, V), colcomb(M0.col@, M0.n as int, V, M1.col@), reduced(M1, p)
    ensures pivots_of(fm(M0), M0.m as int, M0.n as int, p)
{
    let n = M0.n as int; let m = M0.m as int; let A = fm(M0);
    reduced_pivtab(M1, p);
    assert forall|i: int, j: int| 0 <= i < m && 0 <= j < n implies #[trigger] fm(M1)(i, j) == mm(n, A, V)(i, j) by { assert(colv(M1.col@, i, j) == fsum(n, ccf(M0.col@, V, i, j))); fsum_ext(n, ccf(M0.col@, V, i, j), mqf(A, colf(V, j), i)); }
    pivtab_ext(fm(M1), mm(n, A, V), m, n, p);
    assert(pivots_by(A, m, n, V, p));
}
pub proof fn uunit_utri<F: Field>(n: int, V: spec_fn(int, int) -> F) requires uunit(n, V) ensures utri(n, V)
{ F::ax_one_ne_zero(); assert forall|k: int, j: int| 0 <= j < k < n implies #[trigger] V(k, j) == F::szero() by { assert(V(k, j) == if k == j { F::sone() } else { F::szero() }); } assert forall|j: int| 0 <= j < n implies #[trigger] V(j, j) != F::szero() by { assert(V(j, j) == if j == j { F::sone() } else { F::szero() }); } }
pub proof fn trimat_utri<F: Field>(U: CM<F>) requires trimat(true, U) ensures utri(U.n as int, fm(U))
{ assert forall|k: int, j: int| 0 <= j < k < U.n implies #[trigger] fm(U)(k, j) == F::szero() by { assert(cmv(U, k, j) == F::szero()); } assert forall|j: int| 0 <= j < U.n implies #[trigger] fm(U)(j, j) != F::szero() by { assert(cmv(U, j, j) != F::szero()); } }
@end
