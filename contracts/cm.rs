// ---- column matrices ----
pub open spec fn sc<F: Field>(s: Seq<Nz<F>>, m: int) -> bool { ssorted(s) && snz(s) && sbelow(s, m) }
pub open spec fn cmwf<F: Field>(A: CM<F>) -> bool { A.col@.len() == A.n && forall|j: int| 0 <= j < A.n ==> sc((#[trigger] A.col@[j]).indval@, A.m as int) }
pub open spec fn colv<F: Field>(c: Seq<SV<F>>, i: int, j: int) -> F { sval(c[j].indval@, i) }
pub open spec fn cmv<F: Field>(A: CM<F>, i: int, j: int) -> F { colv(A.col@, i, j) }
pub proof fn sval_out<F: Field>(s: Seq<Nz<F>>, m: int)
    requires sbelow(s, m)
    ensures forall|i: int| (i < 0 || i >= m) ==> #[trigger] sval(s, i) == F::szero()
{ assert forall|i: int| (i < 0 || i >= m) implies #[trigger] sval(s, i) == F::szero() by { sval_absent(s, i); } }
// canonical vectors are determined by their values
pub proof fn sc_of<F: Field>(s: Seq<Nz<F>>, m: int)
    requires ssorted(s), snz(s), forall|i: int| i >= m ==> #[trigger] sval(s, i) == F::szero()
    ensures sc(s, m)
{ assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ind < m by { if s[k].ind >= m { sval_at(s, k); assert(s[k].val != F::szero()); } } }

// ---- matrix times vector ----
pub open spec fn mvf<F: Field>(c: Seq<SV<F>>, x: Seq<Nz<F>>, i: int) -> spec_fn(int) -> F { |j: int| F::smul(sval(x, j), colv(c, i, j)) }
// row i of (columns c, n of them) times x
pub open spec fn mvx<F: Field>(c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, i: int) -> F { fsum(n, mvf(c, x, i)) }
// entry (i, j) of the product of (columns a, n of them) and (columns b)
pub open spec fn prodv<F: Field>(a: Seq<SV<F>>, n: int, b: Seq<SV<F>>, i: int, j: int) -> F { mvx(a, n, b[j].indval@, i) }
pub open spec fn roww<F: Field>(c: Seq<SV<F>>, i: int) -> spec_fn(int) -> F { |j: int| colv(c, i, j) }
pub proof fn mvx_ssum<F: Field>(c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, i: int)
    requires sdist(x), sbelow(x, n)
    ensures mvx(c, n, x, i) == ssum(x, roww(c, i))
{ ssum_fsum(x, n, roww(c, i), mvf(c, x, i)); }
pub proof fn fsum_plus_one<F: Field>(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F, k: int)
    requires 0 <= k < n, f(k) == F::szero(), forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == g(i)
    ensures fsum(n, g) == F::sadd(fsum(n, f), g(k))
{
    broadcast use field_basic;
    let h = |i: int| if i == k { g(k) } else { F::szero() };
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == F::sadd(f(i), h(i)) by { if i != k { assert(f(i) == g(i)); } }
    fsum_add(n, f, h, g); fsum_one(n, h, k);
}
// A times a column depends on the values only
pub proof fn mvx_ext<F: Field>(c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, y: Seq<Nz<F>>, i: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] sval(x, j) == sval(y, j)
    ensures mvx(c, n, x, i) == mvx(c, n, y, i)
{ assert forall|j: int| 0 <= j < n implies #[trigger] mvf(c, x, i)(j) == mvf(c, y, i)(j) by { assert(sval(x, j) == sval(y, j)); } fsum_ext(n, mvf(c, x, i), mvf(c, y, i)); }
// ... and linearly
pub proof fn mvx_axpy<F: Field>(c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, a: F, y: Seq<Nz<F>>, z: Seq<Nz<F>>, i: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] sval(z, j) == F::sadd(sval(x, j), F::smul(a, sval(y, j)))
    ensures mvx(c, n, z, i) == F::sadd(mvx(c, n, x, i), F::smul(a, mvx(c, n, y, i)))
{
    let g = |j: int| F::smul(a, mvf(c, y, i)(j));
    fsum_scale(n, a, mvf(c, y, i), g);
    assert forall|j: int| 0 <= j < n implies #[trigger] mvf(c, z, i)(j) == F::sadd(mvf(c, x, i)(j), g(j)) by {
        assert(sval(z, j) == F::sadd(sval(x, j), F::smul(a, sval(y, j))));
        let w = colv(c, i, j); F::ax_mul_comm(F::sadd(sval(x, j), F::smul(a, sval(y, j))), w); F::ax_distrib(w, sval(x, j), F::smul(a, sval(y, j))); F::ax_mul_comm(w, sval(x, j)); F::ax_mul_comm(w, F::smul(a, sval(y, j))); F::ax_mul_assoc(a, sval(y, j), w);
    }
    fsum_add(n, mvf(c, x, i), g, mvf(c, z, i));
}
// ---- triangular systems: indices already solved are >= p (upper) or < p (lower) ----
pub open spec fn tdone(up: bool, j: int, p: int) -> bool { if up { j >= p } else { j < p } }
pub open spec fn psf<F: Field>(up: bool, c: Seq<SV<F>>, x: Seq<Nz<F>>, i: int, p: int) -> spec_fn(int) -> F { |j: int| if tdone(up, j, p) { F::smul(sval(x, j), colv(c, i, j)) } else { F::szero() } }
pub open spec fn tinv<F: Field>(up: bool, c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, y: Seq<Nz<F>>, p: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] sval(y, i) == F::sadd(if tdone(up, i, p) { F::szero() } else { sval(x, i) }, fsum(n, psf(up, c, x, i, p)))
}
pub open spec fn trimat<F: Field>(up: bool, A: CM<F>) -> bool {
    &&& cmwf(A) && A.m == A.n
    &&& forall|i: int, j: int| 0 <= i < A.n && 0 <= j < A.n && (if up { i > j } else { i < j }) ==> #[trigger] cmv(A, i, j) == F::szero()
    &&& forall|j: int| 0 <= j < A.n ==> #[trigger] cmv(A, j, j) != F::szero()
}
#[verifier::rlimit(40)]
pub proof fn tri_step<F: Field>(up: bool, c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, x2: Seq<Nz<F>>, y: Seq<Nz<F>>, p: int, j0: int, p2: int, a: F)
    requires 0 <= j0 < n, p2 == (if up { j0 } else { j0 + 1 }), !tdone(up, j0, p),
        forall|k: int| 0 <= k < n && (if up { j0 < k < p } else { p <= k < j0 }) ==> #[trigger] sval(x, k) == F::szero(),
        tinv(up, c, n, x, y, p), F::smul(a, colv(c, j0, j0)) == sval(x, j0),
        forall|i: int| 0 <= i < n && (if up { i > j0 } else { i < j0 }) ==> #[trigger] colv(c, i, j0) == F::szero(),
        forall|i: int| 0 <= i < n ==> #[trigger] sval(x2, i) == if i == j0 { a } else if (if up { i < j0 } else { i > j0 }) { F::sadd(sval(x, i), F::smul(F::sneg(a), colv(c, i, j0))) } else { sval(x, i) },
    ensures tinv(up, c, n, x2, y, p2)
{
    broadcast use field_basic;
    assert forall|i: int| 0 <= i < n implies #[trigger] sval(y, i) == F::sadd(if tdone(up, i, p2) { F::szero() } else { sval(x2, i) }, fsum(n, psf(up, c, x2, i, p2))) by {
        let f = psf(up, c, x, i, p); let g = psf(up, c, x2, i, p2);
        assert forall|j: int| 0 <= j < n && j != j0 implies #[trigger] f(j) == g(j) by { assert(sval(x2, j) == sval(x2, j)); if tdone(up, j, p2) && !tdone(up, j, p) { assert(sval(x, j) == F::szero()); } }
        assert(f(j0) == F::szero()); assert(sval(x2, j0) == a); assert(g(j0) == F::smul(a, colv(c, i, j0)));
        fsum_plus_one(n, f, g, j0);
        let v = F::smul(a, colv(c, i, j0)); let s = fsum(n, f); assert(fsum(n, g) == F::sadd(s, v));
        if i == j0 { assert(v == sval(x, j0)); }
        else if tdone(up, i, p2) { assert(colv(c, i, j0) == F::szero()); assert(v == F::szero()); if !tdone(up, i, p) { assert(sval(x, i) == F::szero()); } }
        else { f_neg_mul(a, colv(c, i, j0)); assert(sval(x2, i) == F::sadd(sval(x, i), F::sneg(v))); f_sub_add(sval(x, i), v);
            F::ax_add_comm(s, v); F::ax_add_assoc(sval(x2, i), v, s); }
    }
}
pub proof fn tri_done<F: Field>(up: bool, c: Seq<SV<F>>, n: int, x: Seq<Nz<F>>, y: Seq<Nz<F>>, p: int)
    requires tinv(up, c, n, x, y, p), forall|i: int| 0 <= i < n && !tdone(up, i, p) ==> #[trigger] sval(x, i) == F::szero()
    ensures forall|i: int| 0 <= i < n ==> #[trigger] mvx(c, n, x, i) == sval(y, i)
{
    broadcast use field_basic;
    assert forall|i: int| 0 <= i < n implies #[trigger] mvx(c, n, x, i) == sval(y, i) by {
        assert forall|j: int| 0 <= j < n implies #[trigger] psf(up, c, x, i, p)(j) == mvf(c, x, i)(j) by { if !tdone(up, j, p) { assert(sval(x, j) == F::szero()); } }
        fsum_ext(n, psf(up, c, x, i, p), mvf(c, x, i)); assert(sval(y, i) == sval(y, i));
    }
}
pub proof fn tri_init<F: Field>(up: bool, c: Seq<SV<F>>, n: int, y: Seq<Nz<F>>, p: int)
    requires if up { p >= n } else { p <= 0 }
    ensures tinv(up, c, n, y, y, p)
{
    broadcast use field_basic;
    assert forall|i: int| 0 <= i < n implies #[trigger] sval(y, i) == F::sadd(if tdone(up, i, p) { F::szero() } else { sval(y, i) }, fsum(n, psf(up, c, y, i, p))) by { fsum_zero(n, psf(up, c, y, i, p)); }
}
// C is the product of A and B
pub open spec fn mulof<F: Field>(C: CM<F>, A: CM<F>, B: CM<F>) -> bool { cmwf(C) && C.m == A.m && C.n == B.n && A.n == B.m && forall|i: int, j: int| 0 <= j < B.n ==> #[trigger] cmv(C, i, j) == prodv(A.col@, A.n as int, B.col@, i, j) }
pub open spec fn uinv_of<F: Field>(X: CM<F>, U: CM<F>) -> bool { cmwf(X) && X.m == U.n && X.n == U.n && forall|i: int, j: int| 0 <= i < U.n && 0 <= j < U.n ==> #[trigger] prodv(U.col@, U.n as int, X.col@, i, j) == if i == j { F::sone() } else { F::szero() } }
pub open spec fn is_transpose<F: Field>(T: CM<F>, A: CM<F>) -> bool { cmwf(T) && T.m == A.n && T.n == A.m && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] cmv(T, j, i) == cmv(A, i, j) }
pub open spec fn is_jconj<F: Field>(T: CM<F>, A: CM<F>) -> bool { cmwf(T) && T.m == A.m && T.n == A.n && forall|i: int, j: int| 0 <= i < A.m && 0 <= j < A.n ==> #[trigger] cmv(T, i, j) == cmv(A, A.m - 1 - i, A.n - 1 - j) }
