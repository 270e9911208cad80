@unit la
@uses rcc_hom
@rust
// ---- induced maps on homology ----
pub open spec fn genmat<F: Field>(X: RCC<F>, k: int) -> spec_fn(int, int) -> F { |i: int, t: int| cmv(X.U@[k], i, X.I@[k]@[t] as int) }
pub open spec fn mqv<F: Field>(n: int, A: spec_fn(int, int) -> F, y: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| mq(n, A, y, i) }
// the chain with coordinates v on the preferred representatives
pub open spec fn gcomb<F: Field>(X: RCC<F>, k: int, v: spec_fn(int) -> F) -> spec_fn(int) -> F { mqv(X.I@[k]@.len() as int, genmat(X, k), v) }
pub open spec fn grep<F: Field>(X: RCC<F>, k: int, t: int) -> spec_fn(int) -> F { colf(genmat(X, k), t) }
// v are the coordinates of the class of z
pub open spec fn classof<F: Field>(Y: CC<F>, X: RCC<F>, k: int, v: spec_fn(int) -> F, z: spec_fn(int) -> F) -> bool { is_bdry(Y, k, fdiff(gcomb(X, k, v), z)) }
// whatever complex Y the reduction X is of: if z is a cycle of Y, v are the coordinates of its class
pub open spec fn coords_ok<F: Field>(X: RCC<F>, k: int, v: spec_fn(int) -> F, z: spec_fn(int) -> F) -> bool { forall|Y: CC<F>| #[trigger] hom_of(Y, X) && is_cycle(Y.boundary@[k], z) ==> classof(Y, X, k, v, z) }
pub open spec fn ind_col<F: Field>(G: CM<F>, C: RCC<F>, D: RCC<F>, k: int, c: SV<F>, t: int) -> bool { coords_ok(D, k, svf(c.indval@), bimg(G, grep(C, k, t))) }
pub proof fn fsum_pick<F: Field>(n: int, f: spec_fn(int) -> F, s: Seq<usize>, g: spec_fn(int) -> F)
    requires 0 <= n, forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b], forall|a: int| 0 <= a < s.len() ==> (#[trigger] s[a]) < n, forall|a: int| 0 <= a < s.len() ==> #[trigger] g(a) == f(s[a] as int),
        forall|j: int| 0 <= j < n && #[trigger] f(j) != F::szero() ==> s.contains(j as usize), n <= usize::MAX
    ensures fsum(n, f) == fsum(s.len() as int, g)
    decreases n
{
    broadcast use field_basic;
    if n > 0 {
        let l = s.len() as int;
        if l > 0 && s[l - 1] == n - 1 {
            let s2 = s.subrange(0, l - 1);
            assert forall|a: int| 0 <= a < s2.len() implies (#[trigger] s2[a]) < n - 1 by { assert(s[a] < s[l - 1]); }
            assert forall|j: int| 0 <= j < n - 1 && #[trigger] f(j) != F::szero() implies s2.contains(j as usize) by { let a = choose|a: int| 0 <= a < l && s[a] == j as usize; assert(a != l - 1); assert(s2[a] == j as usize); }
            assert forall|a: int| 0 <= a < s2.len() implies #[trigger] g(a) == f(s2[a] as int) by { assert(g(a) == f(s[a] as int)); }
            fsum_pick(n - 1, f, s2, g); assert(g(l - 1) == f(s[l - 1] as int));
        } else {
            assert forall|a: int| 0 <= a < l implies (#[trigger] s[a]) < n - 1 by { if a < l - 1 { assert(s[a] < s[l - 1]); } }
            if f(n - 1) != F::szero() { let a = choose|a: int| 0 <= a < l && s[a] == (n - 1) as usize; assert(s[a] < n - 1); }
            fsum_pick(n - 1, f, s, g);
        }
    } else { if s.len() > 0 { assert(s[0] < n); } }
}
pub proof fn gens_strict<F: Field>(Y: CC<F>, X: RCC<F>, k: int) requires hom_of(Y, X), 0 <= k < Y.boundary@.len() ensures strict_usize(X.I@[k]@), forall|a: int| 0 <= a < X.I@[k]@.len() ==> (#[trigger] X.I@[k]@[a]) < X.U@[k].n, X.U@[k].n == Y.boundary@[k].n
{ assert(gens_at(X, k)); assert(bas_at(Y.boundary@[k], X.R@[k], X.U@[k])); assert(red_at(Y.boundary@[k], X.R@[k], X.p2c@[k]@)); assert forall|a: int| 0 <= a < X.I@[k]@.len() implies (#[trigger] X.I@[k]@[a]) < X.U@[k].n by { assert(isgen(X.R@[k], p_up(X, k), k == X.R@.len() - 1, X.I@[k]@[a] as int)); } }
// coordinates on the preferred representatives only: U y is their combination
pub proof fn gens_comb<F: Field>(U: CM<F>, I: Seq<usize>, A: spec_fn(int, int) -> F, y: spec_fn(int) -> F, v: spec_fn(int) -> F, i: int)
    requires strict_usize(I), forall|a: int| 0 <= a < I.len() ==> (#[trigger] I[a]) < U.n, on_gens(I, U.n as int, y), forall|a: int| 0 <= a < I.len() ==> #[trigger] v(a) == y(I[a] as int), forall|a: int| 0 <= a < I.len() ==> #[trigger] A(i, a) == cmv(U, i, I[a] as int)
    ensures comb(U, y)(i) == mq(I.len() as int, A, v, i)
{
    broadcast use field_basic;
    let f = mqf(fm(U), y, i); let g = mqf(A, v, i); let n = U.n as int;
    assert forall|a: int| 0 <= a < I.len() implies #[trigger] g(a) == f(I[a] as int) by { assert(v(a) == y(I[a] as int)); assert(A(i, a) == cmv(U, i, I[a] as int)); }
    assert forall|j: int| 0 <= j < n && #[trigger] f(j) != F::szero() implies I.contains(j as usize) by { if y(j) == F::szero() { assert(f(j) == F::szero()); } }
    assert forall|a: int, b: int| 0 <= a < b < I.len() implies #[trigger] I[a] < #[trigger] I[b] by { }
    fsum_pick(n, f, I, g);
}
// the coordinates selected from y
pub proof fn select_coords<F: Field>(Y: CC<F>, X: RCC<F>, k: int, z: Seq<Nz<F>>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, v: Seq<Nz<F>>)
    requires hom_of(Y, X), 0 <= k < Y.boundary@.len(), sc(z, X.U@[k].n as int), sc(y, X.U@[k].n as int), sc(y2, X.U@[k].n as int), is_cycle(Y.boundary@[k], svf(z)),
        forall|i: int| 0 <= i < X.U@[k].n ==> #[trigger] mvx(X.U@[k].col@, X.U@[k].n as int, y, i) == sval(z, i),
        k == X.R@.len() - 1 ==> y2 == y, k < X.R@.len() - 1 ==> nopivots(X.p2c@[k + 1]@, y2) && bdmove(X.U@[k], X.R@[k + 1], y, y2),
        forall|a: int| 0 <= a < X.I@[k]@.len() ==> sval(v, a) == sval(y2, (#[trigger] X.I@[k]@[a]) as int)
    ensures classof(Y, X, k, svf(v), svf(z))
{
    let B = Y.boundary@[k]; let U = X.U@[k]; let n = B.n as int; let I = X.I@[k]@; assert(bas_at(B, X.R@[k], U)); gens_strict(Y, X, k);
    let c = comb(U, svf(y)); let c2 = comb(U, svf(y2));
    assert forall|i: int| 0 <= i < n implies #[trigger] c(i) == svf(z)(i) by { mvx_mq(U, y, i); assert(mvx(U.col@, n, y, i) == sval(z, i)); }
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(n, fm(B), c, i) == F::szero() by { mq_ext(n, fm(B), fm(B), c, svf(z), i); assert(mq(n, fm(B), svf(z), i) == F::szero()); }
    preferred(Y, X, k, y, y2);
    let d = fdiff(gcomb(X, k, svf(v)), svf(z));
    assert forall|i: int| 0 <= i < n implies fdiff(c2, c)(i) == #[trigger] d(i) by { assert forall|a: int| 0 <= a < I.len() implies #[trigger] svf(v)(a) == svf(y2)(I[a] as int) by { assert(sval(v, a) == sval(y2, I[a] as int)); } gens_comb(U, I, genmat(X, k), svf(y2), svf(v), i); assert(c(i) == svf(z)(i)); }
    bdry_ext(Y, k, fdiff(c2, c), d);
}
// ---- linear algebra of boundaries ----
pub open spec fn faxpy<F: Field>(x: spec_fn(int) -> F, a: F, y: spec_fn(int) -> F) -> spec_fn(int) -> F { |i: int| F::sadd(x(i), F::smul(a, y(i))) }
pub proof fn mq_axpy<F: Field>(n: int, A: spec_fn(int, int) -> F, x: spec_fn(int) -> F, a: F, y: spec_fn(int) -> F, i: int)
    requires n >= 0
    ensures mq(n, A, faxpy(x, a, y), i) == F::sadd(mq(n, A, x, i), F::smul(a, mq(n, A, y, i)))
{
    let f = mqf(A, x, i); let g = mqf(A, y, i); let ag = |k: int| F::smul(a, g(k)); let h = mqf(A, faxpy(x, a, y), i);
    fsum_scale(n, a, g, ag);
    assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == F::sadd(f(k), ag(k)) by { let w = A(i, k); F::ax_mul_comm(F::sadd(x(k), F::smul(a, y(k))), w); F::ax_distrib(w, x(k), F::smul(a, y(k))); F::ax_mul_comm(w, x(k)); F::ax_mul_comm(w, F::smul(a, y(k))); F::ax_mul_assoc(a, y(k), w); }
    fsum_add(n, f, ag, h);
}
pub proof fn bdry_axpy<F: Field>(Y: CC<F>, k: int, z: spec_fn(int) -> F, a: F, w: spec_fn(int) -> F)
    requires 0 <= k < Y.boundary@.len(), is_bdry(Y, k, z), is_bdry(Y, k, w)
    ensures is_bdry(Y, k, faxpy(z, a, w))
{
    broadcast use field_basic;
    let n = Y.boundary@[k].n as int; let u = faxpy(z, a, w);
    if k + 1 < Y.boundary@.len() {
        let B = Y.boundary@[k + 1];
        let x = choose|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(B, x)); let y = choose|y: spec_fn(int) -> F| same_on(n, w, #[trigger] bimg(B, y));
        assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == bimg(B, faxpy(x, a, y))(i) by { assert(z(i) == bimg(B, x)(i)); assert(w(i) == bimg(B, y)(i)); mq_axpy(B.n as int, fm(B), x, a, y, i); }
        assert(same_on(n, u, bimg(B, faxpy(x, a, y))));
    } else { assert forall|i: int| 0 <= i < n implies #[trigger] u(i) == F::szero() by { assert(z(i) == F::szero()); assert(w(i) == F::szero()); } }
}
// a combination of boundaries is a boundary
pub proof fn bdry_comb<F: Field>(Y: CC<F>, k: int, A: spec_fn(int, int) -> F, m: int, y: spec_fn(int) -> F)
    requires 0 <= k < Y.boundary@.len(), 0 <= m, forall|s: int| 0 <= s < m ==> is_bdry(Y, k, #[trigger] colf(A, s))
    ensures is_bdry(Y, k, mqv(m, A, y))
    decreases m
{
    broadcast use field_basic;
    let n = Y.boundary@[k].n as int;
    if m == 0 {
        if k + 1 < Y.boundary@.len() { let B = Y.boundary@[k + 1]; let x = |q: int| F::szero(); assert forall|i: int| 0 <= i < n implies #[trigger] mqv(m, A, y)(i) == bimg(B, x)(i) by { mq_zero(B.n as int, fm(B), x, i); } assert(same_on(n, mqv(m, A, y), bimg(B, x))); }
    } else {
        bdry_comb(Y, k, A, m - 1, y); assert(is_bdry(Y, k, colf(A, m - 1)));
        bdry_axpy(Y, k, mqv(m - 1, A, y), y(m - 1), colf(A, m - 1));
        let u = faxpy(mqv(m - 1, A, y), y(m - 1), colf(A, m - 1));
        assert forall|i: int| 0 <= i < n implies u(i) == #[trigger] mqv(m, A, y)(i) by { assert(mqf(A, y, i)(m - 1) == F::smul(y(m - 1), A(i, m - 1))); }
        bdry_ext(Y, k, u, mqv(m, A, y));
    }
}
pub proof fn fdiff_axpy<F: Field>(x: F, y: F) ensures F::sadd(x, F::sneg(y)) == F::sadd(x, F::smul(F::sneg(F::sone()), y)) { f_neg_one_mul(y); }
// (v - z) - (w - z) == v - w
pub proof fn f_diff3<F: Field>(v: F, w: F, z: F) ensures F::sadd(F::sadd(v, F::sneg(z)), F::smul(F::sneg(F::sone()), F::sadd(w, F::sneg(z)))) == F::sadd(v, F::smul(F::sneg(F::sone()), w))
{
    broadcast use field_basic;
    let m = F::sneg(F::sone()); let nz = F::sneg(z); F::ax_distrib(m, w, nz); f_neg_one_mul(nz); f_neg_one_mul(w); F::ax_add_neg(nz);
    let a = F::smul(m, w); let b = F::sneg(nz);
    F::ax_add_assoc(v, nz, F::sadd(a, b)); F::ax_add_comm(a, b); F::ax_add_assoc(nz, b, a); 
}
// coordinates of a class are unique
pub proof fn class_unique<F: Field>(Y: CC<F>, X: RCC<F>, k: int, v: spec_fn(int) -> F, w: spec_fn(int) -> F, z: spec_fn(int) -> F)
    requires hom_of(Y, X), 0 <= k < Y.boundary@.len(), classof(Y, X, k, v, z), classof(Y, X, k, w, z)
    ensures forall|a: int| 0 <= a < X.I@[k]@.len() ==> #[trigger] v(a) == w(a)
{
    broadcast use field_basic;
    let n = Y.boundary@[k].n as int; let I = X.I@[k]@; let l = I.len() as int; let U = X.U@[k]; gens_strict(Y, X, k);
    let m = F::sneg(F::sone()); let d = faxpy(v, m, w);
    bdry_axpy(Y, k, fdiff(gcomb(X, k, v), z), m, fdiff(gcomb(X, k, w), z));
    let u = faxpy(fdiff(gcomb(X, k, v), z), m, fdiff(gcomb(X, k, w), z));
    let y = |j: int| if I.contains(j as usize) { d(I.index_of(j as usize)) } else { F::szero() };
    assert forall|i: int| 0 <= i < n implies u(i) == #[trigger] comb(U, y)(i) by {
        mq_axpy(l, genmat(X, k), v, m, w, i); f_diff3(gcomb(X, k, v)(i), gcomb(X, k, w)(i), z(i));
        assert forall|a: int| 0 <= a < l implies #[trigger] d(a) == y(I[a] as int) by { assert(I.contains(I[a])); let b = I.index_of(I[a]); assert(I[b] == I[a]); assert(b == a) by { if b < a { assert(I[b] < I[a]); } else if a < b { assert(I[a] < I[b]); } } }
        assert(on_gens(I, n, y)); gens_comb(U, I, genmat(X, k), y, d, i);
    }
    bdry_ext(Y, k, u, comb(U, y)); gens_independent(Y, X, k, y);
    assert forall|a: int| 0 <= a < l implies #[trigger] v(a) == w(a) by {
        assert(I.contains(I[a])); let b = I.index_of(I[a]); assert(b == a) by { if b < a { assert(I[b] < I[a]); } else if a < b { assert(I[a] < I[b]); } }
        assert(y(I[a] as int) == F::szero()); assert(d(a) == F::szero()); f_neg_one_mul(w(a)); f_neg_uniq(v(a), F::sneg(w(a))); F::ax_add_neg(w(a)); f_neg_uniq(F::sneg(w(a)), w(a)); f_neg_uniq(F::sneg(w(a)), v(a));
    }
}
// ---- functoriality ----
pub open spec fn induced_of<F: Field>(YD: CC<F>, XC: RCC<F>, XD: RCC<F>, k: int, G: CM<F>, M: spec_fn(int, int) -> F) -> bool { forall|t: int| 0 <= t < XC.I@[k]@.len() ==> #[trigger] ind_class(YD, XC, XD, k, G, M, t) }
pub open spec fn ind_class<F: Field>(YD: CC<F>, XC: RCC<F>, XD: RCC<F>, k: int, G: CM<F>, M: spec_fn(int, int) -> F, t: int) -> bool { classof(YD, XD, k, colf(M, t), bimg(G, grep(XC, k, t))) }
// G maps boundaries to boundaries
pub open spec fn bdmap<F: Field>(YD: CC<F>, YE: CC<F>, k: int, G: CM<F>) -> bool { forall|z: spec_fn(int) -> F| is_bdry(YD, k, z) ==> is_bdry(YE, k, #[trigger] bimg(G, z)) }
pub open spec fn cymap<F: Field>(YD: CC<F>, YE: CC<F>, k: int, G: CM<F>) -> bool { forall|z: spec_fn(int) -> F| is_cycle(YD.boundary@[k], z) ==> is_cycle(YE.boundary@[k], #[trigger] bimg(G, z)) }
pub open spec fn commutes<F: Field>(B: CM<F>, B2: CM<F>, G0: CM<F>, G1: CM<F>) -> bool { forall|i: int, j: int| 0 <= i < B2.m && 0 <= j < B.n ==> #[trigger] prodv(G0.col@, G0.n as int, B.col@, i, j) == prodv(B2.col@, B2.n as int, G1.col@, i, j) }
pub proof fn commute_cycles<F: Field>(YD: CC<F>, YE: CC<F>, k: int, G0: CM<F>, G1: CM<F>)
    requires 0 <= k < YD.boundary@.len(), k < YE.boundary@.len(), commutes(YD.boundary@[k], YE.boundary@[k], G0, G1), G0.n == YD.boundary@[k].m, G1.n == YD.boundary@[k].n, G1.m == YE.boundary@[k].n
    ensures cymap(YD, YE, k, G1)
{
    broadcast use field_basic;
    let B = YD.boundary@[k]; let B2 = YE.boundary@[k];
    assert forall|z: spec_fn(int) -> F| is_cycle(B, z) implies is_cycle(B2, #[trigger] bimg(G1, z)) by {
        assert forall|i: int| 0 <= i < B2.m implies #[trigger] mq(B2.n as int, fm(B2), bimg(G1, z), i) == F::szero() by {
            comm_at(B, B2, G0, G1, z, i);
            assert forall|q: int| 0 <= q < G0.n implies #[trigger] bimg(B, z)(q) == F::szero() by { assert(mq(B.n as int, fm(B), z, q) == F::szero()); }
            mq_zero(G0.n as int, fm(G0), bimg(B, z), i);
        }
    }
}
// G0 (B z) == B2 (G1 z)
pub proof fn comm_at<F: Field>(B: CM<F>, B2: CM<F>, G0: CM<F>, G1: CM<F>, z: spec_fn(int) -> F, i: int)
    requires commutes(B, B2, G0, G1), G1.n == B.n, 0 <= i < B2.m
    ensures mq(B2.n as int, fm(B2), bimg(G1, z), i) == mq(G0.n as int, fm(G0), bimg(B, z), i)
{
    let n = B.n as int;
    mq_assoc(B2.n as int, fm(B2), n, fm(G1), z, i); mq_assoc(G0.n as int, fm(G0), n, fm(B), z, i);
    let L = mm(B2.n as int, fm(B2), fm(G1)); let R = mm(G0.n as int, fm(G0), fm(B));
    assert forall|j: int| 0 <= j < n implies #[trigger] L(i, j) == R(i, j) by { prod_mm(B2, G1, i, j); prod_mm(G0, B, i, j); assert(prodv(G0.col@, G0.n as int, B.col@, i, j) == prodv(B2.col@, B2.n as int, G1.col@, i, j)); }
    mq_ext(n, L, R, z, z, i);
    mq_ext(B2.n as int, fm(B2), fm(B2), bimg(G1, z), |k: int| mq(n, fm(G1), z, k), i); mq_ext(G0.n as int, fm(G0), fm(G0), bimg(B, z), |k: int| mq(n, fm(B), z, k), i);
}
pub proof fn commute_bdrys<F: Field>(YD: CC<F>, YE: CC<F>, k: int, G0: CM<F>, G1: CM<F>)
    requires ccwf(YD), ccwf(YE), 0 <= k < YD.boundary@.len() - 1, YD.boundary@.len() == YE.boundary@.len(), commutes(YD.boundary@[k + 1], YE.boundary@[k + 1], G0, G1), G0.n == YD.boundary@[k].n, G1.n == YD.boundary@[k + 1].n
    ensures bdmap(YD, YE, k, G0)
{
    let B = YD.boundary@[k + 1]; let B2 = YE.boundary@[k + 1]; let n = YD.boundary@[k].n as int; let n2 = YE.boundary@[k].n as int; assert(B2.m == n2);
    assert forall|z: spec_fn(int) -> F| is_bdry(YD, k, z) implies is_bdry(YE, k, #[trigger] bimg(G0, z)) by {
        let x = choose|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(B, x)); let x2 = bimg(G1, x);
        assert forall|i: int| 0 <= i < n2 implies #[trigger] bimg(G0, z)(i) == bimg(B2, x2)(i) by { comm_at(B, B2, G0, G1, x, i); mq_ext(G0.n as int, fm(G0), fm(G0), z, bimg(B, x), i); }
        assert(same_on(n2, bimg(G0, z), bimg(B2, x2)));
    }
}
// the induced matrices of a composite multiply
pub proof fn induced_compose<F: Field>(YD: CC<F>, YE: CC<F>, XC: RCC<F>, XD: RCC<F>, XE: RCC<F>, k: int, Fk: CM<F>, G: CM<F>, H: CM<F>, M: spec_fn(int, int) -> F, N: spec_fn(int, int) -> F, P: spec_fn(int, int) -> F, s: int, t: int)
    requires hom_of(YD, XD), hom_of(YE, XE), 0 <= k < YD.boundary@.len(), k < YE.boundary@.len(), cmwf(G), G.n == YD.boundary@[k].n, G.m == YE.boundary@[k].n, Fk.m == G.n, is_prod(G, Fk, H), H.n == Fk.n, bdmap(YD, YE, k, G),
        induced_of(YD, XC, XD, k, Fk, M), induced_of(YE, XD, XE, k, G, N), induced_of(YE, XC, XE, k, H, P), 0 <= t < XC.I@[k]@.len(), 0 <= s < XE.I@[k]@.len()
    ensures P(s, t) == mm(XD.I@[k]@.len() as int, N, M)(s, t)
{
    broadcast use field_basic;
    let m1 = F::sneg(F::sone()); let n = YE.boundary@[k].n as int; let l = XD.I@[k]@.len() as int; let le = XE.I@[k]@.len() as int; let v = colf(M, t); let r = grep(XC, k, t);
    assert(ind_class(YD, XC, XD, k, Fk, M, t)); assert(ind_class(YE, XC, XE, k, H, P, t));
    let gd = gcomb(XD, k, v); let fr = bimg(Fk, r); let d1 = fdiff(gd, fr); assert(is_bdry(YE, k, bimg(G, d1)));
    let A = |i: int, q: int| F::sadd(gcomb(XE, k, colf(N, q))(i), F::sneg(bimg(G, grep(XD, k, q))(i)));
    assert forall|q: int| 0 <= q < l implies is_bdry(YE, k, #[trigger] colf(A, q)) by { assert(ind_class(YE, XD, XE, k, G, N, q)); bdry_ext(YE, k, fdiff(gcomb(XE, k, colf(N, q)), bimg(G, grep(XD, k, q))), colf(A, q)); }
    bdry_comb(YE, k, A, l, v); let d2 = mqv(l, A, v);
    bdry_axpy(YE, k, d2, F::sone(), bimg(G, d1)); let d3 = faxpy(d2, F::sone(), bimg(G, d1));
    let nv = mqv(l, N, v); let hr = bimg(H, r);
    assert forall|i: int| 0 <= i < n implies d3(i) == #[trigger] fdiff(gcomb(XE, k, nv), hr)(i) by {
        // G d1
        let fa = faxpy(gd, m1, fr);
        assert forall|q: int| 0 <= q < G.n implies #[trigger] d1(q) == fa(q) by { fdiff_axpy(gd(q), fr(q)); }
        mq_ext(G.n as int, fm(G), fm(G), d1, fa, i); mq_axpy(G.n as int, fm(G), gd, m1, fr, i);
        // d2
        let GD = mm(G.n as int, fm(G), genmat(XD, k)); let NE = mm(le, genmat(XE, k), N);
        assert forall|q: int| 0 <= q < l implies #[trigger] A(i, q) == F::sadd(NE(i, q), F::sneg(GD(i, q))) by { }
        mq_subA(l, A, NE, GD, v, i);
        mq_assoc(G.n as int, fm(G), l, genmat(XD, k), v, i); mq_ext(G.n as int, fm(G), fm(G), gd, |k2: int| mq(l, genmat(XD, k), v, k2), i);
        mq_assoc(le, genmat(XE, k), l, N, v, i); mq_ext(le, genmat(XE, k), genmat(XE, k), nv, |k2: int| mq(l, N, v, k2), i);
        // H r
        mq_assoc(G.n as int, fm(G), Fk.n as int, fm(Fk), r, i); mq_ext(G.n as int, fm(G), fm(G), fr, |k2: int| mq(Fk.n as int, fm(Fk), r, k2), i);
        let GF = mm(G.n as int, fm(G), fm(Fk));
        assert forall|j: int| 0 <= j < Fk.n implies #[trigger] fm(H)(i, j) == GF(i, j) by { prod_mm(G, Fk, i, j); assert(cmv(H, i, j) == prodv(G.col@, G.n as int, Fk.col@, i, j)); }
        mq_ext(Fk.n as int, fm(H), GF, r, r, i);
        let a = gcomb(XE, k, nv)(i); let b = mq(G.n as int, fm(G), gd, i); let c = hr(i);
        fdiff_axpy(b, c); F::ax_add_neg(b); F::ax_add_assoc(a, F::sneg(b), F::sadd(b, F::sneg(c))); F::ax_add_assoc(F::sneg(b), b, F::sneg(c));
    }
    bdry_ext(YE, k, d3, fdiff(gcomb(XE, k, nv), hr));
    class_unique(YE, XE, k, colf(P, t), nv, hr);
    assert(colf(P, t)(s) == nv(s)); assert(nv(s) == mq(l, N, v, s));
}
pub proof fn mq_subA<F: Field>(l: int, A: spec_fn(int, int) -> F, B: spec_fn(int, int) -> F, C: spec_fn(int, int) -> F, v: spec_fn(int) -> F, i: int)
    requires 0 <= l, forall|q: int| 0 <= q < l ==> #[trigger] A(i, q) == F::sadd(B(i, q), F::sneg(C(i, q)))
    ensures mq(l, A, v, i) == F::sadd(mq(l, B, v, i), F::sneg(mq(l, C, v, i)))
{
    let f = mqf(B, v, i); let g = mqf(C, v, i); let m = F::sneg(F::sone()); let ng = |q: int| F::smul(m, g(q)); let h = mqf(A, v, i);
    fsum_scale(l, m, g, ng); f_neg_one_mul(fsum(l, g));
    assert forall|q: int| 0 <= q < l implies #[trigger] h(q) == F::sadd(f(q), ng(q)) by { assert(A(i, q) == F::sadd(B(i, q), F::sneg(C(i, q)))); F::ax_distrib(v(q), B(i, q), F::sneg(C(i, q))); f_neg_mul(C(i, q), v(q)); F::ax_mul_comm(C(i, q), v(q)); f_neg_one_mul(g(q)); }
    fsum_add(l, f, ng, h);
}
// the identity induces the identity
pub proof fn induced_ident<F: Field>(Y: CC<F>, X: RCC<F>, k: int, G: CM<F>, M: spec_fn(int, int) -> F, s: int, t: int)
    requires hom_of(Y, X), 0 <= k < Y.boundary@.len(), is_ident(G), G.n == Y.boundary@[k].n, induced_of(Y, X, X, k, G, M), 0 <= s < X.I@[k]@.len(), 0 <= t < X.I@[k]@.len()
    ensures M(s, t) == if s == t { F::sone() } else { F::szero() }
{
    broadcast use field_basic;
    let n = G.n as int; let l = X.I@[k]@.len() as int; let e = |a: int| if a == t { F::sone() } else { F::szero() }; let r = grep(X, k, t); let z = bimg(G, r);
    let d = fdiff(gcomb(X, k, e), z);
    assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == F::szero() by {
        let f = mqf(genmat(X, k), e, i); fsum_one(l, f, t); assert(f(t) == genmat(X, k)(i, t));
        let g = mqf(fm(G), r, i); assert forall|j: int| 0 <= j < n && j != i implies #[trigger] g(j) == F::szero() by { assert(cmv(G, i, j) == if i == j { F::sone() } else { F::szero() }); }
        fsum_one(n, g, i); assert(cmv(G, i, i) == F::sone()); F::ax_add_neg(r(i));
    }
    let A = |i: int, q: int| F::szero(); bdry_comb(Y, k, A, 0, e); bdry_ext(Y, k, mqv(0, A, e), d);
    assert(ind_class(Y, X, X, k, G, M, t)); class_unique(Y, X, k, colf(M, t), e, z); assert(colf(M, t)(s) == e(s));
}
// what induced_map returns is the matrix of the induced map
pub proof fn induced_is<F: Field>(YC: CC<F>, YD: CC<F>, XC: RCC<F>, XD: RCC<F>, k: int, G: CM<F>, R: CM<F>)
    requires hom_of(YC, XC), hom_of(YD, XD), 0 <= k < YC.boundary@.len(), k < YD.boundary@.len(), cymap(YC, YD, k, G), R.n == XC.I@[k]@.len(), forall|t: int| 0 <= t < R.n ==> ind_col(G, XC, XD, k, #[trigger] R.col@[t], t)
    ensures induced_of(YD, XC, XD, k, G, fm(R))
{
    broadcast use field_basic;
    assert forall|t: int| 0 <= t < XC.I@[k]@.len() implies #[trigger] ind_class(YD, XC, XD, k, G, fm(R), t) by {
        let z = grep(XC, k, t); gens_strict(YC, XC, k); let U = XC.U@[k]; let I = XC.I@[k]@; let B = YC.boundary@[k];
        let y = |j: int| if j == I[t] { F::sone() } else { F::szero() };
        assert(I.contains(I[t])); assert(on_gens(I, B.n as int, y)); gens_cycle(YC, XC, k, y);
        assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(B.n as int, fm(B), z, r) == F::szero() by {
            assert forall|i: int| 0 <= i < B.n implies #[trigger] comb(U, y)(i) == z(i) by { let f = mqf(fm(U), y, i); assert forall|j: int| 0 <= j < U.n && j != I[t] implies #[trigger] f(j) == F::szero() by { } fsum_one(U.n as int, f, I[t] as int); }
            mq_ext(B.n as int, fm(B), fm(B), comb(U, y), z, r); assert(mq(B.n as int, fm(B), comb(U, y), r) == F::szero());
        }
        assert(is_cycle(YD.boundary@[k], bimg(G, z))); assert(ind_col(G, XC, XD, k, R.col@[t], t));
        let v = svf(R.col@[t].indval@); assert(classof(YD, XD, k, v, bimg(G, z)));
        let w = colf(fm(R), t);
        assert forall|i: int| 0 <= i < YD.boundary@[k].n implies fdiff(gcomb(XD, k, v), bimg(G, z))(i) == #[trigger] fdiff(gcomb(XD, k, w), bimg(G, z))(i) by { mq_ext(XD.I@[k]@.len() as int, genmat(XD, k), genmat(XD, k), v, w, i); }
        bdry_ext(YD, k, fdiff(gcomb(XD, k, v), bimg(G, z)), fdiff(gcomb(XD, k, w), bimg(G, z)));
    }
}
pub proof fn induced_col<F: Field>(Y: CC<F>, C: RCC<F>, X: RCC<F>, k: int, G: CM<F>, t: int, z: Seq<Nz<F>>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, v: Seq<Nz<F>>)
    requires hom_of(Y, X), 0 <= k < Y.boundary@.len(), sc(z, X.U@[k].n as int), sc(y, X.U@[k].n as int), sc(y2, X.U@[k].n as int), is_cycle(Y.boundary@[k], bimg(G, grep(C, k, t))), 0 <= t < C.I@[k]@.len(), G.n == C.U@[k].m, G.m == X.U@[k].n,
        forall|i: int| #[trigger] sval(z, i) == mvx(G.col@, G.n as int, C.U@[k].col@[C.I@[k]@[t] as int].indval@, i),
        forall|i: int| 0 <= i < X.U@[k].n ==> #[trigger] mvx(X.U@[k].col@, X.U@[k].n as int, y, i) == sval(z, i),
        k == X.R@.len() - 1 ==> y2 == y, k < X.R@.len() - 1 ==> nopivots(X.p2c@[k + 1]@, y2) && bdmove(X.U@[k], X.R@[k + 1], y, y2),
        forall|a: int| 0 <= a < X.I@[k]@.len() ==> sval(v, a) == sval(y2, (#[trigger] X.I@[k]@[a]) as int)
    ensures classof(Y, X, k, svf(v), bimg(G, grep(C, k, t)))
{
    let B = Y.boundary@[k]; let g = bimg(G, grep(C, k, t)); let u = C.U@[k].col@[C.I@[k]@[t] as int].indval@; gens_strict(Y, X, k);
    assert forall|i: int| 0 <= i < B.n implies #[trigger] g(i) == svf(z)(i) by { mvx_mq(G, u, i); mq_ext(G.n as int, fm(G), fm(G), grep(C, k, t), svf(u), i); assert(sval(z, i) == mvx(G.col@, G.n as int, u, i)); }
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(B.n as int, fm(B), svf(z), i) == F::szero() by { mq_ext(B.n as int, fm(B), fm(B), g, svf(z), i); assert(mq(B.n as int, fm(B), g, i) == F::szero()); }
    select_coords(Y, X, k, z, y, y2, v);
    bdry_ext(Y, k, fdiff(gcomb(X, k, svf(v)), svf(z)), fdiff(gcomb(X, k, svf(v)), g));
}
@end
@fn bats::induced_map(ChMap<F>, RCC<F>, RCC<F>, usize) as induced
@prop P11
@opt rlimit=60
@requires
  k < F.map@.len(), cmwf(F.map@[k as int]), k < C.U@.len(), cmwf(C.U@[k as int]), k < C.I@.len(), forall|t: int| 0 <= t < C.I@[k as int]@.len() ==> (#[trigger] C.I@[k as int]@[t]) < C.U@[k as int].n,
  C.U@[k as int].m == C.U@[k as int].n, hfit(*D, k as int), strict_usize(D.I@[k as int]@)
@throws F.map@[k as int].n != C.U@[k as int].m || F.map@[k as int].m != D.U@[k as int].n
@ensures
  cmwf(ret), ret.m == D.I@[k as int]@.len(), ret.n == C.I@[k as int]@.len(), forall|t: int| 0 <= t < ret.n ==> ind_col(F.map@[k as int], *C, *D, k as int, #[trigger] ret.col@[t], t)
@loop 0
  invariant it <= C.I@[k as int]@.len(), col@.len() == it, k < C.I.len(), F.map@[k as int].n == C.U@[k as int].m, F.map@[k as int].m == D.U@[k as int].n,
    forall|t: int| 0 <= t < it ==> sc((#[trigger] col@[t]).indval@, D.I@[k as int]@.len() as int) && ind_col(F.map@[k as int], *C, *D, k as int, col@[t], t)
  decreases C.I@[k as int]@.len() - it
@at after cm_mul_vec 0
  let ghost z = r_cm_mul_vec_0.indval@;
@at after cm_u_solve 0
  let ghost y0 = r_cm_u_solve_0.indval@;
@at after push 0
  proof { let t = it as int; let G = F.map@[k as int]; let c = col@[t].indval@; let y2 = y.indval@;
    assert forall|Y: CC<F>| #[trigger] hom_of(Y, *D) && is_cycle(Y.boundary@[k as int], bimg(G, grep(*C, k as int, t))) implies classof(Y, *D, k as int, svf(c), bimg(G, grep(*C, k as int, t))) by {
      induced_col(Y, *C, *D, k as int, G, t, z, y0, y2, c);
    }
    assert(ind_col(G, *C, *D, k as int, col@[t], t)); }
