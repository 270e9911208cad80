@unit la
@uses rcc_fcc pers rcc_ind
@rust
// ---- union-find against column reduction ----
pub open spec fn ro(p: Seq<usize>, x: int) -> int { choose|r: int| rootof(p, x, r) }
pub proof fn ro_is(p: Seq<usize>, x: int) requires forest(p), 0 <= x < p.len()
    ensures rootof(p, x, ro(p, x)), 0 <= ro(p, x) < p.len(), p[ro(p, x)] == ro(p, x), forall|r: int| rootof(p, x, r) ==> r == ro(p, x)
{ assert(has_root(p, x)); let r = ro(p, x); assert(rootof(p, x, r)); let k = choose|k: nat| at_root(p, x, r, k); assert(at_root(p, x, r, k)); assert forall|s: int| rootof(p, x, s) implies s == r by { root_unique(p, x, r, s); } }
pub proof fn ro_root(p: Seq<usize>, r: int) requires forest(p), 0 <= r < p.len(), p[r] == r ensures ro(p, r) == r
{ ro_is(p, r); assert(iter(p, r, 0) == r); assert(at_root(p, r, r, 0)); assert(rootof(p, r, r)); }
pub open spec fn same_roots(p: Seq<usize>, q: Seq<usize>) -> bool { p.len() == q.len() && forall|x: int, s: int| 0 <= x < p.len() ==> (#[trigger] rootof(q, x, s) <==> rootof(p, x, s)) }
// the same roots, seen through ro and the self-loops
pub proof fn same_ro(p: Seq<usize>, q: Seq<usize>) requires forest(p), forest(q), same_roots(p, q)
    ensures forall|x: int| 0 <= x < p.len() ==> #[trigger] ro(q, x) == ro(p, x), forall|x: int| 0 <= x < p.len() ==> (#[trigger] q[x] == x <==> p[x] == x)
{
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] ro(q, x) == ro(p, x) by { ro_is(p, x); ro_is(q, x); assert(rootof(q, x, ro(q, x))); }
    assert forall|x: int| 0 <= x < p.len() implies (#[trigger] q[x] == x <==> p[x] == x) by { assert(ro(q, x) == ro(p, x)); if q[x] == x { ro_root(q, x); ro_is(p, x); } if p[x] == x { ro_root(p, x); ro_is(q, x); } }
}
pub open spec fn nroot(p: Seq<usize>, b: int, a: int, x: int) -> int { if ro(p, x) == b { a } else { ro(p, x) } }
pub proof fn link1(p: Seq<usize>, b: int, a: int, x: int, s: int, k: nat)
    requires in_range(p), 0 <= a < p.len(), 0 <= b < p.len(), p[a] == a, p[b] == b, a != b, 0 <= x < p.len(), at_root(p, x, s, k)
    ensures rootof(p.update(b, a as usize), x, if s == b { a } else { s }) decreases k
{
    let q = p.update(b, a as usize); let t = if s == b { a } else { s };
    if x == b { iter_root(p, b, k); assert(iter(q, q[x] as int, 0) == a); assert(iter(q, x, 1) == a); assert(at_root(q, x, a, 1)); }
    else if k == 0 { assert(at_root(q, x, s, 0)); }
    else { link1(p, b, a, p[x] as int, s, (k - 1) as nat); let m = choose|m: nat| at_root(q, p[x] as int, t, m); assert(q[x] == p[x]); assert(at_root(q, x, t, m + 1)); }
}
// hanging root b below root a, then pointing a node j of b's tree at a
pub proof fn link(p: Seq<usize>, b: int, a: int, j: int)
    requires forest(p), 0 <= a < p.len(), 0 <= j < p.len(), p[a] == a, p[b] == b, a != b, ro(p, j) == b
    ensures ({ let q = p.update(b, a as usize).update(j, a as usize); forest(q) && q.len() == p.len() && (forall|x: int| 0 <= x < p.len() ==> #[trigger] ro(q, x) == (if ro(p, x) == b { a } else { ro(p, x) })) && forall|x: int| 0 <= x < p.len() ==> (#[trigger] q[x] == x <==> p[x] == x && x != b) })
{
    ro_is(p, j); let q1 = p.update(b, a as usize);
    assert(in_range(q1)) by { assert forall|i: int| 0 <= i < q1.len() implies #[trigger] q1[i] < q1.len() by { if i != b { assert(q1[i] == p[i]); } } }
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] rootof(q1, x, nroot(p, b, a, x)) by { ro_is(p, x); let s = ro(p, x); let k = choose|k: nat| at_root(p, x, s, k); link1(p, b, a, x, s, k); }
    assert forall|x: int| 0 <= x < q1.len() implies #[trigger] has_root(q1, x) by { assert(rootof(q1, x, nroot(p, b, a, x))); }
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] ro(q1, x) == (if ro(p, x) == b { a } else { ro(p, x) }) by { ro_is(q1, x); assert(rootof(q1, x, nroot(p, b, a, x))); }
    assert(ro(q1, j) == a); ro_is(q1, j); ro_root(p, a);
    assert(j != a);
    compress(q1, j, a);
    let q = q1.update(j, a as usize); same_ro(q1, q);
    assert forall|x: int| 0 <= x < p.len() implies (#[trigger] q[x] == x <==> p[x] == x && x != b) by { assert(q[x] == x <==> q1[x] == x); }
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] ro(q, x) == (if ro(p, x) == b { a } else { ro(p, x) }) by { assert(ro(q, x) == ro(q1, x)); assert(ro(q1, x) == (if ro(p, x) == b { a } else { ro(p, x) })); }
}
// column k joins the vertices i and j
pub open spec fn edge_is<F: Field>(B: CM<F>, k: int, i: int, j: int) -> bool { 0 <= i < j < B.m && B.col@[k].indval@.len() == 2 && B.col@[k].indval@[0].ind == i && B.col@[k].indval@[1].ind == j && B.col@[k].indval@[1].val == F::sneg(B.col@[k].indval@[0].val) }
pub open spec fn is_edge<F: Field>(B: CM<F>, k: int) -> bool { exists|i: int, j: int| #[trigger] edge_is(B, k, i, j) }
pub open spec fn edges<F: Field>(B: CM<F>) -> bool { forall|k: int| 0 <= k < B.n ==> #[trigger] is_edge(B, k) }
pub open spec fn dl<F: Field>(x: int, i: int) -> F { if i == x { F::sone() } else { F::szero() } }
pub open spec fn ddl<F: Field>(x: int, y: int, i: int) -> F { F::sadd(dl(x, i), F::sneg(dl::<F>(y, i))) }
pub open spec fn path_to<F: Field>(B: CM<F>, Y: spec_fn(int, int) -> F, x: int, r: int) -> bool { forall|i: int| 0 <= i < B.m ==> #[trigger] mq(B.n as int, fm(B), colf(Y, x), i) == ddl::<F>(x, r, i) }
pub open spec fn uf_inv<F: Field>(B: CM<F>, p: Seq<usize>, k: int, t: Seq<usize>, V: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F) -> bool {
    &&& forest(p) && p.len() == B.m && t.len() == B.m && 0 <= k <= B.n && B.n < NO_IND
    &&& forall|i: int| 0 <= i < B.m ==> (#[trigger] t[i] == NO_IND <==> p[i] == i)
    &&& forall|i: int| 0 <= i < B.m && #[trigger] t[i] != NO_IND ==> t[i] < k && mq(B.n as int, fm(B), colf(V, t[i] as int), i) != F::szero()
    &&& forall|i: int, r: int| 0 <= i < r < B.m && #[trigger] t[i] != NO_IND ==> #[trigger] mq(B.n as int, fm(B), colf(V, t[i] as int), r) == F::szero()
    &&& forall|j: int, r: int| 0 <= j < k && 0 <= r < B.m && !haspiv(t, j) ==> #[trigger] mq(B.n as int, fm(B), colf(V, j), r) == F::szero()
    &&& forall|x: int| 0 <= x < B.m ==> #[trigger] ro(p, x) <= x
    &&& forall|x: int| 0 <= x < B.m ==> #[trigger] path_to(B, Y, x, ro(p, x))
    &&& forall|l: int, x: int| k <= l < B.n && 0 <= x < B.m ==> #[trigger] Y(l, x) == F::szero()
    &&& forall|j: int| 0 <= j < k ==> #[trigger] V(j, j) != F::szero()
    &&& forall|l: int, j: int| 0 <= j < k && j < l < B.n ==> #[trigger] V(l, j) == F::szero()
}
pub open spec fn ecol<F: Field>(Y: spec_fn(int, int) -> F, k: int, i: int, j: int, a: F) -> spec_fn(int) -> F { faxpy(faxpy(|l: int| dl::<F>(k, l), F::sneg(a), colf(Y, i)), a, colf(Y, j)) }
pub open spec fn setcol<F: Field>(V: spec_fn(int, int) -> F, k: int, v: spec_fn(int) -> F) -> spec_fn(int, int) -> F { |l: int, j: int| if j == k { v(l) } else { V(l, j) } }
pub proof fn edge_vals<F: Field>(B: CM<F>, k: int, i: int, j: int) requires cmwf(B), 0 <= k < B.n, edge_is(B, k, i, j)
    ensures ({ let a = B.col@[k].indval@[0].val; a != F::szero() && forall|r: int| #[trigger] cmv(B, r, k) == F::smul(a, ddl::<F>(i, j, r)) })
{
    broadcast use field_basic;
    let s = B.col@[k].indval@; let a = s[0].val; assert(sc(s, B.m as int));
    let s1 = s.drop_last(); let s0 = s1.drop_last(); assert(s1.last() == s[0]); assert(s0.len() == 0);
    assert forall|r: int| #[trigger] cmv(B, r, k) == F::smul(a, ddl::<F>(i, j, r)) by {
        assert(sval(s0, r) == F::szero()); assert(sval(s1, r) == (if r == i { a } else { F::szero() })); assert(sval(s, r) == (if r == j { F::sneg(a) } else { sval(s1, r) }));
        f_neg_zero::<F>(); if r == j { f_neg_mul(F::sone(), a); assert(ddl::<F>(i, j, r) == F::sneg(F::sone())); F::ax_mul_comm(a, F::sneg(F::sone())); } }
}
// a (di - dj) - a (di - du) + a (dj - dv) == a (du - dv)
pub proof fn f_combine<F: Field>(a: F, di: F, dj: F, du: F, dv: F)
    ensures F::sadd(F::sadd(F::smul(a, F::sadd(di, F::sneg(dj))), F::smul(F::sneg(a), F::sadd(di, F::sneg(du)))), F::smul(a, F::sadd(dj, F::sneg(dv)))) == F::smul(a, F::sadd(du, F::sneg(dv)))
{
    let x = F::sadd(di, F::sneg(dj)); let y = F::sadd(di, F::sneg(du)); let z = F::sadd(dj, F::sneg(dv)); let w = F::sadd(du, F::sneg(dv));
    f_neg_mul(a, y); f_neg_mul(y, a); F::ax_mul_comm(y, a);
    assert(F::smul(F::sneg(a), y) == F::smul(a, F::sneg(y)));
    F::ax_distrib(a, x, F::sneg(y)); F::ax_distrib(a, F::sadd(x, F::sneg(y)), z);
    // x - y == du - dj
    f_neg_add(di, F::sneg(du)); f_neg_neg(du);
    assert(F::sneg(y) == F::sadd(F::sneg(di), du));
    F::ax_add_comm(di, F::sneg(dj)); F::ax_add_assoc(F::sneg(dj), di, F::sadd(F::sneg(di), du)); F::ax_add_assoc(di, F::sneg(di), du); F::ax_add_neg(di); F::ax_add_zero(du); F::ax_add_comm(du, F::szero());
    assert(F::sadd(x, F::sneg(y)) == F::sadd(F::sneg(dj), du));
    F::ax_add_comm(F::sneg(dj), du); F::ax_add_assoc(du, F::sneg(dj), F::sadd(dj, F::sneg(dv))); F::ax_add_assoc(F::sneg(dj), dj, F::sneg(dv)); F::ax_add_comm(F::sneg(dj), dj); F::ax_add_neg(dj); F::ax_add_zero(F::sneg(dv)); F::ax_add_comm(F::szero(), F::sneg(dv));
    assert(F::sadd(F::sadd(x, F::sneg(y)), z) == w);
}
pub proof fn f_neg_neg<F: Field>(a: F) ensures F::sneg(F::sneg(a)) == a { F::ax_add_neg(a); F::ax_add_comm(a, F::sneg(a)); f_neg_uniq(F::sneg(a), a); }
// the column an edge gives after the paths to the two roots are added
pub proof fn ecol_img<F: Field>(B: CM<F>, Y: spec_fn(int, int) -> F, k: int, i: int, j: int, ri: int, rj: int)
    requires cmwf(B), 0 <= k < B.n, edge_is(B, k, i, j), path_to(B, Y, i, ri), path_to(B, Y, j, rj)
    ensures forall|r: int| 0 <= r < B.m ==> #[trigger] mq(B.n as int, fm(B), ecol(Y, k, i, j, B.col@[k].indval@[0].val), r) == F::smul(B.col@[k].indval@[0].val, ddl::<F>(ri, rj, r))
{
    broadcast use field_basic;
    let n = B.n as int; let a = B.col@[k].indval@[0].val; edge_vals(B, k, i, j); let ek = |l: int| dl::<F>(k, l);
    assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), ecol(Y, k, i, j, a), r) == F::smul(a, ddl::<F>(ri, rj, r)) by {
        let f = mqf(fm(B), ek, r); assert forall|l: int| 0 <= l < n && l != k implies #[trigger] f(l) == F::szero() by { } fsum_one(n, f, k); assert(f(k) == cmv(B, r, k));
        mq_axpy(n, fm(B), ek, F::sneg(a), colf(Y, i), r); mq_axpy(n, fm(B), faxpy(ek, F::sneg(a), colf(Y, i)), a, colf(Y, j), r);
        assert(mq(n, fm(B), colf(Y, i), r) == ddl::<F>(i, ri, r)); assert(mq(n, fm(B), colf(Y, j), r) == ddl::<F>(j, rj, r));
        f_combine(a, dl::<F>(i, r), dl::<F>(j, r), dl::<F>(ri, r), dl::<F>(rj, r)); }
}
// what a new column does to the old ones: nothing
pub proof fn setcol_old<F: Field>(B: CM<F>, V: spec_fn(int, int) -> F, k: int, v: spec_fn(int) -> F)
    ensures forall|j: int, r: int| j != k ==> #[trigger] mq(B.n as int, fm(B), colf(setcol(V, k, v), j), r) == mq(B.n as int, fm(B), colf(V, j), r), forall|r: int| #[trigger] mq(B.n as int, fm(B), colf(setcol(V, k, v), k), r) == mq(B.n as int, fm(B), v, r)
{
    let n = B.n as int;
    assert forall|j: int, r: int| j != k implies #[trigger] mq(n, fm(B), colf(setcol(V, k, v), j), r) == mq(n, fm(B), colf(V, j), r) by { mq_ext(n, fm(B), fm(B), colf(setcol(V, k, v), j), colf(V, j), r); }
    assert forall|r: int| #[trigger] mq(n, fm(B), colf(setcol(V, k, v), k), r) == mq(n, fm(B), v, r) by { mq_ext(n, fm(B), fm(B), colf(setcol(V, k, v), k), v, r); }
}
pub proof fn ecol_tri<F: Field>(B: CM<F>, Y: spec_fn(int, int) -> F, k: int, i: int, j: int, a: F)
    requires 0 <= k < B.n, 0 <= i < B.m, 0 <= j < B.m, forall|l: int, x: int| k <= l < B.n && 0 <= x < B.m ==> #[trigger] Y(l, x) == F::szero()
    ensures ecol(Y, k, i, j, a)(k) == F::sone(), forall|l: int| k < l < B.n ==> #[trigger] ecol(Y, k, i, j, a)(l) == F::szero()
{ broadcast use field_basic; assert(Y(k, i) == F::szero()); assert(Y(k, j) == F::szero()); assert forall|l: int| k < l < B.n implies #[trigger] ecol(Y, k, i, j, a)(l) == F::szero() by { assert(Y(l, i) == F::szero()); assert(Y(l, j) == F::szero()); } }
// an edge inside a component adds nothing
pub proof fn uf_same<F: Field>(B: CM<F>, p: Seq<usize>, k: int, t: Seq<usize>, V: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F, i: int, j: int) -> (V2: spec_fn(int, int) -> F)
    requires cmwf(B), uf_inv(B, p, k, t, V, Y), k < B.n, edge_is(B, k, i, j), ro(p, i) == ro(p, j)
    ensures uf_inv(B, p, k + 1, t, V2, Y)
{
    broadcast use field_basic;
    let n = B.n as int; let a = B.col@[k].indval@[0].val; let v = ecol(Y, k, i, j, a); let V2 = setcol(V, k, v); let r0 = ro(p, i);
    assert(path_to(B, Y, i, ro(p, i))); assert(path_to(B, Y, j, ro(p, j)));
    ecol_img(B, Y, k, i, j, r0, r0); ecol_tri(B, Y, k, i, j, a); setcol_old(B, V, k, v); F::ax_one_ne_zero();
    assert forall|jj: int, r: int| 0 <= jj < k + 1 && 0 <= r < B.m && !haspiv(t, jj) implies #[trigger] mq(n, fm(B), colf(V2, jj), r) == F::szero() by { if jj == k { F::ax_add_neg(dl::<F>(r0, r)); assert(mq(n, fm(B), v, r) == F::smul(a, ddl::<F>(r0, r0, r))); } else { assert(mq(n, fm(B), colf(V, jj), r) == F::szero()); } }
    assert forall|q: int, r: int| 0 <= q < r < B.m && #[trigger] t[q] != NO_IND implies #[trigger] mq(n, fm(B), colf(V2, t[q] as int), r) == F::szero() by { assert(mq(n, fm(B), colf(V, t[q] as int), r) == F::szero()); }
    assert forall|q: int| 0 <= q < B.m && #[trigger] t[q] != NO_IND implies t[q] < k + 1 && mq(n, fm(B), colf(V2, t[q] as int), q) != F::szero() by { assert(mq(n, fm(B), colf(V, t[q] as int), q) != F::szero()); }
    assert forall|jj: int| 0 <= jj < k + 1 implies #[trigger] V2(jj, jj) != F::szero() by { if jj < k { assert(V(jj, jj) != F::szero()); } }
    assert forall|l: int, jj: int| 0 <= jj < k + 1 && jj < l < B.n implies #[trigger] V2(l, jj) == F::szero() by { if jj < k { assert(V(l, jj) == F::szero()); } }
    V2
}
pub open spec fn Y_join<F: Field>(p: Seq<usize>, b: int, Y: spec_fn(int, int) -> F, g: F, v: spec_fn(int) -> F) -> spec_fn(int, int) -> F { |l: int, x: int| if ro(p, x) == b { F::sadd(Y(l, x), F::smul(g, v(l))) } else { Y(l, x) } }
// an edge between two components kills the younger root b
pub proof fn uf_join<F: Field>(B: CM<F>, p: Seq<usize>, q: Seq<usize>, k: int, t: Seq<usize>, V: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F, i: int, j: int, b: int, c: int) -> (W: (spec_fn(int, int) -> F, spec_fn(int, int) -> F))
    requires cmwf(B), uf_inv(B, p, k, t, V, Y), k < B.n, edge_is(B, k, i, j), c < b, (ro(p, i) == b && ro(p, j) == c) || (ro(p, i) == c && ro(p, j) == b),
        forest(q), q.len() == p.len(), forall|x: int| 0 <= x < p.len() ==> #[trigger] ro(q, x) == (if ro(p, x) == b { c } else { ro(p, x) }), forall|x: int| 0 <= x < p.len() ==> (#[trigger] q[x] == x <==> p[x] == x && x != b)
    ensures uf_inv(B, q, k + 1, t.update(b, k as usize), W.0, W.1), t[b] == NO_IND
{
    broadcast use field_basic;
    let n = B.n as int; let a = B.col@[k].indval@[0].val; let v = ecol(Y, k, i, j, a); let V2 = setcol(V, k, v); let t2 = t.update(b, k as usize); let ri = ro(p, i); let rj = ro(p, j);
    ro_is(p, i); ro_is(p, j);
    assert(path_to(B, Y, i, ro(p, i))); assert(path_to(B, Y, j, ro(p, j)));
    edge_vals(B, k, i, j); ecol_img(B, Y, k, i, j, ri, rj); ecol_tri(B, Y, k, i, j, a); setcol_old(B, V, k, v); F::ax_one_ne_zero();
    assert(p[b] == b); assert(t[b] == NO_IND);
    let g = if ri == b { F::sinv(a) } else { F::sneg(F::sinv(a)) };
    F::ax_inv(a); f_neg_zero::<F>();
    // B v g == e_b - e_c
    assert forall|r: int| 0 <= r < B.m implies F::smul(g, #[trigger] mq(n, fm(B), v, r)) == ddl::<F>(b, c, r) by {
        let d = ddl::<F>(ri, rj, r); let ia = F::sinv(a); F::ax_mul_assoc(ia, a, d); F::ax_mul_comm(ia, a);
        if ri != b { f_neg_mul(ia, F::smul(a, d)); f_neg_add(dl::<F>(ri, r), F::sneg(dl::<F>(rj, r))); f_neg_neg(dl::<F>(rj, r)); F::ax_add_comm(F::sneg(dl::<F>(ri, r)), dl::<F>(rj, r)); } }
    let Y2 = Y_join(p, b, Y, g, v);
    assert forall|x: int| 0 <= x < B.m implies #[trigger] path_to(B, Y2, x, ro(q, x)) by {
        assert(path_to(B, Y, x, ro(p, x))); assert(ro(q, x) == (if ro(p, x) == b { c } else { ro(p, x) }));
        assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), colf(Y2, x), r) == ddl::<F>(x, ro(q, x), r) by {
            assert(mq(n, fm(B), colf(Y, x), r) == ddl::<F>(x, ro(p, x), r));
            if ro(p, x) == b { mq_axpy(n, fm(B), colf(Y, x), g, v, r); mq_ext(n, fm(B), fm(B), colf(Y2, x), faxpy(colf(Y, x), g, v), r);
                assert(F::smul(g, mq(n, fm(B), v, r)) == ddl::<F>(b, c, r));
                let dx = dl::<F>(x, r); let db = dl::<F>(b, r); let dc = dl::<F>(c, r); F::ax_add_assoc(dx, F::sneg(db), F::sadd(db, F::sneg(dc))); F::ax_add_assoc(F::sneg(db), db, F::sneg(dc)); F::ax_add_comm(F::sneg(db), db); F::ax_add_neg(db); }
            else { mq_ext(n, fm(B), fm(B), colf(Y2, x), colf(Y, x), r); } } }
    assert forall|x: int| 0 <= x < B.m implies #[trigger] ro(q, x) <= x by { assert(ro(p, x) <= x); }
    assert forall|l: int, x: int| k + 1 <= l < B.n && 0 <= x < B.m implies #[trigger] Y2(l, x) == F::szero() by { assert(Y(l, x) == F::szero()); assert(v(l) == F::szero()); }
    assert forall|x: int| 0 <= x < B.m implies (#[trigger] t2[x] == NO_IND <==> q[x] == x) by { assert(t[x] == NO_IND <==> p[x] == x); }
    assert forall|jj: int| 0 <= jj < k + 1 implies #[trigger] V2(jj, jj) != F::szero() by { if jj < k { assert(V(jj, jj) != F::szero()); } }
    assert forall|l: int, jj: int| 0 <= jj < k + 1 && jj < l < B.n implies #[trigger] V2(l, jj) == F::szero() by { if jj < k { assert(V(l, jj) == F::szero()); } }
    assert(mq(n, fm(B), v, b) != F::szero()) by { f_neg_neg(F::sone()); let d = ddl::<F>(ri, rj, b); assert(d != F::szero()) by { if d == F::szero() { f_neg_zero::<F>(); } } fb_nz(a, d); }
    assert forall|x: int| 0 <= x < B.m && #[trigger] t2[x] != NO_IND implies t2[x] < k + 1 && mq(n, fm(B), colf(V2, t2[x] as int), x) != F::szero() by { if x == b { assert(mq(n, fm(B), colf(V2, k), b) == mq(n, fm(B), v, b)); } else { assert(t[x] != NO_IND); assert(mq(n, fm(B), colf(V, t[x] as int), x) != F::szero()); } }
    assert forall|x: int, r: int| 0 <= x < r < B.m && #[trigger] t2[x] != NO_IND implies #[trigger] mq(n, fm(B), colf(V2, t2[x] as int), r) == F::szero() by { if x == b { assert(mq(n, fm(B), v, r) == F::smul(a, ddl::<F>(ri, rj, r))); F::ax_add_neg(F::szero()); } else { assert(t[x] != NO_IND); assert(mq(n, fm(B), colf(V, t[x] as int), r) == F::szero()); } }
    assert forall|jj: int, r: int| 0 <= jj < k + 1 && 0 <= r < B.m && !haspiv(t2, jj) implies #[trigger] mq(n, fm(B), colf(V2, jj), r) == F::szero() by {
        if jj == k { assert(t2[b] == k); } else { if haspiv(t, jj) { let x = choose|x: int| 0 <= x < t.len() && #[trigger] t[x] == jj; assert(t2[x] == jj); } assert(mq(n, fm(B), colf(V, jj), r) == F::szero()); } }
    (V2, Y2)
}
// nothing changes once a single root is left
pub proof fn uf_rest<F: Field>(B: CM<F>, p: Seq<usize>, k: int, t: Seq<usize>, V: spec_fn(int, int) -> F, Y: spec_fn(int, int) -> F)
    requires cmwf(B), edges(B), uf_inv(B, p, k, t, V, Y), k == B.n || forall|x: int, y: int| 0 <= x < B.m && 0 <= y < B.m && #[trigger] p[x] == x && #[trigger] p[y] == y ==> x == y
    ensures pivots_of(fm(B), B.m as int, B.n as int, t) decreases B.n - k
{
    if k < B.n {
        assert(is_edge(B, k)); let (i, j) = choose|i: int, j: int| #[trigger] edge_is(B, k, i, j); ro_is(p, i); ro_is(p, j); let u = ro(p, i); let w = ro(p, j); assert(p[u] == u && p[w] == w);
        let V2 = uf_same(B, p, k, t, V, Y, i, j); uf_rest(B, p, k + 1, t, V2, Y);
    } else {
        let n = B.n as int; let m = B.m as int; let w = mm(n, fm(B), V);
        assert forall|i: int| 0 <= i < m && #[trigger] t[i] != NO_IND implies t[i] < n && w(i, t[i] as int) != F::szero() by { assert(mq(n, fm(B), colf(V, t[i] as int), i) != F::szero()); }
        assert forall|i: int, r: int| 0 <= i < r < m && #[trigger] t[i] != NO_IND implies #[trigger] w(r, t[i] as int) == F::szero() by { assert(mq(n, fm(B), colf(V, t[i] as int), r) == F::szero()); }
        assert forall|j: int, r: int| 0 <= j < n && 0 <= r < m && !haspiv(t, j) implies #[trigger] w(r, j) == F::szero() by { assert(mq(n, fm(B), colf(V, j), r) == F::szero()); }
        assert(pivtab(w, m, n, t)); assert(utri(n, V)); assert(pivots_by(fm(B), m, n, V, t));
    }
}
// the pair of vertex i, t telling which edge kills it
pub open spec fn upair<F: Field>(D: FCC<F>, t: Seq<usize>, i: int) -> PPair {
    if t[i] == NO_IND { PPair { dim: 0, birth_ind: D.perm@[0]@[i], death_ind: NO_IND, birth: fval(D, 0, i), death: inf_i32() } }
    else { PPair { dim: 0, birth_ind: D.perm@[0]@[i], death_ind: D.perm@[1]@[t[i] as int], birth: fval(D, 0, i), death: fval(D, 1, t[i] as int) } }
}
pub open spec fn upairs<F: Field>(D: FCC<F>, t: Seq<usize>, n: int, s: Seq<PPair>) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == upair(D, t, i) }
pub open spec fn graph_ok<F: Field>(D: FCC<F>) -> bool { filt_ok(D) && (forall|j: int| 0 <= j < D.C.boundary@[0].n ==> (#[trigger] D.C.boundary@[0].col@[j]).indval@.len() == 0) && (D.C.boundary@.len() > 1 ==> edges(D.C.boundary@[1]) && D.C.boundary@[1].n < NO_IND) }
pub proof fn uf_start<F: Field>(B: CM<F>, p: Seq<usize>) -> (r: (Seq<usize>, spec_fn(int, int) -> F))
    requires p.len() == B.m, B.n < NO_IND, B.m <= NO_IND, forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == i
    ensures uf_inv(B, p, 0, r.0, r.1, r.1), r.0 == Seq::new(B.m as nat, |i: int| NO_IND)
{
    broadcast use field_basic;
    let t = Seq::new(B.m as nat, |i: int| NO_IND); let V = |l: int, x: int| F::szero();
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] has_root(p, x) by { assert(iter(p, x, 0) == x); assert(at_root(p, x, x, 0)); assert(rootof(p, x, x)); }
    assert(in_range(p)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < p.len() by { assert(p[i] == i); } }
    assert forall|x: int| 0 <= x < B.m implies #[trigger] ro(p, x) == x by { ro_root(p, x); }
    assert forall|x: int| 0 <= x < B.m implies #[trigger] path_to(B, V, x, ro(p, x)) by { assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(B.n as int, fm(B), colf(V, x), r) == ddl::<F>(x, ro(p, x), r) by { mq_zero(B.n as int, fm(B), colf(V, x), r); F::ax_add_neg(dl::<F>(x, r)); } }
    (t, V)
}
pub proof fn uf_final<F: Field>(D: FCC<F>, t: Seq<usize>, s: Seq<PPair>, X: RFCC<F>)
    requires graph_ok(D), rf_of(D, X), upairs(D, t, D.C.boundary@[0].n as int, s), t.len() == D.C.boundary@[0].n, D.C.boundary@.len() > 1 ==> pivots_of(fm(D.C.boundary@[1]), D.C.boundary@[1].m as int, D.C.boundary@[1].n as int, t), D.C.boundary@.len() == 1 ==> forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == NO_IND
    ensures pairs_of(X, 0, false, s)
{
    broadcast use field_basic;
    let B0 = D.C.boundary@[0]; let n = B0.n as int; let R0 = X.RC.R@[0]; let p0 = X.RC.p2c@[0]@; let z = emp(R0);
    assert(red_at(B0, R0, p0)); reduced_pivtab(R0, p0); assert(same_filt(D, X, 0)); assert(filt_at(D, 0)); let V0 = choose|V: spec_fn(int, int) -> F| pivots_by(fm(B0), B0.m as int, n, V, p0);
    assert forall|j: int| 0 <= j < n implies #[trigger] z(j) by {
        assert(R0.col@[j].indval@.len() > 0 <==> haspiv(p0, j));
        if haspiv(p0, j) { let i = choose|i: int| 0 <= i < p0.len() && #[trigger] p0[i] == j; let w = mm(n, fm(B0), V0); assert(p0[i] != NO_IND); assert(w(i, p0[i] as int) != F::szero());
            let l = sum_nz(n, fm(B0), colf(V0, j), i); assert(B0.col@[l].indval@.len() == 0); assert(cmv(B0, i, l) == F::szero()); } }
    cnt_all(n, z);
    if D.C.boundary@.len() > 1 { let B = D.C.boundary@[1]; assert(red_at(B, X.RC.R@[1], X.RC.p2c@[1]@)); piv_unique(fm(B), B.m as int, B.n as int, X.RC.p2c@[1]@, t); assert(same_filt(D, X, 1)); assert(filt_at(D, 1)); assert(B.m == n); }
    assert forall|i: int| 0 <= i < n && #[trigger] z(i) implies 0 <= cnt(i, z) < s.len() && s[cnt(i, z)] == mkpair(X, 0, i, false) by { cnt_all(i, z); assert(s[i] == upair(D, t, i)); assert(inf_pair(X, 0, i) <==> t[i] == NO_IND); }
}
pub proof fn last_root(n: int, t: Seq<usize>, p: Seq<usize>) requires 0 <= n <= t.len(), t.len() == p.len(), cnt(n, has_i(t)) == n - 1, forall|i: int| 0 <= i < n ==> (#[trigger] t[i] == NO_IND <==> p[i] == i)
    ensures forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] p[x] == x && #[trigger] p[y] == y ==> x == y
{
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] p[x] == x && #[trigger] p[y] == y implies x == y by {
        if x != y { assert(t[x] == NO_IND); assert(t[y] == NO_IND); let h = has_i(t); let h1 = |i: int| h(i) || i == x; let h2 = |i: int| h1(i) || i == y; cnt_remove(n, h1, h, x); cnt_remove(n, h2, h1, y); cnt_bound(n, h2); } }
}
pub proof fn cnt_set(n: int, t: Seq<usize>, b: int, k: usize) requires 0 <= b < n <= t.len(), t[b] == NO_IND, k != NO_IND ensures cnt(n, has_i(t.update(b, k))) == cnt(n, has_i(t)) + 1
{ cnt_remove(n, has_i(t.update(b, k)), has_i(t), b); }
@end
@fn bats::union_find_pairs(FCC<F>) as uf_pairs
@prop P13
@opt rlimit=60
@requires
  graph_ok(*F)
@ensures
  ret@.len() == F.C.boundary@[0].n,
  forall|X: RFCC<F>| #[trigger] rf_of(*F, X) ==> pairs_of(X, 0, false, ret@)
@at entry
  let ghost n0 = F.C.boundary@[0].n as int; let ghost two = F.C.boundary@.len() > 1; let ghost B = if two { F.C.boundary@[1] } else { F.C.boundary@[0] };
  let ghost mut t: Seq<usize> = Seq::new(n0 as nat, |i: int| NO_IND); let ghost mut V: spec_fn(int, int) -> F = |l: int, x: int| F::szero(); let ghost mut Y: spec_fn(int, int) -> F = |l: int, x: int| F::szero(); let ghost mut q0: Seq<usize> = Seq::empty(); let ghost mut q1: Seq<usize> = Seq::empty(); let ghost mut s0: Seq<PPair> = Seq::empty(); let ghost mut t0 = t;
  proof { assert(filt_at(*F, 0)); if two { assert(filt_at(*F, 1)); assert(B.m == n0); } }
@loop 0
  invariant k <= N, upairs(*F, t, k as int, pairs@),
  decreases N - k
@at loop 0 begin
  proof { assert(F.perm@[0]@[k as int] < n0); }
@at loop 1 before
  proof { if two { let r = uf_start(B, parent@); t = r.0; V = r.1; Y = r.1; cnt_none(n0, has_i(t)); if B.n == 0 { uf_rest(B, parent@, 0, t, V, Y); } } }
@loop 1
  invariant_except_break k <= M, two ==> uf_inv(B, parent@, k as int, t, V, Y) && nfinite == cnt(n0, has_i(t)) && (k == B.n ==> pivots_of(fm(B), B.m as int, B.n as int, t)),
  invariant N == n0, M == (if two { B.n as int } else { 0 }), upairs(*F, t, n0, pairs@), t.len() == n0, !two ==> forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == NO_IND,
  ensures two ==> pivots_of(fm(B), B.m as int, B.n as int, t),
  decreases M - k
@at loop 1 begin
  proof { q0 = parent@; s0 = pairs@; t0 = t; assert(is_edge(B, k as int)); assert(F.perm@[1]@[k as int] < B.n); }
@at after find_parent 1
  proof { assert(edge_is(B, k as int, i as int, j as int)); same_ro(q0, parent@); ro_is(q0, i as int); ro_is(q0, j as int); q1 = parent@;
    assert forall|x: int| 0 <= x < n0 implies (#[trigger] t[x] == NO_IND <==> q1[x] == x) by { assert(q1[x] == x <==> q0[x] == x); }
    assert forall|x: int| 0 <= x < B.m implies #[trigger] ro(q1, x) <= x && path_to(B, Y, x, ro(q1, x)) by { assert(ro(q1, x) == ro(q0, x)); assert(ro(q0, x) <= x); assert(path_to(B, Y, x, ro(q0, x))); }
    assert(uf_inv(B, q1, k as int, t, V, Y)); ro_is(q1, i as int); ro_is(q1, j as int);
    let (pj, pi) = (r_find_parent_1, pi); if pi != pj { let b = if pi < pj { pj as int } else { pi as int }; assert(q1[b] == b); assert(t[b] == NO_IND); cnt_set(n0, t, b, k); cnt_bound(n0, has_i(t.update(b, k))); } }
@at if 0 then begin
  proof { V = uf_same(B, q1, k as int, t, V, Y, i as int, j as int); if k + 1 == B.n { uf_rest(B, q1, k + 1, t, V, Y); } }
@at before if 2
  proof { 
    let (b, c, e) = if pi < pj { (pj as int, pi as int, j as int) } else { (pi as int, pj as int, i as int) };
    link(q1, b, c, e); assert(parent@ == q1.update(b, c as usize).update(e, c as usize));
    let r = uf_join(B, q1, parent@, k as int, t, V, Y, i as int, j as int, b, c); cnt_set(n0, t, b, k);
    t = t.update(b, k); V = r.0; Y = r.1; cnt_bound(n0, has_i(t));
    assert forall|x: int| 0 <= x < n0 implies #[trigger] pairs@[x] == upair(*F, t, x) by { assert(s0[x] == upair(*F, t0, x)); }
    if nfinite == N - 1 { last_root(n0, t, parent@); }
    if nfinite == N - 1 || k + 1 == B.n { uf_rest(B, parent@, k + 1, t, V, Y); } }
@at loop 1 after
  proof { assert forall|X: RFCC<F>| #[trigger] rf_of(*F, X) implies pairs_of(X, 0, false, pairs@) by { uf_final(*F, t, pairs@, X); } }
