@unit la
@uses dg rcc_hom
@rust
// ---- representatives, stated for one outgoing map B = R U^-1 and one incoming map B1 = R1 U1^-1 (absent at an end: top) ----
pub open spec fn is_bdry2<F: Field>(n: int, B1: CM<F>, top: bool, z: spec_fn(int) -> F) -> bool { if !top { exists|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(B1, x)) } else { forall|i: int| 0 <= i < n ==> #[trigger] z(i) == F::szero() } }
// R, U, p reduce B; R1, U1, p1 reduce B1; I are the generators of ker B / im B1
pub open spec fn hom2<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, top: bool, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>, I: Seq<usize>) -> bool {
    &&& cmwf(B) && red_at(B, R, p) && bas_at(B, R, U) && gens(R, p1, top, I)
    &&& !top ==> cmwf(B1) && B1.m == B.n && red_at(B1, R1, p1) && bas_at(B1, R1, U1) && ddz(B, B1)
}
pub proof fn gens_cycle2<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, top: bool, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>, I: Seq<usize>, y: spec_fn(int) -> F)
    requires hom2(B, R, U, p, top, B1, R1, U1, p1, I), on_gens(I, B.n as int, y)
    ensures is_cycle(B, comb(U, y))
{
    broadcast use field_basic; let n = B.n as int;
    assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), comb(U, y), r) == F::szero() by {
        bas_comb(B, R, U, y, r);
        assert forall|j: int| 0 <= j < n implies #[trigger] mqf(fm(R), y, r)(j) == F::szero() by {
            if y(j) != F::szero() { assert(I.contains(j as usize)); let a = choose|a: int| 0 <= a < I.len() && I[a] == j as usize; assert(isgen(R, p1, top, I[a] as int)); assert(R.col@[j].indval@.len() == 0); assert(fm(R)(r, j) == F::szero()); }
        }
        fsum_zero(n, mqf(fm(R), y, r));
    }
}
pub proof fn gens_independent2<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, top: bool, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>, I: Seq<usize>, y: spec_fn(int) -> F)
    requires hom2(B, R, U, p, top, B1, R1, U1, p1, I), on_gens(I, B.n as int, y), is_bdry2(B.n as int, B1, top, comb(U, y))
    ensures forall|j: int| 0 <= j < B.n ==> #[trigger] y(j) == F::szero()
{
    let n = B.n as int; trimat_utri(U);
    if exists|j: int| 0 <= j < n && #[trigger] y(j) != F::szero() {
        let j = choose|j: int| 0 <= j < n && #[trigger] y(j) != F::szero();
        let t = top_nz(y, j, n); utri_top(n, fm(U), y, t);
        let z = comb(U, y); assert(z(t) == mq(n, fm(U), y, t));
        assert(I.contains(t as usize)); let a = choose|a: int| 0 <= a < I.len() && I[a] == t as usize; assert(isgen(R, p1, top, I[a] as int));
        if !top {
            let x = choose|x: spec_fn(int) -> F| same_on(n, z, #[trigger] bimg(B1, x));
            assert(z(t) == bimg(B1, x)(t));
            assert forall|r: int| t < r < B1.m implies #[trigger] mq(B1.n as int, fm(B1), x, r) == F::szero() by { assert(mq(n, fm(U), y, r) == F::szero()); assert(z(r) == bimg(B1, x)(r)); }
            bdry_low(fm(B1), B1.m as int, B1.n as int, p1, x, t);
        } else { assert(z(t) == F::szero()); }
    }
}
pub proof fn preferred2<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, top: bool, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>, I: Seq<usize>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>)
    requires hom2(B, R, U, p, top, B1, R1, U1, p1, I), sc(y, B.n as int), sc(y2, B.n as int), is_cycle(B, comb(U, svf(y))),
        top ==> y2 == y, !top ==> nopivots(p1, y2) && bdmove(U, R1, y, y2)
    ensures on_gens(I, B.n as int, svf(y2)), is_bdry2(B.n as int, B1, top, fdiff(comb(U, svf(y2)), comb(U, svf(y))))
{
    broadcast use field_basic; let n = B.n as int;
    let z = comb(U, svf(y)); let z2 = comb(U, svf(y2)); let d = fdiff(z2, z);
    if !top {
        let x = choose|x: spec_fn(int) -> F| hmoved(U, R1, x, y, y2); let x2 = comb(U1, x);
        red_bdry(B1, R1, U1, x);
        assert forall|i: int| 0 <= i < n implies #[trigger] z2(i) == F::sadd(z(i), bimg(B1, x2)(i)) by { mvx_mq(U, y, i); mvx_mq(U, y2, i); assert(mvx(U.col@, n, y2, i) == F::sadd(mvx(U.col@, n, y, i), mq(R1.n as int, fm(R1), x, i))); assert(bimg(R1, x)(i) == bimg(B1, x2)(i)); }
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == bimg(B1, x2)(i) by { let b = bimg(B1, x2)(i); assert(z2(i) == F::sadd(z(i), b)); f_add_sub(z(i), b); }
        assert(same_on(n, d, bimg(B1, x2)));
        assert forall|r: int| 0 <= r < B.m implies #[trigger] mq(n, fm(B), z2, r) == F::szero() by {
            dd_cycle(B, B1, x2, r); let bb = |q: int| mq(B1.n as int, fm(B1), x2, q);
            let f = mqf(fm(B), z, r); let g = mqf(fm(B), bb, r);
            assert forall|q: int| 0 <= q < n implies #[trigger] mqf(fm(B), z2, r)(q) == F::sadd(f(q), g(q)) by { assert(z2(q) == F::sadd(z(q), bimg(B1, x2)(q))); let w = fm(B)(r, q); F::ax_distrib(w, z(q), bb(q)); F::ax_mul_comm(w, z(q)); F::ax_mul_comm(w, bb(q)); F::ax_mul_comm(w, F::sadd(z(q), bb(q))); }
            fsum_add(n, f, g, mqf(fm(B), z2, r)); assert(mq(n, fm(B), z, r) == F::szero());
        }
    } else { assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == F::szero() by { F::ax_add_neg(z(i)); } }
    cycle_coords(B, R, U, p, svf(y2));
    assert forall|j: int| 0 <= j < n && #[trigger] svf(y2)(j) != F::szero() implies I.contains(j as usize) by {
        assert(R.col@[j].indval@.len() == 0); ssorted_sdist(y2); let t = sval_find(y2, j); assert(t != -1); assert(isgen(R, p1, top, j));
    }
}
pub proof fn chain_lem2<F: Field>(B: CM<F>, R: CM<F>, U: CM<F>, p: Seq<usize>, top: bool, B1: CM<F>, R1: CM<F>, U1: CM<F>, p1: Seq<usize>, I: Seq<usize>, c: Seq<Nz<F>>, y: Seq<Nz<F>>, y2: Seq<Nz<F>>, r: Seq<Nz<F>>)
    requires hom2(B, R, U, p, top, B1, R1, U1, p1, I), sc(y, U.n as int), sc(y2, U.n as int), sc(c, U.n as int), is_cycle(B, svf(c)), comb_of(U, y2, r),
        forall|i: int| 0 <= i < U.n ==> #[trigger] mvx(U.col@, U.n as int, y, i) == sval(c, i),
        top ==> y2 == y, !top ==> nopivots(p1, y2) && bdmove(U, R1, y, y2)
    ensures is_bdry2(B.n as int, B1, top, fdiff(svf(r), svf(c))), is_cycle(B, svf(r))
{
    let n = B.n as int; assert(U.n == n);
    let z = comb(U, svf(y)); let z2 = comb(U, svf(y2));
    assert forall|i: int| 0 <= i < n implies #[trigger] z(i) == svf(c)(i) by { mvx_mq(U, y, i); assert(mvx(U.col@, n, y, i) == sval(c, i)); }
    assert forall|i: int| 0 <= i < n implies #[trigger] z2(i) == svf(r)(i) by { mvx_mq(U, y2, i); assert(sval(r, i) == mvx(U.col@, n, y2, i)); }
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(n, fm(B), z, i) == F::szero() by { mq_ext(n, fm(B), fm(B), z, svf(c), i); assert(mq(n, fm(B), svf(c), i) == F::szero()); }
    preferred2(B, R, U, p, top, B1, R1, U1, p1, I, y, y2); gens_cycle2(B, R, U, p, top, B1, R1, U1, p1, I, svf(y2));
    assert forall|i: int| 0 <= i < B.m implies #[trigger] mq(n, fm(B), svf(r), i) == F::szero() by { mq_ext(n, fm(B), fm(B), svf(r), z2, i); assert(mq(n, fm(B), z2, i) == F::szero()); }
    let w = fdiff(z2, z); let v = fdiff(svf(r), svf(c));
    assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == w(i) by { assert(z(i) == svf(c)(i)); assert(z2(i) == svf(r)(i)); }
    if !top { let x = choose|x: spec_fn(int) -> F| same_on(n, w, #[trigger] bimg(B1, x)); assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == bimg(B1, x)(i) by { assert(w(i) == bimg(B1, x)(i)); } assert(same_on(n, v, bimg(B1, x))); }
    else { assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == F::szero() by { assert(w(i) == F::szero()); } }
}
// ---- the two degrees ----
pub open spec fn dgtop<F: Field>(X: RDG<F>, k: int) -> bool { X.degree == -1 && k == X.R@.len() - 1 }
// number of the map whose columns are dimension k, and of the map into dimension k
pub open spec fn dgo(d: i32, k: int) -> int { if d == -1 { k } else { k + 1 } }
pub open spec fn dgi(d: i32, k: int) -> int { if d == -1 { k + 1 } else { k } }
pub open spec fn dg_of<F: Field>(C: DG<F>, X: RDG<F>) -> bool { dgwf(C) && dgdd(C) && dg_red(C, X) && dg_bas(C, X) && dg_gens(X) }
pub open spec fn dg_hfit<F: Field>(X: RDG<F>, k: int) -> bool {
    &&& (X.degree == -1 || X.degree == 1) && 0 <= k && dgo(X.degree, k) < X.R@.len() && X.U@.len() == X.R@.len() && X.p2c@.len() == X.R@.len() && X.I@.len() == X.R@.len() && trimat(true, X.U@[dgo(X.degree, k)])
    &&& !dgtop(X, k) ==> cmwf(X.R@[dgi(X.degree, k)]) && X.R@[dgi(X.degree, k)].m == X.U@[dgo(X.degree, k)].n && reduced(X.R@[dgi(X.degree, k)], X.p2c@[dgi(X.degree, k)]@)
}
pub proof fn dg_hom2<F: Field>(C: DG<F>, X: RDG<F>, k: int)
    requires dg_of(C, X), 0 <= k, dgo(C.degree, k) < C.differential@.len()
    ensures dg_hfit(X, k), hom2(C.differential@[dgo(C.degree, k)], X.R@[dgo(C.degree, k)], X.U@[dgo(C.degree, k)], X.p2c@[dgo(C.degree, k)]@, dgtop(X, k), C.differential@[dgi(C.degree, k)], X.R@[dgi(C.degree, k)], X.U@[dgi(C.degree, k)], dg_into(X, dgo(C.degree, k)), X.I@[dgo(C.degree, k)]@)
{
    let o = dgo(C.degree, k); let i = dgi(C.degree, k);
    assert(red_at(C.differential@[o], X.R@[o], X.p2c@[o]@)); assert(bas_at(C.differential@[o], X.R@[o], X.U@[o])); assert(dg_gens_at(X, o));
    if !dgtop(X, k) { assert(red_at(C.differential@[i], X.R@[i], X.p2c@[i]@)); assert(bas_at(C.differential@[i], X.R@[i], X.U@[i])); assert(dgdd_at(C, k)); assert(C.differential@[i].m == C.differential@[o].n); }
}
// whatever space C the reduction X is of: if c is a (co)cycle of dimension k, so is r, and they differ by a (co)boundary
pub open spec fn dg_cyc<F: Field>(C: DG<F>, k: int, z: spec_fn(int) -> F) -> bool { is_cycle(C.differential@[dgo(C.degree, k)], z) }
pub open spec fn dg_bdry<F: Field>(C: DG<F>, k: int, z: spec_fn(int) -> F) -> bool { is_bdry2(C.differential@[dgo(C.degree, k)].n as int, C.differential@[dgi(C.degree, k)], C.degree == -1 && k == C.differential@.len() - 1, z) }
pub open spec fn dg_chain_ok<F: Field>(X: RDG<F>, k: int, c: Seq<Nz<F>>, r: Seq<Nz<F>>) -> bool { forall|C: DG<F>| #[trigger] dg_of(C, X) && dg_cyc(C, k, svf(c)) ==> dg_bdry(C, k, fdiff(svf(r), svf(c))) && dg_cyc(C, k, svf(r)) }
// every preferred representative is a (co)cycle
pub proof fn dg_gens_cycle<F: Field>(C: DG<F>, X: RDG<F>, k: int, y: spec_fn(int) -> F)
    requires dg_of(C, X), 0 <= k, dgo(C.degree, k) < C.differential@.len(), on_gens(X.I@[dgo(C.degree, k)]@, C.differential@[dgo(C.degree, k)].n as int, y)
    ensures dg_cyc(C, k, comb(X.U@[dgo(C.degree, k)], y))
{ let o = dgo(C.degree, k); let i = dgi(C.degree, k); dg_hom2(C, X, k); gens_cycle2(C.differential@[o], X.R@[o], X.U@[o], X.p2c@[o]@, dgtop(X, k), C.differential@[i], X.R@[i], X.U@[i], dg_into(X, o), X.I@[o]@, y); }
// and they are independent modulo (co)boundaries
pub proof fn dg_gens_independent<F: Field>(C: DG<F>, X: RDG<F>, k: int, y: spec_fn(int) -> F)
    requires dg_of(C, X), 0 <= k, dgo(C.degree, k) < C.differential@.len(), on_gens(X.I@[dgo(C.degree, k)]@, C.differential@[dgo(C.degree, k)].n as int, y), dg_bdry(C, k, comb(X.U@[dgo(C.degree, k)], y))
    ensures forall|j: int| 0 <= j < C.differential@[dgo(C.degree, k)].n ==> #[trigger] y(j) == F::szero()
{ let o = dgo(C.degree, k); let i = dgi(C.degree, k); dg_hom2(C, X, k); gens_independent2(C.differential@[o], X.R@[o], X.U@[o], X.p2c@[o]@, dgtop(X, k), C.differential@[i], X.R@[i], X.U@[i], dg_into(X, o), X.I@[o]@, y); }
@end
@fn RDG<F>::to_hom_basis(SV<F>, usize) const as rdg_to_hom
@prop P10
@requires
  0 <= dgo(this.degree, k as int) < this.U@.len(), trimat(true, this.U@[dgo(this.degree, k as int)]), sc(v.indval@, this.U@[dgo(this.degree, k as int)].n as int)
@ensures
  sc(ret.indval@, this.U@[dgo(this.degree, k as int)].n as int), forall|i: int| 0 <= i < this.U@[dgo(this.degree, k as int)].n ==> #[trigger] mvx(this.U@[dgo(this.degree, k as int)].col@, this.U@[dgo(this.degree, k as int)].n as int, ret.indval@, i) == sval(v.indval@, i)
@at entry
  proof { assert(this.U.len() == this.U@.len()); }
@fn RDG<F>::from_hom_basis(SV<F>, usize) const as rdg_from_hom
@prop P10
@requires
  dgo(this.degree, k as int) < this.U@.len(), cmwf(this.U@[dgo(this.degree, k as int)]), sc(v.indval@, this.U@[dgo(this.degree, k as int)].n as int)
@ensures
  sc(ret.indval@, this.U@[dgo(this.degree, k as int)].m as int), forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.U@[dgo(this.degree, k as int)].col@, this.U@[dgo(this.degree, k as int)].n as int, v.indval@, i)
@at entry
  proof { assert(this.U.len() == this.U@.len()); }
@fn RDG<F>::get_preferred_representative(usize, usize) const as rdg_rep
@prop P10
@requires
  dgo(this.degree, k as int) < this.U@.len(), dgo(this.degree, k as int) < this.I@.len(), j < this.I@[dgo(this.degree, k as int)]@.len(), this.I@[dgo(this.degree, k as int)]@[j as int] < this.U@[dgo(this.degree, k as int)].col@.len()
@ensures
  ret == this.U@[dgo(this.degree, k as int)].col@[this.I@[dgo(this.degree, k as int)]@[j as int] as int]
@at entry
  proof { assert(this.U.len() == this.U@.len()); }
@fn RDG<F>::find_preferred_representative(&mut SV<F>, usize) const as rdg_find
@prop P10
@opt wrap=1 rlimit=60
@requires
  dg_hfit(*this, k as int), sc(old(y).indval@, this.U@[dgo(this.degree, k as int)].n as int)
@ensures
  sc(final(y).indval@, this.U@[dgo(this.degree, k as int)].n as int),
  dgtop(*this, k as int) ==> final(y).indval@ == old(y).indval@,
  !dgtop(*this, k as int) ==> nopivots(this.p2c@[dgi(this.degree, k as int)]@, final(y).indval@) && bdmove(this.U@[dgo(this.degree, k as int)], this.R@[dgi(this.degree, k as int)], old(y).indval@, final(y).indval@)
@at entry
  let ghost y0 = y.indval@; let ghost n = this.U@[dgo(this.degree, k as int)].n as int; let ghost mut x = |q: int| F::szero(); let ghost mut J: int = n;
  proof { assert(y0.subrange(0, y0.len() as int) =~= y0); assert(this.R.len() == this.R@.len()); if !dgtop(*this, k as int) { hmoved_id(this.U@[dgo(this.degree, k as int)], this.R@[dgi(this.degree, k as int)], y0); } }
@loop 0
  invariant !dgtop(*this, k as int), kin == dgi(this.degree, k as int), dg_hfit(*this, k as int), n == this.U@[dgo(this.degree, k as int)].n, sc(y.indval@, n), 0 <= yit <= y.indval@.len(), 0 <= J <= n, hmoved(this.U@[dgo(this.degree, k as int)], this.R@[dgi(this.degree, k as int)], x, y0, y.indval@),
    forall|t: int| yit <= t < y.indval@.len() ==> this.p2c@[dgi(this.degree, k as int)]@[(#[trigger] y.indval@[t]).ind as int] == NO_IND,
    forall|t: int| 0 <= t < y.indval@.len() && (#[trigger] y.indval@[t]).ind >= J ==> this.p2c@[dgi(this.degree, k as int)]@[y.indval@[t].ind as int] == NO_IND,
  decreases J, yit
@at loop 0 begin
  let ghost Y1 = y.indval@; let ghost e = yit - 1;
@at after rdg_to_hom 0
  let ghost rc = this.R@[dgi(this.degree, k as int)].col@[i as int].indval@; let ghost b = r_rdg_to_hom_0.indval@;
  proof { assert(sc(rc, n)); assert(low(rc) == j); solve_low(this.U@[dgo(this.degree, k as int)], b, rc); sc_some(b, n, b.len() - 1); }
@at before sv_axpy 0
  proof { assert(yit == e); }
@at after sv_axpy 0
  proof { let c = F::sneg(a); let z = y.indval@; red_step(Y1, b, z, n, c, e); hmoved_step(this.U@[dgo(this.degree, k as int)], this.R@[dgi(this.degree, k as int)], x, y0, Y1, c, b, i as int, z); x = vadd1(x, i as int, c); J = j as int; assert(z.subrange(0, z.len() as int) =~= z);
    let q = Y1.len() - 1 - e;
    assert forall|t: int| z.len() - q <= t < z.len() implies #[trigger] z[t] == Y1[t - z.len() + Y1.len()] by { let w = z.len() - 1 - t; assert(z[z.len() - 1 - w] == Y1[Y1.len() - 1 - w]); }
    assert forall|t: int| 0 <= t < z.len() - q implies (#[trigger] z[t]).ind < j by { if t < z.len() - q - 1 { assert(z[t].ind < z[z.len() - q - 1].ind); } }
    assert forall|t: int| z.len() - q <= t < z.len() implies (#[trigger] z[t]).ind > j by { let u = t - z.len() + Y1.len(); assert(z[t] == Y1[u]); assert(Y1[e].ind < Y1[u].ind); } }
@at exit
  proof { assert(bdmove(this.U@[dgo(this.degree, k as int)], this.R@[dgi(this.degree, k as int)], y0, y.indval@)); }
@fn RDG<F>::chain_preferred_representative(SV<F>, usize) const as rdg_chain
@prop P10
@requires
  dg_hfit(*this, k as int), sc(c.indval@, this.U@[dgo(this.degree, k as int)].n as int)
@ensures
  sc(ret.indval@, this.U@[dgo(this.degree, k as int)].n as int),
  dg_chain_ok(*this, k as int, c.indval@, ret.indval@)
@at after rdg_to_hom 0
  let ghost b = r_rdg_to_hom_0.indval@;
@at before return 0
  proof { let y2 = x.indval@; let U = this.U@[dgo(this.degree, k as int)];
    assert forall|r: SV<F>| sc(r.indval@, U.m as int) && comb_of(U, y2, r.indval@) implies dg_chain_ok(*this, k as int, c.indval@, #[trigger] r.indval@) by {
      assert forall|C: DG<F>| #[trigger] dg_of(C, *this) && dg_cyc(C, k as int, svf(c.indval@)) implies dg_bdry(C, k as int, fdiff(svf(r.indval@), svf(c.indval@))) && dg_cyc(C, k as int, svf(r.indval@)) by { let o = dgo(C.degree, k as int); let i = dgi(C.degree, k as int); dg_hom2(C, *this, k as int); chain_lem2(C.differential@[o], this.R@[o], this.U@[o], this.p2c@[o]@, dgtop(*this, k as int), C.differential@[i], this.R@[i], this.U@[i], dg_into(*this, o), this.I@[o]@, c.indval@, b, y2, r.indval@); } } }
