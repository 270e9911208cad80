@unit la
@uses sparse_vector sv_arith cm_basic
@rust
pub open spec fn vmf<F: Field>(x: Seq<Nz<F>>, c: Seq<SV<F>>, j: int) -> spec_fn(int) -> F { |i: int| F::smul(sval(x, i), colv(c, i, j)) }
pub open spec fn vmw<F: Field>(x: Seq<Nz<F>>, c: Seq<SV<F>>, m: int) -> spec_fn(int) -> F { |j: int| fsum(m, vmf(x, c, j)) }
pub proof fn vm_ret<F: Field>(r: Seq<Nz<F>>, ind: Seq<usize>, val: Seq<F>, n: int, w: spec_fn(int) -> F)
    requires r.len() == ind.len(), ind.len() == val.len(), forall|k: int| 0 <= k < ind.len() ==> #[trigger] r[k] == (Nz { ind: ind[k], val: val[k] }),
        forall|k: int| 0 <= k < ind.len() ==> #[trigger] ind[k] < n, forall|k: int| 0 <= k < val.len() ==> #[trigger] val[k] != F::szero(), forall|k: int, l: int| 0 <= k < l < ind.len() ==> #[trigger] ind[k] < #[trigger] ind[l],
        forall|k: int| 0 <= k < ind.len() ==> #[trigger] val[k] == w(ind[k] as int), forall|q: int| 0 <= q < n && #[trigger] w(q) != F::szero() ==> ind.contains(q as usize), n <= usize::MAX,
    ensures sc(r, n), forall|q: int| 0 <= q < n ==> #[trigger] sval(r, q) == w(q)
{
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).ind < (#[trigger] r[j]).ind by { assert(ind[i] < ind[j]); }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).ind < n by { assert(ind[k] < n); }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).val != F::szero() by { assert(val[k] != F::szero()); }
    ssorted_sdist(r);
    assert forall|q: int| 0 <= q < n implies #[trigger] sval(r, q) == w(q) by { let k = sval_find(r, q); if k != -1 { assert(r[k] == (Nz { ind: ind[k], val: val[k] })); assert(val[k] == w(ind[k] as int)); } else if w(q) != F::szero() { let z = choose|z: int| 0 <= z < ind.len() && ind[z] == q as usize; assert(r[z].ind == q); } }
}
@end
@fn CM<F>::gemv(SV<F>) const as cm_gemv
@prop P05 P07
@requires
  cmwf(*this), sc(x.indval@, this.n as int)
@ensures
  sc(ret.indval@, this.m as int), forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.col@, this.n as int, x.indval@, i)
@loop 0
  invariant xit <= x.indval@.len(), cmwf(*this), sc(x.indval@, this.n as int), sc(y.indval@, this.m as int),
    forall|i: int| #[trigger] sval(y.indval@, i) == ssum(x.indval@.take(xit as int), roww(this.col@, i)),
  decreases x.indval@.len() - xit
@at loop 0 begin
  let ghost y0 = y.indval@; let ghost j = x.indval@[xit as int].ind as int;
  proof { assert(sc(this.col@[j].indval@, this.m as int)); sval_out(this.col@[j].indval@, this.m as int); sval_out(y0, this.m as int); }
@at loop 0 end
  proof { broadcast use field_basic;
    assert forall|i: int| #[trigger] sval(y.indval@, i) == ssum(x.indval@.take(xit + 1), roww(this.col@, i)) by { ssum_take(x.indval@, xit as int, roww(this.col@, i)); assert(sval(y0, i) == ssum(x.indval@.take(xit as int), roww(this.col@, i))); }
    assert forall|i: int| i >= this.m implies #[trigger] sval(y.indval@, i) == F::szero() by { assert(sval(this.col@[j].indval@, i) == F::szero()); assert(sval(y0, i) == F::szero()); }
    sc_of(y.indval@, this.m as int); }
@at loop 0 after
  proof { ssorted_sdist(x.indval@); assert(x.indval@.take(x.indval@.len() as int) =~= x.indval@); assert forall|i: int| #[trigger] sval(y.indval@, i) == mvx(this.col@, this.n as int, x.indval@, i) by { mvx_ssum(this.col@, this.n as int, x.indval@, i); } }
@fn CM<F>::gemv(SV<F>, &mut Vec<Nz<F>>) const as cm_gemv_tmp
@prop P05 P07
@requires
  cmwf(*this), sc(x.indval@, this.n as int)
@ensures
  sc(ret.indval@, this.m as int), forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.col@, this.n as int, x.indval@, i)
@loop 0
  invariant xit <= x.indval@.len(), cmwf(*this), sc(x.indval@, this.n as int), sc(y.indval@, this.m as int),
    forall|i: int| #[trigger] sval(y.indval@, i) == ssum(x.indval@.take(xit as int), roww(this.col@, i)),
  decreases x.indval@.len() - xit
@at loop 0 begin
  let ghost y0 = y.indval@; let ghost j = x.indval@[xit as int].ind as int;
  proof { assert(sc(this.col@[j].indval@, this.m as int)); sval_out(this.col@[j].indval@, this.m as int); sval_out(y0, this.m as int); }
@at loop 0 end
  proof { broadcast use field_basic;
    assert forall|i: int| #[trigger] sval(y.indval@, i) == ssum(x.indval@.take(xit + 1), roww(this.col@, i)) by { ssum_take(x.indval@, xit as int, roww(this.col@, i)); assert(sval(y0, i) == ssum(x.indval@.take(xit as int), roww(this.col@, i))); }
    assert forall|i: int| i >= this.m implies #[trigger] sval(y.indval@, i) == F::szero() by { assert(sval(this.col@[j].indval@, i) == F::szero()); assert(sval(y0, i) == F::szero()); }
    sc_of(y.indval@, this.m as int); }
@at loop 0 after
  proof { ssorted_sdist(x.indval@); assert(x.indval@.take(x.indval@.len() as int) =~= x.indval@); assert forall|i: int| #[trigger] sval(y.indval@, i) == mvx(this.col@, this.n as int, x.indval@, i) by { mvx_ssum(this.col@, this.n as int, x.indval@, i); } }
@fn CM<F>::operator*(SV<F>) const as cm_mul_vec
@prop P05 P07
@requires
  cmwf(*this), sc(x.indval@, this.n as int)
@ensures
  sc(ret.indval@, this.m as int), forall|i: int| #[trigger] sval(ret.indval@, i) == mvx(this.col@, this.n as int, x.indval@, i)
@fn CM<F>::operator*(CM<F>) const as cm_mul
@prop P05 P07
@requires
  cmwf(*this), cmwf(*B), this.n == B.m
@ensures
  cmwf(ret), mulof(ret, *this, *B), ret.m == this.m, ret.n == B.n, forall|i: int, j: int| 0 <= j < B.n ==> #[trigger] cmv(ret, i, j) == prodv(this.col@, this.n as int, B.col@, i, j)
@loop 0
  invariant 0 <= j <= B.n, colC@.len() == j, cmwf(*this), cmwf(*B), this.n == B.m,
    forall|k: int| 0 <= k < j ==> sc((#[trigger] colC@[k]).indval@, this.m as int),
    forall|i: int, k: int| 0 <= k < j ==> #[trigger] colv(colC@, i, k) == prodv(this.col@, this.n as int, B.col@, i, k)
  decreases B.n - j
@at loop 0 begin
  let ghost old0 = colC@;
  proof { assert(sc(B.col@[j as int].indval@, B.m as int)); }
@at loop 0 end
  proof { assert forall|i: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(colC@, i, k) == prodv(this.col@, this.n as int, B.col@, i, k) by { if k < j { assert(colv(old0, i, k) == prodv(this.col@, this.n as int, B.col@, i, k)); } else { assert(sval(colC@[k].indval@, i) == mvx(this.col@, this.n as int, B.col@[k].indval@, i)); } } }
@fn CM<F>::operator*(F) const as cm_scale
@prop P05 P07
@requires
  cmwf(*this)
@ensures
  cmwf(ret), ret.m == this.m, ret.n == this.n, forall|i: int, j: int| 0 <= j < this.n ==> #[trigger] cmv(ret, i, j) == F::smul(cmv(*this, i, j), a)
@loop 0
  invariant 0 <= j <= this.n, newcol@.len() == j, cmwf(*this),
    forall|k: int| 0 <= k < j ==> sc((#[trigger] newcol@[k]).indval@, this.m as int),
    forall|i: int, k: int| 0 <= k < j ==> #[trigger] colv(newcol@, i, k) == F::smul(cmv(*this, i, k), a)
  decreases this.n - j
@at loop 0 begin
  let ghost old0 = newcol@;
  proof { broadcast use field_basic; assert(sc(this.col@[j as int].indval@, this.m as int)); sval_out(this.col@[j as int].indval@, this.m as int); }
@at loop 0 end
  proof { broadcast use field_basic; let x = newcol@[j as int].indval@; assert forall|i: int| i >= this.m implies #[trigger] sval(x, i) == F::szero() by { assert(sval(this.col@[j as int].indval@, i) == F::szero()); } sc_of(x, this.m as int);
    assert forall|i: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(newcol@, i, k) == F::smul(cmv(*this, i, k), a) by { if k < j { assert(colv(old0, i, k) == F::smul(cmv(*this, i, k), a)); } } }
@fn operator*(SV<F>, CM<F>) as cm_vec_mul
@prop P05 P07
@requires
  cmwf(*A), sc(x.indval@, A.m as int)
@ensures
  sc(ret.indval@, A.n as int), forall|j: int| 0 <= j < A.n ==> #[trigger] sval(ret.indval@, j) == fsum(A.m as int, vmf(x.indval@, A.col@, j))
@loop 0
  invariant 0 <= j <= A.n, cmwf(*A), sc(x.indval@, A.m as int), ind@.len() == val@.len(), forall|k: int| 0 <= k < ind@.len() ==> #[trigger] ind@[k] < j, forall|k: int| 0 <= k < val@.len() ==> #[trigger] val@[k] != F::szero(),
    forall|k: int, l: int| 0 <= k < l < ind@.len() ==> #[trigger] ind@[k] < #[trigger] ind@[l],
    forall|k: int| 0 <= k < ind@.len() ==> #[trigger] val@[k] == fsum(A.m as int, vmf(x.indval@, A.col@, ind@[k] as int)),
    forall|q: int| 0 <= q < j && #[trigger] fsum(A.m as int, vmf(x.indval@, A.col@, q)) != F::szero() ==> ind@.contains(q as usize),
  decreases A.n - j
@at loop 0 begin
  let ghost i0 = ind@; let ghost v0 = val@;
  proof { let c = A.col@[j as int].indval@; assert(sc(c, A.m as int)); let g = |i: int| F::smul(sval(c, i), sval(x.indval@, i)); assert forall|i: int| 0 <= i < A.m implies #[trigger] g(i) == vmf(x.indval@, A.col@, j as int)(i) by { F::ax_mul_comm(sval(c, i), sval(x.indval@, i)); } fsum_ext(A.m as int, g, vmf(x.indval@, A.col@, j as int)); }
@at loop 0 end
  proof { assert forall|q: int| 0 <= q < j + 1 && #[trigger] fsum(A.m as int, vmf(x.indval@, A.col@, q)) != F::szero() implies ind@.contains(q as usize) by { if q < j { assert(i0.contains(q as usize)); let w = choose|w: int| 0 <= w < i0.len() && i0[w] == q as usize; assert(ind@[w] == q as usize); } else { assert(ind@[ind@.len() - 1] == j); } } }
@at before return 0
  proof { let w = vmw(x.indval@, A.col@, A.m as int); assert forall|r: Seq<Nz<F>>| r.len() == ind@.len() && (forall|k: int| 0 <= k < ind@.len() ==> #[trigger] r[k] == (Nz { ind: ind@[k], val: val@[k] })) implies #[trigger] sc(r, A.n as int) && (forall|q: int| 0 <= q < A.n ==> #[trigger] sval(r, q) == fsum(A.m as int, vmf(x.indval@, A.col@, q))) by { 
     assert forall|q: int| 0 <= q < A.n && #[trigger] w(q) != F::szero() implies ind@.contains(q as usize) by { assert(fsum(A.m as int, vmf(x.indval@, A.col@, q)) != F::szero()); }
     vm_ret(r, ind@, val@, A.n as int, w); assert forall|q: int| 0 <= q < A.n implies #[trigger] sval(r, q) == fsum(A.m as int, vmf(x.indval@, A.col@, q)) by { assert(sval(r, q) == w(q)); } } }
