@unit la
@uses sparse_vector sv_access
@rust
pub open spec fn shas<F>(y: Seq<Nz<F>>, i: int) -> bool { exists|k: int| 0 <= k < y.len() && (#[trigger] y[k]).ind == i }
pub open spec fn ncommon<F>(x: Seq<Nz<F>>, y: Seq<Nz<F>>) -> int
    decreases x.len()
{ if x.len() == 0 { 0 } else { ncommon(x.drop_last(), y) + if shas(y, x.last().ind as int) { 1int } else { 0 } } }
pub proof fn ncommon_take<F>(x: Seq<Nz<F>>, y: Seq<Nz<F>>, k: int)
    requires 0 <= k < x.len()
    ensures ncommon(x.take(k + 1), y) == ncommon(x.take(k), y) + if shas(y, x[k].ind as int) { 1int } else { 0 }
{ assert(x.take(k + 1).drop_last() =~= x.take(k)); assert(x.take(k + 1).last() == x[k]); }
pub proof fn ncommon_rest<F>(x: Seq<Nz<F>>, y: Seq<Nz<F>>, k: int)
    requires 0 <= k <= x.len(), forall|j: int| k <= j < x.len() ==> !shas(y, (#[trigger] x[j]).ind as int)
    ensures ncommon(x, y) == ncommon(x.take(k), y)
    decreases x.len() - k
{ if k == x.len() { assert(x.take(k) =~= x); } else { ncommon_rest(x, y, k + 1); ncommon_take(x, y, k); } }
pub proof fn ncommon_le<F>(x: Seq<Nz<F>>, y: Seq<Nz<F>>)
    ensures 0 <= ncommon(x, y) <= x.len()
    decreases x.len()
{ if x.len() > 0 { ncommon_le(x.drop_last(), y); } }
pub open spec fn kidx(m: int, i: int, j: int) -> int { m * i + j }
pub proof fn kidx_inj(m: int, i: int, j: int, i2: int, j2: int)
    requires 0 <= j < m, 0 <= j2 < m
    ensures i < i2 ==> kidx(m, i, j) < kidx(m, i2, j2), i == i2 && j < j2 ==> kidx(m, i, j) < kidx(m, i2, j2), kidx(m, i, j) == kidx(m, i2, j2) ==> i == i2 && j == j2
{ if i < i2 { assert(m * i + m <= m * i2) by(nonlinear_arith) requires i + 1 <= i2, m > 0; } if i2 < i { assert(m * i2 + m <= m * i) by(nonlinear_arith) requires i2 + 1 <= i, m > 0; } }
pub open spec fn kpair<F: Field>(A: Seq<Nz<F>>, B: Seq<Nz<F>>, m: int, e: Nz<F>, q: (int, int)) -> bool { 0 <= q.0 < A.len() && 0 <= q.1 < B.len() && e.ind == kidx(m, A[q.0].ind as int, B[q.1].ind as int) && e.val == F::smul(A[q.0].val, B[q.1].val) }
pub open spec fn klt(p: (int, int), q: (int, int)) -> bool { p.0 < q.0 || p.0 == q.0 && p.1 < q.1 }
pub open spec fn kron_inv<F: Field>(A: Seq<Nz<F>>, B: Seq<Nz<F>>, m: int, z: Seq<Nz<F>>, sp: Seq<(int, int)>, a: int, b: int) -> bool {
    &&& sp.len() == z.len()
    &&& forall|k: int| 0 <= k < z.len() ==> kpair(A, B, m, z[k], #[trigger] sp[k]) && klt(sp[k], (a, b))
    &&& forall|k: int, l: int| 0 <= k < l < z.len() ==> klt(#[trigger] sp[k], #[trigger] sp[l])
    &&& forall|q: (int, int)| 0 <= q.0 < A.len() && 0 <= q.1 < B.len() && klt(q, (a, b)) ==> #[trigger] sp.contains(q)
}
pub proof fn kron_push<F: Field>(A: Seq<Nz<F>>, B: Seq<Nz<F>>, m: int, z: Seq<Nz<F>>, sp: Seq<(int, int)>, a: int, b: int, e: Nz<F>)
    requires kron_inv(A, B, m, z, sp, a, b), kpair(A, B, m, e, (a, b))
    ensures kron_inv(A, B, m, z.push(e), sp.push((a, b)), a, b + 1)
{
    let z2 = z.push(e); let s2 = sp.push((a, b)); let n = z.len() as int;
    assert forall|k: int| 0 <= k < z2.len() implies kpair(A, B, m, z2[k], #[trigger] s2[k]) && klt(s2[k], (a, b + 1)) by { if k < n { assert(s2[k] == sp[k]); } }
    assert forall|k: int, l: int| 0 <= k < l < z2.len() implies klt(#[trigger] s2[k], #[trigger] s2[l]) by { assert(s2[k] == sp[k]); if l < n { assert(s2[l] == sp[l]); } }
    assert forall|q: (int, int)| 0 <= q.0 < A.len() && 0 <= q.1 < B.len() && klt(q, (a, b + 1)) implies #[trigger] s2.contains(q) by { if q == (a, b) { assert(s2[n] == q); } else { assert(sp.contains(q)); let k = choose|k: int| 0 <= k < sp.len() && sp[k] == q; assert(s2[k] == q); } }
}
pub proof fn kron_done<F: Field>(A: Seq<Nz<F>>, B: Seq<Nz<F>>, m: int, z: Seq<Nz<F>>, sp: Seq<(int, int)>)
    requires kron_inv(A, B, m, z, sp, A.len() as int, 0), ssorted(A), ssorted(B), sbelow(B, m)
    ensures ssorted(z), snz(A) && snz(B) ==> snz(z), forall|i: int, j: int| 0 <= i && 0 <= j < m ==> sval(z, #[trigger] kidx(m, i, j)) == F::smul(sval(A, i), sval(B, j))
{
    broadcast use field_basic;
    assert forall|k: int, l: int| 0 <= k < l < z.len() implies (#[trigger] z[k]).ind < (#[trigger] z[l]).ind by { let p = sp[k]; let q = sp[l]; assert(klt(p, q)); assert(B[p.1].ind < m && B[q.1].ind < m); if p.0 < q.0 { assert(A[p.0].ind < A[q.0].ind); } else { assert(B[p.1].ind < B[q.1].ind); } 
        kidx_inj(m, A[p.0].ind as int, B[p.1].ind as int, A[q.0].ind as int, B[q.1].ind as int); }
    ssorted_sdist(z); ssorted_sdist(A); ssorted_sdist(B);
    if snz(A) && snz(B) { assert forall|k: int| 0 <= k < z.len() implies (#[trigger] z[k]).val != F::szero() by { let p = sp[k]; assert(A[p.0].val != F::szero() && B[p.1].val != F::szero()); } }
    assert forall|i: int, j: int| 0 <= i && 0 <= j < m implies sval(z, #[trigger] kidx(m, i, j)) == F::smul(sval(A, i), sval(B, j)) by {
        let k = sval_find(z, kidx(m, i, j)); let a = sval_find(A, i); let b = sval_find(B, j);
        if k != -1 { let p = sp[k]; assert(B[p.1].ind < m); kidx_inj(m, A[p.0].ind as int, B[p.1].ind as int, i, j); assert(a == p.0 && b == p.1); }
        else if a != -1 && b != -1 { assert(sp.contains((a, b))); let l = choose|l: int| 0 <= l < sp.len() && sp[l] == (a, b); assert(z[l].ind == kidx(m, i, j)); }
    }
}
// x . y = sum over i of x(i) y(i)
pub open spec fn sdotw<F: Field>(y: Seq<Nz<F>>) -> spec_fn(int) -> F { |i: int| sval(y, i) }
pub proof fn mulpos<F: Field>(y: Seq<Nz<F>>, t: Seq<Nz<F>>, g: spec_fn(int) -> F)
    requires ssorted(y), t.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] t[k]).ind == y[k].ind && t[k].val == F::smul(y[k].val, g(y[k].ind as int))
    ensures ssorted(t), forall|i: int| #[trigger] sval(t, i) == F::smul(sval(y, i), g(i)), snz(y) && (forall|k: int| 0 <= k < y.len() ==> g((#[trigger] y[k]).ind as int) != F::szero()) ==> snz(t)
{
    broadcast use field_basic;
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ind < (#[trigger] t[b]).ind by { assert(y[a].ind < y[b].ind); }
    ssorted_sdist(t); ssorted_sdist(y);
    assert forall|i: int| #[trigger] sval(t, i) == F::smul(sval(y, i), g(i)) by { let k = sval_find(y, i); let l = sval_find(t, i); if k != -1 { assert(t[k].ind == i); assert(l == k); } else if l != -1 { assert(y[l].ind == i); } }
    if snz(y) && (forall|k: int| 0 <= k < y.len() ==> g((#[trigger] y[k]).ind as int) != F::szero()) { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).val != F::szero() by { assert(y[k].val != F::szero()); } }
}
@end
@fn SV<F>::nnz_intersection(SV<F>) const as sv_nnz_int
@prop P03
@requires
  ssorted(this.indval@), ssorted(x.indval@)
@ensures
  ret == ncommon(x.indval@, this.indval@)
@at entry
  let ghost y = this.indval@; let ghost X = x.indval@;
@at before return 0
  proof { }
@loop 0
  invariant i1 <= y.len(), i2 <= X.len(), ct == ncommon(X.take(i2 as int), y), ct <= i2,
    forall|a: int, b: int| 0 <= a < i1 && i2 <= b < X.len() ==> (#[trigger] y[a]).ind < (#[trigger] X[b]).ind,
  decreases y.len() - i1 + X.len() - i2
@at loop 0 begin
  proof { ncommon_take(X, y, i2 as int); if y[i1 as int].ind > X[i2 as int].ind { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind != X[i2 as int].ind by { if k > i1 { assert(y[i1 as int].ind < y[k].ind); } } } 
     if y[i1 as int].ind == X[i2 as int].ind { assert(shas(y, X[i2 as int].ind as int)); } 
     assert forall|b: int| i2 < b < X.len() implies X[i2 as int].ind < (#[trigger] X[b]).ind by { } }
@at loop 0 after
  proof { assert forall|j: int| i2 <= j < X.len() implies !shas(y, (#[trigger] X[j]).ind as int) by { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind as int != X[j].ind as int by { assert(k < i1); } } ncommon_rest(X, y, i2 as int); }
@fn SV<F>::operator+(SV<F>) const as sv_plus
@prop P03
@requires
  ssorted(this.indval@), ssorted(other.indval@)
@ensures
  ssorted(ret.indval@), forall|i: int| #[trigger] sval(ret.indval@, i) == F::sadd(sval(this.indval@, i), sval(other.indval@, i)), snz(this.indval@) && snz(other.indval@) ==> snz(ret.indval@)
@at entry
  broadcast use field_basic;
@fn SV<F>::operator*(F) const as sv_mul
@prop P03
@requires
  ssorted(this.indval@)
@ensures
  ssorted(ret.indval@), forall|i: int| #[trigger] sval(ret.indval@, i) == F::smul(sval(this.indval@, i), a), snz(this.indval@) ==> snz(ret.indval@)
@at entry
  broadcast use field_basic;
  let ghost y = this.indval@;
@at before return 0
  proof { }
@loop 0
  invariant ix0 <= y.len(), av.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] av.indval@[k]).ind == y[k].ind && av.indval@[k].val == if k < ix0 { F::smul(y[k].val, a) } else { y[k].val }
  decreases y.len() - ix0
@at loop 0 after
  proof { mulpos(y, av.indval@, |i: int| a); }
@fn SV<F>::operator*(SV<F>) const as sv_dot
@prop P03
@requires
  ssorted(this.indval@), ssorted(x.indval@)
@ensures
  ret == ssum(x.indval@, sdotw(this.indval@)),
  forall|n: int| #[trigger] sbelow(x.indval@, n) ==> ret == fsum(n, |i: int| F::smul(sval(x.indval@, i), sval(this.indval@, i))),
@at entry
  broadcast use field_basic;
  let ghost y = this.indval@; let ghost X = x.indval@; let ghost w = sdotw(y);
@loop 0
  invariant i1 <= y.len(), i2 <= X.len(), a == ssum(X.take(i2 as int), w),
    forall|p: int, q: int| 0 <= p < i1 && i2 <= q < X.len() ==> (#[trigger] y[p]).ind < (#[trigger] X[q]).ind,
  decreases y.len() - i1 + X.len() - i2
@at loop 0 begin
  proof { ssum_take(X, i2 as int, w); let j = X[i2 as int].ind as int;
     if y[i1 as int].ind > j { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind != j by { if k > i1 { assert(y[i1 as int].ind < y[k].ind); } } sval_absent(y, j); } 
     if y[i1 as int].ind == j { sval_at(y, i1 as int); }
     assert forall|b: int| i2 < b < X.len() implies X[i2 as int].ind < (#[trigger] X[b]).ind by { } }
@at loop 0 after
  proof { assert forall|j: int| i2 <= j < X.len() implies w((#[trigger] X[j]).ind as int) == F::szero() by { assert forall|k: int| 0 <= k < y.len() implies (#[trigger] y[k]).ind as int != X[j].ind as int by { assert(k < i1); } sval_absent(y, X[j].ind as int); } ssum_rest(X, i2 as int, w);
    ssorted_sdist(X); assert forall|n: int| #[trigger] sbelow(X, n) implies a == fsum(n, |i: int| F::smul(sval(X, i), sval(y, i))) by { ssum_fsum(X, n, w, |i: int| F::smul(sval(X, i), sval(y, i))); } }
@fn SV<F>::scale_inplace(Vec<F>) as sv_scale_vec
@prop P03
@requires
  ssorted(old(this).indval@), sbelow(old(this).indval@, coeff@.len() as int)
@ensures
  ssorted(final(this).indval@), forall|i: int| 0 <= i < coeff@.len() ==> #[trigger] sval(final(this).indval@, i) == F::smul(sval(old(this).indval@, i), coeff@[i]),
  sbelow(final(this).indval@, coeff@.len() as int), snz(old(this).indval@) && (forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero()) ==> snz(final(this).indval@)
@at entry
  let ghost y = this.indval@;
@loop 0
  invariant it <= y.len(), this.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] this.indval@[k]).ind == y[k].ind && this.indval@[k].val == if k < it { F::smul(y[k].val, coeff@[y[k].ind as int]) } else { y[k].val }
  decreases y.len() - it
@at loop 0 begin
  proof { assert(y[it as int].ind < coeff@.len()); }
@at exit
  proof { mulpos(y, this.indval@, |i: int| coeff@[i]); assert forall|k: int| 0 <= k < y.len() implies (#[trigger] this.indval@[k]).ind < coeff@.len() by { assert(y[k].ind < coeff@.len()); }
    if forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero() { assert forall|k: int| 0 <= k < y.len() implies (|i: int| coeff@[i])((#[trigger] y[k]).ind as int) != F::szero() by { assert(y[k].ind < coeff@.len()); assert(coeff@[y[k].ind as int] != F::szero()); } } }
@fn SV<F>::scale_inplace(F) as sv_scale_inplace
@prop P03
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), forall|i: int| #[trigger] sval(final(this).indval@, i) == F::smul(sval(old(this).indval@, i), c), snz(old(this).indval@) ==> snz(final(this).indval@),
  c != F::szero() ==> final(this).indval@.len() == old(this).indval@.len() && forall|k: int| 0 <= k < old(this).indval@.len() ==> (#[trigger] final(this).indval@[k]).ind == old(this).indval@[k].ind
@at entry
  broadcast use field_basic;
  let ghost y = this.indval@;
@loop 0
  invariant it <= y.len(), this.indval@.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> (#[trigger] this.indval@[k]).ind == y[k].ind && this.indval@[k].val == if k < it { F::smul(y[k].val, c) } else { y[k].val }
  decreases y.len() - it
@at exit
  proof { mulpos(y, this.indval@, |i: int| c); }
@fn SV<F>::scale(F) const as sv_scale
@prop P03
@requires
  ssorted(this.indval@)
@ensures
  ssorted(ret.indval@), forall|i: int| #[trigger] sval(ret.indval@, i) == F::smul(sval(this.indval@, i), c), snz(this.indval@) ==> snz(ret.indval@)
@fn SV<F>::kron(SV<F>, usize) const as sv_kron
@prop P03
@requires
  ssorted(this.indval@), ssorted(other.indval@), sbelow(other.indval@, m as int), forall|k: int| 0 <= k < this.indval@.len() ==> m * ((#[trigger] this.indval@[k]).ind + 1) <= usize::MAX
@ensures
  ssorted(ret.indval@), snz(this.indval@) && snz(other.indval@) ==> snz(ret.indval@),
  forall|i: int, j: int| 0 <= i && 0 <= j < m ==> sval(ret.indval@, #[trigger] kidx(m as int, i, j)) == F::smul(sval(this.indval@, i), sval(other.indval@, j)),
@at entry
  let ghost A = this.indval@; let ghost B = other.indval@; let ghost mut sp: Seq<(int, int)> = Seq::empty();
@loop 0
  invariant Ait <= A.len(), kron_inv(A, B, m as int, nzs@, sp, Ait as int, 0)
  decreases A.len() - Ait
@loop 1
  invariant Ait < A.len(), Bit <= B.len(), kron_inv(A, B, m as int, nzs@, sp, Ait as int, Bit as int)
  decreases B.len() - Bit
@at loop 1 begin
  proof { let ai = A[Ait as int].ind as int; let bi = B[Bit as int].ind as int; assert(m * (A[Ait as int].ind + 1) <= usize::MAX); assert(bi < m); assert(m * (ai + 1) == m * ai + m) by(nonlinear_arith); assert(m * ai >= 0) by(nonlinear_arith) requires m >= 0, ai >= 0;
    let e = Nz { ind: (m * ai + bi) as usize, val: F::smul(A[Ait as int].val, B[Bit as int].val) };
    kron_push(A, B, m as int, nzs@, sp, Ait as int, Bit as int, e); sp = sp.push((Ait as int, Bit as int)); }
@at loop 1 after
  proof { assert(kron_inv(A, B, m as int, nzs@, sp, Ait + 1, 0)); }
@at loop 0 after
  proof { kron_done(A, B, m as int, nzs@, sp); }
