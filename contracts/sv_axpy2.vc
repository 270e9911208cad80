@unit la
@uses sparse_vector
@rust
// the entries of x with lo <= index < hi
pub open spec fn xin<F: Field>(x: Seq<Nz<F>>, lo: int, hi: int, i: int) -> F { if lo <= i < hi { sval(x, i) } else { F::szero() } }
// first position with index >= b
pub proof fn axr_pos<F>(x: Seq<Nz<F>>, b: int, from: int) -> (r: int)
    requires ssorted(x), 0 <= from <= x.len()
    ensures from <= r <= x.len(), forall|k: int| from <= k < r ==> (#[trigger] x[k]).ind < b, forall|k: int| r <= k < x.len() ==> (#[trigger] x[k]).ind >= b
    decreases x.len() - from
{ if from == x.len() { from } else if x[from].ind >= b { assert forall|k: int| from <= k < x.len() implies (#[trigger] x[k]).ind >= b by { if k > from { assert(x[from].ind < x[k].ind); } } from } else { axr_pos(x, b, from + 1) } }
pub proof fn axr_uniq<F>(x: Seq<Nz<F>>, b: int, r: int, s: int)
    requires 0 <= r <= x.len(), 0 <= s <= x.len(), forall|k: int| 0 <= k < r ==> (#[trigger] x[k]).ind < b, forall|k: int| r <= k < x.len() ==> (#[trigger] x[k]).ind >= b, forall|k: int| 0 <= k < s ==> (#[trigger] x[k]).ind < b, forall|k: int| s <= k < x.len() ==> (#[trigger] x[k]).ind >= b
    ensures r == s
{ if r < s { assert(x[r].ind < b); } if s < r { assert(x[s].ind < b); } }
pub proof fn axr_part<F: Field>(x: Seq<Nz<F>>, lo: int, hi: int, first: int, last: int)
    requires ssorted(x), 0 <= lo <= hi <= x.len(), forall|k: int| 0 <= k < lo ==> (#[trigger] x[k]).ind < first, forall|k: int| lo <= k < x.len() ==> (#[trigger] x[k]).ind >= first,
       forall|k: int| lo <= k < hi ==> (#[trigger] x[k]).ind < last, forall|k: int| hi <= k < x.len() ==> (#[trigger] x[k]).ind >= last
    ensures forall|i: int| #[trigger] sval(x.subrange(lo, hi), i) == xin(x, first, last, i)
{
    sval_part(x, lo, hi); ssorted_sdist(x); let p = x.subrange(lo, hi); ssorted_sdist(p);
    assert forall|i: int| #[trigger] sval(p, i) == xin(x, first, last, i) by { let k = sval_find(x, i); let l = sval_find(p, i); if l != -1 { assert(p[l] == x[lo + l]); assert(k == lo + l); } else if k != -1 { if lo <= k < hi { assert(p[k - lo] == x[k]); } } }
}
// coeff/inds form
pub open spec fn ctarget<F: Field>(y: Seq<Nz<F>>, x: Seq<Nz<F>>, coeff: Seq<F>, inds: Seq<usize>, i: int) -> F { F::sadd(sval(y, i), if 0 <= i < inds.len() { F::smul(coeff[i], sval(x, inds[i] as int)) } else { F::szero() }) }
pub open spec fn cinv<F: Field>(tmp: Seq<Nz<F>>, y: Seq<Nz<F>>, x: Seq<Nz<F>>, coeff: Seq<F>, inds: Seq<usize>, i1: int, i2: int, ii: int) -> bool {
    &&& 0 <= i1 <= y.len() && 0 <= i2 <= x.len() && 0 <= ii <= inds.len()
    &&& ssorted(tmp) && sbelow(tmp, ii)
    &&& forall|k: int| 0 <= k < i1 ==> (#[trigger] y[k]).ind < ii
    &&& forall|k: int| i1 <= k < y.len() ==> (#[trigger] y[k]).ind >= ii
    &&& forall|k: int, q: int| 0 <= k < i2 && ii <= q < inds.len() ==> (#[trigger] x[k]).ind < #[trigger] inds[q]
    &&& forall|k: int, q: int| i2 <= k < x.len() && 0 <= q < ii ==> (#[trigger] x[k]).ind > #[trigger] inds[q]
    &&& forall|i: int| 0 <= i < ii ==> #[trigger] sval(tmp, i) == ctarget(y, x, coeff, inds, i)
    &&& (snz(y) ==> snz(tmp))
}
pub open spec fn cpre<F>(x: Seq<Nz<F>>, inds: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < inds.len() ==> #[trigger] inds[i] < #[trigger] inds[j]
    &&& forall|k: int| 0 <= k < x.len() ==> (exists|q: int| 0 <= q < inds.len() && #[trigger] inds[q] == (#[trigger] x[k]).ind) || (forall|q: int| 0 <= q < inds.len() ==> #[trigger] inds[q] < x[k].ind)
}
pub proof fn cstep<F: Field>(tmp: Seq<Nz<F>>, y: Seq<Nz<F>>, x: Seq<Nz<F>>, coeff: Seq<F>, inds: Seq<usize>, i1: int, i2: int, ii: int)
    requires cinv(tmp, y, x, coeff, inds, i1, i2, ii), ssorted(y), ssorted(x), cpre(x, inds), ii < inds.len(), coeff.len() >= inds.len(), inds.len() <= usize::MAX
    ensures ({
        let hy = i1 < y.len() && y[i1].ind == ii; let hx = i2 < x.len() && x[i2].ind == inds[ii];
        let v = F::sadd(if hx { F::smul(coeff[ii], x[i2].val) } else { F::szero() }, if hy { y[i1].val } else { F::szero() });
        let j1 = if hy { i1 + 1 } else { i1 }; let j2 = if hx { i2 + 1 } else { i2 };
        (v == F::szero() ==> cinv(tmp, y, x, coeff, inds, j1, j2, ii + 1)) && (v != F::szero() ==> cinv(tmp.push(Nz { ind: ii as usize, val: v }), y, x, coeff, inds, j1, j2, ii + 1))
        && (!hx && hy ==> v == y[i1].val && cinv(tmp.push(y[i1]), y, x, coeff, inds, j1, j2, ii + 1)) && v == ctarget(y, x, coeff, inds, ii)
    }), i2 < x.len() ==> x[i2].ind >= inds[ii], i1 < y.len() ==> y[i1].ind >= ii
{
    broadcast use {field_basic, sv_basic};
    let hy = i1 < y.len() && y[i1].ind == ii; let hx = i2 < x.len() && x[i2].ind == inds[ii];
    let v = F::sadd(if hx { F::smul(coeff[ii], x[i2].val) } else { F::szero() }, if hy { y[i1].val } else { F::szero() });
    let j1 = if hy { i1 + 1 } else { i1 }; let j2 = if hx { i2 + 1 } else { i2 };
    ssorted_sdist(y); ssorted_sdist(x); let a = sval_find(y, ii); let b = sval_find(x, inds[ii] as int);
    if i2 < x.len() { if exists|q: int| 0 <= q < inds.len() && #[trigger] inds[q] == x[i2].ind { let q = choose|q: int| 0 <= q < inds.len() && #[trigger] inds[q] == x[i2].ind; if q < ii { assert(x[i2].ind > inds[q]); } if q > ii { assert(inds[ii] < inds[q]); } } else { assert(inds[ii] < x[i2].ind); } }
    if a != -1 { if a < i1 { assert(y[a].ind < ii); } else if a > i1 { assert(y[i1].ind < y[a].ind); } }
    if hy { assert(a == i1); }
    if b != -1 { if b < i2 { assert(x[b].ind < inds[ii]); } else if b > i2 { assert(x[i2].ind < x[b].ind); } }
    if hx { assert(b == i2); }
    assert(v == ctarget(y, x, coeff, inds, ii));
    sval_absent(tmp, ii);
    assert forall|k: int| 0 <= k < j1 implies (#[trigger] y[k]).ind < ii + 1 by { if k < i1 { assert(y[k].ind < ii); } }
    assert forall|k: int| j1 <= k < y.len() implies (#[trigger] y[k]).ind >= ii + 1 by { assert(y[k].ind >= ii); if k > i1 { assert(y[i1].ind < y[k].ind); } }
    assert forall|k: int, q: int| 0 <= k < j2 && ii + 1 <= q < inds.len() implies (#[trigger] x[k]).ind < #[trigger] inds[q] by { assert(inds[ii] < inds[q]); }
    assert forall|k: int, q: int| j2 <= k < x.len() && 0 <= q < ii + 1 implies (#[trigger] x[k]).ind > #[trigger] inds[q] by { if q == ii { if k > i2 { assert(x[i2].ind < x[k].ind); } } }
    assert forall|k: int| 0 <= k < tmp.len() implies (#[trigger] tmp[k]).ind < ii + 1 by { assert(tmp[k].ind < ii); }
    if hy { assert(snz(y) ==> y[i1].val != F::szero()); }
    let t2 = tmp.push(Nz { ind: ii as usize, val: v });
    assert forall|p: int, q: int| 0 <= p < q < t2.len() implies (#[trigger] t2[p]).ind < (#[trigger] t2[q]).ind by { if q < tmp.len() { assert(tmp[p].ind < tmp[q].ind); } else { assert(tmp[p].ind < ii); assert(ii < inds.len()); } }
    assert(sbelow(t2, ii + 1));
    if hy { assert(y[i1] == (Nz { ind: ii as usize, val: y[i1].val })); }
}
@end
@fn SV<F>::axpy(F, SV<F>, usize, usize, &mut Vec<Nz<F>>) as sv_axpy_range
@prop P03
@opt rlimit=60
@requires
  ssorted(old(this).indval@), ssorted(x.indval@)
@ensures
  ssorted(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == F::sadd(sval(old(this).indval@, i), F::smul(a, xin(x.indval@, firstind as int, lastind as int, i))),
  snz(old(this).indval@) && snz(x.indval@) ==> snz(final(this).indval@),
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@; let ghost X = x.indval@; let ghost mut lo: int = 0; let ghost mut hi: int = 0; let ghost mut P: Seq<Nz<F>> = Seq::empty();
  proof { assert(X.subrange(0, X.len() as int) =~= X); 
    // the part of x in range
    lo = axr_pos(X, firstind as int, 0); hi = axr_pos(X, lastind as int, lo); P = X.subrange(lo, hi); sval_part(X, lo, hi); axr_part(X, lo, hi, firstind as int, lastind as int); }
@at before return 1
  proof { axr_uniq(X, firstind as int, lo, i2 as int); if hi > lo { assert(X[lo].ind < lastind); } assert(hi == lo); assert(P =~= Seq::<Nz<F>>::empty()); assert forall|i: int| #[trigger] sval(y, i) == F::sadd(sval(y, i), F::smul(a, xin(X, firstind as int, lastind as int, i))) by { assert(sval(P, i) == F::szero()); } }
@at loop 0 before
  proof { axr_uniq(X, firstind as int, lo, i2 as int); axpy_start(y, P, a); }
@loop 0
  invariant lo <= i2 <= hi, axpy_inv(tmp@, y, P, a, i1 as int, i2 - lo), this.indval@ == y,
  decreases y.len() - i1 + hi - i2
@at loop 0 begin
  proof { assert(i2 < hi); assert(P[i2 - lo] == X[i2 as int]); axpy_step(tmp@, y, P, a, i1 as int, i2 - lo); }
@loop 1
  invariant lo <= i2 <= hi, axpy_inv(tmp@, y, P, a, i1 as int, i2 - lo), this.indval@ == y, i1 == y.len() || i2 == hi,
  decreases y.len() - i1
@at loop 1 begin
  proof { axpy_step(tmp@, y, P, a, i1 as int, i2 - lo); }
@loop 2
  invariant lo <= i2 <= hi, axpy_inv(tmp@, y, P, a, i1 as int, i2 - lo), this.indval@ == y, i1 == y.len(),
  decreases hi - i2
@at loop 2 begin
  proof { assert(i2 < hi); assert(P[i2 - lo] == X[i2 as int]); axpy_step(tmp@, y, P, a, i1 as int, i2 - lo); }
@at loop 2 after
  proof { assert(i2 == hi); axpy_done(tmp@, y, P, a); assert(snz(X) ==> snz(P)); assert(forall|i: int| #[trigger] sval(P, i) == xin(X, firstind as int, lastind as int, i)); }
@fn SV<F>::axpy(SV<F>, Vec<F>, Vec<usize>, &mut Vec<Nz<F>>) as sv_axpy_coeff
@prop P03
@requires
  ssorted(old(this).indval@), ssorted(x.indval@), coeff@.len() >= inds@.len(), cpre(x.indval@, inds@)
@ensures
  ssorted(final(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == ctarget(old(this).indval@, x.indval@, coeff@, inds@, i),
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@; let ghost X = x.indval@;
@loop 0
  invariant cinv(tmp@, y, X, coeff@, inds@, i1 as int, i2 as int, ii as int), this.indval@ == y
  decreases inds@.len() - ii
@at loop 0 begin
  proof { assert(inds.len() == inds@.len()); cstep(tmp@, y, X, coeff@, inds@, i1 as int, i2 as int, ii as int); }
@at loop 0 after
  let ghost T = tmp@; let ghost I1 = i1 as int;
  proof { assert(y.take(I1).len() == I1); assert forall|i: int| !(0 <= i < ii) implies #[trigger] sval(y.take(I1), i) == F::szero() && sval(T, i) == F::szero() by { assert forall|k: int| 0 <= k < I1 implies (#[trigger] y.take(I1)[k]).ind as int != i by { assert(y.take(I1)[k] == y[k]); } sval_absent(y.take(I1), i); sval_absent(T, i); } 
    if snz(y) { }  }
@loop 1
  invariant I1 <= i1 <= y.len(), this.indval@ == y, ssorted(tmp@), snz(y) ==> snz(tmp@), i1 == I1 ==> tmp@ == T,
    forall|p: int, q: int| 0 <= p < tmp@.len() && i1 <= q < y.len() ==> (#[trigger] tmp@[p]).ind < (#[trigger] y[q]).ind,
    forall|i: int| #[trigger] sval(tmp@, i) == if 0 <= i < ii { ctarget(y, X, coeff@, inds@, i) } else { sval(y.take(i1 as int), i) },
  decreases y.len() - i1
@at loop 1 begin
  proof { sval_take(y, i1 as int); assert(y[i1 as int].ind >= ii); }
@at loop 1 after
  proof { assert(y.take(y.len() as int) =~= y); }
@loop 2
  invariant I1 <= i1, i1 == y.len(), this.indval@ == y, i2 <= X.len(), ii <= inds@.len(), ssorted(tmp@), snz(y) ==> snz(tmp@),
    (i2 < X.len() && ii < inds@.len()) ==> I1 == y.len(), I1 == y.len() ==> cinv(tmp@, y, X, coeff@, inds@, i1 as int, i2 as int, ii as int),
    I1 < y.len() ==> i2 == X.len() || ii == inds@.len(),
    i2 == X.len() || ii == inds@.len() ==> (forall|k: int, q: int| 0 <= k < i2 && ii <= q < inds@.len() ==> (#[trigger] X[k]).ind < #[trigger] inds@[q]),
    forall|i: int| #[trigger] sval(tmp@, i) == if 0 <= i < ii { ctarget(y, X, coeff@, inds@, i) } else { sval(y, i) },
  decreases inds@.len() - ii
@at loop 2 begin
  proof { assert(inds.len() == inds@.len()); cstep(tmp@, y, X, coeff@, inds@, i1 as int, i2 as int, ii as int); }
@at loop 2 end
  proof { assert forall|i: int| #[trigger] sval(tmp@, i) == if 0 <= i < ii { ctarget(y, X, coeff@, inds@, i) } else { sval(y, i) } by { if !(0 <= i < ii) { sval_absent(tmp@, i); sval_absent(y, i); } } }
@at loop 2 after
  proof { assert forall|i: int| #[trigger] sval(tmp@, i) == ctarget(y, X, coeff@, inds@, i) by { if ii <= i < inds@.len() { assert(i2 == X.len()); assert forall|k: int| 0 <= k < X.len() implies (#[trigger] X[k]).ind as int != inds@[i] as int by { } sval_absent(X, inds@[i] as int); } } }
