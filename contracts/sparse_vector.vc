@unit la
@rust
// all stored indices of s[0..k) are below all of t[l..)
pub open spec fn below<F>(s: Seq<Nz<F>>, k: int, t: Seq<Nz<F>>, l: int) -> bool {
    forall|p: int, q: int| 0 <= p < k && l <= q < t.len() ==> (#[trigger] s[p]).ind < (#[trigger] t[q]).ind
}
pub open spec fn axpy_inv<F: Field>(tmp: Seq<Nz<F>>, y: Seq<Nz<F>>, x: Seq<Nz<F>>, a: F, i1: int, i2: int) -> bool {
    &&& 0 <= i1 <= y.len() && 0 <= i2 <= x.len()
    &&& ssorted(tmp) && ssorted(x) && ssorted(y)
    &&& below(y, i1, x, i2) && below(x, i2, y, i1)
    &&& below(tmp, tmp.len() as int, y, i1) && below(tmp, tmp.len() as int, x, i2)
    &&& forall|i: int| #[trigger] sval(tmp, i) == F::sadd(sval(y.take(i1), i), F::smul(a, sval(x.take(i2), i)))
    &&& (snz(y) && snz(x) ==> snz(tmp))
}
pub proof fn sval_take_absent<F: Field>(s: Seq<Nz<F>>, k: int, i: int)
    requires 0 <= k <= s.len(), forall|p: int| 0 <= p < k ==> (#[trigger] s[p]).ind as int != i
    ensures sval(s.take(k), i) == F::szero()
{ assert forall|j: int| 0 <= j < s.take(k).len() implies (#[trigger] s.take(k)[j]).ind as int != i by { assert(s.take(k)[j] == s[j]); } sval_absent(s.take(k), i); }
pub proof fn axpy_start<F: Field>(y: Seq<Nz<F>>, x: Seq<Nz<F>>, a: F)
    requires ssorted(y), ssorted(x)
    ensures axpy_inv(Seq::<Nz<F>>::empty(), y, x, a, 0, 0)
{ broadcast use {field_basic, sv_basic}; }
pub proof fn axpy_done<F: Field>(tmp: Seq<Nz<F>>, y: Seq<Nz<F>>, x: Seq<Nz<F>>, a: F)
    requires axpy_inv(tmp, y, x, a, y.len() as int, x.len() as int)
    ensures forall|i: int| #[trigger] sval(tmp, i) == F::sadd(sval(y, i), F::smul(a, sval(x, i)))
{ assert(y.take(y.len() as int) =~= y); assert(x.take(x.len() as int) =~= x); }
// facts used when one position of y (and/or of x) is consumed
pub proof fn axpy_step<F: Field>(tmp: Seq<Nz<F>>, y: Seq<Nz<F>>, x: Seq<Nz<F>>, a: F, i1: int, i2: int)
    requires axpy_inv(tmp, y, x, a, i1, i2), a != F::szero()
    ensures
        i1 < y.len() && (i2 >= x.len() || y[i1].ind < x[i2].ind) ==> axpy_inv(tmp.push(y[i1]), y, x, a, i1 + 1, i2),
        i2 < x.len() && (i1 >= y.len() || x[i2].ind < y[i1].ind) ==> axpy_inv(tmp.push(Nz { ind: x[i2].ind, val: F::smul(a, x[i2].val) }), y, x, a, i1, i2 + 1),
        i1 < y.len() && i2 < x.len() && y[i1].ind == x[i2].ind ==> ({
            let v = F::sadd(F::smul(a, x[i2].val), y[i1].val);
            if v == F::szero() { axpy_inv(tmp, y, x, a, i1 + 1, i2 + 1) } else { axpy_inv(tmp.push(Nz { ind: y[i1].ind, val: v }), y, x, a, i1 + 1, i2 + 1) }
        }),
{
    broadcast use {field_basic, sv_basic};
    if i1 < y.len() { sval_take(y, i1); sval_take_absent(y, i1, y[i1].ind as int); 
        if i2 >= x.len() || y[i1].ind <= x[i2].ind { sval_take_absent(x, i2, y[i1].ind as int); } }
    if i2 < x.len() { sval_take(x, i2); sval_take_absent(x, i2, x[i2].ind as int);
        if i1 >= y.len() || x[i2].ind <= y[i1].ind { sval_take_absent(y, i1, x[i2].ind as int); } }
    if i1 < y.len() { sval_take_absent(tmp, tmp.len() as int, y[i1].ind as int); assert(tmp.take(tmp.len() as int) =~= tmp); }
    if i2 < x.len() { sval_take_absent(tmp, tmp.len() as int, x[i2].ind as int); assert(tmp.take(tmp.len() as int) =~= tmp); }
}
@end
@fn SV<F>::axpy(F, SV<F>, &mut Vec<Nz<F>>) as sv_axpy_tmp
@prop P03
@requires
  ssorted(old(this).indval@), ssorted(x.indval@)
@ensures
  ssorted(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == F::sadd(sval(old(this).indval@, i), F::smul(a, sval(x.indval@, i))),
  snz(old(this).indval@) && snz(x.indval@) ==> snz(final(this).indval@),
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@;
  let ghost X = x.indval@;
  proof { axpy_start(y, X, a); }
@loop 0
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y,
  decreases y.len() - i1 + X.len() - i2
@at loop 0 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@loop 1
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y, i1 == y.len() || i2 == X.len(),
  decreases y.len() - i1
@at loop 1 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@loop 2
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y, i1 == y.len(),
  decreases X.len() - i2
@at loop 2 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@at loop 2 after
  proof { axpy_done(tmp@, y, X, a); }
@fn SV<F>::axpy(F, SV<F>) as sv_axpy
@prop P03
@requires
  ssorted(old(this).indval@), ssorted(x.indval@)
@ensures
  ssorted(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == F::sadd(sval(old(this).indval@, i), F::smul(a, sval(x.indval@, i))),
  snz(old(this).indval@) && snz(x.indval@) ==> snz(final(this).indval@),
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@;
  let ghost X = x.indval@;
  proof { axpy_start(y, X, a); }
@loop 0
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y,
  decreases y.len() - i1 + X.len() - i2
@at loop 0 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@loop 1
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y, i1 == y.len() || i2 == X.len(),
  decreases y.len() - i1
@at loop 1 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@loop 2
  invariant axpy_inv(tmp@, y, X, a, i1 as int, i2 as int), this.indval@ == y, i1 == y.len(),
  decreases X.len() - i2
@at loop 2 begin
  proof { axpy_step(tmp@, y, X, a, i1 as int, i2 as int); }
@at loop 2 after
  proof { axpy_done(tmp@, y, X, a); }
@fn SV<F>::clear_zeros() as sv_clear_zeros
@prop P03
@requires
  ssorted(old(this).indval@)
@ensures
  ssorted(final(this).indval@), snz(final(this).indval@),
  forall|i: int| #[trigger] sval(final(this).indval@, i) == sval(old(this).indval@, i),
@at entry
  broadcast use {field_basic, sv_basic};
  let ghost y = this.indval@;
@loop 0
  invariant
    ix0 <= y.len(), this.indval@ == y,
    ssorted(indval2@), snz(indval2@),
    forall|k: int, l: int| 0 <= k < indval2.len() && ix0 <= l < y.len() ==> (#[trigger] indval2@[k]).ind < (#[trigger] y[l]).ind,
    forall|i: int| #[trigger] sval(indval2@, i) == sval(y.take(ix0 as int), i),
  decreases y.len() - ix0
@at loop 0 begin
  proof { sval_take(y, ix0 as int); if ssorted(y) { sval_absent_prefix(y, ix0 as int); } }
@at loop 0 after
  proof { assert(y.take(ix0 as int) =~= y); }
