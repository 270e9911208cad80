@unit la
@fn Nz<F>::new(usize, F) as nz_new
@ensures
  ret.ind == ind, ret.val == val
@fn Nz<F>::new() as nz_new0
@ensures
  ret.val == F::szero()
@fn Nz<F>::operator!=(Nz<F>) const as nz_ne
@prop P03
@ensures
  ret == (this.ind != other.ind || this.val != other.val)
@fn operator<(Nz<F>, Nz<F>) as nz_lt
@prop P04
@ensures
  ret == (a.ind < b.ind)
@fn SV<F>::new() as sv_new
@ensures
  ret.indval@.len() == 0
@fn SV<F>::new(Vec<Nz<F>>) as sv_from
@ensures
  ret.indval@ == indval@
@fn SV<F>::nnz() const as sv_nnz
@prop P03
@ensures
  ret == this.indval@.len()
@fn SV<F>::sort() as sv_sort
@prop P04
@requires
  sdist(old(this).indval@)
@ensures
  ssorted(final(this).indval@), sameval(final(this).indval@, old(this).indval@), snz(old(this).indval@) ==> snz(final(this).indval@),
  final(this).indval@.len() == old(this).indval@.len(), forall|m: int| sbelow(old(this).indval@, m) ==> #[trigger] sbelow(final(this).indval@, m)
@at after sort 0
  proof { rearr_sval(old(this).indval@, this.indval@); }
