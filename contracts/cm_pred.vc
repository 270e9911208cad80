@unit la
@uses sparse_vector sv_access cm_basic cm_add cm_cols
@rust
pub open spec fn nnzsum<F: Field>(c: Seq<SV<F>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { nnzsum(c, n - 1) + c[n - 1].indval@.len() } }
pub proof fn nnzsum_mono<F: Field>(c: Seq<SV<F>>, a: int, b: int) requires a <= b ensures nnzsum(c, a) <= nnzsum(c, b) decreases b - a { if a < b { nnzsum_mono(c, a, b - 1); } }
// strictly increasing indices below m: at most m of them
pub proof fn ssorted_ge<F: Field>(s: Seq<Nz<F>>, k: int) requires ssorted(s), 0 <= k < s.len() ensures s[k].ind >= k decreases k { if k > 0 { ssorted_ge(s, k - 1); assert(s[k - 1].ind < s[k].ind); } }
pub proof fn sc_len<F: Field>(s: Seq<Nz<F>>, m: int) requires sc(s, m), m >= 0 ensures s.len() <= m { if s.len() > 0 { ssorted_ge(s, s.len() - 1); assert(s[s.len() - 1].ind < m); } }
// an empty canonical vector is the zero vector, a stored entry a nonzero value
pub proof fn sc_some<F: Field>(s: Seq<Nz<F>>, m: int, k: int) requires sc(s, m), 0 <= k < s.len() ensures 0 <= s[k].ind < m, sval(s, s[k].ind as int) == s[k].val, s[k].val != F::szero() { sval_at(s, k); assert(s[k].ind < m); }
// columns 0..r hold exactly one entry each, in increasing rows; the others are zero
pub open spec fn el_form<F: Field>(A: CM<F>, r: int) -> bool {
    &&& 0 <= r <= A.n
    &&& forall|j: int| 0 <= j < r ==> (#[trigger] A.col@[j]).indval@.len() == 1
    &&& forall|j: int, k: int| 0 <= j < k < r ==> (#[trigger] A.col@[j]).indval@[0].ind < (#[trigger] A.col@[k]).indval@[0].ind
    &&& forall|j: int| r <= j < A.n ==> (#[trigger] A.col@[j]).indval@.len() == 0
}
pub open spec fn is_el<F: Field>(A: CM<F>) -> bool { exists|r: int| el_form(A, r) }
@end
@fn CM<F>::nnz() const as cm_nnz
@prop P06
@requires
  this.col@.len() == this.n, nnzsum(this.col@, this.n as int) <= usize::MAX
@ensures
  ret == nnzsum(this.col@, this.n as int)
@loop 0
  invariant 0 <= j <= this.n, this.col@.len() == this.n, ct == nnzsum(this.col@, j as int), nnzsum(this.col@, this.n as int) <= usize::MAX
  decreases this.n - j
@at loop 0 begin
  proof { nnzsum_mono(this.col@, j + 1, this.n as int); }
@fn CM<F>::is_zero() const as cm_is_zero
@prop P06
@requires
  cmwf(*this)
@ensures
  ret <==> forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n ==> #[trigger] cmv(*this, i, j) == F::szero()
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), forall|i: int, k: int| 0 <= i < this.m && 0 <= k < j ==> #[trigger] cmv(*this, i, k) == F::szero()
  decreases this.n - j
@at loop 0 begin
  proof { let s = this.col@[j as int].indval@; assert(sc(s, this.m as int)); if s.len() > 0 { sc_some(s, this.m as int, 0); assert(cmv(*this, s[0].ind as int, j as int) != F::szero()); } }
@fn CM<F>::is_upper() const as cm_is_upper
@prop P06
@requires
  cmwf(*this)
@ensures
  ret <==> forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n && i > j ==> #[trigger] cmv(*this, i, j) == F::szero()
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), forall|i: int, k: int| 0 <= i < this.m && 0 <= k < j && i > k ==> #[trigger] cmv(*this, i, k) == F::szero()
  decreases this.n - j
@at loop 0 begin
  proof { let s = this.col@[j as int].indval@; assert(sc(s, this.m as int)); ssorted_sdist(s); if s.len() > 0 { sc_some(s, this.m as int, s.len() - 1); assert(cmv(*this, s[s.len() - 1].ind as int, j as int) != F::szero()); }
    assert forall|i: int| 0 <= i < this.m && i > j && (s.len() == 0 || s[s.len() - 1].ind <= j) implies #[trigger] cmv(*this, i, j as int) == F::szero() by { let k = sval_find(s, i); if k != -1 { if k < s.len() - 1 { assert(s[k].ind < s[s.len() - 1].ind); } } } }
@fn CM<F>::is_upper_invert() const as cm_is_upper_invert
@prop P06
@requires
  cmwf(*this)
@ensures
  ret <==> trimat(true, *this)
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), this.m == this.n, forall|i: int, k: int| 0 <= i < this.m && 0 <= k < j && i > k ==> #[trigger] cmv(*this, i, k) == F::szero(), forall|k: int| 0 <= k < j ==> #[trigger] cmv(*this, k, k) != F::szero()
  decreases this.n - j
@at loop 0 begin
  proof { let s = this.col@[j as int].indval@; let jj = j as int; assert(sc(s, this.m as int)); ssorted_sdist(s); if s.len() > 0 { sc_some(s, this.m as int, s.len() - 1); let l = s[s.len() - 1].ind as int; assert(cmv(*this, l, jj) != F::szero());
       if l < j { sval_absent_above(s, jj); assert(cmv(*this, jj, jj) == F::szero()); } } else { assert(cmv(*this, jj, jj) == F::szero()); }
    assert forall|i: int| 0 <= i < this.m && i > j && (s.len() == 0 || s[s.len() - 1].ind <= j) implies #[trigger] cmv(*this, i, jj) == F::szero() by { sval_absent_above(s, i); } }
@fn CM<F>::is_lower() const as cm_is_lower
@prop P06
@requires
  cmwf(*this)
@ensures
  ret <==> forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n && i < j ==> #[trigger] cmv(*this, i, j) == F::szero()
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), forall|i: int, k: int| 0 <= i < this.m && 0 <= k < j && i < k ==> #[trigger] cmv(*this, i, k) == F::szero()
  decreases this.n - j
@at loop 0 begin
  proof { let s = this.col@[j as int].indval@; assert(sc(s, this.m as int)); ssorted_sdist(s); if s.len() > 0 { sc_some(s, this.m as int, 0); assert(cmv(*this, s[0].ind as int, j as int) != F::szero()); }
    assert forall|i: int| 0 <= i < this.m && i < j && (s.len() == 0 || s[0].ind >= j) implies #[trigger] cmv(*this, i, j as int) == F::szero() by { let k = sval_find(s, i); if k != -1 { if k > 0 { assert(s[0].ind < s[k].ind); } } } }
@fn CM<F>::is_pivot_matrix() const as cm_is_pivot_matrix
@prop P06
@requires
  cmwf(*this)
@ensures
  ret <==> (forall|j: int| 0 <= j < this.n ==> atmost1c(*this, j)) && (forall|i: int| 0 <= i < this.m ==> atmost1r(*this, i))
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), forall|k: int| 0 <= k < j ==> atmost1c(*this, k)
  decreases this.n - j
@at loop 0 begin
  proof { atmost1c_len(*this, j as int); }
@loop 1
  invariant 0 <= i <= this.m, is_transpose(row, *this), cmwf(*this), forall|k: int| 0 <= k < i ==> atmost1r(*this, k)
  decreases this.m - i
@at loop 1 begin
  proof { atmost1c_len(row, i as int); atmost1_t(row, *this, i as int); }
@rust
pub proof fn sval_absent_above<F: Field>(s: Seq<Nz<F>>, i: int) requires ssorted(s), s.len() > 0 ==> s[s.len() - 1].ind < i ensures sval(s, i) == F::szero()
{ assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ind as int != i by { if k < s.len() - 1 { assert(s[k].ind < s[s.len() - 1].ind); } } sval_absent(s, i); }
pub open spec fn atmost1c<F: Field>(A: CM<F>, j: int) -> bool { forall|i: int, k: int| 0 <= i < k < A.m && #[trigger] cmv(A, i, j) != F::szero() ==> #[trigger] cmv(A, k, j) == F::szero() }
pub open spec fn atmost1r<F: Field>(A: CM<F>, i: int) -> bool { forall|j: int, k: int| 0 <= j < k < A.n && #[trigger] cmv(A, i, j) != F::szero() ==> #[trigger] cmv(A, i, k) == F::szero() }
pub proof fn atmost1c_len<F: Field>(A: CM<F>, j: int) requires cmwf(A), 0 <= j < A.n ensures atmost1c(A, j) <==> A.col@[j].indval@.len() <= 1
{
    let s = A.col@[j].indval@; assert(sc(s, A.m as int)); ssorted_sdist(s);
    if s.len() > 1 { sc_some(s, A.m as int, 0); sc_some(s, A.m as int, 1); assert(s[0].ind < s[1].ind); assert(cmv(A, s[0].ind as int, j) != F::szero()); assert(cmv(A, s[1].ind as int, j) != F::szero()); }
    else { assert forall|i: int, k: int| 0 <= i < k < A.m && #[trigger] cmv(A, i, j) != F::szero() implies #[trigger] cmv(A, k, j) == F::szero() by { let a = sval_find(s, i); let b = sval_find(s, k); } }
}
pub proof fn atmost1_t<F: Field>(T: CM<F>, A: CM<F>, i: int) requires is_transpose(T, A), 0 <= i < A.m ensures atmost1c(T, i) <==> atmost1r(A, i)
{
    if atmost1c(T, i) { assert forall|j: int, k: int| 0 <= j < k < A.n && #[trigger] cmv(A, i, j) != F::szero() implies #[trigger] cmv(A, i, k) == F::szero() by { assert(cmv(T, j, i) != F::szero()); assert(cmv(T, k, i) == F::szero()); } }
    if atmost1r(A, i) { assert forall|j: int, k: int| 0 <= j < k < T.m && #[trigger] cmv(T, j, i) != F::szero() implies #[trigger] cmv(T, k, i) == F::szero() by { assert(cmv(A, i, j) != F::szero()); assert(cmv(A, i, k) == F::szero()); } }
}
@end
@rust
pub open spec fn el_pre<F: Field>(A: CM<F>, r: int) -> bool {
    &&& forall|j: int| 0 <= j < r ==> (#[trigger] A.col@[j]).indval@.len() == 1
    &&& forall|j: int, k: int| 0 <= j < k < r ==> (#[trigger] A.col@[j]).indval@[0].ind < (#[trigger] A.col@[k]).indval@[0].ind
}
@end
@fn CM<F>::is_EL() const as cm_is_el
@prop P06
@requires
  cmwf(*this), this.m <= i64::MAX
@ensures
  ret <==> is_el(*this)
@loop 0
  invariant_except_break el_pre(*this, j as int), i == (if j == 0 { -1 } else { this.col@[j - 1].indval@[0].ind as int })
  invariant 0 <= j <= this.n, cmwf(*this), this.m <= i64::MAX
  ensures (j == this.n && el_pre(*this, j as int)) || (j > 0 && el_pre(*this, j - 1) && this.col@[j - 1].indval@.len() == 0)
  decreases this.n - j
@at loop 0 begin
  proof { let s = this.col@[j as int].indval@; assert(sc(s, this.m as int)); sc_len(s, this.m as int); if s.len() > 0 { assert(s[0].ind < this.m); }
    if s.len() > 1 || (s.len() == 1 && j > 0 && s[0].ind <= i) { assert forall|r: int| !el_form(*this, r) by { if el_form(*this, r) { if r > j { if j > 0 { assert(this.col@[j - 1].indval@[0].ind < this.col@[j as int].indval@[0].ind); } } else { assert(this.col@[j as int].indval@.len() == 0); } } } } }
@at loop 1 before
  let ghost r = if j > 0 && this.col@[j - 1].indval@.len() == 0 { j - 1 } else { j as int };
@loop 1
  invariant 0 <= r <= j <= this.n, cmwf(*this), el_pre(*this, r), forall|k: int| r <= k < j ==> (#[trigger] this.col@[k]).indval@.len() == 0, r == this.n || this.col@[r].indval@.len() == 0
  decreases this.n - j
@at loop 1 begin
  proof { if this.col@[j as int].indval@.len() > 0 { assert forall|q: int| !el_form(*this, q) by { if el_form(*this, q) { if q <= j { assert(this.col@[j as int].indval@.len() == 0); } else if q > r { assert(this.col@[r].indval@.len() == 1); } } } } }
@at loop 1 after
  proof { assert(el_form(*this, r)); }
@fn CM<F>::is_EU() const as cm_is_eu
@prop P06
@requires
  cmwf(*this), this.n <= i64::MAX
@ensures
  exists|T: CM<F>| #[trigger] is_transpose(T, *this) && ret == is_el(T)
@fn CM<F>::is_EUhat() const as cm_is_euhat
@prop P06
@requires
  cmwf(*this), this.m <= i64::MAX
@ensures
  exists|T: CM<F>| #[trigger] is_jconj(T, *this) && ret == is_el(T)
@fn CM<F>::is_ELhat() const as cm_is_elhat
@prop P06
@requires
  cmwf(*this), this.n <= i64::MAX
@ensures
  exists|T: CM<F>, U: CM<F>| #[trigger] is_jconj(T, *this) && #[trigger] is_transpose(U, T) && ret == is_el(U)
