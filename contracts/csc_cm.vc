@unit la
@uses csc cm_basic
@rust
// column s is the list of the stored terms a..b, with the integer values taken into the field
pub open spec fn listed<F: Field>(s: Seq<Nz<F>>, r: Seq<usize>, v: Seq<i32>, a: int, b: int) -> bool { s.len() == b - a && forall|k: int| 0 <= k < b - a ==> (#[trigger] s[k]).ind == r[a + k] && s[k].val == F::sint(v[a + k] as int) }
pub proof fn listed_col<F: Field>(s: Seq<Nz<F>>, r: Seq<usize>, v: Seq<i32>, a: int, b: int, m: int)
    requires listed(s, r, v, a, b), rincr(r, a, b), a <= b, forall|k: int| a <= k < b ==> #[trigger] r[k] < m, forall|k: int| a <= k < b ==> F::sint(#[trigger] v[k] as int) != F::szero()
    ensures sc(s, m), forall|k: int| a <= k < b ==> sval(s, #[trigger] r[k] as int) == F::sint(v[k] as int), forall|i: int| (forall|k: int| a <= k < b ==> #[trigger] r[k] != i) ==> #[trigger] sval(s, i) == F::szero()
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).ind < (#[trigger] s[j]).ind by { assert(r[a + i] < r[a + j]); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).val != F::szero() && s[i].ind < m by { assert(F::sint(v[a + i] as int) != F::szero()); assert(r[a + i] < m); }
    assert forall|k: int| a <= k < b implies sval(s, #[trigger] r[k] as int) == F::sint(v[k] as int) by { assert(s[k - a].ind == r[a + (k - a)]); sval_at(s, k - a); }
    assert forall|i: int| (forall|k: int| a <= k < b ==> #[trigger] r[k] != i) implies #[trigger] sval(s, i) == F::szero() by { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ind as int != i by { assert(r[a + k] != i); } sval_absent(s, i); }
}
@end
@fn CM<F>::new(CSC<i32>) as cm_from_csc
@prop P15
@requires
  cok(*A), forall|k: int| 0 <= k < A.val@.len() ==> F::sint(#[trigger] A.val@[k] as int) != F::szero()
@ensures
  cmwf(ret), ret.m == A.m, ret.n == A.n,
  forall|j: int, k: int| 0 <= j < A.n && A.colptr@[j] <= k < A.colptr@[j + 1] ==> #[trigger] cmv(ret, A.rowind@[k] as int, j) == F::sint(A.val@[k] as int),
  forall|i: int, j: int| 0 <= j < A.n && (forall|k: int| A.colptr@[j] <= k < A.colptr@[j + 1] ==> #[trigger] A.rowind@[k] != i) ==> #[trigger] cmv(ret, i, j) == F::szero(),
@at entry
  proof { vec_max(A.colptr); vec_max(A.rowind); }
@loop 0
  invariant j <= this.n, this.n == A.n, this.m == A.m, cok(*A), A.n < i64::MAX, A.rowind@.len() <= i64::MAX, colptr@ == A.colptr@, rowind@ == A.rowind@, val@ == A.val@, rptr == 0, vptr == 0, this.col@.len() == j,
    forall|c: int| 0 <= c < j ==> listed((#[trigger] this.col@[c]).indval@, A.rowind@, A.val@, A.colptr@[c] as int, A.colptr@[c + 1] as int)
  decreases this.n - j
@at loop 0 begin
  proof { assert(A.colptr@[j as int] <= A.colptr@[j + 1]); assert(A.colptr@[j + 1] <= A.colptr@[A.n as int]); }
@loop 1
  invariant i <= n__3, j < A.n, A.rowind@.len() <= i64::MAX, A.rowind@.len() == A.val@.len(), n__3 == A.colptr@[j + 1] - A.colptr@[j as int], A.colptr@[j as int] <= A.colptr@[j + 1] <= A.rowind@.len(), rowind@ == A.rowind@, val@ == A.val@, indit__1 == A.colptr@[j as int] + i, valit__2 == indit__1,
     listed(obj__4.indval@, A.rowind@, A.val@, A.colptr@[j as int] as int, A.colptr@[j as int] + i)
  decreases n__3 - i
@at exit
  proof {
    assert forall|j: int| 0 <= j < A.n implies sc((#[trigger] this.col@[j]).indval@, A.m as int) && (forall|k: int| A.colptr@[j] <= k < A.colptr@[j + 1] ==> sval(this.col@[j].indval@, #[trigger] A.rowind@[k] as int) == F::sint(A.val@[k] as int)) && (forall|i: int| (forall|k: int| A.colptr@[j] <= k < A.colptr@[j + 1] ==> #[trigger] A.rowind@[k] != i) ==> #[trigger] sval(this.col@[j].indval@, i) == F::szero()) by {
      assert(ccol(A.colptr@, A.rowind@, j)); assert(A.colptr@[j] <= A.colptr@[j + 1]); assert(A.colptr@[j + 1] <= A.colptr@[A.n as int]);
      listed_col(this.col@[j].indval@, A.rowind@, A.val@, A.colptr@[j] as int, A.colptr@[j + 1] as int, A.m as int); } }
