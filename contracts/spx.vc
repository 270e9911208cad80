@unit util
@uses util sortp
@rust
// ---- SimplicialComplex: the cells of each dimension, their faces and signs, and the index of every simplex ----
// the k-th face in the order the boundary lists them, and its sign
pub open spec fn fi(M: Map<Seq<usize>, usize>, s: Seq<usize>, k: int) -> usize { M[s.remove(s.len() - 1 - k)] }
pub open spec fn sg(k: int) -> i32 { if k % 2 == 0 { -1i32 } else { 1i32 } }
// every face of s is in the complex
pub open spec fn fin(M: Map<Seq<usize>, usize>, s: Seq<usize>) -> bool { forall|k: int| 0 <= k < s.len() ==> M.dom().contains(#[trigger] s.remove(k)) }
pub open spec fn bd_by(M: Map<Seq<usize>, usize>, s: Seq<usize>, fs: Seq<usize>, cs: Seq<i32>, w: Seq<int>) -> bool {
    is_perm(w, s.len() as int) && forall|t: int| 0 <= t < s.len() ==> fs[t] == fi(M, s, #[trigger] w[t]) && cs[t] == sg(w[t])
}
// fs, cs list the faces of s with their signs, by increasing index
pub open spec fn cell_bd(M: Map<Seq<usize>, usize>, s: Seq<usize>, fs: Seq<usize>, cs: Seq<i32>) -> bool {
    fs.len() == s.len() && cs.len() == s.len() && fin(M, s) && nondecr_usize(fs) && exists|w: Seq<int>| #[trigger] bd_by(M, s, fs, cs, w)
}
pub open spec fn blk<T>(v: Seq<T>, w: int, i: int) -> Seq<T> { v.subrange(i * w, i * w + w) }
pub open spec fn cell(X: Spx, d: int, i: int) -> Seq<usize> { blk(X.spx@[d]@, d + 1, i) }
pub open spec fn nc(X: Spx, d: int) -> int { if 0 <= d < X._ncells@.len() { X._ncells@[d] as int } else { 0 } }
pub open spec fn at_idx(X: Spx, s: Seq<usize>) -> bool { s.len() <= X._ncells@.len() && X.spx_to_idx@[s] < X._ncells@[s.len() - 1] && cell(X, s.len() - 1, X.spx_to_idx@[s] as int) == s }
pub open spec fn cell_ok(X: Spx, d: int, i: int) -> bool {
    let c = cell(X, d, i);
    X.spx_to_idx@.dom().contains(c) && X.spx_to_idx@[c] == i && (d > 0 ==> cell_bd(X.spx_to_idx@, c, blk(X.faces@[d - 1]@, d + 1, i), blk(X.coeff@[d - 1]@, d + 1, i)))
}
pub open spec fn dims_ok(X: Spx) -> bool { let D = X._ncells@.len() as int;
    X.spx@.len() == D && X._reserved@.len() == D && X.faces@.len() == (if D > 0 { D - 1 } else { 0 }) && X.coeff@.len() == X.faces@.len()
}
pub open spec fn len_at(X: Spx, d: int) -> bool { X.spx@[d]@.len() == X._ncells@[d] * (d + 1) && (d > 0 ==> X.faces@[d - 1]@.len() == X._ncells@[d] * (d + 1) && X.coeff@[d - 1]@.len() == X._ncells@[d] * (d + 1)) }
pub open spec fn spx_wf(X: Spx) -> bool { let D = X._ncells@.len() as int;
    &&& dims_ok(X) && X.spx_to_idx@.dom().contains(Seq::<usize>::empty())
    &&& forall|d: int| 0 <= d < D ==> #[trigger] len_at(X, d)
    &&& forall|s: Seq<usize>| #[trigger] X.spx_to_idx@.dom().contains(s) && s.len() > 0 ==> at_idx(X, s)
    &&& forall|d: int, i: int| 0 <= d < D && 0 <= i < X._ncells@[d] ==> #[trigger] cell_ok(X, d, i)
}
impl Spx { pub open spec fn view(&self) -> Set<Seq<usize>> { self.spx_to_idx@.dom().remove(Seq::<usize>::empty()) } }
pub proof fn blk_bounds(i: int, n: int, w: int)
    requires 0 <= i < n, w > 0 ensures 0 <= i * w, i * w + w <= n * w
{ assert(0 <= i * w && i * w + w <= n * w) by (nonlinear_arith) requires 0 <= i < n, w > 0; }
pub proof fn blk_app<T>(v: Seq<T>, e: Seq<T>, w: int, n: int, i: int)
    requires v.len() == n * w, e.len() == w, w > 0, 0 <= i <= n
    ensures i < n ==> blk(v + e, w, i) == blk(v, w, i), i == n ==> blk(v + e, w, i) == e
{
    if i < n { blk_bounds(i, n, w); assert(blk(v + e, w, i) =~= blk(v, w, i)); }
    else { assert(blk(v + e, w, i) =~= e); }
}
pub proof fn fin_ext(M: Map<Seq<usize>, usize>, s: Seq<usize>, n: usize, c: Seq<usize>, fs: Seq<usize>, cs: Seq<i32>)
    requires cell_bd(M, c, fs, cs), !M.dom().contains(s) ensures cell_bd(M.insert(s, n), c, fs, cs)
{
    let N = M.insert(s, n);
    assert forall|k: int| 0 <= k < c.len() implies N.dom().contains(#[trigger] c.remove(k)) by { }
    let w = choose|w: Seq<int>| #[trigger] bd_by(M, c, fs, cs, w);
    assert forall|t: int| 0 <= t < c.len() implies fs[t] == fi(N, c, #[trigger] w[t]) && cs[t] == sg(w[t]) by { assert(M.dom().contains(c.remove(c.len() - 1 - w[t]))); }
    assert(bd_by(N, c, fs, cs, w));
}
// nothing the invariant speaks of has changed
pub open spec fn eqv(X: Spx, Y: Spx) -> bool {
    Y._ncells@ == X._ncells@ && Y._reserved@.len() == X._reserved@.len() && Y.spx_to_idx@ == X.spx_to_idx@ && Y.spx@.len() == X.spx@.len() && Y.faces@.len() == X.faces@.len() && Y.coeff@.len() == X.coeff@.len()
    && (forall|d: int| 0 <= d < X.spx@.len() ==> (#[trigger] Y.spx@[d])@ == X.spx@[d]@) && (forall|d: int| 0 <= d < X.faces@.len() ==> (#[trigger] Y.faces@[d])@ == X.faces@[d]@) && (forall|d: int| 0 <= d < X.coeff@.len() ==> (#[trigger] Y.coeff@[d])@ == X.coeff@[d]@)
}
pub proof fn wf_same(X: Spx, Y: Spx)
    requires spx_wf(X), eqv(X, Y) ensures spx_wf(Y)
{
    assert forall|d: int| 0 <= d < Y._ncells@.len() implies #[trigger] len_at(Y, d) by { assert(len_at(X, d)); }
    assert forall|s: Seq<usize>| #[trigger] Y.spx_to_idx@.dom().contains(s) && s.len() > 0 implies at_idx(Y, s) by { assert(at_idx(X, s)); }
    assert forall|d: int, i: int| 0 <= d < Y._ncells@.len() && 0 <= i < Y._ncells@[d] implies #[trigger] cell_ok(Y, d, i) by { assert(cell_ok(X, d, i)); }
}
// Y is X with room for more dimensions
pub open spec fn grows(X: Spx, Y: Spx, D: int) -> bool {
    Y._ncells@.len() == D && D >= X._ncells@.len() && dims_ok(Y) && Y.spx_to_idx@ == X.spx_to_idx@
    && (forall|d: int| 0 <= d < D ==> #[trigger] Y._ncells@[d] == if d < X._ncells@.len() { X._ncells@[d] } else { 0 })
    && (forall|d: int| 0 <= d < D ==> (#[trigger] Y.spx@[d])@ == if d < X.spx@.len() { X.spx@[d]@ } else { Seq::<usize>::empty() })
    && (forall|d: int| 0 <= d < D - 1 ==> (#[trigger] Y.faces@[d])@ == if d < X.faces@.len() { X.faces@[d]@ } else { Seq::<usize>::empty() })
    && (forall|d: int| 0 <= d < D - 1 ==> (#[trigger] Y.coeff@[d])@ == if d < X.coeff@.len() { X.coeff@[d]@ } else { Seq::<i32>::empty() })
}
pub proof fn wf_grows(X: Spx, Y: Spx, D: int)
    requires spx_wf(X), grows(X, Y, D) ensures spx_wf(Y)
{
    assert forall|d: int| 0 <= d < D implies #[trigger] len_at(Y, d) by { if d < X._ncells@.len() { assert(len_at(X, d)); } else { assert(0 * (d + 1) == 0) by (nonlinear_arith); } }
    assert forall|s: Seq<usize>| #[trigger] Y.spx_to_idx@.dom().contains(s) && s.len() > 0 implies at_idx(Y, s) by { assert(at_idx(X, s)); }
    assert forall|d: int, i: int| 0 <= d < D && 0 <= i < Y._ncells@[d] implies #[trigger] cell_ok(Y, d, i) by { assert(d < X._ncells@.len()); assert(cell_ok(X, d, i)); }
}
// Y is X with the simplex s as one more cell
pub open spec fn one_more(X: Spx, Y: Spx, s: Seq<usize>, fs: Seq<usize>, cs: Seq<i32>) -> bool { let d = s.len() - 1;
    0 <= d < X._ncells@.len() && dims_ok(Y) && Y._ncells@.len() == X._ncells@.len() && X._ncells@[d] < usize::MAX && Y._ncells@ == X._ncells@.update(d, (X._ncells@[d] + 1) as usize) && Y.spx_to_idx@ == X.spx_to_idx@.insert(s, X._ncells@[d])
    && Y.spx@[d]@ == X.spx@[d]@ + s && (d > 0 ==> Y.faces@[d - 1]@ == X.faces@[d - 1]@ + fs && Y.coeff@[d - 1]@ == X.coeff@[d - 1]@ + cs && cell_bd(X.spx_to_idx@, s, fs, cs))
    && (forall|e: int| 0 <= e < X.spx@.len() && e != d ==> (#[trigger] Y.spx@[e])@ == X.spx@[e]@) && (forall|e: int| 0 <= e < X.faces@.len() && e != d - 1 ==> (#[trigger] Y.faces@[e])@ == X.faces@[e]@) && (forall|e: int| 0 <= e < X.coeff@.len() && e != d - 1 ==> (#[trigger] Y.coeff@[e])@ == X.coeff@[e]@)
}
pub proof fn wf_more(X: Spx, Y: Spx, s: Seq<usize>, fs: Seq<usize>, cs: Seq<i32>)
    requires spx_wf(X), one_more(X, Y, s, fs, cs), !X.spx_to_idx@.dom().contains(s), s.len() > 0 ensures spx_wf(Y)
{
    let d0 = s.len() - 1; let n0 = X._ncells@[d0] as int; let M = X.spx_to_idx@; let N = Y.spx_to_idx@;
    assert(len_at(X, d0));
    assert((n0 + 1) * (d0 + 1) == n0 * (d0 + 1) + (d0 + 1)) by (nonlinear_arith);
    assert forall|d: int| 0 <= d < Y._ncells@.len() implies #[trigger] len_at(Y, d) by { assert(len_at(X, d)); }
    blk_app(X.spx@[d0]@, s, d0 + 1, n0, n0);
    assert forall|t: Seq<usize>| #[trigger] N.dom().contains(t) && t.len() > 0 implies at_idx(Y, t) by {
        if t != s { assert(M.dom().contains(t)); assert(at_idx(X, t)); if t.len() == s.len() { blk_app(X.spx@[d0]@, s, d0 + 1, n0, M[t] as int); } }
    }
    assert forall|d: int, i: int| 0 <= d < Y._ncells@.len() && 0 <= i < Y._ncells@[d] implies #[trigger] cell_ok(Y, d, i) by {
        if d == d0 {
            blk_app(X.spx@[d0]@, s, d0 + 1, n0, i);
            if d > 0 { blk_app(X.faces@[d0 - 1]@, fs, d0 + 1, n0, i); blk_app(X.coeff@[d0 - 1]@, cs, d0 + 1, n0, i); }
        }
        if d == d0 && i == n0 {
            if d > 0 { fin_ext(M, s, n0 as usize, s, fs, cs); }
        } else {
            assert(cell_ok(X, d, i)); let c = cell(X, d, i); assert(cell(Y, d, i) == c);
            if d > 0 { fin_ext(M, s, n0 as usize, c, blk(X.faces@[d - 1]@, d + 1, i), blk(X.coeff@[d - 1]@, d + 1, i)); }
        }
    }
}
// what adding s does: nothing when it is there or a face is missing, otherwise one more cell
pub open spec fn added(X: Spx, Y: Spx, s: Seq<usize>, r: CellInd) -> bool {
    let M = X.spx_to_idx@; let d = s.len() - 1;
    &&& r.dim == d
    &&& if M.dom().contains(s) { r.ind == M[s] && Y.spx_to_idx@ == M && forall|e: int| #[trigger] nc(Y, e) == nc(X, e) }
        else if fin(M, s) { r.ind != NO_IND && r.ind == nc(X, d) && Y.spx_to_idx@ == M.insert(s, r.ind) && forall|e: int| #[trigger] nc(Y, e) == nc(X, e) + if e == d { 1int } else { 0 } }
        else { r.ind == NO_IND && Y.spx_to_idx@ == M && forall|e: int| #[trigger] nc(Y, e) == nc(X, e) }
}
// with all its faces present, s is added
pub proof fn add_faces(X: Spx, Y: Spx, s: Seq<usize>, r: CellInd)
    requires spx_wf(X), added(X, Y, s, r), incr(s), s.len() > 0, faces_in(X@, s) ensures Y@ == X@.insert(s), r.ind != NO_IND
{
    let M = X.spx_to_idx@;
    assert forall|k: int| 0 <= k < s.len() implies M.dom().contains(#[trigger] s.remove(k)) by {
        let f = s.remove(k);
        if s.len() == 1 { assert(f =~= Seq::<usize>::empty()); }
        else {
            assert(incr(f)) by { assert forall|i: int, j: int| 0 <= i < j < f.len() implies #[trigger] f[i] < #[trigger] f[j] by { let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 }; assert(f[i] == s[a] && f[j] == s[b]); assert(s[a] < s[b]); } }
            assert forall|y: usize| #[trigger] cmem(f, y) <==> (cmem(s, y) && y != s[k]) by {
                if cmem(f, y) { let i = f.index_of(y); let a = if i < k { i } else { i + 1 }; assert(f[i] == s[a]); if a < k { assert(s[a] < s[k]); } else { assert(s[k] < s[a]); } }
                if cmem(s, y) && y != s[k] { let a = s.index_of(y); if a < k { assert(f[a] == y); } else { assert(f[a - 1] == y); } }
            }
            assert(isface(f, s, s[k])); assert(cmem(s, s[k])); assert(X@.contains(f));
        }
    }
    if M.dom().contains(s) { assert(at_idx(X, s)); }
    assert(Y@ =~= X@.insert(s));
}
pub proof fn incr_sorted(a: Seq<usize>, b: Seq<usize>)
    requires incr(a), nondecr_usize(b), a.to_multiset() == b.to_multiset() ensures a == b
{
    let leq = |x: usize, y: usize| x <= y;
    assert(vstd::relations::sorted_by(a, leq)); assert(vstd::relations::sorted_by(b, leq));
    vstd::seq_lib::lemma_sorted_unique(a, b, leq);
}
@end
@fn Spx::reserve(usize) as spx_reserve1
@prop P16 P17
@requires
  spx_wf(*old(this)), maxdim < usize::MAX
@ensures
  spx_wf(*final(this)), grows(*old(this), *final(this), if old(this)._ncells@.len() > maxdim { old(this)._ncells@.len() as int } else { maxdim + 1 }),
  final(this)._reserved@.len() == final(this)._ncells@.len(),
@at before return 0
  proof { wf_grows(*old(this), *this, this._ncells@.len() as int); }
@fn Spx::reserve(usize, usize) as spx_reserve2
@prop P16 P17
@requires
  spx_wf(*old(this)), dim < usize::MAX, k * (dim + 1) <= usize::MAX
@ensures
  spx_wf(*final(this)), grows(*old(this), *final(this), if old(this)._ncells@.len() > dim { old(this)._ncells@.len() as int } else { dim + 1 }),
@at before return 0
  proof { wf_grows(*old(this), *this, this._ncells@.len() as int); }
@at before return 1
  proof { wf_grows(*old(this), *this, this._ncells@.len() as int); }
@fn Spx::_add_unsafe(Vec<usize>) as spx_add_unsafe
@opt rlimit=200
@prop P16 P17 P12
@requires
  spx_wf(*old(this)), 0 < s@.len() <= old(this)._ncells@.len(), !old(this).spx_to_idx@.dom().contains(s@)
@ensures
  spx_wf(*final(this)), added(*old(this), *final(this), s@, ret), final(this)._ncells@.len() == old(this)._ncells@.len(),
@at entry
  let ghost X0 = *this; let ghost M0 = this.spx_to_idx@; let ghost d0 = (s@.len() - 1) as int; let ghost n0 = this._ncells@[d0] as int; let ghost W = s@.len() as int; let ghost B: int = n0 * W;
  let ghost F0 = if d0 > 0 { this.faces@[d0 - 1]@ } else { Seq::<usize>::empty() }; let ghost C0 = if d0 > 0 { this.coeff@[d0 - 1]@ } else { Seq::<i32>::empty() };
  let ghost fs0 = Seq::new(s@.len(), |t: int| fi(M0, s@, t)); let ghost cs0 = Seq::new(s@.len(), |t: int| sg(t));
  let ghost mut fs1: Seq<usize> = Seq::empty(); let ghost mut cs1: Seq<i32> = Seq::empty(); let ghost mut p0: Seq<usize> = Seq::empty();
  proof { assert(len_at(*this, d0)); assert(n0 <= n0 * W) by (nonlinear_arith) requires n0 >= 0, W >= 1; vec_max(this.spx@[d0]); assert((n0 + 1) * W == n0 * W + W) by (nonlinear_arith); assert(W * n0 == n0 * W && W * (n0 + 1) == (n0 + 1) * W) by (nonlinear_arith); }
@loop 0
  invariant k <= spx_len, spx_len == W, c == sg(k as int), old_size == F0.len(), C0.len() == F0.len(), dim == d0, d0 > 0, ind == n0,
    this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(),
    this.faces@[d0 - 1]@ == F0 + fs0.subrange(0, k as int), this.coeff@[d0 - 1]@ == C0 + cs0.subrange(0, k as int),
    forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@,
    forall|t: int| d0 - k < t <= d0 ==> M0.dom().contains(#[trigger] s@.remove(t)),
  decreases spx_len - k
@loop 1
  invariant j <= k2, this.__face@ == s@.subrange(0, j as int), this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(),
    this.faces@[d0 - 1]@ == F0 + fs0.subrange(0, k as int), this.coeff@[d0 - 1]@ == C0 + cs0.subrange(0, k as int),
    forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@,
  decreases k2 - j
@at loop 1 step
  proof { assert(this.__face@ =~= s@.subrange(0, j as int)); }
@loop 2
  invariant k2 + 1 <= j <= spx_len, this.__face@ == s@.subrange(0, k2 as int) + s@.subrange(k2 + 1, j as int), this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(),
    this.faces@[d0 - 1]@ == F0 + fs0.subrange(0, k as int), this.coeff@[d0 - 1]@ == C0 + cs0.subrange(0, k as int),
    forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@,
  decreases spx_len - j
@at loop 2 step
  proof { assert(this.__face@ =~= s@.subrange(0, k2 as int) + s@.subrange(k2 + 1, j as int)); }
@at loop 2 after
  proof { assert(this.__face@ =~= s@.remove(k2 as int)); if M0.dom().contains(s@.remove(k2 as int)) { assert(at_idx(X0, s@.remove(k2 as int))); } }
@at before return 0
  proof { assert(this.faces@[d0 - 1]@ =~= F0); assert(this.coeff@[d0 - 1]@ =~= C0); assert(this._ncells@ =~= X0._ncells@); assert(!M0.dom().contains(s@.remove(k2 as int))); wf_same(X0, *this); }
@at loop 0 step
  proof { assert(fs0.subrange(0, k as int) =~= fs0.subrange(0, k - 1).push(fs0[k - 1])); assert(cs0.subrange(0, k as int) =~= cs0.subrange(0, k - 1).push(cs0[k - 1])); assert(this.faces@[d0 - 1]@ =~= F0 + fs0.subrange(0, k as int)); assert(this.coeff@[d0 - 1]@ =~= C0 + cs0.subrange(0, k as int)); }
@at loop 0 after
  proof { assert(fs0.subrange(0, W) =~= fs0); assert(cs0.subrange(0, W) =~= cs0); assert forall|t: int| 0 <= t < s@.len() implies M0.dom().contains(#[trigger] s@.remove(t)) by { assert(d0 - W < t <= d0); } assert(fin(M0, s@)); vec_max(this.faces@[d0 - 1]); }
@at cmp 0 requires
  a < W, b < W
@at cmp 0 spec
  this.faces@[d0 - 1]@[B + a] < this.faces@[d0 - 1]@[B + b]
@at before sort 0
  let ghost s0 = this.__perm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, this.__perm@); p0 = this.__perm@; fs1 = Seq::new(W as nat, |t: int| fs0[p0[t] as int]); cs1 = Seq::new(W as nat, |t: int| cs0[p0[t] as int]);
    assert forall|i: int, j: int| 0 <= i <= j < fs1.len() implies #[trigger] fs1[i] <= #[trigger] fs1[j] by { if i < j { assert(!lt0(p0[j], p0[i])); } }
    let w = Seq::new(W as nat, |t: int| p0[t] as int); assert(bd_by(M0, s@, fs1, cs1, w)); assert(cell_bd(M0, s@, fs1, cs1)); }
@loop 3
  invariant i <= W, this.__perm@ == p0, this.__face@.len() == W, forall|t: int| 0 <= t < i ==> #[trigger] this.__face@[t] == fs1[t], this.faces@[d0 - 1]@ == F0 + fs0,
    dim == d0, d0 > 0, ind == n0, this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(), forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@, this.coeff@[d0 - 1]@ == C0 + cs0,
  decreases W - i
@loop 4
  invariant i <= W, this.__perm@ == p0, this.__face@ == fs1, this.faces@[d0 - 1]@.len() == F0.len() + W, forall|t: int| 0 <= t < F0.len() ==> #[trigger] this.faces@[d0 - 1]@[t] == F0[t], forall|t: int| F0.len() <= t < F0.len() + i ==> #[trigger] this.faces@[d0 - 1]@[t] == fs1[t - F0.len()],
    dim == d0, d0 > 0, ind == n0, this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(), forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@, this.coeff@[d0 - 1]@ == C0 + cs0,
  decreases W - i
@at loop 3 after
  proof { assert(this.__face@ =~= fs1); }
@at loop 4 after
  proof { assert(this.faces@[d0 - 1]@ =~= F0 + fs1); }
@loop 5
  invariant i <= W, this.__perm@ == p0, this.__tmpc@.len() == W, forall|t: int| 0 <= t < i ==> #[trigger] this.__tmpc@[t] == cs1[t], this.coeff@[d0 - 1]@ == C0 + cs0,
    dim == d0, d0 > 0, ind == n0, this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(), forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@, this.faces@[d0 - 1]@ == F0 + fs1,
  decreases W - i
@loop 6
  invariant i <= W, this.__perm@ == p0, this.__tmpc@ == cs1, this.coeff@[d0 - 1]@.len() == C0.len() + W, forall|t: int| 0 <= t < C0.len() ==> #[trigger] this.coeff@[d0 - 1]@[t] == C0[t], forall|t: int| C0.len() <= t < C0.len() + i ==> #[trigger] this.coeff@[d0 - 1]@[t] == cs1[t - C0.len()],
    dim == d0, d0 > 0, ind == n0, this.spx_to_idx@ == M0, this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx == X0.spx, this.faces@.len() == X0.faces@.len(), this.coeff@.len() == X0.coeff@.len(), forall|e: int| 0 <= e < X0.faces@.len() && e != d0 - 1 ==> (#[trigger] this.faces@[e])@ == X0.faces@[e]@, forall|e: int| 0 <= e < X0.coeff@.len() && e != d0 - 1 ==> (#[trigger] this.coeff@[e])@ == X0.coeff@[e]@, this.faces@[d0 - 1]@ == F0 + fs1,
  decreases W - i
@at loop 5 after
  proof { assert(this.__tmpc@ =~= cs1); }
@at loop 6 after
  proof { assert(this.coeff@[d0 - 1]@ =~= C0 + cs1); }
@at after if 0
  proof { if d0 == 0 { assert(s@.remove(0) =~= Seq::<usize>::empty()); assert(s@.drop_last() =~= Seq::<usize>::empty()); assert(fin(M0, s@)); } else { assert(s@.remove(d0) =~= s@.drop_last()); } }
@loop 7
  invariant ix7 <= s@.len(), dim == d0, ind == n0, this.spx_to_idx@ == M0.insert(s@, n0 as usize), this._ncells@ == X0._ncells@.update(d0, (n0 + 1) as usize), this._reserved == X0._reserved, this.spx@.len() == X0.spx@.len(),
    this.spx@[d0]@ == X0.spx@[d0]@ + s@.subrange(0, ix7 as int), forall|e: int| 0 <= e < X0.spx@.len() && e != d0 ==> (#[trigger] this.spx@[e])@ == X0.spx@[e]@,
  decreases s@.len() - ix7
@at loop 7 step
  proof { assert(this.spx@[d0]@ =~= X0.spx@[d0]@ + s@.subrange(0, ix7 as int)); }
@at before return 1
  proof { assert(s@.subrange(0, W) =~= s@); if d0 == 0 { assert(s@.remove(0) =~= Seq::<usize>::empty()); assert(fin(M0, s@)); } assert(one_more(X0, *this, s@, fs1, cs1)); wf_more(X0, *this, s@, fs1, cs1); vec_max(this.spx@[d0]); }
@fn Spx::add_directed_safe(Vec<usize>) as spx_add_dir
@prop P16 P17 P12
@requires
  spx_wf(*old(this)), s@.len() > 0
@ensures
  spx_wf(*final(this)), added(*old(this), *final(this), s@, ret),
@at after spx_reserve1 0
  let ghost X1 = *this;
  proof { vec_max(*s); assert forall|e: int| #[trigger] nc(X1, e) == nc(*old(this), e) by { if 0 <= e < X1._ncells@.len() { assert(X1._ncells@[e] == X1._ncells@[e]); } } if X1.spx_to_idx@.dom().contains(s@) { assert(at_idx(X1, s@)); } }
@fn Spx::add_safe(&mut Vec<usize>) as spx_add_safe
@prop P16 P17 P12
@requires
  spx_wf(*old(this)), old(s)@.len() > 0
@ensures
  spx_wf(*final(this)), added(*old(this), *final(this), final(s)@, ret), nondecr_usize(final(s)@), final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), incr(old(s)@) ==> final(s)@ == old(s)@,
@at before return 0
  proof { if incr(old(s)@) { incr_sorted(old(s)@, s@); } }
@fn Spx::add(&mut Vec<usize>) as spx_add
@prop P16 P17 P12
@requires
  spx_wf(*old(this)), old(s)@.len() > 0
@ensures
  spx_wf(*final(this)), added(*old(this), *final(this), final(s)@, ret), nondecr_usize(final(s)@), final(s)@.to_multiset() == old(s)@.to_multiset(), final(s)@.len() == old(s)@.len(), incr(old(s)@) ==> final(s)@ == old(s)@,
  incr(old(s)@) && faces_in(old(this)@, old(s)@) ==> final(this)@ == old(this)@.insert(old(s)@) && ret.ind != NO_IND,
@at after spx_add_safe 0
  proof { if incr(old(s)@) && faces_in(old(this)@, old(s)@) { add_faces(*old(this), *this, s@, r_spx_add_safe_0); } }
@fn Spx::new() as spx_new0
@prop P16 P17
@ensures
  spx_wf(ret), ret@ == Set::<Seq<usize>>::empty(), ret._ncells@.len() == 1, forall|d: int| #[trigger] nc(ret, d) == 0,
@at exit
  proof { assert forall|d: int| #[trigger] nc(this, d) == 0 by { if 0 <= d < this._ncells@.len() { assert(this._ncells@[d] == 0); } } assert(this@ =~= Set::<Seq<usize>>::empty()); }
@fn Spx::new(usize) as spx_new1
@prop P16 P17
@requires
  maxdim < usize::MAX
@ensures
  spx_wf(ret), ret@ == Set::<Seq<usize>>::empty(), ret._ncells@.len() == maxdim + 1, forall|d: int| #[trigger] nc(ret, d) == 0,
@at exit
  proof { assert forall|d: int| #[trigger] nc(this, d) == 0 by { if 0 <= d < this._ncells@.len() { assert(this._ncells@[d] == 0); } } assert(this@ =~= Set::<Seq<usize>>::empty()); }
@fn Spx::new(usize, usize) as spx_new2
@prop P16 P17
@requires
  maxdim < usize::MAX
@ensures
  spx_wf(ret), ret@ == Set::<Seq<usize>>::empty(), ret._ncells@.len() == maxdim + 1, forall|d: int| #[trigger] nc(ret, d) == 0,
@at exit
  proof { assert forall|d: int| #[trigger] nc(this, d) == 0 by { if 0 <= d < this._ncells@.len() { assert(this._ncells@[d] == 0); } } assert(this@ =~= Set::<Seq<usize>>::empty()); }
@fn Spx::new(Vec<usize>) as spx_new3
@prop P16 P17
@requires
  forall|d: int| 0 <= d < dim@.len() ==> #[trigger] dim@[d] * (d + 1) <= usize::MAX
@ensures
  spx_wf(ret), ret@ == Set::<Seq<usize>>::empty(), ret._ncells@.len() == dim@.len(), forall|d: int| #[trigger] nc(ret, d) == 0,
@loop 0
  invariant d <= dim@.len(), spx_wf(this), this._ncells@.len() == d, this.spx_to_idx@ == Map::<Seq<usize>, usize>::empty().insert(Seq::<usize>::empty(), 0usize), forall|e: int| 0 <= e < d ==> #[trigger] this._ncells@[e] == 0,
  decreases dim@.len() - d
@at exit
  proof { assert forall|d: int| #[trigger] nc(this, d) == 0 by { if 0 <= d < this._ncells@.len() { assert(this._ncells@[d] == 0); } } assert(this@ =~= Set::<Seq<usize>>::empty()); }
@fn Spx::find_idx(Vec<usize>) const as spx_find
@prop P16
@ensures
  ret == if this.spx_to_idx@.dom().contains(s@) { this.spx_to_idx@[s@] } else { NO_IND },
@fn Spx::maxdim() const as spx_maxdim
@prop P16
@requires
  this._ncells@.len() > 0
@ensures
  ret == this._ncells@.len() - 1,
@fn Spx::ncells(usize) const as spx_ncells
@prop P16
@ensures
  ret == nc(*this, k as int),
@fn Spx::get_simplex(usize, usize, &mut Vec<usize>) const as spx_get
@prop P16
@requires
  spx_wf(*this), dim < this._ncells@.len(), i < this._ncells@[dim as int]
@ensures
  final(s)@ == cell(*this, dim as int, i as int), this.spx_to_idx@.dom().contains(final(s)@), this.spx_to_idx@[final(s)@] == i,
@at entry
  proof { assert(len_at(*this, dim as int)); assert(cell_ok(*this, dim as int, i as int)); blk_bounds(i as int, this._ncells@[dim as int] as int, dim + 1); vec_max(this.spx@[dim as int]); assert((dim + 1) * i == i * (dim + 1) && (dim + 1) * (i + 1) == i * (dim + 1) + (dim + 1)) by (nonlinear_arith); assert(i < i * (dim + 1) + (dim + 1)) by (nonlinear_arith) requires i >= 0, dim >= 0; }
@loop 0
  invariant_except_break i * (dim + 1) <= it <= i * (dim + 1) + (dim + 1), s@ == this.spx@[dim as int]@.subrange(i * (dim + 1), it as int)
  ensures s@ == cell(*this, dim as int, i as int)
  decreases i * (dim + 1) + (dim + 1) - it
@at loop 0 end
  proof { assert(s@ =~= this.spx@[dim as int]@.subrange(i * (dim + 1), it + 1)); }
@fn Spx::get_simplex(usize, usize) const as spx_get1
@prop P16
@requires
  spx_wf(*this), dim < this._ncells@.len(), i < this._ncells@[dim as int]
@ensures
  ret@ == cell(*this, dim as int, i as int), this.spx_to_idx@.dom().contains(ret@), this.spx_to_idx@[ret@] == i,
@fn Spx::boundary(usize, usize) const as spx_boundary
@prop P16 P12
@requires
  spx_wf(*this), 0 < dim < this._ncells@.len(), k < this._ncells@[dim as int]
@ensures
  cell_bd(this.spx_to_idx@, cell(*this, dim as int, k as int), ret.0@, ret.1@),
@at entry
  proof { assert(len_at(*this, dim as int)); assert(cell_ok(*this, dim as int, k as int)); blk_bounds(k as int, this._ncells@[dim as int] as int, dim + 1); vec_max(this.spx@[dim as int]); assert((dim + 1) * k == k * (dim + 1)) by (nonlinear_arith); }
@loop 0
  invariant k * (dim + 1) <= i <= k * (dim + 1) + (dim + 1), ind@ == this.faces@[dim - 1]@.subrange(k * (dim + 1), i as int), val@ == this.coeff@[dim - 1]@.subrange(k * (dim + 1), i as int)
  decreases k * (dim + 1) + (dim + 1) - i
@at loop 0 step
  proof { assert(ind@ =~= this.faces@[dim - 1]@.subrange(k * (dim + 1), i as int)); assert(val@ =~= this.coeff@[dim - 1]@.subrange(k * (dim + 1), i as int)); }
@fn Filt::reserve(usize) as filt_res1
@prop P18 P17
@requires
  maxdim < usize::MAX
@ensures
  final(this).X == old(this).X, final(this).val@.len() == (if old(this).val@.len() > maxdim { old(this).val@.len() as int } else { maxdim + 1 }),
  forall|d: int| 0 <= d < final(this).val@.len() ==> (#[trigger] final(this).val@[d])@ == if d < old(this).val@.len() { old(this).val@[d]@ } else { Seq::<i32>::empty() },
@loop 0
  invariant this.X == old(this).X, this.val@.len() >= old(this).val@.len(), this.val@.len() <= maxdim + 1 || this.val@.len() == old(this).val@.len(),
    forall|d: int| 0 <= d < this.val@.len() ==> (#[trigger] this.val@[d])@ == if d < old(this).val@.len() { old(this).val@[d]@ } else { Seq::<i32>::empty() },
  decreases maxdim + 1 - this.val@.len()
@fn Filt::reserve(usize, usize) as filt_res2
@prop P18 P17
@requires
  dim < usize::MAX
@ensures
  final(this).X == old(this).X, final(this).val@.len() == (if old(this).val@.len() > dim { old(this).val@.len() as int } else { dim + 1 }),
  forall|d: int| #[trigger] vl(*final(this), d) == if d == dim && vl(*old(this), d) < n { n as int } else { vl(*old(this), d) },
  forall|d: int, i: int| 0 <= d < old(this).val@.len() && 0 <= i < old(this).val@[d]@.len() ==> #[trigger] final(this).val@[d]@[i] == old(this).val@[d]@[i],
@rust
// ---- Filtration: one value per cell ----
pub open spec fn vl(F: Filt, d: int) -> int { if 0 <= d < F.val@.len() { F.val@[d]@.len() as int } else { 0 } }
pub open spec fn filt_wf(F: Filt) -> bool { spx_wf(F.X) && forall|d: int| #[trigger] vl(F, d) == nc(F.X, d) }
// the value of every simplex
pub open spec fn vmap(F: Filt) -> Map<Seq<usize>, i32> { F.X.spx_to_idx@.remove(Seq::<usize>::empty()).map_entries(|s: Seq<usize>, i: usize| F.val@[s.len() - 1]@[i as int]) }
impl Filt { pub open spec fn view(&self) -> Map<Seq<usize>, i32> { vmap(*self) } }
@end
@fn Filt::new(Spx) as filt_new
@prop P18 P17
@requires
  spx_wf(*C), C._ncells@.len() > 0
@ensures
  filt_wf(ret), ret.X == *C, forall|s: Seq<usize>| #[trigger] ret@.dom().contains(s) <==> C@.contains(s), C@ == Set::<Seq<usize>>::empty() ==> ret@ == Map::<Seq<usize>, i32>::empty(),
@at exit
  proof { if C@ == Set::<Seq<usize>>::empty() { assert(this@ =~= Map::<Seq<usize>, i32>::empty()); } }
@at entry
  proof { vec_max(C._ncells); }
@loop 0
  invariant dim <= C._ncells@.len(), this.X == *C, forall|d: int| #[trigger] vl(this, d) == if d < dim { nc(*C, d) } else { 0 },
  decreases C._ncells@.len() - dim
@fn Filt::add(i32, &mut Vec<usize>) as filt_add
@prop P16 P18 P17 P12
@requires
  filt_wf(*old(this)), old(args)@.len() > 0
@ensures
  filt_wf(*final(this)), added(old(this).X, final(this).X, final(args)@, ret), nondecr_usize(final(args)@), final(args)@.to_multiset() == old(args)@.to_multiset(), final(args)@.len() == old(args)@.len(), incr(old(args)@) ==> final(args)@ == old(args)@,
  ret.ind == NO_IND ==> final(this)@ == old(this)@ && final(this).val == old(this).val,
  ret.ind != NO_IND ==> final(this)@ == old(this)@.insert(final(args)@, t),
  incr(old(args)@) && faces_in(old(this)@.dom(), old(args)@) ==> ret.ind != NO_IND,
@at after spx_add 0
  proof { if incr(old(args)@) && faces_in(old(this)@.dom(), old(args)@) { assert(old(this)@.dom() =~= old(this).X@); } }
@at before filt_res2 0
  proof { vec_max(*args); let s = args@; assert(this.X.spx_to_idx@.dom().contains(s)); assert(at_idx(this.X, s)); assert(nc(this.X, ret.dim as int) > ret.ind); assert(at_idx(this.X, s)); }
@at after filt_res2 0
  let ghost F1 = *this;
  proof { assert(vl(F1, ret.dim as int) > ret.ind); }
@at before return 0
  proof { lemma_filt_same(*old(this), *this, args@, ret); }
@at before return 1
  proof { assert forall|d: int| #[trigger] vl(*this, d) == vl(F1, d) by { }
    assert forall|d: int, i: int| 0 <= d < old(this).val@.len() && 0 <= i < old(this).val@[d]@.len() && !(d == ret.dim && i == ret.ind) implies #[trigger] this.val@[d]@[i] == old(this).val@[d]@[i] by { assert(vl(F1, d) >= vl(*old(this), d)); assert(F1.val@[d]@[i] == old(this).val@[d]@[i]); }
    lemma_filt_add(*old(this), *this, args@, ret, t); }
@rust
pub proof fn lemma_filt_same(F: Filt, G: Filt, s: Seq<usize>, r: CellInd)
    requires filt_wf(F), spx_wf(G.X), added(F.X, G.X, s, r), r.ind == NO_IND, G.val == F.val, s.len() > 0
    ensures filt_wf(G), G@ == F@
{
    if F.X.spx_to_idx@.dom().contains(s) { assert(at_idx(F.X, s)); }
    assert forall|d: int| #[trigger] vl(G, d) == nc(G.X, d) by { assert(vl(F, d) == nc(F.X, d)); }
    assert(G@ =~= F@);
}
// the values of the other simplices are kept
pub open spec fn val_set(F: Filt, G: Filt, r: CellInd, t: i32) -> bool {
    (forall|d: int| #[trigger] vl(G, d) == if d == r.dim && vl(F, d) < r.ind + 1 { r.ind + 1 } else { vl(F, d) }) && G.val@.len() > r.dim && G.val@[r.dim as int]@.len() > r.ind && G.val@[r.dim as int]@[r.ind as int] == t
    && forall|d: int, i: int| 0 <= d < F.val@.len() && 0 <= i < F.val@[d]@.len() && !(d == r.dim && i == r.ind) ==> #[trigger] G.val@[d]@[i] == F.val@[d]@[i]
}
pub proof fn lemma_filt_add(F: Filt, G: Filt, s: Seq<usize>, r: CellInd, t: i32)
    requires filt_wf(F), spx_wf(G.X), added(F.X, G.X, s, r), r.ind != NO_IND, val_set(F, G, r, t), s.len() > 0
    ensures filt_wf(G), G@ == F@.insert(s, t)
{
    let M = F.X.spx_to_idx@; let N = G.X.spx_to_idx@;
    if M.dom().contains(s) { assert(at_idx(F.X, s)); }
    assert(nc(G.X, s.len() - 1) >= 0);
    assert forall|d: int| #[trigger] vl(G, d) == nc(G.X, d) by { assert(vl(F, d) == nc(F.X, d)); }
    assert(N.dom().contains(s) && N[s] == r.ind);
    assert forall|x: Seq<usize>| #[trigger] G@.dom().contains(x) <==> F@.insert(s, t).dom().contains(x) by { }
    assert forall|x: Seq<usize>| #[trigger] G@.dom().contains(x) implies G@[x] == F@.insert(s, t)[x] by {
        if x != s { if x.len() == 0 { assert(x =~= Seq::<usize>::empty()); } assert(M.dom().contains(x)); assert(at_idx(F.X, x)); assert(N[x] == M[x]); let d = x.len() - 1; assert(vl(F, d) == nc(F.X, d));
            if d == r.dim && M[x] == r.ind { assert(at_idx(G.X, x)); assert(at_idx(G.X, s)); }
            assert(G.val@[d]@[M[x] as int] == F.val@[d]@[M[x] as int]); }
    }
    assert(G@ =~= F@.insert(s, t));
}
@end
