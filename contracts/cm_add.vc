@unit la
@uses sparse_vector sv_access sv_arith sv_edit sv_edit2 cm_basic
@rust
pub proof fn sc_push<F: Field>(s: Seq<Nz<F>>, j: usize, v: F)
    requires sc(s, j as int), v != F::szero()
    ensures sc(s.push(Nz { ind: j, val: v }), j + 1)
{
    let t = s.push(Nz { ind: j, val: v });
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ind < (#[trigger] t[b]).ind by { if b < s.len() { assert(s[a].ind < s[b].ind); } else { assert(s[a].ind < j); } }
    assert forall|a: int| 0 <= a < t.len() implies (#[trigger] t[a]).val != F::szero() by { if a < s.len() { assert(s[a].val != F::szero()); } }
    assert forall|a: int| 0 <= a < t.len() implies (#[trigger] t[a]).ind < j + 1 by { if a < s.len() { assert(s[a].ind < j); } }
}
pub proof fn sc_mono<F: Field>(s: Seq<Nz<F>>, m: int, m2: int) requires sc(s, m), m <= m2 ensures sc(s, m2) {  assert forall|a: int| 0 <= a < s.len() implies (#[trigger] s[a]).ind < m2 by { assert(s[a].ind < m); } }
pub open spec fn pushnz<F: Field>(s: Seq<Nz<F>>, j: usize, v: F) -> Seq<Nz<F>> { if v == F::szero() { s } else { s.push(Nz { ind: j, val: v }) } }
pub proof fn pushnz_sc<F: Field>(s: Seq<Nz<F>>, j: usize, v: F)
    requires sc(s, j as int)
    ensures sc(pushnz(s, j, v), j + 1), forall|k: int| #[trigger] sval(pushnz(s, j, v), k) == if k == j { v } else { sval(s, k) }
{ broadcast use sv_basic; sval_out(s, j as int); if v == F::szero() { sc_mono(s, j as int, j + 1); } else { sc_push(s, j, v); } }
@end
@fn CM<F>::operator+(CM<F>) const as cm_plus
@prop P05
@requires
  cmwf(*this), cmwf(*B), this.m == B.m, this.n == B.n
@ensures
  cmwf(ret), ret.m == this.m, ret.n == this.n, forall|i: int, k: int| 0 <= k < this.n ==> #[trigger] cmv(ret, i, k) == F::sadd(cmv(*B, i, k), cmv(*this, i, k))
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), cmwf(*B), this.m == B.m, this.n == B.n, C.m == this.m, C.n == this.n, C.col@.len() == this.n,
    forall|k: int| j <= k < this.n ==> (#[trigger] C.col@[k]) == B.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] C.col@[k]).indval@, this.m as int),
    forall|i: int, k: int| 0 <= k < j ==> #[trigger] colv(C.col@, i, k) == F::sadd(cmv(*B, i, k), cmv(*this, i, k))
  decreases this.n - j
@at loop 0 begin
  let ghost old0 = C.col@;
  proof { assert(sc(this.col@[j as int].indval@, this.m as int)); assert(sc(B.col@[j as int].indval@, this.m as int)); sval_out(this.col@[j as int].indval@, this.m as int); sval_out(B.col@[j as int].indval@, this.m as int); }
@at loop 0 end
  proof { broadcast use field_basic; let x = C.col@[j as int].indval@; let bx = B.col@[j as int].indval@;
    assert forall|i: int| #[trigger] sval(x, i) == ({ let k = j as int; F::sadd(cmv(*B, i, k), cmv(*this, i, k)) }) by { assert(sval(bx, i) == sval(bx, i)); f_neg_one_mul(sval(bx, i)); }
    F::ax_add_neg(F::szero()); assert(F::sneg(F::szero()) == F::szero());
    assert forall|i: int| i >= this.m implies #[trigger] sval(x, i) == F::szero() by { assert(sval(bx, i) == F::szero() && sval(this.col@[j as int].indval@, i) == F::szero()); } sc_of(x, this.m as int);
    assert(C.col@ =~= old0.update(j as int, C.col@[j as int]));
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] C.col@[k]).indval@, this.m as int) by { if k < j { assert(C.col@[k] == old0[k]); } }
    assert forall|i: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(C.col@, i, k) == F::sadd(cmv(*B, i, k), cmv(*this, i, k)) by { if k < j { assert(C.col@[k] == old0[k]); assert(colv(old0, i, k) == F::sadd(cmv(*B, i, k), cmv(*this, i, k))); } } }
@fn CM<F>::operator-(CM<F>) const as cm_minus
@prop P05
@requires
  cmwf(*this), cmwf(*B), this.m == B.m, this.n == B.n
@ensures
  cmwf(ret), ret.m == this.m, ret.n == this.n, forall|i: int, k: int| 0 <= k < this.n ==> #[trigger] cmv(ret, i, k) == F::sadd(cmv(*this, i, k), F::sneg(cmv(*B, i, k)))
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), cmwf(*B), this.m == B.m, this.n == B.n, C.m == this.m, C.n == this.n, C.col@.len() == this.n,
    forall|k: int| j <= k < this.n ==> (#[trigger] C.col@[k]) == this.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] C.col@[k]).indval@, this.m as int),
    forall|i: int, k: int| 0 <= k < j ==> #[trigger] colv(C.col@, i, k) == F::sadd(cmv(*this, i, k), F::sneg(cmv(*B, i, k)))
  decreases this.n - j
@at loop 0 begin
  let ghost old0 = C.col@;
  proof { assert(sc(this.col@[j as int].indval@, this.m as int)); assert(sc(B.col@[j as int].indval@, this.m as int)); sval_out(this.col@[j as int].indval@, this.m as int); sval_out(B.col@[j as int].indval@, this.m as int); }
@at loop 0 end
  proof { broadcast use field_basic; let x = C.col@[j as int].indval@; let bx = B.col@[j as int].indval@;
    assert forall|i: int| #[trigger] sval(x, i) == ({ let k = j as int; F::sadd(cmv(*this, i, k), F::sneg(cmv(*B, i, k))) }) by { assert(sval(bx, i) == sval(bx, i)); f_neg_one_mul(sval(bx, i)); }
    F::ax_add_neg(F::szero()); assert(F::sneg(F::szero()) == F::szero());
    assert forall|i: int| i >= this.m implies #[trigger] sval(x, i) == F::szero() by { assert(sval(bx, i) == F::szero() && sval(this.col@[j as int].indval@, i) == F::szero()); } sc_of(x, this.m as int);
    assert(C.col@ =~= old0.update(j as int, C.col@[j as int]));
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] C.col@[k]).indval@, this.m as int) by { if k < j { assert(C.col@[k] == old0[k]); } }
    assert forall|i: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(C.col@, i, k) == F::sadd(cmv(*this, i, k), F::sneg(cmv(*B, i, k))) by { if k < j { assert(C.col@[k] == old0[k]); assert(colv(old0, i, k) == F::sadd(cmv(*this, i, k), F::sneg(cmv(*B, i, k)))); } } }
@fn CM<F>::operator+=(CM<F>) as cm_pluseq
@prop P05
@opt retthis=1
@requires
  cmwf(*old(this)), cmwf(*B), old(this).m == B.m, old(this).n == B.n
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == F::sadd(cmv(*old(this), l, k), cmv(*B, l, k)),
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), cmwf(*B), A.m == B.m, A.n == B.n,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == F::sadd(cmv(A, l, k), cmv(*B, l, k)),
  decreases A.n - j
@at loop 0 begin
  let ghost G0 = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@); assert(sc(B.col@[j as int].indval@, A.m as int)); sval_out(B.col@[j as int].indval@, A.m as int); }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= G0.col@.update(x, this.col@[x])); broadcast use field_basic; assert forall|l: int| l >= A.m implies #[trigger] sval(this.col@[x].indval@, l) == F::szero() by { assert(sval(B.col@[x].indval@, l) == F::szero()); assert(sval(A.col@[x].indval@, l) == F::szero()); } 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; F::sadd(cmv(A, l, k), cmv(*B, l, k)) }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == G0.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == F::sadd(cmv(A, l, k), cmv(*B, l, k)) by { if k < x { assert(this.col@[k] == G0.col@[k]); assert(colv(G0.col@, l, k) == F::sadd(cmv(A, l, k), cmv(*B, l, k))); } } }
@fn CM<F>::transpose() const as cm_transpose
@prop P05 P06
@opt rlimit=60
@requires
  cmwf(*this)
@ensures
  cmwf(ret), is_transpose(ret, *this), ret.m == this.n, ret.n == this.m, forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n ==> #[trigger] cmv(ret, j, i) == cmv(*this, i, j)
@loop 0
  invariant 0 <= j <= this.n, cmwf(*this), tcol@.len() == this.m,
    forall|r: int| 0 <= r < this.m ==> sc((#[trigger] tcol@[r]).indval@, j as int),
    forall|r: int, k: int| 0 <= r < this.m && 0 <= k < j ==> #[trigger] colv(tcol@, k, r) == cmv(*this, r, k)
  decreases this.n - j
@at loop 0 begin
  let ghost t0 = tcol@; let ghost x = this.col@[j as int].indval@;
  proof { assert(sc(x, this.m as int)); assert(x.take(0).len() == 0); }
@loop 1
  invariant 0 <= j < this.n, 0 <= it <= x.len(), cmwf(*this), tcol@.len() == this.m, x == this.col@[j as int].indval@, sc(x, this.m as int),
    forall|r: int| 0 <= r < this.m ==> (#[trigger] tcol@[r]).indval@ == pushnz(t0[r].indval@, j, sval(x.take(it as int), r))
  decreases x.len() - it
@at loop 1 begin
  let ghost t1 = tcol@;
  proof { sval_absent_prefix(x, it as int); sval_take(x, it as int); assert(x[it as int].val != F::szero()); }
@at loop 1 end
  proof { let r0 = x[it as int].ind as int; assert(tcol@ =~= t1.update(r0, tcol@[r0]));
    assert forall|r: int| 0 <= r < this.m implies (#[trigger] tcol@[r]).indval@ == pushnz(t0[r].indval@, j, sval(x.take(it + 1), r)) by { if r != r0 { assert(tcol@[r] == t1[r]); } else { assert(sval(x.take(it + 1), r) == x[it as int].val); assert(t1[r].indval@ == t0[r].indval@); assert(tcol@[r].indval@ == t1[r].indval@.push(Nz { ind: j, val: x[it as int].val })); } } }
@at loop 1 after
  proof { assert(x.take(x.len() as int) =~= x); 
    assert forall|r: int| 0 <= r < this.m implies sc((#[trigger] tcol@[r]).indval@, j + 1) by { pushnz_sc(t0[r].indval@, j, sval(x, r)); assert(sc(t0[r].indval@, j as int)); }
    assert forall|r: int, k: int| 0 <= r < this.m && 0 <= k < j + 1 implies #[trigger] colv(tcol@, k, r) == cmv(*this, r, k) by { pushnz_sc(t0[r].indval@, j, sval(x, r)); assert(tcol@[r].indval@ == pushnz(t0[r].indval@, j, sval(x, r))); if k < j { assert(colv(t0, k, r) == cmv(*this, r, k)); } } }
@fn CM<F>::T() const as cm_T
@prop P05 P06
@requires
  cmwf(*this)
@ensures
  cmwf(ret), is_transpose(ret, *this), ret.m == this.n, ret.n == this.m, forall|i: int, j: int| 0 <= i < this.m && 0 <= j < this.n ==> #[trigger] cmv(ret, j, i) == cmv(*this, i, j)
@fn CM<F>::mix_cols(usize, usize, F, F, F, F) as cm_mix_cols
@prop P05 P06
@requires
  cmwf(*old(this)), j < old(this).n, k < old(this).n, j != k
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|i: int, l: int| 0 <= l < old(this).n ==> #[trigger] cmv(*final(this), i, l) == (if l == j { F::sadd(F::smul(a, cmv(*old(this), i, j as int)), F::smul(c, cmv(*old(this), i, k as int))) } else if l == k { F::sadd(F::smul(b, cmv(*old(this), i, j as int)), F::smul(d, cmv(*old(this), i, k as int))) } else { cmv(*old(this), i, l) }),
@at entry
  let ghost A = *this; let ghost m = this.m as int;
  proof { assert(sc(A.col@[j as int].indval@, m)); assert(sc(A.col@[k as int].indval@, m)); sval_out(A.col@[j as int].indval@, m); sval_out(A.col@[k as int].indval@, m); }
@at exit
  proof { broadcast use field_basic; let x = this.col@[j as int].indval@; let y = this.col@[k as int].indval@; let aj = A.col@[j as int].indval@; let ak = A.col@[k as int].indval@;
    assert forall|i: int| #[trigger] sval(x, i) == F::sadd(F::smul(a, sval(aj, i)), F::smul(c, sval(ak, i))) by { F::ax_mul_comm(a, sval(aj, i)); }
    assert forall|i: int| #[trigger] sval(y, i) == F::sadd(F::smul(b, sval(aj, i)), F::smul(d, sval(ak, i))) by { F::ax_mul_comm(d, sval(ak, i)); F::ax_add_comm(F::smul(b, sval(aj, i)), F::smul(d, sval(ak, i))); }
    assert forall|i: int| i >= m implies #[trigger] sval(x, i) == F::szero() by { assert(sval(aj, i) == F::szero() && sval(ak, i) == F::szero()); } sc_of(x, m);
    assert forall|i: int| i >= m implies #[trigger] sval(y, i) == F::szero() by { assert(sval(aj, i) == F::szero() && sval(ak, i) == F::szero()); } sc_of(y, m);
    assert forall|l: int| 0 <= l < A.n && l != j && l != k implies #[trigger] this.col@[l] == A.col@[l] by { }
    assert forall|l: int| 0 <= l < A.n implies sc((#[trigger] this.col@[l]).indval@, m) by { if l != j && l != k { assert(this.col@[l] == A.col@[l]); } }
    assert forall|i: int, l: int| 0 <= l < A.n implies #[trigger] cmv(*this, i, l) == (if l == j { F::sadd(F::smul(a, cmv(A, i, j as int)), F::smul(c, cmv(A, i, k as int))) } else if l == k { F::sadd(F::smul(b, cmv(A, i, j as int)), F::smul(d, cmv(A, i, k as int))) } else { cmv(A, i, l) }) by { if l != j && l != k { assert(this.col@[l] == A.col@[l]); } } }
