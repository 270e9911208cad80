@unit la
@uses sv_edit
@rust
@end
@fn CM<F>::nrow() const as cm_nrow
@prop P05 P06
@ensures
  ret == this.m
@fn CM<F>::ncol() const as cm_ncol
@prop P05 P06
@ensures
  ret == this.n
@fn CM<F>::new() as cm_new
@prop P05 P06
@ensures
  cmwf(ret), ret.m == 0, ret.n == 0
@fn CM<F>::new(usize, usize) as cm_zero
@prop P05 P06
@ensures
  cmwf(ret), ret.m == m, ret.n == n, forall|i: int, j: int| 0 <= j < n ==> #[trigger] cmv(ret, i, j) == F::szero()
@at exit
  proof { assert forall|j: int| 0 <= j < n implies sc((#[trigger] this.col@[j]).indval@, m as int) by { } }
@fn CM<F>::new(usize, usize, F) as cm_dense
@prop P05 P06
@ensures
  ret.m == _m, ret.n == _n, ret.col@.len() == _n, a != F::szero() ==> cmwf(ret), forall|i: int, j: int| 0 <= i < _m && 0 <= j < _n ==> #[trigger] cmv(ret, i, j) == a
@fn CM<F>::new(Vec<SV<F>>) as cm_of_cols
@prop P05 P06
@ensures
  ret.m == 0, ret.n == _col@.len(), ret.col@ == _col@
@fn CM<F>::new(usize, usize, Vec<SV<F>>) as cm_make
@prop P05 P06
@ensures
  ret.m == _m, ret.n == _n, ret.col@ == _col@
@fn CM<F>::set_nrow(usize) as cm_set_nrow
@prop P05 P06
@ensures
  final(this).m == mnew, final(this).n == old(this).n, final(this).col@ == old(this).col@
@fn CM<F>::getval(usize, usize) const as cm_getval
@prop P05 P06
@requires
  cmwf(*this), j < this.n
@ensures
  ret == cmv(*this, i as int, j as int)
@fn CM<F>::operator()(usize, usize) const as cm_call
@prop P05 P06
@requires
  cmwf(*this), j < this.n
@ensures
  ret == cmv(*this, i as int, j as int)
@fn CM<F>::permute_rows(Vec<usize>) as cm_permute_rows
@prop P06
@requires
  cmwf(*old(this)), rowperm@.len() == old(this).m, isperm_usize(rowperm@)
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|i: int, j: int| 0 <= i < old(this).m && 0 <= j < old(this).n ==> cmv(*final(this), rowperm@[i] as int, j) == #[trigger] cmv(*old(this), i, j),
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), rowperm@.len() == A.m, isperm_usize(rowperm@),
    forall|k: int| i <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < i ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= l < A.m && 0 <= k < i ==> cmv(*this, rowperm@[l] as int, k) == #[trigger] cmv(A, l, k),
  decreases A.n - i
@at loop 0 begin
  let ghost B = *this;
  proof { assert(sc(A.col@[i as int].indval@, A.m as int)); ssorted_sdist(A.col@[i as int].indval@); }
@at loop 0 end
  proof { let x = i as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); assert(sbelow(this.col@[x].indval@, A.m as int));
    assert forall|k: int| 0 <= k < i + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= l < A.m && 0 <= k < i + 1 implies cmv(*this, rowperm@[l] as int, k) == #[trigger] cmv(A, l, k) by {
      if k < i { assert(this.col@[k] == B.col@[k]); assert(cmv(B, rowperm@[l] as int, k) == cmv(A, l, k)); } } }
@fn CM<F>::ipermute_rows(Vec<usize>) as cm_ipermute_rows
@prop P06
@requires
  cmwf(*old(this)), rowperm@.len() == old(this).m, isperm_usize(rowperm@)
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if 0 <= l < old(this).m { cmv(*old(this), rowperm@[l] as int, k) } else { F::szero() },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), rowperm@.len() == A.m, isperm_usize(rowperm@),
    forall|k: int| i <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < i ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < i ==> #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m { cmv(A, rowperm@[l] as int, k) } else { F::szero() },
  decreases A.n - i
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[i as int].indval@, A.m as int); ssorted_sdist(A.col@[i as int].indval@);  }
@at loop 0 end
  proof { let x = i as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if 0 <= l < A.m { cmv(A, rowperm@[l] as int, k) } else { F::szero() } }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < i + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < i + 1 implies #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m { cmv(A, rowperm@[l] as int, k) } else { F::szero() } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if 0 <= l < A.m { cmv(A, rowperm@[l] as int, k) } else { F::szero() }); } } }
@fn CM<F>::erase_row(usize) as cm_erase_row
@prop P06
@requires
  cmwf(*old(this)), index < old(this).m
@ensures
  cmwf(*final(this)), final(this).m == old(this).m - 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l < index { cmv(*old(this), l, k) } else { cmv(*old(this), l + 1, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), index < A.m,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m - 1),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l < index { cmv(A, l, k) } else { cmv(A, l + 1, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); assert(sbelow(A.col@[x].indval@, A.m as int)); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l < index { cmv(A, l, k) } else { cmv(A, l + 1, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m - 1);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m - 1) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l < index { cmv(A, l, k) } else { cmv(A, l + 1, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l < index { cmv(A, l, k) } else { cmv(A, l + 1, k) }); } } }
@fn CM<F>::erase_row() as cm_erase_last_row
@prop P06
@requires
  cmwf(*old(this)), old(this).m > 0
@ensures
  cmwf(*final(this)), final(this).m == old(this).m - 1, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l == old(this).m - 1 { F::szero() } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), A.m > 0,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m - 1),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l == A.m - 1 { F::szero() } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l == A.m - 1 { F::szero() } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m - 1);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m - 1) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l == A.m - 1 { F::szero() } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l == A.m - 1 { F::szero() } else { cmv(A, l, k) }); } } }
@fn CM<F>::erase_rows(usize) as cm_erase_last_rows
@prop P06
@requires
  cmwf(*old(this)), n_delete_rows <= old(this).m
@ensures
  cmwf(*final(this)), final(this).m == old(this).m - n_delete_rows, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l >= old(this).m - n_delete_rows { F::szero() } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), n_delete_rows <= A.m,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m - n_delete_rows),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l >= A.m - n_delete_rows { F::szero() } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); broadcast use sv_basic; assert(sbelow(A.col@[x].indval@, A.m as int)); assert forall|i: int| i < 0 implies #[trigger] sval(A.col@[x].indval@, i) == F::szero() by { sval_absent(A.col@[x].indval@, i); }
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l >= A.m - n_delete_rows { F::szero() } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m - n_delete_rows);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m - n_delete_rows) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l >= A.m - n_delete_rows { F::szero() } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l >= A.m - n_delete_rows { F::szero() } else { cmv(A, l, k) }); } } }
@fn CM<F>::erase_initial_rows(usize) as cm_erase_initial_rows
@prop P06
@requires
  cmwf(*old(this)), ndelete <= old(this).m
@ensures
  cmwf(*final(this)), final(this).m == old(this).m - ndelete, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l < 0 { F::szero() } else { cmv(*old(this), l + ndelete, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), ndelete <= A.m,
    forall|k: int| ix0 <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < ix0 ==> sc((#[trigger] this.col@[k]).indval@, A.m - ndelete),
    forall|l: int, k: int| 0 <= k < ix0 ==> #[trigger] colv(this.col@, l, k) == if l < 0 { F::szero() } else { cmv(A, l + ndelete, k) },
  decreases A.n - ix0
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[ix0 as int].indval@, A.m as int); ssorted_sdist(A.col@[ix0 as int].indval@);  }
@at loop 0 end
  proof { let x = ix0 as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l < 0 { F::szero() } else { cmv(A, l + ndelete, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m - ndelete);
    assert forall|k: int| 0 <= k < ix0 + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m - ndelete) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < ix0 + 1 implies #[trigger] colv(this.col@, l, k) == if l < 0 { F::szero() } else { cmv(A, l + ndelete, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l < 0 { F::szero() } else { cmv(A, l + ndelete, k) }); } } }
@fn CM<F>::clear_rows(Vec<bool>) as cm_clear_rows
@prop P06
@throws c@.len() != old(this).m
@requires
  cmwf(*old(this))
@ensures
  c@.len() == old(this).m, cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if 0 <= l < old(this).m && c@[l] { F::szero() } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), c@.len() == A.m,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m && c@[l] { F::szero() } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if 0 <= l < A.m && c@[l] { F::szero() } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m && c@[l] { F::szero() } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if 0 <= l < A.m && c@[l] { F::szero() } else { cmv(A, l, k) }); } } }
@fn CM<F>::swap_rows(usize, usize) as cm_swap_rows
@prop P06
@requires
  cmwf(*old(this)), i < old(this).m, i2 < old(this).m
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l == i { cmv(*old(this), i2 as int, k) } else if l == i2 { cmv(*old(this), i as int, k) } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), i < A.m, i2 < A.m,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l == i { cmv(A, i2 as int, k) } else if l == i2 { cmv(A, i as int, k) } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l == i { cmv(A, i2 as int, k) } else if l == i2 { cmv(A, i as int, k) } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l == i { cmv(A, i2 as int, k) } else if l == i2 { cmv(A, i as int, k) } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l == i { cmv(A, i2 as int, k) } else if l == i2 { cmv(A, i as int, k) } else { cmv(A, l, k) }); } } }
@fn CM<F>::mix_rows(usize, usize, F, F, F, F) as cm_mix_rows
@prop P05 P06
@requires
  cmwf(*old(this)), i < old(this).m, i2 < old(this).m, i != i2
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if l == i { F::sadd(F::smul(a, cmv(*old(this), i as int, k)), F::smul(b, cmv(*old(this), i2 as int, k))) } else if l == i2 { F::sadd(F::smul(c, cmv(*old(this), i as int, k)), F::smul(d, cmv(*old(this), i2 as int, k))) } else { cmv(*old(this), l, k) },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), i < A.m, i2 < A.m, i != i2,
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if l == i { F::sadd(F::smul(a, cmv(A, i as int, k)), F::smul(b, cmv(A, i2 as int, k))) } else if l == i2 { F::sadd(F::smul(c, cmv(A, i as int, k)), F::smul(d, cmv(A, i2 as int, k))) } else { cmv(A, l, k) },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if l == i { F::sadd(F::smul(a, cmv(A, i as int, k)), F::smul(b, cmv(A, i2 as int, k))) } else if l == i2 { F::sadd(F::smul(c, cmv(A, i as int, k)), F::smul(d, cmv(A, i2 as int, k))) } else { cmv(A, l, k) } }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if l == i { F::sadd(F::smul(a, cmv(A, i as int, k)), F::smul(b, cmv(A, i2 as int, k))) } else if l == i2 { F::sadd(F::smul(c, cmv(A, i as int, k)), F::smul(d, cmv(A, i2 as int, k))) } else { cmv(A, l, k) } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if l == i { F::sadd(F::smul(a, cmv(A, i as int, k)), F::smul(b, cmv(A, i2 as int, k))) } else if l == i2 { F::sadd(F::smul(c, cmv(A, i as int, k)), F::smul(d, cmv(A, i2 as int, k))) } else { cmv(A, l, k) }); } } }
@fn CM<F>::row_scale(Vec<F>) as cm_row_scale
@prop P05 P06
@opt retthis=1
@requires
  cmwf(*old(this)), coeff@.len() == old(this).m, forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero()
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == if 0 <= l < old(this).m { F::smul(cmv(*old(this), l, k), coeff@[l]) } else { F::szero() },
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), coeff@.len() == A.m, forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero(),
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m { F::smul(cmv(A, l, k), coeff@[l]) } else { F::szero() },
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); assert forall|l: int| !(0 <= l < A.m) implies #[trigger] sval(this.col@[x].indval@, l) == F::szero() by { sval_absent(this.col@[x].indval@, l); }
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; if 0 <= l < A.m { F::smul(cmv(A, l, k), coeff@[l]) } else { F::szero() } }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == if 0 <= l < A.m { F::smul(cmv(A, l, k), coeff@[l]) } else { F::szero() } by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == if 0 <= l < A.m { F::smul(cmv(A, l, k), coeff@[l]) } else { F::szero() }); } } }
@fn CM<F>::col_inv_scale(Vec<F>) as cm_col_inv_scale
@prop P05 P06
@opt retthis=1
@requires
  cmwf(*old(this)), coeff@.len() == old(this).n, forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero()
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == F::smul(cmv(*old(this), l, k), F::sinv(coeff@[k])),
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A), coeff@.len() == A.n, forall|k: int| 0 <= k < coeff@.len() ==> #[trigger] coeff@[k] != F::szero(),
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == F::smul(cmv(A, l, k), F::sinv(coeff@[k])),
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); broadcast use field_basic; 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; F::smul(cmv(A, l, k), F::sinv(coeff@[k])) }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == F::smul(cmv(A, l, k), F::sinv(coeff@[k])) by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == F::smul(cmv(A, l, k), F::sinv(coeff@[k]))); } } }
@fn CM<F>::J_left_inplace() as cm_J_left_inplace
@prop P06
@opt retthis=1
@requires
  cmwf(*old(this))
@ensures
  cmwf(*final(this)), final(this).m == old(this).m, final(this).n == old(this).n,
  forall|l: int, k: int| 0 <= k < old(this).n ==> #[trigger] cmv(*final(this), l, k) == cmv(*old(this), old(this).m - 1 - l, k),
@at entry
  let ghost A = *this;
@loop 0
  invariant this.m == A.m, this.n == A.n, this.col@.len() == A.n, cmwf(A),
    forall|k: int| j <= k < A.n ==> (#[trigger] this.col@[k]) == A.col@[k],
    forall|k: int| 0 <= k < j ==> sc((#[trigger] this.col@[k]).indval@, A.m as int),
    forall|l: int, k: int| 0 <= k < j ==> #[trigger] colv(this.col@, l, k) == cmv(A, A.m - 1 - l, k),
  decreases A.n - j
@at loop 0 begin
  let ghost B = *this;
  proof { sval_out(A.col@[j as int].indval@, A.m as int); ssorted_sdist(A.col@[j as int].indval@);  }
@at loop 0 end
  proof { let x = j as int; assert(this.col@ =~= B.col@.update(x, this.col@[x])); 
    assert forall|l: int| #[trigger] sval(this.col@[x].indval@, l) == ({ let k = x; cmv(A, A.m - 1 - l, k) }) by { };
    sc_of(this.col@[x].indval@, A.m as int);
    assert forall|k: int| 0 <= k < j + 1 implies sc((#[trigger] this.col@[k]).indval@, A.m as int) by { if k < x { assert(this.col@[k] == B.col@[k]); } }
    assert forall|l: int, k: int| 0 <= k < j + 1 implies #[trigger] colv(this.col@, l, k) == cmv(A, A.m - 1 - l, k) by { if k < x { assert(this.col@[k] == B.col@[k]); assert(colv(B.col@, l, k) == cmv(A, A.m - 1 - l, k)); } } }
