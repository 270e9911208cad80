@unit util la
@rust
pub open spec fn all_lt(s: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n }
pub open spec fn distinct(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
// p is a permutation of 0..n-1
pub open spec fn permu(p: Seq<usize>, n: int) -> bool { p.len() == n && all_lt(p, n) && distinct(p) }
// an injective map from 0..n-1 to itself is onto
pub proof fn permu_onto(p: Seq<usize>, n: int)
    requires permu(p, n), n <= usize::MAX + 1
    ensures forall|i: int| 0 <= i < n ==> #[trigger] p.contains(i as usize)
{
    let q = Seq::new(n as nat, |i: int| p[i] as int);
    vstd::set_lib::lemma_int_range(0, n);
    assert(q.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(p[i] != p[j]); } else { assert(p[j] != p[i]); } } }
    q.unique_seq_to_set();
    assert(q.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|x: int| q.to_set().contains(x) implies 0 <= x < n by { let k = q.index_of(x); assert(p[k] < n); } }
    vstd::set_lib::lemma_subset_equality(q.to_set(), vstd::set_lib::set_int_range(0, n));
    assert forall|i: int| 0 <= i < n implies #[trigger] p.contains(i as usize) by {
        assert(q.to_set().contains(i)); let k = q.index_of(i); assert(p[k] == i as usize);
    }
}
pub proof fn incr_bound(s: Seq<usize>, a: int, b: int)
    requires incr(s), forall|i: int| 0 <= i < s.len() ==> a <= #[trigger] s[i] < b
    ensures s.len() <= b - a || s.len() == 0
    decreases s.len()
{ if s.len() > 1 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies a <= #[trigger] t[i] < b - 1 by { assert(s[i] < s[s.len() - 1]); } assert(incr(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { assert(s[i] < s[j]); } } incr_bound(t, a, b - 1); } else if s.len() == 1 { assert(a <= s[0] < b); } }
// c is the complement, below i, of the first ip entries of l
pub open spec fn compl_inv(c: Seq<usize>, l: Seq<usize>, i: int, ip: int) -> bool {
    &&& incr(c) && all_lt(c, i) && 0 <= ip <= l.len() && incr(l)
    &&& forall|x: usize| x < i ==> (#[trigger] cmem(c, x) <==> !cmem(l, x))
    &&& forall|k: int| 0 <= k < ip ==> #[trigger] l[k] < i
    &&& forall|k: int| ip <= k < l.len() ==> #[trigger] l[k] >= i
}
pub proof fn compl_step(c: Seq<usize>, l: Seq<usize>, i: usize, ip: int)
    requires compl_inv(c, l, i as int, ip), i < usize::MAX
    ensures ip < l.len() && l[ip] == i ==> compl_inv(c, l, i + 1, ip + 1),
      !(ip < l.len() && l[ip] == i) ==> compl_inv(c.push(i), l, i + 1, ip),
{
    if ip < l.len() && l[ip] == i {
        assert forall|k: int| ip + 1 <= k < l.len() implies #[trigger] l[k] >= i + 1 by { assert(l[ip] < l[k]); }
        assert forall|x: usize| x < i + 1 implies (#[trigger] cmem(c, x) <==> !cmem(l, x)) by { if x == i { assert(l[ip] == x); if c.contains(x) { let k = c.index_of(x); assert(c[k] < i); } } }
    } else {
        assert forall|k: int| ip <= k < l.len() implies #[trigger] l[k] >= i + 1 by { if k > ip { assert(l[ip] < l[k]); } }
        assert forall|x: usize| x < i + 1 implies (#[trigger] cmem(c.push(i), x) <==> !cmem(l, x)) by {
            assert(c.push(i)[c.len() as int] == i);
            if x == i { if l.contains(x) { let k = l.index_of(x); assert(l[k] == i); } }
            else { assert(cmem(c, x) <==> !cmem(l, x)); if c.contains(x) { let k = c.index_of(x); assert(c.push(i)[k] == x); } if c.push(i).contains(x) { let k = c.push(i).index_of(x); assert(c[k] == x); } }
        }
    }
}
// common members of a[0..i) and b[0..j)
pub open spec fn isect_inv(c: Seq<usize>, a: Seq<usize>, b: Seq<usize>, i: int, j: int) -> bool {
    &&& incr(a) && incr(b) && 0 <= i <= a.len() && 0 <= j <= b.len() && incr(c)
    &&& forall|k: int, l: int| 0 <= k < i && j <= l < b.len() ==> #[trigger] a[k] < #[trigger] b[l]
    &&& forall|k: int, l: int| 0 <= k < j && i <= l < a.len() ==> #[trigger] b[k] < #[trigger] a[l]
    &&& forall|k: int, l: int| 0 <= k < c.len() && i <= l < a.len() ==> #[trigger] c[k] < #[trigger] a[l]
    &&& forall|x: usize| #[trigger] cmem(c, x) <==> (cmem(a.take(i), x) && cmem(b.take(j), x))
}
pub proof fn cmem_take(a: Seq<usize>, i: int)
    requires 0 <= i < a.len()
    ensures forall|x: usize| #[trigger] cmem(a.take(i + 1), x) <==> (cmem(a.take(i), x) || x == a[i])
{
    assert(a.take(i + 1) =~= a.take(i).push(a[i]));
    cmem_push(a.take(i), a[i]);
}
pub proof fn cmem_push(a: Seq<usize>, y: usize)
    ensures forall|x: usize| #[trigger] cmem(a.push(y), x) <==> (cmem(a, x) || x == y)
{
    assert forall|x: usize| #[trigger] cmem(a.push(y), x) <==> (cmem(a, x) || x == y) by {
        assert(a.push(y)[a.len() as int] == y);
        if a.contains(x) { let k = a.index_of(x); assert(a.push(y)[k] == x); }
        if a.push(y).contains(x) { let k = a.push(y).index_of(x); if k < a.len() { assert(a[k] == x); } }
    }
}
pub proof fn isect_step(c: Seq<usize>, a: Seq<usize>, b: Seq<usize>, i: int, j: int)
    requires isect_inv(c, a, b, i, j), i < a.len(), j < b.len()
    ensures a[i] < b[j] ==> isect_inv(c, a, b, i + 1, j), b[j] < a[i] ==> isect_inv(c, a, b, i, j + 1),
      a[i] == b[j] ==> isect_inv(c.push(a[i]), a, b, i + 1, j + 1),
      a[i] < b[j] ==> !cmem(b, a[i]), b[j] < a[i] ==> !cmem(a, b[j]),
{
    cmem_take(a, i); cmem_take(b, j); cmem_push(c, a[i]);
    if a[i] < b[j] {
        assert(!cmem(b, a[i])) by { if b.contains(a[i]) { let k = b.index_of(a[i]); if k > j { assert(b[j] < b[k]); } else if k < j { assert(b[k] < a[i]); } } }
        assert(!cmem(b.take(j), a[i])) by { if b.take(j).contains(a[i]) { let k = b.take(j).index_of(a[i]); assert(b[k] == a[i]); } }
        assert forall|k: int, l: int| 0 <= k < i + 1 && j <= l < b.len() implies #[trigger] a[k] < #[trigger] b[l] by { if l > j { assert(b[j] < b[l]); } }
    }
    if b[j] < a[i] {
        assert(!cmem(a, b[j])) by { if a.contains(b[j]) { let k = a.index_of(b[j]); if k > i { assert(a[i] < a[k]); } else if k < i { assert(a[k] < b[j]); } } }
        assert(!cmem(a.take(i), b[j])) by { if a.take(i).contains(b[j]) { let k = a.take(i).index_of(b[j]); assert(a[k] == b[j]); } }
        assert forall|k: int, l: int| 0 <= k < j + 1 && i <= l < a.len() implies #[trigger] b[k] < #[trigger] a[l] by { if l > i { assert(a[i] < a[l]); } }
    }
    if a[i] == b[j] {
        assert(!cmem(a.take(i), b[j])) by { if a.take(i).contains(b[j]) { let k = a.take(i).index_of(b[j]); assert(a[k] == b[j]); } }
        assert(!cmem(b.take(j), a[i])) by { if b.take(j).contains(a[i]) { let k = b.take(j).index_of(a[i]); assert(b[k] == a[i]); } }
        assert forall|k: int, l: int| 0 <= k < i + 1 && j + 1 <= l < b.len() implies #[trigger] a[k] < #[trigger] b[l] by { assert(b[j] < b[l]); }
        assert forall|k: int, l: int| 0 <= k < j + 1 && i + 1 <= l < a.len() implies #[trigger] b[k] < #[trigger] a[l] by { assert(a[i] < a[l]); }
        assert forall|k: int, l: int| 0 <= k < c.push(a[i]).len() && i + 1 <= l < a.len() implies #[trigger] c.push(a[i])[k] < #[trigger] a[l] by { assert(a[i] < a[l]); }
    }
}
// once one list is used up (or its rest is above the bound) nothing more is common
pub proof fn isect_done(c: Seq<usize>, a: Seq<usize>, b: Seq<usize>, i: int, j: int)
    requires isect_inv(c, a, b, i, j)
    ensures
        i == a.len() || j == b.len() ==> forall|x: usize| #[trigger] cmem(c, x) <==> (cmem(a, x) && cmem(b, x)),
        forall|x: usize| (i == a.len() || j == b.len() || x < a[i] || x < b[j]) ==> (#[trigger] cmem(c, x) <==> (cmem(a, x) && cmem(b, x))),
        forall|k: int| 0 <= k < c.len() ==> cmem(a.take(i), #[trigger] c[k]) && cmem(b.take(j), c[k]),
        forall|x: usize| #[trigger] cmem(a.take(i), x) ==> cmem(a, x), forall|x: usize| #[trigger] cmem(b.take(j), x) ==> cmem(b, x),
{
    assert forall|x: usize| (i == a.len() || j == b.len() || x < a[i] || x < b[j]) implies (#[trigger] cmem(c, x) <==> (cmem(a, x) && cmem(b, x))) by {
        if cmem(a.take(i), x) { let k = a.take(i).index_of(x); assert(a[k] == x); }
        if cmem(b.take(j), x) { let k = b.take(j).index_of(x); assert(b[k] == x); }
        if cmem(a, x) && cmem(b, x) {
            let k = a.index_of(x); let l = b.index_of(x);
            if k < i { if l < j { assert(a.take(i)[k] == x); assert(b.take(j)[l] == x); } else { assert(a[k] < b[l]); } }
            else { if l < j { assert(b[l] < a[k]); } else { if i < a.len() && k > i { assert(a[i] < a[k]); } if j < b.len() && l > j { assert(b[j] < b[l]); } } }
        }
    }
    assert forall|k: int| 0 <= k < c.len() implies cmem(a.take(i), #[trigger] c[k]) && cmem(b.take(j), c[k]) by { assert(cmem(c, c[k])); }
    assert forall|x: usize| #[trigger] cmem(a.take(i), x) implies cmem(a, x) by { let k = a.take(i).index_of(x); assert(a[k] == x); }
    assert forall|x: usize| #[trigger] cmem(b.take(j), x) implies cmem(b, x) by { let k = b.take(j).index_of(x); assert(b[k] == x); }
}
// number of k < i with p[k] > p[j], and number of inversions among the first j
pub open spec fn inv_row(p: Seq<i32>, i: int, j: int) -> int decreases j - i { if j <= i + 1 { 0 } else { inv_row(p, i, j - 1) + (if p[i] > p[j - 1] { 1int } else { 0 }) } }
pub open spec fn inv_upto(p: Seq<i32>, i: int) -> int decreases i { if i <= 0 { 0 } else { inv_upto(p, i - 1) + inv_row(p, i - 1, p.len() as int) } }
// #{(k,l): k<l, p[k]>p[l]}
pub open spec fn inversions(p: Seq<i32>) -> int { inv_upto(p, p.len() as int) }
pub proof fn even_prod(k: int) ensures (k * (k - 1)) % 2 == 0
{ if k % 2 == 0 { let h = k / 2; assert(k * (k - 1) == 2 * (h * (k - 1))) by(nonlinear_arith) requires k == 2 * h; } else { let h = (k - 1) / 2; assert(k * (k - 1) == 2 * (h * k)) by(nonlinear_arith) requires k - 1 == 2 * h; } }
@end
@fn bats::util::inv_perm(Vec<usize>) as inv_perm
@prop P14 P18 P12
@requires
  permu(p@, p@.len() as int)
@ensures
  ret@.len() == p@.len(), forall|j: int| 0 <= j < p@.len() ==> ret@[#[trigger] p@[j] as int] == j,
  permu(ret@, p@.len() as int),
@loop 0
  invariant j <= p@.len(), invp@.len() == p@.len(), forall|k: int| 0 <= k < j ==> invp@[#[trigger] p@[k] as int] == k
  decreases p@.len() - j
@at before return
  proof { permu_onto(p@, p@.len() as int);
    let n = p@.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] invp@[i] < n && p@[invp@[i] as int] == i by { assert(p@.contains(i as usize)); let k = p@.index_of(i as usize); assert(p@[k] == i); }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] invp@[i] != #[trigger] invp@[j] by { }
  }
@fn bats::util::partial_perm(Vec<usize>, usize) as partial_perm
@prop P14
@requires
  all_lt(ind@, n as int), distinct(ind@)
@ensures
  ret@.len() == n,
  forall|k: int| 0 <= k < ind@.len() ==> ret@[#[trigger] ind@[k] as int] == k,
  forall|i: int| 0 <= i < n && !ind@.contains(i as usize) ==> #[trigger] ret@[i] == NO_IND,
@loop 0
  invariant k <= ind@.len(), ret@.len() == n, forall|l: int| 0 <= l < k ==> ret@[#[trigger] ind@[l] as int] == l,
    forall|i: int| 0 <= i < n && !ind@.contains(i as usize) ==> #[trigger] ret@[i] == NO_IND,
  decreases ind@.len() - k
@fn bats::util::apply_perm(&mut Vec<i32>, Vec<usize>) as apply_perm_i
@prop P14
@requires
  perm@.len() == old(data)@.len(), all_lt(perm@, perm@.len() as int)
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> #[trigger] final(data)@[i] == old(data)@[perm@[i] as int],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), tmp@.len() == perm@.len(), data@ == d0, forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@fn bats::util::apply_perm(&mut Vec<usize>, Vec<usize>) as apply_perm_u
@prop P14
@requires
  perm@.len() == old(data)@.len(), all_lt(perm@, perm@.len() as int)
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> #[trigger] final(data)@[i] == old(data)@[perm@[i] as int],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), tmp@.len() == perm@.len(), data@ == d0, forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@fn bats::util::apply_perm_swap(&mut Vec<i32>, Vec<usize>) as apply_perm_swap
@prop P14
@requires
  permu(perm@, old(data)@.len() as int)
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> final(data)@[#[trigger] perm@[i] as int] == old(data)@[i],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| 0 <= k < i ==> tmp@[#[trigger] perm@[k] as int] == d0[k],
    forall|k: int| i <= k < d0.len() ==> #[trigger] data@[k] == d0[k],
  decreases perm@.len() - i
@at loop 1 before
  let ghost t0 = tmp@;
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| i <= k < d0.len() ==> tmp@[k] == t0[k],
    forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == t0[k],
  decreases perm@.len() - i
@fn bats::util::apply_iperm_swap(&mut Vec<i32>, Vec<usize>) as apply_iperm_swap
@prop P14
@requires
  permu(perm@, old(data)@.len() as int)
@ensures
  final(data)@.len() == old(data)@.len(),
  forall|i: int| 0 <= i < perm@.len() ==> #[trigger] final(data)@[i] == old(data)@[perm@[i] as int],
@at entry
  let ghost d0 = data@;
@loop 0
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
    forall|k: int| i <= k < d0.len() ==> data@[#[trigger] perm@[k] as int] == d0[perm@[k] as int],
  decreases perm@.len() - i
@loop 1
  invariant i <= perm@.len(), data@.len() == d0.len(), tmp@.len() == d0.len(), forall|k: int| i <= k < d0.len() ==> #[trigger] tmp@[k] == d0[perm@[k] as int],
    forall|k: int| 0 <= k < i ==> #[trigger] data@[k] == d0[perm@[k] as int],
  decreases perm@.len() - i
@fn bats::identity_perm(usize) as identity_perm
@prop P14
@requires
  true
@ensures
  ret@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] ret@[i] == i,
@fn bats::perm_to_the_end(usize, usize) as perm_to_the_end1
@prop P14
@requires
  index < length
@ensures
  ret@.len() == length, ret@[length - 1] == index,
  forall|i: int| 0 <= i < length - 1 ==> #[trigger] ret@[i] == if i < index { i } else { i + 1 },
@loop 0
  invariant i <= length, v@.len() == if i <= index { i as int } else { i - 1 },
    forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == if k < index { k } else { k + 1 },
  decreases length - i
@fn bats::extension_perm(Vec<usize>, usize) as extension_perm
@prop P14
@requires
  perm@.len() <= length
@ensures
  ret@.len() == length, forall|i: int| 0 <= i < length ==> #[trigger] ret@[i] == if i < perm@.len() { perm@[i] as int } else { i },
@loop 0
  invariant i == ix0, ix0 <= perm@.len(), v@ == perm@.take(i as int),
  decreases perm@.len() - ix0
@loop 1
  invariant perm@.len() <= i <= length, v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == if k < perm@.len() { perm@[k] as int } else { k },
  decreases length - i
@fn bats::perm_to_the_end(Vec<usize>, usize) as perm_to_the_end
@prop P14
@requires
  incr(index_list@), all_lt(index_list@, length as int)
@ensures
  ret@.len() == length,
  forall|k: int| 0 <= k < index_list@.len() ==> #[trigger] ret@[length - index_list@.len() + k] == index_list@[k],
  incr(ret@.take(length - index_list@.len())),
  forall|k: int| 0 <= k < length - index_list@.len() ==> !index_list@.contains(#[trigger] ret@[k]),
  all_lt(ret@, length as int),
@at entry
  let ghost l = index_list@;
  proof { incr_bound(l, 0, length as int); }
@loop 0
  invariant i <= length, it <= l.len(), v@.len() == i - it, incr(v@), all_lt(v@, i as int),
    forall|k: int| 0 <= k < v@.len() ==> !l.contains(#[trigger] v@[k]),
    forall|k: int| 0 <= k < it ==> #[trigger] l[k] < i, forall|k: int| it <= k < l.len() ==> #[trigger] l[k] >= i,
  decreases length - i
@at loop 0 begin
  proof { if l.contains(i) { let k = l.index_of(i); assert(k == it) by { if k > it { assert(l[it as int] < l[k]); } else if k < it { assert(l[k] < i); } } } 
     assert(it < l.len() && l[it as int] == i ==> l.contains(i));
     if it < l.len() && l[it as int] == i { assert forall|k: int| it + 1 <= k < l.len() implies #[trigger] l[k] >= i + 1 by { assert(l[it as int] < l[k]); } }
     if it < l.len() && l[it as int] != i { assert forall|k: int| it <= k < l.len() implies #[trigger] l[k] >= i + 1 by { assert(l[it as int] <= l[k]) by { if k > it { assert(l[it as int] < l[k]); } } } }
  }
@loop 1
  invariant ix1 <= l.len(), v@.len() == length - l.len() + ix1, incr(v@.take(length - l.len())), all_lt(v@, length as int),
    forall|k: int| 0 <= k < length - l.len() ==> !l.contains(#[trigger] v@[k]),
    forall|k: int| 0 <= k < ix1 ==> #[trigger] v@[length - l.len() + k] == l[k],
  decreases l.len() - ix1
@at loop 1 before
  proof { assert(it == l.len()) by { if it < l.len() { assert(l[it as int] < length); } } assert(v@.take(length - l.len()) =~= v@); }
@at loop 1 begin
  let ghost vb = v@;
@at loop 1 end
  proof { assert(v@.take(length - l.len()) =~= vb.take(length - l.len())); }
@fn bats::util::sorted_complement(Vec<usize>, usize) as sorted_complement
@prop P14
@requires
  incr(ind@), all_lt(ind@, n as int)
@ensures
  incr(ret@), all_lt(ret@, n as int), forall|x: usize| x < n ==> (#[trigger] ret@.contains(x) <==> !ind@.contains(x)),
@at entry
  let ghost l = ind@;
@loop 0
  invariant i <= n, ip <= l.len(), compl_inv(cind@, l, i as int, ip as int),
  decreases n - i
@at loop 0 begin
  proof { assert(l[ip as int] < n); compl_step(cind@, l, i, ip as int); }
@loop 1
  invariant i <= n, compl_inv(cind@, l, i as int, l.len() as int),
  decreases n - i
@at loop 1 begin
  proof { compl_step(cind@, l, i, l.len() as int); }
@at before return
  proof { assert forall|x: usize| x < n implies (#[trigger] cind@.contains(x) <==> !l.contains(x)) by { assert(cmem(cind@, x) <==> !cmem(l, x)); } }
@fn bats::util::intersect_sorted(Vec<usize>, Vec<usize>, &mut Vec<usize>) as intersect_sorted
@prop P14 P17
@requires
  incr(a@), incr(b@)
@ensures
  incr(final(c)@), forall|x: usize| #[trigger] cmem(final(c)@, x) <==> (cmem(a@, x) && cmem(b@, x)),
@at loop 0 before
  proof { assert(a@.take(0).len() == 0); assert(b@.take(0).len() == 0); assert(isect_inv(c@, a@, b@, 0, 0)); }
@loop 0
  invariant isect_inv(c@, a@, b@, ia as int, ib as int)
  decreases a@.len() - ia + b@.len() - ib
@at loop 0 begin
  proof { isect_step(c@, a@, b@, ia as int, ib as int); }
@at loop 0 after
  proof { isect_done(c@, a@, b@, ia as int, ib as int); }
@fn bats::util::has_intersect_sorted(Vec<usize>, Vec<usize>) as has_intersect_sorted
@prop P14 P17
@requires
  incr(a@), incr(b@)
@ensures
  ret == exists|x: usize| #[trigger] cmem(a@, x) && cmem(b@, x),
@at loop 0 before
  let ghost mut c = Seq::<usize>::empty();
  proof { assert(a@.take(0).len() == 0); assert(b@.take(0).len() == 0); assert(isect_inv(c, a@, b@, 0, 0)); }
@loop 0
  invariant isect_inv(c, a@, b@, ia as int, ib as int), c.len() == 0
  decreases a@.len() - ia + b@.len() - ib
@at loop 0 begin
  proof { isect_step(c, a@, b@, ia as int, ib as int); if a@[ia as int] == b@[ib as int] { assert(cmem(a@, a@[ia as int])); assert(cmem(b@, b@[ib as int])); } }
@at loop 0 after
  proof { isect_done(c, a@, b@, ia as int, ib as int); assert forall|x: usize| !(#[trigger] cmem(a@, x) && cmem(b@, x)) by { assert(!cmem(c, x)); } }
@fn bats::util::intersect_sorted_lt(Vec<usize>, Vec<usize>, usize, &mut Vec<usize>) as intersect_sorted_lt
@prop P14 P17
@requires
  incr(a@), incr(b@)
@ensures
  incr(final(c)@), forall|x: usize| #[trigger] cmem(final(c)@, x) <==> (cmem(a@, x) && cmem(b@, x) && x < maxval),
@at loop 0 before
  proof { assert(a@.take(0).len() == 0); assert(b@.take(0).len() == 0); assert(isect_inv(c@, a@, b@, 0, 0)); }
@loop 0
  invariant isect_inv(c@, a@, b@, ia as int, ib as int), all_lt(c@, maxval as int)
  decreases a@.len() - ia + b@.len() - ib
@at loop 0 begin
  proof { isect_step(c@, a@, b@, ia as int, ib as int); }
@at loop 0 after
  proof { isect_done(c@, a@, b@, ia as int, ib as int);
    assert forall|x: usize| #[trigger] cmem(c@, x) <==> (cmem(a@, x) && cmem(b@, x) && x < maxval) by { if cmem(c@, x) { let k = c@.index_of(x); assert(c@[k] < maxval); } } }
@fn bats::util::has_intersect_sorted_lt(Vec<usize>, Vec<usize>, usize) as has_intersect_sorted_lt
@prop P14 P17
@requires
  incr(a@), incr(b@)
@ensures
  ret == exists|x: usize| #[trigger] cmem(a@, x) && cmem(b@, x) && x < maxval,
@at loop 0 before
  let ghost mut c = Seq::<usize>::empty();
  proof { assert(a@.take(0).len() == 0); assert(b@.take(0).len() == 0); assert(isect_inv(c, a@, b@, 0, 0)); }
@loop 0
  invariant isect_inv(c, a@, b@, ia as int, ib as int), c.len() == 0
  decreases a@.len() - ia + b@.len() - ib
@at loop 0 begin
  proof { isect_step(c, a@, b@, ia as int, ib as int); if a@[ia as int] == b@[ib as int] { assert(cmem(a@, a@[ia as int])); assert(cmem(b@, b@[ib as int])); } }
@at loop 0 after
  proof { isect_done(c, a@, b@, ia as int, ib as int); assert forall|x: usize| !(#[trigger] cmem(a@, x) && cmem(b@, x) && x < maxval) by { assert(!cmem(c, x)); } }
@fn bats::util::find_sorted_lt(usize, usize, usize) as find_sorted_lt
@prop P14
@opt iter_begin=data:Vec<usize> iter_end=data:Vec<usize>
@requires
  begin <= end <= data@.len(), data@.len() <= i64::MAX, nondecr_usize(data@.subrange(begin as int, end as int))
@ensures
  ret == NO_IND ==> forall|i: int| begin <= i < end ==> #[trigger] data@[i] >= v,
  ret != NO_IND ==> begin + ret < end && data@[begin + ret] < v && forall|i: int| begin + ret < i < end ==> #[trigger] data@[i] >= v,
@fn bats::util::sort_into(Vec<usize>, &mut Vec<usize>) as sort_into
@prop P14
@requires
  true
@ensures
  nondecr_usize(final(y)@), final(y)@.to_multiset() == x@.to_multiset(),
@at before sort 0
  proof { assert(y@ =~= x@); }
@fn bats::util::perm_inversions(Vec<i32>) as perm_inversions
@prop P14
@requires
  p@.len() < 0x1_0000_0000
@ensures
  ret == inversions(p@),
@loop 0
  invariant i <= n, n == p@.len(), ct == inv_upto(p@, i as int), ct <= i * n,
  decreases n - i
@loop 1
  invariant i < n, i + 1 <= j <= n, n == p@.len(), ct == inv_upto(p@, i as int) + inv_row(p@, i as int, j as int), ct <= i * n + (j - i), ct <= i * n + n,
  decreases n - j
@at loop 1 begin
  proof { assert(i * n <= 0x1_0000_0000 * 0x1_0000_0000 - 0x2_0000_0000) by(nonlinear_arith) requires i < n, n < 0x1_0000_0000; }
@at loop 1 after
  proof { assert((i + 1) * n == i * n + n) by(nonlinear_arith); }
@fn bats::util::perm_sign(Vec<i32>) as perm_sign
@prop P14
@requires
  p@.len() < 0x1_0000_0000
@ensures
  ret == if inversions(p@) % 2 == 1 { -1int } else { 1 },
@at after perm_inversions 0
  let ghost u = r_perm_inversions_0;
  assert(u & 1usize == u % 2) by(bit_vector);
@fn bats::k_choose_2(usize) as k_choose_2
@prop P13
@opt wrap
@requires
  k < 0x1_0000_0000
@ensures
  2 * ret == k * (k - 1),
@at entry
  assert(k == 0 || k % 2 == 0 || (k - 1) % 2 == 0);
  proof { if k > 0 { assert(k * (k - 1) < 0x1_0000_0000 * 0x1_0000_0000) by(nonlinear_arith) requires 0 < k < 0x1_0000_0000; even_prod(k as int); let t = (k * (k - 1)) as usize; assert(t >> 1i32 == t / 2) by(bit_vector); assert(k.wrapping_sub(1usize) == (k - 1) as usize); let p = k as nat * ((k - 1) as usize) as nat; assert(p == k * (k - 1)); assert(p < 0x1_0000_0000_0000_0000nat); assert(p % 0x1_0000_0000_0000_0000nat == p) by(nonlinear_arith) requires p < 0x1_0000_0000_0000_0000nat; assert(k.wrapping_mul((k - 1) as usize) == p); assert(t as nat == p); assert(k.wrapping_mul((k - 1) as usize) == t); assert(2 * (t / 2) == t); } else { let m = 0usize.wrapping_sub(1usize); assert(k as nat * m as nat == 0) by(nonlinear_arith) requires k == 0; assert(0nat % 0x1_0000_0000_0000_0000nat == 0); assert(k.wrapping_mul(m) == 0); assert(0usize >> 1i32 == 0usize) by(bit_vector); } }
