@unit util la
@uses util
@rust
// p lists 0..n-1 in nondecreasing order of d
pub open spec fn sorts(p: Seq<usize>, d: Seq<i32>) -> bool { permu(p, d.len() as int) && forall|i: int, j: int| 0 <= i < j < d.len() ==> d[#[trigger] p[i] as int] <= d[#[trigger] p[j] as int] }
pub open spec fn stable(p: Seq<usize>, d: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() && d[p[i] as int] == d[p[j] as int] ==> #[trigger] p[i] < #[trigger] p[j] }
pub open spec fn iota(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == i }
// rearranging 0..n-1 gives a permutation
pub proof fn iota_perm(s: Seq<usize>, w: Seq<int>, r: Seq<usize>)
    requires iota(s), rearranged(s, w, r) ensures permu(r, s.len() as int), forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == w[i]
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] r[i] == w[i] by { assert(s[w[i]] == w[i]); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(w[i] != w[j]); }
}
// how often x occurs in s
pub open spec fn occ(s: Seq<usize>, x: usize) -> nat { s.to_multiset().count(x) }
pub open spec fn inverse_of(q: Seq<usize>, p: Seq<usize>) -> bool { permu(q, p.len() as int) && forall|j: int| 0 <= j < p.len() ==> q[#[trigger] p[j] as int] == j }
@end
@fn bats::util::stable_sortperm(Vec<i32>) as stable_sortperm
@prop P14 P18 P12
@ensures
  sorts(ret@, data@), stable(ret@, data@),
@at cmp 0 requires
  a < data@.len(), b < data@.len()
@at cmp 0 spec
  data@[a as int] < data@[b as int]
@at before sort 0
  let ghost s0 = perm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, perm@); 
     assert forall|i: int, j: int| 0 <= i < j < data@.len() implies data@[#[trigger] perm@[i] as int] <= data@[#[trigger] perm@[j] as int] by { assert(!lt0(perm@[j], perm@[i])); }
     assert forall|i: int, j: int| 0 <= i < j < data@.len() && data@[perm@[i] as int] == data@[perm@[j] as int] implies #[trigger] perm@[i] < #[trigger] perm@[j] by { assert(!lt0(perm@[i], perm@[j])); assert(srt0@[i] < srt0@[j]); } }
@fn bats::filtration_sortperm(Vec<i32>) as filtration_sortperm1
@prop P18 P12
@ensures
  sorts(ret@, v@), stable(ret@, v@),
@fn bats::filtration_sortperm(Vec<Vec<i32>>) as filtration_sortperm
@prop P18 P12
@ensures
  ret@.len() == v@.len(), forall|k: int| 0 <= k < v@.len() ==> sorts(#[trigger] ret@[k]@, v@[k]@),
@loop 0
  invariant dim <= v@.len(), perms@.len() == dim, forall|k: int| 0 <= k < dim ==> sorts(#[trigger] perms@[k]@, v@[k]@),
  decreases v@.len() - dim
@fn bats::filtration_iperm(Vec<Vec<usize>>) as filtration_iperm
@prop P18 P12
@requires
  forall|k: int| 0 <= k < perms@.len() ==> permu(#[trigger] perms@[k]@, perms@[k]@.len() as int)
@ensures
  ret@.len() == perms@.len(), forall|k: int| 0 <= k < perms@.len() ==> inverse_of(#[trigger] ret@[k]@, perms@[k]@),
@loop 0
  invariant ix0 <= perms@.len(), iperms@.len() == ix0,
    forall|k: int| 0 <= k < ix0 ==> inverse_of(#[trigger] iperms@[k]@, perms@[k]@),
  decreases perms@.len() - ix0
@fn bats::util::sortperm(Vec<i32>) as sortperm
@prop P14
@requires
  data@.len() <= i64::MAX
@ensures
  sorts(ret@, data@),
@at cmp 0 requires
  a < data@.len(), b < data@.len()
@at cmp 0 spec
  data@[a as int] < data@[b as int]
@at before sort 0
  let ghost s0 = perm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, perm@);  assert forall|i: int, j: int| 0 <= i < j < data@.len() implies data@[#[trigger] perm@[i] as int] <= data@[#[trigger] perm@[j] as int] by { assert(!lt0(perm@[j], perm@[i])); } }
@fn bats::sort_indexes(Vec<i32>) as sort_indexes
@prop P14
@ensures
  sorts(ret@, v@), stable(ret@, v@),
@at cmp 0 requires
  i1 < v@.len(), i2 < v@.len()
@at cmp 0 spec
  v@[i1 as int] < v@[i2 as int]
@at before sort 0
  let ghost s0 = idx@;
@at after sort 0
  proof { iota_perm(s0, srt0@, idx@); 
     assert forall|i: int, j: int| 0 <= i < j < v@.len() implies v@[#[trigger] idx@[i] as int] <= v@[#[trigger] idx@[j] as int] by { assert(!lt0(idx@[j], idx@[i])); }
     assert forall|i: int, j: int| 0 <= i < j < v@.len() && v@[idx@[i] as int] == v@[idx@[j] as int] implies #[trigger] idx@[i] < #[trigger] idx@[j] by { assert(!lt0(idx@[i], idx@[j])); assert(srt0@[i] < srt0@[j]); } }
@fn bats::find_perm_from_vector(Vec<i32>) as find_perm_from_vector
@prop P14
@ensures
  permu(ret@, v@.len() as int), forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@.len() && v@[i] < v@[j] ==> #[trigger] ret@[i] < #[trigger] ret@[j],
  forall|i: int, j: int| 0 <= i < j < v@.len() && v@[i] == v@[j] ==> #[trigger] ret@[i] < #[trigger] ret@[j],
@at cmp 0 requires
  i1 < v@.len(), i2 < v@.len()
@at cmp 0 spec
  v@[i1 as int] < v@[i2 as int]
@at before sort 0
  let ghost s0 = idx@;
@at after sort 0
  proof { iota_perm(s0, srt0@, idx@); 
     assert forall|i: int, j: int| 0 <= i < j < v@.len() implies v@[#[trigger] idx@[i] as int] <= v@[#[trigger] idx@[j] as int] by { assert(!lt0(idx@[j], idx@[i])); }
     assert forall|i: int, j: int| 0 <= i < j < v@.len() && v@[idx@[i] as int] == v@[idx@[j] as int] implies #[trigger] idx@[i] < #[trigger] idx@[j] by { assert(!lt0(idx@[i], idx@[j])); assert(srt0@[i] < srt0@[j]); } }
@loop 0
  invariant i <= v@.len(), perm@.len() == v@.len(), permu(idx@, v@.len() as int), forall|k: int| 0 <= k < i ==> perm@[#[trigger] idx@[k] as int] == k,
  decreases v@.len() - i
@at before return
  proof { permu_onto(idx@, v@.len() as int); let n = v@.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] perm@[i] < n && idx@[perm@[i] as int] == i by { assert(idx@.contains(i as usize)); let k = idx@.index_of(i as usize); assert(idx@[k] == i); }
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] perm@[i] != #[trigger] perm@[j] by { }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && v@[i] < v@[j] implies #[trigger] perm@[i] < #[trigger] perm@[j] by { if perm@[j] < perm@[i] { assert(v@[idx@[perm@[j] as int] as int] <= v@[idx@[perm@[i] as int] as int]); } }
    assert forall|i: int, j: int| 0 <= i < j < n && v@[i] == v@[j] implies #[trigger] perm@[i] < #[trigger] perm@[j] by { if perm@[j] < perm@[i] { assert(idx@[perm@[j] as int] < idx@[perm@[i] as int]); } }
  }
@fn bats::util::sort_ind_by_perm(&mut Vec<usize>, Vec<usize>) as sort_ind_by_perm
@prop P14
@requires
  all_lt(old(ind)@, perm@.len() as int)
@ensures
  exists|w: Seq<int>| #[trigger] rearranged(old(ind)@, w, final(ind)@),
  all_lt(final(ind)@, perm@.len() as int), forall|i: int, j: int| 0 <= i < j < final(ind)@.len() ==> perm@[#[trigger] final(ind)@[i] as int] <= perm@[#[trigger] final(ind)@[j] as int],
@at cmp 0 requires
  a < perm@.len(), b < perm@.len()
@at cmp 0 spec
  perm@[a as int] < perm@[b as int]
@at after sort 0
  proof { assert forall|i: int| 0 <= i < ind@.len() implies #[trigger] ind@[i] < perm@.len() by { assert(0 <= srt0@[i] < old(ind)@.len()); }
    assert forall|i: int, j: int| 0 <= i < j < ind@.len() implies perm@[#[trigger] ind@[i] as int] <= perm@[#[trigger] ind@[j] as int] by { assert(!lt0(ind@[j], ind@[i])); } }
@fn bats::util::fill_partial_sortperm(Vec<usize>, Vec<usize>, &mut Vec<usize>) as fill_partial_sortperm
@prop P14
@requires
  all_lt(ind@, perm@.len() as int)
@ensures
  permu(final(indperm)@, ind@.len() as int),
  forall|i: int, j: int| 0 <= i < j < ind@.len() ==> perm@[ind@[#[trigger] final(indperm)@[i] as int] as int] <= perm@[ind@[#[trigger] final(indperm)@[j] as int] as int],
@at cmp 0 requires
  a < ind@.len(), b < ind@.len()
@at cmp 0 spec
  perm@[ind@[a as int] as int] < perm@[ind@[b as int] as int]
@at before sort 0
  let ghost s0 = indperm@;
@at after sort 0
  proof { iota_perm(s0, srt0@, indperm@); assert forall|i: int, j: int| 0 <= i < j < ind@.len() implies perm@[ind@[#[trigger] indperm@[i] as int] as int] <= perm@[ind@[#[trigger] indperm@[j] as int] as int] by { assert(!lt0(indperm@[j], indperm@[i])); } }
@fn bats::util::sort_ind_pair_by_perm(&mut Vec<usize>, &mut Vec<usize>, Vec<usize>) as sort_ind_pair_by_perm
@prop P14
@requires
  all_lt(old(ind1)@, perm@.len() as int), old(ind1)@.len() == old(ind2)@.len()
@ensures
  exists|w: Seq<int>| #[trigger] rearranged(old(ind1)@, w, final(ind1)@) && rearranged(old(ind2)@, w, final(ind2)@),
  forall|i: int, j: int| 0 <= i < j < final(ind1)@.len() ==> perm@[#[trigger] final(ind1)@[i] as int] <= perm@[#[trigger] final(ind1)@[j] as int],
@loop 0
  invariant i <= indperm@.len(), tmp@.len() == indperm@.len(), ind1@ == old(ind1)@, forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == old(ind1)@[indperm@[k] as int],
  decreases indperm@.len() - i
@loop 1
  invariant i <= indperm@.len(), ind1@.len() == old(ind1)@.len(), forall|k: int| 0 <= k < i ==> #[trigger] ind1@[k] == old(ind1)@[indperm@[k] as int],
  decreases indperm@.len() - i
@loop 2
  invariant i <= indperm@.len(), tmp@.len() == indperm@.len(), ind2@ == old(ind2)@, forall|k: int| 0 <= k < i ==> #[trigger] tmp@[k] == old(ind2)@[indperm@[k] as int],
  decreases indperm@.len() - i
@loop 3
  invariant i <= indperm@.len(), ind2@.len() == old(ind2)@.len(), forall|k: int| 0 <= k < i ==> #[trigger] ind2@[k] == old(ind2)@[indperm@[k] as int],
  decreases indperm@.len() - i
@at exit
  let ghost w = Seq::new(indperm@.len(), |i: int| indperm@[i] as int);
  proof { assert(is_perm(w, old(ind1)@.len() as int)) by { assert forall|i: int, j: int| 0 <= i < j < w.len() implies #[trigger] w[i] != #[trigger] w[j] by { assert(indperm@[i] != indperm@[j]); } assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < w.len() by { assert(indperm@[i] < w.len()); } }
    assert(rearranged(old(ind1)@, w, ind1@)); assert(rearranged(old(ind2)@, w, ind2@)); 
    assert forall|i: int, j: int| 0 <= i < j < ind1@.len() implies perm@[#[trigger] ind1@[i] as int] <= perm@[#[trigger] ind1@[j] as int] by { assert(indperm@[i] < w.len()); assert(indperm@[j] < w.len()); } }
