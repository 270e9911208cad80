// ---- sparse vectors ----
pub open spec fn ssorted<F>(s: Seq<Nz<F>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).ind < (#[trigger] s[j]).ind }
pub open spec fn snz<F: Field>(s: Seq<Nz<F>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).val != F::szero() }
pub open spec fn sval<F: Field>(s: Seq<Nz<F>>, i: int) -> F
    decreases s.len()
{
    if s.len() == 0 { F::szero() } else if s.last().ind as int == i { s.last().val } else { sval(s.drop_last(), i) }
}
pub broadcast proof fn sval_push<F: Field>(s: Seq<Nz<F>>, x: Nz<F>, i: int)
    ensures #[trigger] sval(s.push(x), i) == if x.ind as int == i { x.val } else { sval(s, i) }
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn sval_empty<F: Field>(s: Seq<Nz<F>>, i: int)
    requires s.len() == 0
    ensures #[trigger] sval(s, i) == F::szero()
{ }
pub broadcast group sv_basic { sval_push, sval_empty }
// value of a prefix one longer
pub proof fn sval_take<F: Field>(s: Seq<Nz<F>>, k: int)
    requires 0 <= k < s.len()
    ensures forall|i: int| #[trigger] sval(s.take(k + 1), i) == if s[k].ind as int == i { s[k].val } else { sval(s.take(k), i) }
{
    assert forall|i: int| #[trigger] sval(s.take(k + 1), i) == if s[k].ind as int == i { s[k].val } else { sval(s.take(k), i) } by {
        assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
    }
}
pub proof fn sval_absent<F: Field>(s: Seq<Nz<F>>, i: int)
    requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).ind as int != i
    ensures sval(s, i) == F::szero()
    decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|k: int| 0 <= k < s.drop_last().len() implies (#[trigger] s.drop_last()[k]).ind as int != i by { assert(s.drop_last()[k] == s[k]); } sval_absent(s.drop_last(), i); } }
pub proof fn sval_at<F: Field>(s: Seq<Nz<F>>, k: int)
    requires ssorted(s), 0 <= k < s.len()
    ensures sval(s, s[k].ind as int) == s[k].val
    decreases s.len()
{
    if k < s.len() - 1 { assert(s[k].ind < s[s.len() - 1].ind); assert(ssorted(s.drop_last())) by { assert forall|i: int, j: int| 0 <= i < j < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).ind < (#[trigger] s.drop_last()[j]).ind by { assert(s[i].ind < s[j].ind); } } sval_at(s.drop_last(), k); assert(s.drop_last()[k] == s[k]); }
}

pub proof fn sval_absent_prefix<F: Field>(s: Seq<Nz<F>>, k: int)
    requires ssorted(s), 0 <= k < s.len()
    ensures sval(s.take(k), s[k].ind as int) == F::szero()
{ assert forall|j: int| 0 <= j < s.take(k).len() implies (#[trigger] s.take(k)[j]).ind as int != s[k].ind as int by { assert(s.take(k)[j] == s[j]); assert(s[j].ind < s[k].ind); } sval_absent(s.take(k), s[k].ind as int); }


// ---- lookup in vectors with distinct indices ----
pub open spec fn sdist<F>(s: Seq<Nz<F>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).ind != (#[trigger] s[j]).ind }
pub open spec fn sbelow<F>(s: Seq<Nz<F>>, m: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).ind < m }
pub proof fn ssorted_sdist<F>(s: Seq<Nz<F>>) requires ssorted(s) ensures sdist(s) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).ind != (#[trigger] s[j]).ind by { assert(s[i].ind < s[j].ind); } }
pub proof fn sval_at_d<F: Field>(s: Seq<Nz<F>>, k: int)
    requires sdist(s), 0 <= k < s.len()
    ensures sval(s, s[k].ind as int) == s[k].val
    decreases s.len()
{
    if k < s.len() - 1 {
        assert(s[k].ind != s[s.len() - 1].ind); let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).ind != (#[trigger] d[j]).ind by { assert(s[i].ind != s[j].ind); }
        sval_at_d(d, k); assert(d[k] == s[k]);
    }
}
// either stored exactly once, or zero
pub proof fn sval_find<F: Field>(s: Seq<Nz<F>>, i: int) -> (k: int)
    requires sdist(s)
    ensures k == -1 ==> sval(s, i) == F::szero() && forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l]).ind as int != i,
        k != -1 ==> 0 <= k < s.len() && s[k].ind as int == i && sval(s, i) == s[k].val && forall|l: int| 0 <= l < s.len() && l != k ==> (#[trigger] s[l]).ind as int != i,
{
    if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i; sval_at_d(s, k);
        assert forall|l: int| 0 <= l < s.len() && l != k implies (#[trigger] s[l]).ind as int != i by { if l < k { assert(s[l].ind != s[k].ind); } else { assert(s[k].ind != s[l].ind); } }
        k
    } else { sval_absent(s, i); -1 }
}
// i in s and j in t are looked up alike
pub open spec fn salike<F>(s: Seq<Nz<F>>, i: int, t: Seq<Nz<F>>, j: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i ==> exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == j && t[l].val == s[k].val
    &&& forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == j ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i
}
pub proof fn sval_same<F: Field>(s: Seq<Nz<F>>, i: int, t: Seq<Nz<F>>, j: int)
    requires sdist(s), sdist(t), salike(s, i, t, j)
    ensures sval(s, i) == sval(t, j)
{
    let k = sval_find(s, i); let l = sval_find(t, j);
    if k != -1 { let m = choose|m: int| 0 <= m < t.len() && (#[trigger] t[m]).ind as int == j && t[m].val == s[k].val; assert(l == m); }
    else if l != -1 { let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).ind as int == i; assert(false); }
}
// positions correspond one to one, with equal values
pub proof fn sval_pos<F: Field>(s: Seq<Nz<F>>, i: int, t: Seq<Nz<F>>, j: int)
    requires sdist(s), sdist(t), s.len() == t.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).val == t[k].val && (s[k].ind as int == i <==> t[k].ind as int == j)
    ensures sval(s, i) == sval(t, j)
{
    assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i implies exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == j && t[l].val == s[k].val by { assert(t[k].ind as int == j); }
    assert forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == j implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i by { assert(s[l].ind as int == i); }
    sval_same(s, i, t, j);
}
pub open spec fn sameval<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>) -> bool { forall|i: int| #[trigger] sval(s, i) == sval(t, i) }
pub open spec fn rearr<T>(s: Seq<T>, t: Seq<T>) -> bool { exists|w: Seq<int>| rearranged(s, w, t) }
pub open spec fn snondecr<F>(s: Seq<Nz<F>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).ind <= (#[trigger] s[j]).ind }
// a permutation of 0..n hits every value
pub proof fn perm_onto(w: Seq<int>, n: int, v: int) -> (i: int)
    requires is_perm(w, n), 0 <= v < n
    ensures 0 <= i < n, w[i] == v
{
    let s = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
    assert(w.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by { if i < j { assert(w[i] != w[j]); } else { assert(w[j] != w[i]); } } }
    w.unique_seq_to_set(); let t = w.to_set();
    assert(t.subset_of(s)) by { assert forall|x: int| t.contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < w.len() && w[i] == x; assert(0 <= w[i] < n); } }
    vstd::set_lib::lemma_subset_equality(t, s);
    assert(t.contains(v)); choose|i: int| 0 <= i < w.len() && w[i] == v
}
pub proof fn rearr_sval<F: Field>(s: Seq<Nz<F>>, t: Seq<Nz<F>>)
    requires rearr(s, t), sdist(s)
    ensures sdist(t), sameval(t, s), snz(s) ==> snz(t), snondecr(t) ==> ssorted(t), t.len() == s.len(), forall|m: int| sbelow(s, m) ==> #[trigger] sbelow(t, m)
{
    let w = choose|w: Seq<int>| rearranged(s, w, t);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind != (#[trigger] t[j]).ind by { assert(w[i] != w[j]); assert(t[i] == s[w[i]] && t[j] == s[w[j]]); if w[i] < w[j] { assert(s[w[i]].ind != s[w[j]].ind); } else { assert(s[w[j]].ind != s[w[i]].ind); } }
    assert forall|i: int| #[trigger] sval(t, i) == sval(s, i) by {
        assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i implies exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i && t[l].val == s[k].val by { let l = perm_onto(w, s.len() as int, k); assert(t[l] == s[w[l]]); }
        assert forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i by { assert(t[l] == s[w[l]]); }
        sval_same(s, i, t, i);
    }
    if snz(s) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).val != F::szero() by { assert(t[i] == s[w[i]]); } }
    assert forall|m: int| sbelow(s, m) implies #[trigger] sbelow(t, m) by { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind < m by { assert(t[k] == s[w[k]]); } }
    if snondecr(t) { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { assert(t[i].ind <= t[j].ind); assert(t[i].ind != t[j].ind); } }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub proof fn sval_insert<F: Field>(s: Seq<Nz<F>>, b: int, x: Nz<F>)
    requires ssorted(s), 0 <= b <= s.len(), forall|k: int| 0 <= k < b ==> (#[trigger] s[k]).ind < x.ind, forall|k: int| b <= k < s.len() ==> (#[trigger] s[k]).ind > x.ind
    ensures ssorted(s.insert(b, x)), forall|i: int| #[trigger] sval(s.insert(b, x), i) == if i == x.ind { x.val } else { sval(s, i) }, snz(s) && x.val != F::szero() ==> snz(s.insert(b, x))
{
    let t = s.insert(b, x);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by {
        if i == b { assert(t[j] == s[j - 1]); } else if j == b { assert(t[i] == s[i]); } else { let p = if i < b { i } else { i - 1 }; let q = if j < b { j } else { j - 1 }; assert(t[i] == s[p] && t[j] == s[q]); assert(s[p].ind < s[q].ind); } }
    ssorted_sdist(t); ssorted_sdist(s);
    assert forall|i: int| #[trigger] sval(t, i) == if i == x.ind { x.val } else { sval(s, i) } by {
        if i == x.ind { assert(t[b] == x); sval_at_d(t, b); } else {
            assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i implies exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i && t[l].val == s[k].val by { let l = if k < b { k } else { k + 1 }; assert(t[l] == s[k]); }
            assert forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i by { let k = if l < b { l } else { l - 1 }; assert(l != b); assert(t[l] == s[k]); }
            sval_same(s, i, t, i);
        }
    }
    if snz(s) && x.val != F::szero() { assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).val != F::szero() by { if l != b { let k = if l < b { l } else { l - 1 }; assert(t[l] == s[k]); } } }
}
pub proof fn sval_remove<F: Field>(s: Seq<Nz<F>>, b: int)
    requires ssorted(s), 0 <= b < s.len()
    ensures ssorted(s.remove(b)), forall|i: int| #[trigger] sval(s.remove(b), i) == if i == s[b].ind { F::szero() } else { sval(s, i) }, snz(s) ==> snz(s.remove(b)), s.remove(b).len() == s.len() - 1,
        forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] s.remove(b)[k] == if k < b { s[k] } else { s[k + 1] },
{
    let t = s.remove(b);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { let p = if i < b { i } else { i + 1 }; let q = if j < b { j } else { j + 1 }; assert(t[i] == s[p] && t[j] == s[q]); assert(s[p].ind < s[q].ind); }
    ssorted_sdist(t); ssorted_sdist(s);
    assert forall|i: int| #[trigger] sval(t, i) == if i == s[b].ind { F::szero() } else { sval(s, i) } by {
        if i == s[b].ind { assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).ind as int != i by { let p = if k < b { k } else { k + 1 }; assert(t[k] == s[p]); if p < b { assert(s[p].ind != s[b].ind); } else { assert(s[b].ind != s[p].ind); } } sval_absent(t, i); }
        else {
            assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i implies exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i && t[l].val == s[k].val by { assert(k != b); let l = if k < b { k } else { k - 1 }; assert(t[l] == s[k]); }
            assert forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i by { let k = if l < b { l } else { l + 1 }; assert(t[l] == s[k]); }
            sval_same(s, i, t, i);
        }
    }
    if snz(s) { assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).val != F::szero() by { let k = if l < b { l } else { l + 1 }; assert(t[l] == s[k]); } }
}
// replace the value stored at position b
pub proof fn sval_setval<F: Field>(s: Seq<Nz<F>>, b: int, v: F)
    requires ssorted(s), 0 <= b < s.len()
    ensures ({ let t = s.update(b, Nz { ind: s[b].ind, val: v }); ssorted(t) && (forall|i: int| #[trigger] sval(t, i) == if i == s[b].ind { v } else { sval(s, i) }) && (snz(s) && v != F::szero() ==> snz(t)) })
{
    let t = s.update(b, Nz { ind: s[b].ind, val: v });
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { assert(s[i].ind < s[j].ind); }
    ssorted_sdist(t); ssorted_sdist(s);
    assert forall|i: int| #[trigger] sval(t, i) == if i == s[b].ind { v } else { sval(s, i) } by {
        if i == s[b].ind { assert(t[b].ind == s[b].ind); sval_at_d(t, b); } else {
            assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i implies exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i && t[l].val == s[k].val by { assert(t[k] == s[k]); }
            assert forall|l: int| 0 <= l < t.len() && (#[trigger] t[l]).ind as int == i implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ind as int == i by { assert(s[l].ind == t[l].ind); }
            sval_same(s, i, t, i); } }
}
// a contiguous part keeps the entries in its index range
pub proof fn sval_part<F: Field>(s: Seq<Nz<F>>, a: int, b: int)
    requires ssorted(s), 0 <= a <= b <= s.len()
    ensures ssorted(s.subrange(a, b)), snz(s) ==> snz(s.subrange(a, b)),
        forall|i: int| #[trigger] sval(s.subrange(a, b), i) == if (forall|k: int| 0 <= k < a ==> (#[trigger] s[k]).ind != i) && (forall|k: int| b <= k < s.len() ==> (#[trigger] s[k]).ind != i) { sval(s, i) } else { F::szero() },
{
    let t = s.subrange(a, b);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).ind < (#[trigger] t[j]).ind by { assert(s[a + i].ind < s[a + j].ind); }
    ssorted_sdist(t); ssorted_sdist(s);
    assert forall|i: int| #[trigger] sval(t, i) == if (forall|k: int| 0 <= k < a ==> (#[trigger] s[k]).ind != i) && (forall|k: int| b <= k < s.len() ==> (#[trigger] s[k]).ind != i) { sval(s, i) } else { F::szero() } by {
        let l = sval_find(t, i); let k = sval_find(s, i);
        if l != -1 { assert(t[l] == s[a + l]); assert(k == a + l); }
        else if k != -1 { if a <= k < b { assert(t[k - a] == s[k]); } }
    }
    if snz(s) { assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).val != F::szero() by { assert(t[l] == s[a + l]); } }
}
// std::lower_bound / upper_bound / sort on entries, ordered by operator< (contract nz_lt: the index order)
pub fn cpp_lower_bound_nz<F: Field>(v: &Vec<Nz<F>>, b: usize, e: usize, k: Nz<F>) -> (r: usize)
    requires b <= e <= v@.len(), snondecr(v@.subrange(b as int, e as int))
    ensures b <= r <= e, forall|i: int| b <= i < r ==> (#[trigger] v@[i]).ind < k.ind, forall|i: int| r <= i < e ==> (#[trigger] v@[i]).ind >= k.ind
{
    let mut r = b;
    while r < e && v[r].ind < k.ind invariant b <= r <= e <= v@.len(), forall|i: int| b <= i < r ==> (#[trigger] v@[i]).ind < k.ind decreases e - r { r = r + 1; }
    assert forall|i: int| r <= i < e implies (#[trigger] v@[i]).ind >= k.ind by { let s = v@.subrange(b as int, e as int); if i > r { assert(s[r - b].ind <= s[i - b].ind); } }
    r
}
pub fn cpp_upper_bound_nz<F: Field>(v: &Vec<Nz<F>>, b: usize, e: usize, k: Nz<F>) -> (r: usize)
    requires b <= e <= v@.len(), snondecr(v@.subrange(b as int, e as int))
    ensures b <= r <= e, forall|i: int| b <= i < r ==> (#[trigger] v@[i]).ind <= k.ind, forall|i: int| r <= i < e ==> (#[trigger] v@[i]).ind > k.ind
{
    let mut r = b;
    while r < e && v[r].ind <= k.ind invariant b <= r <= e <= v@.len(), forall|i: int| b <= i < r ==> (#[trigger] v@[i]).ind <= k.ind decreases e - r { r = r + 1; }
    assert forall|i: int| r <= i < e implies (#[trigger] v@[i]).ind > k.ind by { let s = v@.subrange(b as int, e as int); if i > r { assert(s[r - b].ind <= s[i - b].ind); } }
    r
}
#[verifier::external_body]
pub fn cpp_sort_nz<F: Field>(v: &mut Vec<Nz<F>>)
    ensures rearr(old(v)@, final(v)@), snondecr(final(v)@)
{ unimplemented!() }
// ---- finite sums ----
pub open spec fn fsum<F: Field>(n: int, f: spec_fn(int) -> F) -> F
    decreases n
{ if n <= 0 { F::szero() } else { F::sadd(fsum(n - 1, f), f(n - 1)) } }
pub proof fn fsum_ext<F: Field>(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
    ensures fsum(n, f) == fsum(n, g)
    decreases n
{ if n > 0 { fsum_ext(n - 1, f, g); assert(f(n - 1) == g(n - 1)); } }
pub proof fn f_add4<F: Field>(a: F, b: F, c: F, d: F) ensures F::sadd(F::sadd(a, b), F::sadd(c, d)) == F::sadd(F::sadd(a, c), F::sadd(b, d))
{ F::ax_add_assoc(a, b, F::sadd(c, d)); F::ax_add_assoc(b, c, d); F::ax_add_comm(b, c); F::ax_add_assoc(c, b, d); F::ax_add_assoc(a, c, F::sadd(b, d)); }
pub proof fn fsum_add<F: Field>(n: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F, h: spec_fn(int) -> F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == F::sadd(f(i), g(i))
    ensures fsum(n, h) == F::sadd(fsum(n, f), fsum(n, g))
    decreases n
{ if n <= 0 { F::ax_add_zero(F::szero()); } else { fsum_add(n - 1, f, g, h); assert(h(n - 1) == F::sadd(f(n - 1), g(n - 1))); f_add4(fsum(n - 1, f), fsum(n - 1, g), f(n - 1), g(n - 1)); } }
pub proof fn fsum_zero<F: Field>(n: int, f: spec_fn(int) -> F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == F::szero()
    ensures fsum(n, f) == F::szero()
    decreases n
{ if n > 0 { fsum_zero(n - 1, f); assert(f(n - 1) == F::szero()); F::ax_add_zero(F::szero()); } }
// a sum with at most one nonzero term
pub proof fn fsum_one<F: Field>(n: int, f: spec_fn(int) -> F, k: int)
    requires 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == F::szero()
    ensures fsum(n, f) == f(k)
    decreases n
{ if k == n - 1 { fsum_zero(n - 1, f); F::ax_add_zero(f(k)); F::ax_add_comm(F::szero(), f(k)); } else { fsum_one(n - 1, f, k); assert(f(n - 1) == F::szero()); F::ax_add_zero(f(k)); } }
pub proof fn fsum_scale<F: Field>(n: int, a: F, f: spec_fn(int) -> F, g: spec_fn(int) -> F)
    requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == F::smul(a, f(i))
    ensures fsum(n, g) == F::smul(a, fsum(n, f))
    decreases n
{ if n <= 0 { f_mul_zero(a); } else { fsum_scale(n - 1, a, f, g); assert(g(n - 1) == F::smul(a, f(n - 1))); F::ax_distrib(a, fsum(n - 1, f), f(n - 1)); } }
// sum over the stored entries of x of val * w(ind)
pub open spec fn ssum<F: Field>(x: Seq<Nz<F>>, w: spec_fn(int) -> F) -> F
    decreases x.len()
{ if x.len() == 0 { F::szero() } else { F::sadd(ssum(x.drop_last(), w), F::smul(x.last().val, w(x.last().ind as int))) } }
pub proof fn ssum_take<F: Field>(x: Seq<Nz<F>>, k: int, w: spec_fn(int) -> F)
    requires 0 <= k < x.len()
    ensures ssum(x.take(k + 1), w) == F::sadd(ssum(x.take(k), w), F::smul(x[k].val, w(x[k].ind as int)))
{ assert(x.take(k + 1).drop_last() =~= x.take(k)); assert(x.take(k + 1).last() == x[k]); }
// it is the sum over all indices
pub proof fn ssum_fsum<F: Field>(x: Seq<Nz<F>>, n: int, w: spec_fn(int) -> F, f: spec_fn(int) -> F)
    requires sdist(x), sbelow(x, n), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == F::smul(sval(x, i), w(i))
    ensures ssum(x, w) == fsum(n, f)
    decreases x.len()
{
    broadcast use field_basic;
    if x.len() == 0 { fsum_zero(n, f); } else {
        let d = x.drop_last(); let l = x.last(); let g = |i: int| F::smul(sval(d, i), w(i)); let h = |i: int| if i == l.ind as int { F::smul(l.val, w(i)) } else { F::szero() };
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).ind != (#[trigger] d[j]).ind by { assert(x[i].ind != x[j].ind); }
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).ind < n by { assert(x[k].ind < n); }
        assert(x[x.len() - 1].ind < n);
        ssum_fsum(d, n, w, g);
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).ind as int != l.ind as int by { assert(x[k].ind != x[x.len() - 1].ind); }
        sval_absent(d, l.ind as int);
        assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == F::sadd(g(i), h(i)) by { if i == l.ind as int { assert(sval(x, i) == l.val); assert(sval(d, i) == F::szero()); } else { assert(sval(x, i) == sval(d, i)); } }
        fsum_add(n, g, h, f); fsum_one(n, h, l.ind as int);
    }
}
// entries past k contribute nothing
pub proof fn ssum_rest<F: Field>(x: Seq<Nz<F>>, k: int, w: spec_fn(int) -> F)
    requires 0 <= k <= x.len(), forall|j: int| k <= j < x.len() ==> w((#[trigger] x[j]).ind as int) == F::szero()
    ensures ssum(x, w) == ssum(x.take(k), w)
    decreases x.len() - k
{ broadcast use field_basic; if k == x.len() { assert(x.take(k) =~= x); } else { ssum_rest(x, k + 1, w); ssum_take(x, k, w); assert(w(x[k].ind as int) == F::szero()); } }
