// ---- trusted wrappers for the C++ language / library ----
#[verifier::external_body]
pub fn cpp_copy<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn cpp_take<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_throw() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn cpp_throw_ok() -> ! { unimplemented!() }
pub fn cpp_pop_back<T>(v: &mut Vec<T>)
    requires old(v)@.len() > 0
    ensures final(v)@ == old(v)@.drop_last()
{ let _ = v.pop(); }
#[verifier::external_body]
pub fn cpp_vac_end() -> ! { unimplemented!() }

pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
#[verifier::external_body]
pub fn cpp_div_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_rem_i32(a: i32, b: i32) -> (r: i32) requires b != 0, !(a == i32::MIN && b == -1) ensures r == trem(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_div_i64(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == tdiv(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_rem_i64(a: i64, b: i64) -> (r: i64) requires b != 0, !(a == i64::MIN && b == -1) ensures r == trem(a as int, b as int) { unimplemented!() }
pub fn cpp_min_usize(a: usize, b: usize) -> (r: usize) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub fn cpp_max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub fn cpp_min_i32(a: i32, b: i32) -> (r: i32) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub fn cpp_max_i32(a: i32, b: i32) -> (r: i32) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub fn cpp_min_i64(a: i64, b: i64) -> (r: i64) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub fn cpp_max_i64(a: i64, b: i64) -> (r: i64) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
pub fn cpp_min_u32(a: u32, b: u32) -> (r: u32) ensures r == if b < a { b } else { a } { if b < a { b } else { a } }
pub fn cpp_max_u32(a: u32, b: u32) -> (r: u32) ensures r == if a < b { b } else { a } { if a < b { b } else { a } }
#[verifier::external_body]
pub fn cpp_uninit_usize() -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_uninit_i32() -> (r: i32) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_uninit_i64() -> (r: i64) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_uninit_u32() -> (r: u32) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_uninit_bool() -> (r: bool) { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_usize_i64(x: usize) -> (r: i64) ensures r == if x <= i64::MAX { x as int } else { x - 0x1_0000_0000_0000_0000 } { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_usize_i32(x: usize) -> (r: i32) ensures i32::MIN <= x <= i32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_usize_u32(x: usize) -> (r: u32) ensures u32::MIN <= x <= u32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_i64_usize(x: i64) -> (r: usize) ensures r == if x >= 0 { x as int } else { x + 0x1_0000_0000_0000_0000 } { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_i64_i32(x: i64) -> (r: i32) ensures i32::MIN <= x <= i32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_i64_u32(x: i64) -> (r: u32) ensures u32::MIN <= x <= u32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_i32_usize(x: i32) -> (r: usize) ensures usize::MIN <= x <= usize::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_i32_u32(x: i32) -> (r: u32) ensures u32::MIN <= x <= u32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }
// value-preserving when representable; otherwise C++ reduces modulo 2^width
#[verifier::external_body]
pub fn cpp_cast_u32_i32(x: u32) -> (r: i32) ensures i32::MIN <= x <= i32::MAX ==> r == x, (r as int - x as int) % 0x1_0000_0000 == 0 { unimplemented!() }

// std::vector::max_size() is at most PTRDIFF_MAX: growing past it throws std::length_error
#[verifier::external_body]
pub proof fn vec_max<T>(v: Vec<T>) ensures v@.len() <= i64::MAX { }
pub fn cpp_idiff(a: usize, b: usize) -> (r: i64) requires a <= i64::MAX, b <= i64::MAX ensures r == a - b { (a as i64) - (b as i64) }
pub fn cpp_assign<T>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == x
{
    v.clear(); cpp_resize(v, n, x);
}
pub fn cpp_resize<T>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == if i < old(v)@.len() { old(v)@[i] } else { x }
{
    let ghost o = v@;
    while v.len() > n
        invariant v@.len() <= o.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == o[i], v@.len() >= n || v@ == o,
        decreases v@.len()
    { let _ = v.pop(); }
    while v.len() < n
        invariant v@.len() <= n, o.len() >= n ==> v@.len() == n, o.len() < n ==> v@.len() >= o.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == if i < o.len() { o[i] } else { x },
        decreases n - v@.len()
    { v.push(cpp_copy(&x)); }
}
pub fn cpp_vec_fill<T>(n: usize, x: T) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ let mut v = Vec::new(); cpp_resize(&mut v, n, x); v }
pub fn cpp_vec_range<T>(v: &Vec<T>, b: usize, e: usize) -> (r: Vec<T>)
    requires b <= e <= v@.len()
    ensures r@ == v@.subrange(b as int, e as int)
{
    let mut r = Vec::new(); let mut i = b;
    while i < e invariant b <= i <= e <= v@.len(), r@ == v@.subrange(b as int, i as int) decreases e - i
    { r.push(cpp_copy(&v[i])); i = i + 1; assert(r@ =~= v@.subrange(b as int, i as int)); }
    r
}
pub fn cpp_iota(v: &mut Vec<usize>, x: usize)
    requires x + old(v)@.len() <= usize::MAX
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == x + i
{
    let ghost o = v@; let n = v.len(); let mut k: usize = 0;
    while k < n invariant k <= n, n == o.len(), v@.len() == n, x + n <= usize::MAX, forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == x + i decreases n - k
    { v.set(k, x + k); k = k + 1; }
}
pub fn cpp_fill<T>(v: &mut Vec<T>, x: T)
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == x
{
    let ghost o = v@; let n = v.len(); let mut k: usize = 0;
    while k < n invariant k <= n, n == o.len(), v@.len() == n, forall|i: int| 0 <= i < k ==> #[trigger] v@[i] == x decreases n - k
    { v.set(k, cpp_copy(&x)); k = k + 1; }
}
pub fn cpp_reverse<T>(v: &mut Vec<T>)
    ensures final(v)@ == old(v)@.reverse()
{
    let ghost o = v@; let n = v.len(); let mut r: Vec<T> = Vec::new(); let mut k: usize = 0;
    while k < n invariant k <= n, n == o.len(), v@ == o, r@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] r@[i] == o[n - 1 - i] decreases n - k
    { r.push(cpp_copy(&v[n - 1 - k])); k = k + 1; }
    assert(r@ =~= o.reverse());
    *v = r;
}
pub fn cpp_erase<T>(v: &mut Vec<T>, b: usize, e: usize)
    requires b <= e <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(b as int) + old(v)@.skip(e as int)
{
    let ghost o = v@; let mut k = e;
    assert(v@ =~= o.take(k as int) + o.skip(e as int));
    while k > b invariant b <= k <= e <= o.len(), v@ == o.take(k as int) + o.skip(e as int) decreases k
    { k = k - 1; let _ = v.remove(k); assert(v@ =~= o.take(k as int) + o.skip(e as int)); }
}
pub fn cpp_erase1<T>(v: &mut Vec<T>, b: usize)
    requires b < old(v)@.len()
    ensures final(v)@ == old(v)@.remove(b as int)
{ let _ = v.remove(b); }
pub fn cpp_insert<T>(v: &mut Vec<T>, b: usize, x: T)
    requires b <= old(v)@.len()
    ensures final(v)@ == old(v)@.insert(b as int, x)
{ v.insert(b, x); }

// std::lower_bound / upper_bound on a sorted range of integers
pub open spec fn nondecr_usize(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
// strictly increasing
pub open spec fn incr(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn cmem(s: Seq<usize>, x: usize) -> bool { s.contains(x) }
// std::binary_search
pub fn cpp_binary_search_usize(v: &Vec<usize>, b: usize, e: usize, k: usize) -> (r: bool)
    requires b <= e <= v@.len(), nondecr_usize(v@.subrange(b as int, e as int))
    ensures r == v@.subrange(b as int, e as int).contains(k)
{
    let mut i = b;
    while i < e
        invariant b <= i <= e <= v@.len(), forall|j: int| b <= j < i ==> #[trigger] v@[j] != k
        decreases e - i
    { if v[i] == k { assert(v@.subrange(b as int, e as int)[i - b] == k); return true; } i = i + 1; }
    false
}
pub fn cpp_lower_bound_usize(v: &Vec<usize>, b: usize, e: usize, k: usize) -> (r: usize)
    requires b <= e <= v@.len(), nondecr_usize(v@.subrange(b as int, e as int))
    ensures b <= r <= e, forall|i: int| b <= i < r ==> #[trigger] v@[i] < k, forall|i: int| r <= i < e ==> #[trigger] v@[i] >= k
{
    let mut r = b;
    while r < e && v[r] < k invariant b <= r <= e <= v@.len(), forall|i: int| b <= i < r ==> #[trigger] v@[i] < k decreases e - r { r = r + 1; }
    assert forall|i: int| r <= i < e implies #[trigger] v@[i] >= k by { let s = v@.subrange(b as int, e as int); assert(s[r - b] <= s[i - b]); }
    r
}
// std::sort
#[verifier::external_body]
pub fn cpp_sort_usize(v: &mut Vec<usize>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), nondecr_usize(final(v)@)
{ unimplemented!() }
pub open spec fn nondecr_i32(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub fn cpp_find_usize(v: &Vec<usize>, b: usize, e: usize, k: usize) -> (r: usize)
    requires b <= e <= v@.len()
    ensures b <= r <= e, forall|i: int| b <= i < r ==> #[trigger] v@[i] != k, r < e ==> v@[r as int] == k
{
    let mut r = b;
    while r < e
        invariant b <= r <= e, e <= v@.len(), forall|i: int| b <= i < r ==> #[trigger] v@[i] != k
        decreases e - r
    { if v[r] == k { return r; } r = r + 1; }
    r
}
// the value type's infinity, left abstract
pub uninterp spec fn inf_i32() -> i32;
#[verifier::external_body]
pub fn cpp_inf_i32() -> (r: i32) ensures r == inf_i32()
{ unimplemented!() }
pub fn cpp_lower_bound_i32(v: &Vec<i32>, b: usize, e: usize, k: i32) -> (r: usize)
    requires b <= e <= v@.len(), nondecr_i32(v@.subrange(b as int, e as int))
    ensures b <= r <= e, forall|i: int| b <= i < r ==> #[trigger] v@[i] < k, forall|i: int| r <= i < e ==> #[trigger] v@[i] >= k
{
    let mut r = b;
    while r < e && v[r] < k invariant b <= r <= e <= v@.len(), forall|i: int| b <= i < r ==> #[trigger] v@[i] < k decreases e - r { r = r + 1; }
    assert forall|i: int| r <= i < e implies #[trigger] v@[i] >= k by { let s = v@.subrange(b as int, e as int); assert(s[r - b] <= s[i - b]); }
    r
}
// std::sort
#[verifier::external_body]
pub fn cpp_sort_i32(v: &mut Vec<i32>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), nondecr_i32(final(v)@)
{ unimplemented!() }

// std::sort / std::stable_sort with a comparison function, which must be a strict weak order on the elements sorted
pub open spec fn strict_weak<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !#[trigger] lt(s[i], s[i])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] lt(s[i], s[j]) && #[trigger] lt(s[j], s[k]) ==> lt(s[i], s[k])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && !#[trigger] lt(s[i], s[j]) && !#[trigger] lt(s[j], s[k]) ==> !lt(s[i], s[k])
}
pub open spec fn sorted_by_lt<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !lt(#[trigger] s[j], #[trigger] s[i]) }
// the rearrangement r of s given by the index permutation w
pub open spec fn is_perm(w: Seq<int>, n: int) -> bool { w.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] w[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] w[i] != #[trigger] w[j]) }
pub open spec fn rearranged<T>(s: Seq<T>, w: Seq<int>, r: Seq<T>) -> bool { is_perm(w, s.len() as int) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == s[w[i]] }
#[verifier::external_body]
pub fn cpp_sort_by<T, C: Fn(T, T) -> bool>(v: &mut Vec<T>, f: C, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (w: Ghost<Seq<int>>)
    requires
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((old(v)@[i], old(v)@[j])),
        forall|a: T, b: T, r: bool| #[trigger] f.ensures((a, b), r) ==> r == lt(a, b),
        strict_weak(old(v)@, lt),
    ensures rearranged(old(v)@, w@, final(v)@), sorted_by_lt(final(v)@, lt)
{ unimplemented!() }
#[verifier::external_body]
pub fn cpp_stable_sort_by<T, C: Fn(T, T) -> bool>(v: &mut Vec<T>, f: C, Ghost(lt): Ghost<spec_fn(T, T) -> bool>) -> (w: Ghost<Seq<int>>)
    requires
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((old(v)@[i], old(v)@[j])),
        forall|a: T, b: T, r: bool| #[trigger] f.ensures((a, b), r) ==> r == lt(a, b),
        strict_weak(old(v)@, lt),
    ensures rearranged(old(v)@, w@, final(v)@), sorted_by_lt(final(v)@, lt),
        forall|i: int, j: int| 0 <= i < j < old(v)@.len() && !lt(final(v)@[i], final(v)@[j]) ==> #[trigger] w@[i] < #[trigger] w@[j]
{ unimplemented!() }

pub fn cpp_range_copy<T>(v: &Vec<T>, b: usize, e: usize, o: &mut Vec<T>, k: usize)
    requires b <= e <= v@.len(), k + (e - b) <= old(o)@.len()
    ensures final(o)@.len() == old(o)@.len(), forall|i: int| 0 <= i < old(o)@.len() ==> #[trigger] final(o)@[i] == if k <= i < k + (e - b) { v@[b + (i - k)] } else { old(o)@[i] }
{
    let ghost w = o@; let mut i = b; let wn = o.len();
    while i < e invariant b <= i <= e <= v@.len(), k + (e - b) <= w.len(), o@.len() == w.len(), wn == w.len(), forall|j: int| 0 <= j < w.len() ==> #[trigger] o@[j] == if k <= j < k + (i - b) { v@[b + (j - k)] } else { w[j] } decreases e - i
    { o.set(k + (i - b), cpp_copy(&v[i])); i = i + 1; }
}

// the C assert macro: its condition must hold
pub fn cpp_assert(b: bool) requires b { }

pub fn cpp_insert_range<T>(v: &mut Vec<T>, k: usize, x: &Vec<T>, b: usize, e: usize)
    requires b <= e <= x@.len(), k <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(k as int) + x@.subrange(b as int, e as int) + old(v)@.skip(k as int)
{
    let ghost o = v@; let mut i = b; let mut p = k;
    assert(v@ =~= o.take(k as int) + x@.subrange(b as int, b as int) + o.skip(k as int));
    while i < e invariant b <= i <= e <= x@.len(), k <= o.len(), p == k + (i - b), v@.len() == o.len() + (i - b), v@ == o.take(k as int) + x@.subrange(b as int, i as int) + o.skip(k as int) decreases e - i
    { assert(v.len() == v@.len()); v.insert(p, cpp_copy(&x[i])); i = i + 1; assert(v@.len() <= v.len()); p = p + 1; assert(v@ =~= o.take(k as int) + x@.subrange(b as int, i as int) + o.skip(k as int)); }
}
pub fn cpp_rotate<T>(v: &mut Vec<T>, m: usize)
    requires m <= old(v)@.len()
    ensures final(v)@ == old(v)@.skip(m as int) + old(v)@.take(m as int)
{
    let ghost o = v@; let n = v.len(); let mut r: Vec<T> = Vec::new(); let mut i = m;
    while i < n invariant m <= i <= n, n == o.len(), v@ == o, r@ == o.subrange(m as int, i as int) decreases n - i
    { r.push(cpp_copy(&v[i])); i = i + 1; assert(r@ =~= o.subrange(m as int, i as int)); }
    i = 0;
    while i < m invariant i <= m <= n, n == o.len(), v@ == o, r@ == o.subrange(m as int, n as int) + o.take(i as int) decreases m - i
    { r.push(cpp_copy(&v[i])); i = i + 1; assert(r@ =~= o.subrange(m as int, n as int) + o.take(i as int)); }
    assert(r@ =~= o.skip(m as int) + o.take(m as int));
    *v = r;
}

// ---- std::map / std::unordered_map (trusted model: a partial function from keys to values) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct CppMap<K, V> { k: K, v: V }
impl<K, V> CppMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
pub open spec fn map_vec_at<E>(m: Map<usize, Vec<E>>, k: usize) -> Seq<E> { if m.dom().contains(k) { m[k]@ } else { Seq::empty() } }
#[verifier::external_body]
pub fn cpp_map_at_vec<E>(m: &mut CppMap<usize, Vec<E>>, k: usize) -> (r: &mut Vec<E>)
    ensures (*r)@ == map_vec_at(old(m)@, k), old(m)@.dom().contains(k) ==> *r == old(m)@[k],
        final(m)@ == old(m)@.insert(k, *final(r)),
        old(m)@.dom().contains(k) && *final(r) == old(m)@[k] ==> final(m)@ == old(m)@
{ unimplemented!() }
#[verifier::external_body]
pub fn cpp_map_at_num(m: &mut CppMap<usize, usize>, k: usize) -> (r: &mut usize)
    ensures *r == (if old(m)@.dom().contains(k) { old(m)@[k] } else { 0 }), final(m)@ == old(m)@.insert(k, *final(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn cpp_map_count<V>(m: &CppMap<usize, V>, k: usize) -> (r: usize) ensures r == if m@.dom().contains(k) { 1int } else { 0 } { unimplemented!() }
#[verifier::external_body]
pub fn cpp_map_erase<V>(m: &mut CppMap<usize, V>, k: usize) ensures final(m)@ == old(m)@.remove(k) { unimplemented!() }
#[verifier::external_body]
pub fn cpp_map_clear<V>(m: &mut CppMap<usize, V>) ensures final(m)@ == Map::<usize, V>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn cpp_map_len<V>(m: &CppMap<usize, V>) -> (r: usize) ensures r == m@.dom().len() { unimplemented!() }
