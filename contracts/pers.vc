@unit util la
@uses util
@rust
// ---------- union-find forests ----------
pub open spec fn iter(p: Seq<usize>, x: int, k: nat) -> int decreases k { if k == 0 { x } else { iter(p, p[x] as int, (k - 1) as nat) } }
pub open spec fn in_range(p: Seq<usize>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] < p.len() }
// r is the root of x's tree
pub open spec fn at_root(p: Seq<usize>, x: int, r: int, k: nat) -> bool { iter(p, x, k) == r && 0 <= r < p.len() && p[r] == r }
pub open spec fn rootof(p: Seq<usize>, x: int, r: int) -> bool { exists|k: nat| at_root(p, x, r, k) }
pub open spec fn has_root(p: Seq<usize>, x: int) -> bool { exists|r: int| rootof(p, x, r) }
pub open spec fn forest(p: Seq<usize>) -> bool { in_range(p) && forall|x: int| 0 <= x < p.len() ==> #[trigger] has_root(p, x) }
pub proof fn iter_range(p: Seq<usize>, x: int, k: nat) requires in_range(p), 0 <= x < p.len() ensures 0 <= iter(p, x, k) < p.len() decreases k
{ if k > 0 { iter_range(p, p[x] as int, (k - 1) as nat); } }
pub proof fn iter_add(p: Seq<usize>, x: int, a: nat, b: nat) requires in_range(p), 0 <= x < p.len() ensures iter(p, iter(p, x, a), b) == iter(p, x, a + b) decreases a
{ if a > 0 { iter_add(p, p[x] as int, (a - 1) as nat, b); } }
pub proof fn iter_root(p: Seq<usize>, r: int, k: nat) requires 0 <= r < p.len(), p[r] == r ensures iter(p, r, k) == r decreases k
{ if k > 0 { iter_root(p, r, (k - 1) as nat); } }
pub proof fn root_unique(p: Seq<usize>, x: int, r: int, s: int)
    requires in_range(p), 0 <= x < p.len(), rootof(p, x, r), rootof(p, x, s) ensures r == s
{
    let a = choose|k: nat| at_root(p, x, r, k); let b = choose|k: nat| at_root(p, x, s, k);
    if a <= b { iter_add(p, x, a, (b - a) as nat); iter_root(p, r, (b - a) as nat); } else { iter_add(p, x, b, (a - b) as nat); iter_root(p, s, (a - b) as nat); }
}
// the least number of steps from x to its root
pub open spec fn least(p: Seq<usize>, x: int, r: int, k: nat) -> bool { at_root(p, x, r, k) && forall|m: nat| m < k ==> #[trigger] iter(p, x, m) != r }
pub proof fn least_exists(p: Seq<usize>, x: int, r: int, k: nat) -> (d: nat)
    requires in_range(p), 0 <= x < p.len(), at_root(p, x, r, k) ensures least(p, x, r, d), d <= k decreases k
{ if exists|m: nat| m < k && #[trigger] iter(p, x, m) == r { let m = choose|m: nat| m < k && #[trigger] iter(p, x, m) == r; least_exists(p, x, r, m) } else { k } }
pub proof fn compress1(p: Seq<usize>, i: int, r: int, x: int, s: int, k: nat)
    requires in_range(p), 0 <= i < p.len(), rootof(p, i, r), i != r, 0 <= x < p.len(), at_root(p, x, s, k)
    ensures rootof(p.update(i, r as usize), x, s) decreases k
{
    let q = p.update(i, r as usize);
    if x == i {
        assert(rootof(p, x, s)); root_unique(p, x, r, s); assert(q[r] == r);
        assert(iter(q, q[x] as int, 0) == r); assert(at_root(q, x, s, 1));
    } else if k == 0 {
        assert(at_root(q, x, s, 0));
    } else {
        compress1(p, i, r, p[x] as int, s, (k - 1) as nat);
        let m = choose|m: nat| at_root(q, p[x] as int, s, m); assert(q[x] == p[x]); assert(at_root(q, x, s, m + 1));
    }
}
// pointing a non-root i straight at its root changes no root
pub proof fn compress(p: Seq<usize>, i: int, r: int)
    requires forest(p), 0 <= i < p.len(), rootof(p, i, r), i != r
    ensures forest(p.update(i, r as usize)), forall|x: int, s: int| 0 <= x < p.len() ==> (#[trigger] rootof(p.update(i, r as usize), x, s) <==> rootof(p, x, s))
{
    let q = p.update(i, r as usize);
    assert(in_range(q)) by { assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] < q.len() by { if j != i { assert(q[j] == p[j]); } } }
    assert forall|x: int, s: int| 0 <= x < p.len() && rootof(p, x, s) implies #[trigger] rootof(q, x, s) by { let k = choose|k: nat| at_root(p, x, s, k); compress1(p, i, r, x, s, k); }
    assert forall|x: int| 0 <= x < q.len() implies #[trigger] has_root(q, x) by { assert(has_root(p, x)); let s = choose|s: int| rootof(p, x, s); assert(rootof(q, x, s)); }
    assert forall|x: int, s: int| 0 <= x < p.len() && rootof(q, x, s) implies rootof(p, x, s) by { assert(has_root(p, x)); let t = choose|t: int| rootof(p, x, t); assert(rootof(q, x, t)); root_unique(q, x, s, t); }
}
// the next node of the path is nearer to the root, also after the update
pub proof fn compress_path(p: Seq<usize>, i: int, r: int, k: nat, m: nat)
    requires in_range(p), 0 <= i < p.len(), least(p, i, r, k), k >= 1, m + 1 <= k
    ensures iter(p.update(i, r as usize), p[i] as int, m) == iter(p, i, m + 1) decreases m
{
    let q = p.update(i, r as usize);
    if m > 0 {
        compress_path(p, i, r, k, (m - 1) as nat);
        let y = iter(p, i, m);
        iter_add(p, i, m, 1); iter_range(p, i, m); 
        assert(iter(p, y, 1) == p[y]) by { assert(iter(p, p[y] as int, 0) == p[y]); }
        assert(y != i) by { if y == i { iter_add(p, i, m, (k - m) as nat); assert(iter(p, i, (k - m) as nat) == r); } }
        let q2 = q; 
        assert(in_range(q)) by { assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] < q.len() by { if j != i { assert(q[j] == p[j]); } } }
        iter_add(q, p[i] as int, (m - 1) as nat, 1);
        assert(iter(q, y, 1) == q[y]) by { assert(iter(q, q[y] as int, 0) == q[y]); }
    } else { assert(iter(p, p[i] as int, 0) == p[i]); }
}

// ---------- barcodes as multisets ----------
pub open spec fn same_bar(a: PPair, b: PPair) -> bool { a.dim == b.dim && a.birth == b.birth && a.death == b.death }
// multiplicity of the bar x among the first n pairs of s
pub open spec fn mult(s: Seq<PPair>, n: int, x: PPair) -> int decreases n { if n <= 0 { 0 } else { mult(s, n - 1, x) + (if same_bar(s[n - 1], x) { 1int } else { 0 }) } }
// ... among those not marked
pub open spec fn umult(s: Seq<PPair>, m: Seq<bool>, n: int, x: PPair) -> int decreases n { if n <= 0 { 0 } else { umult(s, m, n - 1, x) + (if !m[n - 1] && same_bar(s[n - 1], x) { 1int } else { 0 }) } }
pub open spec fn nmark(m: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { nmark(m, n - 1) + (if m[n - 1] { 1int } else { 0 }) } }
pub open spec fn unmarked_none(m: Seq<bool>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !#[trigger] m[j] }
pub proof fn umult_start(s: Seq<PPair>, m: Seq<bool>, n: int, x: PPair) requires unmarked_none(m, n) ensures umult(s, m, n, x) == mult(s, n, x), nmark(m, n) == 0 decreases n
{ if n > 0 { umult_start(s, m, n - 1, x); assert(!m[n - 1]); } }
pub proof fn nmark_start(m: Seq<bool>, n: int) requires unmarked_none(m, n) ensures nmark(m, n) == 0 decreases n
{ if n > 0 { nmark_start(m, n - 1); assert(!m[n - 1]); } }
pub proof fn umult_mark(s: Seq<PPair>, m: Seq<bool>, n: int, j: int, x: PPair)
    requires 0 <= j < m.len(), !m[j], 0 <= n <= m.len()
    ensures umult(s, m.update(j, true), n, x) == umult(s, m, n, x) - (if j < n && same_bar(s[j], x) { 1int } else { 0 }) decreases n
{ if n > 0 { umult_mark(s, m, n - 1, j, x); } }
pub proof fn nmark_mark(m: Seq<bool>, n: int, j: int)
    requires 0 <= j < m.len(), !m[j], 0 <= n <= m.len()
    ensures nmark(m.update(j, true), n) == nmark(m, n) + (if j < n { 1int } else { 0 }) decreases n
{ if n > 0 { nmark_mark(m, n - 1, j); } }
pub proof fn umult_none(s: Seq<PPair>, m: Seq<bool>, n: int, x: PPair)
    requires forall|j: int| 0 <= j < n ==> m[j] || !same_bar(#[trigger] s[j], x) ensures umult(s, m, n, x) == 0 decreases n
{ if n > 0 { umult_none(s, m, n - 1, x); assert(m[n - 1] || !same_bar(s[n - 1], x)); } }
pub proof fn nmark_bound(s: Seq<PPair>, m: Seq<bool>, n: int, x: PPair)
    ensures n >= 0 ==> 0 <= nmark(m, n) <= n, n >= 0 && nmark(m, n) == n ==> umult(s, m, n, x) == 0 decreases n
{ if n > 0 { nmark_bound(s, m, n - 1, x); } }
pub proof fn mult_mono(s: Seq<PPair>, a: int, b: int, x: PPair) requires a <= b ensures mult(s, a, x) <= mult(s, b, x) decreases b - a
{ if a < b { mult_mono(s, a, b - 1, x); } }
pub open spec fn match_inv(p1: Seq<PPair>, p2: Seq<PPair>, m: Seq<bool>, i: int) -> bool {
    m.len() == p2.len() && nmark(m, p2.len() as int) == i && forall|x: PPair| #[trigger] mult(p1, i, x) + umult(p2, m, p2.len() as int, x) == mult(p2, p2.len() as int, x)
}
@end
@fn bats::find_parent(&mut Vec<usize>, usize) as find_parent
@prop P13
@requires
  forest(old(parent)@), i < old(parent)@.len()
@ensures
  final(parent)@.len() == old(parent)@.len(), forest(final(parent)@),
  rootof(old(parent)@, i as int, ret as int), ret < final(parent)@.len(), final(parent)@[ret as int] == ret,
  forall|x: int, s: int| 0 <= x < old(parent)@.len() ==> (#[trigger] rootof(final(parent)@, x, s) <==> rootof(old(parent)@, x, s)),
@at entry
  let ghost i0 = i as int; let ghost p0 = parent@; let ghost mut j: nat = 0;
  assert(has_root(p0, i0));
  let ghost r0 = choose|r: int| rootof(p0, i0, r);
  let ghost k0 = choose|k: nat| at_root(p0, i0, r0, k);
@loop 0
  invariant root < p0.len(), parent@ == p0, i == i0, j <= k0, root == iter(p0, i0, j), at_root(p0, i0, r0, k0), forest(p0),
  decreases k0 - j
@at loop 0 begin
  proof { if j == k0 { } iter_add(p0, i0, j, 1); assert(iter(p0, p0[root as int] as int, 0) == p0[root as int]); assert(iter(p0, root as int, 1) == p0[root as int]); j = j + 1; }
@at loop 1 before
  proof { assert(at_root(p0, i0, root as int, j)); assert(rootof(p0, i0, root as int)); }
  let ghost mut d: nat = least_exists(p0, i0, root as int, j);
@loop 1
  invariant root < p0.len(), parent@.len() == p0.len(), i < p0.len(), forest(parent@), least(parent@, i as int, root as int, d), parent@[root as int] == root,
    forall|x: int, s: int| 0 <= x < p0.len() ==> (#[trigger] rootof(parent@, x, s) <==> rootof(p0, x, s)),
  decreases d
@at loop 1 begin
  let ghost pb = parent@; let ghost ib = i as int;
  proof { assert(at_root(pb, ib, root as int, d)); assert(rootof(pb, ib, root as int)); assert(d >= 1); assert(ib != root);
    compress(pb, ib, root as int); compress_path(pb, ib, root as int, d, (d - 1) as nat); 
    assert(at_root(pb.update(ib, root), pb[ib] as int, root as int, (d - 1) as nat)); 
    d = least_exists(pb.update(ib, root), pb[ib] as int, root as int, (d - 1) as nat); }
@fn PPair::operator==(PPair) const as pp_eq
@prop P20
@ensures
  ret == same_bar(*this, other),
@fn PPair::operator!=(PPair) const as pp_ne
@prop P20
@ensures
  ret == !same_bar(*this, other),
@fn bats::barcode_equality(Vec<PPair>, Vec<PPair>) as barcode_equality
@prop P20
@ensures
  ret <==> (ps1@.len() == ps2@.len() && forall|x: PPair| #[trigger] mult(ps1@, ps1@.len() as int, x) == mult(ps2@, ps2@.len() as int, x)),
@at loop 0 before
  proof { nmark_start(matched@, n as int); assert forall|x: PPair| #[trigger] mult(ps1@, 0, x) + umult(ps2@, matched@, n as int, x) == mult(ps2@, n as int, x) by { umult_start(ps2@, matched@, n as int, x); } }
@loop 0
  invariant n == ps1@.len(), n == ps2@.len(), i <= n, match_inv(ps1@, ps2@, matched@, i as int),
  decreases n - i
@at loop 0 begin
  let ghost m0 = matched@;
@loop 1
  invariant_except_break j <= n, !found_match, matched@ == m0, forall|l: int| 0 <= l < j ==> m0[l] || !same_bar(#[trigger] ps2@[l], ps1@[i as int]),
  ensures found_match ==> j < n && !m0[j as int] && same_bar(ps2@[j as int], ps1@[i as int]) && matched@ == m0.update(j as int, true),
    !found_match ==> matched@ == m0 && forall|l: int| 0 <= l < n ==> m0[l] || !same_bar(#[trigger] ps2@[l], ps1@[i as int]),
  decreases n - j
@at loop 1 after
  proof {
    let pi = ps1@[i as int];
    if found_match {
      nmark_mark(m0, n as int, j as int);
      assert forall|x: PPair| #[trigger] mult(ps1@, i + 1, x) + umult(ps2@, matched@, n as int, x) == mult(ps2@, n as int, x) by { umult_mark(ps2@, m0, n as int, j as int, x); assert(mult(ps1@, i as int, x) + umult(ps2@, m0, n as int, x) == mult(ps2@, n as int, x)); }
    } else {
      umult_none(ps2@, m0, n as int, pi); assert(mult(ps1@, i as int, pi) + umult(ps2@, m0, n as int, pi) == mult(ps2@, n as int, pi));
      mult_mono(ps1@, i + 1, n as int, pi);
      assert(mult(ps1@, n as int, pi) != mult(ps2@, n as int, pi));
    }
  }
@at loop 0 after
  proof { assert forall|x: PPair| #[trigger] mult(ps1@, n as int, x) == mult(ps2@, n as int, x) by { assert(mult(ps1@, n as int, x) + umult(ps2@, matched@, n as int, x) == mult(ps2@, n as int, x)); nmark_bound(ps2@, matched@, n as int, x); } }
