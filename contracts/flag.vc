@unit util
@uses util sortp spx
@rust

pub open spec fn subm(a: Seq<usize>, b: Seq<usize>) -> bool { forall|x: usize| #[trigger] cmem(a, x) ==> cmem(b, x) }
// any two members of s that are candidates are neighbours
pub open spec fn cliq(nb: Seq<Vec<usize>>, it: Seq<usize>, s: Seq<usize>) -> bool {
    forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(it, a) && cmem(it, b) && a < b ==> cmem(nb[b as int]@, a)
}
// the simplices that extend x by one to r candidates forming a clique
pub open spec fn fam(x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, s: Seq<usize>) -> bool {
    &&& incr(s) && x.len() < s.len() && s.len() <= x.len() + r && subm(x, s)
    &&& forall|y: usize| #[trigger] cmem(s, y) ==> cmem(x, y) || cmem(it, y)
    &&& cliq(nb, it, s)
}
pub proof fn incr_nodup(a: Seq<usize>) requires incr(a) ensures a.no_duplicates()
{ assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i] < a[j]); } else { assert(a[j] < a[i]); } } }
pub proof fn incr_sub(a: Seq<usize>, b: Seq<usize>)
    requires incr(a), incr(b), subm(a, b)
    ensures a.len() <= b.len(), a.len() == b.len() ==> subm(b, a)
{
    incr_nodup(a); incr_nodup(b); a.unique_seq_to_set(); b.unique_seq_to_set();
    assert(a.to_set().subset_of(b.to_set())) by { assert forall|x: usize| a.to_set().contains(x) implies b.to_set().contains(x) by { assert(cmem(a, x)); assert(cmem(b, x)); } }
    vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
    if a.len() == b.len() {
        vstd::set_lib::lemma_subset_equality(a.to_set(), b.to_set());
        assert forall|x: usize| #[trigger] cmem(b, x) implies cmem(a, x) by { assert(b.to_set().contains(x)); assert(a.to_set().contains(x)); }
    }
}
// an increasing sequence is determined by its members
pub proof fn incr_eq(a: Seq<usize>, b: Seq<usize>)
    requires incr(a), incr(b), subm(a, b), subm(b, a)
    ensures a == b
    decreases a.len()
{
    incr_sub(a, b); incr_sub(b, a);
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(cmem(a, a[n])); assert(cmem(b, a[n])); let i = b.index_of(a[n]);
        assert(cmem(b, b[n])); assert(cmem(a, b[n])); let j = a.index_of(b[n]);
        assert(a[n] <= b[n]) by { if i < n { assert(b[i] < b[n]); } }
        assert(b[n] <= a[n]) by { if j < n { assert(a[j] < a[n]); } }
        let c = a.drop_last(); let d = b.drop_last();
        assert(incr(c) && incr(d)) by { assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] c[i] < #[trigger] c[j] && d[i] < d[j] by { assert(a[i] < a[j]); assert(b[i] < b[j]); } assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] d[i] < #[trigger] d[j] by { assert(c[i] < c[j]); } }
        assert(subm(c, d)) by { assert forall|x: usize| #[trigger] cmem(c, x) implies cmem(d, x) by { let k = c.index_of(x); assert(a[k] == x); assert(cmem(a, x)); assert(cmem(b, x)); let l = b.index_of(x); assert(a[k] < a[n]); assert(l < n); assert(d[l] == x); } }
        assert(subm(d, c)) by { assert forall|x: usize| #[trigger] cmem(d, x) implies cmem(c, x) by { let k = d.index_of(x); assert(b[k] == x); assert(cmem(b, x)); assert(cmem(a, x)); let l = a.index_of(x); assert(b[k] < b[n]); assert(l < n); assert(c[l] == x); } }
        incr_eq(c, d); assert(a == c.push(a[n])); assert(b == d.push(b[n]));
    }
    assert(a =~= b);
}
// sorting x with k appended
pub proof fn push_sorted(x: Seq<usize>, k: usize, y: Seq<usize>)
    requires incr(x), !cmem(x, k), nondecr_usize(y), y.to_multiset() == x.push(k).to_multiset()
    ensures incr(y), y.len() == x.len() + 1, forall|z: usize| #[trigger] cmem(y, z) <==> (cmem(x, z) || z == k)
{
    let p = x.push(k);
    x.to_multiset_ensures(); p.to_multiset_ensures(); y.to_multiset_ensures();
    assert(y.len() == p.len());
    assert(p.no_duplicates()) by { incr_nodup(x); assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i == x.len() { assert(x[j] == p[j]); assert(cmem(x, x[j])); } else if j == x.len() { assert(x[i] == p[i]); assert(cmem(x, x[i])); } else { assert(x[i] == p[i] && x[j] == p[j]); } } }
    p.lemma_multiset_has_no_duplicates();
    assert(y.no_duplicates()) by { y.lemma_multiset_has_no_duplicates_conv(); }
    assert(incr(y)) by { assert forall|i: int, j: int| 0 <= i < j < y.len() implies #[trigger] y[i] < #[trigger] y[j] by { assert(y[i] <= y[j]); assert(y[i] != y[j]); } }
    assert forall|z: usize| #[trigger] cmem(y, z) <==> (cmem(x, z) || z == k) by {
        assert(y.contains(z) <==> y.to_multiset().count(z) > 0); assert(p.contains(z) <==> p.to_multiset().count(z) > 0);
        if p.contains(z) { let i = p.index_of(z); if i < x.len() { assert(x[i] == z); } }
        if cmem(x, z) { let i = x.index_of(z); assert(p[i] == z); }
        if z == k { assert(p[x.len() as int] == z); }
    }
}
pub open spec fn disj(x: Seq<usize>, it: Seq<usize>) -> bool { forall|y: usize| !(#[trigger] cmem(x, y) && #[trigger] cmem(it, y)) }
pub open spec fn nbs_ok(nb: Seq<Vec<usize>>) -> bool { forall|i: int| 0 <= i < nb.len() ==> incr(#[trigger] nb[i]@) }
pub proof fn take_mem(it: Seq<usize>, i: int, y: usize)
    requires incr(it), 0 <= i < it.len()
    ensures cmem(it.take(i), y) <==> (cmem(it, y) && y < it[i]), cmem(it.take(i + 1), y) <==> (cmem(it, y) && y <= it[i]), cmem(it, it[i])
{
    let a = it.take(i); let b = it.take(i + 1);
    if cmem(a, y) { let k = a.index_of(y); assert(it[k] == y); assert(it[k] < it[i]); }
    if cmem(b, y) { let k = b.index_of(y); assert(it[k] == y); if k < i { assert(it[k] < it[i]); } }
    if cmem(it, y) { let k = it.index_of(y); if k < i { assert(a[k] == y); assert(b[k] == y); assert(it[k] < it[i]); } else if k == i { assert(b[k] == y); } else { assert(it[i] < it[k]); } }
    assert(it[i] == it[i]);
}
// x2 is x with the candidate it[i]
pub open spec fn ext(x: Seq<usize>, k: usize, x2: Seq<usize>) -> bool { incr(x2) && x2.len() == x.len() + 1 && forall|z: usize| #[trigger] cmem(x2, z) <==> (cmem(x, z) || z == k) }
pub open spec fn it_lt(it: Seq<usize>, nbk: Seq<usize>, k: usize, it2: Seq<usize>) -> bool { incr(it2) && forall|y: usize| #[trigger] cmem(it2, y) <==> (cmem(it, y) && cmem(nbk, y) && y < k) }
// the extensions that use the candidates up to it[i]: those that do not use it, the one that adds nothing else, and those found by the recursion
pub proof fn fam_step(x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, i: int, x2: Seq<usize>, it2: Seq<usize>, s: Seq<usize>)
    requires incr(x), incr(it), disj(x, it), 0 <= i < it.len(), r >= 1, ext(x, it[i], x2), r > 1 ==> it_lt(it, nb[it[i] as int]@, it[i], it2)
    ensures fam(x, it.take(i + 1), nb, r, s) <==> (fam(x, it.take(i), nb, r, s) || s == x2 || (r > 1 && fam(x2, it2, nb, r - 1, s)))
{
    let k = it[i]; let t = it.take(i); let u = it.take(i + 1);
    assert forall|y: usize| (#[trigger] cmem(t, y) <==> (cmem(it, y) && y < k)) by { take_mem(it, i, y); }
    assert forall|y: usize| (#[trigger] cmem(u, y) <==> (cmem(it, y) && y <= k)) by { take_mem(it, i, y); }
    take_mem(it, i, k); assert(cmem(u, k));
    if fam(x, u, nb, r, s) {
        if !cmem(s, k) {
            assert(cliq(nb, t, s));
            assert(fam(x, t, nb, r, s)) by { assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(t, y) by { assert(cmem(x, y) || cmem(u, y)); } }
        } else {
            assert(subm(x2, s)); incr_sub(x2, s);
            if s.len() == x2.len() { incr_eq(x2, s); }
            else {
                assert(r > 1);
                assert(fam(x2, it2, nb, r - 1, s)) by {
                    assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x2, y) || cmem(it2, y) by { if !cmem(x2, y) { assert(cmem(u, y)); assert(cmem(s, k)); assert(y < k); assert(cmem(nb[k as int]@, y)); } }
                    assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(it2, a) && cmem(it2, b) && a < b implies cmem(nb[b as int]@, a) by { assert(cmem(u, a) && cmem(u, b)); }
                }
            }
        }
    }
    if fam(x, t, nb, r, s) {
        assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(u, a) && cmem(u, b) && a < b implies cmem(nb[b as int]@, a) by {
            assert(cmem(x, a) || cmem(t, a)); assert(cmem(x, b) || cmem(t, b));
        }
        assert(fam(x, u, nb, r, s)) by { assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(u, y) by { assert(cmem(x, y) || cmem(t, y)); } }
    }
    if s == x2 {
        assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(u, a) && cmem(u, b) && a < b implies cmem(nb[b as int]@, a) by {
            assert(cmem(it, a) && cmem(it, b)); assert(a == k && b == k);
        }
        assert(fam(x, u, nb, r, s)) by { assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(u, y) by { assert(cmem(x2, y)); } }
    }
    if r > 1 && fam(x2, it2, nb, r - 1, s) {
        assert(cmem(x2, k)); assert(cmem(s, k));
        assert(subm(x, s)) by { assert forall|y: usize| #[trigger] cmem(x, y) implies cmem(s, y) by { assert(cmem(x2, y)); } }
        assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(u, y) by { assert(cmem(x2, y) || cmem(it2, y)); }
        assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(u, a) && cmem(u, b) && a < b implies cmem(nb[b as int]@, a) by {
            assert(cmem(it, a) && cmem(it, b)); assert(!cmem(x, a) && !cmem(x, b));
            assert(cmem(x2, a) || cmem(it2, a)); assert(cmem(x2, b) || cmem(it2, b));
            if b == k { assert(cmem(it2, a)); } else { assert(cmem(it2, b)); assert(b < k); assert(cmem(it2, a)); }
        }
        assert(fam(x, u, nb, r, s));
    }
}
pub proof fn fam_none(x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, s: Seq<usize>)
    requires incr(x), r <= 0 || it.len() == 0
    ensures !fam(x, it, nb, r, s)
{ if fam(x, it, nb, r, s) { assert(subm(s, x)) by { assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) by { } } incr_sub(s, x); } }
// every face of a new simplex that drops a vertex of x is present already
pub open spec fn base_in(c: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int) -> bool {
    forall|s: Seq<usize>, f: Seq<usize>, y: usize| fam(x, it, nb, r, s) && #[trigger] isface(f, s, y) && cmem(x, y) ==> c.contains(f)
}
pub open spec fn fresh(c: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int) -> bool { forall|s: Seq<usize>| #[trigger] fam(x, it, nb, r, s) ==> !c.contains(s) }
// c is c0 with the extensions of x
pub open spec fn grown(c0: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, c: Set<Seq<usize>>) -> bool { forall|s: Seq<usize>| #[trigger] c.contains(s) <==> (c0.contains(s) || fam(x, it, nb, r, s)) }
pub open spec fn rec_pre(c0: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int) -> bool {
    incr(x) && incr(it) && disj(x, it) && all_lt(it, nb.len() as int) && nbs_ok(nb) && c0.contains(x) && x.len() > 0 && base_in(c0, x, it, nb, r) && fresh(c0, x, it, nb, r)
}
pub proof fn fam_mono(x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, i: int, s: Seq<usize>)
    requires incr(x), incr(it), disj(x, it), 0 <= i <= it.len(), fam(x, it.take(i), nb, r, s)
    ensures fam(x, it, nb, r, s)
{
    let t = it.take(i);
    assert forall|y: usize| #[trigger] cmem(t, y) implies cmem(it, y) by { let k = t.index_of(y); assert(it[k] == y); }
    assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && cmem(it, a) && cmem(it, b) && a < b implies cmem(nb[b as int]@, a) by {
        assert(cmem(x, a) || cmem(t, a)); assert(cmem(x, b) || cmem(t, b));
    }
    assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(it, y) by { assert(cmem(x, y) || cmem(t, y)); }
}
pub proof fn face_of(s: Seq<usize>, f: Seq<usize>, y: usize)
    requires incr(s), isface(f, s, y), cmem(s, y)
    ensures incr(f), f.len() == s.len() - 1
{
    incr_sub(f, s); assert(subm(f, s));
    if f.len() == s.len() { assert(subm(s, f)); assert(cmem(f, y)); }
    let q = s.remove(s.index_of(y)); let p = s.index_of(y);
    assert(incr(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] < #[trigger] q[j] by { let a = if i < p { i } else { i + 1 }; let b = if j < p { j } else { j + 1 }; assert(q[i] == s[a] && q[j] == s[b]); assert(s[a] < s[b]); } }
    assert(subm(q, f)) by { assert forall|z: usize| #[trigger] cmem(q, z) implies cmem(f, z) by { let i = q.index_of(z); let a = if i < p { i } else { i + 1 }; assert(q[i] == s[a]); assert(cmem(s, z)); if a < p { assert(s[a] < s[p]); } else { assert(s[p] < s[a]); } assert(z != y); } }
    incr_sub(q, f);
}
// what has to hold when it[i] is added and when the recursion starts
pub proof fn rec_step(c0: Set<Seq<usize>>, c: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, i: int, x2: Seq<usize>)
    requires rec_pre(c0, x, it, nb, r), r >= 1, 0 <= i < it.len(), grown(c0, x, it.take(i), nb, r, c), ext(x, it[i], x2)
    ensures !c.contains(x2), faces_in(c, x2)
{
    let k = it[i]; let t = it.take(i);
    seq_lt_ok(it, nb, k); fam_step(x, it, nb, r, i, x2, seq_lt(it, nb, k), x2); fam_mono(x, it, nb, r, i + 1, x2);
    assert(!fam(x, t, nb, r, x2)) by { if fam(x, t, nb, r, x2) { assert(cmem(x2, k)); take_mem(it, i, k); assert(cmem(it, k)); assert(cmem(x, k) || cmem(t, k)); } }
    assert forall|f: Seq<usize>, y: usize| #[trigger] isface(f, x2, y) && cmem(x2, y) && x2.len() >= 2 implies c.contains(f) by {
        if y == k {
            take_mem(it, i, k);
            assert(subm(f, x)); assert(subm(x, f)) by { assert forall|z: usize| #[trigger] cmem(x, z) implies cmem(f, z) by { assert(cmem(x2, z)); assert(cmem(it, k)); } }
            incr_eq(f, x);
        } else { assert(cmem(x, y)); }
    }
}
// the common candidates of it and nb[k] below k
pub open spec fn seq_lt(it: Seq<usize>, nb: Seq<Vec<usize>>, k: usize) -> Seq<usize> { it.filter(|y: usize| cmem(nb[k as int]@, y) && y < k) }
pub proof fn seq_lt_ok(it: Seq<usize>, nb: Seq<Vec<usize>>, k: usize)
    requires incr(it)
    ensures it_lt(it, nb[k as int]@, k, seq_lt(it, nb, k))
    decreases it.len()
{
    let g = |y: usize| cmem(nb[k as int]@, y) && y < k; let q = seq_lt(it, nb, k);
    reveal(Seq::filter);
    if it.len() > 0 {
        let b = it.drop_last(); let l = it.last();
        assert(incr(b)) by { assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] < #[trigger] b[j] by { assert(it[i] < it[j]); } }
        seq_lt_ok(b, nb, k); let p = seq_lt(b, nb, k);
        assert(q == if g(l) { p.push(l) } else { p });
        assert forall|y: usize| #[trigger] cmem(it, y) <==> (cmem(b, y) || y == l) by { if cmem(it, y) { let i = it.index_of(y); if i < b.len() { assert(b[i] == y); } } if cmem(b, y) { let i = b.index_of(y); assert(it[i] == y); } if y == l { assert(it[it.len() - 1] == y); } }
        assert forall|y: usize| #[trigger] cmem(b, y) implies y < l by { let i = b.index_of(y); assert(it[i] < it[it.len() - 1]); }
        if g(l) {
            assert forall|y: usize| #[trigger] cmem(q, y) <==> (cmem(p, y) || y == l) by { if cmem(q, y) { let i = q.index_of(y); if i < p.len() { assert(p[i] == y); } } if cmem(p, y) { let i = p.index_of(y); assert(q[i] == y); } if y == l { assert(q[q.len() - 1] == y); } }
            assert(incr(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] < #[trigger] q[j] by { assert(q[i] == p[i]); if j < p.len() { assert(q[j] == p[j]); assert(p[i] < p[j]); } else { assert(cmem(p, p[i])); } } }
        }
    }
}
pub proof fn rec_call(c0: Set<Seq<usize>>, c: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, i: int, x2: Seq<usize>, it2: Seq<usize>)
    requires rec_pre(c0, x, it, nb, r), r > 1, 0 <= i < it.len(), grown(c0, x, it.take(i), nb, r, c), ext(x, it[i], x2), it_lt(it, nb[it[i] as int]@, it[i], it2)
    ensures rec_pre(c.insert(x2), x2, it2, nb, r - 1)
{
    let k = it[i]; let t = it.take(i); let d = c.insert(x2);
    take_mem(it, i, k);
    assert(disj(x2, it2)) by { assert forall|y: usize| !(#[trigger] cmem(x2, y) && #[trigger] cmem(it2, y)) by { if cmem(it2, y) { assert(cmem(it, y)); } } }
    assert(all_lt(it2, nb.len() as int)) by { assert forall|j: int| 0 <= j < it2.len() implies #[trigger] it2[j] < nb.len() by { assert(cmem(it2, it2[j])); assert(cmem(it, it2[j])); let l = it.index_of(it2[j]); assert(it[l] < nb.len()); } }
    assert forall|s: Seq<usize>| #[trigger] fam(x2, it2, nb, r - 1, s) implies !d.contains(s) && fam(x, it, nb, r, s) && cmem(s, k) by {
        fam_step(x, it, nb, r, i, x2, it2, s); fam_mono(x, it, nb, r, i + 1, s);
        assert(cmem(x2, k)); assert(cmem(s, k));
        if fam(x, t, nb, r, s) { assert(cmem(x, k) || cmem(t, k)); }
    }
    assert forall|s: Seq<usize>, f: Seq<usize>, y: usize| fam(x2, it2, nb, r - 1, s) && #[trigger] isface(f, s, y) && cmem(x2, y) implies d.contains(f) by {
        assert(cmem(s, y)); 
        if y == k {
            face_of(s, f, y);
            assert(fam(x, t, nb, r, f)) by {
                assert(subm(x, f)) by { assert forall|z: usize| #[trigger] cmem(x, z) implies cmem(f, z) by { assert(cmem(x2, z)); assert(cmem(s, z)); } }
                assert forall|z: usize| #[trigger] cmem(f, z) implies cmem(x, z) || cmem(t, z) by { assert(cmem(s, z)); assert(cmem(x2, z) || cmem(it2, z)); take_mem(it, i, z); }
                assert forall|a: usize, b: usize| #[trigger] cmem(f, a) && #[trigger] cmem(f, b) && cmem(t, a) && cmem(t, b) && a < b implies cmem(nb[b as int]@, a) by {
                    assert(cmem(s, a) && cmem(s, b)); take_mem(it, i, a); take_mem(it, i, b); assert(!cmem(x, a) && !cmem(x, b)); assert(cmem(x2, a) || cmem(it2, a)); assert(cmem(x2, b) || cmem(it2, b)); assert(cmem(it2, a) && cmem(it2, b));
                }
            }
            assert(c.contains(f));
        } else { assert(cmem(x, y)); assert(fam(x, it, nb, r, s)); assert(c0.contains(f)); assert(c.contains(f)); }
    }
}
pub proof fn rec_done(c0: Set<Seq<usize>>, c: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int, i: int, x2: Seq<usize>, it2: Seq<usize>, c2: Set<Seq<usize>>)
    requires rec_pre(c0, x, it, nb, r), r >= 1, 0 <= i < it.len(), grown(c0, x, it.take(i), nb, r, c), ext(x, it[i], x2), r > 1 ==> it_lt(it, nb[it[i] as int]@, it[i], it2),
        r > 1 ==> grown(c.insert(x2), x2, it2, nb, r - 1, c2), r == 1 ==> c2 == c.insert(x2)
    ensures grown(c0, x, it.take(i + 1), nb, r, c2)
{
    assert forall|s: Seq<usize>| #[trigger] c2.contains(s) <==> (c0.contains(s) || fam(x, it.take(i + 1), nb, r, s)) by {
        fam_step(x, it, nb, r, i, x2, it2, s);
        assert(c.contains(s) <==> (c0.contains(s) || fam(x, it.take(i), nb, r, s)));
        assert(c.insert(x2).contains(s) <==> (c.contains(s) || s == x2));
    }
}
pub proof fn rec_init(c0: Set<Seq<usize>>, x: Seq<usize>, it: Seq<usize>, nb: Seq<Vec<usize>>, r: int)
    requires incr(x)
    ensures grown(c0, x, it.take(0), nb, r, c0), r <= 0 ==> grown(c0, x, it, nb, r, c0)
{ assert forall|s: Seq<usize>| !fam(x, it.take(0), nb, r, s) by { fam_none(x, it.take(0), nb, r, s); } if r <= 0 { assert forall|s: Seq<usize>| !fam(x, it, nb, r, s) by { fam_none(x, it, nb, r, s); } } }


// values: everything present so far is at or below t, old values are kept and new simplices get t
pub open spec fn vals_le(m: Map<Seq<usize>, i32>, t: i32) -> bool { forall|s: Seq<usize>| #[trigger] m.dom().contains(s) ==> m[s] <= t }
pub open spec fn added_at(m0: Map<Seq<usize>, i32>, m: Map<Seq<usize>, i32>, t: i32) -> bool {
    (forall|s: Seq<usize>| #[trigger] m0.dom().contains(s) ==> m.dom().contains(s) && m[s] == m0[s]) && forall|s: Seq<usize>| #[trigger] m.dom().contains(s) && !m0.dom().contains(s) ==> m[s] == t
}
pub proof fn vals_faces(m: Map<Seq<usize>, i32>, s: Seq<usize>, t: i32) requires vals_le(m, t), faces_in(m.dom(), s) ensures faces_before(m, s, t)
{ assert forall|f: Seq<usize>, x: usize| #[trigger] isface(f, s, x) && cmem(s, x) && s.len() >= 2 implies m[f] <= t by { assert(m.dom().contains(f)); } }

pub open spec fn edge_at(e: Seq<(usize, usize)>, k: int, a: usize, b: usize) -> bool { (e[k].0 == a && e[k].1 == b) || (e[k].0 == b && e[k].1 == a) }
// a and b are joined by one of the first m edges
pub open spec fn adj(e: Seq<(usize, usize)>, m: int, a: usize, b: usize) -> bool { exists|k: int| 0 <= k < m && #[trigger] edge_at(e, k, a, b) }
pub open spec fn edges_ok(e: Seq<(usize, usize)>, n: int) -> bool { forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).0 < n && e[k].1 < n && e[k].0 != e[k].1 }
// s is a clique of the graph with at most mx + 1 vertices
pub open spec fn clq(e: Seq<(usize, usize)>, m: int, n: int, mx: int, s: Seq<usize>) -> bool {
    incr(s) && 1 <= s.len() <= mx + 1 && all_lt(s, n) && forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b ==> adj(e, m, a, b)
}
pub open spec fn cpx_is(e: Seq<(usize, usize)>, m: int, n: int, mx: int, c: Set<Seq<usize>>) -> bool { forall|s: Seq<usize>| #[trigger] c.contains(s) <==> clq(e, m, n, mx, s) }
pub open spec fn nb_is(e: Seq<(usize, usize)>, m: int, n: int, nb: Seq<Vec<usize>>) -> bool {
    nb.len() == n && nbs_ok(nb) && forall|a: usize, b: usize| a < n ==> (#[trigger] cmem(nb[a as int]@, b) <==> adj(e, m, a, b))
}
pub open spec fn only_vertices(n: int, c: Set<Seq<usize>>) -> bool { forall|s: Seq<usize>| #[trigger] c.contains(s) <==> (s.len() == 1 && s[0] < n) }
pub proof fn vertex_ok(n: int, c: Set<Seq<usize>>, s: Seq<usize>)
    requires only_vertices(n, c), s.len() == 1, s[0] == n
    ensures incr(s), !c.contains(s), faces_in(c, s), only_vertices(n + 1, c.insert(s))
{ assert forall|t: Seq<usize>| #[trigger] c.insert(s).contains(t) <==> (t.len() == 1 && t[0] < n + 1) by { assert(c.contains(t) <==> (t.len() == 1 && t[0] < n)); if t.len() == 1 && t[0] == n { assert(t =~= s); } } }
pub proof fn vertices_are(e: Seq<(usize, usize)>, m: int, n: int, mx: int, c: Set<Seq<usize>>)
    requires only_vertices(n, c), mx >= 0, m == 0 || mx == 0
    ensures cpx_is(e, m, n, mx, c)
{
    assert forall|s: Seq<usize>| #[trigger] c.contains(s) <==> clq(e, m, n, mx, s) by {
        if c.contains(s) { assert(all_lt(s, n)); assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, m, a, b) by { let i = s.index_of(a); let j = s.index_of(b); assert(i == 0 && j == 0); } }
        if clq(e, m, n, mx, s) { if s.len() >= 2 { assert(s[0] < s[1]); assert(cmem(s, s[0]) && cmem(s, s[1])); assert(adj(e, m, s[0], s[1])); } assert(s[0] < n); }
    }
}
pub proof fn nb_init(e: Seq<(usize, usize)>, n: int, nb: Seq<Vec<usize>>)
    requires nb.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] nb[i])@.len() == 0
    ensures nb_is(e, 0, n, nb)
{ assert forall|a: usize, b: usize| a < n implies (#[trigger] cmem(nb[a as int]@, b) <==> adj(e, 0, a, b)) by { assert(nb[a as int]@.len() == 0); } }
pub open spec fn edge_pre(e: Seq<(usize, usize)>, k: int, n: int, mx: int, c: Set<Seq<usize>>, nb: Seq<Vec<usize>>, x: Seq<usize>, it: Seq<usize>) -> bool {
    let i = e[k].0; let j = e[k].1;
    &&& edges_ok(e, n) && 0 <= k < e.len() && n <= usize::MAX && mx >= 1
    &&& cpx_is(e, k, n, mx, c) && nb_is(e, k, n, nb) && !adj(e, k, i, j)
    &&& incr(x) && x.len() == 2 && forall|y: usize| #[trigger] cmem(x, y) <==> (y == i || y == j)
    &&& incr(it) && forall|y: usize| #[trigger] cmem(it, y) <==> (cmem(nb[i as int]@, y) && cmem(nb[j as int]@, y))
}
pub proof fn adj_facts(e: Seq<(usize, usize)>, m: int, n: int, a: usize, b: usize)
    requires edges_ok(e, n), 0 <= m <= e.len()
    ensures adj(e, m, a, b) ==> adj(e, m, b, a) && a < n && b < n && a != b, m < e.len() ==> (adj(e, m + 1, a, b) <==> (adj(e, m, a, b) || edge_at(e, m, a, b)))
{
    if adj(e, m, a, b) { let k = choose|k: int| 0 <= k < m && #[trigger] edge_at(e, k, a, b); assert(edge_at(e, k, b, a)); let z = e[k]; assert(e[k].0 < n && e[k].1 < n && e[k].0 != e[k].1); }
    if m < e.len() {
        if adj(e, m + 1, a, b) { let k = choose|k: int| 0 <= k < m + 1 && #[trigger] edge_at(e, k, a, b); if k < m { assert(adj(e, m, a, b)); } }
        if adj(e, m, a, b) { let k = choose|k: int| 0 <= k < m && #[trigger] edge_at(e, k, a, b); assert(0 <= k < m + 1 && edge_at(e, k, a, b)); }
        if edge_at(e, m, a, b) { assert(0 <= m < m + 1 && edge_at(e, m, a, b)); }
    }
}
// the faces of the new edge are vertices
pub proof fn edge_new(e: Seq<(usize, usize)>, k: int, n: int, mx: int, c: Set<Seq<usize>>, nb: Seq<Vec<usize>>, x: Seq<usize>)
    requires edges_ok(e, n), 0 <= k < e.len(), mx >= 1, cpx_is(e, k, n, mx, c), !adj(e, k, e[k].0, e[k].1), incr(x), x.len() == 2, forall|y: usize| #[trigger] cmem(x, y) <==> (y == e[k].0 || y == e[k].1)
    ensures !c.contains(x), faces_in(c, x)
{
    let i = e[k].0; let j = e[k].1; assert(i < n && j < n && i != j); adj_facts(e, k, n, i, j); adj_facts(e, k, n, j, i);
    assert(cmem(x, i) && cmem(x, j));
    if c.contains(x) { if i < j { assert(adj(e, k, i, j)); } else { assert(adj(e, k, j, i)); } }
    assert forall|f: Seq<usize>, y: usize| #[trigger] isface(f, x, y) && cmem(x, y) && x.len() >= 2 implies c.contains(f) by {
        face_of(x, f, y); let o = if y == i { j } else { i };
        assert(cmem(x, o)); assert(cmem(f, o)); assert(f.len() == 1); assert(f[0] == o);
        assert forall|a: usize, b: usize| #[trigger] cmem(f, a) && #[trigger] cmem(f, b) && a < b implies adj(e, k, a, b) by { let p = f.index_of(a); let q = f.index_of(b); assert(p == 0 && q == 0); }
        assert(clq(e, k, n, mx, f));
    }
}
pub proof fn nbm(e: Seq<(usize, usize)>, k: int, n: int, nb: Seq<Vec<usize>>, a: usize, b: usize)
    requires nb_is(e, k, n, nb), a < n
    ensures cmem(nb[a as int]@, b) <==> adj(e, k, a, b)
{ }
pub proof fn edge_rec(e: Seq<(usize, usize)>, k: int, n: int, mx: int, c: Set<Seq<usize>>, nb: Seq<Vec<usize>>, x: Seq<usize>, it: Seq<usize>)
    requires edge_pre(e, k, n, mx, c, nb, x, it)
    ensures rec_pre(c.insert(x), x, it, nb, mx - 1)
{
    let i = e[k].0; let j = e[k].1; let d = c.insert(x); let r = mx - 1;
    assert(i < n && j < n && i != j);
    assert(cmem(x, i) && cmem(x, j));
    assert forall|y: usize| #[trigger] cmem(it, y) implies adj(e, k, i, y) && adj(e, k, j, y) && y < n && y != i && y != j by { adj_facts(e, k, n, i, y); adj_facts(e, k, n, j, y); nbm(e, k, n, nb, i, y); nbm(e, k, n, nb, j, y); }
    assert(disj(x, it));
    assert(all_lt(it, nb.len() as int)) by { assert forall|l: int| 0 <= l < it.len() implies #[trigger] it[l] < nb.len() by { assert(cmem(it, it[l])); } }
    assert forall|s: Seq<usize>| #[trigger] fam(x, it, nb, r, s) implies !d.contains(s) by {
        assert(cmem(s, i) && cmem(s, j)); adj_facts(e, k, n, i, j); adj_facts(e, k, n, j, i);
        if clq(e, k, n, mx, s) { if i < j { assert(adj(e, k, i, j)); } else { assert(adj(e, k, j, i)); } }
        assert(!c.contains(s)); assert(s.len() > x.len());
    }
    assert forall|s: Seq<usize>, f: Seq<usize>, y: usize| fam(x, it, nb, r, s) && #[trigger] isface(f, s, y) && cmem(x, y) implies d.contains(f) by {
        assert(cmem(s, y)); face_of(s, f, y);
        assert(all_lt(f, n)) by { assert forall|l: int| 0 <= l < f.len() implies #[trigger] f[l] < n by { assert(cmem(f, f[l])); assert(cmem(s, f[l])); assert(cmem(x, f[l]) || cmem(it, f[l])); } }
        assert forall|a: usize, b: usize| #[trigger] cmem(f, a) && #[trigger] cmem(f, b) && a < b implies adj(e, k, a, b) by {
            assert(cmem(s, a) && cmem(s, b)); assert(cmem(x, a) || cmem(it, a)); assert(cmem(x, b) || cmem(it, b));
            assert(a != y && b != y);
            adj_facts(e, k, n, b, a); adj_facts(e, k, n, a, b);
            if cmem(it, a) && cmem(it, b) { assert(cmem(nb[b as int]@, a)); nbm(e, k, n, nb, b, a); }
            else if cmem(it, b) { assert(a == i || a == j); assert(adj(e, k, a, b)); }
            else if cmem(it, a) { assert(b == i || b == j); assert(adj(e, k, b, a)); }
        }
        assert(clq(e, k, n, mx, f)); assert(c.contains(f));
    }
}
pub proof fn edge_done(e: Seq<(usize, usize)>, k: int, n: int, mx: int, c: Set<Seq<usize>>, nb: Seq<Vec<usize>>, x: Seq<usize>, it: Seq<usize>, c2: Set<Seq<usize>>)
    requires edge_pre(e, k, n, mx, c, nb, x, it), grown(c.insert(x), x, it, nb, mx - 1, c2)
    ensures cpx_is(e, k + 1, n, mx, c2)
{
    let i = e[k].0; let j = e[k].1; let d = c.insert(x); let r = mx - 1;
    assert(i < n && j < n && i != j);
    assert(cmem(x, i) && cmem(x, j));
    assert forall|y: usize| #[trigger] cmem(it, y) <==> (adj(e, k, i, y) && adj(e, k, j, y)) by { nbm(e, k, n, nb, i, y); nbm(e, k, n, nb, j, y); }
    assert forall|a: usize, b: usize| #[trigger] adj(e, k + 1, a, b) <==> (adj(e, k, a, b) || edge_at(e, k, a, b)) by { adj_facts(e, k, n, a, b); }
    assert forall|a: usize, b: usize| #[trigger] adj(e, k, a, b) implies adj(e, k, b, a) && a < n && b < n && a != b by { adj_facts(e, k, n, a, b); }
    assert forall|s: Seq<usize>| #[trigger] c2.contains(s) <==> clq(e, k + 1, n, mx, s) by {
        assert(c2.contains(s) <==> (d.contains(s) || fam(x, it, nb, r, s))); assert(d.contains(s) <==> (c.contains(s) || s == x));
        assert(c.contains(s) <==> clq(e, k, n, mx, s));
        if clq(e, k, n, mx, s) {
            assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, k + 1, a, b) by { assert(adj(e, k, a, b)); }
        }
        if s == x || fam(x, it, nb, r, s) {
            assert forall|y: usize| #[trigger] cmem(s, y) implies y == i || y == j || cmem(it, y) by { }
            assert(all_lt(s, n)) by { assert forall|l: int| 0 <= l < s.len() implies #[trigger] s[l] < n by { assert(cmem(s, s[l])); if cmem(it, s[l]) { assert(adj(e, k, i, s[l])); } } }
            assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, k + 1, a, b) by {
                if cmem(it, a) && cmem(it, b) {
                    if s == x { assert(cmem(x, a)); assert(adj(e, k, i, a) && adj(e, k, j, a)); assert(false); }
                    assert(cmem(nb[b as int]@, a)); adj_facts(e, k, n, i, b); nbm(e, k, n, nb, b, a); assert(adj(e, k, b, a)); assert(adj(e, k, a, b));
                } else if cmem(it, b) { assert(adj(e, k, a, b)); } else if cmem(it, a) { assert(adj(e, k, b, a)); assert(adj(e, k, a, b)); } else { assert(edge_at(e, k, a, b)); }
            }
            assert(s.len() <= mx + 1);
        }
        if clq(e, k + 1, n, mx, s) && !clq(e, k, n, mx, s) {
            assert(exists|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b && !adj(e, k, a, b));
            let (a, b) = choose|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b && !adj(e, k, a, b);
            assert(adj(e, k + 1, a, b)); assert(edge_at(e, k, a, b)); assert(cmem(s, i) && cmem(s, j));
            assert(subm(x, s));
            assert forall|y: usize| #[trigger] cmem(s, y) implies cmem(x, y) || cmem(it, y) by {
                if y != i && y != j {
                    assert(adj(e, k + 1, i, y)) by { if i < y { assert(adj(e, k + 1, i, y)); } else { assert(adj(e, k + 1, y, i)); adj_facts(e, k + 1, n, y, i); } }
                    assert(adj(e, k + 1, j, y)) by { if j < y { assert(adj(e, k + 1, j, y)); } else { assert(adj(e, k + 1, y, j)); adj_facts(e, k + 1, n, y, j); } }
                    assert(!edge_at(e, k, i, y) && !edge_at(e, k, j, y));
                }
            }
            assert forall|p: usize, q: usize| #[trigger] cmem(s, p) && #[trigger] cmem(s, q) && cmem(it, p) && cmem(it, q) && p < q implies cmem(nb[q as int]@, p) by {
                assert(adj(e, k, i, p) && adj(e, k, j, p) && adj(e, k, i, q) && adj(e, k, j, q));
                assert(adj(e, k + 1, p, q)); assert(!edge_at(e, k, p, q)); assert(adj(e, k, p, q)); nbm(e, k, n, nb, q, p);
            }
            incr_sub(x, s);
            if s.len() == 2 { incr_eq(x, s); } else { assert(fam(x, it, nb, r, s)); }
        }
    }
}
// an edge given again changes nothing
pub proof fn edge_again(e: Seq<(usize, usize)>, k: int, n: int, mx: int, c: Set<Seq<usize>>, nb: Seq<Vec<usize>>)
    requires edges_ok(e, n), 0 <= k < e.len(), cpx_is(e, k, n, mx, c), nb_is(e, k, n, nb), adj(e, k, e[k].0, e[k].1)
    ensures cpx_is(e, k + 1, n, mx, c), nb_is(e, k + 1, n, nb)
{
    adj_facts(e, k, n, e[k].0, e[k].1);
    assert forall|a: usize, b: usize| #[trigger] adj(e, k + 1, a, b) <==> adj(e, k, a, b) by { adj_facts(e, k, n, a, b); }
    assert forall|s: Seq<usize>| #[trigger] c.contains(s) <==> clq(e, k + 1, n, mx, s) by {
        assert(c.contains(s) <==> clq(e, k, n, mx, s));
        if clq(e, k + 1, n, mx, s) { assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, k, a, b) by { assert(adj(e, k + 1, a, b)); } }
        if clq(e, k, n, mx, s) { assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, k + 1, a, b) by { assert(adj(e, k, a, b)); } }
    }
    assert forall|a: usize, b: usize| a < n implies (#[trigger] cmem(nb[a as int]@, b) <==> adj(e, k + 1, a, b)) by { nbm(e, k, n, nb, a, b); assert(adj(e, k + 1, a, b) <==> adj(e, k, a, b)); }
}
pub proof fn nb_upd(e: Seq<(usize, usize)>, k: int, n: int, nb: Seq<Vec<usize>>, nb2: Seq<Vec<usize>>)
    requires edges_ok(e, n), 0 <= k < e.len(), nb_is(e, k, n, nb), !adj(e, k, e[k].0, e[k].1), nb2.len() == n,
        forall|l: int| 0 <= l < n && l != e[k].0 && l != e[k].1 ==> #[trigger] nb2[l] == nb[l],
        nondecr_usize(nb2[e[k].0 as int]@), nb2[e[k].0 as int]@.to_multiset() == nb[e[k].0 as int]@.push(e[k].1).to_multiset(),
        nondecr_usize(nb2[e[k].1 as int]@), nb2[e[k].1 as int]@.to_multiset() == nb[e[k].1 as int]@.push(e[k].0).to_multiset(),
    ensures nb_is(e, k + 1, n, nb2)
{
    let i = e[k].0; let j = e[k].1; assert(i < n && j < n && i != j);
    adj_facts(e, k, n, i, j); adj_facts(e, k, n, j, i); nbm(e, k, n, nb, i, j); nbm(e, k, n, nb, j, i);
    assert(incr(nb[i as int]@) && incr(nb[j as int]@));
    push_sorted(nb[i as int]@, j, nb2[i as int]@); push_sorted(nb[j as int]@, i, nb2[j as int]@);
    assert(nbs_ok(nb2)) by { assert forall|l: int| 0 <= l < n implies incr(#[trigger] nb2[l]@) by { if l != i && l != j { assert(nb2[l] == nb[l]); assert(incr(nb[l]@)); } } }
    assert forall|a: usize, b: usize| a < n implies (#[trigger] cmem(nb2[a as int]@, b) <==> adj(e, k + 1, a, b)) by {
        adj_facts(e, k, n, a, b); nbm(e, k, n, nb, a, b);
        if a != i && a != j { assert(nb2[a as int] == nb[a as int]); }
        assert(cmem(nb2[i as int]@, b) <==> (cmem(nb[i as int]@, b) || b == j)); assert(cmem(nb2[j as int]@, b) <==> (cmem(nb[j as int]@, b) || b == i));
    }
}
pub open spec fn ends_of(e: Seq<usize>) -> Seq<(usize, usize)> { Seq::new((e.len() / 2) as nat, |k: int| (e[2 * k], e[2 * k + 1])) }

pub open spec fn ends_fe(e: Seq<FEdge>) -> Seq<(usize, usize)> { Seq::new(e.len(), |k: int| (e[k].s, e[k].t)) }
// no edge is listed twice, in either direction
pub open spec fn edges_distinct(e: Seq<(usize, usize)>) -> bool { forall|k: int, l: int| 0 <= k < e.len() && 0 <= l < e.len() && k != l ==> !#[trigger] edge_at(e, k, e[l].0, e[l].1) }
pub open spec fn inedge(e: Seq<FEdge>, k: int, s: Seq<usize>) -> bool { cmem(s, e[k].s) && cmem(s, e[k].t) }
// v is the largest value of an edge of s among the first k
pub open spec fn vmax(e: Seq<FEdge>, k: int, s: Seq<usize>, v: i32) -> bool { (exists|l: int| 0 <= l < k && #[trigger] inedge(e, l, s) && e[l].r == v) && forall|l: int| 0 <= l < k && #[trigger] inedge(e, l, s) ==> e[l].r <= v }
pub open spec fn vals_is(e: Seq<FEdge>, k: int, t0: i32, m: Map<Seq<usize>, i32>) -> bool { forall|s: Seq<usize>| #[trigger] m.dom().contains(s) ==> (if s.len() == 1 { m[s] == t0 } else { vmax(e, k, s, m[s]) }) }
pub open spec fn only_at(t0: i32, m: Map<Seq<usize>, i32>) -> bool { forall|s: Seq<usize>| #[trigger] m.dom().contains(s) ==> s.len() == 1 && m[s] == t0 }
pub open spec fn feq_in(e: Seq<FEdge>, n: int, t0: i32) -> bool { edges_ok(ends_fe(e), n) && edges_distinct(ends_fe(e)) && forall|k: int| 0 <= k < e.len() ==> t0 <= (#[trigger] e[k]).r }
// sorting keeps the list of edges
pub proof fn fe_sorted(e: Seq<FEdge>, w: Seq<int>, f: Seq<FEdge>, n: int, t0: i32)
    requires feq_in(e, n, t0), rearranged(e, w, f)
    ensures feq_in(f, n, t0)
{
    let a = ends_fe(e); let b = ends_fe(f);
    assert forall|k: int| 0 <= k < f.len() implies f[k] == e[#[trigger] w[k]] && 0 <= w[k] < e.len() by { }
    assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0 < n && b[k].1 < n && b[k].0 != b[k].1 by { assert(f[k] == e[w[k]]); let z = a[w[k]]; assert(a[w[k]].0 < n && a[w[k]].1 < n && a[w[k]].0 != a[w[k]].1); }
    assert forall|k: int, l: int| 0 <= k < b.len() && 0 <= l < b.len() && k != l implies !#[trigger] edge_at(b, k, b[l].0, b[l].1) by { assert(f[k] == e[w[k]] && f[l] == e[w[l]]); assert(w[k] != w[l]); assert(!edge_at(a, w[k], a[w[l]].0, a[w[l]].1)); }
    assert forall|k: int| 0 <= k < f.len() implies t0 <= (#[trigger] f[k]).r by { assert(f[k] == e[w[k]]); assert(t0 <= e[w[k]].r); }
}
pub proof fn fe_new(e: Seq<FEdge>, k: int, n: int, t0: i32)
    requires feq_in(e, n, t0), 0 <= k < e.len()
    ensures !adj(ends_fe(e), k, e[k].s, e[k].t)
{ let d = ends_fe(e); if adj(d, k, e[k].s, e[k].t) { let l = choose|l: int| 0 <= l < k && #[trigger] edge_at(d, l, e[k].s, e[k].t); assert(d[k].0 == e[k].s && d[k].1 == e[k].t); assert(!edge_at(d, l, d[k].0, d[k].1)); } }
pub proof fn vals_bound(e: Seq<FEdge>, k: int, t0: i32, m: Map<Seq<usize>, i32>)
    requires vals_is(e, k, t0, m), nondecr_fe(e), 0 <= k < e.len(), t0 <= e[k].r
    ensures vals_le(m, e[k].r)
{ assert forall|s: Seq<usize>| #[trigger] m.dom().contains(s) implies m[s] <= e[k].r by { if s.len() != 1 { let l = choose|l: int| 0 <= l < k && #[trigger] inedge(e, l, s) && e[l].r == m[s]; assert(e[l].r <= e[k].r); } } }
pub proof fn vals_step(e: Seq<FEdge>, k: int, n: int, mx: int, t0: i32, m: Map<Seq<usize>, i32>, nb: Seq<Vec<usize>>, x: Seq<usize>, it: Seq<usize>, m2: Map<Seq<usize>, i32>)
    requires edge_pre(ends_fe(e), k, n, mx, m.dom(), nb, x, it), grown(m.dom().insert(x), x, it, nb, mx - 1, m2.dom()), vals_is(e, k, t0, m), added_at(m.insert(x, e[k].r), m2, e[k].r), nondecr_fe(e), 0 <= k < e.len(), !m.dom().contains(x)
    ensures vals_is(e, k + 1, t0, m2)
{
    let d = ends_fe(e); let i = e[k].s; let j = e[k].t; let m1 = m.insert(x, e[k].r);
    assert(d[k].0 == i && d[k].1 == j); assert(cmem(x, i) && cmem(x, j));
    adj_facts(d, k, n, i, j); adj_facts(d, k, n, j, i); assert(i != j) by { let z = d[k]; }
    assert forall|s: Seq<usize>| #[trigger] m2.dom().contains(s) implies (if s.len() == 1 { m2[s] == t0 } else { vmax(e, k + 1, s, m2[s]) }) by {
        assert(m1.dom().contains(s) <==> (m.dom().contains(s) || s == x)); assert(m.dom().insert(x).contains(s) <==> (m.dom().contains(s) || s == x));
        if m.dom().contains(s) {
            assert(m1.dom().contains(s)); assert(m2[s] == m1[s]); assert(m1[s] == m[s]);
            assert(clq(d, k, n, mx, s));
            if s.len() != 1 {
                assert(!inedge(e, k, s)) by { if inedge(e, k, s) { if i < j { assert(adj(d, k, i, j)); } else { assert(adj(d, k, j, i)); } } }
                let l = choose|l: int| 0 <= l < k && #[trigger] inedge(e, l, s) && e[l].r == m[s]; assert(0 <= l < k + 1 && inedge(e, l, s) && e[l].r == m2[s]);
                assert forall|l: int| 0 <= l < k + 1 && #[trigger] inedge(e, l, s) implies e[l].r <= m2[s] by { assert(l != k); }
            }
        } else {
            assert(m2[s] == e[k].r) by { if s == x { assert(m1.dom().contains(x)); } }
            assert(s == x || fam(x, it, nb, mx - 1, s));
            assert(cmem(s, i) && cmem(s, j)); assert(s.len() >= 2); assert(inedge(e, k, s)); assert(0 <= k < k + 1 && inedge(e, k, s) && e[k].r == m2[s]);
            assert forall|l: int| 0 <= l < k + 1 && #[trigger] inedge(e, l, s) implies e[l].r <= m2[s] by { assert(e[l].r <= e[k].r); }
        }
    }
}


// ---- Rips: the distance is that of a metric on a point set, or an entry of a distance matrix ----
pub enum Dist { Ds(Metric, DSet), Dm(DMat) }
pub open spec fn dd(d: Dist, a: int, b: int) -> i32 { match d { Dist::Ds(m, x) => ds_dist(m, x, a, b), Dist::Dm(x) => dm_dist(x, a, b) } }
pub open spec fn seen(a: usize, b: usize, o: int, q: int) -> bool { b < o || (b == o && a < q) }
// e lists the pairs a < b within rmax among those with b < o, or b == o and a < q
pub open spec fn re_is(e: Seq<(usize, usize)>, d: Dist, n: int, rmax: i32, o: int, q: int) -> bool {
    edges_ok(e, n) && forall|a: usize, b: usize| a < b ==> (#[trigger] adj(e, e.len() as int, a, b) <==> (dd(d, a as int, b as int) <= rmax && seen(a, b, o, q)))
}
pub open spec fn fe_is(e: Seq<FEdge>, d: Dist, n: int, rmax: i32, o: int, q: int) -> bool {
    re_is(ends_fe(e), d, n, rmax, o, q) && edges_distinct(ends_fe(e)) && forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).r == dd(d, e[k].s as int, e[k].t as int) && 0 <= e[k].r
}
pub proof fn adj_push(e: Seq<(usize, usize)>, p: (usize, usize), a: usize, b: usize)
    ensures adj(e.push(p), e.push(p).len() as int, a, b) <==> (adj(e, e.len() as int, a, b) || (p.0 == a && p.1 == b) || (p.0 == b && p.1 == a))
{
    let f = e.push(p); let m = e.len() as int;
    assert(f[m] == p);
    if adj(f, m + 1, a, b) { let k = choose|k: int| 0 <= k < m + 1 && #[trigger] edge_at(f, k, a, b); if k < m { assert(f[k] == e[k]); assert(edge_at(e, k, a, b)); } }
    if adj(e, m, a, b) { let k = choose|k: int| 0 <= k < m && #[trigger] edge_at(e, k, a, b); assert(f[k] == e[k]); assert(0 <= k < m + 1 && edge_at(f, k, a, b)); }
    if (p.0 == a && p.1 == b) || (p.0 == b && p.1 == a) { assert(edge_at(f, m, a, b)); assert(0 <= m < m + 1); }
}
pub proof fn re_step(e: Seq<(usize, usize)>, f: Seq<(usize, usize)>, d: Dist, n: int, rmax: i32, o: usize, q: usize)
    requires re_is(e, d, n, rmax, o as int, q as int), q < o < n,
        if dd(d, q as int, o as int) <= rmax { f == e.push((q, o)) || f == e.push((o, q)) } else { f == e }
    ensures re_is(f, d, n, rmax, o as int, q + 1), !adj(e, e.len() as int, q, o)
{
    assert(adj(e, e.len() as int, q, o) <==> (dd(d, q as int, o as int) <= rmax && seen(q, o, o as int, q as int)));
    assert(edges_ok(f, n)) by { assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).0 < n && f[k].1 < n && f[k].0 != f[k].1 by { if k < e.len() { assert(f[k] == e[k]); } } }
    assert forall|a: usize, b: usize| a < b implies (#[trigger] adj(f, f.len() as int, a, b) <==> (dd(d, a as int, b as int) <= rmax && seen(a, b, o as int, q + 1))) by {
        assert(adj(e, e.len() as int, a, b) <==> (dd(d, a as int, b as int) <= rmax && seen(a, b, o as int, q as int)));
        adj_push(e, (q, o), a, b); adj_push(e, (o, q), a, b);
    }
}
pub proof fn re_row(e: Seq<(usize, usize)>, d: Dist, n: int, rmax: i32, o: int)
    requires re_is(e, d, n, rmax, o, o)
    ensures re_is(e, d, n, rmax, o + 1, 0)
{ assert forall|a: usize, b: usize| a < b implies (#[trigger] adj(e, e.len() as int, a, b) <==> (dd(d, a as int, b as int) <= rmax && seen(a, b, o + 1, 0))) by { } }
pub proof fn re_init(e: Seq<(usize, usize)>, d: Dist, n: int, rmax: i32) requires e.len() == 0 ensures re_is(e, d, n, rmax, 0, 0) { }
pub proof fn fe_step(e: Seq<FEdge>, f: Seq<FEdge>, d: Dist, n: int, rmax: i32, o: usize, q: usize)
    requires fe_is(e, d, n, rmax, o as int, q as int), q < o < n, 0 <= dd(d, q as int, o as int),
        if dd(d, q as int, o as int) <= rmax { f.len() == e.len() + 1 && f.drop_last() == e && f.last().r == dd(d, q as int, o as int) && ((f.last().s == q && f.last().t == o) || (f.last().s == o && f.last().t == q)) } else { f == e }
    ensures fe_is(f, d, n, rmax, o as int, q + 1)
{
    let a = ends_fe(e); let b = ends_fe(f);
    if dd(d, q as int, o as int) <= rmax {
        assert forall|k: int| 0 <= k < e.len() implies #[trigger] f[k] == e[k] by { assert(f.drop_last()[k] == f[k]); }
        assert(b =~= a.push((f.last().s, f.last().t)));
        re_step(a, b, d, n, rmax, o, q);
        assert forall|k: int, l: int| 0 <= k < b.len() && 0 <= l < b.len() && k != l implies !#[trigger] edge_at(b, k, b[l].0, b[l].1) by {
            let m = e.len() as int;
            if k < m && l < m { assert(b[k] == a[k] && b[l] == a[l]); assert(!edge_at(a, k, a[l].0, a[l].1)); }
            else if k < m { assert(b[k] == a[k]); if edge_at(b, k, b[l].0, b[l].1) { assert(edge_at(a, k, q, o)); } }
            else { assert(b[l] == a[l]); if edge_at(b, k, b[l].0, b[l].1) { assert(edge_at(a, l, q, o)); } }
        }
        assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).r == dd(d, f[k].s as int, f[k].t as int) && 0 <= f[k].r by { if k < e.len() { assert(f[k] == e[k]); } }
    } else { re_step(a, b, d, n, rmax, o, q); }
}
pub proof fn wonto(w: Seq<int>, n: int, v: int) -> (i: int)
    requires is_perm(w, n), 0 <= v < n
    ensures 0 <= i < n, w[i] == v
{
    vstd::set_lib::lemma_int_range(0, n);
    assert(w.no_duplicates()); w.unique_seq_to_set();
    assert(w.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|x: int| w.to_set().contains(x) implies 0 <= x < n by { let k = w.index_of(x); assert(0 <= w[k] < n); } }
    vstd::set_lib::lemma_subset_equality(w.to_set(), vstd::set_lib::set_int_range(0, n));
    assert(w.to_set().contains(v)); w.index_of(v)
}
pub proof fn fe_perm(e: Seq<FEdge>, w: Seq<int>, f: Seq<FEdge>, d: Dist, n: int, rmax: i32, o: int, q: int)
    requires fe_is(e, d, n, rmax, o, q), rearranged(e, w, f)
    ensures fe_is(f, d, n, rmax, o, q)
{
    let a = ends_fe(e); let b = ends_fe(f); let m = e.len() as int;
    assert forall|k: int| 0 <= k < m implies 0 <= e[k].r by { } 
    fe_sorted(e, w, f, n, 0);
    assert forall|x: usize, y: usize| x < y implies (#[trigger] adj(b, b.len() as int, x, y) <==> (dd(d, x as int, y as int) <= rmax && seen(x, y, o, q))) by {
        assert(adj(a, a.len() as int, x, y) <==> (dd(d, x as int, y as int) <= rmax && seen(x, y, o, q)));
        if adj(b, m, x, y) { let k = choose|k: int| 0 <= k < m && #[trigger] edge_at(b, k, x, y); assert(f[k] == e[w[k]]); assert(edge_at(a, w[k], x, y)); assert(0 <= w[k] < m); }
        if adj(a, m, x, y) { let k = choose|k: int| 0 <= k < m && #[trigger] edge_at(a, k, x, y); let i = wonto(w, m, k); assert(f[i] == e[w[i]]); assert(edge_at(b, i, x, y)); }
    }
    assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).r == dd(d, f[k].s as int, f[k].t as int) && 0 <= f[k].r by { assert(f[k] == e[w[k]]); assert(e[w[k]].r == dd(d, e[w[k]].s as int, e[w[k]].t as int)); }
}
// the simplices of pairwise distance at most rmax
pub open spec fn rips_simplex(d: Dist, n: int, mx: int, rmax: i32, s: Seq<usize>) -> bool {
    incr(s) && 1 <= s.len() <= mx + 1 && all_lt(s, n) && forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b ==> dd(d, a as int, b as int) <= rmax
}
pub open spec fn rips_is(d: Dist, n: int, mx: int, rmax: i32, c: Set<Seq<usize>>) -> bool { forall|s: Seq<usize>| #[trigger] c.contains(s) <==> rips_simplex(d, n, mx, rmax, s) }
// v is the diameter of s
pub open spec fn diam(d: Dist, s: Seq<usize>, v: i32) -> bool {
    (exists|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b && dd(d, a as int, b as int) == v) && forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b ==> dd(d, a as int, b as int) <= v
}
pub open spec fn rips_vals(d: Dist, m: Map<Seq<usize>, i32>) -> bool { forall|s: Seq<usize>| #[trigger] m.dom().contains(s) ==> (if s.len() == 1 { m[s] == 0 } else { diam(d, s, m[s]) }) }
pub proof fn rips_from(e: Seq<(usize, usize)>, d: Dist, n: int, mx: int, rmax: i32, c: Set<Seq<usize>>)
    requires re_is(e, d, n, rmax, n, 0), cpx_is(e, e.len() as int, n, mx, c)
    ensures rips_is(d, n, mx, rmax, c)
{
    assert forall|s: Seq<usize>| #[trigger] c.contains(s) <==> rips_simplex(d, n, mx, rmax, s) by {
        assert(c.contains(s) <==> clq(e, e.len() as int, n, mx, s));
        if all_lt(s, n) {
            assert forall|a: usize, b: usize| cmem(s, a) && cmem(s, b) && a < b implies (adj(e, e.len() as int, a, b) <==> #[trigger] dd(d, a as int, b as int) <= rmax) by { let k = s.index_of(b); assert(s[k] < n); assert(seen(a, b, n, 0)); }
            if clq(e, e.len() as int, n, mx, s) { assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies dd(d, a as int, b as int) <= rmax by { assert(adj(e, e.len() as int, a, b)); } }
            if rips_simplex(d, n, mx, rmax, s) { assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies adj(e, e.len() as int, a, b) by { assert(dd(d, a as int, b as int) <= rmax); } }
        }
    }
}
pub proof fn rips_vals_from(e: Seq<FEdge>, d: Dist, n: int, mx: int, rmax: i32, m: Map<Seq<usize>, i32>)
    requires fe_is(e, d, n, rmax, n, 0), cpx_is(ends_fe(e), e.len() as int, n, mx, m.dom()), vals_is(e, e.len() as int, 0, m)
    ensures rips_vals(d, m)
{
    let g = ends_fe(e);
    assert forall|s: Seq<usize>| #[trigger] m.dom().contains(s) implies (if s.len() == 1 { m[s] == 0 } else { diam(d, s, m[s]) }) by {
        assert(clq(g, e.len() as int, n, mx, s));
        if s.len() != 1 {
            let l = choose|l: int| 0 <= l < e.len() && #[trigger] inedge(e, l, s) && e[l].r == m[s];
            assert(g[l].0 != g[l].1); assert(e[l].r == dd(d, e[l].s as int, e[l].t as int));
            if e[l].s < e[l].t { assert(cmem(s, e[l].s) && cmem(s, e[l].t)); } else { assert(cmem(s, e[l].t) && cmem(s, e[l].s) && e[l].t < e[l].s); assert(dd(d, e[l].t as int, e[l].s as int) == m[s]); }
            assert forall|a: usize, b: usize| #[trigger] cmem(s, a) && #[trigger] cmem(s, b) && a < b implies dd(d, a as int, b as int) <= m[s] by {
                assert(adj(g, e.len() as int, a, b)); let k = choose|k: int| 0 <= k < e.len() && #[trigger] edge_at(g, k, a, b);
                assert(inedge(e, k, s)); assert(e[k].r == dd(d, e[k].s as int, e[k].t as int));
            }
        }
    }
}
// a face never comes after the simplex
pub proof fn flag_monotone(e: Seq<FEdge>, n: int, t0: i32, mx: int, m: Map<Seq<usize>, i32>, s: Seq<usize>, f: Seq<usize>, y: usize)
    requires feq_in(e, n, t0), cpx_is(ends_fe(e), e.len() as int, n, mx, m.dom()), vals_is(e, e.len() as int, t0, m), m.dom().contains(s), s.len() >= 2, isface(f, s, y), cmem(s, y)
    ensures m.dom().contains(f), m[f] <= m[s]
{
    let g = ends_fe(e); let k = e.len() as int; face_of(s, f, y); assert(clq(g, k, n, mx, s));
    assert(all_lt(f, n)) by { assert forall|l: int| 0 <= l < f.len() implies #[trigger] f[l] < n by { assert(cmem(f, f[l])); assert(cmem(s, f[l])); let p = s.index_of(f[l]); assert(s[p] < n); } }
    assert forall|a: usize, b: usize| #[trigger] cmem(f, a) && #[trigger] cmem(f, b) && a < b implies adj(g, k, a, b) by { assert(cmem(s, a) && cmem(s, b)); }
    assert(clq(g, k, n, mx, f));
    let l = choose|l: int| 0 <= l < k && #[trigger] inedge(e, l, s) && e[l].r == m[s];
    assert(t0 <= e[l].r);
    assert(m.dom().contains(f)); if f.len() != 1 { assert(vmax(e, k, f, m[f])); let p = choose|p: int| 0 <= p < k && #[trigger] inedge(e, p, f) && e[p].r == m[f]; assert(inedge(e, p, s)); }
}
pub proof fn ends_push2(e: Seq<usize>, a: usize, b: usize)
    requires e.len() % 2 == 0
    ensures ends_of(e.push(a).push(b)) == ends_of(e).push((a, b)), e.push(a).push(b).len() % 2 == 0
{
    let f = e.push(a).push(b); let m = (e.len() / 2) as int;
    assert(ends_of(f) =~= ends_of(e).push((a, b))) by { assert forall|k: int| 0 <= k < m + 1 implies #[trigger] ends_of(f)[k] == ends_of(e).push((a, b))[k] by { if k < m { assert(f[2 * k] == e[2 * k] && f[2 * k + 1] == e[2 * k + 1]); } } }
}
@end
@fn FEdge::operator<(FEdge) const as fe_lt
@prop P17
@ensures
  ret == (this.r < other.r || (this.r == other.r && (this.s < other.s || (this.s == other.s && this.t < other.t))))
@fn bats::add_dimension_recursive_flag(&mut Spx, Vec<Vec<usize>>, usize, usize, Vec<usize>, &mut Vec<usize>) as flag_rec
@prop P17
@requires
  spx_wf(*old(X)),
  d <= maxd + 1, rec_pre(old(X)@, old(spx_idxs)@, iter_idxs@, nbrs@, maxd - d + 1),
@ensures
  spx_wf(*final(X)),
  final(spx_idxs)@ == old(spx_idxs)@, grown(old(X)@, old(spx_idxs)@, iter_idxs@, nbrs@, maxd - d + 1, final(X)@),
@decreases
  maxd - d
@at entry
  let ghost x0 = spx_idxs@; let ghost c0 = X@; let ghost r = maxd - d + 1;
  let ghost mut cb = c0; let ghost mut xb = x0; let ghost mut fb = X@;
  let ghost sv = *spx_idxs;
  proof { rec_init(c0, x0, iter_idxs@, nbrs@, r); vec_max(sv); assert(sv@.len() == x0.len()); }
@loop 0
  invariant ix0 <= iter_idxs.len(), spx_wf(*X), d == maxd, spx_idxs@ == x0, r == maxd - d + 1, rec_pre(c0, x0, iter_idxs@, nbrs@, r), grown(c0, x0, iter_idxs@.take(ix0 as int), nbrs@, r, X@),
  decreases iter_idxs.len() - ix0
@at loop 0 begin
  proof { cb = X@; take_mem(iter_idxs@, ix0 as int, iter_idxs@[ix0 as int]); assert(iter_idxs@[ix0 as int] < nbrs.len()); assert(cmem(iter_idxs@, iter_idxs@[ix0 as int])); }
@at after sort_into 0
  proof { push_sorted(x0, k, spx_idxs2@); xb = spx_idxs2@; rec_step(c0, cb, x0, iter_idxs@, nbrs@, r, ix0 as int, xb); }
@at loop 0 end
  proof { assert(spx_idxs@ =~= x0); rec_done(c0, cb, x0, iter_idxs@, nbrs@, r, ix0 as int, xb, iter_idxs@, X@); }
@at loop 0 after
  proof { assert(iter_idxs@.take(iter_idxs@.len() as int) =~= iter_idxs@); }
@loop 1
  invariant ix1 <= iter_idxs.len(), spx_wf(*X), d < maxd, spx_idxs@ == x0, r == maxd - d + 1, rec_pre(c0, x0, iter_idxs@, nbrs@, r), grown(c0, x0, iter_idxs@.take(ix1 as int), nbrs@, r, X@),
  decreases iter_idxs.len() - ix1
@at loop 1 begin
  proof { cb = X@; take_mem(iter_idxs@, ix1 as int, iter_idxs@[ix1 as int]); assert(iter_idxs@[ix1 as int] < nbrs.len()); assert(cmem(iter_idxs@, iter_idxs@[ix1 as int])); }
@at after sort_into 1
  proof { push_sorted(x0, k, spx_idxs2@); xb = spx_idxs2@; rec_step(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb); }
@at after intersect_sorted_lt 0
  proof { rec_call(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb, iter_idxs2@); }
@at loop 1 end
  proof { assert(spx_idxs@ =~= x0); rec_done(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb, iter_idxs2@, X@); }
@at loop 1 after
  proof { assert(iter_idxs@.take(iter_idxs@.len() as int) =~= iter_idxs@); }
@fn bats::add_dimension_recursive_flag(&mut Filt, Vec<Vec<usize>>, usize, usize, Vec<usize>, &mut Vec<usize>, i32) as flag_rec_f
@prop P17
@requires
  filt_wf(*old(F)),
  d <= maxd, rec_pre(old(F)@.dom(), old(spx_idxs)@, iter_idxs@, nbrs@, maxd - d + 1),
  vals_le(old(F)@, t),
@ensures
  filt_wf(*final(F)),
  final(spx_idxs)@ == old(spx_idxs)@, grown(old(F)@.dom(), old(spx_idxs)@, iter_idxs@, nbrs@, maxd - d + 1, final(F)@.dom()),
  added_at(old(F)@, final(F)@, t),
@decreases
  maxd - d
@at entry
  let ghost x0 = spx_idxs@; let ghost c0 = F@.dom(); let ghost r = maxd - d + 1;
  let ghost mut cb = c0; let ghost mut xb = x0; let ghost mut fb = F@;
  let ghost sv = *spx_idxs;
  proof { rec_init(c0, x0, iter_idxs@, nbrs@, r); vec_max(sv); assert(sv@.len() == x0.len()); }
  let ghost f0 = F@;
@loop 0
  invariant ix0 <= iter_idxs.len(), filt_wf(*F), d == maxd, spx_idxs@ == x0, r == maxd - d + 1, rec_pre(c0, x0, iter_idxs@, nbrs@, r), grown(c0, x0, iter_idxs@.take(ix0 as int), nbrs@, r, F@.dom()), vals_le(F@, t), added_at(f0, F@, t), c0 == f0.dom(),
  decreases iter_idxs.len() - ix0
@at loop 0 begin
  proof { cb = F@.dom(); take_mem(iter_idxs@, ix0 as int, iter_idxs@[ix0 as int]); assert(iter_idxs@[ix0 as int] < nbrs.len()); assert(cmem(iter_idxs@, iter_idxs@[ix0 as int])); }
@at after sort_into 0
  proof { push_sorted(x0, k, spx_idxs2@); xb = spx_idxs2@; rec_step(c0, cb, x0, iter_idxs@, nbrs@, r, ix0 as int, xb); vals_faces(F@, xb, t); fb = F@; }
@at loop 0 end
  proof { assert(spx_idxs@ =~= x0); assert(F@.dom() =~= cb.insert(xb)); assert(vals_le(F@, t)); assert(added_at(f0, F@, t)); rec_done(c0, cb, x0, iter_idxs@, nbrs@, r, ix0 as int, xb, iter_idxs@, F@.dom()); }
@at loop 0 after
  proof { assert(iter_idxs@.take(iter_idxs@.len() as int) =~= iter_idxs@); }
@loop 1
  invariant ix1 <= iter_idxs.len(), filt_wf(*F), d < maxd, spx_idxs@ == x0, r == maxd - d + 1, rec_pre(c0, x0, iter_idxs@, nbrs@, r), grown(c0, x0, iter_idxs@.take(ix1 as int), nbrs@, r, F@.dom()), vals_le(F@, t), added_at(f0, F@, t), c0 == f0.dom(),
  decreases iter_idxs.len() - ix1
@at loop 1 begin
  proof { cb = F@.dom(); take_mem(iter_idxs@, ix1 as int, iter_idxs@[ix1 as int]); assert(iter_idxs@[ix1 as int] < nbrs.len()); assert(cmem(iter_idxs@, iter_idxs@[ix1 as int])); }
@at after sort_into 1
  proof { push_sorted(x0, k, spx_idxs2@); xb = spx_idxs2@; rec_step(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb); vals_faces(F@, xb, t); fb = F@; }
@at after intersect_sorted_lt 0
  proof { rec_call(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb, iter_idxs2@); assert(F@.dom() =~= cb.insert(xb)); assert(vals_le(F@, t)); assert(added_at(f0, F@, t)); fb = F@; }
@at loop 1 end
  proof { assert(spx_idxs@ =~= x0); assert(vals_le(F@, t)); assert(added_at(f0, F@, t)); rec_done(c0, cb, x0, iter_idxs@, nbrs@, r, ix1 as int, xb, iter_idxs2@, F@.dom()); }
@at loop 1 after
  proof { assert(iter_idxs@.take(iter_idxs@.len() as int) =~= iter_idxs@); }
@fn bats::FlagComplex(Vec<usize>, usize, usize) as flag_complex
@prop P17
@throws edges@.len() % 2 != 0
@requires
  maxdim < usize::MAX,
  edges_ok(ends_of(edges@), n as int),
@ensures
  spx_wf(ret),
  cpx_is(ends_of(edges@), ends_of(edges@).len() as int, n as int, maxdim as int, ret@),
@at entry
  let ghost e = ends_of(edges@); let ghost mut nb0: Seq<Vec<usize>> = Seq::empty(); let ghost mut c0: Set<Seq<usize>> = Set::empty();
  proof { vec_max(*edges); }
@loop 0
  invariant k <= n, spx_wf(X), only_vertices(k as int, X@), spx_idxs@.len() == 1
  decreases n - k
@at loop 0 begin
  proof { c0 = X@; let q = spx_idxs@.update(0, k); vertex_ok(k as int, c0, q); assert(q =~= seq![k]); assert(spx_idxs@.update(0, k).len() == 1); }
@at loop 0 after
  proof { vertices_are(e, 0, n as int, maxdim as int, X@); if maxdim == 0 { vertices_are(e, ends_of(edges@).len() as int, n as int, maxdim as int, X@); } }
@at loop 1 before
  proof { nb_init(e, n as int, nbrs@); }
@loop 1
  invariant k <= m, spx_wf(X), m == edges@.len() / 2, edges@.len() <= i64::MAX, e == ends_of(edges@), edges_ok(e, n as int), maxdim >= 1, cpx_is(e, k as int, n as int, maxdim as int, X@), nb_is(e, k as int, n as int, nbrs@), spx_idxs@.len() == 2
  decreases m - k
@at loop 1 begin
  proof { c0 = X@; nb0 = nbrs@; assert(e[k as int] == (edges@[2 * k], edges@[2 * k + 1])); assert(e[k as int].0 < n && e[k as int].1 < n && e[k as int].0 != e[k as int].1);
    let i = e[k as int].0; let j = e[k as int].1; assert(incr(nbrs@[i as int]@)); assert(nbrs@[i as int]@.subrange(0, nbrs@[i as int]@.len() as int) =~= nbrs@[i as int]@); nbm(e, k as int, n as int, nbrs@, i, j); }
@at if 2 then begin
  proof { edge_again(e, k as int, n as int, maxdim as int, X@, nbrs@); }
@at before sort 0
  proof { assert(spx_idxs@ =~= seq![i].push(j)); }
@at after sort 0
  let ghost x = spx_idxs@;
  proof { assert forall|y: usize| #[trigger] cmem(seq![i], y) <==> y == i by { assert(seq![i][0] == i); if cmem(seq![i], y) { let l = seq![i].index_of(y); assert(l == 0); } } push_sorted(seq![i], j, x); edge_new(e, k as int, n as int, maxdim as int, c0, nbrs@, x); assert(incr(nbrs@[j as int]@)); }
@at after intersect_sorted 0
  proof { edge_rec(e, k as int, n as int, maxdim as int, c0, nbrs@, x, iter_idxs@); rec_init(X@, x, iter_idxs@, nbrs@, maxdim - 1); assert(iter_idxs@.len() == 0 ==> iter_idxs@.take(0) =~= iter_idxs@); }
@at after if 3
  proof { edge_done(e, k as int, n as int, maxdim as int, c0, nbrs@, x, iter_idxs@, X@); }
@at before sort 1
  let ghost it1 = iter_idxs@;
@at loop 1 end
  proof { nb_upd(e, k as int, n as int, nb0, nbrs@); }
@fn bats::FlagFiltration(&mut Vec<FEdge>, usize, usize, i32) as flag_filtration
@prop P17
@requires
  maxdim < usize::MAX,
  feq_in(old(edges)@, n as int, t0),
@ensures
  filt_wf(ret),
  exists|w: Seq<int>| rearranged(old(edges)@, w, final(edges)@), nondecr_fe(final(edges)@),
  cpx_is(ends_fe(final(edges)@), final(edges)@.len() as int, n as int, maxdim as int, ret@.dom()), vals_is(final(edges)@, final(edges)@.len() as int, t0, ret@),
@at entry
  let ghost e0 = edges@; let ghost mut m0: Map<Seq<usize>, i32> = Map::empty(); let ghost mut nb0: Seq<Vec<usize>> = Seq::empty(); let ghost mut c0: Set<Seq<usize>> = Set::empty();
@at after sort 0
  let ghost fe = edges@; let ghost e = ends_fe(fe);
  proof { let w = choose|w: Seq<int>| rearranged(e0, w, fe); fe_sorted(e0, w, fe, n as int, t0); }
@loop 0
  invariant k <= n, filt_wf(F), only_vertices(k as int, F@.dom()), only_at(t0, F@), spx_idxs@.len() == 1, edges@ == fe
  decreases n - k
@at loop 0 begin
  proof { c0 = F@.dom(); let q = spx_idxs@.update(0, k); vertex_ok(k as int, c0, q); assert(q =~= seq![k]); assert(faces_before(F@, q, t0)); }
@at loop 0 end
  proof { assert(F@.dom() =~= c0.insert(spx_idxs@)); }
@at loop 0 after
  proof { assert(vals_is(fe, 0, t0, F@) && vals_is(fe, fe.len() as int, t0, F@)); vertices_are(e, 0, n as int, maxdim as int, F@.dom()); if maxdim == 0 { vertices_are(e, fe.len() as int, n as int, maxdim as int, F@.dom()); } }
@at loop 1 before
  proof { nb_init(e, n as int, nbrs@); }
@loop 1
  invariant k <= m, filt_wf(F), m == fe.len(), edges@ == fe, e == ends_fe(fe), feq_in(fe, n as int, t0), nondecr_fe(fe), vals_is(fe, k as int, t0, F@), edges_ok(e, n as int), maxdim >= 1, cpx_is(e, k as int, n as int, maxdim as int, F@.dom()), nb_is(e, k as int, n as int, nbrs@), spx_idxs@.len() == 2
  decreases m - k
@at loop 1 begin
  proof { c0 = F@.dom(); m0 = F@; nb0 = nbrs@; assert(e[k as int] == (fe[k as int].s, fe[k as int].t)); fe_new(fe, k as int, n as int, t0); assert(t0 <= fe[k as int].r); vals_bound(fe, k as int, t0, F@); assert(e[k as int].0 < n && e[k as int].1 < n && e[k as int].0 != e[k as int].1);
    let i = e[k as int].0; let j = e[k as int].1; assert(incr(nbrs@[i as int]@)); nbm(e, k as int, n as int, nbrs@, i, j); }
@at before sort 1
  proof { assert(spx_idxs@ =~= seq![i].push(j)); }
@at after sort 1
  let ghost x = spx_idxs@;
  proof { assert forall|y: usize| #[trigger] cmem(seq![i], y) <==> y == i by { assert(seq![i][0] == i); if cmem(seq![i], y) { let l = seq![i].index_of(y); assert(l == 0); } } push_sorted(seq![i], j, x); edge_new(e, k as int, n as int, maxdim as int, c0, nbrs@, x); vals_faces(m0, x, t); assert(incr(nbrs@[j as int]@)); }
@at after intersect_sorted 0
  proof { assert(F@.dom() =~= c0.insert(x)); edge_rec(e, k as int, n as int, maxdim as int, c0, nbrs@, x, iter_idxs@); rec_init(F@.dom(), x, iter_idxs@, nbrs@, maxdim - 1); assert(iter_idxs@.len() == 0 ==> iter_idxs@.take(0) =~= iter_idxs@); assert(vals_le(F@, t)); assert(added_at(F@, F@, t)); }
@at after if 1
  proof { edge_done(e, k as int, n as int, maxdim as int, c0, nbrs@, x, iter_idxs@, F@.dom()); vals_step(fe, k as int, n as int, maxdim as int, t0, m0, nbrs@, x, iter_idxs@, F@); }
@at loop 1 end
  proof { nb_upd(e, k as int, n as int, nb0, nbrs@); }
@fn bats::rips_edges(DSet, Metric, i32) as rips_edges_ds
@prop P17
@opt wrap
@requires
  true
@ensures
  ret@.len() % 2 == 0, re_is(ends_of(ret@), Dist::Ds(*dist, *X), X.n(), rmax, X.n(), 0),
@at entry
  let ghost D = Dist::Ds(*dist, *X); let ghost mut e0: Seq<usize> = Seq::empty();
@at loop 0 before
  proof { re_init(ends_of(edges@), D, n as int, rmax); }
@loop 0
  invariant i <= n, n == X.n(), D == Dist::Ds(*dist, *X), edges@.len() % 2 == 0, re_is(ends_of(edges@), D, n as int, rmax, i as int, 0)
  decreases n - i
@loop 1
  invariant j <= i, i < n, n == X.n(), D == Dist::Ds(*dist, *X), edges@.len() % 2 == 0, re_is(ends_of(edges@), D, n as int, rmax, i as int, j as int)
  decreases i - j
@at loop 1 begin
  proof { e0 = edges@; }
@at loop 1 end
  proof { if edges@.len() > e0.len() { if edges@[e0.len() as int] == j { ends_push2(e0, j, i); assert(edges@ =~= e0.push(j).push(i)); } else { ends_push2(e0, i, j); assert(edges@ =~= e0.push(i).push(j)); } } re_step(ends_of(e0), ends_of(edges@), D, n as int, rmax, i, j); }
@at loop 1 after
  proof { re_row(ends_of(edges@), D, n as int, rmax, i as int); }
@fn bats::rips_edges(DMat, i32) as rips_edges_dm
@prop P17
@opt wrap
@requires
  pdist.n() <= 0x8000_0000
@ensures
  ret@.len() % 2 == 0, re_is(ends_of(ret@), Dist::Dm(*pdist), pdist.n(), rmax, pdist.n(), 0),
@at entry
  let ghost D = Dist::Dm(*pdist); let ghost mut e0: Seq<usize> = Seq::empty();
@at loop 0 before
  proof { re_init(ends_of(edges@), D, n as int, rmax); }
@loop 0
  invariant j <= n, n == pdist.n(), D == Dist::Dm(*pdist), edges@.len() % 2 == 0, re_is(ends_of(edges@), D, n as int, rmax, j as int, 0), pdist.n() <= 0x8000_0000
  decreases n - j
@loop 1
  invariant i <= j, j < n, n == pdist.n(), D == Dist::Dm(*pdist), edges@.len() % 2 == 0, re_is(ends_of(edges@), D, n as int, rmax, j as int, i as int), pdist.n() <= 0x8000_0000
  decreases j - i
@at loop 1 begin
  proof { e0 = edges@; }
@at loop 1 end
  proof { if edges@.len() > e0.len() { if edges@[e0.len() as int] == i { ends_push2(e0, i, j); assert(edges@ =~= e0.push(i).push(j)); } else { ends_push2(e0, j, i); assert(edges@ =~= e0.push(j).push(i)); } } re_step(ends_of(e0), ends_of(edges@), D, n as int, rmax, j, i); }
@at loop 1 after
  proof { re_row(ends_of(edges@), D, n as int, rmax, j as int); }
@fn bats::rips_filtration_edges(DSet, Metric, i32) as rips_fedges_ds
@prop P17
@opt wrap
@requires
  true
@ensures
  fe_is(ret@, Dist::Ds(*dist, *X), X.n(), rmax, X.n(), 0),
@at entry
  let ghost D = Dist::Ds(*dist, *X); let ghost mut e0: Seq<FEdge> = Seq::empty();
@at loop 0 before
  proof { re_init(ends_fe(edges@), D, n as int, rmax); }
@loop 0
  invariant i <= n, n == X.n(), D == Dist::Ds(*dist, *X), fe_is(edges@, D, n as int, rmax, i as int, 0)
  decreases n - i
@loop 1
  invariant j <= i, i < n, n == X.n(), D == Dist::Ds(*dist, *X), fe_is(edges@, D, n as int, rmax, i as int, j as int)
  decreases i - j
@at loop 1 begin
  proof { e0 = edges@; }
@at loop 1 end
  proof { assert(0 <= dd(D, j as int, i as int)); if edges@.len() > e0.len() { assert(edges@.drop_last() =~= e0); } fe_step(e0, edges@, D, n as int, rmax, i, j); }
@at loop 1 after
  proof { re_row(ends_fe(edges@), D, n as int, rmax, i as int); }
@at before sort 0
  let ghost e1 = edges@;
@at after sort 0
  proof { let w = choose|w: Seq<int>| rearranged(e1, w, edges@); fe_perm(e1, w, edges@, D, n as int, rmax, n as int, 0); }
@fn bats::rips_filtration_edges(DMat, i32) as rips_fedges_dm
@prop P17
@opt wrap
@requires
  pdist.n() <= 0x8000_0000
@ensures
  fe_is(ret@, Dist::Dm(*pdist), pdist.n(), rmax, pdist.n(), 0),
@at entry
  let ghost D = Dist::Dm(*pdist); let ghost mut e0: Seq<FEdge> = Seq::empty();
@at loop 0 before
  proof { re_init(ends_fe(edges@), D, n as int, rmax); }
@loop 0
  invariant j <= n, n == pdist.n(), D == Dist::Dm(*pdist), fe_is(edges@, D, n as int, rmax, j as int, 0), pdist.n() <= 0x8000_0000
  decreases n - j
@loop 1
  invariant i <= j, j < n, n == pdist.n(), D == Dist::Dm(*pdist), fe_is(edges@, D, n as int, rmax, j as int, i as int), pdist.n() <= 0x8000_0000
  decreases j - i
@at loop 1 begin
  proof { e0 = edges@; }
@at loop 1 end
  proof { assert(0 <= dd(D, i as int, j as int)); if edges@.len() > e0.len() { assert(edges@.drop_last() =~= e0); } fe_step(e0, edges@, D, n as int, rmax, j, i); }
@at loop 1 after
  proof { re_row(ends_fe(edges@), D, n as int, rmax, j as int); }
@fn bats::RipsComplex(DSet, Metric, i32, usize) as rips_cpx_ds
@prop P17
@requires
  dmax < usize::MAX
@ensures
  spx_wf(ret),
  rips_is(Dist::Ds(*dist, *X), X.n(), dmax as int, rmax, ret@),
@at after flag_complex 0
  proof { rips_from(ends_of(redges@), Dist::Ds(*dist, *X), n as int, dmax as int, rmax, r_flag_complex_0@); }
@fn bats::RipsComplex(DMat, i32, usize) as rips_cpx_dm
@prop P17
@requires
  dmax < usize::MAX, pdist.n() <= 0x8000_0000
@ensures
  spx_wf(ret),
  rips_is(Dist::Dm(*pdist), pdist.n(), dmax as int, rmax, ret@),
@at after flag_complex 0
  proof { rips_from(ends_of(redges@), Dist::Dm(*pdist), n as int, dmax as int, rmax, r_flag_complex_0@); }
@fn bats::RipsFiltration(DSet, Metric, i32, usize) as rips_fil_ds
@prop P17
@requires
  dmax < usize::MAX
@ensures
  filt_wf(ret),
  rips_is(Dist::Ds(*dist, *X), X.n(), dmax as int, rmax, ret@.dom()),
  rips_vals(Dist::Ds(*dist, *X), ret@),
@at after rips_fedges_ds 0
  let ghost e0 = r_rips_fedges_ds_0@;
@at after flag_filtration 0
  proof { let f = edges@; let w = choose|w: Seq<int>| rearranged(e0, w, f); fe_perm(e0, w, f, Dist::Ds(*dist, *X), n as int, rmax, n as int, 0); rips_from(ends_fe(f), Dist::Ds(*dist, *X), n as int, dmax as int, rmax, r_flag_filtration_0@.dom()); rips_vals_from(f, Dist::Ds(*dist, *X), n as int, dmax as int, rmax, r_flag_filtration_0@); }
@fn bats::RipsFiltration(DMat, i32, usize) as rips_fil_dm
@prop P17
@requires
  dmax < usize::MAX, pdist.n() <= 0x8000_0000
@ensures
  filt_wf(ret),
  rips_is(Dist::Dm(*pdist), pdist.n(), dmax as int, rmax, ret@.dom()),
  rips_vals(Dist::Dm(*pdist), ret@),
@at after rips_fedges_dm 0
  let ghost e0 = r_rips_fedges_dm_0@;
@at after flag_filtration 0
  proof { let f = redges@; let w = choose|w: Seq<int>| rearranged(e0, w, f); fe_perm(e0, w, f, Dist::Dm(*pdist), n as int, rmax, n as int, 0); rips_from(ends_fe(f), Dist::Dm(*pdist), n as int, dmax as int, rmax, r_flag_filtration_0@.dom()); rips_vals_from(f, Dist::Dm(*pdist), n as int, dmax as int, rmax, r_flag_filtration_0@); }
