@unit la
@uses quiv_form
@rust
pub type QMap = Map<usize, usize>;
// entry i of node k is mapped to / from entry j of node k + 1
pub open spec fn lnk<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, i: int, j: int) -> bool { if dlf(D)(k) { fm(mats[k])(i, j) != F::szero() } else { fm(mats[k])(j, i) != F::szero() } }
pub open spec fn mown(p: QMap, d: int, nb: int) -> bool { forall|i: usize| #![trigger p[i]] #![trigger p.dom().contains(i)] i < d ==> p.dom().contains(i) && p[i] < nb }
pub open spec fn minj(p: QMap, d: int) -> bool { forall|i: usize, j: usize| i < d && j < d && i != j ==> #[trigger] p[i] != #[trigger] p[j] }
pub open spec fn hasown(p: QMap, d: int, b: int) -> bool { exists|i: usize| i < d && #[trigger] p[i] == b }
pub open spec fn barat(D: spec_fn(int) -> int, h: Seq<QMap>, b: int, x: QBar, K: int) -> bool { x.start <= x.end <= K && x.start_ind < D(x.start as int) && h[x.start as int][x.start_ind] == b && x.end_ind < D(x.end as int) && h[x.end as int][x.end_ind] == b }
pub open spec fn covers<F: Field>(D: Dgm<F>, bars: Seq<QBar>, h: Seq<QMap>, k: int) -> bool { forall|i: usize| i < dnd(D)(k) ==> bars[(#[trigger] h[k][i]) as int].start <= k <= bars[h[k][i] as int].end }
pub open spec fn links<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, h: Seq<QMap>, k: int) -> bool { forall|i: usize, j: usize| i < dnd(D)(k) && j < dnd(D)(k + 1) ==> (lnk(D, mats, k, i as int, j as int) <==> #[trigger] h[k][i] == #[trigger] h[k + 1][j]) }
// h[k][i]: the bar of basis vector i of node k.  Bars 0.. of bars partition the basis vectors of the nodes 0..=K into chains of linked vectors
#[verifier::opaque]
pub open spec fn bst<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, bars: Seq<QBar>, h: Seq<QMap>, K: int) -> bool {
    &&& h.len() == K + 1
    &&& forall|k: int| 0 <= k <= K ==> mown(#[trigger] h[k], dnd(D)(k), bars.len() as int) && minj(h[k], dnd(D)(k)) && covers(D, bars, h, k)
    &&& forall|b: int| 0 <= b < bars.len() ==> barat(dnd(D), h, b, #[trigger] bars[b], K)
    &&& forall|b: int, k: int| 0 <= b < bars.len() && bars[b].start <= k <= bars[b].end ==> hasown(#[trigger] h[k], dnd(D)(k), b) && (#[trigger] bars[b]).start <= k
    &&& forall|k: int| 0 <= k < K ==> links(D, mats, h, k) && #[trigger] h[k] == h[k]
}
pub open spec fn bars_ok<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, bars: Seq<QBar>) -> bool { exists|h: Seq<QMap>| #[trigger] bst(D, mats, bars, h, D.edata@.len() as int) }
pub open spec fn oldbar(x: QBar, y: QBar, k: int, j: int, p2: QMap, b: int) -> bool { x.start == y.start && x.start_ind == y.start_ind && (x == y && (forall|i: usize| i < j ==> #[trigger] p2[i] != b) || x.end == k + 1 && x.end_ind < j && p2[x.end_ind] == b) }
// the first j vectors of node k + 1 are in place
#[verifier::opaque]
pub open spec fn bin<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, p1: QMap, bars: Seq<QBar>, p2: QMap, j: int) -> bool {
    &&& bars.len() >= B0.len()
    &&& mown(p2, j, bars.len() as int) && minj(p2, j)
    &&& forall|i: usize, q: usize| i < j && q < dnd(D)(k) && lnk(D, mats, k, q as int, i as int) ==> #[trigger] p2[i] == #[trigger] p1[q]
    &&& forall|i: usize| i < j && #[trigger] p2[i] < B0.len() ==> linked(D, mats, k, i)
    &&& forall|b: int| 0 <= b < B0.len() ==> oldbar(#[trigger] bars[b], B0[b], k, j, p2, b)
    &&& forall|b: int| B0.len() <= b < bars.len() ==> newbar(#[trigger] bars[b], k, j, p2, b)
}
pub open spec fn newbar(x: QBar, k: int, j: int, p2: QMap, b: int) -> bool { x.start == k + 1 && x.end == k + 1 && x.start_ind == x.end_ind && x.end_ind < j && p2[x.end_ind] == b }
pub open spec fn linked<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, i: usize) -> bool { exists|q: usize| q < dnd(D)(k) && #[trigger] lnk(D, mats, k, q as int, i as int) }
pub open spec fn bin0(bars: Seq<QBar>, p: QMap, j: int) -> bool { bars.len() == j && forall|i: usize| #![trigger p[i]] #![trigger p.dom().contains(i)] i < j ==> p.dom().contains(i) && p[i] == i && bars[i as int] == (QBar { start: 0, start_ind: i, end: 0, end_ind: i }) }
pub proof fn bin0_step(bars: Seq<QBar>, p: QMap, i: usize, bars2: Seq<QBar>, p2: QMap)
    requires bin0(bars, p, i as int), p2 == p.insert(i, i), bars2 == bars.push(QBar { start: 0, start_ind: i, end: 0, end_ind: i }) ensures bin0(bars2, p2, i + 1)
{ assert forall|q: usize| #![trigger p2[q]] #![trigger p2.dom().contains(q)] q < i + 1 implies p2.dom().contains(q) && p2[q] == q && bars2[q as int] == (QBar { start: 0, start_ind: q, end: 0, end_ind: q }) by { if q < i { assert(p[q] == q); } } }
pub proof fn bst_start<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, bars: Seq<QBar>, p: QMap) requires bin0(bars, p, dnd(D)(0)) ensures bst(D, mats, bars, seq![p], 0)
{
    reveal(bst); let h = seq![p]; let d = dnd(D)(0); dnd_ok(D); assert(0 <= d <= usize::MAX);
    assert forall|b: int| 0 <= b < bars.len() implies barat(dnd(D), h, b, #[trigger] bars[b], 0) by { assert(p[b as usize] == b as usize); }
    assert forall|b: int, k: int| 0 <= b < bars.len() && bars[b].start <= k <= bars[b].end implies hasown(#[trigger] h[k], dnd(D)(k), b) && (#[trigger] bars[b]).start <= k by { assert(p[b as usize] == b as usize); assert(k == 0); }
    assert(h[0] == p);
    assert(mown(p, d, bars.len() as int)); assert(minj(p, d)); assert(covers(D, bars, h, 0));
}
pub proof fn bin_start<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, p1: QMap, p2: QMap) ensures bin(D, mats, k, B0, p1, B0, p2, 0) { reveal(bin); }
// a vector is linked to at most one vector of the other node
pub proof fn lnk_one<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int) requires barmat(D, k, mats[k])
    ensures forall|q: int, i: int, i2: int| 0 <= q < dnd(D)(k) && 0 <= i < dnd(D)(k + 1) && 0 <= i2 < dnd(D)(k + 1) && #[trigger] lnk(D, mats, k, q, i) && #[trigger] lnk(D, mats, k, q, i2) ==> i == i2,
        forall|q: int, q2: int, i: int| 0 <= q < dnd(D)(k) && 0 <= q2 < dnd(D)(k) && 0 <= i < dnd(D)(k + 1) && #[trigger] lnk(D, mats, k, q, i) && #[trigger] lnk(D, mats, k, q2, i) ==> q == q2
{ }
pub proof fn bin_new<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, p1: QMap, bars: Seq<QBar>, p2: QMap, j: usize, bars2: Seq<QBar>, q2: QMap)
    requires bin(D, mats, k, B0, p1, bars, p2, j as int), j < dnd(D)(k + 1), k >= 0, bars.len() <= usize::MAX, forall|q: int| 0 <= q < dnd(D)(k) ==> !#[trigger] lnk(D, mats, k, q, j as int),
        q2 == p2.insert(j, bars.len() as usize), k + 1 <= usize::MAX, bars2 == bars.push(QBar { start: (k + 1) as usize, start_ind: j, end: (k + 1) as usize, end_ind: j })
    ensures bin(D, mats, k, B0, p1, bars2, q2, j + 1)
{
    reveal(bin); let nb = bars.len() as int;
    assert forall|i: usize| i < j implies q2[i] == #[trigger] p2[i] by { }
    assert(q2[j] == nb);
    assert forall|i: usize| #![trigger q2[i]] #![trigger q2.dom().contains(i)] i < j + 1 implies q2.dom().contains(i) && q2[i] < bars2.len() by { if i < j { assert(p2[i] < nb); } }
    assert forall|i: usize, i2: usize| i < j + 1 && i2 < j + 1 && i != i2 implies #[trigger] q2[i] != #[trigger] q2[i2] by { if i < j { assert(p2[i] < nb); } if i2 < j { assert(p2[i2] < nb); } }
    assert forall|i: usize, q: usize| i < j + 1 && q < dnd(D)(k) && lnk(D, mats, k, q as int, i as int) implies #[trigger] q2[i] == #[trigger] p1[q] by { if i < j { assert(p2[i] == p1[q]); } }
    assert forall|i: usize| i < j + 1 && #[trigger] q2[i] < B0.len() implies linked(D, mats, k, i) by { assert(i < j); assert(p2[i] < B0.len()); }
    assert forall|b: int| 0 <= b < B0.len() implies oldbar(#[trigger] bars2[b], B0[b], k, j + 1, q2, b) by { assert(oldbar(bars[b], B0[b], k, j as int, p2, b)); }
    assert forall|b: int| B0.len() <= b < bars2.len() implies newbar(#[trigger] bars2[b], k, j + 1, q2, b) by { if b < nb { assert(newbar(bars[b], k, j as int, p2, b)); } }
}
pub proof fn bin_ext<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, p1: QMap, bars: Seq<QBar>, p2: QMap, j: usize, q: usize, bars2: Seq<QBar>, q2: QMap)
    requires bin(D, mats, k, B0, p1, bars, p2, j as int), j < dnd(D)(k + 1), 0 <= k, barmat(D, k, mats[k]), q < dnd(D)(k), lnk(D, mats, k, q as int, j as int), mown(p1, dnd(D)(k), B0.len() as int), minj(p1, dnd(D)(k)), k + 1 <= usize::MAX,
        q2 == p2.insert(j, p1[q]), bars2 == bars.update(p1[q] as int, QBar { end: (k + 1) as usize, end_ind: j, ..bars[p1[q] as int] })
    ensures bin(D, mats, k, B0, p1, bars2, q2, j + 1)
{
    reveal(bin); let nb = bars.len() as int; lnk_one(D, mats, k); let pi = p1[q]; assert(pi < B0.len());
    assert forall|i: usize| i < j implies q2[i] == #[trigger] p2[i] by { }
    assert(q2[j] == pi);
    assert forall|i: usize| i < j implies #[trigger] p2[i] != pi by {
        if p2[i] == pi { assert(linked(D, mats, k, i)); let r = choose|r: usize| r < dnd(D)(k) && #[trigger] lnk(D, mats, k, r as int, i as int); assert(p2[i] == p1[r]); if r == q { assert(i as int == j as int); } else { assert(p1[r] != p1[q]); } }
    }
    assert forall|i: usize| #![trigger q2[i]] #![trigger q2.dom().contains(i)] i < j + 1 implies q2.dom().contains(i) && q2[i] < bars2.len() by { if i < j { assert(p2[i] < nb); } }
    assert forall|i: usize, i2: usize| i < j + 1 && i2 < j + 1 && i != i2 implies #[trigger] q2[i] != #[trigger] q2[i2] by { if i < j { assert(p2[i] != pi); } if i2 < j { assert(p2[i2] != pi); } }
    assert forall|i: usize, r: usize| i < j + 1 && r < dnd(D)(k) && lnk(D, mats, k, r as int, i as int) implies #[trigger] q2[i] == #[trigger] p1[r] by { if i < j { assert(p2[i] == p1[r]); } else { assert(r as int == q as int); } }
    assert forall|i: usize| i < j + 1 && #[trigger] q2[i] < B0.len() implies linked(D, mats, k, i) by { if i < j { assert(p2[i] < B0.len()); } else { assert(lnk(D, mats, k, q as int, i as int)); } }
    assert forall|b: int| 0 <= b < B0.len() implies oldbar(#[trigger] bars2[b], B0[b], k, j + 1, q2, b) by { assert(oldbar(bars[b], B0[b], k, j as int, p2, b)); }
    assert forall|b: int| B0.len() <= b < bars2.len() implies newbar(#[trigger] bars2[b], k, j + 1, q2, b) by { assert(newbar(bars[b], k, j as int, p2, b)); }
}
proof fn bst_ext<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures forall|b: int| 0 <= b < B0.len() && bars[b] != B0[b] ==> (B0[b].end == k && (#[trigger] bars[b]).end == (k + 1))
{
    reveal(bst); reveal(bin); let g = h.push(p2); let nd = dnd(D); let K = k + 1; dnd_ok(D); assert(nd(k) >= 0 && nd(K) >= 0);
    assert(g[K] == p2); assert forall|r: int| 0 <= r <= k implies #[trigger] g[r] == h[r] by { }
    assert(mown(h[k], nd(k), B0.len() as int) && minj(h[k], nd(k)) && covers(D, B0, h, k));
    // an extended bar ended at node k
    assert forall|b: int| 0 <= b < B0.len() && bars[b] != B0[b] implies B0[b].end == k && (#[trigger] bars[b]).end == K by {
        assert(oldbar(bars[b], B0[b], k, nd(K), p2, b)); let i = bars[b].end_ind; assert(p2[i] == b); assert(linked(D, mats, k, i));
        let q = choose|q: usize| q < nd(k) && #[trigger] lnk(D, mats, k, q as int, i as int); assert(p2[i] == h[k][q]); assert(barat(nd, h, b, B0[b], k));
    }
}
proof fn bst_cov<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures forall|r: int| 0 <= r <= (k + 1) ==> (mown(#[trigger] h.push(p2)[r], dnd(D)(r), bars.len() as int) && minj(h.push(p2)[r], dnd(D)(r)) && covers(D, bars, h.push(p2), r))
{
    reveal(bst); reveal(bin); let g = h.push(p2); let nd = dnd(D); let K = k + 1; dnd_ok(D); assert(nd(k) >= 0 && nd(K) >= 0);
    assert(g[K] == p2); assert forall|r: int| 0 <= r <= k implies #[trigger] g[r] == h[r] by { }
    assert(mown(h[k], nd(k), B0.len() as int) && minj(h[k], nd(k)) && covers(D, B0, h, k));
    bst_ext(D, mats, k, B0, h, bars, p2);
    assert forall|r: int| 0 <= r <= K implies mown(#[trigger] g[r], nd(r), bars.len() as int) && minj(g[r], nd(r)) && covers(D, bars, g, r) by {
        if r <= k {
            assert(mown(h[r], nd(r), B0.len() as int) && minj(h[r], nd(r)) && covers(D, B0, h, r));
            assert forall|i: usize| i < nd(r) implies bars[(#[trigger] g[r][i]) as int].start <= r <= bars[g[r][i] as int].end by { let b = h[r][i] as int; assert(b < B0.len()); assert(oldbar(bars[b], B0[b], k, nd(K), p2, b)); }
        } else {
            assert forall|i: usize| i < nd(r) implies bars[(#[trigger] g[r][i]) as int].start <= r <= bars[g[r][i] as int].end by {
                let b = p2[i] as int; assert(b < bars.len());
                if b < B0.len() { assert(oldbar(bars[b], B0[b], k, nd(K), p2, b)); assert(barat(nd, h, b, B0[b], k)); } else { assert(newbar(bars[b], k, nd(K), p2, b)); }
            }
        }
    }
}
proof fn bst_bar<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures forall|b: int| 0 <= b < bars.len() ==> (barat(dnd(D), h.push(p2), b, #[trigger] bars[b], (k + 1)))
{
    reveal(bst); reveal(bin); let g = h.push(p2); let nd = dnd(D); let K = k + 1; dnd_ok(D); assert(nd(k) >= 0 && nd(K) >= 0);
    assert(g[K] == p2); assert forall|r: int| 0 <= r <= k implies #[trigger] g[r] == h[r] by { }
    assert(mown(h[k], nd(k), B0.len() as int) && minj(h[k], nd(k)) && covers(D, B0, h, k));
    bst_ext(D, mats, k, B0, h, bars, p2);
    assert forall|b: int| 0 <= b < bars.len() implies barat(nd, g, b, #[trigger] bars[b], K) by {
        if b < B0.len() { assert(oldbar(bars[b], B0[b], k, nd(K), p2, b)); assert(barat(nd, h, b, B0[b], k)); } else { assert(newbar(bars[b], k, nd(K), p2, b)); }
    }
}
proof fn bst_own<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures forall|b: int, r: int| 0 <= b < bars.len() && bars[b].start <= r <= bars[b].end ==> (hasown(#[trigger] h.push(p2)[r], dnd(D)(r), b) && (#[trigger] bars[b]).start <= r)
{
    reveal(bst); reveal(bin); let g = h.push(p2); let nd = dnd(D); let K = k + 1; dnd_ok(D); assert(nd(k) >= 0 && nd(K) >= 0);
    assert(g[K] == p2); assert forall|r: int| 0 <= r <= k implies #[trigger] g[r] == h[r] by { }
    assert(mown(h[k], nd(k), B0.len() as int) && minj(h[k], nd(k)) && covers(D, B0, h, k));
    bst_bar(D, mats, k, B0, h, bars, p2); bst_ext(D, mats, k, B0, h, bars, p2);
    assert forall|b: int, r: int| 0 <= b < bars.len() && bars[b].start <= r <= bars[b].end implies hasown(#[trigger] g[r], nd(r), b) && (#[trigger] bars[b]).start <= r by {
        assert(barat(nd, g, b, bars[b], K));
        if r == K { let i = bars[b].end_ind; assert(g[r][i] == b); }
        else { if b >= B0.len() { assert(newbar(bars[b], k, nd(K), p2, b)); } assert(oldbar(bars[b], B0[b], k, nd(K), p2, b)); assert(B0[b].start <= r <= B0[b].end); assert(hasown(h[r], nd(r), b)); }
    }
}
proof fn bst_lnk<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures forall|r: int| 0 <= r < (k + 1) ==> (links(D, mats, h.push(p2), r) && #[trigger] h.push(p2)[r] == h.push(p2)[r])
{
    reveal(bst); reveal(bin); let g = h.push(p2); let nd = dnd(D); let K = k + 1; dnd_ok(D); assert(nd(k) >= 0 && nd(K) >= 0);
    assert(g[K] == p2); assert forall|r: int| 0 <= r <= k implies #[trigger] g[r] == h[r] by { }
    assert(mown(h[k], nd(k), B0.len() as int) && minj(h[k], nd(k)) && covers(D, B0, h, k));
    assert forall|r: int| 0 <= r < K implies links(D, mats, g, r) && #[trigger] g[r] == g[r] by {
        if r < k { assert(h[r] == h[r]); assert(links(D, mats, h, r)); }
        else {
            assert forall|i: usize, j: usize| i < nd(r) && j < nd(r + 1) implies (lnk(D, mats, r, i as int, j as int) <==> #[trigger] g[r][i] == #[trigger] g[r + 1][j]) by {
                if lnk(D, mats, r, i as int, j as int) { assert(p2[j] == h[k][i]); }
                if h[k][i] == p2[j] { assert(h[k][i] < B0.len()); assert(linked(D, mats, k, j)); let q = choose|q: usize| q < nd(k) && #[trigger] lnk(D, mats, k, q as int, j as int); assert(p2[j] == h[k][q]); if q != i { assert(h[k][q] != h[k][i]); } }
            }
        }
    }
}
pub proof fn bst_step<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, B0: Seq<QBar>, h: Seq<QMap>, bars: Seq<QBar>, p2: QMap)
    requires bst(D, mats, B0, h, k), k >= 0, bin(D, mats, k, B0, h[k], bars, p2, dnd(D)(k + 1))
    ensures bst(D, mats, bars, h.push(p2), k + 1)
{
    bst_cov(D, mats, k, B0, h, bars, p2); bst_bar(D, mats, k, B0, h, bars, p2); bst_own(D, mats, k, B0, h, bars, p2); bst_lnk(D, mats, k, B0, h, bars, p2); reveal(bst); reveal(bin);
}
pub proof fn bst_last<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, bars: Seq<QBar>, h: Seq<QMap>, K: int) requires bst(D, mats, bars, h, K), K >= 0 ensures h.len() == K + 1, mown(h[K], dnd(D)(K), bars.len() as int), minj(h[K], dnd(D)(K)) { reveal(bst); }
// the first stored entry of the column of node k + 1's vector j
pub proof fn col_lnk<F: Field>(D: Dgm<F>, mats: Seq<CM<F>>, k: int, j: int, c: Seq<Nz<F>>)
    requires sc(c, dnd(D)(k)), forall|i: int| 0 <= i < dnd(D)(k) ==> (#[trigger] lnk(D, mats, k, i, j) <==> sval(c, i) != F::szero())
    ensures c.len() == 0 ==> forall|q: int| 0 <= q < dnd(D)(k) ==> !#[trigger] lnk(D, mats, k, q, j), c.len() > 0 ==> c[0].ind < dnd(D)(k) && lnk(D, mats, k, c[0].ind as int, j)
{
    if c.len() > 0 { sval_at(c, 0); assert(lnk(D, mats, k, c[0].ind as int, j) <==> sval(c, c[0].ind as int) != F::szero()); }
    else { assert forall|q: int| 0 <= q < dnd(D)(k) implies !#[trigger] lnk(D, mats, k, q, j) by { assert(sval(c, q) == F::szero()); } }
}
pub open spec fn qpairs_of(ps: Seq<PPairU>, bars: Seq<QBar>, hdim: usize) -> bool { ps.len() == bars.len() && forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == (PPairU { dim: hdim, birth_ind: bars[i].start_ind, death_ind: bars[i].end_ind, birth: bars[i].start, death: bars[i].end }) }
// ps: the bars of the pivot matrices of a representation isomorphic to D
pub open spec fn barcode_of<F: Field>(D: Dgm<F>, ps: Seq<PPairU>, hdim: usize) -> bool { exists|mats: Seq<CM<F>>, bars: Seq<QBar>| #[trigger] barform(D, mats) && #[trigger] bars_ok(D, mats, bars) && qpairs_of(ps, bars, hdim) }
@end
@fn bats::barcode_from_barcode_form(Vec<CM<F>>, Dgm<F>) as bars_from_form
@prop P19
@requires
  dgok(*dgm), mat@.len() == dgm.edata@.len(), forall|k: int| 0 <= k < mat@.len() ==> barmat(*dgm, k, #[trigger] mat@[k])
@ensures
  bars_ok(*dgm, mat@, ret@)
@at entry
  proof { vec_max(dgm.edata); assert(barmat(*dgm, 0, mat@[0])); }
@loop 0
  invariant 0 <= i <= mat@[0].m, mat@[0].m == dnd(*dgm)(0), bin0(bars@, piv_to_ind@, i as int)
  decreases mat@[0].m - i
@at loop 0 begin
  let ghost ob = bars@;
  let ghost op = piv_to_ind@;
@at loop 0 end
  proof { bin0_step(ob, op, i, bars@, piv_to_ind@); }
@loop 1
  invariant 0 <= j <= mat@[0].n, mat@[0].n == dnd(*dgm)(0), bin0(bars@, piv_to_ind@, j as int)
  decreases mat@[0].n - j
@at loop 1 begin
  let ghost ob = bars@;
  let ghost op = piv_to_ind@;
@at loop 1 end
  proof { bin0_step(ob, op, j, bars@, piv_to_ind@); }
@at after if 0
  let ghost mut h = seq![piv_to_ind@];
  proof { bst_start(*dgm, mat@, bars@, piv_to_ind@); }
@loop 2
  invariant 0 <= k <= m, m == dgm.edata@.len(), m <= i64::MAX, bst(*dgm, mat@, bars@, h, k as int), h.len() == k + 1, h[k as int] == piv_to_ind@
  decreases m - k
@at loop 2 begin
  let ghost B0 = bars@;
  let ghost p1 = piv_to_ind@;
  proof { assert(barmat(*dgm, k as int, mat@[k as int])); bst_last(*dgm, mat@, bars@, h, k as int); assert(bst(*dgm, mat@, B0, h, k as int)); }
@at loop 3 before
  proof { bin_start(*dgm, mat@, k as int, B0, p1, piv_to_ind2@); }
@loop 3
  invariant 0 <= j <= mat@[k as int].n, mat@[k as int].n == dnd(*dgm)(k + 1), piv_to_ind@ =~= p1, bin(*dgm, mat@, k as int, B0, p1, bars@, piv_to_ind2@, j as int)
  decreases mat@[k as int].n - j
@at loop 3 begin
  let ghost b1 = bars@;
  let ghost o2 = piv_to_ind2@;
  let ghost c = mat@[k as int].col@[j as int].indval@;
  proof { reveal(bin); assert(b1.len() >= B0.len()); col_lnk(*dgm, mat@, k as int, j as int, c); if c.len() > 0 { assert(p1[c[0].ind] < B0.len()); } }
@at loop 3 end
  proof { assert(b1.len() == b1.len()); if c.len() == 0 { bin_new(*dgm, mat@, k as int, B0, p1, b1, o2, j, bars@, piv_to_ind2@); } else { assert(bars@ =~= b1.update(p1[c[0].ind] as int, QBar { end: (k + 1) as usize, end_ind: j, ..b1[p1[c[0].ind] as int] })); assert(piv_to_ind@ =~= p1); bin_ext(*dgm, mat@, k as int, B0, p1, b1, o2, j, c[0].ind, bars@, piv_to_ind2@); } }
@at loop 4 before
  proof { bin_start(*dgm, mat@, k as int, B0, p1, piv_to_ind2@); }
@loop 4
  invariant 0 <= j <= matT.n, matT.n == dnd(*dgm)(k + 1), piv_to_ind@ =~= p1, bin(*dgm, mat@, k as int, B0, p1, bars@, piv_to_ind2@, j as int)
  decreases matT.n - j
@at loop 4 begin
  let ghost b1 = bars@;
  let ghost o2 = piv_to_ind2@;
  let ghost c = matT.col@[j as int].indval@;
  proof {
    reveal(bin); assert(b1.len() >= B0.len());
    assert forall|i: int| 0 <= i < dnd(*dgm)(k as int) implies (#[trigger] lnk(*dgm, mat@, k as int, i, j as int) <==> sval(c, i) != F::szero()) by { assert(cmv(matT, i, j as int) == cmv(mat@[k as int], j as int, i)); }
    col_lnk(*dgm, mat@, k as int, j as int, c); if c.len() > 0 { assert(p1[c[0].ind] < B0.len()); }
  }
@at loop 4 end
  proof { if c.len() == 0 { bin_new(*dgm, mat@, k as int, B0, p1, b1, o2, j, bars@, piv_to_ind2@); } else { assert(bars@ =~= b1.update(p1[c[0].ind] as int, QBar { end: (k + 1) as usize, end_ind: j, ..b1[p1[c[0].ind] as int] })); assert(piv_to_ind@ =~= p1); bin_ext(*dgm, mat@, k as int, B0, p1, b1, o2, j, c[0].ind, bars@, piv_to_ind2@); } }
@at loop 2 end
  proof { bst_step(*dgm, mat@, k as int, B0, h, bars@, piv_to_ind@); h = h.push(piv_to_ind@); }
@at before return 0
  proof { assert(bst(*dgm, mat@, bars@, h, m as int)); }
@fn bats::bars_to_pairs(Vec<QBar>, usize) as bars_to_pairs
@prop P19
@ensures
  qpairs_of(ret@, bars@, hdim)
@loop 0
  invariant 0 <= i <= n, n == bars@.len(), pairs@.len() == n, forall|k: int| 0 <= k < i ==> #[trigger] pairs@[k] == (PPairU { dim: hdim, birth_ind: bars@[k].start_ind, death_ind: bars@[k].end_ind, birth: bars@[k].start, death: bars@[k].end })
  decreases n - i
@fn bats::barcode(Dgm<F>, usize, LeftFlag) as barcode_left
@prop P19
@requires
  dgok(*dgm)
@ensures
  barcode_of(*dgm, ret@, hdim)
@fn bats::barcode(Dgm<F>, usize, RightFlag) as barcode_right
@prop P19
@requires
  dgok(*dgm)
@ensures
  barcode_of(*dgm, ret@, hdim)
