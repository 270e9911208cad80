// f is the face of s opposite the vertex x
pub open spec fn isface(f: Seq<usize>, s: Seq<usize>, x: usize) -> bool { incr(f) && forall|y: usize| #[trigger] cmem(f, y) <==> (cmem(s, y) && y != x) }
// every face of s is present
pub open spec fn faces_in(c: Set<Seq<usize>>, s: Seq<usize>) -> bool { forall|f: Seq<usize>, x: usize| #[trigger] isface(f, s, x) && cmem(s, x) && s.len() >= 2 ==> c.contains(f) }
pub open spec fn faces_before(m: Map<Seq<usize>, i32>, s: Seq<usize>, t: i32) -> bool { forall|f: Seq<usize>, x: usize| #[trigger] isface(f, s, x) && cmem(s, x) && s.len() >= 2 ==> m[f] <= t }
// ---- SparseTrie (ASSUMED contracts; its body is exercised by the P16 replay): a map whose keys are closed under prefixes ----
#[verifier::external_body]
pub struct Trie { v: usize }
impl Trie { pub uninterp spec fn view(&self) -> Map<Seq<usize>, usize>; }
#[verifier::external_body]
pub fn trie_new() -> (r: Trie) ensures r@ == Map::<Seq<usize>, usize>::empty().insert(Seq::<usize>::empty(), 0usize) { unimplemented!() }
#[verifier::external_body]
pub fn trie_emplace(m: &mut Trie, k: &Vec<usize>, x: usize)
    requires k@.len() > 0, old(m)@.dom().contains(k@.drop_last())
    ensures final(m)@ == old(m)@.insert(k@, x)
{ unimplemented!() }
#[verifier::external_body]
pub fn trie_at(m: &Trie, k: &Vec<usize>) -> (r: usize) requires m@.dom().contains(k@) ensures r == m@[k@] { unimplemented!() }
#[verifier::external_body]
pub fn trie_get(m: &Trie, k: &Vec<usize>, x: usize) -> (r: usize) ensures r == if m@.dom().contains(k@) { m@[k@] } else { x } { unimplemented!() }
#[verifier::external_body]
pub fn trie_count(m: &Trie, k: &Vec<usize>) -> (r: usize) ensures r == if m@.dom().contains(k@) { 1int } else { 0 } { unimplemented!() }
#[verifier::external_body]
pub fn cpp_capacity<T>(v: &Vec<T>) -> (r: usize) { unimplemented!() }
pub open spec fn nondecr_fe(s: Seq<FEdge>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).r <= (#[trigger] s[j]).r }
#[verifier::external_body]
pub fn cpp_sort_fedge(v: &mut Vec<FEdge>)
    ensures exists|w: Seq<int>| rearranged(old(v)@, w, final(v)@), nondecr_fe(final(v)@)
{ unimplemented!() }
// ---- point sets, metrics and distance matrices: ASSUMED symmetric and non-negative; the value of a distance is left abstract ----
#[verifier::external_body]
pub struct DSet { v: usize }
#[verifier::external_body]
pub struct DMat { v: usize }
#[verifier::external_body]
pub struct Metric { v: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PtView { v: usize }
impl DSet { pub uninterp spec fn n(&self) -> int; }
impl DMat { pub uninterp spec fn n(&self) -> int; pub uninterp spec fn low(&self, a: int, b: int) -> i32; }
impl Metric { pub uninterp spec fn low(&self, x: DSet, a: int, b: int) -> i32; }
impl PtView { pub uninterp spec fn set(&self) -> DSet; pub uninterp spec fn row(&self) -> int; }
// the distance between the points a and b
pub open spec fn ds_dist(m: Metric, x: DSet, a: int, b: int) -> i32 { if a < b { m.low(x, a, b) } else { m.low(x, b, a) } }
pub open spec fn dm_dist(x: DMat, a: int, b: int) -> i32 { if a < b { x.low(a, b) } else { x.low(b, a) } }
#[verifier::external_body]
pub fn dset_size(x: &DSet) -> (r: usize) ensures r == x.n() { unimplemented!() }
#[verifier::external_body]
pub fn dset_row(x: &DSet, i: usize) -> (r: PtView) requires i < x.n() ensures r.set() == *x, r.row() == i { unimplemented!() }
#[verifier::external_body]
pub fn metric_dist(m: &Metric, a: PtView, b: PtView) -> (r: i32) requires a.set() == b.set() ensures r == ds_dist(*m, a.set(), a.row(), b.row()), r >= 0 { unimplemented!() }
#[verifier::external_body]
pub fn dmat_size(x: &DMat) -> (r: usize) ensures r == x.n() { unimplemented!() }
#[verifier::external_body]
pub fn dmat_at(x: &DMat, i: i32, j: i32) -> (r: i32) requires 0 <= i < x.n(), 0 <= j < x.n() ensures r == dm_dist(*x, i as int, j as int), r >= 0 { unimplemented!() }
