// P14: permutation and sorted-list helpers against their definitions
#include "la.hpp"
#include <numeric>
#include <util/permutation.hpp>
#include <util/sorted.hpp>
#include <util/set.hpp>
#include <util/simplex.hpp>
using Is = std::vector<size_t>; using Vi = std::vector<int>; namespace bu = bats::util;
static Is iota(size_t n) { Is p(n); for (size_t i = 0; i < n; i++) p[i] = i; return p; }
static Is rperm(Rng& g, size_t n) { Is p = iota(n); int st = int(g.below(5)); if (st == 0) return p; if (st == 1) { std::reverse(p.begin(), p.end()); return p; } if (st == 2 && n > 1) { std::rotate(p.begin(), p.begin() + g.below(n), p.end()); return p; } for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); return p; }
static bool isperm(const Is& p, size_t n) { if (p.size() != n) return false; std::vector<bool> s(n, false); for (auto x : p) { if (x >= n || s[x]) return false; s[x] = true; } return true; }
static size_t dm(Rng& g) { return g.chance(1, 20) ? 50 + g.below(300) : g.below(12); }
static Vi rvec(Rng& g, size_t n) { int m = g.chance(1, 2) ? 1000 : 1 + int(g.below(4)); Vi v(n); for (auto& x : v) x = g.range(-m, m); return v; }
static Is rsub(Rng& g, size_t n) { Is v; int a = 1 + int(g.below(4)); for (size_t i = 0; i < n; i++) if (g.chance(a, 5)) v.push_back(i); return v; }
template <class T> static std::vector<T> at(const std::vector<T>& v, const Is& p) { std::vector<T> r; for (auto i : p) r.push_back(v[i]); return r; }
static size_t inv(const Is& p) { size_t c = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) c += p[i] > p[j]; return c; }
TEST(apply, 3000, "apply_perm apply_perm_swap apply_iperm_swap inv_perm identity_perm extension_perm perm_to_the_end partial_perm") { Rng& g = c.g; size_t n = dm(g); Is p = rperm(g, n); Vi v = rvec(g, n), w; c.in("p=" + show(p) + " v=" + show(v)); if (n > 2) c.nontrivial(); Vi e = at(v, p), f(n); for (size_t i = 0; i < n; i++) f[p[i]] = v[i]; Is q = bu::inv_perm(p); CHECK(isperm(q, n), "inv_perm " << show(q)); for (size_t i = 0; i < n; i++) CHECK(q[p[i]] == i && p[q[i]] == i, "inv_perm " << show(q)); CHECK(bu::inv_perm(q) == p, "inverse of the inverse");
  w = v; bu::apply_perm(w, p); CHECK(w == e, "apply_perm " << show(w)); w = v; Vi tmp = rvec(g, g.below(5)); bu::apply_perm(w.data(), tmp, p); CHECK(w == e, "apply_perm with scratch " << show(w)); w = v; bu::apply_perm(w.begin(), tmp, p); CHECK(w == e, "apply_perm on iterators"); w = v; bu::apply_perm(w.data(), p); CHECK(w == e, "apply_perm on a pointer"); w = v; bu::apply_perm_swap(w, p); CHECK(w == f, "apply_perm_swap " << show(w) << " expected " << show(f)); w = v; bu::apply_iperm_swap(w, p); CHECK(w == e, "apply_iperm_swap " << show(w)); w = v; bu::apply_perm(w, p); bu::apply_perm(w, q); CHECK(w == v, "applying a permutation and its inverse"); w = v; bu::apply_perm_swap(w, p); bu::apply_iperm_swap(w, p); CHECK(w == v, "swap variants undo each other"); std::vector<std::string> sv; for (auto x : v) sv.push_back(std::to_string(x) + std::string(20, 'x')); auto sw = sv; bu::apply_perm_swap(sw, p); for (size_t i = 0; i < n; i++) CHECK(sw[p[i]] == sv[i], "apply_perm_swap of strings");
  { size_t a = g.below(4), b = g.below(4); Vi x = rvec(g, a), y = rvec(g, b), z = x; z.insert(z.end(), v.begin(), v.end()); z.insert(z.end(), y.begin(), y.end()); bu::apply_perm(z.begin() + a, tmp, p); Vi ez = x; ez.insert(ez.end(), e.begin(), e.end()); ez.insert(ez.end(), y.begin(), y.end()); CHECK(z == ez, "apply_perm on a sub-range changed other entries"); }
  CHECK(bats::identity_perm(n) == iota(n), "identity_perm"); size_t m = n + g.below(4); Is x = bats::extension_perm(p, m), ex = p; for (size_t i = n; i < m; i++) ex.push_back(i); CHECK(x == ex, "extension_perm " << show(x)); if (n) { size_t i = g.below(n); Is t = bats::perm_to_the_end(i, n), et; for (size_t k = 0; k < n; k++) if (k != i) et.push_back(k); et.push_back(i); CHECK(t == et, "perm_to_the_end " << show(t)); }
  Is s = rsub(g, n), t = bats::perm_to_the_end(s, n), et; for (size_t k = 0; k < n; k++) if (!std::binary_search(s.begin(), s.end(), k)) et.push_back(k); et.insert(et.end(), s.begin(), s.end()); CHECK(t == et, "perm_to_the_end of " << show(s) << ": " << show(t)); Is r = at(p, s), pp = bu::partial_perm(r, n); CHECK(pp.size() == n, "partial_perm size"); for (size_t i = 0; i < n; i++) { auto it = std::find(r.begin(), r.end(), i); CHECK(pp[i] == (it == r.end() ? bats::NO_IND : size_t(it - r.begin())), "partial_perm of " << show(r) << ": " << show(pp)); } }
TEST(sorting, 3000, "sortperm fill_sortperm stable_sortperm firstk top_k top_p sort_indexes find_perm_from_vector") { Rng& g = c.g; size_t n = dm(g); Vi v = rvec(g, n); c.in("v=" + show(v)); if (n > 2) c.nontrivial(); Vi s = v; std::sort(s.begin(), s.end()); auto ok = [&](const Is& p, const char* w) { CHECK(isperm(p, n) && at(v, p) == s, w << " " << show(p)); }; Is p{9, 9, 9}; bu::fill_sortperm(v, p); ok(p, "fill_sortperm"); bu::fill_sortperm(v.begin(), v.end(), p); ok(p, "fill_sortperm on iterators"); ok(bu::sortperm(v), "sortperm"); ok(bu::sortperm(v.begin(), v.end()), "sortperm on iterators"); ok(bu::sortperm(v.begin(), v.end(), std::less<int>()), "sortperm with comparison"); Is r = bu::sortperm(v.begin(), v.end(), std::greater<int>()); Vi rs(s.rbegin(), s.rend()); CHECK(isperm(r, n) && at(v, r) == rs, "sortperm, descending " << show(r));
  ok(bu::sortperm(size_t(0), n, [&](size_t a, size_t b) { return v[a] < v[b]; }), "sortperm on indices"); if (n) { size_t a = g.below(n), b = a + g.below(n - a + 1); Is q = bu::sortperm(a, b, [&](size_t x, size_t y) { return v[x] < v[y]; }); CHECK(isperm(q, b - a), "sortperm on an index range"); for (size_t i = 1; i < q.size(); i++) CHECK(v[a + q[i - 1]] <= v[a + q[i]], "sortperm on an index range " << show(q)); q = bu::sortperm(v.begin() + a, v.begin() + b); CHECK(isperm(q, b - a), "sortperm on a sub-range"); for (size_t i = 1; i < q.size(); i++) CHECK(v[a + q[i - 1]] <= v[a + q[i]], "sortperm on a sub-range " << show(q)); bu::fill_sortperm(v.begin() + a, v.begin() + b, q); for (size_t i = 1; i < q.size(); i++) CHECK(v[a + q[i - 1]] <= v[a + q[i]], "fill_sortperm on a sub-range"); }
  auto stable = [&](const Is& q, const char* w) { ok(q, w); for (size_t i = 1; i < n; i++) CHECK(v[q[i - 1]] < v[q[i]] || q[i - 1] < q[i], w << " not stable " << show(q)); }; stable(bu::stable_sortperm(v), "stable_sortperm"); stable(bats::sort_indexes(v), "sort_indexes"); Is f = bats::find_perm_from_vector(v); CHECK(isperm(f, n), "find_perm_from_vector"); Is fi(n); for (size_t i = 0; i < n; i++) fi[f[i]] = i; stable(fi, "find_perm_from_vector");
  size_t k = g.below(n + 1); Is fk = bu::firstk(v.begin(), v.end(), k); CHECK(fk.size() == k && at(v, fk) == Vi(s.begin(), s.begin() + k), "firstk " << show(fk)); std::set<size_t> d(fk.begin(), fk.end()); CHECK(d.size() == k, "firstk repeats"); Is tk = bu::top_k(v, k); Vi tv = at(v, tk); std::sort(tv.begin(), tv.end()); d = {tk.begin(), tk.end()}; CHECK(tk.size() == k && d.size() == k && tv == Vi(s.begin(), s.begin() + k), "top_k " << show(tk)); double pr = double(g.below(11)) / 10; Is tp = bu::top_p(v, pr); size_t kk = size_t(std::round(double(n) * pr)); tv = at(v, tp); std::sort(tv.begin(), tv.end()); CHECK(tp.size() == kk && tv == Vi(s.begin(), s.begin() + kk), "top_p " << show(tp)); Vi y{3}; bu::sort_into(v, y); CHECK(y == s, "sort_into"); }
TEST(byperm, 2000, "sort_ind_by_perm fill_partial_sortperm sort_ind_pair_by_perm sort_sum_reduce") { Rng& g = c.g; size_t n = dm(g); Is p = rperm(g, n), s = rsub(g, n), o = rperm(g, s.size()), ind = at(s, o); c.in("p=" + show(p) + " ind=" + show(ind)); if (ind.size() > 1) c.nontrivial(); Is e = ind; std::sort(e.begin(), e.end(), [&](size_t a, size_t b) { return p[a] < p[b]; }); Is x = ind; bu::sort_ind_by_perm(x, p); CHECK(x == e, "sort_ind_by_perm " << show(x)); Is ip; bu::fill_partial_sortperm(ind, p, ip); CHECK(isperm(ip, ind.size()) && at(ind, ip) == e, "fill_partial_sortperm " << show(ip)); x = ind; Is y; for (size_t i = 0; i < ind.size(); i++) y.push_back(100 + ind[i]); bu::sort_ind_pair_by_perm(x, y, p); CHECK(x == e, "sort_ind_pair_by_perm"); for (size_t i = 0; i < x.size(); i++) CHECK(y[i] == 100 + x[i], "sort_ind_pair_by_perm separated a pair");
  { size_t m = g.below(10), off = g.below(m + 1); Is I; Vi V; for (size_t i = 0; i < m; i++) { I.push_back(i < off ? g.below(50) : g.below(1 + g.below(6))); V.push_back(g.range(-2, 2)); } Is I0 = I, pm, ti; Vi V0 = V, tv; std::map<size_t, int> sum; for (size_t i = off; i < m; i++) sum[I[i]] += V[i]; c.in("sort_sum_reduce ind=" + show(I) + " val=" + show(V) + " offset=" + std::to_string(off)); bu::sort_sum_reduce(I, V, off, pm, ti, tv); Is eI(I0.begin(), I0.begin() + off); Vi eV(V0.begin(), V0.begin() + off); for (auto& q : sum) if (q.second) { eI.push_back(q.first); eV.push_back(q.second); } CHECK(I == eI && V == eV, "sort_sum_reduce gives " << show(I) << " " << show(V) << " expected " << show(eI) << " " << show(eV)); } }
TEST(signs, 2000, "perm_inversions perm_sign Kendall_tau simplex_sign is_degenerate rand_perm") { Rng& g = c.g; size_t n = g.chance(1, 10) ? 40 + g.below(80) : g.below(9); Is p = rperm(g, n), q = rperm(g, n); c.in("p=" + show(p) + " q=" + show(q)); if (n > 1) c.nontrivial(); CHECK(bu::perm_inversions(p) == inv(p), "perm_inversions"); CHECK(bu::perm_sign(p) == (inv(p) % 2 ? -1 : 1), "perm_sign"); { int s = 1; std::vector<bool> seen(n, false); for (size_t i = 0; i < n; i++) if (!seen[i]) { size_t l = 0; for (size_t j = i; !seen[j]; j = p[j]) { seen[j] = true; l++; } if (l % 2 == 0) s = -s; } CHECK(bu::perm_sign(p) == s, "perm_sign vs cycle type"); } Is p0 = p, q0 = q; CHECK(bats::Kendall_tau(p) == inv(p), "Kendall_tau " << bats::Kendall_tau(p)); size_t e = 0; Is ip = bu::inv_perm(p), iq = bu::inv_perm(q); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) e += (ip[i] < ip[j]) != (iq[i] < iq[j]); CHECK(bats::Kendall_tau(p, q) == e, "Kendall_tau of two permutations " << bats::Kendall_tau(p, q) << " expected " << e); CHECK(bats::Kendall_tau(p, p) == 0, "distance to itself"); CHECK(bats::Kendall_tau(q, p) == e, "symmetric"); CHECK(p == p0 && q == q0, "arguments changed"); auto l = bats::Kendall_tau(std::vector<Is>{p, q, iota(n)}); CHECK(l == (Is{inv(p), inv(q), 0}), "Kendall_tau of a list"); std::vector<int> ps(p.begin(), p.end()); CHECK(bats::Kendall_tau(ps) == inv(p), "Kendall_tau of ints");
  Is s; size_t m = g.below(6); for (size_t i = 0; i < m; i++) s.push_back(g.below(8)); int es = 1; for (size_t i = 0; i < m; i++) for (size_t j = i + 1; j < m; j++) if (s[i] > s[j]) es = -es; Is t = s; std::sort(t.begin(), t.end()); for (size_t i = 1; i < m; i++) if (t[i] == t[i - 1]) es = 0; Is u = s; CHECK(bu::simplex_sign(u) == es && u == t, "simplex_sign of " << show(s)); CHECK(bu::is_degenerate(t) == (es == 0), "is_degenerate"); Is rp = bu::rand_perm(n); CHECK(isperm(rp, n), "rand_perm"); }
TEST(sets, 4000, "intersect_sorted has_intersect_sorted intersect_sorted_lt has_intersect_sorted_lt find_sorted_lt sorted_complement set_union set_intersection") { Rng& g = c.g; size_t n = dm(g); Is a = rsub(g, n), b = rsub(g, n); if (g.chance(1, 4)) { for (auto& x : b) x += g.below(2) ? 0 : 0; size_t sh = g.below(5); for (auto& x : b) x += sh; } size_t mv = g.below(n + 6); c.in("a=" + show(a) + " b=" + show(b) + " max=" + std::to_string(mv)); Is e, el; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(e)); for (auto x : e) if (x < mv) el.push_back(x); if (e.size()) c.nontrivial(); Is r{4, 4}; bu::intersect_sorted(a, b, r); CHECK(r == e, "intersect_sorted " << show(r)); std::set<size_t> rs{77}; bu::intersect_sorted(a, b, rs); CHECK(Is(rs.begin(), rs.end()) == e, "intersect_sorted into a set"); CHECK(bu::has_intersect_sorted(a, b) == !e.empty(), "has_intersect_sorted"); r = {9}; bu::intersect_sorted_lt(a, b, mv, r); CHECK(r == el, "intersect_sorted_lt " << show(r) << " expected " << show(el)); CHECK(bu::has_intersect_sorted_lt(a, b, mv) == !el.empty(), "has_intersect_sorted_lt"); std::set<size_t> sa(a.begin(), a.end()), sb(b.begin(), b.end()); bu::intersect_sorted(sa, sb, r); CHECK(r == e, "intersect_sorted of sets"); std::set<size_t> u = sa; u.insert(b.begin(), b.end()); CHECK(bu::set_union(a, b) == u && bu::set_union(sa, sb) == u, "set_union"); auto si = bu::set_intersection(sa, sb); CHECK(Is(si.begin(), si.end()) == e, "set_intersection"); CHECK(bu::to_set(a) == sa, "to_set");
  size_t f = bu::find_sorted_lt(a.begin(), a.end(), mv), ef = bats::NO_IND; for (size_t i = 0; i < a.size(); i++) if (a[i] < mv) ef = i; CHECK(f == ef, "find_sorted_lt " << f << " expected " << ef); size_t N = n + g.below(4); Is ec; for (size_t i = 0; i < N; i++) if (!sa.count(i)) ec.push_back(i); CHECK(bu::sorted_complement(a, N) == ec, "sorted_complement " << show(bu::sorted_complement(a, N))); if (n) { size_t k = g.below(n + 1); auto rs2 = bu::random_subset(n, k); CHECK(rs2.size() == k && (k == 0 || *rs2.rbegin() < n), "random_subset"); } }
