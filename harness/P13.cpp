// P13: union-find components and degree-zero persistence
#include "filt.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using FT = Filt<F>;
  static void pairs(Ctx& c) { std::string lg; FT::complexes(c.g, c, lg, [&](const auto& X, const DC<F>& D) { using XT = std::decay_t<decltype(X)>; Vals v = FT::values(c.g, D); c.in(lg + FT::vstr(v)); if (D.dim(0) > 2 && D.dim(1) > 1) c.nontrivial(); bats::Filtration<double, XT> Fl(X, v); bats::FilteredChainComplex<double, C> fc(Fl); FT::sortperm(fc.perm, v, false, "order");
      auto e = FT::pairs(D, v, fc.perm, 0); auto u = bats::union_find_pairs(fc); CHECK(pps(u) == e, "union_find_pairs gives " << show(pps(u)) << " expected " << show(e)); auto r = bats::ReducedFilteredChainComplex<double, C>(fc, bats::standard_reduction_flag()).persistence_pairs(0); CHECK(pps(r) == pps(u), "reduction gives " << show(pps(r)) << ", union-find " << show(pps(u))); }, false); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(pairs, 4000, "union_find_pairs")
// float-valued filtrations whose values differ only beyond float precision, and float filtrations
TEST(close, 600, "union_find_pairs") { Rng& g = c.g; size_t n = 2 + g.below(6); using F = ModP<int, 2>; bats::SimplicialComplex X(n, 1); Vals v(2); for (size_t i = 0; i < n; i++) { Sx s{i}; X.add(s); v[0].push_back(1.0 + 1e-12 * g.range(0, 5)); } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if (g.chance(1, 2)) { Sx s{j, i}; X.add(s); v[1].push_back(1.0 + 1e-12 * g.range(5, 12)); } c.in("graph on " + std::to_string(n) + " vertices, values 1 + 1e-12 * small"); c.nontrivial(); bats::FilteredChainComplex<double, CM<F>> fc(bats::Filtration<double, bats::SimplicialComplex>(X, v)); DC<F> D = Filt<F>::dense(bats::ChainComplex<CM<F>>(X)); auto e = Filt<F>::pairs(D, v, fc.perm, 0), u = pps(bats::union_find_pairs(fc)); CHECK(u == e, "union_find_pairs with nearby values"); }
TEST(rips, 1500, "rips_union_find_pairs binom_to_inds k_choose_2 k_choose_2_inv") { Rng& g = c.g; size_t n = 1 + g.below(g.chance(1, 6) ? 40 : 9), m = n * (n - 1) / 2; std::vector<double> v(m); int R = int(g.below(3)); for (auto& x : v) x = R == 0 ? g.range(0, 3) : R == 1 ? g.range(1, 1000) / 8.0 : g.range(0, 20); std::vector<size_t> ix(m); for (size_t i = 0; i < m; i++) ix[i] = i; std::stable_sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return v[a] < v[b]; }); c.in("n=" + std::to_string(n) + " distances " + show(v)); if (n > 2) c.nontrivial();
  auto u = bats::rips_union_find_pairs(ix, v); CHECK(u.size() == n, u.size() << " pairs for " << n << " points"); std::vector<size_t> comp(n); for (size_t i = 0; i < n; i++) comp[i] = i; std::vector<std::pair<size_t, size_t>> ed; for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) ed.push_back({i, j}); std::multiset<double> e, got; size_t inf = 0; std::set<size_t> bi, di, deaths; for (size_t t = 0; t < m; t++) { auto [a, b] = ed[ix[t]]; size_t x = comp[a], y = comp[b]; if (x != y) { for (auto& z : comp) if (z == y) z = x; e.insert(v[ix[t]]); deaths.insert(t); } }
  for (auto& p : u) { CHECK(p.dim == 0 && p.birth == 0 && p.birth_ind < n && bi.insert(p.birth_ind).second, "birth of a pair"); if (p.death_ind == bats::NO_IND) { inf++; CHECK(p.death == std::numeric_limits<double>::infinity(), "death of the infinite bar"); } else { CHECK(p.death_ind < m && di.insert(p.death_ind).second && v[ix[p.death_ind]] == p.death, "death index " << p.death_ind << " against value " << p.death); got.insert(p.death); } }
  CHECK(inf == 1, inf << " infinite bars"); CHECK(got == e, "death values " << show(std::vector<double>(got.begin(), got.end())) << " expected " << show(std::vector<double>(e.begin(), e.end()))); CHECK(di == deaths, "edges that merge two components"); }
TEST(binom, 60, "binom_to_inds k_choose_2 k_choose_2_inv") { Rng& g = c.g; size_t N = c.k < 40 ? 2 + 3 * c.k : 2 + g.below(90000); size_t m = N * (N - 1) / 2; c.in("N=" + std::to_string(N)); c.nontrivial(); CHECK(bats::k_choose_2(N) == m, "k_choose_2"); auto at = [&](size_t i, size_t j) { size_t k = i * N - i * (i + 1) / 2 + (j - i - 1); auto [a, b] = bats::binom_to_inds(k, N); CHECK(a == i && b == j, "binom_to_inds(" << k << "," << N << ") = (" << a << "," << b << ") expected (" << i << "," << j << ")"); };
  if (N <= 130) { for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) at(i, j); } else for (int t = 0; t < 3000; t++) { size_t i = g.below(N - 1); at(i, i + 1); at(i, N - 1); at(i, i + 1 + g.below(N - 1 - i)); } for (size_t q = 2; q < 200; q++) for (size_t t = (q - 1) * (q - 2) / 2 + 1; t <= q * (q - 1) / 2; t++) CHECK(bats::k_choose_2_inv(t) == q, "k_choose_2_inv(" << t << ")"); }
TEST(find_parent, 1500, "find_parent") { Rng& g = c.g; size_t n = 1 + g.below(12); std::vector<size_t> p(n), ord(n); for (size_t i = 0; i < n; i++) ord[i] = i; for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[g.below(i)]); int deep = int(g.below(3)); for (size_t i = 0; i < n; i++) p[ord[i]] = (i == 0 || g.chance(1, 5)) ? ord[i] : ord[deep == 0 ? g.below(i) : i - 1]; auto root = [](const std::vector<size_t>& q, size_t i) { while (q[i] != i) i = q[i]; return i; };
  for (int t = 0; t < 6; t++) { size_t i = g.below(n); c.in("parents " + show(p) + " find " + std::to_string(i)); if (n > 3) c.nontrivial(); auto q = p; size_t r = bats::find_parent(q, i); CHECK(r == root(p, i), "find_parent returned " << r); CHECK(q.size() == n, "size"); for (size_t k = 0; k < n; k++) { size_t s = k; for (size_t st = 0; q[s] != s; st++) { CHECK(st <= n, "parents " << show(q) << " have a cycle"); s = q[s]; } CHECK(s == root(p, k), "find_parent changed the component of " << k); } CHECK(q[i] == r, "path compression"); p = q; }
  // union of random edges: same representative exactly when connected
  std::vector<size_t> f(n), comp(n); for (size_t i = 0; i < n; i++) f[i] = comp[i] = i; for (size_t t = g.below(2 * n); t-- > 0;) { size_t a = g.below(n), b = g.below(n); size_t x = bats::find_parent(f, a), y = bats::find_parent(f, b); CHECK((x == y) == (comp[a] == comp[b]), "representatives of " << a << " and " << b); if (x != y) f[x] = y; size_t z = comp[a], w = comp[b]; for (auto& q : comp) if (q == z) q = w; } for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) CHECK((bats::find_parent(f, a) == bats::find_parent(f, b)) == (comp[a] == comp[b]), "representatives"); }
