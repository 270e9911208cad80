// P17: flag and Rips complexes contain exactly the cliques
#include "h.hpp"
#include <bats.hpp>
#include <filtration/rips.hpp>
using h::Ctx; using h::Rng; using h::show; using Sx = std::vector<size_t>; using LC = bats::LightSimplicialComplex<size_t>; using SCx = bats::SimplicialComplex;
struct G { size_t n; std::vector<std::vector<double>> w; std::vector<std::pair<size_t, size_t>> e;   // w: edge weight, NaN: no edge
  static G random(Rng& g, int range) { G r; r.n = g.chance(1, 12) ? 0 : 1 + g.below(8); r.w.assign(r.n, std::vector<double>(r.n, -1)); int d = int(g.below(6)); for (size_t i = 0; i < r.n; i++) for (size_t j = 0; j < i; j++) if (g.chance(d, 5)) { r.w[i][j] = r.w[j][i] = g.range(0, range) / 2.0; r.e.push_back({j, i}); } int st = int(g.below(3)); if (st) for (size_t i = r.e.size(); i > 1; i--) std::swap(r.e[i - 1], r.e[g.below(i)]); if (st == 2) for (auto& p : r.e) if (g.chance(1, 2)) std::swap(p.first, p.second); return r; }
  std::string str() const { std::string s = "n=" + std::to_string(n); for (auto& p : e) s += " " + std::to_string(p.first) + "-" + std::to_string(p.second) + ":" + std::to_string(w[p.first][p.second]).substr(0, 4); return s; }
  // every clique with at most md+1 vertices, with its largest edge value (t0 for vertices)
  std::map<Sx, double> cliques(size_t md, double t0) const { std::map<Sx, double> r; for (size_t m = 1; m < (size_t(1) << n); m++) { Sx s; for (size_t i = 0; i < n; i++) if (m >> i & 1) s.push_back(i); if (s.size() > md + 1) continue; double v = t0; bool ok = true; for (auto a : s) for (auto b : s) if (a < b) { if (w[a][b] < 0) ok = false; else v = std::max(v, w[a][b]); } if (ok) r[s] = v; } return r; } };
template <class X> void cmp(const X& x, const std::map<Sx, double>& e, const std::string& w) { std::set<Sx> got; for (size_t k = 0; k <= x.maxdim(); k++) for (size_t i = 0; i < x.ncells(k); i++) { auto s0 = x.get_simplex(k, i); Sx s(s0.begin(), s0.end()); CHECK(s.size() == k + 1 && std::is_sorted(s.begin(), s.end()), w << ": cell " << show(s) << " in dimension " << k); CHECK(e.count(s), w << ": contains " << show(s) << ", which is not a clique"); CHECK(got.insert(s).second, w << ": contains " << show(s) << " twice"); } for (auto& p : e) CHECK(got.count(p.first), w << ": clique " << show(p.first) << " is missing"); }
template <class F> void cmpf(const F& f, const std::map<Sx, double>& e, const std::string& w) { cmp(f.complex(), e, w); for (size_t k = 0; k <= f.complex().maxdim(); k++) { if (!f.complex().ncells(k)) continue; CHECK(f.vals().size() > k && f.vals(k).size() == f.complex().ncells(k), w << ": values in dimension " << k); for (size_t i = 0; i < f.complex().ncells(k); i++) { auto s0 = f.complex().get_simplex(k, i); Sx s(s0.begin(), s0.end()); CHECK(f.vals(k)[i] == e.at(s), w << ": value of " << show(s) << " is " << f.vals(k)[i] << " expected " << e.at(s)); } } }
template <class X> void chain(const X& x, const std::string& w) { bats::ChainComplex<ColumnMatrix<SparseVector<ModP<int, 3>>>> C(x); for (size_t k = 2; k <= C.maxdim(); k++) { auto p = C[k - 1] * C[k]; for (size_t j = 0; j < p.ncol(); j++) CHECK(p[j].nnz() == 0, w << ": boundary of boundary in dimension " << k); } }
template <class X> void flag_(Ctx& c) { Rng& g = c.g; G r = G::random(g, 6); size_t md = g.below(5); std::vector<size_t> e; for (auto& p : r.e) { e.push_back(p.first); e.push_back(p.second); } if (r.e.size() && g.chance(1, 6)) for (int t = 0; t < 2; t++) { auto p = r.e[g.below(r.e.size())]; size_t at = 2 * g.below(e.size() / 2 + 1); e.insert(e.begin() + at, {p.second, p.first}); } c.in(r.str() + " edges " + show(e) + " maxdim " + std::to_string(md)); if (r.e.size() > 2) c.nontrivial(); auto x = bats::FlagComplex<X>(e, r.n, md); cmp(x, r.cliques(md, 0), "flag complex"); chain(x, "flag complex"); }
TEST(flag, 5000, "FlagComplex add_dimension_recursive_flag") { if (c.k % 2) flag_<SCx>(c); else flag_<LC>(c); }
template <class X> void filt_(Ctx& c) { Rng& g = c.g; G r = G::random(g, int(g.below(4)) * 3); size_t md = g.below(5); double t0 = -double(g.below(2)); std::vector<bats::filtered_edge<double>> e; for (auto& p : r.e) e.emplace_back(p.first, p.second, r.w[p.first][p.second]); c.in(r.str() + " maxdim " + std::to_string(md) + " t0 " + std::to_string(t0)); if (r.e.size() > 2) c.nontrivial(); auto q = r.cliques(md, t0); auto e2 = e; auto f = bats::FlagFiltration<X>(e, r.n, md, t0); cmpf(f, q, "flag filtration"); chain(f.complex(), "flag filtration");
  auto [f2, inds] = bats::FlagFiltration_extension<X>(e2, r.n, md, t0); cmpf(f2, q, "flag filtration with indices"); CHECK(inds.size() == md + 1, "one index list per dimension"); for (size_t k = 0; k <= md; k++) { size_t nk = k <= f2.complex().maxdim() ? f2.complex().ncells(k) : 0; CHECK(inds[k].size() == nk, "indices in dimension " << k << ": " << inds[k].size() << " for " << nk << " cells"); for (size_t i = 0; i < nk; i++) { auto s0 = f2.complex().get_simplex(k, i); Sx s(s0.begin(), s0.end()); if (k == 0) CHECK(inds[0][i] == s[0], "vertex index"); else { CHECK(inds[k][i] < e2.size(), "edge index of " << show(s)); auto& d = e2[inds[k][i]]; CHECK(d.r == f2.vals(k)[i] && std::count(s.begin(), s.end(), d.s) && std::count(s.begin(), s.end(), d.t), "edge index of " << show(s) << " names an edge not in it"); } } } }
TEST(filtered, 5000, "FlagFiltration FlagFiltration_extension") { if (c.k % 2) filt_<SCx>(c); else filt_<LC>(c); }
TEST(complete, 1500, "CompleteFlagFiltration sort_edges all_pairs pairwise_dist rips_edges") { Rng& g = c.g; size_t n = 2 + g.below(6), md = g.below(5), d = 1 + g.below(2); std::vector<double> x(n * d); int R = 1 + int(g.below(8)); for (auto& v : x) v = g.range(0, R); std::vector<size_t> e; std::vector<double> t; if (d == 1 && g.chance(1, 2)) { bats::rips_edges(x, e, t); } else { e = bats::all_pairs(n); t = bats::pairwise_dist(x, e, d); } c.in("points " + show(x) + " in dimension " + std::to_string(d) + " maxdim " + std::to_string(md)); c.nontrivial(); CHECK(e.size() == n * (n - 1) && t.size() == n * (n - 1) / 2, "all edges"); bats::sort_edges(e, t); CHECK(std::is_sorted(t.begin(), t.end()), "sort_edges"); G r; r.n = n; r.w.assign(n, std::vector<double>(n, -1)); std::set<Sx> seen; for (size_t k = 0; k < t.size(); k++) { size_t a = e[2 * k], b = e[2 * k + 1]; CHECK(a < n && b < n && a != b && seen.insert({std::min(a, b), std::max(a, b)}).second, "each pair once"); double s = 0; for (size_t i = 0; i < d; i++) s += (x[d * a + i] - x[d * b + i]) * (x[d * a + i] - x[d * b + i]); CHECK(std::abs(t[k] - std::sqrt(s)) < 1e-12, "length of edge " << a << "," << b << " is " << t[k]); r.w[a][b] = r.w[b][a] = t[k]; }
  auto [X, F] = bats::CompleteFlagFiltration(e, t, n, md, 0.0); auto q = r.cliques(md, 0); cmpf(F, q, "complete flag filtration"); cmp(X, q, "complex of the complete flag filtration"); }
template <class X> void rips_(Ctx& c) { Rng& g = c.g; size_t n = 1 + g.below(7), d = 1 + g.below(3), md = g.below(4); bats::Matrix<double> m(n, d); int R = 1 + int(g.below(8)); std::string lg; for (size_t i = 0; i < n; i++) { lg += "("; for (size_t j = 0; j < d; j++) { m(i, j) = g.range(0, R) / 2.0; lg += std::to_string(m(i, j)).substr(0, 3) + " "; } lg += ")"; } double rm = g.range(0, R * 2) / 2.0; int met = int(g.below(3)); c.in("points " + lg + " rmax " + std::to_string(rm) + " maxdim " + std::to_string(md) + " metric " + std::to_string(met)); if (n > 2) c.nontrivial(); bats::DataSet<double> D(m);
  auto go = [&](auto M, auto dist) { bats::Matrix<double> P(n, n); G r; r.n = n; r.w.assign(n, std::vector<double>(n, -1)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { double s = 0; for (size_t k = 0; k < d; k++) s = dist(s, std::abs(m(i, k) - m(j, k))); if (met == 0) s = std::sqrt(s); P(i, j) = s; if (i != j && s <= rm) r.w[i][j] = s; } auto q = r.cliques(md, 0); cmp(bats::RipsComplex<X>(D, M, rm, md), q, "Rips complex"); cmp(bats::RipsComplex<X>(P, rm, md), q, "Rips complex of distances"); cmpf(bats::RipsFiltration<X>(D, M, rm, md), q, "Rips filtration"); cmpf(bats::RipsFiltration<X>(P, rm, md), q, "Rips filtration of distances"); auto [f, i1] = bats::RipsFiltration_extension<X>(D, M, rm, md); cmpf(f, q, "Rips extension"); auto [f2, i2] = bats::RipsFiltration_extension<X>(P, rm, md); cmpf(f2, q, "Rips extension of distances");
    auto Q = M(D); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CHECK(Q(i, j) == P(i, j), "pairwise distance " << i << "," << j); };
  if (met == 0) go(bats::Euclidean(), [](double s, double x) { return s + x * x; }); else if (met == 1) go(bats::LInfDist(), [](double s, double x) { return std::max(s, x); }); else go(bats::L1Dist(), [](double s, double x) { return s + x; }); }
TEST(rips, 2500, "RipsComplex RipsFiltration RipsFiltration_extension rips_edges rips_filtration_edges") { if (c.k % 2) rips_<SCx>(c); else rips_<LC>(c); }
