// random filtered complexes and the definitional persistence pairing
#pragma once
#include "scx.hpp"
struct AlgX {   // a complex given by integer boundary matrices, as a user-defined complex type
  std::vector<CSCMatrix<int, size_t>> b; std::vector<size_t> n; size_t maxdim() const { return n.size() - 1; } size_t ncells(size_t k) const { return n[k]; } CSCMatrix<int, size_t> boundary_csc(size_t k) const { return b[k]; } };
using Vals = std::vector<std::vector<double>>; using Perms = std::vector<std::vector<size_t>>;
struct PP { size_t dim, b, d; double birth, death; bool operator<(const PP& o) const { return std::tie(dim, b, d, birth, death) < std::tie(o.dim, o.b, o.d, o.birth, o.death); } bool operator==(const PP& o) const { return !(*this < o) && !(o < *this); } };
inline std::ostream& operator<<(std::ostream& o, const PP& p) { return o << p.dim << ":(" << p.birth << "," << p.death << ")<" << long(p.b) << "," << long(p.d) << ">"; }
template <class T> std::vector<PP> pps(const std::vector<bats::PersistencePair<T>>& v) { std::vector<PP> r; for (auto& p : v) r.push_back({p.dim, p.birth_ind, p.death_ind, double(p.birth), double(p.death)}); std::sort(r.begin(), r.end()); return r; }
template <class F> struct Filt { using M = Mat<F>; using o = O<F>;
  // monotone values on the cells of D
  static Vals values(Rng& g, const DC<F>& D) { int st = int(g.below(6)); Vals v; double t = 0; for (size_t k = 0; k < D.B.size(); k++) { v.emplace_back(); for (size_t j = 0; j < D.dim(k); j++) { double x = st == 0 ? g.range(0, 60) / 4.0 : st == 1 ? g.range(0, 3) : st == 2 ? 1.0 : st == 3 ? g.range(-30, 10) / 8.0 : st == 4 ? (t += g.range(0, 2)) : (k ? -100.0 : g.range(0, 9)); if (k) for (size_t i = 0; i < D.dim(k - 1); i++) if (D.B[k](i, j) != o::zero()) x = std::max(x, v[k - 1][i]); v[k].push_back(x); } } return v; }
  static void sortperm(const Perms& p, const Vals& v, bool rev, const std::string& w) { CHECK(p.size() == v.size(), w << ": one order per dimension"); for (size_t k = 0; k < p.size(); k++) { std::vector<bool> s(v[k].size(), false); CHECK(p[k].size() == v[k].size(), w << ": order in dimension " << k << " has " << p[k].size() << " entries"); for (size_t i = 0; i < p[k].size(); i++) { CHECK(p[k][i] < s.size() && !s[p[k][i]], w << ": order in dimension " << k << " is not a permutation"); s[p[k][i]] = true; if (i) CHECK(rev ? v[k][p[k][i - 1]] >= v[k][p[k][i]] : v[k][p[k][i - 1]] <= v[k][p[k][i]], w << ": order in dimension " << k << " is not sorted by value"); } } }
  static M ordered(const DC<F>& D, const Perms& p, size_t k) { return k ? D.B[k].sub(p[k - 1], p[k]) : M(1, D.dim(0)); }
  // pairs in dimension k for the filtration order p (indices of the original cells, or of the order when permuted)
  static std::vector<PP> pairs(const DC<F>& D, const Vals& v, const Perms& p, size_t k, bool permuted = false) { std::vector<PP> r; size_t n = D.dim(k); std::vector<bool> neg(n, false); if (k) for (long j : plain_pivots(ordered(D, p, k))) if (j >= 0) neg[j] = true; std::vector<long> up(n, -1); if (k + 1 < D.B.size()) up = plain_pivots(ordered(D, p, k + 1));
    for (size_t i = 0; i < n; i++) if (!neg[i]) { size_t j = up[i] < 0 ? bats::NO_IND : permuted ? size_t(up[i]) : p[k + 1][up[i]]; r.push_back({k, permuted ? i : p[k][i], j, v[k][p[k][i]], up[i] < 0 ? std::numeric_limits<double>::infinity() : v[k + 1][p[k + 1][up[i]]]}); } std::sort(r.begin(), r.end()); return r; }
  // pairs in dimension k of the complex augmented by aug (a dimension -1 in front)
  static std::vector<PP> aug_pairs(const DC<F>& D, const M& aug, const Vals& v, const Perms& p, size_t k) { DC<F> E = D; E.B[0] = aug; E.B.insert(E.B.begin(), M(1, aug.m)); Vals w = v; w.insert(w.begin(), std::vector<double>(aug.m, -1e6)); Perms q = p; q.insert(q.begin(), std::vector<size_t>()); for (size_t i = 0; i < aug.m; i++) q[0].push_back(i); auto r = pairs(E, w, q, k + 1); for (auto& x : r) x.dim--; return r; }
  static std::vector<CM<F>> aug_diff(const DC<F>& D, const M& aug, int deg) { std::vector<CM<F>> b; for (size_t k = 0; k < D.B.size(); k++) b.push_back(((deg < 0) ? (k ? D.B[k] : aug) : (k ? D.B[k] : aug).t()).mk()); b.push_back((deg < 0 ? M(D.B.back().n, 0) : M(0, D.B.back().n)).mk()); return b; }
  // a map out of dimension 0 that vanishes on boundaries
  static M aug_any(Rng& g, const DC<F>& D) { M K = D.B.size() > 1 ? kernel(D.B[1].t()) : M(D.dim(0), D.dim(0)); if (D.B.size() < 2) for (size_t i = 0; i < D.dim(0); i++) K(i, i) = o::one(); M x(K.n, g.below(3)); for (size_t i = 0; i < x.m; i++) for (size_t j = 0; j < x.n; j++) x(i, j) = g.chance(1, 2) ? o::one() : o::zero(); return (K * x).t(); }
  static void betti(const DC<F>& D, const Vals& v, const std::vector<std::vector<PP>>& pr, const std::string& w) { std::set<double> as; for (auto& l : v) as.insert(l.begin(), l.end()); as.insert(-1000); for (double a : as) { DC<F> S; Perms ix; for (size_t k = 0; k < D.B.size(); k++) { ix.emplace_back(); for (size_t i = 0; i < v[k].size(); i++) if (v[k][i] <= a) ix[k].push_back(i); S.B.push_back(k ? D.B[k].sub(ix[k - 1], ix[k]) : M(1, ix[0].size())); } for (size_t k = 0; k < pr.size(); k++) { size_t c = 0; for (auto& q : pr[k]) c += q.birth <= a && a < q.death; CHECK(c == S.betti(k), w << ": " << c << " bars alive at " << a << " in dimension " << k << ", Betti number " << S.betti(k)); } } }
  static DC<F> dense(const bats::ChainComplex<CM<F>>& c) { DC<F> D; for (size_t k = 0; k <= c.maxdim(); k++) D.B.push_back(M::of(c[k], "boundary", false)); return D; }
  static AlgX algx(const DC<F>& D) { AlgX X; for (size_t k = 0; k < D.B.size(); k++) { X.n.push_back(D.dim(k)); std::vector<size_t> cp{0}, ri; std::vector<int> v; if (k) for (size_t j = 0; j < D.dim(k); j++) { for (size_t i = 0; i < D.dim(k - 1); i++) if (D.B[k](i, j) != o::zero()) { ri.push_back(i); v.push_back(ival(D.B[k](i, j))); } cp.push_back(ri.size()); } else cp.resize(D.dim(0) + 1, 0); X.b.push_back(CSCMatrix<int, size_t>(k ? D.dim(k - 1) : 1, D.dim(k), cp, ri, v)); } return X; }
  static int ival(int x) { return x; } static int ival(const Q& q) { return int(q.n); }
  static std::string vstr(const Vals& v) { return " values " + show(v); }
  // call f(X, D) with a random complex
  template <class Fn> static void complexes(Rng& g, h::Ctx& c, std::string& lg, Fn f, bool alg = true) { int t = int(g.below(alg ? 5 : 4)); size_t md = g.below(4), nv = 1 + g.below(7); lg = o::name();
    if (t == 4) { DC<F> D = random_complex<F>(g, 3, o::name() == "Q" ? 5 : 9); if constexpr (std::is_same<typename o::R, Q>::value) for (size_t k = 1; k < D.B.size(); k++) for (auto& r : D.B[k].a) for (auto& x : r) if (x.d != 1) md = 99; if (md != 99 && D.B.size()) { lg += " algebraic" + D.str(); f(algx(D), D); return; } md = 2; }
    if (t == 3) { size_t d = 1 + g.below(3); bats::CubicalComplex X(d); lg += " cubes"; size_t m = 1 + g.below(4); for (size_t i = 0; i < m; i++) { std::vector<size_t> s; for (size_t q = 0; q < d; q++) { size_t a = g.below(3); s.push_back(a); s.push_back(a + g.below(2)); } lg += " " + show(s); X.add_recursive(s); } f(X, dense(bats::ChainComplex<CM<F>>(X))); return; }
    SC s = SC::random(g, nv, md, 6); size_t D = g.chance(1, 3) ? md : s.S.size() - 1; lg += " simplices " + s.str() + " maxdim " + std::to_string(D);
    if (t == 2) { bats::LightSimplicialComplex<size_t> X(nv, D); fill(g, X, s); f(X, dense(bats::ChainComplex<CM<F>>(X))); } else { bats::SimplicialComplex X(nv, D); fill(g, X, s); auto L = cells(X, X.maxdim() + 1); lg += " cells " + show(L[0]) + (L.size() > 1 ? show(L[1]) : ""); f(X, dense(bats::ChainComplex<CM<F>>(X))); } }
};
