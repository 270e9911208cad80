// random simplicial complexes as explicit sets of sorted vertex lists, and their dense boundary matrices
#pragma once
#include "hom.hpp"
using Sx = std::vector<size_t>;
struct SC { std::vector<std::set<Sx>> S; std::string log;   // S[k]: simplices with k+1 vertices
  void close(const Sx& v) { size_t n = v.size(); for (size_t m = 1; m < (size_t(1) << n); m++) { Sx f; for (size_t i = 0; i < n; i++) if (m >> i & 1) f.push_back(v[i]); if (S.size() < f.size()) S.resize(f.size()); S[f.size() - 1].insert(f); } }
  bool has(const Sx& v) const { return v.size() && v.size() <= S.size() && S[v.size() - 1].count(v); }
  size_t n(size_t k) const { return k < S.size() ? S[k].size() : 0; }
  std::vector<Sx> all() const { std::vector<Sx> r; for (auto& s : S) r.insert(r.end(), s.begin(), s.end()); return r; }
  std::string str() const { std::vector<Sx> f; for (auto& v : all()) { bool top = true; for (auto& w : all()) if (w.size() > v.size() && std::includes(w.begin(), w.end(), v.begin(), v.end())) top = false; if (top) f.push_back(v); } return show(f); }
  static SC random(Rng& g, size_t nv, size_t md, size_t facets) { SC c; size_t m = g.below(facets + 1); c.S.resize(1); if (nv == 0) return c; for (size_t t = 0; t < m; t++) { std::set<size_t> s; size_t d = g.below(std::min(md + 1, nv)); while (s.size() < d + 1) s.insert(g.below(nv)); c.close(Sx(s.begin(), s.end())); } if (c.S[0].empty()) c.close({0}); return c; }
  static SC sub(Rng& g, const SC& X) { SC c; c.S.resize(1); auto a = X.all(); for (auto& v : a) if (g.chance(1, 4)) c.close(v); return c; }
  SC& operator+=(const SC& o) { for (auto& v : o.all()) close(v); return *this; }
};
// insert the simplices of c in a random admissible order into an existing complex
template <class CpxT> void fill(Rng& g, CpxT& X, const SC& c) { std::vector<Sx> a = c.all(), done; std::set<Sx> in; for (size_t i = a.size(); i > 1; i--) std::swap(a[i - 1], a[g.below(i)]); int mode = int(g.below(3));
  if (mode == 0) { for (auto v : a) X.add_recursive(v); return; }
  if (mode == 1) { std::stable_sort(a.begin(), a.end(), [](const Sx& x, const Sx& y) { return x.size() < y.size(); }); for (auto v : a) X.add(v); return; }
  while (in.size() < a.size()) for (auto& v : a) if (!in.count(v)) { bool ok = true; if (v.size() > 1) for (size_t i = 0; i < v.size(); i++) { Sx f = v; f.erase(f.begin() + i); if (!in.count(f)) ok = false; } if (ok && g.chance(2, 3)) { Sx w = v; X.add(w); in.insert(v); } } }
template <class CpxT> CpxT mkcpx(size_t nv, size_t md) { return CpxT(nv, md); }
// cells of a complex, by the index the complex stores them under
template <class CpxT> std::vector<std::vector<Sx>> cells(const CpxT& X, size_t dims) { std::vector<std::vector<Sx>> L(dims); for (size_t k = 0; k < dims && k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_simplex(k, i); L[k].push_back(Sx(s.begin(), s.end())); } return L; }
inline long find(const std::vector<Sx>& L, const Sx& s) { auto it = std::find(L.begin(), L.end(), s); return it == L.end() ? -1 : long(it - L.begin()); }
inline int sgn(const Sx& s) { int r = 1; for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) if (s[i] > s[j]) r = -r; else if (s[i] == s[j]) return 0; return r; }
// boundary matrices by the alternating-sum definition, columns and rows in the order of L
template <class F> DC<F> simp_boundary(const std::vector<std::vector<Sx>>& L) { using o = O<F>; DC<F> D; for (size_t k = 0; k < L.size(); k++) { Mat<F> B(k ? L[k - 1].size() : 1, L[k].size()); if (k) for (size_t j = 0; j < L[k].size(); j++) for (size_t t = 0; t <= k; t++) { auto f = L[k][j]; f.erase(f.begin() + t); long i = find(L[k - 1], f); CHECK(i >= 0, "face " << show(f) << " of " << show(L[k][j]) << " is missing"); B(i, j) = t % 2 ? o::neg(o::one()) : o::one(); } D.B.push_back(B); } return D; }
template <class F> Mat<F> negm(Mat<F> m) { for (auto& r : m.a) for (auto& v : r) v = O<F>::neg(v); return m; }
// replace each dense boundary by its negative where the library uses the other sign in that dimension
template <class F> void match_sign(DC<F>& D, const bats::ChainComplex<CM<F>>& C) { CHECK(C.boundary.size() == D.B.size(), "dimension of the chain complex"); for (size_t k = 1; k < D.B.size(); k++) { Mat<F> got = Mat<F>::of(C[k], "boundary matrix"); if (got == negm(D.B[k])) D.B[k] = got; Mat<F>::same(C[k], D.B[k], "boundary matrix (up to one sign per dimension)"); } }
