// type-A representations (arrows in either direction) and their interval decomposition by ranks of limit -> colimit
#pragma once
#include "filt.hpp"
using Bars = std::map<std::pair<size_t, size_t>, size_t>;   // (first, last) position -> multiplicity
template <class F> struct Rep { using M = Mat<F>; using o = O<F>; std::vector<size_t> d; std::vector<bool> left; std::vector<M> A;   // A[e]: left ? d[e] x d[e+1] : d[e+1] x d[e]
  std::string str() const { std::string s = "dims " + show(d); for (size_t e = 0; e < A.size(); e++) s += std::string(left[e] ? " <-" : " ->") + A[e].str(); return s; }
  // number of bars covering all positions in [a,b]
  size_t cover(size_t a, size_t b) const { if (a == b) return d[a]; std::vector<size_t> of(b - a + 2, 0); for (size_t i = a; i <= b; i++) of[i - a + 1] = of[i - a] + d[i]; size_t N = of[b - a + 1], nc = 0, nr = 0; for (size_t e = a; e < b; e++) { nc += left[e] ? d[e] : d[e + 1]; nr += left[e] ? d[e + 1] : d[e]; } M K(nc, N), R(N, nr); size_t p = 0, q = 0;
    for (size_t e = a; e < b; e++) { size_t s = left[e] ? e + 1 : e, t = left[e] ? e : e + 1; for (size_t i = 0; i < d[t]; i++) { for (size_t j = 0; j < d[s]; j++) K(p + i, of[s - a] + j) = A[e](i, j); K(p + i, of[t - a] + i) = o::neg(o::one()); } p += d[t]; for (size_t j = 0; j < d[s]; j++) { R(of[s - a] + j, q + j) = o::neg(o::one()); for (size_t i = 0; i < d[t]; i++) R(of[t - a] + i, q + j) = A[e](i, j); } q += d[s]; }
    M L = kernel(K), P(N, L.n); for (size_t i = 0; i < d[a]; i++) for (size_t j = 0; j < L.n; j++) P(i, j) = L(i, j); return hcat(R, P).rank() - R.rank(); }
  Bars bars() const { size_t n = d.size(); std::map<std::pair<long, long>, long> r; for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) { size_t v = cover(a, b); r[{a, b}] = long(v); if (!v) break; } auto at = [&](long a, long b) { auto it = r.find({a, b}); return it == r.end() ? 0L : it->second; }; Bars m; for (long a = 0; a < long(n); a++) for (long b = a; b < long(n); b++) { long k = at(a, b) - (a ? at(a - 1, b) : 0) - (b + 1 < long(n) ? at(a, b + 1) : 0) + (a && b + 1 < long(n) ? at(a - 1, b + 1) : 0); if (k) m[{a, b}] = size_t(k); } return m; } };
inline std::string bstr(const Bars& b) { std::string s = "{"; for (auto& p : b) s += "[" + std::to_string(p.first.first) + "," + std::to_string(p.first.second) + "]x" + std::to_string(p.second) + " "; return s + "}"; }
