// random chain complexes, simplicial complexes, dense homology oracle
#pragma once
#include "mat.hpp"
template <class F> Mat<F> kernel(const Mat<F>& A) {   // columns: a basis of {x : A x = 0}
  using o = O<F>; Mat<F> w(A); std::vector<size_t> pc; size_t r = 0;
  for (size_t j = 0; j < w.n && r < w.m; j++) { size_t p = r; while (p < w.m && w(p, j) == o::zero()) p++; if (p == w.m) continue; std::swap(w.a[p], w.a[r]); auto iv = o::inv(w(r, j)); for (size_t k = 0; k < w.n; k++) w(r, k) = o::mul(w(r, k), iv);
    for (size_t i = 0; i < w.m; i++) if (i != r && w(i, j) != o::zero()) { auto f = o::neg(w(i, j)); for (size_t k = 0; k < w.n; k++) w(i, k) = o::add(w(i, k), o::mul(f, w(r, k))); } pc.push_back(j); r++; }
  std::vector<bool> ip(w.n, false); for (auto j : pc) ip[j] = true; std::vector<size_t> fr; for (size_t j = 0; j < w.n; j++) if (!ip[j]) fr.push_back(j);
  Mat<F> K(w.n, fr.size()); for (size_t t = 0; t < fr.size(); t++) { K(fr[t], t) = o::one(); for (size_t i = 0; i < pc.size(); i++) K(pc[i], t) = o::neg(w(i, fr[t])); } return K; }
template <class F> Mat<F> hcat(const Mat<F>& A, const Mat<F>& B) { Mat<F> r(A.m, A.n + B.n); for (size_t i = 0; i < A.m; i++) { for (size_t j = 0; j < A.n; j++) r(i, j) = A(i, j); for (size_t j = 0; j < B.n; j++) r(i, A.n + j) = B(i, j); } return r; }
template <class F> Mat<F> colmat(const Vec<F>& v) { Mat<F> r(v.size(), 1); r.setcol(0, v); return r; }
template <class F> bool inspan(const Mat<F>& A, const Mat<F>& B) { return hcat(A, B).rank() == A.rank(); }   // every column of B in the span of A
template <class F> Mat<F> lead(const Mat<F>& A, size_t j) { Mat<F> r(A.m, j); for (size_t i = 0; i < A.m; i++) for (size_t k = 0; k < j; k++) r(i, k) = A(i, k); return r; }
// plain left-to-right reduction on the dense matrix: pivot row -> column (or -1)
template <class F> std::vector<long> plain_pivots(Mat<F> A) { using o = O<F>; std::vector<long> p(A.m, -1); for (size_t j = 0; j < A.n; j++) for (;;) { long i = A.piv(j); if (i < 0) break; if (p[i] < 0) { p[i] = long(j); break; } auto f = o::neg(o::mul(A(i, j), o::inv(A(i, p[i])))); for (size_t r = 0; r < A.m; r++) A(r, j) = o::add(A(r, j), o::mul(f, A(r, p[i]))); } return p; }
template <class F> struct DC {   // dense chain complex, B[0] is 1 x dim(0) and zero
  using o = O<F>; std::vector<Mat<F>> B;
  size_t maxdim() const { return B.size() - 1; } size_t dim(size_t k) const { return k < B.size() ? B[k].n : 0; }
  size_t betti(size_t k) const { return dim(k) - B[k].rank() - (k + 1 < B.size() ? B[k + 1].rank() : 0); }
  std::string str() const { std::string s; for (size_t k = 0; k < B.size(); k++) s += " B" + std::to_string(k) + "=" + B[k].str(); return s; }
};
// random algebraic chain complex: columns of B_{k+1} are combinations of cycles
template <class F> DC<F> random_complex(h::Rng& g, size_t maxdim, size_t maxn, bool full0 = false) { using o = O<F>; DC<F> C; size_t d = 1 + g.below(maxdim + 1); size_t n0 = g.below(maxn + 1); C.B.push_back(Mat<F>(1, n0));
  for (size_t k = 1; k < d; k++) { Mat<F> K = k == 1 ? Mat<F>::id(n0) : kernel(C.B[k - 1]); size_t n = g.below(maxn + 1); Mat<F> X = Mat<F>::random(g, K.n, n); if (std::is_same<typename O<F>::R, Q>::value) for (auto& r : X.a) for (auto& x : r) x = o::zero() == x ? x : (g.chance(1, 2) ? o::one() : o::neg(o::one())); C.B.push_back(K * X); }
  return C; }
