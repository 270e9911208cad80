// dense oracle for column matrices (independent of the library's linear algebra)
#pragma once
#include "la.hpp"
#include <linalg/col_matrix.hpp>
template <class F> using CM = ColumnMatrix<SparseVector<F, size_t>>;
// D: dense matrix, entries by row then column
template <class F> struct Mat {
  using o = O<F>; using R = typename o::R; using P = Ops<F>;
  size_t m = 0, n = 0; std::vector<std::vector<R>> a;
  Mat() {} Mat(size_t m, size_t n) : m(m), n(n), a(m, std::vector<R>(n, o::zero())) {}
  R& operator()(size_t i, size_t j) { return a[i][j]; } const R& operator()(size_t i, size_t j) const { return a[i][j]; }
  bool operator==(const Mat& b) const { return m == b.m && n == b.n && a == b.a; } bool operator!=(const Mat& b) const { return !(*this == b); }
  static Mat id(size_t n) { Mat r(n, n); for (size_t i = 0; i < n; i++) r(i, i) = o::one(); return r; }
  Vec<F> col(size_t j) const { Vec<F> v; for (size_t i = 0; i < m; i++) v.push_back(a[i][j]); return v; }
  void setcol(size_t j, const Vec<F>& v) { for (size_t i = 0; i < m; i++) a[i][j] = v[i]; }
  Mat operator*(const Mat& b) const { Mat r(m, b.n); for (size_t i = 0; i < m; i++) for (size_t k = 0; k < n; k++) if (a[i][k] != o::zero()) for (size_t j = 0; j < b.n; j++) if (b(k, j) != o::zero()) r(i, j) = o::add(r(i, j), o::mul(a[i][k], b(k, j))); return r; }
  Vec<F> operator*(const Vec<F>& x) const { Vec<F> r(m, o::zero()); for (size_t i = 0; i < m; i++) for (size_t k = 0; k < n; k++) r[i] = o::add(r[i], o::mul(a[i][k], x[k])); return r; }
  Mat operator+(const Mat& b) const { Mat r(*this); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, j) = o::add(r(i, j), b(i, j)); return r; }
  Mat operator-(const Mat& b) const { Mat r(*this); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, j) = o::add(r(i, j), o::neg(b(i, j))); return r; }
  Mat t() const { Mat r(n, m); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(j, i) = a[i][j]; return r; }
  Mat sub(const std::vector<size_t>& I, const std::vector<size_t>& J) const { Mat r(I.size(), J.size()); for (size_t i = 0; i < I.size(); i++) for (size_t j = 0; j < J.size(); j++) r(i, j) = a[I[i]][J[j]]; return r; }
  size_t rank() const { Mat w(*this); size_t r = 0; for (size_t j = 0; j < n && r < m; j++) { size_t p = r; while (p < m && w(p, j) == o::zero()) p++; if (p == m) continue; std::swap(w.a[p], w.a[r]); R iv = o::inv(w(r, j)); for (size_t i = r + 1; i < m; i++) if (w(i, j) != o::zero()) { R f = o::neg(o::mul(w(i, j), iv)); for (size_t k = j; k < n; k++) w(i, k) = o::add(w(i, k), o::mul(f, w(r, k))); } r++; } return r; }
  bool zero() const { for (auto& r : a) for (auto& x : r) if (x != o::zero()) return false; return true; }
  std::string str() const { std::ostringstream s; s << m << "x" << n << show(a); return s.str(); }
  static Mat random(Rng& g, size_t m, size_t n) { Mat r(m, n); int style = int(g.below(8)); int d = 1 + int(g.below(5)); for (size_t j = 0; j < n; j++) { if (style == 0) r.setcol(j, P::rvd(g, m)); else for (size_t i = 0; i < m; i++) if (g.chance(d, 6)) r(i, j) = style < 6 ? o::rndnz(g) : o::one(); if (j && g.chance(1, 8)) r.setcol(j, r.col(g.below(j))); }
    if (style == 3 && m > 1) { for (size_t j = 0; j < n; j++) r(m - 1, j) = r(0, j); } return r; }
  static Mat triangular(Rng& g, size_t n, bool upper, bool unit = false) { Mat r(n, n); int d = int(g.below(6)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i == j) r(i, j) = unit ? o::one() : o::rndnz(g); else if ((i < j) == upper && g.chance(d, 5)) r(i, j) = o::rndnz(g); return r; }
  static Mat of(const CM<F>& A, const char* what, bool nz = true) { Mat r(A.nrow(), A.ncol()); CHECK(A.cols().size() == A.ncol(), what << ": column count " << A.cols().size() << " vs ncol " << A.ncol()); for (size_t j = 0; j < A.ncol(); j++) r.setcol(j, P::to(A[j], A.nrow(), what, nz)); return r; }
  CM<F> mk() const { std::vector<SV_<F>> c; for (size_t j = 0; j < n; j++) c.push_back(P::mk(col(j))); return CM<F>(m, n, c); }
  static void same(const CM<F>& A, const Mat& e, const char* what, bool nz = true) { CHECK(A.nrow() == e.m && A.ncol() == e.n, what << ": dimensions " << A.nrow() << "x" << A.ncol() << " expected " << e.m << "x" << e.n); Mat g = of(A, what, nz); CHECK(g == e, what << ": got " << g.str() << " expected " << e.str()); }
  bool upper() const { for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (i > j && a[i][j] != o::zero()) return false; return true; }
  bool lower() const { return t().upper(); }
  bool diag_inv() const { if (m != n) return false; for (size_t i = 0; i < n; i++) if (a[i][i] == o::zero()) return false; return true; }
  Mat rev() const { Mat r(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) r(i, j) = a[m - 1 - i][n - 1 - j]; return r; }
  // last nonzero row of column j, or -1
  long piv(size_t j) const { for (size_t i = m; i-- > 0;) if (a[i][j] != o::zero()) return long(i); return -1; }
  bool pivot() const { for (size_t i = 0; i < m; i++) { int c = 0; for (size_t j = 0; j < n; j++) c += a[i][j] != o::zero(); if (c > 1) return false; } for (size_t j = 0; j < n; j++) { int c = 0; for (size_t i = 0; i < m; i++) c += a[i][j] != o::zero(); if (c > 1) return false; } return true; }
  bool perm() const { if (m != n || !pivot()) return false; for (size_t j = 0; j < n; j++) { long p = piv(j); if (p < 0 || a[p][j] != o::one()) return false; } return true; }
  // EL: nonzero columns first, one entry each, strictly increasing rows
  bool EL() const { long last = -1; bool done = false; for (size_t j = 0; j < n; j++) { int c = 0; long r = -1; for (size_t i = 0; i < m; i++) if (a[i][j] != o::zero()) { c++; r = long(i); } if (c == 0) { done = true; continue; } if (done || c > 1 || r <= last) return false; last = r; } return true; }
  bool EU() const { return t().EL(); } bool ELhat() const { return rev().EU(); } bool EUhat() const { return rev().EL(); }
};
