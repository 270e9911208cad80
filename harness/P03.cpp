// P03: sparse vector arithmetic equals entrywise arithmetic
#include "la.hpp"
template <class F> void t_axpy(Ctx& c) {
  using D = Ops<F>; using o = O<F>; Rng& g = c.g;
  size_t n = D::dim(g); auto y = D::rvd(g, n), x = D::rvd(g, n); auto a = g.chance(1, 6) ? o::zero() : o::rndnz(g);
  // make cancellations frequent
  if (a != o::zero()) for (size_t i = 0; i < n; i++) if (x[i] != o::zero() && g.chance(1, 3)) y[i] = o::neg(o::mul(a, x[i]));
  size_t f = g.below(n + 2), l = g.below(n + 3);
  { std::ostringstream s; s << o::name() << " y=" << show(y) << " x=" << show(x) << " a=" << a << " range " << f << ":" << l; c.in(s.str()); }
  if (n > 1) c.nontrivial();
  auto X = D::mk(x); auto r = D::axpy(a, x, y); typename SV_<F>::tmp_type tmp; if (g.chance(1, 2)) tmp.resize(g.below(5));
  { auto Y = D::mk(y); Y.axpy(o::mk(a), X); D::same(Y, r, "y.axpy(a,x)"); D::same(X, x, "second operand of axpy"); }
  { auto Y = D::mk(y); Y.axpy(o::mk(a), X, tmp); D::same(Y, r, "y.axpy(a,x,tmp)"); D::same(X, x, "second operand of axpy"); Y.axpy(o::mk(a), X, tmp); D::same(Y, D::axpy(a, x, r), "y.axpy(a,x,tmp) twice"); }
  { auto Y = D::mk(y); Y.axpy(o::mk(a), X, f, l, tmp); auto xr = x; for (size_t i = 0; i < n; i++) if (i < f || i >= l) xr[i] = o::zero(); D::same(Y, D::axpy(a, xr, y), "y.axpy(a,x,first,last,tmp)"); D::same(X, x, "second operand of ranged axpy"); }
}
TEST(axpy, 12000, "sv_axpy sv_axpy_tmp sv_axpy_range") { FOR_FIELDS(c, t_axpy); }
// all pairs of small vectors over Z/3
TEST(axpy_exhaustive, 729, "sv_axpy sv_axpy_tmp sv_axpy_range") {
  using F = ModP<int, 3>; using D = Ops<F>; using o = O<F>; Vec<F> y(3), x(3); uint64_t k = c.k; for (auto& e : y) { e = int(k % 3); k /= 3; } for (auto& e : x) { e = int(k % 3); k /= 3; }
  c.in("Z/3 y=" + show(y) + " x=" + show(x)); c.nontrivial(); typename SV_<F>::tmp_type tmp;
  for (int a = 0; a < 3; a++) { auto r = D::axpy(a, x, y); auto Y = D::mk(y); Y.axpy(o::mk(a), D::mk(x)); D::same(Y, r, "axpy"); Y = D::mk(y); Y.axpy(o::mk(a), D::mk(x), tmp); D::same(Y, r, "axpy tmp");
    for (size_t f = 0; f < 5; f++) for (size_t l = 0; l < 5; l++) { Y = D::mk(y); Y.axpy(o::mk(a), D::mk(x), f, l, tmp); auto xr = x; for (size_t i = 0; i < 3; i++) if (i < f || i >= l) xr[i] = 0; D::same(Y, D::axpy(a, xr, y), "axpy range"); } }
}
template <class F> void t_algebra(Ctx& c) {
  using D = Ops<F>; using o = O<F>; Rng& g = c.g;
  size_t n = D::dim(g); auto y = D::rvd(g, n), x = D::rvd(g, n); auto a = g.chance(1, 6) ? o::zero() : o::rnd(g);
  if (g.chance(1, 4)) x = y; if (n && g.chance(1, 3)) { x = y; x[g.below(n)] = o::rnd(g); }
  if (g.chance(1, 4)) for (size_t i = 0; i < n; i++) if (g.chance(1, 2)) x[i] = o::neg(y[i]);
  { std::ostringstream s; s << o::name() << " y=" << show(y) << " x=" << show(x) << " a=" << a; c.in(s.str()); } if (n > 1) c.nontrivial();
  auto X = D::mk(x), Y = D::mk(y);
  D::same(Y + X, D::axpy(o::one(), x, y), "y+x"); D::same(X, x, "x after y+x"); D::same(Y, y, "y after y+x");
  { auto r = y; for (auto& e : r) e = o::mul(e, a); D::same(Y * o::mk(a), r, "y*a"); D::same(Y, y, "y after y*a");
    auto Z = Y; Z.scale_inplace(o::mk(a)); D::same(Z, r, "scale_inplace(a)"); auto Z2 = Y.scale(o::mk(a)); D::same(Z2, r, "scale(a)"); D::same(Y, y, "y after scale"); CHECK((Z == D::mk(r)), "scaled vector equals its own dense form"); }
  { auto d = o::to(Y * X); CHECK(d == D::dot(x, y), "inner product got " << d << " expected " << D::dot(x, y)); CHECK(o::to(X * Y) == d, "inner product symmetric"); }
  CHECK((Y == X) == (y == x), "equality"); CHECK((Y != X) == (y != x), "inequality"); CHECK(Y == D::mk(y), "self equality"); CHECK(!(Y != D::mk(y)), "self inequality");
  { std::vector<F> co; Vec<F> cr; for (size_t i = 0; i < n; i++) { cr.push_back(o::rnd(g)); co.push_back(o::mk(cr.back())); } auto Z = Y; Z.scale_inplace(co); auto r = y; for (size_t i = 0; i < n; i++) r[i] = o::mul(r[i], cr[i]); D::same(Z, r, "scale_inplace(coeffs)", false); }
  { size_t m = D::sdim(g); auto w = D::rvd(g, m); auto K = Y.kron(D::mk(w), m); Vec<F> r(n * m, o::zero()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) r[i * m + j] = o::mul(y[i], w[j]); D::same(K, r, "kron"); D::same(Y.tensor(D::mk(w), m), r, "tensor"); }
  { size_t ct = 0; for (size_t i = 0; i < n; i++) ct += x[i] != o::zero() && y[i] != o::zero(); CHECK(Y.nnz_intersection(X) == ct, "nnz_intersection"); }
}
TEST(algebra, 9000, "sv_add sv_scale sv_dot sv_eq sv_kron") { FOR_FIELDS(c, t_algebra); }
// y[i] += coeff[i] * x[inds[i]] (x supported on inds)
template <class F> void t_inds(Ctx& c) {
  using D = Ops<F>; using o = O<F>; Rng& g = c.g;
  size_t m = D::dim(g); std::vector<size_t> inds; for (size_t i = 0; i < m; i++) if (g.chance(2, 3)) inds.push_back(i);
  size_t n = inds.size(); auto y = D::rvd(g, n); auto x = D::rvd(g, m); std::vector<F> co; Vec<F> cr;
  for (size_t i = 0, q = 0; i < m; i++) { if (q < n && inds[q] == i) q++; else x[i] = o::zero(); }
  for (size_t i = 0; i < n; i++) { cr.push_back(g.chance(1, 8) ? o::zero() : o::rndnz(g)); co.push_back(o::mk(cr[i])); if (g.chance(1, 3)) y[i] = o::neg(o::mul(cr[i], x[inds[i]])); }
  { std::ostringstream s; s << o::name() << " y=" << show(y) << " x=" << show(x) << " inds=" << show(inds) << " coeff=" << show(cr); c.in(s.str()); } if (n > 1) c.nontrivial();
  auto Y = D::mk(y), X = D::mk(x); typename SV_<F>::tmp_type tmp; Y.axpy(X, co, inds, tmp); auto r = y; for (size_t i = 0; i < n; i++) r[i] = o::add(y[i], o::mul(cr[i], x[inds[i]]));
  D::same(Y, r, "y.axpy(x,coeff,inds,tmp)"); D::same(X, x, "second operand of indexed axpy");
}
TEST(axpy_inds, 6000, "sv_axpy_inds") { FOR_FIELDS(c, t_inds); }
