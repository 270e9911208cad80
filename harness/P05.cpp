// P05: matrix algebra and triangular solves agree with dense linear algebra
#include "mat.hpp"
template <class F> struct T {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using S = SV_<F>; using P = Ops<F>; using M = Mat<F>;
  static void algebra(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = P::sdim(g), p = P::sdim(g); M A = M::random(g, m, n), B = M::random(g, n, p), C = M::random(g, m, n); R a = o::rnd(g); V x = P::rvd(g, n), y = P::rvd(g, m);
    if (g.chance(1, 4)) { C = A; if (m && n && g.chance(1, 2)) C(g.below(m), g.below(n)) = o::rnd(g); }
    std::ostringstream q; q << o::name() << " A=" << A.str() << " B=" << B.str() << " C=" << C.str() << " a=" << a << " x=" << show(x) << " y=" << show(y); c.in(q.str()); if (m * n > 1) c.nontrivial();
    auto a_ = A.mk(), b_ = B.mk(), c_ = C.mk(); const auto &A_ = a_, &B_ = b_, &C_ = c_; M::same(A_, A, "construction"); S X = P::mk(x), Y = P::mk(y);
    P::same(A_.gemv(X), A * x, "gemv"); P::same(A_ * X, A * x, "A*x"); P::same(gemv(a_, X), A * x, "gemv(A,x)"); { typename S::tmp_type t; t.resize(g.below(3)); P::same(A_.gemv(X, t), A * x, "gemv(x,tmp)"); }
    M::same(A_ * B_, A * B, "A*B"); P::same(Y * A_, A.t() * y, "x^T A"); { M e = A; for (auto& r : e.a) for (auto& z : r) z = o::mul(z, a); M::same(A_ * o::mk(a), e, "A*scalar"); }
    M::same(A_ + C_, A + C, "A+C"); M::same(A_ - C_, A - C, "A-C"); { auto d = A.mk(); d += C_; M::same(d, A + C, "A+=C"); } M::same(A_.transpose(), A.t(), "transpose"); M::same(A_.T(), A.t(), "T()"); M::same(CM<F>::identity(n), M::id(n), "identity");
    CHECK((A_ == C_) == (A == C), "equality"); CHECK(A_ == A.mk(), "equal to a copy"); M::same(CM<F>(m, n), M(m, n), "zero matrix"); { M e(m, n); for (auto& r : e.a) for (auto& z : r) z = o::one(); M::same(CM<F>(m, n, o::mk(o::one())), e, "filled matrix"); }
    { M e(m, n + p); CM<F> w(m, n + 1); CHECK(!(w == A_), "different column count"); CM<F> w2(m + 1, n); CHECK(!(w2 == A_), "different row count"); }
    size_t nz = 0; for (auto& r : A.a) for (auto& z : r) nz += z != o::zero(); CHECK(A_.nnz() == nz && A_.is_zero() == (nz == 0), "nnz / is_zero");
    { std::vector<F> k; V kk; for (size_t i = 0; i < m; i++) { kk.push_back(o::rndnz(g)); k.push_back(o::mk(kk.back())); } auto d = A.mk(); M e = A; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, j) = o::mul(kk[i], A(i, j)); d.row_scale(k); M::same(d, e, "row_scale"); }
    { std::vector<F> k; V kk; for (size_t i = 0; i < n; i++) { kk.push_back(o::rndnz(g)); k.push_back(o::mk(kk.back())); } auto d = A.mk(); M e = A; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, j) = o::mul(o::inv(kk[j]), A(i, j)); d.col_inv_scale(k); M::same(d, e, "col_inv_scale"); }
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CHECK(o::to(A_.getval(i, j)) == A(i, j) && o::to(A_(i, j)) == A(i, j), "entry lookup " << i << "," << j);
    { auto rows = A_.to_row_array(); CHECK(rows.size() == m, "to_row_array rows"); for (size_t i = 0; i < m; i++) { CHECK(rows[i].size() == n, "to_row_array cols"); for (size_t j = 0; j < n; j++) CHECK(o::to(rows[i][j]) == A(i, j), "to_row_array"); } F* d = A_.dump_dense(); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CHECK(o::to(d[i + j * m]) == A(i, j), "dump_dense"); delete[] d; }
    M::same(A_, A, "A unchanged"); M::same(B_, B, "B unchanged"); M::same(C_, C, "C unchanged"); P::same(X, x, "x unchanged"); P::same(Y, y, "y unchanged");
    { M e(m + n, n + p); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, j) = A(i, j); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < p; j++) e(m + i, n + j) = B(i, j); M::same(direct_sum(A_, B_), e, "direct_sum"); }
    if (m * n <= 20 && n * p <= 20) { M e(m * n, n * p); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) for (size_t l = 0; l < p; l++) e(i * n + k, j * p + l) = o::mul(A(i, j), B(k, l)); M::same(tensor_product(A_, B_), e, "tensor_product"); }
  }
  static void solve(Ctx& c) {
    Rng& g = c.g; size_t n = P::sdim(g), p = P::sdim(g); bool rat = o::name() == "Q"; if (rat && n > 5) n = 5;   // keep rational entries small
    M U = M::triangular(g, n, true, rat && g.chance(1, 2)), L = M::triangular(g, n, false, rat && g.chance(1, 2)); M B = M::random(g, n, p); V y = P::rvd(g, n); if (n && g.chance(1, 4)) { y = V(n, o::zero()); y[g.chance(1, 2) ? n - 1 : 0] = o::rndnz(g); }
    c.in(o::name() + " U=" + U.str() + " L=" + L.str() + " B=" + B.str() + " y=" + show(y)); if (n > 1) c.nontrivial();
    auto u = U.mk(), l = L.mk(), b = B.mk(); S Y = P::mk(y);
    { V x = P::to(u_solve(u, Y), n, "u_solve"); CHECK(U * x == y, "U * u_solve(U,y) = " << show(U * x)); } { V x = P::to(l_solve(l, Y), n, "l_solve"); CHECK(L * x == y, "L * l_solve(L,y) = " << show(L * x)); }
    { M X = M::of(u_solve(u, b), "u_solve matrix"); CHECK(X.m == n && X.n == p && U * X == B, "U X = B, X=" << X.str()); } { M X = M::of(l_solve(l, b), "l_solve matrix"); CHECK(X.m == n && X.n == p && L * X == B, "L X = B, X=" << X.str()); }
    { M X = M::of(u_inv(u), "u_inv"); CHECK(U * X == M::id(n) && X * U == M::id(n), "u_inv two-sided inverse " << X.str()); } { M X = M::of(l_inv(l), "l_inv"); CHECK(L * X == M::id(n) && X * L == M::id(n), "l_inv two-sided inverse " << X.str()); }
    M::same(u, U, "U unchanged"); M::same(l, L, "L unchanged"); M::same(b, B, "B unchanged"); P::same(Y, y, "y unchanged");
  }
};
template <class F> void T_algebra(Ctx& c) { T<F>::algebra(c); } template <class F> void T_solve(Ctx& c) { T<F>::solve(c); }
TEST(algebra, 8000, "cm_gemv cm_gemm cm_add cm_sub cm_transpose cm_identity cm_eq") { FOR_FIELDS(c, T_algebra); }
TEST(solve, 10000, "u_solve l_solve u_inv l_inv") { FOR_FIELDS(c, T_solve); }
// every 2x2 / 3x3 triangular system over Z/3
TEST(solve_exhaustive, 2, "u_solve l_solve u_inv l_inv") { using F = ModP<int, 3>; using M = Mat<F>; using P = Ops<F>; c.nontrivial(); size_t n = c.k == 0 ? 2 : 3; size_t od = n * (n - 1) / 2; size_t tot = 1; for (size_t i = 0; i < od + n; i++) tot *= i < od ? 3 : 2; size_t ny = n == 2 ? 9 : 27;
  for (size_t t = 0; t < tot; t++) { size_t k = t; M U(n, n), L(n, n); for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) if (i == j) { U(i, i) = L(i, i) = 1 + int(k % 2); k /= 2; } else { U(i, j) = L(j, i) = int(k % 3); k /= 3; }
    c.in("U=" + U.str() + " L=" + L.str()); auto u = U.mk(), l = L.mk(); for (size_t s = 0; s < ny; s++) { size_t q = s; Vec<F> y(n); for (auto& e : y) { e = int(q % 3); q /= 3; } CHECK(U * P::to(u_solve(u, P::mk(y)), n, "u_solve") == y, "u_solve y=" << show(y)); CHECK(L * P::to(l_solve(l, P::mk(y)), n, "l_solve") == y, "l_solve y=" << show(y)); } CHECK(M::of(u_inv(u), "u_inv") * U == M::id(n), "u_inv"); CHECK(M::of(l_inv(l), "l_inv") * L == M::id(n), "l_inv"); } }
