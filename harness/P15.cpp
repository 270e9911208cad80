// P15: compressed sparse column matrices against dense integer matrices
#include "h.hpp"
#include <bats.hpp>
using h::Ctx; using h::Rng; using h::show;
using C = CSCMatrix<int, size_t>; using DMt = std::vector<std::vector<int>>;   // rows
static DMt zeros(size_t m, size_t n) { return DMt(m, std::vector<int>(n, 0)); }
static DMt rnd(Rng& g, size_t m, size_t n) { DMt d = zeros(m, n); int q = int(g.below(6)); for (auto& r : d) for (auto& x : r) if (g.chance(q, 5)) x = g.range(-4, 4); if (m > 1 && g.chance(1, 5)) for (size_t j = 0; j < n; j++) d[m - 1][j] = -d[0][j]; return d; }
// stored entries in random order within each column, some explicit zeros
static C mk(Rng& g, const DMt& d, size_t m, size_t n, bool shuffle, bool three = false, bool ez = true) { std::vector<size_t> cp{0}, ri; std::vector<int> v; for (size_t j = 0; j < n; j++) { std::vector<size_t> r; for (size_t i = 0; i < m; i++) if (d[i][j] || (ez && g.chance(1, 9))) r.push_back(i); if (shuffle) for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[g.below(i)]); for (auto i : r) { ri.push_back(i); v.push_back(d[i][j]); } cp.push_back(ri.size()); } return three ? C(cp, ri, v) : C(m, n, cp, ri, v); }
static void same(const C& A, const DMt& d, size_t m, size_t n, const std::string& w, bool sorted = true) {
  CHECK(A.nrow() == m && A.ncol() == n, w << ": dimensions " << A.nrow() << "x" << A.ncol() << " expected " << m << "x" << n); auto& cp = A.get_colptr(); auto& ri = A.get_rowind(); CHECK(cp.size() == n + 1 && cp[0] == 0, w << ": column pointers"); for (size_t j = 0; j < n; j++) CHECK(cp[j] <= cp[j + 1], w << ": column pointers decrease"); CHECK(cp[n] == ri.size() && ri.size() == A.get_val().size(), w << ": column pointers do not cover the entries: " << cp[n] << " of " << ri.size() << "/" << A.get_val().size());
  for (size_t j = 0; j < n; j++) for (size_t k = cp[j]; k < cp[j + 1]; k++) { CHECK(ri[k] < m, w << ": row index out of range"); if (sorted && k > cp[j]) CHECK(ri[k - 1] < ri[k], w << ": rows of column " << j << " are not increasing"); }
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CHECK(A.getval(i, j) == d[i][j], w << ": entry (" << i << "," << j << ") is " << A.getval(i, j) << " expected " << d[i][j]); }
static size_t dim(Rng& g) { return g.chance(1, 6) ? g.below(2) : g.chance(1, 8) ? 10 + g.below(20) : 1 + g.below(7); }
TEST(construct, 3000, "CSCMatrix constructors getval") { Rng& g = c.g; size_t m = dim(g), n = dim(g); DMt d = rnd(g, m, n); c.in("A=" + show(d)); if (m > 1 && n > 1) c.nontrivial(); C A = mk(g, d, m, n, true); same(A, d, m, n, "construction"); C B(A), E; E = A; same(B, d, m, n, "copy"); same(E, d, m, n, "assignment"); ColumnMatrix<SparseVector<ModP<int, 5>>> M(A); CHECK(M.nrow() == m && M.ncol() == n, "column matrix dimensions"); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) CHECK(M.getval(i, j) == (ModP<int, 5>(((d[i][j] % 5) + 5) % 5)), "column matrix from compressed matrix"); C T = mk(g, d, m, n, true, true); size_t mm = 0; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) if (d[i][j]) mm = i + 1; CHECK(T.ncol() == n && T.nrow() >= mm && T.nrow() <= m, "constructor without dimensions: " << T.nrow() << "x" << T.ncol()); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) CHECK(T.getval(i, j) == d[i][j], "constructor without dimensions"); }
TEST(ringops, 3000, "CSCMatrix gemm sum operator*") { Rng& g = c.g; size_t m = dim(g), n = dim(g), k = dim(g); DMt a = rnd(g, m, k), b = rnd(g, k, n), e = rnd(g, m, k); c.in("A=" + show(a) + " B=" + show(b) + " E=" + show(e)); if (m * n * k > 4) c.nontrivial(); bool sh = g.chance(1, 2); C A = mk(g, a, m, k, sh), B = mk(g, b, k, n, sh), E = mk(g, e, m, k, sh), S; DMt p = zeros(m, n), s = zeros(m, k), t = s; for (size_t i = 0; i < m; i++) for (size_t q = 0; q < k; q++) for (size_t j = 0; j < n; j++) p[i][j] += a[i][q] * b[q][j]; int al = g.range(-3, 3); for (size_t i = 0; i < m; i++) for (size_t q = 0; q < k; q++) { s[i][q] = a[i][q] + e[i][q]; t[i][q] = al * a[i][q] + e[i][q]; } S = mk(g, rnd(g, 3, 2), 3, 2, true); same(A * B, p, m, n, "product"); C R = mk(g, rnd(g, 3, 2), 3, 2, true); gemm(A, B, R); same(R, p, m, n, "gemm into a used matrix"); sum(A, E, S); same(S, s, m, k, "sum"); sum(al, A, E, S); same(S, t, m, k, "scaled sum"); same(A, a, m, k, "left argument"); }
TEST(submatrix, 3000, "CSCMatrix submatrix block_select") { Rng& g = c.g; size_t m = dim(g), n = dim(g); DMt d = rnd(g, m, n); std::vector<size_t> R, J; for (size_t i = 0; i < m; i++) if (g.chance(2, 3)) R.push_back(i); for (size_t j = 0; j < n; j++) if (g.chance(2, 3)) J.push_back(j); bool inc = g.chance(1, 2); if (!inc) for (size_t i = R.size(); i > 1; i--) std::swap(R[i - 1], R[g.below(i)]); if (g.chance(1, 2)) for (size_t i = J.size(); i > 1; i--) std::swap(J[i - 1], J[g.below(i)]); if (J.size() && g.chance(1, 5)) J.push_back(J[0]); c.in("A=" + show(d) + " rows " + show(R) + " cols " + show(J)); if (R.size() && J.size()) c.nontrivial(); C A = mk(g, d, m, n, true); DMt e = zeros(R.size(), J.size()); for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < J.size(); j++) e[i][j] = d[R[i]][J[j]];
  C S = A.submatrix(R, J); same(S, e, R.size(), J.size(), "submatrix"); auto pr = bats::util::partial_perm(R, m); C B = mk(g, rnd(g, 3, 2), 3, 2, true); block_select(A, J, pr, R.size(), B); same(B, e, R.size(), J.size(), "block_select"); { DMt x = rnd(g, J.size(), 2); C X = mk(g, x, J.size(), 2, true); DMt p = zeros(R.size(), 2); for (size_t i = 0; i < R.size(); i++) for (size_t q = 0; q < J.size(); q++) for (size_t j = 0; j < 2; j++) p[i][j] += e[i][q] * x[q][j]; same(S * X, p, R.size(), 2, "product with a submatrix"); } }
TEST(solve, 3000, "trilu") { Rng& g = c.g; size_t m = dim(g), n = dim(g); DMt u = zeros(m, m); int q = int(g.below(6)); bool big = m > 9; for (size_t i = 0; i < m; i++) for (size_t j = i; j < m; j++) u[i][j] = i == j ? (g.chance(1, 3) ? -1 : 1) : g.chance(q, 5) ? (big ? (g.chance(1, 6) ? 1 : 0) : g.range(-2, 2)) : 0; DMt x = zeros(m, n), b = x; for (auto& r : x) for (auto& v : r) if (g.chance(1, 2)) v = g.range(-2, 2); for (size_t i = 0; i < m; i++) for (size_t k = 0; k < m; k++) for (size_t j = 0; j < n; j++) b[i][j] += u[i][k] * x[k][j]; c.in("U=" + show(u) + " B=" + show(b)); if (m > 1 && n) c.nontrivial(); C U = mk(g, u, m, m, true, false, false), B = mk(g, b, m, n, true), S = mk(g, rnd(g, 3, 2), 3, 2, true); trilu(U, B, S); same(S, x, m, n, "upper triangular solve"); }
// boundary matrices of complexes
TEST(boundary, 600, "boundary_csc") { Rng& g = c.g; size_t nv = 2 + g.below(6); int t = int(g.below(3)); auto go = [&](const auto& X) { for (size_t k = 1; k <= X.maxdim(); k++) { auto B = X.boundary_csc(k); DMt d = zeros(X.ncells(k - 1), X.ncells(k)); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < X.ncells(k); j++) d[i][j] = B.getval(i, j); same(B, d, X.ncells(k - 1), X.ncells(k), "boundary"); for (size_t j = 0; j < X.ncells(k); j++) { int nz = 0; for (size_t i = 0; i < d.size(); i++) nz += d[i][j] != 0; CHECK(nz == int(B.get_colptr()[j + 1] - B.get_colptr()[j]), "stored zero"); } if (k > 1) { auto P = X.boundary_csc(k - 1) * B; same(P, zeros(X.ncells(k - 2), X.ncells(k)), X.ncells(k - 2), X.ncells(k), "boundary of boundary"); } } };
  std::string lg; if (t == 0) { bats::CubicalComplex X(3); for (int i = 0; i < 3; i++) { std::vector<size_t> s; for (int q = 0; q < 3; q++) { size_t a = g.below(2); s.push_back(a); s.push_back(a + g.below(2)); } lg += show(s); X.add_recursive(s); } c.in(lg); c.nontrivial(); go(X); } else { bats::SimplicialComplex X(nv, 3); bats::LightSimplicialComplex<size_t> Y(nv, 3); for (int i = 0; i < 3; i++) { std::set<size_t> s; for (int q = 0; q < 4; q++) s.insert(g.below(nv)); std::vector<size_t> v(s.begin(), s.end()); lg += show(v); X.add_recursive(v); Y.add_recursive(v); } c.in(lg); c.nontrivial(); if (t == 1) go(X); else go(Y); } }
