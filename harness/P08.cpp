// P08: column reduction invariants
#include "cpx.hpp"
#include <homology/reduction.hpp>
#include <homology/parallel.hpp>
template <class F> struct TF {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using P = Ops<F>; using M = Mat<F>; using C = CM<F>; using Pv = std::vector<size_t>;
  // invariants of a reduced matrix A -> r with pivot table p
  static void reduced(const M& A, const M& r, const Pv& p, const std::string& w, bool spans = true) {
    CHECK(p.size() == A.m, w << ": pivot table has " << p.size() << " rows, matrix " << A.m); std::vector<long> q(A.m, -1);
    for (size_t j = 0; j < A.n; j++) { long i = r.piv(j); if (i >= 0) { CHECK(q[i] < 0, w << ": columns " << q[i] << " and " << j << " share the pivot row " << i << " in " << r.str()); q[i] = long(j); } }
    for (size_t i = 0; i < A.m; i++) CHECK(q[i] < 0 ? p[i] == bats::NO_IND : p[i] == size_t(q[i]), w << ": pivot table " << show(p) << " does not describe " << r.str());
    if (spans) { CHECK(plain_pivots(A) == q, w << ": pivots differ from plain reduction: " << r.str()); for (size_t j = 1; j <= A.n; j++) { if (A.n > 6 && j != A.n && j % 3) continue; M a = lead(A, j), b = lead(r, j); CHECK(inspan(a, b) && inspan(b, a), w << ": leading " << j << " columns span a different space, " << r.str()); } } }
  static void basis(const M& A, const M& r, const M& U, const std::string& w) { CHECK(U.m == A.n && U.n == A.n, w << ": basis dimensions"); CHECK(U.upper() && U.diag_inv(), w << ": basis not invertible upper triangular " << U.str()); CHECK(A * U == r, w << ": A*U = " << (A * U).str() << " but reduced matrix is " << r.str()); }
  static M lib(const C& a, const char* w) { return M::of(a, w); }
  template <class Fl> static void one(const M& A, Fl fl, const char* w) {
    { C a = A.mk(); Pv p = bats::reduce_matrix(a, fl); reduced(A, lib(a, w), p, std::string(w)); }
    { C a = A.mk(), u = C::identity(A.n); Pv p = bats::reduce_matrix(a, u, fl); M r = lib(a, w); reduced(A, r, p, std::string(w) + "+basis"); basis(A, r, lib(u, w), w); } }
  static void all(Ctx& c, const M& A) {
    Rng& g = c.g; c.in(o::name() + " A=" + A.str()); if (A.m * A.n > 1) c.nontrivial();
    one(A, bats::standard_reduction_flag(), "standard"); one(A, bats::extra_reduction_flag(), "extra"); one(A, bats::divide_conquer_flag(), "divide_conquer");
    { C a = A.mk(); Pv p = bats::reduce_matrix(a); reduced(A, lib(a, "default"), p, "default"); a = A.mk(); C u = C::identity(A.n); p = bats::reduce_matrix(a, u); reduced(A, lib(a, "default"), p, "default+basis"); basis(A, lib(a, ""), lib(u, ""), "default+basis"); }
    // divide and conquer with small blocks
    { C a = A.mk(), u = C::identity(A.n); size_t bs = 2 + g.below(4); auto [m, nz] = bats::reduce_block_dq(a, u, 0, A.n, bs); Pv p(A.m, bats::NO_IND); for (auto& k : m) p[k.first] = k.second; M r = lib(a, "dq"); reduced(A, r, p, "dq blocks+basis"); basis(A, r, lib(u, "dq"), "dq blocks"); Pv nzr; for (size_t j = 0; j < A.n; j++) if (r.piv(j) >= 0) nzr.push_back(j); CHECK(Pv(nz) == nzr, "dq: nonzero column list " << show(Pv(nz))); }
    { C a = A.mk(); size_t bs = 2 + g.below(4); auto [m, nz] = bats::reduce_block_dq(a, 0, A.n, bs, 0, g.below(4)); Pv p(A.m, bats::NO_IND); for (auto& k : m) p[k.first] = k.second; reduced(A, lib(a, "dq"), p, "dq blocks"); }
    // blocks reduced independently first
    { C a = A.mk(), u = C::identity(A.n); size_t bs = 1 + g.below(5); bats::partial_reduce_parallel(a, u, bs); M h = lib(a, "partial"); basis(A, h, lib(u, "partial"), "partial_reduce_parallel"); Pv p = bats::reduce_matrix(a, u); M r = lib(a, "partial"); reduced(A, r, p, "partial+standard"); basis(A, r, lib(u, "partial"), "partial+standard"); C a2 = A.mk(); bats::partial_reduce_parallel(a2, bs); p = bats::reduce_matrix(a2); reduced(A, lib(a2, "partial"), p, "partial, no basis"); }
    // column at a time
    { C a = A.mk(); std::unordered_map<size_t, size_t> m; typename SV_<F>::tmp_type t; for (size_t j = 0; j < A.n; j++) bats::reduce_column_extra(a, j, m, t); Pv p(A.m, bats::NO_IND); for (auto& k : m) p[k.first] = k.second; reduced(A, lib(a, "col extra"), p, "reduce_column_extra"); }
    { C a = A.mk(), u = C::identity(A.n); std::unordered_map<size_t, size_t> m; typename SV_<F>::tmp_type t; for (size_t j = 0; j < A.n; j++) bats::reduce_column_standard(a, u, j, m, t); Pv p(A.m, bats::NO_IND); for (auto& k : m) p[k.first] = k.second; M r = lib(a, "col"); reduced(A, r, p, "reduce_column_standard"); basis(A, r, lib(u, ""), "reduce_column_standard"); }
    { C a = A.mk(); Pv p(A.m, bats::NO_IND); std::map<F, size_t> cf; typename SV_<F>::tmp_type t; for (size_t j = 0; j < A.n; j++) bats::reduce_column_sparsify(a, j, p, cf, t); reduced(A, lib(a, "sparsify"), p, "reduce_column_sparsify"); }
    // post-processing keeps the invariants
    { C a = A.mk(), u = C::identity(A.n); Pv p = bats::reduce_matrix(a, u); bats::remove_extra_cycles(a, u); M r = lib(a, "x"); reduced(A, r, p, "remove_extra_cycles"); basis(A, r, lib(u, ""), "remove_extra_cycles"); bats::sparsify_basis(a, u); r = lib(a, "x"); reduced(A, r, p, "sparsify_basis"); basis(A, r, lib(u, ""), "sparsify_basis"); }
    { C a = A.mk(), u = C::identity(A.n); Pv p = bats::reduce_matrix(a, u, bats::extra_reduction_flag()); bats::sparsify_basis(a, u); M r = lib(a, "x"); reduced(A, r, p, "extra, sparsify_basis"); basis(A, r, lib(u, ""), "extra, sparsify_basis"); }
    // starting from a non-identity basis: A U0 is given, U0 upper invertible
    { M U0 = M::triangular(g, A.n, true); if (o::name() != "Q" || A.n <= 4) { M B = A * U0; C a = B.mk(), u = U0.mk(); Pv p = bats::reduce_matrix(a, u); M r = lib(a, "U0"); reduced(A, r, p, "starting basis"); basis(A, r, lib(u, ""), "starting basis"); } }
    { C a = A.mk(), u = C::identity(A.n + 1); bool th = false; try { bats::reduce_matrix(a, u); } catch (std::runtime_error&) { th = true; } CHECK(th, "basis with the wrong number of columns must throw"); }
    { C a = A.mk(); Pv p = bats::reduce_matrix(a); Pv cl = bats::get_clearing_inds(p), e; for (size_t i = 0; i < A.m; i++) if (p[i] != bats::NO_IND) e.push_back(i); CHECK(cl == e, "get_clearing_inds " << show(cl)); auto ci = bats::get_compression_inds(a); M r = lib(a, ""); CHECK(ci.size() == A.n, "compression size"); for (size_t j = 0; j < A.n; j++) CHECK(ci[j] == (r.piv(j) >= 0), "get_compression_inds"); Pv z; for (size_t j = 0; j < A.n; j++) if (r.piv(j) < 0) z.push_back(j); CHECK(bats::extract_basis_indices(a) == z, "extract_basis_indices"); }
  }
  static size_t qd(Rng& g) { size_t d = P::sdim(g); return o::name() == "Q" ? std::min(d, size_t(4)) : d; }
  static void rnd(Ctx& c) { Rng& g = c.g; size_t m = qd(g), n = qd(g); M A = M::random(g, m, n); if (m && n && g.chance(1, 3)) { size_t r = g.below(std::min(m, n) + 1); A = M::random(g, m, r) * M::random(g, r, n); } if (g.chance(1, 6)) { for (size_t j = 0; j < n; j++) { for (size_t i = 0; i < m; i++) A(i, j) = o::zero(); if (m && g.chance(4, 5)) A(g.below(m), j) = o::rndnz(g); } } all(c, A); }
  template <class Fl> static void cc(const M& B1, const M& B2, Fl fl, const std::string& w) {
    // clearing: reduce B2 first
    { C b2 = B2.mk(), b1 = B1.mk(); Pv p2 = bats::reduce_matrix(b2, fl); Pv p1 = bats::reduce_matrix_clearing(b1, bats::get_clearing_inds(p2), fl); reduced(B1, lib(b1, ""), p1, w + " clearing"); Pv e; M r1 = lib(b1, ""); for (size_t j = 0; j < B1.n; j++) if (r1.piv(j) < 0 && p2[j] == bats::NO_IND) e.push_back(j); CHECK(bats::extract_basis_indices(b1, p2) == e, "extract_basis_indices"); CHECK(e.size() == B1.n - B1.rank() - B2.rank(), "number of homology indices"); }
    { C b2 = B2.mk(), u2 = C::identity(B2.n), b1 = B1.mk(), u1 = C::identity(B1.n); Pv p2 = bats::reduce_matrix(b2, u2, fl); Pv p1 = bats::reduce_matrix_clearing(b1, u1, b2, p2, fl); M r = lib(b1, ""); reduced(B1, r, p1, w + " clearing+basis"); basis(B1, r, lib(u1, ""), w + " clearing+basis"); }
    // compression: reduce B1 first
    { C b1 = B1.mk(), b2 = B2.mk(); bats::reduce_matrix(b1, fl); auto ci = bats::get_compression_inds(b1); Pv p2 = bats::reduce_matrix_compression(b2, ci, fl); M r = lib(b2, ""); M Z = B2; for (size_t i = 0; i < Z.m; i++) if (ci[i]) for (size_t j = 0; j < Z.n; j++) Z(i, j) = o::zero(); reduced(Z, r, p2, w + " compression"); auto q = plain_pivots(B2); for (size_t i = 0; i < B2.m; i++) CHECK((q[i] < 0 ? bats::NO_IND : size_t(q[i])) == p2[i], w << " compression: pivots differ from plain reduction"); }
    { C b1 = B1.mk(), u1 = C::identity(B1.n), b2 = B2.mk(), u2 = C::identity(B2.n); bats::reduce_matrix(b1, u1, fl); auto ci = bats::get_compression_inds(b1); Pv p2 = bats::reduce_matrix_compression(b2, u2, ci, fl); M r = lib(b2, ""); reduced(B2, r, p2, w + " compression+basis"); basis(B2, r, lib(u2, ""), w + " compression+basis"); }
  }
  static void twist(Ctx& c) { Rng& g = c.g; auto D = random_complex<F>(g, 2, o::name() == "Q" ? 5 : 10); while (D.B.size() < 3) D.B.push_back(M(D.B.back().n, 0)); M B1 = D.B[1], B2 = D.B[2]; c.in(o::name() + " B1=" + B1.str() + " B2=" + B2.str()); if (B1.n > 1) c.nontrivial(); CHECK((B1 * B2).zero(), "generator");
    cc(B1, B2, bats::standard_reduction_flag(), "standard"); cc(B1, B2, bats::extra_reduction_flag(), "extra"); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(rnd, 3000, "reduce_matrix_standard reduce_matrix_extra reduce_block_dq reduce_column sparsify_basis remove_extra_cycles")
TT(twist, 4000, "reduce_matrix_clearing reduce_matrix_compression get_clearing_inds extract_basis_indices")
TEST(exhaustive, 400, "reduce_matrix_*") { for (size_t t = 0; t < 12; t++) { size_t k = c.k * 12 + t; { static const size_t S[3][2] = {{3, 3}, {2, 4}, {4, 2}}; auto s = S[k % 3]; using F = ModP<int, 3>; Mat<F> A(s[0], s[1]); size_t x = (k / 3) * 2654435761u % 19683; for (auto& r : A.a) for (auto& v : r) { v = int(x % 3); x /= 3; } TF<F>::all(c, A); } { using F = ModP<int, 2>; Mat<F> A(3, 4); size_t x = k % 4096; for (auto& r : A.a) for (auto& v : r) { v = int(x & 1); x >>= 1; } TF<F>::all(c, A); } } }
