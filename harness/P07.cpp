// P07: factorizations multiply back to the input, factors have the advertised shape
#include "mat.hpp"
#include <linalg/sparse_fact.hpp>
#include <linalg/naive_dense.hpp>
template <class F> struct TF {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using P = Ops<F>; using M = Mat<F>; using C = CM<F>;
  static M from(const C& a, size_t m, size_t n, const char* what) { CHECK(a.nrow() == m && a.ncol() == n, what << " has dimensions " << a.nrow() << "x" << a.ncol() << ", expected " << m << "x" << n); return M::of(a, what); }
  static void facts(Ctx& c, const M& A) {
    size_t m = A.m, n = A.n; c.in(o::name() + " A=" + A.str()); if (m * n > 1) c.nontrivial(); const C a = A.mk(); size_t rk = A.rank();
    auto shapes = [&](const SparseFact<SV_<F>>& f, const char* w, size_t lm, size_t pm, bool perm) {
      size_t un = lm == m ? n : m; M L = from(f.L, lm, lm, w), E = from(f.E, m, n, w), U = from(f.U, un, un, w);
      CHECK(L.lower() && L.diag_inv(), w << ": L is not invertible lower triangular: " << L.str()); CHECK(U.upper() && U.diag_inv(), w << ": U is not invertible upper triangular: " << U.str()); CHECK(E.pivot(), w << ": E is not a pivot matrix: " << E.str());
      size_t nz = 0; for (size_t j = 0; j < n; j++) nz += E.piv(j) >= 0; CHECK(nz == rk, w << ": E has rank " << nz << ", A has rank " << rk);
      M Pm(0, 0); if (perm) { Pm = from(f.P, pm, pm, w); CHECK(Pm.perm(), w << ": P is not a permutation: " << Pm.str()); }
      return std::make_tuple(L, E, U, Pm); };
    { auto f = LEUP(a); auto [L, E, U, Q] = shapes(f, "LEUP", m, n, true); CHECK(E.EL(), "LEUP: E shape " << E.str()); CHECK(L * E * U * Q == A, "LEUP: L E U P = " << (L * E * U * Q).str()); M::same(f.LEUP_prod(), A, "LEUP_prod"); }
    { auto f = PLEU(a); auto [L, E, U, Q] = shapes(f, "PLEU", m, m, true); CHECK(E.EU(), "PLEU: E shape " << E.str()); CHECK(Q * L * E * U == A, "PLEU: P L E U = " << (Q * L * E * U).str()); M::same(f.PLEU_prod(), A, "PLEU_prod"); }
    { auto f = UELP(a); auto [L, E, U, Q] = shapes(f, "UELP", n, n, true); CHECK(E.EUhat(), "UELP: E shape " << E.str()); CHECK(U * E * L * Q == A, "UELP: U E L P = " << (U * E * L * Q).str()); M::same(f.UELP_prod(), A, "UELP_prod"); }
    { auto f = PUEL(a); auto [L, E, U, Q] = shapes(f, "PUEL", n, m, true); CHECK(E.ELhat(), "PUEL: E shape " << E.str()); CHECK(Q * U * E * L == A, "PUEL: P U E L = " << (Q * U * E * L).str()); M::same(f.PUEL_prod(), A, "PUEL_prod"); }
    { auto f = LQU(a); auto [L, E, U, Q] = shapes(f, "LQU", m, 0, false); CHECK(L * E * U == A, "LQU: L Q U = " << (L * E * U).str()); M::same(f.LQU_prod(), A, "LQU_prod"); }
    { auto f = UQL(a); auto [L, E, U, Q] = shapes(f, "UQL", n, 0, false); CHECK(U * E * L == A, "UQL: U Q L = " << (U * E * L).str()); M::same(f.UQL_prod(), A, "UQL_prod"); }
    { C cc = a; C u = C::identity(n); CU_inplace(cc, u); M Cm = from(cc, m, n, "CU C"), Um = from(u, n, n, "CU U"); CHECK(Um.upper() && Um.diag_inv(), "CU: U shape " << Um.str()); std::set<size_t> rows; for (size_t j = 0; j < n; j++) { long r = -1; for (size_t i = 0; i < m && r < 0; i++) if (Cm(i, j) != o::zero()) r = long(i); if (r >= 0) CHECK(rows.insert(r).second, "CU: two columns of C share their first nonzero row " << Cm.str()); } CHECK(A * Um == Cm, "CU_inplace: A U != C: " << Cm.str()); }
    if (m == n && rk == n) { C i = inv(a); M I = from(i, n, n, "inv"); CHECK(I * A == M::id(n) && A * I == M::id(n), "inv(A) = " << I.str()); }
    M::same(a, A, "A unchanged");
  }
  static size_t qd(Rng& g) { size_t d = P::sdim(g); return o::name() == "Q" ? std::min(d, size_t(4)) : d; }   // keep rationals within machine range
  static void rnd(Ctx& c) { Rng& g = c.g; size_t m = qd(g), n = g.chance(1, 3) ? m : qd(g); M A = M::random(g, m, n); if (m && n && g.chance(1, 3)) { size_t r = g.below(std::min(m, n) + 1); A = M::random(g, m, r) * M::random(g, r, n); } facts(c, A); }
  static M rEL(Rng& g, size_t m, size_t n) { M E(m, n); size_t r = 0; for (size_t j = 0; j < n; j++) { while (r < m && g.chance(1, 3)) r++; if (r >= m || g.chance(1, 6)) break; E(r, j) = o::one(); r++; } return E; }
  static void comm(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = P::sdim(g); M E = rEL(g, m, n); if (g.chance(1, 2)) for (auto& r : E.a) for (auto& x : r) if (x != o::zero()) x = o::rndnz(g);
    M Ln = M::triangular(g, n, false), Lm = M::triangular(g, m, false);
    c.in(o::name() + " EL=" + E.str() + " L=" + Ln.str() + " Lm=" + Lm.str()); if (m * n > 1) c.nontrivial();
    { C e = E.mk(), l = Ln.mk(); M X = from(EL_L_commute(e, l), m, m, "EL_L_commute"); CHECK(X.lower() && X.diag_inv(), "EL_L_commute shape " << X.str()); CHECK(X * E == E * Ln, "EL_L_commute: " << X.str()); M::same(e, E, "E unchanged"); M::same(l, Ln, "L unchanged"); }
    { M Eh = E.rev().t(); M L = Lm.rev().t(); L = M::triangular(g, m, false); C e = Eh.mk(); /* n x m */ CHECK(Eh.ELhat(), "generator"); M Ls = M::triangular(g, n, false); C l = Ls.mk(); M X = from(L_EL_commute(l, e), m, m, "L_EL_commute"); CHECK(X.lower() && X.diag_inv(), "L_EL_commute shape " << X.str()); CHECK(Ls * Eh == Eh * X, "L_EL_commute: " << X.str()); }
    { M Eu = E.t(); /* n x m, EU */ M U = M::triangular(g, n, true); C e = Eu.mk(), u = U.mk(); M X = from(U_EU_commute(u, e), m, m, "U_EU_commute"); CHECK(X.upper() && X.diag_inv(), "U_EU_commute shape " << X.str()); CHECK(U * Eu == Eu * X, "U_EU_commute: " << X.str()); }
    { M Eu = E.rev(); /* m x n EUhat */ M U = M::triangular(g, n, true); C e = Eu.mk(), u = U.mk(); M X = from(EU_U_commute(e, u), m, m, "EU_U_commute"); CHECK(X.upper() && X.diag_inv(), "EU_U_commute shape " << X.str()); CHECK(Eu * U == X * Eu, "EU_U_commute: " << X.str()); }
  }
  template <class D> static M ofd(const D& d) { M r(d.nrow(), d.ncol()); for (size_t i = 0; i < r.m; i++) for (size_t j = 0; j < r.n; j++) r(i, j) = o::to(d(int(i), int(j))); return r; }
  template <class Acc> static void dense_(const M& A) {
    using D = ::A<Dense<F, Acc>>; size_t m = A.m, n = A.n; D a(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) a(int(i), int(j)) = o::mk(A(i, j));
    { auto [l, e, u, p] = LEUP_fact(a); M L = ofd(l), E = ofd(e), U = ofd(u), Q = ofd(p); CHECK(L.lower() && L.diag_inv() && U.upper() && U.diag_inv() && Q.perm() && E.EL(), "dense LEUP shapes"); CHECK(L * E * U * Q == A, "dense LEUP product " << (L * E * U * Q).str()); }
    { auto [p, l, e, u] = PLEU_fact(a); M L = ofd(l), E = ofd(e), U = ofd(u), Q = ofd(p); CHECK(L.lower() && L.diag_inv() && U.upper() && U.diag_inv() && Q.perm() && E.EU(), "dense PLEU shapes"); CHECK(Q * L * E * U == A, "dense PLEU product"); }
    { auto [u, e, l, p] = UELP_fact(a); M L = ofd(l), E = ofd(e), U = ofd(u), Q = ofd(p); CHECK(L.lower() && L.diag_inv() && U.upper() && U.diag_inv() && Q.perm() && E.EUhat(), "dense UELP shapes"); CHECK(U * E * L * Q == A, "dense UELP product"); }
    { auto [p, u, e, l] = PUEL_fact(a); M L = ofd(l), E = ofd(e), U = ofd(u), Q = ofd(p); CHECK(L.lower() && L.diag_inv() && U.upper() && U.diag_inv() && Q.perm() && E.ELhat(), "dense PUEL shapes"); CHECK(Q * U * E * L == A, "dense PUEL product"); }
    CHECK(ofd(a) == A, "dense input changed");
  }
  static void dense(Ctx& c) { Rng& g = c.g; size_t m = 1 + qd(g), n = 1 + qd(g); M A = M::random(g, m, n); c.in(o::name() + " dense A=" + A.str()); c.nontrivial(); if (g.chance(1, 2)) dense_<ColMaj>(A); else dense_<RowMaj>(A);
    M E = rEL(g, m, n), Ln = M::triangular(g, n, false); ::EL<Dense<F, ColMaj>> e(m, n); ::L<Dense<F, ColMaj>> l(n, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(int(i), int(j)) = o::mk(E(i, j)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) l(int(i), int(j)) = o::mk(Ln(i, j));
    { M X = ofd(commute(e, l)); CHECK(X.lower() && X.diag_inv() && X * E == E * Ln, "dense commute E=" << E.str() << " L=" << Ln.str() << " X=" << X.str()); }
    M B = M::random(g, n, m); ::A<Dense<F, ColMaj>> b(n, m); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) b(int(i), int(j)) = o::mk(B(i, j)); { auto x = apply_inverse_on_left(l, b); CHECK(Ln * ofd(x) == B, "apply_inverse_on_left"); }
    M B2 = M::random(g, m, n); ::A<Dense<F, ColMaj>> b2(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) b2(int(i), int(j)) = o::mk(B2(i, j)); { auto x = apply_inverse_on_right(b2, l); CHECK(ofd(x) * Ln == B2, "apply_inverse_on_right"); } }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(rnd, 9000, "LEUP PLEU UELP PUEL LQU UQL CU_inplace inv")
TT(comm, 6000, "EL_L_commute L_EL_commute U_EU_commute EU_U_commute")
TT(dense, 3000, "LEUP_fact PLEU_fact UELP_fact PUEL_fact commute apply_inverse_on_left")
// every 3x3, 2x4, 4x2 matrix over Z/3 (sampled) and all 0/1 4x4 over Z/2 slices
TEST(exhaustive, 400, "LEUP PLEU UELP PUEL LQU UQL") {
  static const size_t S[3][2] = {{3, 3}, {2, 4}, {4, 2}};
  for (size_t t = 0; t < 25; t++) { size_t k = c.k * 25 + t; { auto s = S[k % 3]; using F = ModP<int, 3>; Mat<F> A(s[0], s[1]); size_t x = (k / 3) * 2654435761u % 19683; for (auto& r : A.a) for (auto& v : r) { v = int(x % 3); x /= 3; } TF<F>::facts(c, A); }
    { using F = ModP<int, 2>; Mat<F> A(3, 3); size_t x = k % 512; for (auto& r : A.a) for (auto& v : r) { v = int(x & 1); x >>= 1; } TF<F>::facts(c, A); } } }
