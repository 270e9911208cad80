// reduced complexes of every kind seen through one interface, with the dense oracle
#pragma once
#include "cpx.hpp"
#include <bats.hpp>
// graded complex as a list of dense maps into a common shape: dim n_k, in(k): map into dim k, out(k): map out of dim k
template <class F> struct GC { using M = Mat<F>; std::vector<size_t> n; std::vector<M> out, in; std::string str() const { std::string s; for (size_t k = 0; k < n.size(); k++) s += " out" + std::to_string(k) + "=" + out[k].str(); return s; }
  size_t betti(size_t k) const { return n[k] - out[k].rank() - in[k].rank(); }
  static GC chain(const DC<F>& C) { GC g; for (size_t k = 0; k < C.B.size(); k++) { g.n.push_back(C.dim(k)); g.out.push_back(C.B[k]); g.in.push_back(k + 1 < C.B.size() ? C.B[k + 1] : M(C.dim(k), 0)); } return g; }
  // cochains: out(k) = B_{k+1}^T, in(k) = B_k^T
  static GC cochain(const DC<F>& C) { GC g; for (size_t k = 0; k < C.B.size(); k++) { g.n.push_back(C.dim(k)); g.out.push_back(k + 1 < C.B.size() ? C.B[k + 1].t() : M(0, C.dim(k))); g.in.push_back(C.B[k].t()); } return g; }
  GC permuted(const std::vector<std::vector<size_t>>& p, int deg) const {   // new basis element i is the old p[k][i]
    GC g(*this); for (size_t k = 0; k < n.size(); k++) { auto ident = [](size_t m) { std::vector<size_t> v(m); for (size_t i = 0; i < m; i++) v[i] = i; return v; };
      bool hn = deg < 0 ? k > 0 : k + 1 < n.size(); size_t kn = deg < 0 ? k - 1 : k + 1; bool hp = deg < 0 ? k + 1 < n.size() : k > 0; size_t kp = deg < 0 ? k + 1 : k - 1;
      g.out[k] = out[k].sub(hn ? p[kn] : ident(out[k].m), p[k]); g.in[k] = in[k].sub(p[k], hp ? p[kp] : ident(in[k].n)); } return g; } };
inline std::vector<size_t> rndperm(Rng& g, size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; int st = int(g.below(5)); if (st == 0) return p; if (st == 1) { std::reverse(p.begin(), p.end()); return p; } if (st == 2 && n > 1) { size_t a = g.below(n); std::rotate(p.begin(), p.begin() + a, p.end()); return p; } if (st == 3 && n > 1) { std::swap(p[g.below(n)], p[g.below(n)]); return p; } for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); return p; }
template <class F> struct MK { using C = CM<F>; using M = Mat<F>;
  static bats::ChainComplex<C> chain(const DC<F>& D) { std::vector<C> b; for (auto& m : D.B) b.push_back(m.mk()); return bats::ChainComplex<C>(b); }
  static bats::CochainComplex<C> cochain(const DC<F>& D) { std::vector<C> b; std::vector<size_t> d; for (auto& m : D.B) { b.push_back(m.t().mk()); d.push_back(m.n); } return bats::CochainComplex<C>(d, b); }
  // aug: 1 x n0 (or 0 x n0)
  static bats::DGVectorSpace<C> dg(const DC<F>& D, int deg, const M& aug) { std::vector<C> b; size_t n0 = D.dim(0), nd = D.B.back().n; if (deg < 0) { b.push_back(aug.mk()); for (size_t k = 1; k < D.B.size(); k++) b.push_back(D.B[k].mk()); b.push_back(M(nd, 0).mk()); } else { b.push_back(aug.t().mk()); for (size_t k = 1; k < D.B.size(); k++) b.push_back(D.B[k].t().mk()); b.push_back(M(0, nd).mk()); } (void)n0; return bats::DGVectorSpace<C>(b, deg); }
  static GC<F> dgc(const DC<F>& D, int deg, const M& aug) { GC<F> g = deg < 0 ? GC<F>::chain(D) : GC<F>::cochain(D); if (deg < 0) g.out[0] = aug; else g.in[0] = aug.t(); return g; }
  // rows that vanish on the image of B1: a valid augmentation
  static M augm(Rng& g, const DC<F>& D) { if (g.chance(1, 2)) return M(0, D.dim(0)); if (D.B.size() < 2) return M::random(g, 1, D.dim(0)); M K = kernel(D.B[1].t()); M x(K.n, 1); for (size_t i = 0; i < K.n; i++) x(i, 0) = g.chance(1, 2) ? O<F>::one() : O<F>::zero(); return (K * x).t(); } };
// adaptor: kind 0 chain, 1 cochain, 2 dg
template <class F> struct AdC { using RT = bats::ReducedChainComplex<CM<F>>; static constexpr int kind = 0; RT& r; size_t hd(size_t k) { return r.hdim(k); } const std::vector<size_t>& I(size_t k) { return r.I[k]; } CM<F> U(size_t k) { return r.U[k]; } bool hasU() { return !r.U.empty(); } CM<F>* Rout(size_t k) { return &r.R[k]; } CM<F>* Rin(size_t k) { return k < r.maxdim() ? &r.R[k + 1] : nullptr; } const std::vector<size_t>* pin(size_t k) { return k < r.maxdim() ? &r.p2c[k + 1] : nullptr; } size_t maxdim() { return r.maxdim(); } };
template <class F> struct AdD { using RT = bats::ReducedDGVectorSpace<CM<F>>; static constexpr int kind = 2; RT& r; size_t of() { return r.degree == -1 ? 0 : 1; } size_t hd(size_t k) { CHECK(r.betti(k) == r.hdim(k), "betti vs hdim"); return r.hdim(k); } const std::vector<size_t>& I(size_t k) { return r.I[k + of()]; } CM<F> U(size_t k) { return r.U[k + of()]; } bool hasU() { return !r.U.empty(); } CM<F>* Rout(size_t k) { return &r.R[k + of()]; } CM<F>* Rin(size_t k) { return of() ? &r.R[k] : &r.R[k + 1]; } const std::vector<size_t>* pin(size_t k) { return of() ? &r.p2c[k] : &r.p2c[k + 1]; } size_t maxdim() { return r.maxdim(); } };
template <class F> struct AdH { using RT = bats::ReducedCochainComplex<CM<F>>; static constexpr int kind = 1; RT& r; size_t hd(size_t k) { return r.hdim(k); } const std::vector<size_t>& I(size_t k) { return r.I[k]; } CM<F> U(size_t k) { return k < r.maxdim() ? r.U[k + 1] : CM<F>::identity(r.R[k].nrow()); } bool hasU() { return !r.U.empty(); } CM<F>* Rout(size_t k) { return k < r.maxdim() ? &r.R[k + 1] : nullptr; } CM<F>* Rin(size_t k) { return &r.R[k]; } const std::vector<size_t>* pin(size_t k) { return &r.p2c[k]; } size_t maxdim() { return r.maxdim(); } };
template <class F, class A> struct HomCheck { using M = Mat<F>; using o = O<F>; using V = Vec<F>; using P = Ops<F>;
  // Betti numbers, pivots, indices, basis against the dense complex
  static void pivots(A a, const GC<F>& G, const std::string& w, bool compressed = false) {
    CHECK(a.maxdim() + 1 == G.n.size(), w << ": maxdim " << a.maxdim());
    for (size_t k = 0; k < G.n.size(); k++) { std::string q = w + " dim " + std::to_string(k);
      CHECK(a.hd(k) == G.betti(k), q << ": Betti number " << a.hd(k) << " expected " << G.betti(k));
      auto pp = plain_pivots(G.in[k]); if (auto* p = a.pin(k)) { CHECK(p->size() == pp.size(), q << ": pivot table size " << p->size()); for (size_t i = 0; i < pp.size(); i++) CHECK((pp[i] < 0 ? bats::NO_IND : size_t(pp[i])) == (*p)[i], q << ": pivot pairing differs from plain reduction at row " << i << ": " << (*p)[i] << " expected " << pp[i]); }
      auto po = plain_pivots(G.out[k]); std::vector<bool> nzc(G.n[k], false); for (auto j : po) if (j >= 0) nzc[j] = true; std::vector<size_t> e; for (size_t j = 0; j < G.n[k]; j++) if (!nzc[j] && pp[j] < 0) e.push_back(j);
      CHECK(a.I(k) == e, q << ": homology indices " << show(a.I(k)) << " expected " << show(e));
      if (auto* R = a.Rout(k)) { M r = M::of(*R, "R"); CHECK(r.m == G.out[k].m && r.n == G.n[k], q << ": dimensions of the reduced matrix"); for (size_t j = 0; j < r.n; j++) CHECK((r.piv(j) >= 0) == nzc[j], q << ": column " << j << " zero?");
        if (a.hasU()) { M u = M::of(a.U(k), "U"); CHECK(u.m == G.n[k] && u.n == G.n[k] && u.upper() && u.diag_inv(), q << ": basis not invertible upper triangular"); CHECK(G.out[k] * u == r, q << ": boundary times basis is not the reduced matrix"); } } } }
  // representatives and classes
  static void reps(A a, const GC<F>& G, Rng& g, const std::string& w) {
    for (size_t k = 0; k < G.n.size(); k++) { std::string q = w + " dim " + std::to_string(k); size_t b = G.betti(k), n = G.n[k]; CHECK(a.hd(k) == b, q << ": Betti number " << a.hd(k) << " expected " << b);
      M X(n, b); for (size_t j = 0; j < b; j++) X.setcol(j, P::to(a.r.get_preferred_representative(j, k), n, "representative"));
      CHECK((G.out[k] * X).zero(), q << ": a representative is not a cycle: " << X.str()); CHECK(hcat(G.in[k], X).rank() == G.in[k].rank() + b, q << ": representatives dependent modulo boundaries " << X.str());
      M K = kernel(G.out[k]); for (int t = 0; t < 3; t++) { V z(n, o::zero()); bool bd = t == 2; const M& S = bd ? G.in[k] : K; for (size_t j = 0; j < S.n; j++) if (g.chance(1, 2)) z = P::axpy(g.chance(1, 2) ? o::one() : o::neg(o::one()), S.col(j), z);
        auto zc = P::mk(z); V c = P::to(a.r.chain_preferred_representative(zc, k), n, "chain_preferred_representative", false); V df = P::axpy(o::neg(o::one()), c, z); CHECK(inspan(G.in[k], colmat<F>(df)), q << ": preferred representative of " << show(z) << " is " << show(c) << ", not homologous"); CHECK(inspan(X, colmat<F>(c)), q << ": preferred representative " << show(c) << " is not a combination of the representatives"); if (bd) CHECK(c == V(n, o::zero()), q << ": a boundary must have preferred representative 0");
        auto y = a.r.to_hom_basis(zc, k); auto back = a.r.from_hom_basis(y, k); P::same(back, z, "from_hom_basis(to_hom_basis)", false); a.r.find_preferred_representative(y, k); V yd = P::to(y, n, "find_preferred_representative", false); std::vector<bool> in(n, false); for (auto i : a.I(k)) in[i] = true; for (size_t i = 0; i < n; i++) CHECK(in[i] || yd[i] == o::zero(), q << ": preferred representative in the homology basis has an entry at " << i << " outside the homology indices");
        V e(n, o::zero()); for (size_t j = 0; j < b; j++) e = P::axpy(yd[a.I(k)[j]], X.col(j), e); CHECK(e == c, q << ": coordinates do not give the preferred representative"); }
      V x = P::rvd(g, n); auto xc = P::mk(x); P::same(a.r.from_hom_basis(a.r.to_hom_basis(xc, k), k), x, "round trip", false);
      { M T = M::random(g, n, 1 + g.below(3)); if (o::name() != "Q") M::same(a.r.from_hom_basis(a.r.to_hom_basis(T.mk(), k), k), T, "matrix round trip", false); } } } };
