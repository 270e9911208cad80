// P09: Betti numbers and pivots do not depend on options
#include "hom.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>;
  template <class RT, class A, class CT> static void opts(const CT& c, const GC<F>& G, const std::string& w) {
    auto go = [&](RT r, const char* n) { HomCheck<F, A>::pivots(A{r}, G, w + " " + n); };
    using namespace bats; standard_reduction_flag s; extra_reduction_flag x; clearing_flag cl; compression_flag cp; compute_basis_flag b;
    go(RT(c), "default"); go(RT(c, s), "standard"); go(RT(c, x), "extra"); go(RT(c, s, b), "standard,basis"); go(RT(c, x, b), "extra,basis"); go(RT(c, s, cl), "standard,clearing"); go(RT(c, x, cl), "extra,clearing"); go(RT(c, s, cp), "standard,compression"); go(RT(c, x, cp), "extra,compression");
    if constexpr (A::kind != 1) { go(RT(c, s, cl, b), "standard,clearing,basis"); go(RT(c, x, cl, b), "extra,clearing,basis"); }
    if constexpr (A::kind == 0) { go(RT(c, s, cp, b), "standard,compression,basis"); go(RT(c, x, cp, b), "extra,compression,basis"); go(RT(c, divide_conquer_flag()), "divide conquer"); go(Reduce(c), "Reduce"); }
  }
  static void all(Ctx& c, const DC<F>& D) { Rng& g = c.g; M aug = MK<F>::augm(g, D); c.in(o::name() + D.str() + " augmentation " + aug.str()); if (D.dim(0) > 1) c.nontrivial();
    for (size_t k = 1; k + 1 < D.B.size(); k++) CHECK((D.B[k] * D.B[k + 1]).zero(), "generator");
    auto cc = MK<F>::chain(D); CHECK(cc.is_valid_complex(), "is_valid_complex"); CHECK(cc.maxdim() == D.maxdim(), "maxdim"); for (size_t k = 0; k < D.B.size(); k++) CHECK(cc.dim(k) == D.dim(k), "dim");
    opts<bats::ReducedChainComplex<C>, AdC<F>>(cc, GC<F>::chain(D), "chain");
    opts<bats::ReducedCochainComplex<C>, AdH<F>>(MK<F>::cochain(D), GC<F>::cochain(D), "cochain");
    // a coboundary into dimension 0: one column vanishing under the next coboundary
    { M a1 = aug.m ? aug : M(1, D.dim(0)); std::vector<C> b; std::vector<size_t> d; for (size_t k = 0; k < D.B.size(); k++) { b.push_back((k ? D.B[k] : a1).t().mk()); d.push_back(D.B[k].n); } auto G = GC<F>::cochain(D); G.in[0] = a1.t(); opts<bats::ReducedCochainComplex<C>, AdH<F>>(bats::CochainComplex<C>(d, b), G, "augmented cochain"); }
    for (int deg : {-1, 1}) opts<bats::ReducedDGVectorSpace<C>, AdD<F>>(MK<F>::dg(D, deg, aug), MK<F>::dgc(D, deg, aug), deg < 0 ? "dg-1" : "dg+1");
    // differentials given without a map above the top: the top dimension has no boundaries
    if (D.B.size() >= 2) { std::vector<C> d{aug.mk()}; for (size_t k = 1; k < D.B.size(); k++) d.push_back(D.B[k].mk()); bats::ReducedDGVectorSpace<C> r(bats::DGVectorSpace<C>(d, -1)); size_t top = D.B.size() - 1; for (size_t k = 0; k <= top; k++) { size_t z = D.dim(k) - (k ? D.B[k] : aug).rank(), b = k < top ? D.B[k + 1].rank() : 0; CHECK(r.hdim(k) == z - b, "degree -1 without a top map: dimension " << k << " has " << r.hdim(k) << " expected " << z - b); } auto pp = plain_pivots(D.B[top]); std::set<size_t> nz; for (auto j : pp) if (j >= 0) nz.insert(j); std::vector<size_t> e; for (size_t j = 0; j < D.dim(top); j++) if (!nz.count(j)) e.push_back(j); CHECK(r.I[top] == e, "degree -1 without a top map: top indices " << show(r.I[top]) << " expected " << show(e)); }
    // Betti numbers agree between homology and cohomology
    bats::ReducedChainComplex<C> rc(cc); auto hc = MK<F>::cochain(D); bats::ReducedCochainComplex<C> rh(hc); for (size_t k = 0; k < D.B.size(); k++) CHECK(rc.hdim(k) == D.betti(k) && rh.hdim(k) == D.betti(k), "homology and cohomology Betti numbers");
  }
  static void rnd(Ctx& c) { all(c, random_complex<F>(c.g, 3, o::name() == "Q" ? 5 : 9)); }
  // complexes of simplicial complexes, through the library's own constructors
  static void simp(Ctx& c) { Rng& g = c.g; size_t nv = 1 + g.below(6), md = g.below(4); std::vector<std::set<std::vector<size_t>>> S(md + 1); bats::SimplicialComplex X(nv, md); std::string in = o::name() + " simplices";
    size_t m = 1 + g.below(7); for (size_t t = 0; t < m; t++) { std::set<size_t> s; size_t d = g.below(std::min(md + 1, nv)); while (s.size() < d + 1) s.insert(g.below(nv)); std::vector<size_t> v(s.begin(), s.end()); in += " " + show(v); X.add_recursive(v);
      for (size_t mask = 1; mask < (size_t(1) << v.size()); mask++) { std::vector<size_t> f; for (size_t i = 0; i < v.size(); i++) if (mask >> i & 1) f.push_back(v[i]); S[f.size() - 1].insert(f); } }
    c.in(in); while (S.size() > 1 && S.back().empty()) S.pop_back(); if (S[0].size() > 1) c.nontrivial();
    DC<F> D; size_t dims = X.maxdim() + 1; std::vector<std::vector<std::vector<size_t>>> L(dims); for (size_t k = 0; k < dims; k++) { for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_simplex(k, i); L[k].push_back(std::vector<size_t>(s.begin(), s.end())); } size_t want = k < S.size() ? S[k].size() : 0; CHECK(L[k].size() == want, "cells in dimension " << k << ": " << L[k].size() << " expected " << want); }
    for (size_t k = 0; k < dims; k++) { M B(k ? L[k - 1].size() : 1, L[k].size()); if (k) for (size_t j = 0; j < L[k].size(); j++) for (size_t t = 0; t <= k; t++) { auto f = L[k][j]; f.erase(f.begin() + t); auto it = std::find(L[k - 1].begin(), L[k - 1].end(), f); CHECK(it != L[k - 1].end(), "face missing"); B(it - L[k - 1].begin(), j) = t % 2 ? o::neg(o::one()) : o::one(); } D.B.push_back(B); }
    bats::ChainComplex<C> cc(X); for (size_t k = 0; k < dims; k++) { M got = M::of(cc[k], "boundary matrix"), neg = D.B[k]; for (auto& r : neg.a) for (auto& v : r) v = o::neg(v); if (got == neg) D.B[k] = neg; M::same(cc[k], D.B[k], "boundary matrix (up to one sign per dimension)"); } opts<bats::ReducedChainComplex<C>, AdC<F>>(cc, GC<F>::chain(D), "chain of complex");
    { auto r = bats::Reduce(X, F(), bats::standard_reduction_flag(), bats::clearing_flag(), bats::compute_basis_flag()); HomCheck<F, AdC<F>>::pivots(AdC<F>{r}, GC<F>::chain(D), "Reduce"); auto r2 = bats::Reduce(X, F()); HomCheck<F, AdC<F>>::pivots(AdC<F>{r2}, GC<F>::chain(D), "Reduce"); }
    opts<bats::ReducedCochainComplex<C>, AdH<F>>(bats::CochainComplex<C>(X), GC<F>::cochain(D), "cochain of complex"); { auto r = bats::__ReducedCochainComplex(X, F(), bats::extra_reduction_flag()); HomCheck<F, AdH<F>>::pivots(AdH<F>{r}, GC<F>::cochain(D), "__ReducedCochainComplex"); }
    for (int deg : {-1, 1}) for (int au : {0, 1}) { M aug(au, D.dim(0)); if (au) for (size_t i = 0; i < D.dim(0); i++) aug(0, i) = o::one(); bats::DGVectorSpace<C> dg(X, deg, au); for (size_t k = 1; k <= D.maxdim(); k++) CHECK(dg.is_differential(k), "is_differential"); opts<bats::ReducedDGVectorSpace<C>, AdD<F>>(dg, MK<F>::dgc(D, deg, aug), "dg of complex"); }
  }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(rnd, 1500, "ReducedChainComplex ReducedCochainComplex ReducedDGVectorSpace (all constructors) set_indices")
TT(simp, 900, "ChainComplex(X) CochainComplex(X) DGVectorSpace(X) Reduce")
