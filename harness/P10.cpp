// P10: representatives and classes
#include "hom.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using Pv = std::vector<std::vector<size_t>>;
  template <class RT, class A> static void use(RT r, const GC<F>& G, Rng& g, const std::string& w, int deg) { HomCheck<F, A>::reps(A{r}, G, g, w);
    if constexpr (A::kind == 0) { { RT q = r; q.remove_extra_cycles(); HomCheck<F, A>::pivots(A{q}, G, w + " remove_extra_cycles"); HomCheck<F, A>::reps(A{q}, G, g, w + " remove_extra_cycles"); } { RT q = r; q.sparsify_basis(); HomCheck<F, A>::pivots(A{q}, G, w + " sparsify_basis"); HomCheck<F, A>::reps(A{q}, G, g, w + " sparsify_basis"); } }
    if constexpr (A::kind != 1) { Pv p; GC<F> H = G; std::string pw = w + " permute_basis"; for (int t = 0; t < 2; t++) { p.clear(); for (auto n : G.n) p.push_back(rndperm(g, n)); pw += " " + show(p); if (t) r.permute_basis(p, bats::extra_reduction_flag()); else r.permute_basis(p); H = H.permuted(p, deg); HomCheck<F, A>::pivots(A{r}, H, pw); HomCheck<F, A>::reps(A{r}, H, g, pw); } } }
  static void all(Ctx& c, const DC<F>& D) { Rng& g = c.g; M aug = MK<F>::augm(g, D); c.in(o::name() + D.str() + " augmentation " + aug.str()); if (D.dim(0) > 1) c.nontrivial();
    using namespace bats; standard_reduction_flag s; extra_reduction_flag x; clearing_flag cl; compression_flag cp; compute_basis_flag b;
    { using RT = ReducedChainComplex<C>; auto cc = MK<F>::chain(D); auto G = GC<F>::chain(D); auto go = [&](RT r, const char* w) { use<RT, AdC<F>>(r, G, g, w, -1); };
      switch (g.below(7)) { case 0: go(RT(cc), "chain"); break; case 1: go(RT(cc, s, b), "chain standard"); break; case 2: go(RT(cc, x, b), "chain extra"); break; case 3: go(RT(cc, s, cl, b), "chain clearing"); break; case 4: go(RT(cc, x, cl, b), "chain extra clearing"); break; case 5: go(RT(cc, s, cp, b), "chain compression"); break; default: go(RT(cc, x, cp, b), "chain extra compression"); }
      // initialize, and the LU-type update
      { RT r; r.initialize(cc); for (size_t k = 0; k < D.B.size(); k++) { M::same(r.R[k], D.B[k], "initialize R"); M::same(r.U[k], M::id(D.dim(k)), "initialize U"); CHECK(r.p2c[k] == std::vector<size_t>(D.B[k].m, bats::NO_IND), "initialize p2c"); } for (size_t k = 0; k < D.B.size(); k++) r.update_reduction2(k); r.permute_basis(Pv()); HomCheck<F, AdC<F>>::reps(AdC<F>{r}, G, g, "initialize + update_reduction2"); }
      if (o::name() != "Q") { RT r(cc); Pv p; for (auto n : G.n) p.push_back(rndperm(g, n)); for (size_t k = 0; k < p.size(); k++) r.permute_matrices(k, p[k]); for (size_t k = 0; k < p.size(); k++) r.update_reduction(k); r.permute_basis(Pv()); auto H = G.permuted(p, -1); HomCheck<F, AdC<F>>::pivots(AdC<F>{r}, H, "update_reduction"); HomCheck<F, AdC<F>>::reps(AdC<F>{r}, H, g, "update_reduction"); }
      // permuting the complex itself: cell i becomes cell p[i]; ipermute undoes it
      { auto c2 = cc; Pv p, q; for (auto n : G.n) { p.push_back(rndperm(g, n)); q.emplace_back(n); for (size_t i = 0; i < n; i++) q.back()[p.back()[i]] = i; } c2.permute_basis(p); auto H = G.permuted(q, -1); for (size_t k = 0; k < D.B.size(); k++) if (k || D.B.size() > 1) M::same(c2[k], H.out[k], "ChainComplex::permute_basis"); c2.ipermute_basis(p); for (size_t k = 0; k < D.B.size(); k++) M::same(c2[k], D.B[k], "ChainComplex::ipermute_basis"); } }
    { using RT = ReducedCochainComplex<C>; auto cc = MK<F>::cochain(D); auto G = GC<F>::cochain(D); auto go = [&](RT r, const char* w) { use<RT, AdH<F>>(r, G, g, w, 1); }; switch (g.below(3)) { case 0: go(RT(cc), "cochain"); break; case 1: go(RT(cc, s, b), "cochain standard"); break; default: go(RT(cc, x, b), "cochain extra"); } }
    for (int deg : {-1, 1}) { using RT = ReducedDGVectorSpace<C>; auto cc = MK<F>::dg(D, deg, aug); auto G = MK<F>::dgc(D, deg, aug); std::string n = deg < 0 ? "dg-1" : "dg+1"; bool A0 = aug.m == 0; auto go = [&](RT r, const std::string& w) { if (A0) use<RT, AdD<F>>(r, G, g, n + w, deg); else HomCheck<F, AdD<F>>::reps(AdD<F>{r}, G, g, n + " augmented" + w); };
      switch (g.below(5)) { case 0: go(RT(cc), ""); break; case 1: go(RT(cc, s, b), " standard"); break; case 2: go(RT(cc, x, b), " extra"); break; case 3: go(RT(cc, s, cl, b), " clearing"); break; default: go(RT(cc, x, cl, b), " extra clearing"); }
      { RT r; r.initialize(cc); CHECK(r.degree == deg && r.R.size() == cc.differential.size() && r.maxdim() == D.maxdim(), "initialize"); for (size_t k = 0; k < r.R.size(); k++) { M::same(r.R[k], M::of(cc.differential[k], ""), "initialize R"); M::same(r.U[k], M::id(r.R[k].ncol()), "initialize U"); } } }
  }
  static void rnd(Ctx& c) { bool q = o::name() == "Q"; all(c, random_complex<F>(c.g, q ? 2 : 3, q ? 4 : 8)); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(rnd, 2400, "get_preferred_representative find_preferred_representative chain_preferred_representative to_hom_basis from_hom_basis permute_basis update_reduction2 sparsify_basis remove_extra_cycles initialize")
