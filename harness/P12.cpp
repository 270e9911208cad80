// P12: persistence pairs
#include "filt.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using FT = Filt<F>;
  template <class R> static void check(const R& r, const DC<F>& D, const Vals& v, const Perms& p, const std::string& w, bool full) {
    CHECK(r.maxdim() == D.maxdim(), w << ": maxdim"); std::vector<std::vector<PP>> all; std::vector<std::vector<int>> use; for (size_t k = 0; k < D.B.size(); k++) use.push_back(std::vector<int>(D.dim(k), 0));
    for (size_t k = 0; k < D.B.size(); k++) { auto g = r.persistence_pairs(k), gp = g; auto e = FT::pairs(D, v, p, k); CHECK(pps(g) == e, w << ": pairs in dimension " << k << " are " << show(pps(g)) << " expected " << show(e)); all.push_back(pps(g)); for (auto& q : all.back()) { use[k][q.b]++; if (q.d != bats::NO_IND) use[k + 1][q.d]++; CHECK(q.birth <= q.death, w << ": birth after death"); }
      auto [bd, in] = r.persistence_pairs_vec(k); CHECK(bd.size() == 2 * g.size() && in.size() == 2 * g.size(), w << ": flattened pairs"); for (size_t i = 0; i < g.size(); i++) CHECK(bd[2 * i] == g[i].birth && bd[2 * i + 1] == g[i].death && in[2 * i] == g[i].birth_ind && in[2 * i + 1] == g[i].death_ind, w << ": flattened pair " << i);
      if (full) CHECK(D.dim(k) == r.dim(k), w << ": dim"); }
    for (auto& u : use) for (int x : u) CHECK(x == 1, w << ": a cell is used " << x << " times"); if (full) FT::betti(D, v, all, w); }
  template <class R> static void chk(const R& r, const DC<F>& D, const Vals& v, const std::string& w, bool basis, bool full = false) { FT::sortperm(r.perm, v, false, w); check(r, D, v, r.perm, w, full); CHECK(r.val == v, w << ": values");
    for (size_t k = 0; k < D.B.size(); k++) { auto g = r.persistence_pairs(k, true); auto e = FT::pairs(D, v, r.perm, k, true); CHECK(pps(g) == e, w << ": pairs in filtration order in dimension " << k << " are " << show(pps(g)) << " expected " << show(e)); auto [bd, in] = r.persistence_pairs_vec(k, true); for (size_t i = 0; i < g.size(); i++) CHECK(in[2 * i] == g[i].birth_ind && bd[2 * i + 1] == g[i].death, w << ": flattened pairs in filtration order");
      if (basis) for (int permuted : {0, 1}) for (auto& q : r.persistence_pairs(k, permuted)) { auto x = r.representative(q, permuted); M B = permuted ? FT::ordered(D, r.perm, k) : D.B[k]; auto z = Ops<F>::to(x, D.dim(k), "representative", false); CHECK((B * colmat<F>(z)).zero(), w << ": representative is not a cycle"); long last = -1; for (size_t i = 0; i < D.dim(k); i++) if (z[permuted ? i : r.perm[k][i]] != o::zero()) last = long(i); size_t at = last < 0 ? bats::NO_IND : permuted ? size_t(last) : r.perm[k][last]; CHECK(at == q.birth_ind, w << ": representative of the class born at " << q.birth_ind << " appears at " << long(at)); } } }
  template <class X> static void one(Ctx& c, const X& cx, const DC<F>& D, const std::string& lg) { Rng& g = c.g; Vals v = FT::values(g, D); c.in(lg + FT::vstr(v)); if (D.dim(0) > 2) c.nontrivial(); bats::Filtration<double, X> Fl(cx, v); using namespace bats; standard_reduction_flag s; extra_reduction_flag x; clearing_flag cl; compression_flag cp; compute_basis_flag b;
    FilteredChainComplex<double, C> fc(Fl); FT::sortperm(fc.perm, v, false, "FilteredChainComplex"); for (size_t k = 0; k < D.B.size(); k++) { M::same(fc.complex()[k], FT::ordered(D, fc.perm, k), "boundary in filtration order", false); CHECK(fc.dim(k) == D.dim(k), "dim"); } CHECK(fc.vals() == v, "values");
    using R = ReducedFilteredChainComplex<double, C>; chk(R(fc), D, v, "default", true, true); chk(R(fc, s), D, v, "standard", false); chk(R(fc, x), D, v, "extra", false); chk(R(fc, s, b), D, v, "standard,basis", true); chk(R(fc, x, b), D, v, "extra,basis", true); chk(R(fc, s, cl), D, v, "standard,clearing", false); chk(R(fc, x, cl), D, v, "extra,clearing", false); chk(R(fc, s, cp), D, v, "standard,compression", false); chk(R(fc, x, cp), D, v, "extra,compression", false); chk(R(fc, s, cl, b), D, v, "standard,clearing,basis", true); chk(R(fc, x, cl, b), D, v, "extra,clearing,basis", true); chk(R(fc, s, cp, b), D, v, "standard,compression,basis", true); chk(R(fc, x, cp, b), D, v, "extra,compression,basis", true); chk(R(fc, divide_conquer_flag()), D, v, "divide conquer", false);
    chk(Reduce(Fl, F()), D, v, "Reduce", true); chk(Reduce(Fl, F(), s, cl), D, v, "Reduce standard,clearing", false); chk(Reduce(Chain(Fl, F())), D, v, "Reduce(Chain)", true); auto q = Reduce(Fl, F(), s, b); q.sparsify_basis(); chk(q, D, v, "after sparsify_basis", true); auto q2 = Reduce(Fl, F(), x, b); q2.remove_extra_cycles(); chk(q2, D, v, "after remove_extra_cycles", true);
    for (size_t k = 0; k < D.B.size(); k++) { auto ro = FT::ordered(D, q.perm, k); M::same(q.RC.R[k], ro * M::of(q.RC.U[k], "U", false), "B U = R", false); }
    // differential graded vector spaces
    for (int deg : {-1, 1}) { FilteredDGVectorSpace<double, C> fd(Fl, deg); std::string w = deg < 0 ? "dg-1 " : "dg+1 "; FT::sortperm(fd.perm, v, deg > 0, w); Perms p = fd.perm; if (deg > 0) for (auto& pi : p) std::reverse(pi.begin(), pi.end());
      using G = ReducedFilteredDGVectorSpace<double, C>; check(G(fd), D, v, p, w + "default", true); check(G(fd, s), D, v, p, w + "standard", false); check(G(fd, x), D, v, p, w + "extra", false); check(G(fd, s, b), D, v, p, w + "standard,basis", false); check(G(fd, x, b), D, v, p, w + "extra,basis", false); check(G(fd, s, cl), D, v, p, w + "standard,clearing", false); check(G(fd, x, cl), D, v, p, w + "extra,clearing", false); check(G(fd, s, cp), D, v, p, w + "standard,compression", false); check(G(fd, x, cp), D, v, p, w + "extra,compression", false); check(G(fd, s, cl, b), D, v, p, w + "standard,clearing,basis", false); check(G(fd, x, cl, b), D, v, p, w + "extra,clearing,basis", false); } }
  // differential graded vector spaces given by explicit maps, with a map out of dimension 0
  static void aug(Ctx& c) { std::string lg; FT::complexes(c.g, c, lg, [&](const auto&, const DC<F>& D) { Rng& g = c.g; Vals v = FT::values(g, D); M A = FT::aug_any(g, D); c.in(lg + FT::vstr(v) + " augmentation " + A.str()); if (D.dim(0) > 2 && A.m) c.nontrivial(); using namespace bats; using G = ReducedFilteredDGVectorSpace<double, C>;
      for (int deg : {-1, 1}) { FilteredDGVectorSpace<double, C> fd(FT::aug_diff(D, A, deg), v, deg); std::string w = deg < 0 ? "augmented dg-1 " : "augmented dg+1 "; FT::sortperm(fd.perm, v, deg > 0, w); Perms p = fd.perm; if (deg > 0) for (auto& pi : p) std::reverse(pi.begin(), pi.end()); M AP(A.m, A.n); for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) AP(i, j) = A(i, fd.perm[0][j]); M::same(fd.complex().differential[0], deg < 0 ? AP : AP.t(), (w + "end differential").c_str(), false);
        auto chk = [&](const G& r, const char* n) { for (size_t k = 0; k < D.B.size(); k++) { auto e = FT::aug_pairs(D, A, v, p, k), q = pps(r.persistence_pairs(k)); CHECK(q == e, w << n << ": pairs in dimension " << k << " are " << show(q) << " expected " << show(e)); } }; chk(G(fd), "default"); chk(G(fd, standard_reduction_flag()), "standard"); chk(G(fd, extra_reduction_flag(), compute_basis_flag()), "extra,basis"); chk(G(fd, standard_reduction_flag(), clearing_flag()), "clearing"); chk(G(fd, standard_reduction_flag(), compression_flag()), "compression"); chk(G(fd, extra_reduction_flag(), clearing_flag(), compute_basis_flag()), "extra,clearing,basis"); } }); }
  static void pairs(Ctx& c) { std::string lg; FT::complexes(c.g, c, lg, [&](const auto& X, const DC<F>& D) { one(c, X, D, lg); }); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(aug, 1500, "FilteredDGVectorSpace(differentials) ReducedFilteredDGVectorSpace persistence_pairs, augmented")
TT(pairs, 3000, "persistence_pairs persistence_pairs_vec representative FilteredChainComplex FilteredDGVectorSpace Reduce")
