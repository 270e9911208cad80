// P18: filtrations and updates of reduced filtrations
#include "filt.hpp"
#include <chain/filtered_cochain_complex.hpp>
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using FT = Filt<F>;
  template <class R> static void same(const R& r, const DC<F>& D, const Vals& v, bool rev, const std::string& w) { FT::sortperm(r.perm, v, rev, w); CHECK(r.val == v, w << ": values"); Perms p = r.perm; if (rev) for (auto& q : p) std::reverse(q.begin(), q.end()); for (size_t k = 0; k < D.B.size(); k++) { auto e = FT::pairs(D, v, p, k), g = pps(r.persistence_pairs(k)); CHECK(g == e, w << ": pairs in dimension " << k << " are " << show(g) << " expected " << show(e)); } }
  template <class R, class S> static void scratch(const R& r, const S& s, size_t n, const std::string& w) { for (size_t k = 0; k < n; k++) { auto a = pps(r.persistence_pairs(k)), b = pps(s.persistence_pairs(k)); CHECK(a == b, w << ": pairs in dimension " << k << " are " << show(a) << ", from scratch " << show(b)); } }
  template <class X> static void one(Ctx& c, const X& cx, const DC<F>& D, const std::string& lg) { Rng& g = c.g; std::vector<Vals> vs; size_t m = 2 + g.below(3); std::string in = lg; for (size_t i = 0; i < m; i++) { vs.push_back(FT::values(g, D)); in += FT::vstr(vs.back()); } c.in(in); if (D.dim(0) > 2) c.nontrivial(); using namespace bats; standard_reduction_flag s; extra_reduction_flag x; clearing_flag cl; compression_flag cp; compute_basis_flag b; using FX = Filtration<double, X>; FX F0(cx, vs[0]); using FC = FilteredChainComplex<double, C>; using R = ReducedFilteredChainComplex<double, C>; FC fc(F0);
    std::vector<R> rs; std::vector<std::string> nm{"default", "standard,basis", "extra,basis", "clearing,basis", "compression,basis"}; rs.push_back(R(fc)); rs.push_back(R(fc, s, b)); rs.push_back(R(fc, x, b)); rs.push_back(R(fc, s, cl, b)); rs.push_back(R(fc, x, cp, b));
    for (size_t i = 1; i < m; i++) { std::string w = "update " + std::to_string(i); FX Fi(cx, vs[i]); R ri(FC(Fi), s); fc.update_filtration(vs[i]); FT::sortperm(fc.perm, vs[i], false, w + " FilteredChainComplex"); CHECK(fc.vals() == vs[i], w << ": values"); for (size_t k = 0; k < D.B.size(); k++) M::same(fc.complex()[k], FT::ordered(D, fc.perm, k), (w + ": boundary in filtration order").c_str(), false); same(R(fc, s), D, vs[i], false, w + " of the chain complex");
      for (size_t t = 0; t < rs.size(); t++) { rs[t].update_filtration(vs[i]); std::string ww = w + " after " + nm[t]; same(rs[t], D, vs[i], false, ww); scratch(rs[t], ri, D.B.size(), ww); for (size_t k = 0; k < D.B.size(); k++) { M U = M::of(rs[t].RC.U[k], "U", false), Rk = M::of(rs[t].RC.R[k], "R", false); CHECK(FT::ordered(D, rs[t].perm, k) * U == Rk, ww << ": B U = R"); CHECK(U.upper() && U.diag_inv(), ww << ": U upper triangular"); CHECK(rs[t].hdim(k) == D.betti(k), ww << ": Betti number"); } } }
    for (int deg : {-1, 1}) { using FD = FilteredDGVectorSpace<double, C>; using G = ReducedFilteredDGVectorSpace<double, C>; FD fd(F0, deg); std::string dw = deg < 0 ? "dg-1 " : "dg+1 "; std::vector<G> gs; gs.push_back(G(fd)); gs.push_back(G(fd, s, b)); gs.push_back(G(fd, x, b)); gs.push_back(G(fd, s, cl, b)); for (size_t i = 1; i < m; i++) { std::string w = dw + "update " + std::to_string(i); FX Fi(cx, vs[i]); G ri(FD(Fi, deg), s); fd.update_filtration(vs[i]); FT::sortperm(fd.perm, vs[i], deg > 0, w); FD fn(Fi, deg); CHECK(fd.complex().differential.size() == fn.complex().differential.size(), w); for (size_t k = 0; k < fn.complex().differential.size(); k++) M::same(fd.complex().differential[k], M::of(fn.complex().differential[k], "", false), (w + ": differential").c_str(), false); same(G(fd, s), D, vs[i], deg > 0, w + " of the complex"); for (auto& q : gs) { q.update_filtration(vs[i]); same(q, D, vs[i], deg > 0, w); scratch(q, ri, D.B.size(), w); } } } }
  // updates of differential graded vector spaces with a map out of dimension 0
  static void aug(Ctx& c) { std::string lg; FT::complexes(c.g, c, lg, [&](const auto&, const DC<F>& D) { Rng& g = c.g; std::vector<Vals> vs; for (int i = 0; i < 3; i++) vs.push_back(FT::values(g, D)); M A = FT::aug_any(g, D); c.in(lg + FT::vstr(vs[0]) + FT::vstr(vs[1]) + FT::vstr(vs[2]) + " augmentation " + A.str()); if (D.dim(0) > 2 && A.m) c.nontrivial(); using namespace bats; using G = ReducedFilteredDGVectorSpace<double, C>; using FD = FilteredDGVectorSpace<double, C>;
      for (int deg : {-1, 1}) { std::string w = deg < 0 ? "augmented dg-1 " : "augmented dg+1 "; FD fd(FT::aug_diff(D, A, deg), vs[0], deg); std::vector<G> rs{G(fd), G(fd, standard_reduction_flag(), compute_basis_flag()), G(fd, extra_reduction_flag(), clearing_flag(), compute_basis_flag())}; for (size_t t = 1; t < vs.size(); t++) { fd.update_filtration(vs[t]); FD fn(FT::aug_diff(D, A, deg), vs[t], deg); FT::sortperm(fd.perm, vs[t], deg > 0, w); M AP(A.m, A.n); for (size_t i = 0; i < A.m; i++) for (size_t j = 0; j < A.n; j++) AP(i, j) = A(i, fd.perm[0][j]); M::same(fd.complex().differential[0], deg < 0 ? AP : AP.t(), (w + "end differential after an update").c_str(), false);
          for (auto& r : rs) { r.update_filtration(vs[t]); FT::sortperm(r.perm, vs[t], deg > 0, w); Perms p = r.perm; if (deg > 0) for (auto& pi : p) std::reverse(pi.begin(), pi.end()); for (size_t k = 0; k < D.B.size(); k++) { auto e = FT::aug_pairs(D, A, vs[t], p, k), q = pps(r.persistence_pairs(k)); CHECK(q == e, w << "after update " << t << ": pairs in dimension " << k << " are " << show(q) << " expected " << show(e)); } } } } }); }
  static void update(Ctx& c) { std::string lg; FT::complexes(c.g, c, lg, [&](const auto& X, const DC<F>& D) { one(c, X, D, lg); }); }
  // updates through update information (simplicial complexes, same complex)
  static void info(Ctx& c) { Rng& g = c.g; size_t nv = 1 + g.below(6), md = g.below(4); SC sc = SC::random(g, nv, md, 6); if (sc.n(0) == 0) sc.close({0}); size_t dm = g.chance(1, 4) ? md : sc.S.size() - 1; if (dm + 1 < sc.S.size()) dm = sc.S.size() - 1; bats::SimplicialComplex X(nv, dm); fill(g, X, sc); DC<F> D = FT::dense(bats::ChainComplex<C>(X)); std::vector<Vals> vs; size_t m = 2 + g.below(2); std::string in = o::name() + " simplices " + sc.str() + " maxdim " + std::to_string(dm) + show(cells(X, 1)[0]); for (size_t i = 0; i < m; i++) { vs.push_back(FT::values(g, D)); in += FT::vstr(vs.back()); } c.in(in); if (sc.n(0) > 2) c.nontrivial();
    using namespace bats; standard_reduction_flag s; extra_reduction_flag x; compute_basis_flag b; clearing_flag cl; using FX = Filtration<double, SimplicialComplex>; std::vector<FX> fs; for (auto& v : vs) fs.emplace_back(X, v); using R = ReducedFilteredChainComplex<double, C>; using FC = FilteredChainComplex<double, C>; R r(FC(fs[0]), s, b), r2(FC{fs[0]}); FC fcu(fs[0]); for (size_t i = 1; i < m; i++) { std::string w = "general update " + std::to_string(i); Update_info<FX> ui(fs[i - 1], fs[i]); r.update_filtration_general(ui, s); same(r, D, vs[i], false, w); r2.update_filtration_general(ui, x); same(r2, D, vs[i], false, w + " extra"); for (size_t k = 0; k < D.B.size(); k++) { M U = M::of(r.RC.U[k], "U", false); CHECK(FT::ordered(D, r.perm, k) * U == M::of(r.RC.R[k], "R", false), w << ": B U = R"); CHECK(U.upper() && U.diag_inv(), w << ": U upper"); } fcu.update_filtration_general(ui); same(R(fcu, s), D, vs[i], false, w + " of the chain complex"); }
    for (int deg : {-1, 1}) { using FD = FilteredDGVectorSpace<double, C>; using G = ReducedFilteredDGVectorSpace<double, C>; G q(FD(fs[0], deg), s, b), q2(FD(fs[0], deg), s, b), q3(FD(fs[0], deg), s, cl, b); std::string dw = deg < 0 ? "dg-1 " : "dg+1 "; for (size_t i = 1; i < m; i++) { std::string w = dw + "update info " + std::to_string(i); UpdateInfo2 u2(fs[i - 1], fs[i]); q.update_basis(u2); same(q, D, vs[i], deg > 0, w); Update_info<FX> ui(fs[i - 1], fs[i]); q2.update_filtration_general(ui, s); same(q2, D, vs[i], deg > 0, dw + "general update"); q3.update_filtration_general_clearing(ui, s); same(q3, D, vs[i], deg > 0, dw + "general update with clearing"); } } }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(aug, 1000, "update_filtration (dg, reduced dg), augmented")
TT(update, 2500, "update_filtration (chain, reduced chain, dg, reduced dg)")
TT(info, 1500, "update_filtration_general update_basis Update_info UpdateInfo2")
// filtrations as containers: one value per cell, sublevel sets, orders
template <class CpxT> struct TFil { static constexpr bool cub = std::is_same<CpxT, bats::CubicalComplex>::value; using FX = bats::Filtration<double, CpxT>; using S = std::vector<std::pair<Sx, double>>;
  static size_t dim(const Sx& s) { if (!cub) return s.size() - 1; size_t d = 0; for (size_t i = 0; i + 1 < s.size(); i += 2) d += s[i + 1] - s[i]; return d; }
  static std::vector<Sx> faces(const Sx& s) { std::vector<Sx> r; if (!cub) { if (s.size() > 1) for (size_t i = 0; i < s.size(); i++) { Sx f = s; f.erase(f.begin() + i); r.push_back(f); } } else for (size_t i = 0; i + 1 < s.size(); i += 2) if (s[i] != s[i + 1]) { Sx f = s; f[i] = s[i + 1]; r.push_back(f); f[i] = f[i + 1] = s[i]; r.push_back(f); } return r; }
  static void verify(const FX& F, const std::map<Sx, double>& m, size_t md, const std::string& w) { auto& X = F.complex(); size_t n = 0; CHECK(F.vals().size() >= 1 || m.empty(), w << ": values"); for (size_t k = 0; k < std::max(F.vals().size(), X.maxdim() + 1); k++) { size_t nk = k <= X.maxdim() ? X.ncells(k) : 0; if (k < F.vals().size()) { CHECK(F.vals(k).size() == nk && F.ncells(k) == nk, w << ": " << F.vals(k).size() << " values for " << nk << " cells in dimension " << k); CHECK(F.vals()[k] == F.vals(k), w); } else CHECK(nk == 0, w << ": no values in dimension " << k); n += nk; for (size_t i = 0; i < nk; i++) { auto s0 = X.get_cell(k, i); Sx s(s0.begin(), s0.end()); auto it = m.find(s); CHECK(it != m.end(), w << ": unexpected cell " << show(s)); CHECK(F.vals(k)[i] == it->second, w << ": value of " << show(s) << " is " << F.vals(k)[i] << " expected " << it->second); } } CHECK(n == m.size(), w << ": " << n << " cells, expected " << m.size());
    if (F.vals().size()) { auto p = F.sortperm(); Filt<ModP<int, 2>>::sortperm(p, F.vals(), false, w + ": sortperm"); for (size_t k = 0; k < p.size(); k++) { CHECK(F.sortperm(k) == p[k], w << ": sortperm(" << k << ")"); auto q = bats::filtration_iperm(p)[k]; for (size_t i = 0; i < q.size(); i++) CHECK(p[k][q[i]] == i, w << ": filtration_iperm"); } CHECK(F.maxdim() + 1 == F.vals().size(), w << ": maxdim"); } }
  static void sub(Rng& g, const FX& F, const std::map<Sx, double>& m, const std::string& w) { std::set<double> as{-50.0, 50.0}; for (auto& x : m) { as.insert(x.second); as.insert(x.second - 0.125); } for (double a : as) { auto Y = F.sublevelset(a); size_t e = 0, n = 0; for (auto& x : m) if (x.second <= a) { e++; CHECK(Y.find_idx(x.first) != bats::NO_IND, w << ": sublevel set at " << a << " misses " << show(x.first)); } for (size_t k = 0; k <= Y.maxdim(); k++) n += Y.ncells(k); CHECK(n == e, w << ": sublevel set at " << a << " has " << n << " cells, expected " << e); } }
  static Sx cell(Rng& g, size_t nv, size_t md) { Sx s; if (cub) for (size_t i = 0; i < md; i++) { size_t a = g.below(nv); s.push_back(a); s.push_back(a + g.below(2)); } else { std::set<size_t> t; size_t d = g.below(std::min(md + 1, nv)); while (t.size() < d + 1) t.insert(g.below(nv)); s.assign(t.begin(), t.end()); } return s; }
  static void run(Ctx& c) { Rng& g = c.g; size_t md = cub ? 1 + g.below(3) : g.below(4), nv = cub ? 1 + g.below(3) : 1 + g.below(7); FX F = [&] { if constexpr (cub) return FX(CpxT(md)); else return FX(CpxT(nv, md)); }(); std::map<Sx, double> m; std::string lg = std::string(cub ? "cubical" : std::is_same<CpxT, bats::SimplicialComplex>::value ? "simplicial" : "light") + " n=" + std::to_string(nv) + " maxdim=" + std::to_string(md); size_t n = g.below(12); bool mono = true; verify(F, m, md, "empty");
    for (size_t i = 0; i < n; i++) { Sx s = cell(g, nv, md); double t = g.range(0, 40) / 4.0; bool rec = g.chance(1, 2), ok = true; double mx = -100; for (auto& f : faces(s)) { auto it = m.find(f); if (it == m.end()) ok = false; else mx = std::max(mx, it->second); } if (std::is_same<CpxT, bats::LightSimplicialComplex<size_t>>::value && !ok) rec = true; lg += (rec ? " add_recursive" : " add") + show(s) + "@" + std::to_string(t).substr(0, 4); c.in(lg);
      if (!rec) { t = std::max(t, mx); auto r = F.add(t, s); if (ok) { for (auto& x : m) if (x.first != s && x.second < t) for (auto& f : faces(x.first)) if (f == s) mono = false; m[s] = t; auto s0 = F.complex().get_cell(r.dim, r.ind); CHECK(Sx(s0.begin(), s0.end()) == s, "add returned the location of another cell"); } else CHECK(r.ind == bats::NO_IND, "adding " << show(s) << " without its faces must fail"); }
      else { auto r = F.add_recursive(t, s); std::function<void(const Sx&)> go = [&](const Sx& u) { if (m.count(u)) { if (m[u] > t) mono = false; return; } m[u] = t; for (auto& f : faces(u)) go(f); }; if (m.count(s)) { for (auto& x : m) if (x.second < t) for (auto& f : faces(x.first)) if (f == s) mono = false; for (auto& f : faces(s)) if (m[f] > t) mono = false; m[s] = t; } else go(s); }
      verify(F, m, md, "after " + std::to_string(i + 1) + " insertions"); }
    if (m.size() > 3) c.nontrivial(); FX G = F; if (F.vals().size() && g.chance(2, 3)) { Vals v = F.vals(); for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].size(); i++) { double x = g.range(-20, 20) / 8.0; auto s0 = F.complex().get_cell(k, i); Sx s(s0.begin(), s0.end()); for (auto& f : faces(s)) { size_t fi = F.complex().find_idx(f); x = std::max(x, v[k - 1][fi]); } v[k][i] = x; } lg += " update " + show(v); c.in(lg); auto m0 = m; F.update_filtration(v); for (size_t k = 0; k < v.size(); k++) for (size_t i = 0; i < v[k].size(); i++) { auto s0 = F.complex().get_cell(k, i); m[Sx(s0.begin(), s0.end())] = v[k][i]; } mono = true; verify(F, m, md, "after update_filtration"); verify(G, m0, md, "copy"); FX H(F.complex(), v); verify(H, m, md, "built from complex and values"); if constexpr (!cub) if (!std::is_same<CpxT, bats::LightSimplicialComplex<size_t>>::value) sub(g, H, m, "built from values"); }
    if (mono) sub(g, F, m, "sublevelset"); { FX Z(F.complex()); std::map<Sx, double> z; for (auto& x : m) z[x.first] = 0; verify(Z, z, md, "built from a complex"); }
    if constexpr (!cub) { FX A = F, B = [&] { return FX(CpxT(nv, md)); }(); std::map<Sx, double> mb; for (size_t i = g.below(4); i-- > 0;) { Sx s = cell(g, nv, md); double t = g.range(0, 9); std::function<void(const Sx&)> go = [&](const Sx& u) { if (mb.count(u)) return; mb[u] = t; for (auto& f : faces(u)) go(f); }; if (mb.count(s)) continue; lg += " other" + show(s); B.add_recursive(t, s); go(s); } c.in(lg + " union_add"); if (B.vals().size()) { A.union_add(B); auto mu = m; for (auto& x : mb) mu[x.first] = x.second; verify(A, mu, md, "union_add"); verify(B, mb, md, "second argument of union_add"); } } } };
TEST(simplicial, 1500, "Filtration add add_recursive sublevelset sortperm update_filtration union_add") { TFil<bats::SimplicialComplex>::run(c); }
TEST(light, 1500, "Filtration on LightSimplicialComplex") { TFil<bats::LightSimplicialComplex<size_t>>::run(c); }
TEST(cubical, 1500, "Filtration on CubicalComplex") { TFil<bats::CubicalComplex>::run(c); }
TEST(cochain, 800, "FilteredCochainComplex CochainComplex::permute_basis") { Rng& g = c.g; using F = ModP<int, 5>; using M = Mat<F>; std::string lg; Filt<F>::complexes(g, c, lg, [&](const auto& X, const DC<F>& D) { using XT = std::decay_t<decltype(X)>; Vals v = Filt<F>::values(g, D), v2 = Filt<F>::values(g, D); c.in(lg + Filt<F>::vstr(v) + Filt<F>::vstr(v2)); if (D.dim(0) > 2) c.nontrivial(); bats::FilteredCochainComplex<double, CM<F>> fc(bats::Filtration<double, XT>(X, v)); auto chk = [&](const Vals& u, const std::string& w) { Filt<F>::sortperm(fc.perm, u, false, w); CHECK(fc.vals() == u, w); for (size_t k = 1; k < D.B.size(); k++) M::same(const_cast<bats::CochainComplex<CM<F>>&>(fc.complex())[k], Filt<F>::ordered(D, fc.perm, k).t(), (w + ": coboundary").c_str(), false); for (size_t k = 0; k < D.B.size(); k++) CHECK(fc.dim(k) == D.dim(k), "dim"); }; chk(v, "filtered cochain complex"); fc.update_filtration(v2); chk(v2, "after update_filtration"); }); }
// lower star filtrations give every cell the largest vertex value
TEST(lower_star, 800, "lower_star_filtration extend_filtration lower_star_backwards") { Rng& g = c.g; if (c.k % 3 == 0) { size_t nv = 1 + g.below(7); SC sc = SC::random(g, nv, 3, 6); bats::SimplicialComplex X(nv, 3); for (size_t i = 0; i < nv; i++) { Sx s{i}; X.add(s); } for (auto v : sc.all()) X.add_recursive(v); std::vector<double> f(nv); for (auto& x : f) x = g.range(-8, 8) / 2.0; c.in("simplices " + sc.str() + " f " + show(f)); c.nontrivial(); auto [vals, inds] = lower_star_filtration(X, f); CHECK(vals.size() == X.maxdim() + 1 && inds.size() == vals.size(), "dimensions"); for (size_t k = 0; k < vals.size(); k++) { CHECK(vals[k].size() == X.ncells(k) && inds[k].size() == X.ncells(k), "one value per cell"); for (size_t i = 0; i < vals[k].size(); i++) { auto s = X.get_cell(k, i); double m = -1e9; bool in = false; for (auto q : s) { m = std::max(m, f[q]); in |= q == inds[k][i]; } CHECK(vals[k][i] == m && in && f[inds[k][i]] == m, "lower star value of " << show(s) << " is " << vals[k][i] << " from vertex " << inds[k][i]); } }
    std::vector<std::vector<double>> gr(vals.size()); std::vector<std::vector<int>> bd(vals.size()); std::vector<double> e(nv, 0); for (size_t k = 0; k + 1 < vals.size(); k++) for (size_t t = g.below(4); t-- > 0;) { if (!vals[k].size()) break; int b = int(g.below(vals[k].size())), d = vals[k + 1].size() && g.chance(2, 3) ? int(g.below(vals[k + 1].size())) : -1; double x = g.range(-3, 3), y = g.range(-3, 3); gr[k].push_back(x); gr[k].push_back(y); bd[k].push_back(b); bd[k].push_back(d); e[inds[k][b]] += x; if (d >= 0) e[inds[k + 1][d]] += y; } CHECK(lower_star_backwards(gr, bd, inds) == e, "lower_star_backwards"); }
  else { size_t d = 1 + c.k % 3; size_t n = 2 + g.below(2); bats::CubicalComplex X(d); std::vector<std::vector<double>> f2(n + 1, std::vector<double>(n + 1)); std::vector<std::vector<std::vector<double>>> f3(n + 1, f2); for (auto& r : f2) for (auto& x : r) x = g.range(-9, 9); for (auto& q : f3) for (auto& r : q) for (auto& x : r) x = g.range(-9, 9); std::string in = "cubes"; for (size_t t = 1 + g.below(5); t-- > 0;) { Sx s; for (size_t i = 0; i < d; i++) { size_t a = g.below(n); s.push_back(a); s.push_back(a + g.below(2)); } in += show(s); X.add_recursive(s); } c.in(in + " f " + (d == 2 ? show(f2) : "3d")); c.nontrivial(); auto v = d == 2 ? lower_star_filtration(X, f2) : lower_star_filtration(X, f3); CHECK(v.size() == X.maxdim() + 1, "dimensions"); for (size_t k = 0; k < v.size(); k++) { CHECK(v[k].size() == X.ncells(k), "one value per cell"); for (size_t i = 0; i < v[k].size(); i++) { auto s = X.get_cell(k, i); double m = -1e9; for (size_t a : {s[0], s[1]}) for (size_t b : {s[2], s[3]}) { if (d == 2) m = std::max(m, f2[a][b]); else for (size_t q : {s[4], s[5]}) m = std::max(m, f3[a][b][q]); } CHECK(v[k][i] == m, "lower star value of " << show(s) << " is " << v[k][i] << " expected " << m); } } } }
// vertex labels beyond the number of vertices
TEST(labels, 300, "sublevelset") { Rng& g = c.g; size_t nv = 6 + g.below(8); bats::Filtration<double, bats::LightSimplicialComplex<size_t>> F(bats::LightSimplicialComplex<size_t>(nv, 2)); std::set<size_t> vs; while (vs.size() < 4) vs.insert(g.below(nv)); if (g.chance(1, 2)) vs = {0, 4, 4 + 1 + g.below(nv - 5), nv - 1}; std::vector<size_t> v(vs.begin(), vs.end()); std::map<Sx, double> m; for (auto x : v) { Sx s{x}; F.add(0.0, s); m[s] = 0; } for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (g.chance(2, 3)) { Sx s{v[j], v[i]}; double t = g.range(0, 3); F.add(t, s); m[s] = t; } c.in("light complex on vertices " + show(v) + " of " + std::to_string(nv)); c.nontrivial(); TFil<bats::LightSimplicialComplex<size_t>>::sub(g, F, m, "sublevelset"); }
