// P16: complexes
#include "scx.hpp"
using F3 = ModP<int, 3>;
template <class CpxT> struct CK {   // a complex together with the list of its cells in insertion order per dimension
  static constexpr bool simp = std::is_same<CpxT, bats::SimplicialComplex>::value, cub = std::is_same<CpxT, bats::CubicalComplex>::value, light = !simp && !cub;
  CpxT X; std::vector<std::vector<Sx>> L; size_t nv, md;
  CK(size_t nv, size_t md) : X(make(nv, md)), L(md + 1), nv(nv), md(md) {}
  static CpxT make(size_t nv, size_t md) { if constexpr (cub) return CpxT(md); else return CpxT(nv, md); }
  static size_t dim(const Sx& s) { if (!cub) return s.size() - 1; size_t d = 0; for (size_t i = 0; i + 1 < s.size(); i += 2) d += s[i + 1] - s[i]; return d; }
  // faces with signs: simplex -> alternating, cube -> (top - bottom) alternating over the nondegenerate directions
  static std::vector<std::pair<Sx, int>> faces(const Sx& s) { std::vector<std::pair<Sx, int>> r; if (!cub) { if (s.size() > 1) for (size_t i = 0; i < s.size(); i++) { Sx f = s; f.erase(f.begin() + i); r.push_back({f, i % 2 ? -1 : 1}); } } else { int sg = 1; for (size_t i = 0; i + 1 < s.size(); i += 2) if (s[i] != s[i + 1]) { Sx f = s; f[i] = s[i + 1]; r.push_back({f, sg}); f[i] = f[i + 1] = s[i]; r.push_back({f, -sg}); sg = -sg; } } return r; }
  size_t idx(const Sx& s) const { size_t d = dim(s); if (d >= L.size()) return bats::NO_IND; long i = find(L[d], s); return i < 0 ? bats::NO_IND : size_t(i); }
  Sx cell(Rng& g) const { Sx s; if (cub) { for (size_t i = 0; i < md; i++) { size_t a = g.below(nv); s.push_back(a); s.push_back(a + g.below(2)); } } else { std::set<size_t> t; size_t d = g.below(std::min(md + 1, nv)); while (t.size() < d + 1) t.insert(g.below(nv)); s.assign(t.begin(), t.end()); } return s; }
  Sx shuffled(Rng& g, Sx s) const { if (simp) for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[g.below(i)]); return s; }
  void put(const Sx& s) { size_t d = dim(s); if (L.size() <= d) L.resize(d + 1); L[d].push_back(s); }
  // add one cell; expected: old index, new index when all faces are there, absence otherwise
  std::string add(Rng& g, const Sx& s) { size_t d = dim(s), old = idx(s); bool ok = true; for (auto& f : faces(s)) if (idx(f.first) == bats::NO_IND) ok = false; if (light && !ok && old == bats::NO_IND) return addrec(g, s);
    Sx w = shuffled(g, s); std::string lg = " add" + show(w); cell_ind r = X.add(w); size_t e = old != bats::NO_IND ? old : ok ? (L.size() > d ? L[d].size() : 0) : bats::NO_IND; if (old == bats::NO_IND && ok) put(s); CHECK(r.dim == d && r.ind == e, "add " << show(s) << " returned index " << r.ind << " in dimension " << r.dim << ", expected " << e); return lg; }
  std::string addrec(Rng& g, const Sx& s) { size_t old = idx(s), d = dim(s); Sx w = shuffled(g, s); std::string lg = " add_recursive" + show(w); auto r = X.add_recursive(w); if (old != bats::NO_IND) { CHECK(r.size() == 1 && r[0].dim == d && r[0].ind == old, "re-adding " << show(s) << " recursively must return its old index"); return lg; }
    std::vector<Sx> need; std::function<void(const Sx&)> rec = [&](const Sx& t) { if (idx(t) != bats::NO_IND || find(need, t) >= 0) return; need.push_back(t); for (auto& f : faces(t)) rec(f.first); }; rec(s); CHECK(r.size() == need.size(), "add_recursive " << show(s) << " reports " << r.size() << " new cells, expected " << need.size());
    std::vector<size_t> cnt; for (auto& l : L) cnt.push_back(l.size()); std::set<std::pair<size_t, size_t>> seen; for (auto& c : r) { CHECK(c.dim < L.size() && c.ind >= cnt[c.dim] && seen.insert({c.dim, c.ind}).second, "add_recursive: reported cell (" << c.dim << "," << c.ind << ") is not new"); } CHECK(r.back().dim == d && r.back().ind == cnt[d], "add_recursive: the last reported cell must be the simplex itself");
    // the order within a dimension is the library's choice: read it off, it must consist of the new cells
    std::vector<std::vector<Sx>> nw(L.size()); for (auto& t : need) nw[dim(t)].push_back(t); for (size_t k = 0; k < L.size(); k++) { CHECK(X.ncells(k) == cnt[k] + nw[k].size(), "number of cells in dimension " << k << " after add_recursive"); for (size_t i = cnt[k]; i < X.ncells(k); i++) { auto t0 = X.get_cell(k, i); Sx t(t0.begin(), t0.end()); CHECK(find(nw[k], t) >= 0 && find(L[k], t) < 0, "add_recursive stored the unexpected cell " << show(t)); L[k].push_back(t); } } return lg; }
  void verify(Rng& g, const std::string& w) const { const CpxT& Y = X; size_t tot = 0; CHECK(Y.maxdim() + 1 >= 1, w); for (size_t k = 0; k < L.size(); k++) { CHECK(Y.ncells(k) == L[k].size(), w << ": " << Y.ncells(k) << " cells in dimension " << k << ", expected " << L[k].size()); tot += L[k].size(); } for (size_t k = L.size(); k <= Y.maxdim() + 1; k++) CHECK(Y.ncells(k) == 0, w << ": cells in dimension " << k); CHECK(Y.ncells() == tot, w << ": total number of cells " << Y.ncells());
    for (size_t k = 0; k < L.size(); k++) for (size_t i = 0; i < L[k].size(); i++) { auto s0 = Y.get_cell(k, i); CHECK(Sx(s0.begin(), s0.end()) == L[k][i], w << ": cell " << i << " in dimension " << k << " is " << show(s0) << " expected " << show(L[k][i])); Sx s1{7, 7, 7}; Y.get_cell(k, i, s1); CHECK(s1 == L[k][i], w << ": get_cell into a vector"); CHECK(Y.find_idx(L[k][i]) == i, w << ": look-up of " << show(L[k][i]) << " gives " << Y.find_idx(L[k][i]) << ", expected " << i); CpxT& Z = const_cast<CpxT&>(Y); CHECK(Z.find_idx(L[k][i]) == i, w << ": look-up (non-const)"); for (auto& f : faces(L[k][i])) CHECK(Y.find_idx(f.first) != bats::NO_IND, w << ": face " << show(f.first) << " missing"); }
    for (int t = 0; t < 12; t++) { Sx s = cell(g); if (t == 10 && !cub) s.push_back(nv - 1 + (s.back() == nv - 1 ? 1 : 0)); if (t == 11 && cub && s.size()) s.resize(s.size() - 2); size_t e = (cub && s.size() != 2 * md) ? bats::NO_IND : idx(s); CHECK(Y.find_idx(s) == e, w << ": look-up of " << show(s) << " gives " << Y.find_idx(s) << ", expected " << e); CHECK(const_cast<CpxT&>(Y).find_idx(s) == e, w << ": look-up (non-const) of " << show(s)); }
    auto al = [&](const std::vector<std::vector<size_t>>& v) { std::vector<Sx> e; for (auto& l : L) e.insert(e.end(), l.begin(), l.end()); CHECK(v == e, w << ": list of all cells"); };
    if constexpr (cub) { if (md) { al(Y.get_cubes()); for (size_t k = 0; k < L.size() && k <= Y.maxdim(); k++) CHECK(Y.get_cubes(k) == L[k], w << ": get_cubes"); } } else { al(Y.get_simplices()); for (size_t k = 0; k < L.size() && k <= Y.maxdim(); k++) CHECK(Y.get_simplices(k) == L[k], w << ": get_simplices"); }
    std::vector<Mat<F3>> B; for (size_t k = 1; k < L.size() && k <= Y.maxdim(); k++) { using o = O<F3>; Mat<F3> E(L[k - 1].size(), L[k].size()); for (size_t j = 0; j < L[k].size(); j++) for (auto& f : faces(L[k][j])) E(find(L[k - 1], f.first), j) = f.second > 0 ? 1 : 2; Mat<F3> got = Mat<F3>::of(ColumnMatrix<SparseVector<F3, size_t>>(Y.boundary_csc(k)), "boundary_csc"); if (got == negm(E)) E = got; CHECK(got == E, w << ": boundary matrix " << got.str() << " expected " << E.str() << " (up to sign)"); B.push_back(E); if (B.size() > 1) CHECK((B[B.size() - 2] * E).zero(), w << ": boundary of a boundary");
      if constexpr (!cub) for (size_t j = 0; j < L[k].size(); j++) { auto [ind, val] = Y.boundary(k, j); CHECK(ind.size() == k + 1 && val.size() == k + 1, w << ": boundary size"); std::vector<int> v(L[k - 1].size(), 0); for (size_t t = 0; t <= k; t++) { CHECK(t == 0 || ind[t - 1] < ind[t], w << ": boundary indices not increasing " << show(ind)); CHECK(val[t] == 1 || val[t] == -1, w << ": boundary value " << val[t]); v[ind[t]] = (val[t] + 3) % 3; } auto e = E.col(j), ne = negm(E).col(j); CHECK(v == e || v == ne, w << ": boundary(" << k << "," << j << ")"); }
      if constexpr (!light) for (size_t j = 0; j < L[k].size(); j++) { std::set<size_t> fs(Y.faces_begin(k, j), Y.faces_end(cell_ind(k, j))), e; for (auto& f : faces(L[k][j])) e.insert(find(L[k - 1], f.first)); CHECK(fs == e, w << ": faces of cell " << j); } } }
};
template <class CpxT> struct TC { using K = CK<CpxT>;
  static void step(Rng& g, K& a, std::string& lg, h::Ctx& c, const std::string& w) { Sx s; if (g.chance(1, 4)) { std::vector<Sx> al; for (auto& l : a.L) al.insert(al.end(), l.begin(), l.end()); s = al.size() ? al[g.below(al.size())] : a.cell(g); } else s = a.cell(g); int m = int(g.below(3)); c.in(lg + " then " + (m ? "add " : "add_recursive ") + show(s)); lg += m ? a.add(g, s) : a.addrec(g, s); }
  static void run(h::Ctx& c) { Rng& g = c.g; size_t md = K::cub ? 1 + g.below(3) : g.below(5), nv = K::cub ? 1 + g.below(4) : 1 + g.below(7); K a(nv, md); std::string lg = std::string(K::cub ? "cubical" : K::simp ? "simplicial" : "light") + " n=" + std::to_string(nv) + " maxdim=" + std::to_string(md); size_t n = g.below(14); for (size_t i = 0; i < n; i++) { step(g, a, lg, c, ""); if (g.chance(1, 4)) a.verify(g, "after insertions"); } c.in(lg); a.verify(g, "after insertions"); if (a.X.ncells() > 2) c.nontrivial();
    // copies are independent
    K b = a; b.verify(g, "copy"); for (int i = 0; i < 3; i++) step(g, b, lg, c, ""); c.in(lg + " | copy, insert into the copy"); b.verify(g, "copy after insertions"); a.verify(g, "original after insertions into the copy");
    K d(nv, md), e(nv, md); for (size_t i = g.below(4); i-- > 0;) step(g, d, lg, c, ""); c.in(lg + " | assignments"); d = a; d.verify(g, "assigned"); for (int i = 0; i < 2; i++) step(g, a, lg, c, ""); d.verify(g, "assigned, after insertions into the source"); a.verify(g, "source"); d = d; d.verify(g, "self-assigned"); { K t = e; d = t; } d.verify(g, "assigned from an empty complex"); for (int i = 0; i < 2; i++) step(g, d, lg, c, ""); d.verify(g, "insertions after assignment from an empty complex");
    K m(std::move(b)); m.verify(g, "moved"); e = std::move(m); e.verify(g, "move-assigned"); for (int i = 0; i < 2; i++) step(g, e, lg, c, ""); e.verify(g, "insertions after move assignment"); { CpxT z; CHECK(z.ncells() == 0 && z.ncells(0) == 0, "default constructed complex is empty"); K y = a; y.X = z; z = a.X; y.X = z; y.verify(g, "assigned through a default constructed complex"); std::vector<CpxT> v; for (int i = 0; i < 4; i++) v.push_back(a.X); y.X = v[1]; v.erase(v.begin()); y.verify(g, "stored in a vector"); }
    if constexpr (K::simp) { char t[] = "/tmp/vhXXXXXX"; int fd = mkstemp(t); close(fd); std::string fn = t, why; a.X.save(fn); bool ok = true; K r = a; try { r.X = bats::SimplicialComplex(std::string(fn)); r.verify(g, "saved and re-loaded"); } catch (std::exception& x) { ok = false; why = x.what(); } unlink(t); CHECK(ok, "saving and re-loading: " << why); a.verify(g, "after saving"); }
    if constexpr (K::cub) { size_t k = g.below(md + 1); K s(nv, md); for (size_t i = 0; i <= k; i++) s.L[i] = a.L[i]; s.X = a.X.skeleton(k); s.verify(g, "skeleton"); bool th = false; try { a.X.add({0, 2}); } catch (std::runtime_error&) { th = true; } CHECK(th, "a stretched or wrongly sized cube is refused"); std::vector<size_t> bad; for (size_t i = 0; i < md; i++) { bad.push_back(1); bad.push_back(0); } th = false; try { a.X.add(bad); } catch (std::runtime_error&) { th = true; } CHECK(th, "reversed interval is refused"); a.verify(g, "after refused cubes");
      char t[] = "/tmp/vhXXXXXX"; int fd = mkstemp(t); close(fd); { std::ofstream o(t); for (auto& l : a.L) for (auto& s : l) { for (size_t i = 0; i < s.size(); i++) o << (i ? "," : "") << s[i]; o << "\n"; } } K r = a; r.X = CpxT(md); std::string fn = t; r.X.load_cubes(fn); unlink(t); r.verify(g, "load_cubes"); } }
};
TEST(simplicial, 1500, "SimplicialComplex add add_recursive find_idx get_simplex boundary boundary_csc copy assign save SparseTrie") { TC<bats::SimplicialComplex>::run(c); }
TEST(cubical, 900, "CubicalComplex add add_recursive find_idx get_cube boundary_csc skeleton load_cubes") { TC<bats::CubicalComplex>::run(c); }
TEST(light, 900, "LightSimplicialComplex add add_recursive find_idx key_to_simplex boundary boundary_csc") { TC<bats::LightSimplicialComplex<size_t>>::run(c); }
// sparse vertex names, directed simplices
TEST(bigverts, 300, "SimplicialComplex with arbitrary vertex names") { Rng& g = c.g; bats::SimplicialComplex X; std::vector<size_t> nm{0, 5, 1000000, 2147483647, 2147483648u, 4294967296u, size_t(1) << 40, 123456789012345}; std::vector<Sx> L; SC s = SC::random(g, nm.size(), 3, 4); auto ren = [&](Sx v) { for (auto& x : v) x = nm[x]; std::sort(v.begin(), v.end()); return v; }; std::string lg; for (auto& v : s.all()) lg += show(ren(v)); c.in(lg); c.nontrivial(); for (auto& v : s.all()) X.add(ren(v)); for (auto& v : s.all()) { size_t i = X.find_idx(ren(v)); CHECK(i != bats::NO_IND && X.get_simplex(v.size() - 1, i) == ren(v), "look-up"); } char t[] = "/tmp/vhXXXXXX"; int fd = mkstemp(t); close(fd); std::string fn = t, why; X.save(fn); bool ok = true; try { bats::SimplicialComplex Y{std::string(fn)}; for (size_t k = 0; k <= X.maxdim(); k++) CHECK(X.get_simplices(k) == Y.get_simplices(k), "re-loaded cells"); } catch (std::exception& e) { ok = false; why = e.what(); } unlink(t); CHECK(ok, "saving and re-loading: " << why); }
TEST(directed, 300, "SimplicialComplex::add_directed add_directed_recursive") { Rng& g = c.g; bats::SimplicialComplex X; size_t nv = 2 + g.below(4); std::vector<std::vector<Sx>> L(4); std::string lg; for (size_t t = 1 + g.below(5); t-- > 0;) { Sx s; size_t d = g.below(std::min<size_t>(4, nv)); while (s.size() < d + 1) { size_t x = g.below(nv); if (std::find(s.begin(), s.end(), x) == s.end()) s.push_back(x); } lg += " " + show(s); c.in(lg); if (g.chance(1, 2)) { Sx w = s; X.add_directed_recursive(w); } else { std::function<void(const Sx&)> rec = [&](const Sx& f) { if (f.size() > 1) for (size_t i = 0; i < f.size(); i++) { Sx q = f; q.erase(q.begin() + i); rec(q); } size_t o = X.find_idx(f), n = X.ncells(f.size() - 1); auto r = X.add_directed(f); CHECK(r.ind == (o == bats::NO_IND ? n : o), "index of a directed simplex"); }; rec(s); } }
  if (X.maxdim() > 0) c.nontrivial(); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) L[k].push_back(X.get_simplex(k, i)); L.resize(X.maxdim() + 1); for (auto& l : L) for (size_t i = 0; i < l.size(); i++) CHECK(X.find_idx(l[i]) == i, "look-up"); auto D = simp_boundary<F3>(L); bats::ChainComplex<CM<F3>> cc(X); match_sign(D, cc); CHECK(cc.is_valid_complex(), "boundary of a boundary"); }
TEST(setops, 800, "union_add simplicial_union intersection get_indices") { Rng& g = c.g; size_t nv = 1 + g.below(6); SC a = SC::random(g, nv, g.below(4), 4), b = SC::random(g, nv, g.below(4), 4); if (g.chance(1, 3)) b += SC::sub(g, a); bats::SimplicialComplex X(nv, a.S.size() - 1), Y(nv, b.S.size() - 1); fill(g, X, a); fill(g, Y, b); c.in(a.str() + " and " + b.str()); if (a.n(0) && b.n(0)) c.nontrivial(); CK<bats::SimplicialComplex> U(nv, 0);
  auto same = [&](const bats::SimplicialComplex& Z, const SC& e, const std::string& w) { U.X = Z; U.L.assign(std::max(e.S.size(), Z.maxdim() + 1), {}); for (size_t k = 0; k < U.L.size(); k++) { for (size_t i = 0; i < Z.ncells(k); i++) U.L[k].push_back(Z.get_simplex(k, i)); std::set<Sx> q(U.L[k].begin(), U.L[k].end()); CHECK(q.size() == U.L[k].size() && (k < e.S.size() ? q == e.S[k] : q.empty()), w << ": cells in dimension " << k << " " << show(U.L[k])); } U.verify(g, w); };
  SC u = a; u += b; SC it; it.S.resize(1); for (auto& v : a.all()) if (b.has(v)) it.close(v); bats::SimplicialComplex Z = X; Z.union_add(Y); same(Z, u, "union_add"); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) CHECK(Z.get_simplex(k, i) == X.get_simplex(k, i), "union_add keeps the indices of the first complex"); same(simplicial_union(X, Y), u, "simplicial_union"); same(intersection(X, Y), it, "intersection"); same(X, a, "first operand"); same(Y, b, "second operand"); auto I = Z.get_indices(Y); for (size_t k = 0; k <= Z.maxdim(); k++) { CHECK(I[k].size() == Y.ncells(k), "get_indices size"); for (size_t i = 0; i < I[k].size(); i++) CHECK(Z.get_simplex(k, I[k][i]) == Y.get_simplex(k, i), "get_indices"); } }
// TriangulatedProduct: simplices are the chains (x_0,y_0) <= ... <= (x_k,y_k) whose projections are simplices
template <class CpxT> void product(h::Ctx& c) { Rng& g = c.g; size_t nx = 1 + g.below(4), ny = 1 + g.below(4); SC a = SC::random(g, nx, 1 + g.below(2), 3), b = SC::random(g, ny, 1 + g.below(2), 3); auto close0 = [](SC& s, size_t n) { for (size_t i = 0; i < n; i++) s.close({i}); }; close0(a, nx); close0(b, ny); size_t md = g.below(5); CpxT X(nx, a.S.size() - 1), Y(ny, b.S.size() - 1); fill(g, X, a); fill(g, Y, b); c.in(a.str() + " x " + b.str() + " up to dimension " + std::to_string(md)); if (nx > 1 && ny > 1) c.nontrivial();
  std::vector<std::set<Sx>> E(md + 1); std::function<void(Sx)> rec = [&](Sx p) { if (p.size() > md + 1) return; if (p.size()) E[p.size() - 1].insert(p); for (size_t v = 0; v < nx * ny; v++) { if (p.size()) { if (v == p.back() || v % nx < p.back() % nx || v / nx < p.back() / nx) continue; } Sx q = p; q.push_back(v); std::set<size_t> px, py; for (auto t : q) { px.insert(t % nx); py.insert(t / nx); } if (a.has(Sx(px.begin(), px.end())) && b.has(Sx(py.begin(), py.end()))) rec(q); } }; rec({});
  // simplices of dimension at most md that lie in a product of cells of total dimension at most md
  for (auto& e : E) for (auto it = e.begin(); it != e.end();) { std::set<size_t> px, py; for (auto t : *it) { px.insert(t % nx); py.insert(t / nx); } if (px.size() + py.size() - 2 > md) it = e.erase(it); else ++it; }
  CpxT P = bats::TriangulatedProduct(X, Y, md, nx); CHECK(P.maxdim() == md, "maxdim"); std::vector<std::vector<Sx>> L(md + 1); for (size_t k = 0; k <= md; k++) { for (size_t i = 0; i < P.ncells(k); i++) { auto s = P.get_simplex(k, i); L[k].push_back(Sx(s.begin(), s.end())); CHECK(P.find_idx(L[k].back()) == i, "look-up"); } std::set<Sx> q(L[k].begin(), L[k].end()); CHECK(q.size() == L[k].size() && q == E[k], "cells of the product in dimension " << k << ": " << show(L[k])); } auto D = simp_boundary<F3>(L); bats::ChainComplex<CM<F3>> cc(P); match_sign(D, cc); }
TEST(tri_product, 300, "TriangulatedProduct product_paths") { if (c.k % 3) product<bats::SimplicialComplex>(c); else product<bats::SimplicialComplex>(c); }
TEST(cell, 500, "CellComplex add add_vertices boundary_csc ncells") { Rng& g = c.g; bats::CellComplex X; size_t nv = g.below(6); std::string lg; if (g.chance(1, 2)) CHECK(X.add_vertices(nv) == nv, "add_vertices"); else for (size_t i = 0; i < nv; i++) CHECK(X.add_vertex() == i, "add_vertex"); std::vector<std::vector<std::vector<int>>> B(4); std::vector<size_t> n{nv, 0, 0, 0}; for (size_t t = g.below(10); t-- > 0;) { size_t k = 1 + g.below(3); std::vector<size_t> b; std::vector<int> cf; std::vector<int> col(n[k - 1], 0); for (size_t i = 0; i < n[k - 1]; i++) if (g.chance(1, 2)) { b.push_back(i); cf.push_back(g.chance(1, 2) ? 1 : -1); col[i] = (cf.back() + 3) % 3; } lg += " " + std::to_string(k) + show(b) + show(cf); c.in(lg); size_t r = X.add(b, cf, k); CHECK(r == n[k], "index of the new cell"); n[k]++; B[k].push_back(col); } c.nontrivial(); size_t tot = 0; for (size_t k = 0; k < 4; k++) { CHECK(X.ncells(k) == n[k], "ncells"); tot += n[k]; } CHECK(X.ncells() == tot, "ncells"); bats::CellComplex Y = X, Z; Z = Y; Y.add_vertex(); for (size_t k = 1; k <= X.maxdim(); k++) for (auto* W : {&X, &Z}) { Mat<F3> E(n[k - 1], n[k]); for (size_t j = 0; j < n[k]; j++) for (size_t i = 0; i < B[k][j].size(); i++) E(i, j) = B[k][j][i]; Mat<F3>::same(ColumnMatrix<SparseVector<F3, size_t>>(W->boundary_csc(k)), E, "boundary of a cell complex"); Mat<F3>::same(ColumnMatrix<SparseVector<F3, size_t>>(W->boundary(k)), E, "boundary of a cell complex"); } }
