// P11: chain maps and induced maps
#include "scx.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using P = Ops<F>; using V = Vec<F>; using Ms = std::vector<M>; using CMap = bats::ChainMap<C>; using RC = bats::ReducedChainComplex<C>; using RH = bats::ReducedCochainComplex<C>; using RD = bats::ReducedDGVectorSpace<C>;
  static M reps(RC& r, size_t k, size_t n) { M X(n, r.hdim(k)); for (size_t j = 0; j < r.hdim(k); j++) X.setcol(j, P::to(r.get_preferred_representative(j, k), n, "rep")); return X; }
  template <class R> static M repsG(R& r, size_t k, size_t n) { M X(n, r.hdim(k)); for (size_t j = 0; j < r.hdim(k); j++) X.setcol(j, P::to(r.get_preferred_representative(j, k), n, "rep")); return X; }
  static CMap mk(const Ms& f) { std::vector<C> v; for (auto& m : f) v.push_back(m.mk()); return CMap(v); }
  // commuting with boundaries, on the library's matrices
  static void commutes(const CMap& f, const DC<F>& A, const DC<F>& B, const std::string& w) { for (size_t k = 0; k <= f.maxdim(); k++) { M fk = M::of(f[k], "chain map", false); CHECK(fk.m == B.dim(k) && fk.n == A.dim(k), w << ": chain map dimensions in degree " << k); if (k) { M l = k < B.B.size() ? B.B[k] * fk : M(B.dim(k - 1), A.dim(k)), r = M::of(f[k - 1], "chain map", false) * A.B[k]; CHECK(l == r, w << ": does not commute with the boundary in degree " << k); } } }
  static M img(const C& H, const M& XA, const M& XB, const M& fk, const M& inB, const std::string& w) { CHECK(H.nrow() == XB.n && H.ncol() == XA.n, w << ": induced map has dimensions " << H.nrow() << "x" << H.ncol()); M h = M::of(H, "induced map", false); M e = fk * XA, y = XB * h; CHECK(inspan(inB, e + negm(y)), w << ": induced map " << h.str() << " sends a class to the wrong class; map " << fk.str()); return h; }
  // all flavours of induced map for chain maps f: A -> B
  struct Red { DC<F> D; RC c; RH h; RD dm, dp; GC<F> gc, gh; };
  static Red red(Rng& g, const DC<F>& D) { using namespace bats; extra_reduction_flag x; standard_reduction_flag s; clearing_flag cl; compression_flag cp; compute_basis_flag b; M aug(0, D.dim(0)); auto cc = MK<F>::chain(D); Red r{D, RC(cc), RH(MK<F>::cochain(D)), RD(MK<F>::dg(D, -1, aug)), RD(MK<F>::dg(D, 1, aug)), GC<F>::chain(D), GC<F>::cochain(D)};
    switch (g.below(4)) { case 0: r.c = RC(cc, x, b); break; case 1: r.c = RC(cc, s, cl, b); break; case 2: r.c = RC(cc, x, cp, b); break; default:; } return r; }
  struct Ind { Ms c, h, dm, dp; };
  static Ind ind(const CMap& f, Red& A, Red& B, const std::string& w) { Ind r; bats::DGLinearMap<C> fm(f.map), fp; for (auto& m : f.map) fp.map.push_back(m.T());
    for (size_t k = 0; k < A.D.B.size(); k++) { if (k >= B.D.B.size()) break; std::string q = w + " degree " + std::to_string(k); M fk = M::of(f[k], "f", false); size_t na = A.D.dim(k), nb = B.D.dim(k);
      r.c.push_back(img(induced_map(f, A.c, B.c, k), repsG(A.c, k, na), repsG(B.c, k, nb), fk, B.gc.in[k], q + " chain"));
      r.dm.push_back(img(induced_map(fm, A.dm, B.dm, k), repsG(A.dm, k, na), repsG(B.dm, k, nb), fk, B.gc.in[k], q + " dg-1"));
      r.h.push_back(img(induced_map(f, A.h, B.h, k), repsG(B.h, k, nb), repsG(A.h, k, na), fk.t(), A.gh.in[k], q + " cochain"));
      r.dp.push_back(img(induced_map(fp, B.dp, A.dp, k), repsG(B.dp, k, nb), repsG(A.dp, k, na), fk.t(), A.gh.in[k], q + " dg+1")); }
    return r; }
  static void compose(const Ind& f, const Ind& g, const Ind& gf, const std::string& w) { for (size_t k = 0; k < f.c.size() && k < g.c.size() && k < gf.c.size(); k++) { CHECK(gf.c[k] == g.c[k] * f.c[k], w << ": induced maps do not compose (chain)"); CHECK(gf.dm[k] == g.dm[k] * f.dm[k], w << ": compose (dg-1)"); CHECK(gf.h[k] == f.h[k] * g.h[k], w << ": compose (cochain)"); CHECK(gf.dp[k] == f.dp[k] * g.dp[k], w << ": compose (dg+1)"); } }
  static void isid(const Ind& f, const std::string& w) { for (auto* v : {&f.c, &f.h, &f.dm, &f.dp}) for (auto& m : *v) CHECK(m == M::id(m.m), w << ": the identity does not induce the identity: " << m.str()); }
  // f += d h + h d for random h: a homotopic chain map
  static void homotope(Rng& g, Ms& f, const DC<F>& A, const DC<F>& B) { size_t n = A.B.size(); if (g.chance(1, 3)) return; Ms h(n); for (size_t k = 0; k < n; k++) h[k] = g.chance(1, 3) ? M(B.dim(k + 1), A.dim(k)) : M::random(g, B.dim(k + 1), A.dim(k)); if (o::name() == "Q") for (auto& m : h) for (auto& r : m.a) for (auto& x : r) if (x != o::zero()) x = g.chance(1, 2) ? o::one() : o::neg(o::one());
    for (size_t k = 0; k < n && k < f.size(); k++) { if (k + 1 < B.B.size()) f[k] = f[k] + B.B[k + 1] * h[k]; if (k) f[k] = f[k] + h[k - 1] * A.B[k]; } }
  static void alg(Ctx& c) { Rng& g = c.g; bool q = o::name() == "Q"; size_t md = q ? 1 : 2, mn = q ? 3 : 6; DC<F> A = random_complex<F>(g, md, mn), E; E = random_complex<F>(g, md, q ? 2 : 4); while (E.B.size() < A.B.size()) E.B.push_back(M(E.B.back().n, 0)); while (A.B.size() < E.B.size()) A.B.push_back(M(A.B.back().n, 0));
    size_t n = A.B.size(); DC<F> S; Ms f(n), p(n); for (size_t k = 0; k < n; k++) { size_t a = A.dim(k), e = E.dim(k); M B(k ? A.dim(k - 1) + E.dim(k - 1) : 1, a + e); for (size_t i = 0; i < A.B[k].m; i++) for (size_t j = 0; j < a; j++) B(i, j) = A.B[k](i, j); if (k) for (size_t i = 0; i < E.B[k].m; i++) for (size_t j = 0; j < e; j++) B(A.dim(k - 1) + i, a + j) = E.B[k](i, j); S.B.push_back(B); f[k] = M(a + e, a); p[k] = M(a, a + e); for (size_t i = 0; i < a; i++) f[k](i, i) = p[k](i, i) = o::one(); }
    // random changes of basis of S
    for (size_t t = g.below(q ? 3 : 12); t-- > 0;) { size_t k = g.below(n), d = S.dim(k); if (d < 2) continue; size_t i = g.below(d), j = g.below(d); if (i == j) continue; auto z = q ? o::one() : o::rndnz(g), nz = o::neg(z); for (size_t r = 0; r < S.B[k].m; r++) S.B[k](r, j) = o::add(S.B[k](r, j), o::mul(z, S.B[k](r, i))); if (k + 1 < n) for (size_t r = 0; r < S.B[k + 1].n; r++) S.B[k + 1](i, r) = o::add(S.B[k + 1](i, r), o::mul(nz, S.B[k + 1](j, r))); for (size_t r = 0; r < f[k].n; r++) f[k](i, r) = o::add(f[k](i, r), o::mul(nz, f[k](j, r))); for (size_t r = 0; r < p[k].m; r++) p[k](r, j) = o::add(p[k](r, j), o::mul(z, p[k](r, i))); }
    homotope(g, f, A, S); homotope(g, p, S, A); std::string in = o::name() + A.str() + " ; S" + S.str(); for (auto& m : f) in += " f" + m.str(); for (auto& m : p) in += " g" + m.str(); c.in(in); if (A.dim(0) > 1) c.nontrivial();
    CMap cf = mk(f), cp = mk(p); commutes(cf, A, S, "generator"); commutes(cp, S, A, "generator"); Ms pf(n), fp(n), id(n); for (size_t k = 0; k < n; k++) { pf[k] = p[k] * f[k]; fp[k] = f[k] * p[k]; id[k] = M::id(A.dim(k)); }
    Red ra = red(g, A), rs = red(g, S); Ind i1 = ind(cf, ra, rs, "f"), i2 = ind(cp, rs, ra, "g"), i3 = ind(mk(pf), ra, ra, "gf"), i4 = ind(mk(fp), rs, rs, "fg"); compose(i1, i2, i3, "g after f"); compose(i2, i1, i4, "f after g"); isid(i3, "map homotopic to the identity"); isid(ind(mk(id), ra, ra, "id"), "identity");
    // wrong dimensions are refused
    for (size_t k = 0; k < n; k++) if (A.dim(k) != S.dim(k)) { bool th = false; try { induced_map(cf, rs.c, ra.c, k); } catch (std::runtime_error&) { th = true; } CHECK(th, "mismatched dimensions accepted"); break; }
    // change of basis
    { size_t k = g.below(n); auto pr = rndperm(g, S.dim(k)), pc = rndperm(g, A.dim(k)); CMap x = cf; x.permute_row_basis(k, pr); std::vector<size_t> ida; for (size_t i = 0; i < A.dim(k); i++) ida.push_back(i); M::same(x[k], f[k].sub(pr, ida), "permute_row_basis", false); }
    // relative map
    { std::vector<std::vector<size_t>> r1(n), r2(n); Ms e(n); for (size_t k = 0; k < n; k++) { std::vector<size_t> kr, kc; for (size_t i = 0; i < S.dim(k); i++) (g.chance(1, 3) ? r1[k] : kr).push_back(i); for (size_t i = 0; i < A.dim(k); i++) (g.chance(1, 3) ? r2[k] : kc).push_back(i); e[k] = f[k].sub(kr, kc); std::reverse(r1[k].begin(), r1[k].end()); } auto x = cf.relative_map(r1, r2); for (size_t k = 0; k < n; k++) M::same(x[k], e[k], "relative_map", false); } }
  template <class CpxT> static void check_simp(const bats::CellularMap& f, const CpxT& X, const CpxT& Y, const std::vector<std::vector<Sx>>& LX, const std::vector<std::vector<Sx>>& LY, const Sx& f0, const std::string& w) { CHECK(f.maxdim() == X.maxdim(), w << ": maxdim"); CMap cf(f); for (size_t k = 0; k < LX.size(); k++) { M e(k < LY.size() ? LY[k].size() : 0, LX[k].size()); for (size_t j = 0; j < LX[k].size(); j++) { Sx s; for (auto v : LX[k][j]) s.push_back(f0[v]); int sg = sgn(s); std::sort(s.begin(), s.end()); if (sg) { long i = find(LY[k], s); CHECK(i >= 0, "generator: image simplex"); e(i, j) = sg > 0 ? o::one() : o::neg(o::one()); } } M::same(cf[k], e, (w + ": chain map of a simplicial map").c_str()); } }
  template <class CpxT> static void simpl(Ctx& c) { Rng& g = c.g; size_t nx = 1 + g.below(6), ny = 1 + g.below(6), nz = 1 + g.below(5); size_t md = g.below(4); SC sx = SC::random(g, nx, md, 5); Sx f0(nx), g0(ny), h0(nx), i0(nx); for (auto& v : f0) v = g.below(ny); for (auto& v : g0) v = g.below(nz); for (size_t i = 0; i < nx; i++) { h0[i] = g0[f0[i]]; i0[i] = i; }
    if (g.chance(1, 4)) { if (ny >= nx) for (size_t i = 0; i < nx; i++) f0[i] = (i + 1) % ny, h0[i] = g0[f0[i]]; }
    auto image = [&](const SC& a, const Sx& m) { SC r; r.S.resize(1); for (auto& v : a.all()) { std::set<size_t> s; for (auto x : v) s.insert(m[x]); r.close(Sx(s.begin(), s.end())); } return r; };
    SC sa = SC::sub(g, sx), sy = image(sx, f0); if (g.chance(2, 3)) sy += SC::random(g, ny, md, 3); SC sb = image(sa, f0); if (g.chance(1, 2)) sb += SC::sub(g, sy); SC sz = image(sy, g0); if (g.chance(2, 3)) sz += SC::random(g, nz, md, 2); if (sa.S[0].empty()) sa.close(*sx.S[0].begin()); if (sb.S[0].empty()) sb.close(*sy.S[0].begin()); for (auto& v : image(sa, f0).all()) sb.close(v);
    auto dim = [&](const SC& s) { size_t d = s.S.size() - 1; return g.chance(1, 2) ? d : std::max(d, md); };
    CpxT X(nx, dim(sx)), Y(ny, dim(sy)), Z(nz, dim(sz)), A(nx, sa.S.size() - 1), B(ny, sb.S.size() - 1); fill(g, X, sx); fill(g, Y, sy); fill(g, Z, sz); fill(g, A, sa); fill(g, B, sb);
    c.in(o::name() + " X " + sx.str() + " maxdim " + std::to_string(X.maxdim()) + " Y " + sy.str() + " maxdim " + std::to_string(Y.maxdim()) + " Z " + sz.str() + " f0 " + show(f0) + " g0 " + show(g0) + " A " + sa.str() + " B " + sb.str()); if (sx.n(0) > 1) c.nontrivial();
    auto L = [&](const CpxT& K) { return cells(K, K.maxdim() + 1); }; auto LX = L(X), LY = L(Y), LZ = L(Z), LA = L(A); bats::ChainComplex<C> cx(X), cy(Y), cz(Z); auto DX = simp_boundary<F>(LX), DY = simp_boundary<F>(LY), DZ = simp_boundary<F>(LZ); match_sign(DX, cx); match_sign(DY, cy); match_sign(DZ, cz);
    auto f = bats::SimplicialMap(X, Y, f0), h = bats::SimplicialMap(Y, Z, g0), hf = bats::SimplicialMap(X, Z, h0); check_simp(f, X, Y, LX, LY, f0, "f"); check_simp(h, Y, Z, LY, LZ, g0, "g"); check_simp(hf, X, Z, LX, LZ, h0, "gf");
    CMap cf(f), ch(h), chf(hf); commutes(cf, DX, DY, "f"); commutes(ch, DY, DZ, "g"); commutes(chf, DX, DZ, "gf"); for (size_t k = 0; k <= cf.maxdim() && k <= ch.maxdim(); k++) CHECK(M::of(ch[k], "g") * M::of(cf[k], "f") == M::of(chf[k], "gf"), "the chain map of a composite is not the product, degree " << k);
    Red rx = red(g, DX), ry = red(g, DY), rz = red(g, DZ); auto I1 = ind(cf, rx, ry, "f"), I2 = ind(ch, ry, rz, "g"), I3 = ind(chf, rx, rz, "gf"); compose(I1, I2, I3, "g after f");
    auto idm = bats::CellularMap::identity(X); check_simp(idm, X, X, LX, LX, i0, "identity"); isid(ind(CMap(idm), rx, rx, "identity"), "identity"); auto inc0 = bats::SimplicialMap(X, X); check_simp(inc0, X, X, LX, LX, i0, "self inclusion");
    // maps written to a file and read back; maps filled in one dimension at a time
    if (g.chance(1, 4)) { char t[] = "/tmp/vhXXXXXX"; int fd = mkstemp(t); close(fd); std::string fn = t; f.save(fn); bool ok = true; std::string why; try { bats::CellularMap r(fn); CHECK(r.maxdim() == f.maxdim(), "re-loaded map: maxdim " << r.maxdim()); check_simp(r, X, Y, LX, LY, f0, "re-loaded map"); } catch (std::exception& e) { ok = false; why = e.what(); } unlink(t); CHECK(ok, "re-loading a saved map: " << why); }
    { bats::CellularMap q; for (size_t k = 0; k <= X.maxdim(); k++) q[k] = f[k]; check_simp(q, X, Y, LX, LY, f0, "map filled by dimension"); }
    // inclusions
    bats::CellularMap ia(A, X); check_simp(ia, A, X, LA, LX, i0, "inclusion"); check_simp(bats::SimplicialMap(A, X), A, X, LA, LX, i0, "inclusion"); bool sub = true; for (auto& v : sx.all()) if (!sa.has(v)) sub = false; if (!sub) { bool th = false; try { bats::CellularMap bad(X, A); } catch (std::out_of_range&) { th = true; } CHECK(th, "inclusion of a complex that is not contained"); }
    // degree +1 maps are the transposes
    { bats::DGLinearMap<C> m(f, -1), t(f, 1); for (size_t k = 0; k <= f.maxdim(); k++) { M e = M::of(cf[k], "f"); M::same(m[k], e, "DGLinearMap"); M::same(t[k], e.t(), "DGLinearMap of degree +1"); } bool th = false; try { bats::DGLinearMap<C> b(f, 2); } catch (std::runtime_error&) { th = true; } CHECK(th, "degree 2"); }
    // functors on diagrams X -> Y -> Z
    { bats::Diagram<CpxT, bats::CellularMap> D(3, 2); D.set_node(0, X); D.set_node(1, Y); D.set_node(2, Z); D.set_edge(0, 0, 1, f); D.set_edge(1, 1, 2, h); auto CD = bats::Chain(D, F()); M::same(CD.edge_data(0)[0], M::of(cf[0], "f"), "Chain of a diagram"); size_t mdm = std::min(X.maxdim(), std::min(Y.maxdim(), Z.maxdim())); for (size_t k = 0; k <= mdm; k++) { auto HD = bats::Hom(CD, k); CHECK(HD.nnode() == 3 && HD.nedge() == 2 && HD.edge_source(1) == 1 && HD.edge_target(1) == 2 && HD.edge_source(0) == 0 && HD.edge_target(0) == 1, "diagram shape"); img(HD.edge_data(0), repsG(HD.node_data(0), k, DX.dim(k)), repsG(HD.node_data(1), k, DY.dim(k)), M::of(cf[k], "f"), GC<F>::chain(DY).in[k], "Hom of a diagram"); img(HD.edge_data(1), repsG(HD.node_data(1), k, DY.dim(k)), repsG(HD.node_data(2), k, DZ.dim(k)), M::of(ch[k], "g"), GC<F>::chain(DZ).in[k], "Hom of a diagram"); }
      if (X.maxdim() == Y.maxdim() && Y.maxdim() == Z.maxdim()) { auto HD = bats::Hom(CD, true); CHECK(HD.edge_data(0).size() == X.maxdim() + 1, "Hom in all dimensions"); for (size_t k = 0; k <= X.maxdim(); k++) img(HD.edge_data(1)[k], repsG(HD.node_data(1), k, DY.dim(k)), repsG(HD.node_data(2), k, DZ.dim(k)), M::of(ch[k], "g"), GC<F>::chain(DZ).in[k], "Hom in all dimensions");
        for (int deg : {-1, 1}) { auto G = bats::DGLinearFunctor<C>(D, deg); for (size_t k = 0; k <= mdm; k++) { auto H2 = bats::Hom(G, k); size_t s = H2.edge_source(1), t = H2.edge_target(1); CHECK(s == (deg < 0 ? 1u : 2u) && t == (deg < 0 ? 2u : 1u), "direction of the arrows"); const DC<F>&S = deg < 0 ? DY : DZ, &T = deg < 0 ? DZ : DY; M fk = M::of(ch[k], "g"); img(H2.edge_data(1), repsG(H2.node_data(s), k, S.dim(k)), repsG(H2.node_data(t), k, T.dim(k)), deg < 0 ? fk : fk.t(), deg < 0 ? GC<F>::chain(T).in[k] : GC<F>::cochain(T).in[k], "Hom of a dg diagram"); } } } }
    // relative maps (X,A) -> (Y,B)
    if constexpr (std::is_same<CpxT, bats::SimplicialComplex>::value) { auto keep = [](const std::vector<std::vector<Sx>>& L, const SC& s) { std::vector<std::vector<size_t>> r; for (auto& l : L) { r.emplace_back(); for (size_t i = 0; i < l.size(); i++) if (!s.has(l[i])) r.back().push_back(i); } return r; }; auto kx = keep(LX, sa), ky = keep(LY, sb); auto reld = [](const DC<F>& D, const std::vector<std::vector<size_t>>& k) { DC<F> R; for (size_t i = 0; i < D.B.size(); i++) R.B.push_back(i ? D.B[i].sub(k[i - 1], k[i]) : M(1, k[0].size())); return R; }; auto RX = reld(DX, kx), RY = reld(DY, ky); bats::ChainComplex<C> cxa(X, A), cyb(Y, B); for (size_t k = 0; k < RX.B.size(); k++) M::same(cxa[k], RX.B[k], "relative chain complex"); for (size_t k = 0; k < RY.B.size(); k++) M::same(cyb[k], RY.B[k], "relative chain complex");
      CMap rel(f, X, A, Y, B); for (size_t k = 0; k <= X.maxdim(); k++) { M e = k < ky.size() ? M::of(cf[k], "f").sub(ky[k], kx[k]) : M(0, kx[k].size()); M::same(rel[k], e, "relative chain map"); } commutes(rel, RX, RY, "relative"); Red r1 = red(g, RX), r2 = red(g, RY); ind(rel, r1, r2, "relative");
      std::vector<std::vector<size_t>> ai; for (size_t k = 0; k < LX.size(); k++) { ai.emplace_back(); for (size_t i = LX[k].size(); i-- > 0;) if (sa.has(LX[k][i])) ai.back().push_back(i); } auto a2 = ai; auto q = cx.relative_complex(a2); for (size_t k = 0; k < RX.B.size(); k++) M::same(q[k], RX.B[k], "relative_complex"); a2 = ai; auto sc = cx.subcomplex(a2); for (size_t k = 0; k < DX.B.size(); k++) M::same(sc[k], k ? DX.B[k].sub(a2[k - 1], a2[k]) : M(1, a2[0].size()), "subcomplex"); } }
  static void simp(Ctx& c) { simpl<bats::SimplicialComplex>(c); }
  static void light(Ctx& c) { simpl<bats::LightSimplicialComplex<size_t>>(c); }
  static void cube(Ctx& c) { Rng& g = c.g; size_t d = 1 + g.below(3); bats::CubicalComplex X(d), Y(d); std::string in = o::name() + " cubes"; auto cube = [&] { std::vector<size_t> s; for (size_t i = 0; i < d; i++) { size_t a = g.below(3); s.push_back(a); s.push_back(a + g.below(2)); } return s; }; size_t m = 1 + g.below(4), n = g.below(3); for (size_t i = 0; i < n; i++) { auto s = cube(); Y.add_recursive(s); in += " Y" + show(s); } for (size_t i = 0; i < m; i++) { auto s = cube(); Y.add_recursive(s); X.add_recursive(s); in += " " + show(s); } c.in(in); c.nontrivial();
    auto f = bats::CubicalMap(X, Y); CMap cf(f); bats::ChainComplex<C> cx(X), cy(Y); CHECK(cx.is_valid_complex() && cy.is_valid_complex(), "boundary of a boundary"); auto dd = [](const bats::ChainComplex<C>& q) { DC<F> D; for (size_t k = 0; k <= q.maxdim(); k++) D.B.push_back(M::of(q[k], "boundary", false)); return D; }; auto DX = dd(cx), DY = dd(cy); for (size_t k = 0; k <= d; k++) { M e(Y.ncells(k), X.ncells(k)); auto cy = Y.get_cubes(k); for (size_t j = 0; j < X.ncells(k); j++) { long i = find(cy, X.get_cube(k, j)); CHECK(i >= 0, "cube"); e(i, j) = o::one(); } M::same(cf[k], e, "cubical inclusion"); } commutes(cf, DX, DY, "inclusion"); Red rx = red(g, DX), ry = red(g, DY); ind(cf, rx, ry, "inclusion"); isid(ind(CMap(bats::CellularMap::identity(X)), rx, rx, "identity"), "identity"); if (n) { bool sub = true; for (size_t k = 0; k <= d; k++) if (X.ncells(k) != Y.ncells(k)) sub = false; if (!sub) { bool th = false; try { bats::CubicalMap(Y, X); } catch (std::out_of_range&) { th = true; } CHECK(th, "inclusion of a complex that is not contained"); } } }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(alg, 1200, "induced_map (chain, cochain, dg) permute_row_basis relative_map")
TT(simp, 600, "SimplicialMap CellularMap ChainMap DGLinearMap induced_map Chain Hom relative")
TT(light, 400, "SimplicialMap on LightSimplicialComplex")
TT(cube, 300, "CubicalMap CellularMap induced_map")
