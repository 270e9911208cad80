// P19: quiver and zigzag barcodes record interval ranks
// FLAGS: -fopenmp
#include "rep.hpp"
template <class F> struct TF { using M = Mat<F>; using C = CM<F>; using o = O<F>; using P = Ops<F>; using FT = Filt<F>; using Dg = bats::Diagram<int, C>;
  static Dg dgm(const Rep<F>& r) { Dg D(r.d.size(), r.A.size()); for (size_t e = 0; e < r.A.size(); e++) D.set_edge(e, r.left[e] ? e + 1 : e, r.left[e] ? e : e + 1, r.A[e].mk()); return D; }
  static Rep<F> random(Rng& g, size_t nmax, size_t dmax) { Rep<F> r; size_t n = 2 + g.below(nmax - 1); int st = int(g.below(4)); size_t dc = g.below(dmax + 1); for (size_t i = 0; i < n; i++) r.d.push_back(st == 0 ? dc : g.below(dmax + 1)); for (size_t e = 0; e + 1 < n; e++) { bool l = st == 1 ? false : st == 2 ? true : g.chance(1, 2); r.left.push_back(l); size_t s = r.d[l ? e + 1 : e], t = r.d[l ? e : e + 1]; M A = M::random(g, t, s); if (std::is_same<typename o::R, Q>::value) for (auto& q : A.a) for (auto& x : q) if (x != o::zero()) x = g.chance(1, 2) ? o::one() : o::neg(o::one()); if (t == s && g.chance(1, 3)) A = M::id(t); r.A.push_back(A); } return r; }
  static void check(const std::vector<bats::PersistencePair<size_t>>& v, const Rep<F>& r, const Bars& e, size_t hd, const std::string& w) { Bars b; std::vector<std::set<size_t>> st(r.d.size()), en(r.d.size()); for (auto& p : v) { CHECK(p.dim == hd, w << ": dimension of a bar"); CHECK(p.birth <= p.death && p.death < r.d.size(), w << ": bar [" << p.birth << "," << p.death << "]"); b[{p.birth, p.death}]++; CHECK(p.birth_ind < r.d[p.birth] && st[p.birth].insert(p.birth_ind).second, w << ": start index"); CHECK(p.death_ind < r.d[p.death] && en[p.death].insert(p.death_ind).second, w << ": end index"); } CHECK(b == e, w << ": bars " << bstr(b) << " expected " << bstr(e)); }
  // matrices in barcode form: at most one entry per row and column
  static void form(const std::vector<C>& m, const Rep<F>& r, const std::string& w) { CHECK(m.size() == r.A.size(), w << ": number of matrices"); for (size_t e = 0; e < m.size(); e++) { M q = M::of(m[e], "barcode form", false); CHECK(q.m == r.A[e].m && q.n == r.A[e].n && q.pivot(), w << ": edge " << e << " not in barcode form: " << q.str()); } }
  static void all(Ctx& c, const Rep<F>& r, bool omp) { c.in(o::name() + " " + r.str()); size_t tot = 0; for (auto x : r.d) tot += x; if (tot > 4) c.nontrivial(); auto e = r.bars(); Dg D = dgm(r); Dg D0 = D; check(bats::barcode(D, 3, bats::flags::rightward()), r, e, 3, "rightward"); check(bats::barcode(D, 1, bats::flags::leftward()), r, e, 1, "leftward"); omp_set_num_threads(omp ? 4 : 1); check(bats::barcode(D, 0, bats::flags::divide_conquer()), r, e, 0, "divide and conquer"); check(bats::barcode(D, 2), r, e, 2, "default"); form(bats::barcode_form_leftright(D), r, "leftright"); form(bats::barcode_form_rightleft(D), r, "rightleft"); form(bats::barcode_form_divide_conquer(D), r, "divide and conquer"); for (size_t i = 0; i < r.A.size(); i++) M::same(D.edata[i], r.A[i], "the diagram was changed"); }
  static void quiver(Ctx& c) { all(c, random(c.g, o::name() == "Q" ? 5 : 7, o::name() == "Q" ? 3 : 5), c.k % 5 == 0); }
  static void quiver_long(Ctx& c) { all(c, random(c.g, o::name() == "Q" ? 7 : 17, o::name() == "Q" ? 2 : 4), true); }
  static void stacked(Ctx& c) { Rng& g = c.g; Rep<F> r = random(g, 5, 3), s = r; for (size_t e = 0; e < s.A.size(); e++) { s.A[e] = M::random(g, r.A[e].m, r.A[e].n); if (std::is_same<typename o::R, Q>::value) for (auto& q : s.A[e].a) for (auto& x : q) if (x != o::zero()) x = o::one(); } c.in(o::name() + " " + r.str() + " and " + s.str()); c.nontrivial(); bats::Diagram<int, std::vector<C>> D(r.d.size(), r.A.size()); for (size_t e = 0; e < r.A.size(); e++) D.set_edge(e, r.left[e] ? e + 1 : e, r.left[e] ? e : e + 1, {r.A[e].mk(), s.A[e].mk()}); auto v = bats::barcode(D, bats::flags::leftward()); std::vector<bats::PersistencePair<size_t>> a, b; for (auto& p : v) (p.dim ? b : a).push_back(p); check(a, r, r.bars(), 0, "dimension 0"); check(b, s, s.bars(), 1, "dimension 1"); }
  // zigzag filtrations: oracle from the homology of every intermediate complex
  struct Ev { double v; bool in; size_t k, i; };
  template <class CpxT, class XF> static void zz(Ctx& c, const XF& fil, const DC<F>& D, const std::vector<std::vector<std::vector<std::pair<double, double>>>>& val, bool dup) { (void)dup; Rng& g = c.g; std::vector<double> ts; std::vector<Ev> ev; for (size_t k = 0; k < val.size(); k++) for (size_t i = 0; i < val[k].size(); i++) for (auto& p : val[k][i]) { ev.push_back({p.first, true, k, i}); ev.push_back({p.second, false, k, i}); }
    std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.v != b.v ? a.v < b.v : a.in && !b.in; });
    // positions: states after all entries, resp. after all removals, of each value
    std::vector<std::pair<double, bool>> pos; std::vector<std::vector<std::vector<size_t>>> st; std::vector<std::set<size_t>> cur(val.size()); for (size_t e = 0; e < ev.size();) { size_t f = e; while (f < ev.size() && ev[f].v == ev[e].v && ev[f].in == ev[e].in) { if (ev[f].in) cur[ev[f].k].insert(ev[f].i); else cur[ev[f].k].erase(ev[f].i); f++; } pos.push_back({ev[e].v, ev[e].in}); std::vector<std::vector<size_t>> s; for (auto& q : cur) s.emplace_back(q.begin(), q.end()); st.push_back(s); e = f; }
    size_t top = D.B.size() - 1; long md = g.chance(1, 3) ? -1 : long(g.below(top + 1)); bool ex = g.chance(1, 2); if (top == 0 && md < 0) md = 0;
    auto z = ex ? bats::zigzag::barcode(fil, md, F(), bats::no_optimization_flag(), bats::extra_reduction_flag()) : bats::zigzag::barcode(fil, md, F(), bats::no_optimization_flag(), bats::standard_reduction_flag()); size_t nd = md < 0 ? top : size_t(md) + 1; CHECK(z.size() == nd, "barcodes in " << z.size() << " dimensions");
    for (size_t k = 0; k < nd; k++) { Rep<F> r; std::vector<M> H, Bd; for (auto& s : st) { M out = k ? D.B[k].sub(s[k - 1], s[k]) : M(1, s[0].size()), in = k + 1 < D.B.size() ? D.B[k + 1].sub(s[k], s[k + 1]) : M(s[k].size(), 0); M K = kernel(out), B = in; M X(s[k].size(), 0); size_t rk = in.rank(); M acc = in; for (size_t j = 0; j < K.n; j++) { M t = hcat(acc, colmat<F>(K.col(j))); if (t.rank() > rk) { rk++; acc = t; X = hcat(X, colmat<F>(K.col(j))); } } H.push_back(X); Bd.push_back(in); r.d.push_back(X.n); }
      for (size_t e = 0; e + 1 < st.size(); e++) { bool l = !pos[e + 1].second; size_t s = l ? e + 1 : e, t = l ? e : e + 1; r.left.push_back(l); M A(r.d[t], r.d[s]); for (size_t j = 0; j < r.d[s]; j++) { Vec<F> x(st[t][k].size(), o::zero()); for (size_t i = 0; i < st[s][k].size(); i++) { size_t at = std::find(st[t][k].begin(), st[t][k].end(), st[s][k][i]) - st[t][k].begin(); CHECK(at < x.size(), "oracle: not an inclusion"); x[at] = H[s](i, j); } // solve [Bd | H] y = x
          M W = hcat(hcat(Bd[t], H[t]), colmat<F>(x)); M N = kernel(W); bool ok = false; for (size_t q = 0; q < N.n; q++) if (N(W.n - 1, q) != o::zero()) { auto f = o::neg(o::inv(N(W.n - 1, q))); for (size_t i = 0; i < r.d[t]; i++) A(i, j) = o::mul(f, N(Bd[t].n + i, q)); ok = true; break; } CHECK(ok, "oracle: class not found"); } r.A.push_back(A); }
      auto e = r.bars(); std::multiset<std::pair<double, double>> exp, got; for (auto& b : e) { double birth = pos[b.first.first].first, death = b.first.second + 1 < pos.size() ? pos[b.first.second + 1].first : std::numeric_limits<double>::max(); if (birth < death) for (size_t q = 0; q < b.second; q++) exp.insert({birth, death}); } for (auto& p : z[k]) { CHECK(p.dim == k, "dimension of a bar"); if (p.birth < p.death) got.insert({p.birth, p.death}); CHECK(p.birth <= p.death, "bar dies before its birth: " << p.str());
        // the events that open and close the bar: a k-cell entering or a (k+1)-cell leaving opens it, a (k+1)-cell entering or a k-cell leaving closes it
        auto evt = [&](size_t d, size_t i, double t, bool in) { if (d >= val.size()) return false; size_t n = val[d].size(); if (i >= n) { /* numbered after all cells: second and later stays of a cell */ for (size_t a = 0; a < val[d].size(); a++) for (size_t b = 1; b < val[d][a].size(); b++) if (n++ == i) return (in ? val[d][a][b].first : val[d][a][b].second) == t; return false; } for (auto& q : val[d][i]) if ((in ? q.first : q.second) == t) return true; return false; };
        CHECK(evt(p.birth_is_entry ? k : k + 1, p.birth_ind, p.birth, p.birth_is_entry), "birth event of " << p.str()); if (p.death_ind != bats::NO_IND) CHECK(evt(p.death_is_entry ? k + 1 : k, p.death_ind, p.death, p.death_is_entry), "death event of " << p.str()); }
      auto ms = [](const std::multiset<std::pair<double, double>>& m) { std::ostringstream s; for (auto& p : m) s << "(" << p.first << "," << p.second << ") "; return s.str(); }; CHECK(got == exp, "zigzag bars in dimension " << k << ": " << ms(got) << "expected " << ms(exp)); } }
  static void zigzag(Ctx& c) { Rng& g = c.g; std::string lg; FT::complexes(g, c, lg, [&](const auto& X, const DC<F>& D) { using XT = std::decay_t<decltype(X)>; size_t tot = 0; for (size_t k = 0; k < D.B.size(); k++) tot += D.dim(k); if (tot > 20 || D.dim(0) == 0) return; bool distinct = g.chance(1, 2), many = g.chance(1, 3), wide = g.chance(4, 5); int R = 2 + int(g.below(9)); std::set<double> used; size_t salt = 0;
      auto pick = [&](double lo, double hi) { for (;;) { double x = distinct ? lo + (hi - lo) * (0.02 + 0.96 * double(g.below(100000)) / 100000.0) : std::floor(lo + (hi - lo) * double(g.below(R + 1)) / R); if (x < lo) x = lo; if (x > hi) x = hi; if (!distinct) return x; if (used.insert(x).second) return x; if (salt++ > 1000) return x; } };
      std::vector<std::vector<std::vector<std::pair<double, double>>>> v(D.B.size()); for (size_t k = 0; k < D.B.size(); k++) { v[k].resize(D.dim(k)); for (size_t j = 0; j < D.dim(k); j++) { std::vector<std::pair<double, double>> iv{{0.0, 100.0}}; if (k) for (size_t i = 0; i < D.dim(k - 1); i++) if (D.B[k](i, j) != o::zero()) { std::vector<std::pair<double, double>> nx; for (auto& a : iv) for (auto& b : v[k - 1][i]) { double lo = std::max(a.first, b.first), hi = std::min(a.second, b.second); if (lo < hi) nx.push_back({lo, hi}); } iv = nx; }
          for (auto& a : iv) { double w = a.second - a.first; bool wd = wide && k + 1 < D.B.size(); double x = wd ? pick(a.first, a.first + 0.3 * w) : pick(a.first, a.second), y = wd ? pick(a.second - 0.3 * w, a.second) : pick(a.first, a.second); if (x > y) std::swap(x, y); if (x == y) continue; if (v[k][j].size() && v[k][j].back().second >= x) continue; if (many && y - x > 8 && g.chance(2, 3)) { double p = x + (y - x) / 3 + 0.01 * double(g.below(100)), q = x + 2 * (y - x) / 3 + 0.01 * double(g.below(100)); if (!distinct) { p = std::floor(p); q = std::floor(q) ; } if (x < p && p < q && q < y) { v[k][j].push_back({x, p}); v[k][j].push_back({q, y}); continue; } } v[k][j].push_back({x, y}); if (!many) break; } } }
      // cells without interval are not in the filtration: keep only complexes where every cell has one
      std::string in = lg + " intervals"; bool ok = true; size_t nint = 0; for (auto& l : v) for (auto& q : l) { in += "["; for (auto& p : q) in += "(" + std::to_string(p.first).substr(0, 6) + "," + std::to_string(p.second).substr(0, 6) + ")"; in += "]"; nint += q.size(); if (q.empty()) ok = false; } if (nint > 18) return; if (!ok) return; c.in(in); if (tot > 3) c.nontrivial(); bats::zigzag::ZigzagFiltration<XT, double> Fz(X, v); zz<XT>(c, Fz, D, v, many); }); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(quiver, 3000, "barcode barcode_form_leftright barcode_form_rightleft barcode_form_divide_conquer barcode_from_barcode_form")
TT(quiver_long, 1000, "type_A_dq_common type_A_dq_EL type_A_dq_EU")
TT(stacked, 600, "extract_dimension barcode")
TT(zigzag, 3000, "zigzag_barcode_reduction prepare_ChainComplex ZigzagChainComplex")
// vertex functions extended to zigzag filtrations: entry = largest vertex value - eps, removal = smallest + eps
TEST(extension, 800, "extend_zigzag_filtration simplex_extrema cube_extrema") { Rng& g = c.g; int lo = -20, hi = g.chance(1, 2) ? -1 : 20; if (c.k % 2) { size_t nv = 1 + g.below(7); SC sc = SC::random(g, nv, 3, 5); bats::SimplicialComplex X(nv, 3); for (size_t i = 0; i < nv; i++) { Sx s{i}; X.add(s); } for (auto v : sc.all()) X.add_recursive(v); std::vector<double> f(nv); for (auto& x : f) x = g.range(lo, hi) / 2.0; c.in("simplices " + sc.str() + " f " + show(f)); c.nontrivial(); auto F = bats::zigzag::extend_zigzag_filtration(f, X, 25.0); for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_simplex(k, i); double a = 1e9, b = -1e9; for (auto v : s) { a = std::min(a, f[v]); b = std::max(b, f[v]); } auto& q = F.vals(k)[i]; CHECK(q.size() == 1 && q[0].first == b - 25.0 && q[0].second == a + 25.0, "interval of " << show(Sx(s.begin(), s.end())) << " is (" << q[0].first << "," << q[0].second << ") expected (" << b - 25 << "," << a + 25 << ")"); } }
  else { size_t n = 3; double eps = g.range(2, 40) / 2.0; bats::CubicalComplex X(3); std::vector<double> f(n * n * n); for (auto& x : f) x = g.range(lo, hi) / 2.0; std::string lg; for (size_t t = 1 + g.below(4); t-- > 0;) { Sx s; for (int i = 0; i < 3; i++) { size_t a = g.below(2); s.push_back(a); s.push_back(a + g.below(2)); } lg += show(s); X.add_recursive(s); } c.in("cubes " + lg + " f " + show(f) + " eps " + std::to_string(eps)); c.nontrivial(); auto F = bats::zigzag::extend_zigzag_filtration(f, X, eps, n); std::map<Sx, std::pair<double, double>> e, got; for (size_t k = 0; k <= X.maxdim(); k++) for (size_t i = 0; i < X.ncells(k); i++) { auto s = X.get_cube(k, i); double a = 1e9, b = -1e9; for (int x : {0, 1}) for (int y : {2, 3}) for (int z : {4, 5}) { double v = f[s[z] + (s[y] + s[x] * n) * n]; a = std::min(a, v); b = std::max(b, v); } if (b - eps <= a + eps) e[Sx(s.begin(), s.end())] = {b - eps, a + eps}; } for (size_t k = 0; k <= F.complex().maxdim(); k++) for (size_t i = 0; i < F.complex().ncells(k); i++) { auto s = F.complex().get_cube(k, i); CHECK(F.vals(k)[i].size() == 1, "one interval"); got[Sx(s.begin(), s.end())] = F.vals(k)[i][0]; } CHECK(got == e, "zigzag filtration of a cubical function has " << got.size() << " cells, expected " << e.size() << " or other intervals"); } }
