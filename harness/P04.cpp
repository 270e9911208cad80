// P04: sparse vector edits act as the dense edit and keep strictly increasing indices
#include "la.hpp"
template <class F> struct T {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using S = SV_<F>; using P = Ops<F>; using NZ = nzpair<size_t, F>;
  static std::vector<size_t> rperm(Rng& g, size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); if (g.chance(1, 6)) for (size_t i = 0; i < n; i++) p[i] = i; return p; }
  static std::vector<size_t> rset(Rng& g, size_t n) { std::vector<size_t> r; int d = 1 + int(g.below(4)); for (size_t i = 0; i < n; i++) if (g.chance(d, 5)) r.push_back(i); return r; }
  static void lookup(Ctx& c) {
    Rng& g = c.g; size_t n = P::dim(g); V v = P::rvd(g, n); c.in(o::name() + " v=" + show(v)); S s = P::mk(v); const S& cs = s; if (n > 1) c.nontrivial();
    for (size_t i = 0; i < n + 3; i++) { R e = i < n ? v[i] : o::zero(); CHECK(o::to(s.getval(i)) == e, "getval " << i); CHECK(o::to(s[i]) == e, "operator[] " << i);
      size_t lb = 0, ub = 0, lt = 0; bool any = false; for (size_t k = 0; k < n; k++) if (v[k] != o::zero()) { if (k < i) { lb++; lt = k; any = true; } if (k <= i) ub++; }
      CHECK(size_t(s.lower_bound(i) - s.nzbegin()) == lb && size_t(cs.lower_bound(i) - cs.nzbegin()) == lb, "lower_bound " << i); CHECK(size_t(s.upper_bound(i) - s.nzbegin()) == ub && size_t(cs.upper_bound(i) - cs.nzbegin()) == ub, "upper_bound " << i);
      auto it = s.find_last_nz(i); if (!any) CHECK(it == cs.nzend(), "find_last_nz(" << i << ") must be the end"); else CHECK(it != cs.nzend() && it->ind == lt, "find_last_nz(" << i << ") should be at index " << lt); }
    std::vector<size_t> I; std::vector<R> X; for (size_t k = 0; k < n; k++) if (v[k] != o::zero()) { I.push_back(k); X.push_back(v[k]); }
    auto nz = s.nzs(); CHECK(s.nzinds() == I && std::get<0>(nz) == I, "nzinds"); auto xv = s.nzvals(); auto xv2 = std::get<1>(nz); CHECK(xv.size() == X.size() && xv2.size() == X.size(), "nzvals"); for (size_t k = 0; k < X.size(); k++) CHECK(o::to(xv[k]) == X[k] && o::to(xv2[k]) == X[k], "nzvals " << k);
    if (I.size()) { CHECK(s.lastnz().ind == I.back() && o::to(s.lastnz().val) == X.back() && s.firstnz().ind == I[0] && o::to(s.firstnz().val) == X[0], "lastnz/firstnz"); }
    P::same(s, v, "lookup leaves the vector unchanged");
    V w = P::rvd(g, n); S t = P::mk(w); size_t ct = 0; std::map<std::string, size_t> cf; for (size_t k = 0; k < n; k++) if (v[k] != o::zero() && w[k] != o::zero()) { ct++; std::ostringstream q; q << o::mul(v[k], o::inv(w[k])); cf[q.str()]++; }
    CHECK(s.nnz_intersection(t) == ct, "nnz_intersection"); std::map<F, size_t> got; s.coeff_intersection(t, got); size_t tot = 0; for (auto& kv : got) { std::ostringstream q; q << o::to(kv.first); CHECK(cf[q.str()] == kv.second, "coeff_intersection"); tot += kv.second; } CHECK(tot == ct, "coeff_intersection total"); 
  }
  static void rows(Ctx& c) {
    Rng& g = c.g; size_t n = 1 + P::dim(g); V v = P::rvd(g, n); size_t i = g.below(n), j = g.below(n); if (g.chance(1, 2)) { for (size_t k = 0; k < n; k++) if (v[k] != o::zero() && g.chance(1, 2)) i = k; for (size_t k = 0; k < n; k++) if (v[k] != o::zero() && g.chance(1, 2)) j = k; }
    R a = o::rnd(g), b = o::rnd(g), cc = o::rnd(g), d = o::rnd(g); if (g.chance(1, 4)) { a = o::one(); d = o::one(); b = o::zero(); } if (v[i] != o::zero() && v[j] != o::zero() && g.chance(1, 3)) { cc = o::neg(o::mul(o::mul(d, v[j]), o::inv(v[i]))); if (g.chance(1, 2)) a = o::neg(o::mul(o::mul(b, v[j]), o::inv(v[i]))); }
    std::ostringstream q; q << o::name() << " v=" << show(v) << " i=" << i << " j=" << j << " abcd=" << a << " " << b << " " << cc << " " << d; c.in(q.str()); if (n > 1) c.nontrivial();
    { S s = P::mk(v); V e = v; std::swap(e[i], e[j]); s.swap_rows(i, j); P::same(s, e, "swap_rows"); }
    if (i != j) { S s = P::mk(v); V e = v; e[i] = o::add(o::mul(a, v[i]), o::mul(b, v[j])); e[j] = o::add(o::mul(cc, v[i]), o::mul(d, v[j])); s.mix_rows(i, j, o::mk(a), o::mk(b), o::mk(cc), o::mk(d)); P::same(s, e, "mix_rows"); }
    { S s = P::mk(v); V e = v; e[i] = o::mul(v[i], a); s.scale_inplace(i, o::mk(a)); P::same(s, e, "scale_inplace(i,c)"); }
    { S s = P::mk(v); V e = v; e.erase(e.begin() + i); s.erase_for_matrix(i); P::same(s, e, "erase_for_matrix"); }
    { S s = P::mk(v); V e = v; e.pop_back(); s.erase_last_row_of_matrix(n - 1); P::same(s, e, "erase_last_row_of_matrix"); }
    { S s = P::mk(v); V e(v.begin(), v.begin() + i + 1); s.erase_rows_after(i); P::same(s, e, "erase_rows_after"); }
    { S s = P::mk(v); V e(v.begin() + i, v.end()); s.erase_initial_rows(i); P::same(s, e, "erase_initial_rows"); } { S s = P::mk(v); s.erase_initial_rows(n); P::same(s, V(), "erase_initial_rows all"); }
    { S s = P::mk(v); V e(v.begin(), v.end() - i); s.erase_last_rows_of_matrix(n - 1, i); P::same(s, e, "erase_last_rows_of_matrix"); }
    { S s = P::mk(v); s.erase_all(); P::same(s, V(n, o::zero()), "erase_all"); S t = P::mk(v); t.clear(); P::same(t, V(n, o::zero()), "clear"); S u = P::mk(v); u.clear_dealloc(); P::same(u, V(n, o::zero()), "clear_dealloc"); }
  }
  static void reorder(Ctx& c) {
    Rng& g = c.g; size_t n = P::dim(g); V v = P::rvd(g, n); auto p = rperm(g, n); size_t sh = g.below(5); c.in(o::name() + " v=" + show(v) + " perm=" + show(p) + " shift=" + std::to_string(sh)); if (n > 1) c.nontrivial();
    { S s = P::mk(v); V e(n, o::zero()); for (size_t i = 0; i < n; i++) e[p[i]] = v[i]; s.permute(p); P::same(s, e, "permute"); s.ipermute(p); P::same(s, v, "ipermute undoes permute"); }
    { S s = P::mk(v); V e(n, o::zero()); for (size_t i = 0; i < n; i++) e[i] = v[p[i]]; s.ipermute(p); P::same(s, e, "ipermute"); }
    { S s = P::mk(v); V e(v.rbegin(), v.rend()); s.J(n); P::same(s, e, "J"); }
    { S s = P::mk(v); V e(n + 1, o::zero()); for (size_t i = 0; i < n; i++) e[n - i] = v[i]; s.reverse_inds(n); P::same(s, e, "reverse_inds"); }
    { S s = P::mk(v); V e(n + sh, o::zero()); for (size_t i = 0; i < n; i++) e[i + sh] = v[i]; S t = s.shift_inds(sh); P::same(t, e, "shift_inds"); P::same(s, v, "shift_inds source"); }
    { std::vector<size_t> I; std::vector<F> X; V e(n, o::zero()); for (size_t i = 0; i < n; i++) if (v[p[i]] != o::zero()) { I.push_back(p[i]); X.push_back(o::mk(v[p[i]])); } S s(I, X); s.sort(); P::same(s, v, "sort"); }
  }
  static void blocks(Ctx& c) {
    Rng& g = c.g; size_t n = P::dim(g); V v = P::rvd(g, n); size_t a = g.below(n + 1), b = g.below(n + 1); if (a > b) std::swap(a, b); V w = P::rvd(g, b - a); auto I = rset(g, n); auto p = rperm(g, n);
    std::vector<bool> cl(n); std::vector<int> cli; int d = g.below(4); for (size_t i = 0; i < n; i++) { cl[i] = g.chance(d, 3); cli.push_back(cl[i]); }
    c.in(o::name() + " v=" + show(v) + " block [" + std::to_string(a) + "," + std::to_string(b) + ") w=" + show(w) + " set=" + show(I) + " perm=" + show(p) + " clear=" + show(cli)); if (n > 1) c.nontrivial();
    S s = P::mk(v); { V e(v.begin() + a, v.begin() + b); P::same(s.block(a, b), e, "block"); P::same(s, v, "block source"); }
    { S t = P::mk(v), u = P::mk(w); V e = v; for (size_t i = a; i < b; i++) e[i] = w[i - a]; t.set_block(a, b, u); P::same(t, e, "set_block"); P::same(u, w, "set_block operand"); }
    { V e; for (size_t i : I) e.push_back(v[i]); P::same(s[I], e, "operator[](index set)"); P::same(s, v, "index set source"); std::set<size_t> st(I.begin(), I.end()); P::same(s[st], e, "operator[](std::set)"); }
    { std::vector<size_t> pi(n, bats::NO_IND); size_t k = g.below(n + 1); V e(k, o::zero()); for (size_t i = 0; i < k; i++) { pi[p[i]] = i; e[i] = v[p[i]]; } P::same(s.subvector(pi), e, "subvector"); P::same(s, v, "subvector source"); }
    { V e = v; for (size_t i = 0; i < n; i++) if (cl[i]) e[i] = o::zero(); S t = P::mk(v); t.clear_inds(cl); P::same(t, e, "clear_inds"); S u = P::mk(v); typename S::tmp_type tmp; if (g.chance(1, 2)) tmp.push_back(NZ(3, o::mk(o::one()))); u.clear_inds(cl, tmp); P::same(u, e, "clear_inds(tmp)"); }
  }
  static void inserts(Ctx& c) {
    Rng& g = c.g; size_t n = P::dim(g), k = g.below(6); V v = P::rvd(g, n); size_t N = n + k; std::vector<bool> isnew(N, false); auto q = rperm(g, N); if (g.chance(1, 3)) { size_t a = g.below(n + 1); for (size_t i = 0; i < k; i++) isnew[a + i] = true; } else for (size_t i = 0; i < k; i++) isnew[q[i]] = true;
    std::vector<size_t> r; std::vector<F> rv; V e, ez, rr; size_t t = 0; for (size_t i = 0; i < N; i++) if (isnew[i]) { R x = o::rndnz(g); r.push_back(i); rv.push_back(o::mk(x)); rr.push_back(x); e.push_back(x); ez.push_back(o::zero()); } else { e.push_back(v[t]); ez.push_back(v[t]); t++; }
    c.in(o::name() + " v=" + show(v) + " rows=" + show(r) + " vals=" + show(rr)); if (n > 1 && k) c.nontrivial();
    { S s = P::mk(v); s.insert_rows(r, rv); P::same(s, e, "insert_rows(values)"); }
    { S s = P::mk(v); s.insert_rows(r); P::same(s, ez, "insert_rows(zero)"); }
    { S s = P::mk(v); size_t ni = 0; while (ni < r.size() && r[ni] == ni) ni++; s.insert_rows(r, ni); P::same(s, ez, "insert_rows(zero, known leading)"); }
  }
  static void build(Ctx& c) {
    Rng& g = c.g; size_t n = 1 + P::dim(g); std::vector<int> iv(n); for (auto& x : iv) x = g.chance(1, 2) ? g.range(-3, 3) : 0; c.in(o::name() + " ints=" + show(iv)); c.nontrivial();
    V v; for (int x : iv) v.push_back(o::to(o::mk(o::zero()) + F(x)));
    std::vector<size_t> I; std::vector<int> X; std::vector<std::tuple<size_t, int>> tp; for (size_t i = 0; i < n; i++) if (v[i] != o::zero()) { I.push_back(i); X.push_back(iv[i]); } for (size_t k = 0; k < I.size(); k++) tp.push_back({I[k], X[k]}); for (size_t k = tp.size(); k > 1; k--) std::swap(tp[k - 1], tp[g.below(k)]);
    P::same(S(tp), v, "constructor from tuples"); P::same(S(I.cbegin(), X.cbegin(), I.size()), v, "iterator constructor"); { std::vector<size_t> I0; std::vector<int> X0; for (size_t i = 0; i < n; i++) if (iv[i]) { I0.push_back(i); X0.push_back(iv[i]); } SparseVector<int, size_t> s0(I0, X0); P::same(s0.cast_values(F()), v, "cast_values"); }
    { SparseVector<int, size_t> s0(I, X); P::same(S(s0), v, "constructor from integer vector"); }
    { size_t i = g.below(n); V e(n, o::zero()); e[i] = o::one(); P::same(S(i), e, "indicator"); R a = o::rndnz(g); e[i] = a; P::same(S(i, o::mk(a)), e, "indicator with value"); P::same(S::dense(o::mk(a), n), V(n, a), "dense"); }
    { S s; for (size_t k = 0; k < I.size(); k++) if (k & 1) s.emplace_back(I[k], F(X[k])); else s.emplace_back(nzpair<size_t, F>(I[k], F(X[k]))); P::same(s, v, "emplace_back"); if (I.size()) { size_t k = g.below(I.size()); R a = o::rndnz(g); auto it = s.nzbegin() + k; s.replace(it, o::mk(a)); V e = v; e[I[k]] = a; P::same(s, e, "replace"); auto it2 = s.nzbegin() + k; s.replace(it2, I[k], F(X[k])); P::same(s, v, "replace(ind,val)"); } }
    { bool ints = true; for (auto& x : v) { std::ostringstream z; z << o::mk(x); if (z.str().find('/') != std::string::npos) ints = false; } if (ints) { S s = P::mk(v); std::string l = s.str(); if (l.size() && l.back() == '\n') l.pop_back(); S t(l); P::same(t, v, "write then read"); } }
  }
};
#define TT(N, CNT, FNS) TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
#define D(N) template <class F> void T_##N(Ctx& c) { T<F>::N(c); }
D(lookup) D(rows) D(reorder) D(blocks) D(inserts) D(build)
TT(lookup, 6000, "sv_getval sv_lower_bound sv_nzs")
TT(rows, 12000, "sv_swap_rows sv_mix_rows sv_erase")
TT(reorder, 8000, "sv_permute sv_J sv_shift")
TT(blocks, 8000, "sv_block sv_set_block sv_index sv_subvector sv_clear_inds")
TT(inserts, 10000, "sv_insert_rows")
TT(build, 4000, "sv_ctor sv_emplace sv_replace")
