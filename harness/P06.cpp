// P06: structural edits act as on dense matrices; shape predicates are exact
#include "mat.hpp"
#include <sstream>
template <class F> struct T {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using S = SV_<F>; using P = Ops<F>; using M = Mat<F>; using I = std::vector<size_t>;
  static I rperm(Rng& g, size_t n) { I p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); if (g.chance(1, 8)) for (size_t i = 0; i < n; i++) p[i] = i; return p; }
  static I rset(Rng& g, size_t n) { I r; int d = int(g.below(5)); for (size_t i = 0; i < n; i++) if (g.chance(d, 4)) r.push_back(i); return r; }
  // positions (in the enlarged list of n + k) of k inserted items
  static I rins(Rng& g, size_t n, size_t k) { I p = rperm(g, n + k); p.resize(k); if (g.chance(1, 3)) { size_t a = g.below(n + 1); for (size_t i = 0; i < k; i++) p[i] = a + i; } std::sort(p.begin(), p.end()); return p; }
  // e: rows given by source index, or -1-k for new row k
  static std::vector<long> merge(size_t n, const I& pos) { std::vector<long> r; size_t t = 0, k = 0; for (size_t i = 0; i < n + pos.size(); i++) if (k < pos.size() && pos[k] == i) r.push_back(-1 - long(k++)); else r.push_back(long(t++)); return r; }
  static void perms(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = P::sdim(g); M A = M::random(g, m, n); I p = rperm(g, m), q = rperm(g, n); size_t i1 = g.below(m), i2 = g.below(m), j1 = g.below(n), j2 = g.below(n);
    c.in(o::name() + " A=" + A.str() + " rowperm=" + show(p) + " colperm=" + show(q) + " " + show(I{i1, i2, j1, j2})); if (m * n > 1) c.nontrivial();
    { auto a = A.mk(); M e(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(p[i], j) = A(i, j); a.permute_rows(p); M::same(a, e, "permute_rows"); a.ipermute_rows(p); M::same(a, A, "ipermute_rows undoes permute_rows"); }
    { auto a = A.mk(); M e(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, q[j]) = A(i, j); a.permute_cols(q); M::same(a, e, "permute_cols"); a.ipermute_cols(q); M::same(a, A, "ipermute_cols undoes permute_cols"); }
    { auto a = A.mk(); M e(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, j) = A(p[i], q[j]); a.ipermute_rows(p); a.ipermute_cols(q); M::same(a, e, "ipermute_rows, ipermute_cols"); }
    { auto a = A.mk(); M e(m, n); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(p[i], q[j]) = A(i, j); a.permute(p, q); M::same(a, e, "permute"); }
    { M rr = A, rc = A; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { rr(i, j) = A(m - 1 - i, j); rc(i, j) = A(i, n - 1 - j); } const auto a = A.mk(); M::same(a.J_left(), rr, "J_left"); M::same(a.J_right(), rc, "J_right"); M::same(a.J_conjugation(), A.rev(), "J_conjugation"); M::same(a, A, "J source"); auto b = A.mk(); b.J_left_inplace(); M::same(b, rr, "J_left_inplace"); b = A.mk(); b.J_right_inplace(); M::same(b, rc, "J_right_inplace"); b = A.mk(); b.J_conjugation_inplace(); M::same(b, A.rev(), "J_conjugation_inplace"); }
    if (m) { auto a = A.mk(); M e = A; for (size_t j = 0; j < n; j++) std::swap(e(i1, j), e(i2, j)); a.swap_rows(i1, i2); M::same(a, e, "swap_rows"); }
    if (n) { auto a = A.mk(); M e = A; for (size_t i = 0; i < m; i++) std::swap(e(i, j1), e(i, j2)); a.swap_cols(j1, j2); M::same(a, e, "swap_cols"); }
    R x = o::rnd(g), y = o::rnd(g), z = o::rnd(g), w = o::rnd(g);
    if (m && i1 != i2) { auto a = A.mk(); M e = A; for (size_t j = 0; j < n; j++) { e(i1, j) = o::add(o::mul(x, A(i1, j)), o::mul(y, A(i2, j))); e(i2, j) = o::add(o::mul(z, A(i1, j)), o::mul(w, A(i2, j))); } a.mix_rows(i1, i2, o::mk(x), o::mk(y), o::mk(z), o::mk(w)); M::same(a, e, "mix_rows"); }
    if (n && j1 != j2) { x = g.chance(1, 4) ? o::zero() : o::rnd(g); w = g.chance(1, 4) ? o::zero() : o::rnd(g); auto a = A.mk(); M e = A; for (size_t i = 0; i < m; i++) { e(i, j1) = o::add(o::mul(x, A(i, j1)), o::mul(z, A(i, j2))); e(i, j2) = o::add(o::mul(y, A(i, j1)), o::mul(w, A(i, j2))); } a.mix_cols(j1, j2, o::mk(x), o::mk(y), o::mk(z), o::mk(w)); M::same(a, e, "mix_cols"); }
  }
  static void cuts(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = P::sdim(g); M A = M::random(g, m, n); I r = rperm(g, m), q = rperm(g, n); r.resize(g.below(m + 1)); q.resize(g.below(n + 1)); size_t a0 = g.below(m + 1), a1 = g.below(m + 1), b0 = g.below(n + 1), b1 = g.below(n + 1); if (a0 > a1) std::swap(a0, a1); if (b0 > b1) std::swap(b0, b1); M B = M::random(g, a1 - a0, b1 - b0);
    c.in(o::name() + " A=" + A.str() + " rows=" + show(r) + " cols=" + show(q) + " block " + show(I{a0, a1, b0, b1}) + " B=" + B.str()); if (m * n > 1) c.nontrivial();
    const auto A_ = A.mk(); M::same(A_.submatrix(r, q), A.sub(r, q), "submatrix"); auto rng = [](size_t a, size_t b) { I v; for (size_t i = a; i < b; i++) v.push_back(i); return v; }; M::same(A_.block(a0, a1, b0, b1), A.sub(rng(a0, a1), rng(b0, b1)), "block"); M::same(A_, A, "source");
    { auto a = A.mk(); auto b = B.mk(); M e = A; for (size_t i = a0; i < a1; i++) for (size_t j = b0; j < b1; j++) e(i, j) = B(i - a0, j - b0); a.set_block(a0, a1, b0, b1, b); M::same(a, e, "set_block"); M::same(b, B, "set_block operand"); }
    std::vector<bool> cr(m), cc(n); for (size_t i = 0; i < m; i++) cr[i] = g.chance(1, 3); for (size_t j = 0; j < n; j++) cc[j] = g.chance(1, 3);
    { auto a = A.mk(); M e = A; for (size_t i = 0; i < m; i++) if (cr[i]) for (size_t j = 0; j < n; j++) e(i, j) = o::zero(); a.clear_rows(cr); M::same(a, e, "clear_rows"); } { auto a = A.mk(); M e = A; for (size_t j = 0; j < n; j++) if (cc[j]) for (size_t i = 0; i < m; i++) e(i, j) = o::zero(); a.clear_cols(cc); M::same(a, e, "clear_cols"); }
    { auto a = A.mk(); bool t = false; std::vector<bool> bad(m + 1); try { a.clear_rows(bad); } catch (std::runtime_error&) { t = true; } CHECK(t, "clear_rows with wrong length must throw"); t = false; std::vector<bool> badc(n + 1); try { a.clear_cols(badc); } catch (std::runtime_error&) { t = true; } CHECK(t, "clear_cols with wrong length must throw"); M::same(a, A, "unchanged after throw"); }
    auto drop = [&](size_t r0, size_t r1, size_t c0, size_t c1) { I R_, C_; for (size_t i = 0; i < m; i++) if (i < r0 || i >= r1) R_.push_back(i); for (size_t j = 0; j < n; j++) if (j < c0 || j >= c1) C_.push_back(j); return A.sub(R_, C_); };
    size_t i = g.below(m), j = g.below(n), k = g.below(m + 1), l = g.below(n + 1);
    if (n) { auto a = A.mk(); a.erase_column(j); M::same(a, drop(0, 0, j, j + 1), "erase_column(j)"); a = A.mk(); a.erase_column(); M::same(a, drop(0, 0, n - 1, n), "erase_column()"); }
    { auto a = A.mk(); a.erase_final_columns(l); M::same(a, drop(0, 0, n - l, n), "erase_final_columns"); a = A.mk(); a.erase_initial_cols(l); M::same(a, drop(0, 0, 0, l), "erase_initial_cols"); }
    if (m) { auto a = A.mk(); a.erase_row(i); M::same(a, drop(i, i + 1, 0, 0), "erase_row(i)"); a = A.mk(); a.erase_row(); M::same(a, drop(m - 1, m, 0, 0), "erase_row()"); }
    { auto a = A.mk(); a.erase_rows(k); M::same(a, drop(m - k, m, 0, 0), "erase_rows"); a = A.mk(); a.erase_initial_rows(k); M::same(a, drop(0, k, 0, 0), "erase_initial_rows"); }
    { M Z = A; for (size_t x = m - k; x < m; x++) for (size_t y = 0; y < n; y++) Z(x, y) = o::zero(); M e = drop(m - k, m, 0, 0); auto a = Z.mk(); a.erase_final_rows_unsafe(k); M::same(a, e, "erase_final_rows_unsafe"); a = Z.mk(); for (size_t x = 0; x < k; x++) a.erase_row_unsafe(); M::same(a, e, "erase_row_unsafe"); }
  }
  static void grow(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = P::sdim(g), k = g.below(4), l = g.below(4); M A = M::random(g, m, n); I rp = rins(g, m, k), cp = rins(g, n, l); M NR = M::random(g, k, n), NC = M::random(g, m, l);
    c.in(o::name() + " A=" + A.str() + " new rows at " + show(rp) + " = " + NR.str() + " new cols at " + show(cp) + " = " + NC.str()); if (m * n > 1 && k + l) c.nontrivial();
    auto rows = [&](bool zero) { auto s = merge(m, rp); M e(m + k, n); for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < n; j++) e(i, j) = s[i] >= 0 ? A(s[i], j) : zero ? o::zero() : NR(-1 - s[i], j); return e; };
    auto cols = [&](bool zero) { auto s = merge(n, cp); M e(m, n + l); for (size_t j = 0; j < s.size(); j++) for (size_t i = 0; i < m; i++) e(i, j) = s[j] >= 0 ? A(i, s[j]) : zero ? o::zero() : NC(i, -1 - s[j]); return e; };
    auto dense = [&](size_t r) { std::vector<F> v; for (size_t j = 0; j < n; j++) v.push_back(o::mk(NR(r, j))); return v; };
    { auto a = A.mk(); for (size_t t = 0; t < k; t++) a.insert_row(rp[t], dense(t)); M::same(a, rows(false), "insert_row(values)"); a = A.mk(); for (size_t t = 0; t < k; t++) a.insert_row(rp[t]); M::same(a, rows(true), "insert_row(zero)"); }
    { auto a = A.mk(); a.insert_rows(rp); M::same(a, rows(true), "insert_rows(zero)"); }
    { auto a = A.mk(); std::vector<S> nr; for (size_t t = 0; t < k; t++) nr.push_back(P::mk(NR.a[t])); auto keep = nr; a.insert_sparse_rows(rp, nr); M::same(a, rows(false), "insert_sparse_rows"); a = A.mk(); a.insert_rows(rp, nr); M::same(a, rows(false), "insert_rows(sparse rows)"); for (size_t t = 0; t < k; t++) CHECK(nr[t] == keep[t], "inserted rows unchanged");
      std::vector<I> ci; std::vector<std::vector<F>> cv; for (size_t t = 0; t < k; t++) { ci.push_back(nr[t].nzinds()); cv.push_back(nr[t].nzvals()); } a = A.mk(); a.insert_rows(rp, ci, cv); M::same(a, rows(false), "insert_rows(column indices, values)"); }
    { auto a = A.mk(); for (size_t t = 0; t < l; t++) { S v = P::mk(NC.col(t)); a.insert_column(cp[t], v); } M::same(a, cols(false), "insert_column(values)"); a = A.mk(); for (size_t t = 0; t < l; t++) a.insert_column(cp[t]); M::same(a, cols(true), "insert_column(zero)"); }
    { auto a = A.mk(); std::vector<S> nc; for (size_t t = 0; t < l; t++) nc.push_back(P::mk(NC.col(t))); a.insert_columns(cp, nc); M::same(a, cols(false), "insert_columns"); }
    { auto a = A.mk(); M e(m + k, n); for (size_t i = 0; i < m; i++) e.a[i] = A.a[i]; for (size_t t = 0; t < k; t++) e.a[m + t] = NR.a[t]; for (size_t t = 0; t < k; t++) a.append_row(dense(t)); M::same(a, e, "append_row(values)"); a = A.mk(); for (size_t t = 0; t < k; t++) a.append_sparse_row(P::mk(NR.a[t])); M::same(a, e, "append_sparse_row"); a = A.mk(); M z(m + k, n); for (size_t i = 0; i < m; i++) z.a[i] = A.a[i]; for (size_t t = 0; t < k; t++) a.append_row(); M::same(a, z, "append_row()"); }
    { auto a = A.mk(); M e(m, n + l), z(m, n + l); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) e(i, j) = z(i, j) = A(i, j); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < l; j++) e(i, n + j) = NC(i, j); for (size_t t = 0; t < l; t++) { S v = P::mk(NC.col(t)); a.append_column(v); } M::same(a, e, "append_column(values)"); a = A.mk(); for (size_t t = 0; t < l; t++) a.append_column(P::mk(NC.col(t))); M::same(a, e, "append_column(rvalue)"); a = A.mk(); for (size_t t = 0; t < l; t++) a.append_column(); M::same(a, z, "append_column()"); }
    bool ints = true; for (auto& r : A.a) for (auto& x : r) { std::ostringstream z; z << o::mk(x); if (z.str().find('/') != std::string::npos) ints = false; }
    if (ints) { auto a = A.mk(); std::istringstream in(a.str()); CM<F> b(in); M::same(b, A, "write then read"); }
  }
  static void shapes(Ctx& c) {
    Rng& g = c.g; size_t m = P::sdim(g), n = g.chance(2, 3) ? m : P::sdim(g); M A(m, n); int st = int(g.below(8));
    if (m == n && st < 2) A = M::triangular(g, n, st == 0); else if (m == n && st == 2) { I p = rperm(g, n); for (size_t j = 0; j < n; j++) A(p[j], j) = g.chance(5, 6) ? o::one() : o::rnd(g); } else if (st < 6) { size_t r = 0; for (size_t j = 0; j < n && r < m; j++) { if (g.chance(2, 3)) { A(r, j) = o::rndnz(g); r++; } if (g.chance(1, 3)) r++; } if (g.chance(1, 2)) A = A.rev(); if (g.chance(1, 3)) A = M(A); } else A = M::random(g, m, n);
    if (st == 3) { A = M(m, n); size_t r = 0, j = 0; while (r < m && j < n) { A(r, j) = o::rndnz(g); j++; r += 1 + g.below(2); } if (g.chance(1, 2)) A = A.rev(); }
    if (st == 4) { A = M(m, n); size_t r = 0, j = 0; while (r < m && j < n) { A(r, j) = o::rndnz(g); r++; j += 1 + g.below(2); } if (g.chance(1, 2)) A = A.rev(); }
    if (m && n && g.chance(1, 3)) A(g.below(m), g.below(n)) = o::rnd(g);
    c.in(o::name() + " A=" + A.str()); if (m * n > 1) c.nontrivial(); const auto a = A.mk();
    CHECK(a.is_zero() == A.zero(), "is_zero"); CHECK(a.is_upper() == A.upper(), "is_upper"); CHECK(a.is_lower() == A.lower(), "is_lower"); CHECK(a.is_upper_invert() == (A.upper() && A.diag_inv()), "is_upper_invert"); CHECK(a.is_pivot_matrix() == A.pivot(), "is_pivot_matrix");
    CHECK(a.is_EL() == A.EL(), "is_EL"); CHECK(a.is_EU() == A.EU(), "is_EU"); CHECK(a.is_ELhat() == A.ELhat(), "is_ELhat"); CHECK(a.is_EUhat() == A.EUhat(), "is_EUhat");
    { std::set<long> s; bool red = true; for (size_t j = 0; j < n; j++) { long p = A.piv(j); if (p >= 0 && !s.insert(p).second) red = false; } CHECK(a.is_reduced() == red, "is_reduced"); } if (m == n) CHECK((a == CM<F>::identity(n)) == (A == M::id(n)), "== identity"); M::same(a, A, "unchanged");
  }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { T<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(perms, 8000, "cm_permute cm_J cm_swap cm_mix")
TT(cuts, 8000, "cm_submatrix cm_block cm_erase cm_clear")
TT(grow, 8000, "cm_insert cm_append")
TT(shapes, 16000, "cm_is_upper cm_is_EL cm_is_reduced")
