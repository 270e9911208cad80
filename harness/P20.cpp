// P20: comparison and extraction of barcodes respect multiplicity
#include "mat.hpp"
#include <bats.hpp>
using PPd = bats::PersistencePair<double>; using Key = std::tuple<size_t, double, double>;
static Key key(const PPd& p) { return {p.dim, p.birth, p.death}; }
static PPd rp(Rng& g, int R) { double b = g.range(0, R); return PPd(g.below(3), g.below(5), g.chance(1, 4) ? bats::NO_IND : g.below(5), b, g.chance(1, 4) ? std::numeric_limits<double>::infinity() : b + g.range(0, R)); }
static std::string str(std::vector<PPd> v) { std::string s = "["; for (auto& p : v) s += p.str() + "; "; return s + "]"; }
template <class T> void shuffle_(Rng& g, std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); }
TEST(equality, 12000, "barcode_equality PersistencePair::operator==") { Rng& g = c.g; size_t n = g.below(9); int R = 1 + int(g.below(3)); std::vector<PPd> a, b; for (size_t i = 0; i < n; i++) a.push_back(i && g.chance(1, 3) ? a[g.below(i)] : rp(g, R)); b = a; shuffle_(g, b); for (auto& p : b) if (g.chance(1, 3)) { p.birth_ind = g.below(5); p.death_ind = g.below(5); }
  int mode = int(g.below(7)); if (n) { size_t i = g.below(n), j = g.below(n); if (mode == 1) b[i] = b[j]; if (mode == 2) b.push_back(b[i]); if (mode == 3) b.erase(b.begin() + i); if (mode == 4) b[i].dim += 1; if (mode == 5) { if (g.chance(1, 2)) b[i].birth += 1; else b[i].death = std::isinf(b[i].death) ? 3 : b[i].death + 1; } if (mode == 6) b[i] = rp(g, R); }
  c.in(str(a) + " vs " + str(b)); if (n > 1) c.nontrivial(); std::multiset<Key> x, y; for (auto& p : a) x.insert(key(p)); for (auto& p : b) y.insert(key(p)); CHECK(bats::barcode_equality(a, b) == (x == y), "barcode_equality is " << bats::barcode_equality(a, b)); CHECK(bats::barcode_equality(b, a) == (x == y), "barcode_equality in the other order"); CHECK(bats::barcode_equality(a, a), "a barcode equals itself");
  for (auto& p : a) for (auto& q : b) { CHECK((p == q) == (key(p) == key(q)), "==" << p.str() << " " << q.str()); CHECK((p != q) == !(key(p) == key(q)), "!= " << p.str() << " " << q.str()); } for (auto& p : a) { CHECK(p.get_dim() == p.dim && p.get_birth() == p.birth && p.get_death() == p.death && p.get_birth_ind() == p.birth_ind && p.get_death_ind() == p.death_ind, "accessors"); if (!std::isinf(p.death)) CHECK(p.length() == p.death - p.birth && p.mid() == (p.birth + p.death) / 2, "length, mid"); } }
TEST(zigzag_pairs, 2000, "ZigzagPair::operator==") { Rng& g = c.g; auto mk = [&] { auto p = rp(g, 2); return bats::zigzag::ZigzagPair<double>(p.dim, p.birth_ind, p.death_ind, p.birth, p.death, g.chance(1, 2), g.chance(1, 2)); }; auto p = mk(), q = mk(); c.in(p.str() + " " + q.str()); c.nontrivial(); bool e = p.dim == q.dim && p.birth == q.birth && p.death == q.death; CHECK((p == q) == e && (p != q) == !e, "comparison of zigzag pairs"); CHECK(p == p && !(p != p), "reflexive"); }
// extraction from reduced matrices
template <class F> struct TF { using M = Mat<F>; using o = O<F>;
  static void extract(Ctx& c) { Rng& g = c.g; size_t n = g.below(9), m = g.below(9), k = g.below(4); M R = M::random(g, 1 + g.below(4), n); std::vector<size_t> p2c(n + g.below(3), bats::NO_IND); std::vector<double> v(n), w(m); for (auto& x : v) x = g.range(0, 3); for (auto& x : w) x = g.range(0, 6); for (auto& x : p2c) if (m && g.chance(1, 2)) x = g.below(m); std::vector<bool> z(n); for (size_t j = 0; j < n; j++) { z[j] = true; for (size_t i = 0; i < R.m; i++) z[j] = z[j] && R(i, j) == o::zero(); } c.in(o::name() + " R=" + R.str() + " p2c=" + show(p2c) + " values " + show(v) + show(w)); if (n > 2) c.nontrivial();
    auto r = bats::extract_pairs(R.mk(), p2c, v, w, k); std::vector<std::tuple<size_t, size_t, size_t, double, double>> e, s; for (size_t i = 0; i < n; i++) if (z[i]) e.emplace_back(k, i, p2c[i], v[i], p2c[i] == bats::NO_IND ? std::numeric_limits<double>::infinity() : w[p2c[i]]); for (auto& p : r) s.emplace_back(p.dim, p.birth_ind, p.death_ind, p.birth, p.death); std::sort(e.begin(), e.end()); std::sort(s.begin(), s.end()); CHECK(s == e, "extracted pairs " << str(r) << ", expected " << e.size() << " pairs"); }
};
#define TT(N, CNT, FNS) template <class F> void T_##N(Ctx& c) { TF<F>::N(c); } TEST(N, CNT, FNS) { FOR_FIELDS(c, T_##N); }
TT(extract, 5000, "extract_pairs")
