// P02: Rational arithmetic is exact and normalized (no overflow range)
#include "la.hpp"
template <class I> struct TR {
  using F = Rational<I>; using o = O<F>;
  static void eqs(const F& x, Q r, const char* w) { Q q = o::to(x); CHECK(q == r, w << ": got " << q << " expected " << r); CHECK(x.iszero() == (r.n == 0), w << " iszero"); CHECK((x == F(I(r.n), I(r.d))) && !(x != F(I(r.n), I(r.d))), w << " equals");
    CHECK(x.to_int() == I(r.n / r.d), w << " to_int"); for (int b : {0, 1, -1, 2, int(r.n)}) { bool e = r.d == 1 && r.n == b; CHECK((x == b) == e && (x != b) == !e, w << " compare with int " << b << " value " << r); } }
  static void two(long long n1, long long d1, long long n2, long long d2) {
    Q x = mkq(n1, d1), y = mkq(n2, d2); F a{I(n1), I(d1)}, b{I(n2), I(d2)}; eqs(a, x, "construction"); eqs(b, y, "construction");
    eqs(a + b, o::add(x, y), "+"); eqs(a - b, o::add(x, o::neg(y)), "-"); eqs(a * b, o::mul(x, y), "*"); eqs(-a, o::neg(x), "negation");
    { F c(a); c += b; eqs(c, o::add(x, y), "+="); } { F c(a); c -= b; eqs(c, o::add(x, o::neg(y)), "-="); } { F c(a); c *= b; eqs(c, o::mul(x, y), "*="); }
    { F c(a); c -= c; eqs(c, Q{0, 1}, "a-=a"); } { F c(a); c += c; eqs(c, o::add(x, x), "a+=a"); } { F c(a); c *= c; eqs(c, o::mul(x, x), "a*=a"); } if (x.n) { F c(a); c /= c; eqs(c, Q{1, 1}, "a/=a"); }
    CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality " << x << " " << y); CHECK((a < b) == (x < y), "order " << x << " " << y);
    if (y.n == 0) { bool t = false; try { a / b; } catch (std::exception&) { t = true; } CHECK(t, "division by zero must throw"); t = false; try { F c(a); c /= b; } catch (std::exception&) { t = true; } CHECK(t, "/= by zero must throw"); t = false; try { b.inv(); } catch (std::exception&) { t = true; } CHECK(t, "inverse of zero must throw"); }
    else { eqs(a / b, o::mul(x, o::inv(y)), "/"); F c(a); c /= b; eqs(c, o::mul(x, o::inv(y)), "/="); eqs(b.inv(), o::inv(y), "inv"); }
    CHECK(o::to(a) == x && o::to(b) == y, "operands unchanged"); { F w; eqs(w, Q{0, 1}, "default"); F v{I(n1)}; eqs(v, Q{n1, 1}, "from int"); w = a; eqs(w, x, "assign"); }
  }
};
TEST(small, 1, "rat_new rat_add rat_sub rat_mul rat_div") { c.nontrivial(); for (int a = -6; a <= 6; a++) for (int b = -6; b <= 6; b++) if (b) for (int d = -5; d <= 5; d++) for (int e = -5; e <= 5; e++) if (e) { if (e == 1) c.in("a=" + std::to_string(a) + "/" + std::to_string(b) + " b=" + std::to_string(d) + "/" + std::to_string(e)); TR<int>::two(a, b, d, e); } }
TEST(rnd32, 20000, "rat_new rat_add rat_sub rat_mul rat_div") { Rng& g = c.g; int r = c.k % 3 == 0 ? 20 : c.k % 3 == 1 ? 1000 : 30000; auto nz = [&] { for (;;) { int x = g.range(-r, r); if (x) return x; } }; int a = g.range(-r, r), b = nz(), d = g.range(-r, r), e = nz(); if (g.chance(1, 4)) { int k = g.range(1, 5); d = a; e = b; if (llabs(1ll * d * k) <= r && llabs(1ll * e * k) <= r) { d *= k; e *= k; } } if (g.chance(1, 6)) { a = 0; } c.in("a=" + std::to_string(a) + "/" + std::to_string(b) + " b=" + std::to_string(d) + "/" + std::to_string(e)); c.nontrivial(); TR<int>::two(a, b, d, e); TR<long>::two(a, b, d, e); }
TEST(rnd64, 20000, "rat_new rat_add rat_sub rat_mul rat_div") { Rng& g = c.g; long r = 1000000000L; auto rg = [&] { return long(g.next() % (2 * r + 1)) - r; }; auto nz = [&] { for (;;) { long x = rg(); if (x) return x; } }; long a = rg(), b = nz(), d = rg(), e = nz(); c.in("a=" + std::to_string(a) + "/" + std::to_string(b) + " b=" + std::to_string(d) + "/" + std::to_string(e)); c.nontrivial(); TR<long>::two(a, b, d, e); }
