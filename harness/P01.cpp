// P01: ModP arithmetic is integer arithmetic modulo p with canonical results
#include "la.hpp"
#include <climits>
template <unsigned P> struct T {
  using F = ModP<int, P>; using o = O<F>;
  static int can(const F& x, const char* w) { std::ostringstream s; s << x; int v = atoi(s.str().c_str()); CHECK(v >= 0 && v < int(P), w << ": printed value " << v << " not canonical"); CHECK(x.to_int() == v, w << ": to_int " << x.to_int() << " vs printed " << v); return v; }
  static long long m(long long x) { x %= (long long)P; return x < 0 ? x + P : x; }
  static void eqs(const F& x, int r, const char* w) {
    CHECK(can(x, w) == r, w << ": got " << can(x, w) << " expected " << r << " mod " << P);
    CHECK(x.iszero() == (r == 0), w << " iszero"); CHECK((x == F(r)) && !(x != F(r)), w << " equals residue");
    CHECK((x == 0) == (r == 0) && (x != 0) == (r != 0), w << " compare with 0"); CHECK((x == 1) == (m(1) == r) && (x != 1) == (m(1) != r), w << " compare with 1"); CHECK((x == -1) == (m(-1) == r) && (x != -1) == (m(-1) != r), w << " compare with -1");
  }
  static void one(int i) {
    F x(i); int r = int(m(i)); eqs(x, r, "construction"); F n(x); eqs(-n, int(m(-(long long)r)), "negation");
    F z; eqs(z, 0, "default"); F y; y = x; eqs(y, r, "assignment"); F w; w = i; eqs(w, r, "assignment from int");
    for (int b : {0, 1, 2, 3, -1, -2, int(P), int(P) - 1, -int(P), -int(P) - 1, 2 * int(P) + 1, i, INT_MAX, INT_MIN, INT_MIN + 1, -1000003}) { bool e = m(b) == r; CHECK((x == b) == e, "== int " << b << " with residue " << r << " mod " << P); CHECK((x != b) == !e, "!= int " << b << " with residue " << r << " mod " << P); }
    if (r == 0) { bool t = false; try { x.inv(); } catch (std::exception&) { t = true; } CHECK(t, "inverse of zero must throw"); }
    else { F v = x.inv(); CHECK(m((long long)can(v, "inv") * r) == 1, "inverse of " << r << " mod " << P << " gave " << can(v, "inv")); }
  }
  static void two(int i, int j) {
    F a(i), b(j); long long x = m(i), y = m(j);
    eqs(a + b, int(m(x + y)), "+"); eqs(a - b, int(m(x - y)), "-"); eqs(a * b, int(m(x * y)), "*");
    { F c(a); c += b; eqs(c, int(m(x + y)), "+="); } { F c(a); c -= b; eqs(c, int(m(x - y)), "-="); } { F c(a); c *= b; eqs(c, int(m(x * y)), "*="); }
    { F c(a); c += c; eqs(c, int(m(2 * x)), "a+=a"); } { F c(a); c *= c; eqs(c, int(m(x * x)), "a*=a"); } { F c(a); c -= c; eqs(c, 0, "a-=a"); }
    CHECK((a == b) == (x == y) && (a != b) == (x != y), "equality"); CHECK((a < b) == (x < y), "order of residues");
    if (y == 0) { bool t = false; try { a / b; } catch (std::exception&) { t = true; } CHECK(t, "division by zero must throw"); t = false; try { F c(a); c /= b; } catch (std::exception&) { t = true; } CHECK(t, "/= by zero must throw"); }
    else { F q = a / b; CHECK(m((long long)can(q, "/") * y) == x, "quotient " << x << "/" << y); eqs(q, can(q, "/"), "/"); F c(a); c /= b; eqs(c, can(q, "/"), "/="); if (x) { F d(a); d /= d; eqs(d, 1, "a/=a"); } }
    F s = -(a) ; F e = a + s; eqs(e, 0, "a + -a"); CHECK(can(a, "operand") == x && can(b, "operand") == y, "operands unchanged");
    // a chain of operations stays canonical
    F ch = (a + b) * (a - b); eqs(ch, int(m(m(x + y) * m(x - y))), "(a+b)(a-b)"); F ch2 = ch; ch2 -= a; ch2 *= b; eqs(ch2, int(m(m(m(m(x + y) * m(x - y)) - x) * y)), "chain");
  }
};
#define PRIMES(X) X(2) X(3) X(5) X(7) X(11) X(13) X(17) X(19) X(23) X(31) X(97) X(251)
// every ordered pair of residues for the small primes, also through non-canonical integers
TEST(small_pairs, 1, "modp_ctor modp_add modp_sub modp_mul modp_div modp_inv modp_neg modp_eq") {
  c.nontrivial();
#define X(P) for (int i = 0; i < P; i++) { { std::ostringstream s; s << "P=" << P << " i=" << i; c.in(s.str()); } T<P>::one(i); T<P>::one(i - P); T<P>::one(i - 3 * P); T<P>::one(i + 5 * P); for (int j = 0; j < P; j++) { T<P>::two(i, j); if (P < 30) T<P>::two(i - P, j + P); } }
  PRIMES(X)
#undef X
}
TEST(ints, 3000, "modp_ctor modp_eq_int") {
  Rng& g = c.g; int i = int(g.next()); if (c.k % 7 == 0) i = INT_MIN + int(g.below(40)); if (c.k % 7 == 1) i = INT_MAX - int(g.below(40)); if (c.k % 7 == 2) i = -int(g.below(400)); int j = int(g.next()); c.in("ints " + std::to_string(i) + " " + std::to_string(j)); c.nontrivial();
#define X(P) T<P>::one(i); T<P>::two(i, j);
  PRIMES(X) X(101) X(1009) X(32749) X(46337)
#undef X
}
TEST(larger_primes, 4000, "modp_add modp_mul modp_inv") { Rng& g = c.g; int i = int(g.below(46337)), j = int(g.below(46337)); if (c.k % 5 == 0) i = 46336 - int(g.below(3)); if (c.k % 5 == 1) j = 46336 - int(g.below(3)); c.in("residues " + std::to_string(i) + " " + std::to_string(j)); c.nontrivial(); T<46337>::two(i, j); T<32749>::two(i, j); T<1009>::two(i, j); T<101>::two(i, j); if (c.k % 16 == 0) T<46337>::one(i); }
