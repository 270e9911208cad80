// generators and dense oracle for sparse vectors / matrices (independent arithmetic)
#pragma once
#include <cassert>
#include <iomanip>
#include <util/common.hpp>
#include <linalg/field.hpp>
#include <linalg/sparse_vector.hpp>
#include "h.hpp"
using h::Ctx; using h::Rng; using h::show;
// O<F>: reference arithmetic for coefficient type F, on values of type R, independent of F's own operators
template <class F> struct O;
template <unsigned P> struct O<ModP<int, P>> {
  using F = ModP<int, P>; using R = int;
  static R nrm(long long x) { x %= (long long)P; if (x < 0) x += P; return R(x); }
  static F mk(R r) { return F(r); }
  static R to(const F& x) { std::ostringstream o; o << x; int v = atoi(o.str().c_str()); if (v < 0 || v >= int(P) || x.to_int() != v) throw h::Fail("coefficient " + o.str() + " is not a canonical residue"); return v; }
  static R zero() { return 0; } static R one() { return nrm(1); }
  static R add(R a, R b) { return nrm((long long)a + b); } static R mul(R a, R b) { return nrm((long long)a * b); } static R neg(R a) { return nrm(-(long long)a); }
  static R inv(R a) { for (int b = 1; b < int(P); b++) if (mul(a, b) == one()) return b; throw h::Fail("oracle: inverse of zero"); }
  static R rnd(Rng& g) { return R(g.below(P)); }
  static R rndnz(Rng& g) { return 1 + R(g.below(P - 1)); }
  static std::string name() { return "Z/" + std::to_string(P); }
};
struct Q { long long n, d; bool operator==(const Q& o) const { return n == o.n && d == o.d; } bool operator!=(const Q& o) const { return !(*this == o); } bool operator<(const Q& o) const { return n * o.d < o.n * d; } };
inline std::ostream& operator<<(std::ostream& o, const Q& q) { return o << q.n << "/" << q.d; }
inline Q mkq(long long n, long long d) { long long a = n < 0 ? -n : n, b = d < 0 ? -d : d; while (b) { long long t = a % b; a = b; b = t; } if (d < 0) a = -a; if (n == 0) return Q{0, 1}; return Q{n / a, d / a}; }
template <class I> struct O<Rational<I>> {
  using F = Rational<I>; using R = Q;
  static F mk(R r) { return F(I(r.n), I(r.d)); }
  static R to(const F& x) { std::ostringstream o; o << x; long long n, d; char c; std::istringstream i(o.str()); i >> n >> c >> d; Q q = mkq(n, d); if (q.n != n || q.d != d) throw h::Fail("rational " + o.str() + " is not in lowest terms with positive denominator"); return q; }
  static R zero() { return Q{0, 1}; } static R one() { return Q{1, 1}; }
  static R add(R a, R b) { return mkq(a.n * b.d + b.n * a.d, a.d * b.d); } static R mul(R a, R b) { return mkq(a.n * b.n, a.d * b.d); } static R neg(R a) { return Q{-a.n, a.d}; }
  static R inv(R a) { return mkq(a.d, a.n); }
  static R rnd(Rng& g) { return g.chance(3, 4) ? Q{g.range(-2, 2), 1} : mkq(g.range(-3, 3), g.range(1, 3)); }
  static R rndnz(Rng& g) { for (;;) { R r = rnd(g); if (r.n) return r; } }
  static std::string name() { return "Q"; }
};
template <class F> using Vec = std::vector<typename O<F>::R>;
template <class F> using SV_ = SparseVector<F, size_t>;
template <class F> struct Ops {
  using o = O<F>; using R = typename o::R; using V = Vec<F>; using S = SV_<F>; using M = std::vector<V>;   // M: list of columns
  static V rv(Rng& g, size_t n, int num, int den) { V v(n, o::zero()); for (auto& x : v) if (g.chance(num, den)) x = o::rndnz(g); return v; }
  static S mk(const V& v) { std::vector<size_t> i; std::vector<F> x; for (size_t k = 0; k < v.size(); k++) if (v[k] != o::zero()) { i.push_back(k); x.push_back(o::mk(v[k])); } return S(i, x); }
  // structure check + dense image. n: dimension; nz: explicit zeros forbidden
  static V to(const S& s, size_t n, const char* what, bool nz = true) {
    V v(n, o::zero()); auto I = s.nzinds(); auto X = s.nzvals(); CHECK(I.size() == X.size() && I.size() == s.nnz(), what);
    for (size_t k = 0; k < I.size(); k++) { CHECK(k == 0 || I[k - 1] < I[k], what << ": indices not strictly increasing " << show(I)); CHECK(I[k] < n, what << ": index " << I[k] << " out of range " << n); R r = o::to(X[k]); CHECK(!nz || r != o::zero(), what << ": stored explicit zero at " << I[k]); v[I[k]] = r; }
    return v; }
  static void same(const S& s, const V& v, const char* what, bool nz = true) { V w = to(s, v.size(), what, nz); CHECK(w == v, what << ": got " << show(w) << " expected " << show(v)); }
  static V axpy(R a, const V& x, const V& y) { V r(y); for (size_t i = 0; i < y.size(); i++) r[i] = o::add(y[i], o::mul(a, i < x.size() ? x[i] : o::zero())); return r; }
  static R dot(const V& x, const V& y) { R r = o::zero(); for (size_t i = 0; i < x.size() && i < y.size(); i++) r = o::add(r, o::mul(x[i], y[i])); return r; }
  static size_t dim(Rng& g) { int c = int(g.below(10)); return c < 2 ? g.below(3) : c < 7 ? 1 + g.below(8) : c < 9 ? 5 + g.below(20) : 30 + g.below(120); }
  static size_t sdim(Rng& g) { int c = int(g.below(10)); return c < 2 ? g.below(3) : c < 8 ? 1 + g.below(6) : 4 + g.below(9); }
  static V rvd(Rng& g, size_t n) { static const int D[6][2] = {{0, 1}, {1, 5}, {1, 2}, {4, 5}, {1, 1}, {1, 10}}; int d = int(g.below(6)); if (g.chance(1, 8)) { V v(n, o::zero()); if (n) v[g.below(n)] = o::rndnz(g); return v; } if (g.chance(1, 8)) { V v(n, o::zero()); size_t a = g.below(n + 1), b = g.below(n + 1); if (a > b) std::swap(a, b); for (size_t i = a; i < b; i++) v[i] = o::rndnz(g); return v; } return rv(g, n, D[d][0], D[d][1]); }
};
// run a generic test body for the coefficient fields; the k-th case picks the field
#define FOR_FIELDS(C, BODY) do { switch ((C).k % 6) { case 0: BODY<ModP<int, 2>>(C); break; case 1: case 5: BODY<ModP<int, 3>>(C); break; case 2: BODY<ModP<int, 5>>(C); break; case 3: BODY<ModP<int, 7>>(C); break; default: BODY<Rational<int>>(C); } } while (0)
