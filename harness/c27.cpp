// C27  approximate comparison is consistent with its epsilon
// mc-flags: -O1 ubsan
// mc-assume: values differ from the boundary of the tolerance by zero (where exactly representable) or by clearly more than rounding; no NaN
#include "mc.hpp"
#include <limits>
#include <sstream>
#include <vecmath/approx.h>
#include <vecmath/constants.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_io.h>
#include <vecmath/vec.h>
#include <vecmath/vec_io.h>
using mc::Ctx;
using vm::approx;
using vm::mat;
using vm::vec;

// all comparison operators against the expected three-way result
template <class X, class A> void ordered(Ctx& c, const X& x, const A& a, int cmp) {
  CHECK((x == a) == (cmp == 0) && (a == x) == (cmp == 0), "== is ", x == a, a == x, ", comparison should be ", cmp);
  CHECK((x != a) == (cmp != 0) && (a != x) == (cmp != 0), "!= is ", x != a, a != x, ", comparison should be ", cmp);
  CHECK((x < a) == (cmp < 0) && (a > x) == (cmp < 0), "< is ", x < a, ", mirrored > is ", a > x, ", comparison should be ", cmp);
  CHECK((x > a) == (cmp > 0) && (a < x) == (cmp > 0), "> is ", x > a, ", mirrored < is ", a < x, ", comparison should be ", cmp);
  CHECK((x <= a) == (cmp <= 0) && (a >= x) == (cmp <= 0), "<= is ", x <= a, ", mirrored >= is ", a >= x, ", comparison should be ", cmp);
  CHECK((x >= a) == (cmp >= 0) && (a <= x) == (cmp >= 0), ">= is ", x >= a, ", mirrored <= is ", a <= x, ", comparison should be ", cmp);
  c.op(12);
}
template <class X, class A> void equal_only(Ctx& c, const X& x, const A& a, bool eq) {
  CHECK((x == a) == eq && (a == x) == eq, "== is ", x == a, a == x, ", should be ", eq);
  c.op(2);
}
// how far off a component is, in units of half the epsilon: at most 2 is equal
template <class T> int sign(int k) { return k < -2 ? -1 : k > 2 ? 1 : 0; }
static const std::vector<int> K{0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 40, -40};
template <class T> struct Setup {
  T eps;
  bool dflt;
};
template <class T> Setup<T> setup(Ctx& c) {
  const int k = c.range(0, 4);
  if (k == 0) return {vm::constants<T>::almost_zero(), true};
  static const std::vector<T> E{T(0.5), T(8), T(0.0625), T(0)};
  return {E[std::size_t(k - 1)], false};
}
// v displaced by k half epsilons; exact for dyadic values, boundary cases are left out where rounding matters
template <class T> bool displaced(T v, T eps, int k, T& x) {
  if (eps == T(0)) {
    x = k == 0 ? v : std::abs(k) <= 2 ? v : v + (k > 0 ? T(1) : T(-1)) * T(std::abs(k) - 2); // within zero: the value itself
    return true;
  }
  x = v + eps * T(k) / T(2);
  if (std::abs(k) == 2 || std::abs(k) == 1 || std::abs(k) == 3) {
    const bool dyadic = eps == T(0.5) || eps == T(8) || eps == T(0.0625);
    if (std::abs(k) == 2) return dyadic;
  }
  return true;
}
template <class T> const std::vector<T>& values() {
  static const std::vector<T> v{T(0), T(1), T(-3.5), T(128)};
  return v;
}
template <class T> void scalar(Ctx& c) {
  const auto s = setup<T>(c);
  const T v = c.pick(values<T>());
  const int k = c.pick(K);
  if (s.dflt && std::fabs(v) * std::numeric_limits<T>::epsilon() > s.eps / 100) return c.skip();
  T x;
  if (!displaced(v, s.eps, k, x)) return c.skip();
  const int cmp = x == v ? 0 : sign<T>(k);
  NOTE(x, " and approx ", v, " epsilon ", s.eps);
  if (s.dflt) {
    ordered(c, x, approx<T>(v), cmp);
  }
  ordered(c, x, approx<T>(v, s.eps), cmp);
  std::ostringstream o, w;
  o << approx<T>(v, s.eps), w << v;
  CHECK(o.str() == w.str(), "printed ", o.str());
  c.state(x, v, s.eps);
}
MC_INSTANCE("scalar_d", (scalar<double>))
MC_INSTANCE("scalar_f", (scalar<float>))
template <class T, std::size_t S> void vectors(Ctx& c) {
  const auto s = setup<T>(c);
  vec<T, S> v, x;
  int cmp = 0;
  for (std::size_t i = 0; i < S; ++i) {
    const uint32_t d = c.dev(uint32_t(values<T>().size()));
    v[i] = values<T>()[d];
    if (s.dflt && std::fabs(v[i]) * std::numeric_limits<T>::epsilon() > s.eps / 100) return c.skip();
    const int k = K[c.dev(uint32_t(K.size()))];
    if (!displaced(v[i], s.eps, k, x[i])) return c.skip();
    if (cmp == 0 && x[i] != v[i]) cmp = sign<T>(k);
  }
  NOTE(x, " and approx ", v, " epsilon ", s.eps);
  if (s.dflt) ordered(c, x, approx<vec<T, S>>(v), cmp);
  ordered(c, x, approx<vec<T, S>>(v, s.eps), cmp);
  std::ostringstream o, w;
  o << approx<vec<T, S>>(v, s.eps), w << v;
  CHECK(o.str() == w.str(), "printed ", o.str());
  c.state(x, v, s.eps);
}
MC_INSTANCE("vec1_d", (vectors<double, 1>), 2, 2)
MC_INSTANCE("vec2_d", (vectors<double, 2>), 4, 4)
MC_INSTANCE("vec3_f", (vectors<float, 3>), 3, 6)
MC_INSTANCE("vec3_d", (vectors<double, 3>), 3, 6)
MC_INSTANCE("vec4_d", (vectors<double, 4>), 3, 4)
template <class T, std::size_t R, std::size_t C> void matrices(Ctx& c) {
  const auto s = setup<T>(c);
  mat<T, R, C> v, x;
  bool eq = true;
  uint64_t h = 0;
  for (std::size_t j = 0; j < C; ++j)
    for (std::size_t i = 0; i < R; ++i) {
      v[j][i] = values<T>()[c.dev(3)];
      const int k = K[c.dev(uint32_t(K.size()))];
      if (!displaced(v[j][i], s.eps, k, x[j][i])) return c.skip();
      if (x[j][i] != v[j][i] && sign<T>(k)) eq = false;
      Ctx::add(h, v[j][i]), Ctx::add(h, x[j][i]);
    }
  if (s.dflt) {
    equal_only(c, x, approx<mat<T, R, C>>(v), eq);
    const approx<mat<T, R, C>> a(v);
    CHECK((x != a) == !eq && (a != x) == !eq, "!= is ", x != a, a != x, ", should be ", !eq);
  }
  const approx<mat<T, R, C>> a(v, s.eps);
  equal_only(c, x, a, eq);
  CHECK((x != a) == !eq && (a != x) == !eq, "!= is ", x != a, a != x, ", should be ", !eq);
  c.op(2);
  std::ostringstream o, w;
  o << a, w << v;
  CHECK(o.str() == w.str(), "printed ", o.str());
  c.state(h, s.eps);
}
MC_INSTANCE("mat22_d", (matrices<double, 2, 2>), 2, 4)
MC_INSTANCE("mat23_d", (matrices<double, 2, 3>), 2, 3)
MC_INSTANCE("mat32_f", (matrices<float, 3, 2>), 2, 3)
MC_INSTANCE("mat44_d", (matrices<double, 4, 4>), 2, 2)
template <class T, std::size_t S> void lines(Ctx& c) {
  const auto s = setup<T>(c);
  vec<T, S> v[2], x[2];
  bool eq = true;
  for (int p = 0; p < 2; ++p)
    for (std::size_t i = 0; i < S; ++i) {
      v[p][i] = values<T>()[c.dev(3)];
      const int k = K[c.dev(uint32_t(K.size()))];
      if (!displaced(v[p][i], s.eps, k, x[p][i])) return c.skip();
      if (x[p][i] != v[p][i] && sign<T>(k)) eq = false;
    }
  const vm::line<T, S> a(v[0], v[1]), b(x[0], x[1]);
  NOTE(x[0], x[1], " and approx ", v[0], v[1], " epsilon ", s.eps);
  if (s.dflt) equal_only(c, b, approx<vm::line<T, S>>(a), eq);
  equal_only(c, b, approx<vm::line<T, S>>(a, s.eps), eq);
  std::ostringstream o, w;
  o << approx<vm::line<T, S>>(a, s.eps), w << a;
  CHECK(o.str() == w.str(), "printed ", o.str());
  c.state(x[0], x[1], v[0], v[1], s.eps);
}
MC_INSTANCE("line3_d", (lines<double, 3>), 3, 4)
MC_INSTANCE("line2_f", (lines<float, 2>), 3, 4)
// lists of values against lists of approximations
template <class X> void lists(Ctx& c) {
  using T = double;
  const int n = c.range(0, 4), m = c.range(0, 4);
  const T eps = 0.5;
  std::vector<X> xs;
  std::vector<approx<X>> as;
  bool eq = n == m;
  uint64_t h = 0;
  for (int i = 0; i < std::max(n, m); ++i) {
    const int k = K[c.dev(uint32_t(K.size()))];
    X v{}, x{};
    if constexpr (std::is_same_v<X, double>) v = T(i), x = T(i) + eps * k / 2;
    else v = X::fill(T(i)), x = v, x[std::size_t(c.choose(2))] += eps * k / 2;
    if (i < n && i < m && sign<T>(k)) eq = false;
    if (i < n) xs.push_back(x);
    if (i < m) as.push_back(approx<X>(v, eps));
    Ctx::add(h, x);
  }
  NOTE(xs);
  CHECK((xs == as) == eq && (as == xs) == eq, "== of ", n, " and ", m, " elements is ", xs == as, as == xs, ", should be ", eq);
  CHECK((xs != as) == !eq && (as != xs) == !eq, "!= of ", n, " and ", m, " elements is ", xs != as, as != xs, ", should be ", !eq);
  c.op(4);
  c.state(h, n, m);
}
MC_INSTANCE("list_d", (lists<double>), 3, 4)
MC_INSTANCE("list_v", (lists<vec<double, 2>>), 2, 4)
// long lists: every length up to a bound and every position of the one element that is out of tolerance; lists that
// agree on the common prefix but differ in length
template <class X> void lists_long(Ctx& c) {
  using T = double;
  const std::size_t n = c.pick(std::vector<std::size_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1000, 70000});
  const int dm = c.range(-2, 2); // difference of the lengths
  if (int(n) + dm < 0) return c.skip();
  const std::size_t m = std::size_t(int(n) + dm);
  const std::size_t pos = n <= 33 ? c.choose(uint32_t(n) + 1) : std::vector<std::size_t>{0, 1, n / 2, n - 2, n - 1, n}[c.choose(6)];
  const int k = c.pick(std::vector<int>{-3, -1, 1, 3});
  const T eps = 0.5;
  std::vector<X> xs, ys;
  std::vector<approx<X>> as;
  for (std::size_t i = 0; i < std::max(n, m); ++i) {
    X v{}, x{};
    const T disp = i == pos ? eps * k / 2 : eps / 4;
    if constexpr (std::is_same_v<X, double>) v = T(int(i % 5)), x = v + disp;
    else v = X::fill(T(int(i % 5))), x = v, x[X::size - 1] += disp;
    if (i < n) xs.push_back(x);
    if (i < m) as.push_back(approx<X>(v, eps));
  }
  const bool eq = n == m && !(pos < n && std::abs(k) == 3);
  NOTE("n=", n, " m=", m, " position ", pos, " displaced by ", k, "/2 epsilon");
  CHECK((xs == as) == eq && (as == xs) == eq, "== of ", n, " and ", m, " elements is ", xs == as, as == xs, ", should be ", eq);
  CHECK((xs != as) == !eq && (as != xs) == !eq, "!= of ", n, " and ", m, " elements is ", xs != as, as != xs, ", should be ", !eq);
  c.op(4);
  c.state(n, m, pos, k);
}
MC_INSTANCE("list_long_d", (lists_long<double>))
MC_INSTANCE("list_long_v2", (lists_long<vec<double, 2>>))
MC_INSTANCE("list_long_v3", (lists_long<vec<double, 3>>))
