// C28  parallelism, colinearity and betweenness predicates are geometric
// mc-flags: -O2 ubsan
// mc-assume: configurations are at least a factor of 1.5 away from the tolerance (area, angle, length, component); betweenness is asked for exactly colinear points only
#include "mc.hpp"
#include "ref.hpp"
#include <vecmath/constants.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;
using R = long double;

// squared area of the parallelogram of three points, exactly enough
template <class T, std::size_t S> R area2(const vec<T, S>& a, const vec<T, S>& b, const vec<T, S>& d) {
  R r = 0;
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t k = 0; k < i; ++k) {
      const R m = (R(b[i]) - a[i]) * (R(d[k]) - a[k]) - (R(b[k]) - a[k]) * (R(d[i]) - a[i]);
      r += m * m;
    }
  return r;
}
template <class T, std::size_t S> void colinear_case(Ctx& c, const vec<T, S>& a, const vec<T, S>& b, const vec<T, S>& d, T eps, bool dflt) {
  const R A = area2(a, b, d);
  if (A > eps / 1.5L && A < eps * 1.5L) return;
  const bool want = A <= eps;
  const vec<T, S>* p[3] = {&a, &b, &d};
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& o : PERM) {
    if (dflt) CHECK(vm::is_colinear(*p[o[0]], *p[o[1]], *p[o[2]]) == want, *p[o[0]], *p[o[1]], *p[o[2]], " are ", want ? "" : "not ", "colinear, squared area ", A);
    else CHECK(vm::is_colinear(*p[o[0]], *p[o[1]], *p[o[2]], eps) == want, *p[o[0]], *p[o[1]], *p[o[2]], " are ", want ? "" : "not ", "colinear with tolerance ", eps, ", squared area ", A);
    c.op();
  }
}
// all triples of a lattice, scaled and translated
template <class T, std::size_t S> void colinear(Ctx& c) {
  static const std::vector<T> SC{T(1), T(0.25), T(64), T(512)}, OFF{T(0), T(100)};
  static const std::vector<T> EPS{T(0), T(0.001), T(5), T(5000)};
  const int lim = S == 3 ? c.tiered(1, 2) : 2;
  const T sc = c.pick(SC), off = c.pick(OFF);
  vec<T, S> a, b, d;
  for (std::size_t i = 0; i < S; ++i) a[i] = off * T(i + 1), b[i] = a[i] + sc * T(c.range(-lim, lim)), d[i] = a[i] + sc * T(c.range(-lim, lim));
  colinear_case(c, a, b, d, vm::constants<T>::colinear_epsilon(), true);
  for (T e : EPS) colinear_case(c, a, b, d, e, false);
  c.state(a, b, d);
}
MC_INSTANCE("colinear_d3", (colinear<double, 3>))
MC_INSTANCE("colinear_f3", (colinear<float, 3>))
MC_INSTANCE("colinear_d2", (colinear<double, 2>))
MC_INSTANCE("colinear_d4", (colinear<double, 4>), 0, 0, true)
// points of a line whose coordinates are rounded, and points off it
template <class T> void on_line(Ctx& c) {
  static const std::vector<R> DEN{3, 7, 10, 1};
  static const std::vector<R> MAG{1, 30, 1000, 3000};
  static const std::vector<R> PAR{-1, 0.25L, 0.5L, 2, 3.7L};
  ref::V3 v{R(c.range(-2, 2)), R(c.range(-2, 2)), R(c.range(-2, 2))};
  if (ref::len(v) == 0) return c.skip();
  const R m = c.pick(MAG) / c.pick(DEN);
  const bool off = c.flag();
  const ref::V3 o{off ? 100 : 0.1L, off ? -20.3L : 0, off ? 7 : 0.3L};
  const R t = c.pick(PAR);
  const ref::V3 pa = o, pb = o + v * m, side = ref::perp(v);
  R dist = 0;
  if (c.flag()) dist = c.flag() ? 0.05L : -1;
  const ref::V3 pd = o + v * (m * t) + side * dist;
  const auto tv = [](ref::V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; };
  if (sizeof(T) == 4 && m * 4 + 100 > 200) return c.skip(); // too coarse
  if (sizeof(T) == 4) colinear_case(c, tv(pa), tv(pb), tv(pd), T(0.5), false);
  else colinear_case(c, tv(pa), tv(pb), tv(pd), vm::constants<T>::colinear_epsilon(), true);
  c.state(tv(pa), tv(pb), tv(pd));
}
MC_INSTANCE("on_line_d", (on_line<double>))
MC_INSTANCE("on_line_f", (on_line<float>))

// --- parallel ---------------------------------------------------------------------------------------
template <class T, std::size_t S> void parallel_case(Ctx& c, const vec<T, S>& a, const vec<T, S>& b, R off, T eps, bool dflt) { // off = 1 - |cos|
  const R noise = sizeof(T) == 4 ? 1e-6L : 1e-14L;
  const bool want = off <= eps;
  if (std::fabs(off - eps) < noise || (off > eps / 1.2L && off < eps * 1.2L)) return;
  for (int s = 0; s < 4; ++s) {
    const auto x = s & 1 ? -a : a, y = s & 2 ? -b : b;
    if (dflt) CHECK(vm::is_parallel(x, y) == want && vm::is_parallel(y, x) == want && vm::is_parallel_c(x, y) == want, x, " and ", y, " are ", want ? "" : "not ", "parallel");
    else CHECK(vm::is_parallel(x, y, eps) == want && vm::is_parallel(y, x, eps) == want && vm::is_parallel_c(x, y, eps) == want, x, " and ", y, " are ", want ? "" : "not ", "parallel with tolerance ", eps);
    c.op(3);
  }
}
template <class T, std::size_t S> void parallel(Ctx& c) {
  static const std::vector<T> EPS{T(0.01), T(0.3), T(0.9)};
  const std::vector<R> SC{1, 0.001L, std::ldexp(1.0L, sizeof(T) == 4 ? 20 : 100), std::ldexp(1.0L, sizeof(T) == 4 ? -20 : -100), 37};
  const int lim = S == 3 ? c.tiered(1, 2) : 3;
  R a[S], b[S], ab = 0, aa = 0, bb = 0;
  for (std::size_t i = 0; i < S; ++i) a[i] = c.range(-lim, lim);
  for (std::size_t i = 0; i < S; ++i) b[i] = c.range(-lim, lim);
  const R sa = c.pick(SC), sb = c.pick(SC);
  vec<T, S> x, y;
  for (std::size_t i = 0; i < S; ++i) ab += a[i] * b[i], aa += a[i] * a[i], bb += b[i] * b[i], x[i] = T(a[i] * sa), y[i] = T(b[i] * sb);
  if (aa == 0 || bb == 0) {
    CHECK(!vm::is_parallel(x, y), "the zero vector is parallel to something: ", x, y);
    c.op();
    c.state(x, y);
    return;
  }
  const R off = 1 - std::fabs(ab) / std::sqrt(aa * bb);
  parallel_case(c, x, y, off, vm::constants<T>::colinear_epsilon(), true);
  for (T e : EPS) parallel_case(c, x, y, off, e, false);
  c.state(x, y);
}
MC_INSTANCE("parallel_d3", (parallel<double, 3>))
MC_INSTANCE("parallel_f3", (parallel<float, 3>))
MC_INSTANCE("parallel_d2", (parallel<double, 2>))
// small angles
template <class T> void small_angle(Ctx& c) {
  static const std::vector<R> DEG{0, 0.05L, 0.15L, 0.4L, 1, 5, 45, 89, 90};
  const ref::V3 v{R(c.range(-2, 2)), R(c.range(-2, 2)), R(c.range(-2, 2))};
  if (ref::len(v) == 0) return c.skip();
  const ref::V3 n = ref::unit(v), s = ref::perp(n), t = ref::cross(n, s);
  const R a = c.pick(DEG) * ref::PI / 180, w = R(c.range(0, 7)) * ref::PI / 4;
  const ref::V3 m = n * std::cos(a) + (s * std::cos(w) + t * std::sin(w)) * std::sin(a);
  const R sc = c.flag() ? 1 : 1000;
  const vec<T, 3> x{T(v.x), T(v.y), T(v.z)}, y{T(m.x * sc), T(m.y * sc), T(m.z * sc)};
  parallel_case(c, x, y, 1 - std::cos(a), vm::constants<T>::colinear_epsilon(), true);
  c.state(x, y);
}
MC_INSTANCE("small_angle_d", (small_angle<double>))
MC_INSTANCE("small_angle_f", (small_angle<float>))

// --- between ------------------------------------------------------------------------------------------
template <class T, std::size_t S> void between(Ctx& c) {
  static const std::vector<T> SC{T(1), T(0.125), T(16)}, OFF{T(0), T(-20)};
  vec<T, S> o, v;
  bool zero = true;
  const T sc = c.pick(SC), off = c.pick(OFF);
  for (std::size_t i = 0; i < S; ++i) {
    const int k = c.range(-2, 2);
    o[i] = off * T(i + 1), v[i] = T(k) * sc;
    zero = zero && k == 0;
  }
  if (zero) return c.skip();
  const int a = c.range(-3, 3), b = c.range(-3, 3), p = c.range(-4, 4);
  const auto A = o + v * T(a), B = o + v * T(b), P = o + v * T(p);
  const bool want = std::min(a, b) <= p && p <= std::max(a, b);
  CHECK(vm::is_between(P, A, B) == want && vm::is_between(P, B, A) == want, P, " is ", want ? "" : "not ", "between ", A, " and ", B);
  CHECK(vm::is_between_c(P, A, B) == want && vm::is_between_c(P, B, A) == want, "at compile time, ", P, " is ", want ? "" : "not ", "between ", A, " and ", B);
  c.op(4);
  c.state(A, B, P);
}
MC_INSTANCE("between_d3", (between<double, 3>))
MC_INSTANCE("between_f3", (between<float, 3>))
MC_INSTANCE("between_d2", (between<double, 2>))
MC_INSTANCE("between_d1", (between<double, 1>))

// --- unit, zero, nan, integral ----------------------------------------------------------------------
template <class T, std::size_t S> void unit(Ctx& c) {
  static const std::vector<R> LEN{1, 0.99L, 1.01L, 0.9L, 1.2L, 0, 2, 1.0005L, 0.9995L};
  static const std::vector<T> EPS{T(0.001), T(0.05), T(0.5)};
  R d[S], l = 0;
  for (std::size_t i = 0; i < S; ++i) d[i] = c.range(-2, 2), l += d[i] * d[i];
  if (l == 0) return c.skip();
  const R L = c.pick(LEN);
  const T e = c.pick(EPS);
  vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = T(d[i] / std::sqrt(l) * L);
  const R off = std::fabs(L - 1);
  if (off > e / 1.5L && off < e * 1.5L) return c.skip();
  CHECK(vm::is_unit(v, e) == (off <= e) && vm::is_unit_c(v, e) == (off <= e), v, " has length ", L, ", tolerance ", e);
  c.op(2);
  c.state(v, e);
}
MC_INSTANCE("unit_d3", (unit<double, 3>))
MC_INSTANCE("unit_f3", (unit<float, 3>))
MC_INSTANCE("unit_d2", (unit<double, 2>))
MC_INSTANCE("unit_d4", (unit<double, 4>))
template <class T, std::size_t S> void zero(Ctx& c) {
  static const std::vector<T> X{T(0), T(0.25), T(-0.25), T(0.5), T(-0.5), T(0.625), T(-0.625), T(9), T(-9)}, EPS{T(0.5), T(0), T(0.25), T(10)};
  const T e = c.pick(EPS);
  vec<T, S> v;
  bool want = true;
  for (std::size_t i = 0; i < S; ++i) {
    v[i] = X[c.dev(uint32_t(X.size()))];
    want = want && std::fabs(v[i]) <= e;
  }
  CHECK(vm::is_zero(v, e) == want, v, " is ", want ? "" : "not ", "zero with tolerance ", e);
  c.op();
  c.state(v, e);
}
MC_INSTANCE("zero_d1", (zero<double, 1>), 1, 1)
MC_INSTANCE("zero_d3", (zero<double, 3>), 3, 3)
MC_INSTANCE("zero_f4", (zero<float, 4>), 2, 4)
template <class T, std::size_t S> void integral(Ctx& c) {
  static const std::vector<T> B{T(0), T(3), T(-7), T(100000)}, F{T(0), T(0.25), T(-0.25), T(0.125), T(-0.125), T(0.375), T(0.5)}, EPS{T(0), T(0.125), T(0.25), T(0.3)};
  const T e = c.pick(EPS);
  const bool dflt = e == T(0) && c.flag();
  vec<T, S> v;
  bool want = true;
  for (std::size_t i = 0; i < S; ++i) {
    const T f = F[c.dev(uint32_t(F.size()))];
    v[i] = B[c.dev(uint32_t(B.size()))] + f;
    want = want && std::fabs(f) <= e;
  }
  CHECK((dflt ? vm::is_integral(v) : vm::is_integral(v, e)) == want, v, " is ", want ? "" : "not ", "integral with tolerance ", e);
  c.op();
  c.state(v, e);
}
MC_INSTANCE("integral_d1", (integral<double, 1>), 2, 2)
MC_INSTANCE("integral_d3", (integral<double, 3>), 4, 6)
MC_INSTANCE("integral_f2", (integral<float, 2>), 4, 4)
template <class T, std::size_t S> void nans(Ctx& c) {
  using L = std::numeric_limits<T>;
  static const std::vector<T> X{T(1), L::quiet_NaN(), L::infinity(), -L::infinity(), T(0), -L::quiet_NaN(), L::max()};
  vec<T, S> v;
  bool want = false;
  for (std::size_t i = 0; i < S; ++i) v[i] = c.pick(X), want = want || std::isnan(v[i]);
  CHECK(vm::is_nan(v) == want, "is_nan is ", !want, " for ", v);
  c.op();
  c.state(v);
}
MC_INSTANCE("nan_d3", (nans<double, 3>))
MC_INSTANCE("nan_f4", (nans<float, 4>))

// --- finer alphabets ----------------------------------------------------------------------------------
// triangles whose area is close to the tolerance, of every shape and in every direction
template <class T> void near_tolerance(Ctx& c) {
  static const std::vector<R> LEN{0.05L, 1, 30, 2000};
  static const std::vector<R> POS{0, 0.5L, 1, -2, 10};
  static const std::vector<R> F{0, 0.1L, 0.6L, 1.6L, 10, 1000};
  static const std::vector<T> EPS{vm::constants<T>::colinear_epsilon(), T(0.001), T(0.5), T(100)};
  const ref::V3 v{R(c.range(-2, 2)), R(c.range(-2, 2)), R(c.range(-2, 2))};
  if (ref::len(v) == 0) return c.skip();
  const R l = c.pick(LEN), x = c.pick(POS), f = c.pick(F);
  const std::size_t ei = c.choose(4);
  const T eps = EPS[ei];
  const R w = R(c.range(0, 3)) * ref::PI / 2;
  const ref::V3 n = ref::unit(v), s0 = ref::perp(n), s = s0 * std::cos(w) + ref::cross(n, s0) * std::sin(w);
  const R h = std::sqrt(f * eps) / l; // height over the side of length l
  const ref::V3 o{1, -2, 0.5L}, pb = o + n * l, pd = o + n * (l * x) + s * h;
  const auto tv = [](ref::V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; };
  // what rounding of the coordinates and of the products can make of the area
  const R noise = (sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L) * 8 * (l * l * (1 + std::fabs(x)) + l * 3 + h * l);
  const R A = std::sqrt(area2(tv(o), tv(pb), tv(pd))), E = std::sqrt(R(eps));
  if (std::fabs(A - E) <= noise + E * 0.05L) return c.skip();
  const bool want = A <= E;
  const vec<T, 3> p[3] = {tv(o), tv(pb), tv(pd)};
  static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto& q : PERM) {
    CHECK(vm::is_colinear(p[q[0]], p[q[1]], p[q[2]], eps) == want, p[q[0]], p[q[1]], p[q[2]], " are ", want ? "" : "not ", "colinear with tolerance ", eps, ", area ", A);
    if (ei == 0) CHECK(vm::is_colinear(p[q[0]], p[q[1]], p[q[2]]) == want, p[q[0]], p[q[1]], p[q[2]], " are ", want ? "" : "not ", "colinear, area ", A);
    c.op(2);
  }
  c.state(p[0], p[1], p[2], eps);
}
MC_INSTANCE("near_tolerance_d", (near_tolerance<double>))
MC_INSTANCE("near_tolerance_f", (near_tolerance<float>))
// more sizes: one or two components differ from a common direction
template <class T, std::size_t S> void colinear_sizes(Ctx& c) {
  static const std::vector<T> SC{T(1), T(0.5), T(32)}, K{T(2), T(-1), T(0.5), T(0), T(1)};
  const T sc = c.pick(SC), k = c.pick(K);
  vec<T, S> a, b, d;
  for (std::size_t i = 0; i < S; ++i) {
    a[i] = T(int(i % 3)) - T(1);
    b[i] = a[i] + sc * T(c.range(-1, 1));
    d[i] = a[i] + (b[i] - a[i]) * k;
  }
  const uint32_t x = c.dev(uint32_t(2 * S + 1));
  if (x) d[(x - 1) / 2] += x % 2 ? T(0.25) : T(-8);
  colinear_case(c, a, b, d, vm::constants<T>::colinear_epsilon(), true);
  colinear_case(c, a, b, d, T(2), false);
  c.state(a, b, d);
}
MC_INSTANCE("colinear_sizes_1", (colinear_sizes<double, 1>), 1, 1)
MC_INSTANCE("colinear_sizes_2", (colinear_sizes<float, 2>), 1, 1)
MC_INSTANCE("colinear_sizes_4", (colinear_sizes<double, 4>), 1, 1)
MC_INSTANCE("colinear_sizes_5", (colinear_sizes<double, 5>), 1, 1)
MC_INSTANCE("colinear_sizes_6", (colinear_sizes<float, 6>), 1, 1)
// parallelism in other sizes, and of vectors with components of different magnitudes
template <class T, std::size_t S> void parallel_sizes(Ctx& c) {
  static const std::vector<R> A{0, 1, -1, 100, 0.01L};
  static const std::vector<R> K{1, -1, 3, 0.001L, -1000};
  static const std::vector<R> D{0.001L, 0.01L, -0.1L, 1, -30};
  static const std::vector<T> EPS{T(0.0001), T(0.01), T(0.3)};
  R a[S], b[S], ab = 0, aa = 0, bb = 0;
  for (std::size_t i = 0; i < S; ++i) a[i] = A[c.dev(5)];
  for (std::size_t i = 0; i < S; ++i) b[i] = a[i];
  const uint32_t x = c.choose(uint32_t(5 * S + 1));
  if (x) b[(x - 1) / 5] += D[(x - 1) % 5];
  const R k = c.pick(K);
  vec<T, S> p, q;
  for (std::size_t i = 0; i < S; ++i) {
    p[i] = T(a[i]), q[i] = T(b[i] * k);
    ab += R(p[i]) * q[i], aa += R(p[i]) * p[i], bb += R(q[i]) * q[i];
  }
  if (aa == 0 || bb == 0) return c.skip();
  R sq = 0; // squared sine, without cancellation
  for (std::size_t i = 0; i < S; ++i)
    for (std::size_t j = 0; j < i; ++j) {
      const R m = R(p[i]) * q[j] - R(p[j]) * q[i];
      sq += m * m;
    }
  sq /= aa * bb;
  const R cs = std::fabs(ab) / std::sqrt(aa * bb), off = sq / (1 + cs);
  parallel_case(c, p, q, off, vm::constants<T>::colinear_epsilon(), true);
  for (T e : EPS) parallel_case(c, p, q, off, e, false);
  c.state(p, q);
}
MC_INSTANCE("parallel_sizes_d1", (parallel_sizes<double, 1>), 1, 1)
MC_INSTANCE("parallel_sizes_d2", (parallel_sizes<double, 2>), 2, 2)
MC_INSTANCE("parallel_sizes_d3", (parallel_sizes<double, 3>), 3, 3)
MC_INSTANCE("parallel_sizes_f3", (parallel_sizes<float, 3>), 3, 3)
MC_INSTANCE("parallel_sizes_d4", (parallel_sizes<double, 4>), 3, 4)
MC_INSTANCE("parallel_sizes_f5", (parallel_sizes<float, 5>), 3, 5)
// betweenness at fine positions and at large and small magnitudes; all coordinates are exact
template <class T, std::size_t S> void between_fine(Ctx& c) {
  const std::vector<R> SC{1, std::ldexp(1.0L, -8), std::ldexp(1.0L, 10)};
  const std::vector<R> OFF{0, 1, -1024};
  static const std::vector<int> POS{0, 1, 16, 31, 32, 33, 64, -1, -16, -300, 300};
  vec<T, S> o, v;
  bool zero = true;
  const T sc = T(c.pick(SC)), off = T(c.pick(OFF));
  for (std::size_t i = 0; i < S; ++i) {
    const int k = c.range(-1, 1) * int(i + 1);
    o[i] = off * T(int(i) - 1), v[i] = T(k) * sc / T(32);
    zero = zero && k == 0;
  }
  if (zero) return c.skip();
  const int a = c.pick(POS), b = c.pick(POS), p = c.pick(POS);
  const auto A = o + v * T(a), B = o + v * T(b), P = o + v * T(p);
  for (std::size_t i = 0; i < S; ++i)
    if (R(A[i]) != R(o[i]) + R(v[i]) * a || R(B[i]) != R(o[i]) + R(v[i]) * b || R(P[i]) != R(o[i]) + R(v[i]) * p) return c.skip();
  const bool want = std::min(a, b) <= p && p <= std::max(a, b);
  CHECK(vm::is_between(P, A, B) == want && vm::is_between_c(P, A, B) == want, P, " is ", want ? "" : "not ", "between ", A, " and ", B);
  c.op(2);
  c.state(A, B, P);
}
MC_INSTANCE("between_fine_d3", (between_fine<double, 3>))
MC_INSTANCE("between_fine_f3", (between_fine<float, 3>))
MC_INSTANCE("between_fine_d2", (between_fine<double, 2>))
MC_INSTANCE("between_fine_d1", (between_fine<double, 1>))
MC_INSTANCE("between_fine_d4", (between_fine<double, 4>))
// integral and zero vectors: magnitudes, tiny tolerances and every component
template <class T, std::size_t S> void component_tests(Ctx& c) {
  const int big = sizeof(T) == 4 ? 10 : 36;
  const std::vector<R> B{0, 1, -1, 2, -2, 255, -1023, std::ldexp(1.0L, big), -std::ldexp(1.0L, big) + 1};
  const R u = std::ldexp(1.0L, -12);
  const std::vector<R> F{0, u, -u, 2 * u, -2 * u, 3 * u, 0.5L - u, u - 0.5L, 0.5L, -0.5L};
  const std::vector<R> E{2 * u, 0, u, 0.25L, 0.5L};
  const T e = T(c.pick(E));
  vec<T, S> v, z;
  bool wi = true, wz = true;
  for (std::size_t i = 0; i < S; ++i) {
    const R f = F[c.dev(10)], b = B[c.dev(9)];
    v[i] = T(b + f), z[i] = T(f);
    wi = wi && std::fabs(f) <= e, wz = wz && std::fabs(f) <= e;
  }
  CHECK(vm::is_integral(v, e) == wi, v, " is ", wi ? "" : "not ", "integral with tolerance ", e);
  CHECK(vm::is_zero(z, e) == wz, z, " is ", wz ? "" : "not ", "zero with tolerance ", e);
  c.op(2);
  c.state(v, e);
}
MC_INSTANCE("component_d1", (component_tests<double, 1>), 2, 2)
MC_INSTANCE("component_d2", (component_tests<double, 2>), 4, 4)
MC_INSTANCE("component_f3", (component_tests<float, 3>), 3, 4)
MC_INSTANCE("component_d4", (component_tests<double, 4>), 2, 4)
MC_INSTANCE("component_d6", (component_tests<double, 6>), 2, 3)
// unit vectors of fine lengths
template <class T, std::size_t S> void unit_fine(Ctx& c) {
  static const std::vector<R> F{0, 0.5L, 0.9L, 1.1L, 2, 30};
  static const std::vector<T> EPS{T(0.0001), T(0.01), T(0.03)};
  R d[S], l = 0;
  for (std::size_t i = 0; i < S; ++i) d[i] = c.range(-2, 2) * R(i == 1 ? 1.5L : 1), l += d[i] * d[i];
  if (l == 0) return c.skip();
  const T e = c.pick(EPS);
  const R off = c.pick(F) * e * (c.flag() ? 1 : -1), L = 1 + off;
  vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v[i] = T(d[i] / std::sqrt(l) * L);
  const bool want = std::fabs(off) <= e;
  CHECK(vm::is_unit(v, e) == want && vm::is_unit_c(v, e) == want, v, " has length ", L, ", tolerance ", e);
  c.op(2);
  c.state(v, e);
}
MC_INSTANCE("unit_fine_d1", (unit_fine<double, 1>))
MC_INSTANCE("unit_fine_d2", (unit_fine<double, 2>))
MC_INSTANCE("unit_fine_f3", (unit_fine<float, 3>))
MC_INSTANCE("unit_fine_d4", (unit_fine<double, 4>))
MC_INSTANCE("unit_fine_d5", (unit_fine<double, 5>))

// --- components in every order of size and with every sign ---------------------------------------------------------
template <class T> void skewed(Ctx& c) {
  using ref::V3;
  static const std::vector<V3> O{{0, 0, 0}, {7.3L, -5.1L, 2.9L}};
  static const std::vector<R> L{0.6L, 3, 11}, PAR{-1.7L, -0.4L, 0.3L, 0.8L, 2.5L}, SIDE{0, 0.3L, -2};
  const auto tv = [](V3 p) { return vec<T, 3>{T(p.x), T(p.y), T(p.z)}; };
  const ref::Frame& f = c.pick(ref::frames());
  const V3 o = c.pick(O), u = f({1, 0, 0});
  const R l = c.pick(L), t = c.pick(PAR), w = c.pick(SIDE);
  const V3 a = o, b = o + u * l, p = o + u * (l * t) + f({0, w, 0});
  NOTE("points ", ref::str(a), ref::str(b), ref::str(p));
  colinear_case(c, tv(a), tv(b), tv(p), sizeof(T) == 4 ? T(0.001) : vm::constants<T>::colinear_epsilon(), sizeof(T) == 8);
  if (w == 0) {
    const bool want = t >= 0 && t <= 1;
    CHECK(vm::is_between(tv(p), tv(a), tv(b)) == want && vm::is_between(tv(p), tv(b), tv(a)) == want, tv(p), " is ", want ? "" : "not ", "between");
  }
  const V3 x = u * l, y = f({t, w, 0});
  parallel_case(c, tv(x), tv(y), 1 - std::fabs(t) / std::sqrt(t * t + w * w), vm::constants<T>::colinear_epsilon(), true);
  CHECK(vm::is_unit(tv(u), vm::constants<T>::almost_zero()) && vm::is_unit_c(tv(u), vm::constants<T>::almost_zero()), tv(u), " is a unit vector");
  CHECK(vm::is_unit(tv(x), T(0.01)) == (std::fabs(l - 1) < 0.01L), tv(x), " has length ", l);
  c.op(4);
  c.state(tv(a), tv(b), tv(p));
}
MC_INSTANCE("skewed_d", (skewed<double>))
MC_INSTANCE("skewed_f", (skewed<float>))
