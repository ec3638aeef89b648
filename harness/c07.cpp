// C07  compile-time variants terminate and agree with the runtime variants
// mc-flags: -O2
// mc-assume: the C library square root is correctly rounded (IEEE 754); predicates are compared where the tested quantity is clear of the tolerance
#include "ref.hpp"
#include <vecmath/line.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/ray.h>
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;

template <class T> void check_sqrt(Ctx& c, T v) {
  const T r = vm::sqrt_c(v);
  if (v < 0) {
    CHECK(r != r, "sqrt_c(", v, ") = ", r, " expected NaN");
    return;
  }
  const T e = std::sqrt(v);
  CHECK(mc::close(r, e, 4.0L * std::numeric_limits<T>::epsilon(), 0), "sqrt_c(", v, ") = ", r, " expected ", e);
}

// every exponent (incl. subnormals) with structured mantissas
template <class T, class U> void sqrt_exponents(Ctx& c) {
  const int EB = sizeof(T) == 4 ? 8 : 11, MB = sizeof(T) == 4 ? 23 : 52;
  static const std::vector<U> man = [] {
    const int MB = sizeof(T) == 4 ? 23 : 52;
    std::vector<U> m{0, 1, 2, 3};
    const U all = (U(1) << MB) - 1;
    for (int b = 0; b < MB; ++b) {
      m.push_back(U(1) << b);
      m.push_back(all & ~((U(1) << b) - 1));
      m.push_back(all ^ (U(1) << b));
    }
    return m;
  }();
  const U sgn = c.choose(2), ex = c.choose((1u << EB) - 1);
  const U bits = (sgn << (EB + MB)) | (ex << MB) | c.pick(man);
  T v;
  std::memcpy(&v, &bits, sizeof v);
  NOTE("v=", v);
  check_sqrt(c, v);
  c.op(2);
  c.state(bits);
}
MC_INSTANCE("sqrt_exponents_d", (sqrt_exponents<double, uint64_t>))
MC_INSTANCE("sqrt_exponents_f", (sqrt_exponents<float, uint32_t>))

// every float mantissa: exponents of [1/4,64) (quick: the iteration is scale invariant in powers of 4) / all floats (thorough)
static void sqrt_float_sweep(Ctx& c) {
  const uint32_t ex = c.thorough() ? c.choose(255) : 125 + c.choose(8);
  const uint32_t hi = c.choose(128);
  for (uint32_t lo = 0; lo < 65536; ++lo) {
    const uint32_t bits = (ex << 23) | (hi << 16) | lo;
    float v;
    std::memcpy(&v, &bits, 4);
    check_sqrt(c, v);
  }
  NOTE("exponent ", ex, " mantissa block ", hi);
  c.op(2 * 65536);
  c.state(ex, hi);
}
MC_INSTANCE("sqrt_float_sweep", sqrt_float_sweep)

// squares, their neighbours, decimal fractions and integers in double precision
static void sqrt_values(Ctx& c) {
  const int block = c.choose(c.tiered(1024u, 16384u));
  for (int i = 0; i < 1024; ++i) {
    const double k = block * 1024.0 + i;
    check_sqrt(c, k);
    check_sqrt(c, k / 1000);
    check_sqrt(c, k * k);
    check_sqrt(c, std::nextafter(k * k, 1e300));
    if (k > 0) check_sqrt(c, 1 / k), check_sqrt(c, std::nextafter(k * k, 0.0));
  }
  NOTE("k in ", block * 1024, " + [0,1024)");
  c.op(2 * 6 * 1024);
  c.state(block);
}
MC_INSTANCE("sqrt_values", sqrt_values)

static void sqrt_special(Ctx& c) {
  CHECK(std::isinf(vm::sqrt_c(INFINITY)) && std::isinf(vm::sqrt_c((double)INFINITY)), "sqrt_c(inf)");
  CHECK(std::isnan(vm::sqrt_c(-INFINITY)) && std::isnan(vm::sqrt_c(std::nan(""))) && std::isnan(vm::sqrt_c(-1e-300)), "sqrt_c of NaN/negative");
  CHECK(vm::sqrt_c(0.0) == 0.0 && vm::sqrt_c(-0.0) == 0.0 && vm::sqrt_c(0.0f) == 0.0f, "sqrt_c(0)");
  NOTE("inf, -inf, NaN, 0, -0");
  c.op(8);
  c.state(1);
}
MC_INSTANCE("sqrt_special", sqrt_special)

// vector functions
template <class T, std::size_t S> void vectors(Ctx& c) {
  static const std::vector<T> A{T(0), T(1), T(-1), T(2), T(-3), T(0.25), T(7.5), T(1000), T(-4096), T(1e-3), T(0.6), T(-0.8)};
  vec<T, S> a, b;
  for (std::size_t i = 0; i < S; ++i) {
    a[i] = S <= 2 ? c.pick(A) : c.pick_dev(std::vector<T>{T(0), T(1), T(-2)}, A);
    b[i] = S <= 2 ? c.pick(A) : c.pick_dev(std::vector<T>{T(0), T(1), T(-2)}, A);
  }
  const T z = S == 2 ? T(std::ldexp(1.0, c.pick(std::vector<int>{0, -50, -25, -10, 10, 25, 50}))) : T(1);
  a = a * z;
  NOTE("a=", a, " b=", b);
  const long double tol = 16.0L * std::numeric_limits<T>::epsilon();
  CHECK(mc::close(vm::length_c(a), vm::length(a), tol, 0), "length_c(", a, ") = ", vm::length_c(a), " length ", vm::length(a));
  CHECK(mc::close(vm::distance_c(a, b), vm::distance(a, b), tol, 0), "distance_c(", a, b, ")");
  c.op(4);
  bool za = true, zb = true;
  for (std::size_t i = 0; i < S; ++i) za = za && a[i] == 0, zb = zb && b[i] == 0;
  if (!za) {
    const auto n = vm::normalize(a), nc = vm::normalize_c(a);
    for (std::size_t i = 0; i < S; ++i) CHECK(mc::close(n[i], nc[i], tol), "normalize_c(", a, ") = ", nc, " normalize ", n);
    c.op(2);
    if (!zb) {
      const auto m = vm::normalize(b);
      long double d = 0;
      for (std::size_t i = 0; i < S; ++i) d += (long double)n[i] * m[i];
      for (T eps : {vm::constants<T>::colinear_epsilon(), T(0.25), T(1e-3)}) {
        const long double gap = std::fabs(std::fabs(std::fabs(d) - 1) - eps);
        if (gap > 1e-6L) CHECK(vm::is_parallel(a, b, eps) == vm::is_parallel_c(a, b, eps), "is_parallel_c(", a, b, eps, ")");
      }
      CHECK(vm::is_parallel(a, b) == vm::is_parallel_c(a, b) || std::fabs(std::fabs(std::fabs(d) - 1) - vm::constants<T>::colinear_epsilon()) < 1e-6L, "is_parallel_c(", a, b, ")");
      c.op(8);
    }
  }
  const long double l = vm::length(a);
  for (T eps : {T(0.001), T(0.25), T(1e-5)})
    if (std::fabs(std::fabs(l - 1) - eps) > 1e-6L) CHECK(vm::is_unit(a, eps) == vm::is_unit_c(a, eps), "is_unit_c(", a, eps, ")");
  c.op(6);
  c.state(a, b);
}
MC_INSTANCE("vectors_d1", (vectors<double, 1>))
MC_INSTANCE("vectors_d2", (vectors<double, 2>))
MC_INSTANCE("vectors_d3", (vectors<double, 3>), 2, 4)
MC_INSTANCE("vectors_f3", (vectors<float, 3>), 2, 4)
MC_INSTANCE("vectors_d4", (vectors<double, 4>), 1, 3)
MC_INSTANCE("vectors_f2", (vectors<float, 2>))

// betweenness: p, start, end on a common lattice line
template <class T, std::size_t S> void between(Ctx& c) {
  vec<T, S> o, d;
  for (std::size_t i = 0; i < S; ++i) {
    o[i] = T(c.range(-1, 1));
    d[i] = T(c.range(-1, 2));
  }
  // parameters up to an exact scale, so that all points are exactly representable, plus one ulp-like offset near the end points
  static const std::vector<T> scales{T(1), T(1) / 1024, T(1) / 1048576, T(4096)};
  const T k = c.pick(scales);
  const T s = T(c.range(-3, 3)), e = T(c.range(-3, 3)), p = T(c.range(-3, 3)) + (c.flag() ? T(1) / 4096 : T(0));
  const vec<T, S> a = (o + d * s) * k, b = (o + d * e) * k, q = (o + d * p) * k;
  NOTE("p=", q, " start=", a, " end=", b);
  CHECK(vm::is_between(q, a, b) == vm::is_between_c(q, a, b), "is_between_c(", q, a, b, ")");
  c.op(2);
  c.state(q, a, b);
}
MC_INSTANCE("between_d1", (between<double, 1>))
MC_INSTANCE("between_d2", (between<double, 2>))
MC_INSTANCE("between_d3", (between<double, 3>))
MC_INSTANCE("between_f3", (between<float, 3>))

// transform_c of lines, rays and planes
template <class T> std::vector<vm::mat<T, 4, 4>> transforms() {
  using M = vm::mat<T, 4, 4>;
  std::vector<M> g{M::identity(), M::rot_90_x_ccw(), M::rot_90_y_cw(), M::rot_90_z_ccw(), M::rot_180_x(), M::mirror_x(), M::mirror_z(),
    vm::translation_matrix(vec<T, 3>(T(1), T(-2), T(3))), vm::scaling_matrix(vec<T, 3>(T(2), T(2), T(2))), vm::scaling_matrix(vec<T, 3>(T(1), T(3), T(-0.5))),
    vm::shear_matrix<T>(1, 0, 0, T(0.5), 0, 0), vm::rotation_matrix(vm::normalize(vec<T, 3>(T(1), T(1), T(1))), T(0.7))};
  std::vector<M> r;
  for (auto& a : g)
    for (auto& b : g) r.push_back(a * b);
  return r;
}
template <class T> void transformed(Ctx& c) {
  static const auto M = transforms<T>();
  const auto& m = c.pick(M);
  vec<T, 3> p, d;
  for (int i = 0; i < 3; ++i) p[i] = T(c.range(-1, 1) * 2), d[i] = T(c.range(-1, 1));
  if (d == vec<T, 3>::zero()) return c.skip();
  d = vm::normalize(d);
  NOTE("p=", p, " d=", d);
  const T tol = T(16) * std::numeric_limits<T>::epsilon();
  auto eq = [&](const vec<T, 3>& a, const vec<T, 3>& b) {
    for (int i = 0; i < 3; ++i)
      if (!mc::close(a[i], b[i], tol)) return false;
    return true;
  };
  const vm::line<T, 3> l(p, d);
  const auto l1 = l.transform(m), l2 = l.transform_c(m);
  CHECK(eq(l1.point, l2.point) && eq(l1.direction, l2.direction), "line::transform_c ", p, d, " -> ", l2.point, l2.direction, " expected ", l1.point, l1.direction);
  const vm::ray<T, 3> r(p, d);
  const auto r1 = r.transform(m), r2 = r.transform_c(m);
  CHECK(eq(r1.origin, r2.origin) && eq(r1.direction, r2.direction), "ray::transform_c ", p, d);
  const vm::plane<T, 3> q(p, d);
  const auto q1 = q.transform(m), q2 = q.transform_c(m);
  CHECK(eq(q1.normal, q2.normal) && mc::close(q1.distance, q2.distance, tol * 4), "plane::transform_c ", p, d);
  c.op(6);
  c.state(p, d, r1.origin, r1.direction);
}
MC_INSTANCE("transformed_d", (transformed<double>))
MC_INSTANCE("transformed_f", (transformed<float>))
