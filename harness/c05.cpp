// C05  scalar selection, clamping and interval helpers
// mc-flags: -O2 ubsan
// mc-assume: integer arguments stay clear of the overflow of the mathematical result; plain min/max arguments are not NaN
#include "mc.hpp"
#include <vecmath/scalar.h>
#include <algorithm>
using mc::Ctx;
using mc::same;

template <class T> std::vector<T> ordered() {
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>)
    return {T(0), T(1), T(-1), T(0.5), T(-0.5), T(2), T(-2), -T(0), L::denorm_min(), L::min(), T(1) + L::epsilon(), T(1e6), T(-1e6), L::max(), L::lowest(), L::infinity(), -L::infinity(), T(16777217), T(1e-5), T(3)};
  else if constexpr (std::is_signed_v<T>)
    return {T(0), T(1), T(-1), T(2), T(-2), T(3), T(100), T(-100), T(127), T(-127), L::max(), T(-L::max()), T(L::max() - 1)};
  else
    return {T(0), T(1), T(2), T(3), T(100), T(127), T(128), T(255), L::max(), T(L::max() - 1)};
}
template <class T> T mag(T x) { return x < T(0) ? T(-x) : x; }

template <class T, class F> T call(F f, const std::vector<T>& a) {
  switch (a.size()) {
    case 1: return f(a[0]);
    case 2: return f(a[0], a[1]);
    case 3: return f(a[0], a[1], a[2]);
    case 4: return f(a[0], a[1], a[2], a[3]);
    case 5: return f(a[0], a[1], a[2], a[3], a[4]);
    default: return f(a[0], a[1], a[2], a[3], a[4], a[5]);
  }
}
template <class T> bool has(const std::vector<T>& a, T r) {
  for (T x : a)
    if (x == r) return true;
  return false;
}

template <class T> void minmax(Ctx& c) {
  static const auto R = ordered<T>();
  static const std::vector<T> B = std::is_signed_v<T> ? std::vector<T>{T(0), T(1), T(-1), T(2)} : std::vector<T>{T(0), T(1), T(3), T(2)};
  const uint32_t n = 1 + c.choose(c.tiered(5u, 6u));
  std::vector<T> a;
  for (uint32_t i = 0; i < n; ++i) a.push_back(n <= 2 ? c.pick(R) : c.pick_dev(B, R));
  NOTE("args=", a);
  const T mn = call<T>([](auto... x) { return vm::min(x...); }, a), mx = call<T>([](auto... x) { return vm::max(x...); }, a);
  CHECK(has(a, mn), "min(", a, ") = ", mn, " is not an argument");
  CHECK(has(a, mx), "max(", a, ") = ", mx, " is not an argument");
  for (T x : a) CHECK(mn <= x && mx >= x, "min/max(", a, ") = ", mn, "/", mx, " does not bound ", x);
  if constexpr (std::is_signed_v<T>) {
    const T an = call<T>([](auto... x) { return vm::abs_min(x...); }, a), ax = call<T>([](auto... x) { return vm::abs_max(x...); }, a);
    CHECK(has(a, an), "abs_min(", a, ") = ", an, " is not an argument");
    CHECK(has(a, ax), "abs_max(", a, ") = ", ax, " is not an argument");
    for (T x : a) CHECK(mag(an) <= mag(x) && mag(ax) >= mag(x), "abs_min/abs_max(", a, ") = ", an, "/", ax, " does not bound ", x);
  }
  c.op(4);
  c.state(a);
}
MC_INSTANCE("minmax_d", (minmax<double>), 2, 3)
MC_INSTANCE("minmax_f", (minmax<float>), 2, 3)
MC_INSTANCE("minmax_i", (minmax<int>), 2, 3)
MC_INSTANCE("minmax_u", (minmax<unsigned>), 2, 3)
MC_INSTANCE("minmax_z", (minmax<std::size_t>), 1, 2)
MC_INSTANCE("minmax_l", (minmax<long>), 1, 2)

template <class T> void safe_minmax(Ctx& c) {
  const T N = std::numeric_limits<T>::quiet_NaN();
  static const auto R = ordered<T>();
  const std::vector<T> B{T(0), T(1), N, T(-1), T(2)};
  std::vector<T> a;
  const uint32_t n = 1 + c.choose(c.tiered(5u, 6u));
  for (uint32_t i = 0; i < n; ++i) a.push_back(n <= 2 && i == 1 ? (c.flag() ? N : c.pick(R)) : c.pick_dev(B, R));
  NOTE("args=", a);
  const T mn = call<T>([](auto... x) { return vm::safe_min(x...); }, a), mx = call<T>([](auto... x) { return vm::safe_max(x...); }, a);
  std::vector<T> f;
  for (T x : a)
    if (x == x) f.push_back(x);
  if (f.empty()) {
    CHECK(mn != mn && mx != mx, "safe_min/max of only NaN: ", mn, mx);
  } else {
    CHECK(mn == *std::min_element(f.begin(), f.end()), "safe_min(", a, ") = ", mn);
    CHECK(mx == *std::max_element(f.begin(), f.end()), "safe_max(", a, ") = ", mx);
  }
  c.op(2);
  c.state(a);
}
MC_INSTANCE("safe_minmax_d", (safe_minmax<double>), 1, 2)
MC_INSTANCE("safe_minmax_f", (safe_minmax<float>), 1, 2)

template <class T> void ternary(Ctx& c) {
  static const auto R = ordered<T>();
  const T v = c.pick(R), a = c.pick(R), b = c.pick(R);
  NOTE("v=", v, " a=", a, " b=", b);
  // containment: closed interval, ends in any order
  const bool in = (a < b) ? (a <= v && v <= b) : (b <= v && v <= a);
  CHECK(vm::contains(v, a, b) == in, "contains(", v, ",", a, ",", b, ")");
  CHECK(vm::contains(v, b, a) == in, "contains is not symmetric in the interval ends: ", v, a, b);
  c.op(2);
  if (a <= b) {
    const T e = v < a ? a : v > b ? b : v;
    CHECK(vm::clamp(v, a, b) == e, "clamp(", v, ",", a, ",", b, ") = ", vm::clamp(v, a, b));
    c.op();
  }
  CHECK(vm::step(a, v) == (v < a ? T(0) : T(1)), "step(", a, ",", v, ")");
  if constexpr (std::is_signed_v<T>) {
    CHECK(vm::sign(v) == (v > T(0) ? T(1) : v < T(0) ? T(-1) : T(0)), "sign(", v, ")");
    CHECK(vm::abs(v) == mag(v), "abs(", v, ")");
  }
  c.op(3);
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isfinite(v) && std::isfinite(a) && mag(v) < T(1e30) && mag(a) < T(1e30) && b >= T(0)) {
      const bool eq = (long double)mag<long double>((long double)v - (long double)a) <= (long double)b;
      // differences that round across the tolerance are not decided
      const T d = v - a;
      if (((long double)d == (long double)v - (long double)a)) {
        CHECK(vm::is_equal(v, a, b) == eq, "is_equal(", v, ",", a, ",", b, ")");
        CHECK(vm::is_equal(a, v, b) == eq, "is_equal not symmetric (", v, ",", a, ",", b, ")");
        c.op(2);
      }
    }
    if (b >= T(0)) {
      CHECK(vm::is_zero(v, b) == (v == T(0) || mag(v) <= b), "is_zero(", v, ",", b, ")");
      c.op();
    }
    CHECK(!vm::is_nan(v), "is_nan(", v, ")");
    CHECK(vm::is_inf(v) == (std::isinf(v) != 0), "is_inf(", v, ")");
    const T N = vm::nan<T>();
    CHECK(N != N && vm::is_nan(N) && !vm::is_inf(N), "nan()");
    const T g = vm::nextgreater(v);
    CHECK(same(g, std::nextafter(v, std::numeric_limits<T>::infinity())), "nextgreater(", v, ") = ", g);
    if (v < std::numeric_limits<T>::infinity()) CHECK(g > v && std::nextafter(g, v) == v, "nextgreater(", v, ") = ", g, " is not the successor");
    c.op(5);
  } else {
    if constexpr (std::is_signed_v<T>) {
      const __int128 d = (__int128)v - (__int128)a;
      if (b >= 0 && d <= std::numeric_limits<T>::max() && d >= -(__int128)std::numeric_limits<T>::max()) {
        CHECK(vm::is_equal(v, a, b) == ((d < 0 ? -d : d) <= b), "is_equal(", v, ",", a, ",", b, ")");
        c.op();
      }
    }
  }
  if constexpr (!std::is_floating_point_v<T> && !std::is_signed_v<T>) {
    CHECK(vm::abs_difference(v, a) == (v > a ? v - a : a - v), "abs_difference(", v, ",", a, ")");
    c.op();
  }
  if constexpr (std::is_signed_v<T>) {
    // difference of the magnitudes (pinned by the repository's tests), symmetric and non-negative
    const long double e = std::fabs((long double)mag(v) - (long double)mag(a));
    if (std::isfinite(e) && e < 1e15L) {
      const T r = vm::abs_difference(v, a);
      CHECK(mc::close(r, e, 1e-6L, 1e-30L), "abs_difference(", v, ",", a, ") = ", r);
      CHECK(r == vm::abs_difference(a, v), "abs_difference not symmetric");
      c.op(2);
    }
  }
  c.state(v, a, b);
}
MC_INSTANCE("ternary_d", (ternary<double>))
MC_INSTANCE("ternary_f", (ternary<float>))
MC_INSTANCE("ternary_i", (ternary<int>))
MC_INSTANCE("ternary_u", (ternary<unsigned>))
MC_INSTANCE("ternary_l", (ternary<long>))
MC_INSTANCE("ternary_z", (ternary<std::size_t>))

// NaN classification and NaN-free results over a dense set of bit patterns (every exponent)
template <class T, class U> void classify(Ctx& c) {
  const int EB = sizeof(T) == 4 ? 8 : 11, MB = sizeof(T) == 4 ? 23 : 52;
  const U sgn = c.choose(2);
  const U ex = c.choose(1u << EB);
  static const std::vector<U> man = [] {
    std::vector<U> m{0, 1, 2, 3};
    const int MB = sizeof(T) == 4 ? 23 : 52;
    for (int b = 0; b < MB; ++b) m.push_back(U(1) << b), m.push_back((U(1) << MB) - (U(1) << b));
    return m;
  }();
  const U bits = (sgn << (EB + MB)) | (ex << MB) | c.pick(man);
  T v;
  std::memcpy(&v, &bits, sizeof v);
  NOTE("v=", v);
  CHECK(vm::is_nan(v) == (std::isnan(v) != 0), "is_nan(", v, ")");
  CHECK(vm::is_inf(v) == (std::isinf(v) != 0), "is_inf(", v, ")");
  c.op(2);
  if (!std::isnan(v)) {
    CHECK(vm::abs(v) == std::fabs(v), "abs(", v, ")");
    CHECK(vm::sign(v) == (v > 0 ? T(1) : v < 0 ? T(-1) : T(0)), "sign(", v, ")");
    CHECK(same(vm::nextgreater(v), std::nextafter(v, std::numeric_limits<T>::infinity())), "nextgreater(", v, ")");
    CHECK(vm::clamp(v) == (v < 0 ? T(0) : v > 1 ? T(1) : v), "clamp to [0,1] of ", v, " = ", vm::clamp(v));
    CHECK(vm::is_zero(v, T(0)) == (v == 0), "is_zero(", v, ", 0)");
    CHECK(vm::min(v, T(1)) == (v < 1 ? v : T(1)) && vm::min(T(1), v) == (v < 1 ? v : T(1)), "min(", v, ",1)");
    CHECK(vm::max(v, T(1)) == (v > 1 ? v : T(1)) && vm::max(T(1), v) == (v > 1 ? v : T(1)), "max(", v, ",1)");
    const T sv = vm::sqrt(v);
    if (v < 0) CHECK(sv != sv, "sqrt(", v, ") = ", sv);
    else CHECK(sv == std::sqrt(v), "sqrt(", v, ") = ", sv);
    c.op(10);
  }
  c.state(bits);
}
MC_INSTANCE("classify_d", (classify<double, uint64_t>))
MC_INSTANCE("classify_f", (classify<float, uint32_t>))

template <class T> void interpolate(Ctx& c) {
  static const std::vector<T> xs{T(0), T(1), T(-1), T(2), T(-4), T(0.5), T(100), T(-1000), T(4096)};
  static const std::vector<T> as{T(0), T(1), T(0.5), T(0.25), T(0.75), T(-1), T(2), T(0.125), T(1.5), T(1) / 1024, T(1023) / 1024, T(1) / 3};
  const T z = T(std::ldexp(1.0, c.pick(std::vector<int>{0, -40, -20, 20, 40})));
  const T x = c.pick(xs) * z, y = c.pick(xs) * z, a = c.pick(as);
  NOTE("x=", x, " y=", y, " a=", a);
  const long double e = (1.0L - a) * x + (long double)a * y;
  CHECK(std::fabs((long double)vm::mix(x, y, a) - e) <= mc::tol<T>() * (std::fabs(e) + std::fabs((long double)x) + std::fabs((long double)y)), "mix(", x, ",", y, ",", a, ") = ", vm::mix(x, y, a));
  CHECK(vm::mix(x, y, T(0)) == x && vm::mix(x, y, T(1)) == y, "mix end points");
  c.op(3);
  if (x != y) {
    const T v = x + (y - x) * a; // inside, outside and at the edges; e0 > e1 included
    long double t = ((long double)v - x) / ((long double)y - x);
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    const long double s = t * t * (3 - 2 * t);
    CHECK(mc::close(vm::smoothstep(x, y, v), s, mc::tol<T>()), "smoothstep(", x, ",", y, ",", v, ") = ", vm::smoothstep(x, y, v), " expected ", s);
    c.op();
  }
  c.state(x, y, a);
}
MC_INSTANCE("interpolate_d", (interpolate<double>))
MC_INSTANCE("interpolate_f", (interpolate<float>))

template <class T, class U> void cyclic(Ctx& c) {
  const int n = 1 + int(c.choose(c.tiered(14u, 40u)));
  const int i = int(c.choose(n));
  const int s = int(c.choose(4 * n + 2));
  const T I = T(i), S = T(s);
  const U N = U(n);
  const T a = vm::succ(I, N, S);
  CHECK(int(a) == (i + s) % n, "succ(", i, ",", n, ",", s, ") = ", int(a));
  const T p = vm::pred(I, N, S);
  CHECK(int(p) == ((i - s) % n + n) % n, "pred(", i, ",", n, ",", s, ") = ", int(p));
  CHECK(vm::pred(a, N, S) == I && vm::succ(p, N, S) == I, "succ and pred are not inverse: ", i, n, s);
  CHECK(int(vm::succ(I, N)) == (i + 1) % n && int(vm::pred(I, N)) == (i + n - 1) % n, "default stride ", i, n);
  c.op(6);
  NOTE("i=", i, " n=", n, " stride=", s);
  c.state(i, n, s);
}
MC_INSTANCE("cyclic_int", (cyclic<int, int>))
MC_INSTANCE("cyclic_size", (cyclic<std::size_t, std::size_t>))
MC_INSTANCE("cyclic_mixed1", (cyclic<int, std::size_t>))
MC_INSTANCE("cyclic_mixed2", (cyclic<std::size_t, int>))
MC_INSTANCE("cyclic_u", (cyclic<unsigned, unsigned>))
MC_INSTANCE("cyclic_short", (cyclic<short, short>))
MC_INSTANCE("cyclic_u8", (cyclic<unsigned char, int>))
MC_INSTANCE("cyclic_ll", (cyclic<long long, int>))

// large counts
template <class T, class U> void cyclic_large(Ctx& c) {
  static const std::vector<long long> ns{1000, 65535, 65536, 65537, 1000003, 1 << 24, (1 << 24) + 1, 500000000};
  const long long n = c.pick(ns);
  const std::vector<long long> ks{0, 1, 2, n / 2, n - 2, n - 1};
  const long long i = c.pick(ks), s = c.pick(ks);
  CHECK((long long)vm::succ(T(i), U(n), T(s)) == (i + s) % n, "succ(", i, ",", n, ",", s, ")");
  CHECK((long long)vm::pred(T(i), U(n), T(s)) == (i + n - s) % n, "pred(", i, ",", n, ",", s, ")");
  c.op(2);
  NOTE("i=", i, " n=", n, " stride=", s);
  c.state(i, n, s);
}
MC_INSTANCE("cyclic_large_int", (cyclic_large<int, int>))
MC_INSTANCE("cyclic_large_size", (cyclic_large<std::size_t, std::size_t>))
MC_INSTANCE("cyclic_large_ll", (cyclic_large<long long, unsigned>))
