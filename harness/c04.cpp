// C04  rounding and snapping
// mc-flags: -O2 -fsanitize=float-cast-overflow -fno-sanitize-recover=all
// mc-assume: the C library's floor/ceil/trunc/round/fmod (correctly rounded by IEEE 754) are the reference
#include "mc.hpp"
#include <vecmath/scalar.h>
#include <vecmath/vec.h>
using mc::Ctx;
using vm::vec;

template <class T> void check_round(Ctx& c, T v) {
  CHECK(vm::floor(v) == std::floor(v), "floor(", v, ") = ", vm::floor(v));
  CHECK(vm::ceil(v) == std::ceil(v), "ceil(", v, ") = ", vm::ceil(v));
  CHECK(vm::trunc(v) == std::trunc(v), "trunc(", v, ") = ", vm::trunc(v));
  CHECK(vm::round(v) == std::round(v), "round(", v, ") = ", vm::round(v));
  CHECK(vm::round_up(v) == (v < 0 ? std::floor(v) : std::ceil(v)), "round_up(", v, ") = ", vm::round_up(v));
  CHECK(vm::round_down(v) == std::trunc(v), "round_down(", v, ") = ", vm::round_down(v));
  CHECK(vm::fract(v) == v - std::trunc(v), "fract(", v, ") = ", vm::fract(v));
}

// every exponent and sign with structured mantissas: one-bit, all-ones prefixes/suffixes, around 1/2 ulp boundaries
template <class T, class U> void exponents(Ctx& c) {
  const int EB = sizeof(T) == 4 ? 8 : 11, MB = sizeof(T) == 4 ? 23 : 52;
  static const std::vector<U> man = [] {
    const int MB = sizeof(T) == 4 ? 23 : 52;
    std::vector<U> m{0};
    const U all = (U(1) << MB) - 1;
    for (int b = 0; b < MB; ++b) {
      m.push_back(U(1) << b);
      m.push_back(all & ~((U(1) << b) - 1));
      m.push_back((U(1) << b) - 1);
      m.push_back((U(1) << b) + 1);
      m.push_back(all ^ (U(1) << b));
      m.push_back((U(3) << b) & all);
      m.push_back(((U(1) << b) | (U(1) << (MB - 1))) & all);
    }
    return m;
  }();
  const U sgn = c.choose(2), ex = c.choose((1u << EB) - 1);
  const U bits = (sgn << (EB + MB)) | (ex << MB) | c.pick(man);
  T v;
  std::memcpy(&v, &bits, sizeof v);
  NOTE("v=", v);
  check_round(c, v);
  c.op(7);
  c.state(bits);
}
MC_INSTANCE("exponents_d", (exponents<double, uint64_t>))
MC_INSTANCE("exponents_f", (exponents<float, uint32_t>))

// every float whose fraction bits matter (quick) / every finite float (thorough)
static void float_sweep(Ctx& c) {
  const uint32_t sgn = c.choose(2);
  const uint32_t ex = c.thorough() ? c.choose(255) : 100 + c.choose(60);
  const uint32_t hi = c.choose(128);
  for (uint32_t lo = 0; lo < 65536; ++lo) {
    const uint32_t bits = (sgn << 31) | (ex << 23) | (hi << 16) | lo;
    float v;
    std::memcpy(&v, &bits, 4);
    check_round(c, v);
  }
  NOTE("sign=", sgn, " exponent=", ex, " mantissa block ", hi, " (65536 values)");
  c.op(7 * 65536);
  c.state(sgn, ex, hi);
}
MC_INSTANCE("float_sweep", float_sweep)

// neighbours of integers and half-integers
template <class T> void neighbours(Ctx& c) {
  static const std::vector<double> ks = [] {
    std::vector<double> r;
    for (int i = 0; i <= 300; ++i) r.push_back(i);
    const int P = sizeof(T) == 4 ? 23 : 52;
    for (int e = 8; e <= 64; ++e)
      for (int d = -4; d <= 4; ++d) {
        const double x = std::ldexp(1.0, e) + d;
        if (e <= P + 1) r.push_back(x);
        else r.push_back(std::ldexp(1.0, e) + std::ldexp(double(d), e - P));
      }
    for (double x : {1e3, 1e4, 1e5, 1e6, 99999.0, 123456.0, 1234567.0}) r.push_back(x);
    return r;
  }();
  const double k = c.pick(ks);
  const int half = c.choose(2), sg = c.choose(2), nudge = c.range(-3, 3);
  T v = T(k) + (half ? T(0.5) : T(0));
  for (int i = 0; i < std::abs(nudge); ++i) v = std::nextafter(v, nudge < 0 ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity());
  if (sg) v = -v;
  NOTE("v=", v);
  check_round(c, v);
  // vector versions, different values in the other components
  const vec<T, 3> a(v, T(0.5), T(-7.25)), f = vm::floor(a), g = vm::ceil(a), h = vm::trunc(a), r = vm::round(a);
  CHECK(f[0] == std::floor(v) && f[1] == 0 && f[2] == -8, "vector floor ", a, f);
  CHECK(g[0] == std::ceil(v) && g[1] == 1 && g[2] == -7, "vector ceil ", a, g);
  CHECK(h[0] == std::trunc(v) && h[1] == 0 && h[2] == -7, "vector trunc ", a, h);
  CHECK(r[0] == std::round(v) && r[1] == 1 && r[2] == -7, "vector round ", a, r);
  c.op(11);
  c.state(v);
}
MC_INSTANCE("neighbours_d", (neighbours<double>))
MC_INSTANCE("neighbours_f", (neighbours<float>))

// remainder: exact where the quotient is exact, otherwise within rounding of the true remainder
template <class T> void remainders(Ctx& c) {
  static const std::vector<T> ys{T(1), T(2), T(3), T(0.5), T(0.75), T(7), T(360), T(6.283185307179586), T(1e-3), T(1024), T(0.1), T(16777216)};
  static const std::vector<T> xs = [] {
    std::vector<T> r;
    for (int i = 0; i <= 96; ++i) r.push_back(T(i) / 4);
    for (double x : {1e-6, 0.1, 0.3, 1.0 / 3, 99.99, 359.999, 360.0, 360.001, 719.0, 720.0, 1e4, 12345.678, 65536.0, 1e6, 8388607.5}) r.push_back(T(x));
    return r;
  }();
  T x = c.pick(xs), y = c.pick(ys);
  if (c.flag()) x = -x;
  if (c.flag()) y = -y;
  NOTE("x=", x, " y=", y);
  const T m = vm::mod(x, y);
  const long double ref = std::fmod((long double)x, (long double)y);
  const T q = x / y;
  const bool exact = std::fabs(x) <= T(64) && std::fabs(y) >= T(0.5) && std::floor(y * 4) == y * 4 && std::fabs(y) <= T(2048);
  const long double ulp = std::numeric_limits<T>::epsilon() * 4.0L * (std::fabs((long double)x) + std::fabs((long double)y));
  if (exact) CHECK(m == T(ref), "mod(", x, ",", y, ") = ", m, " expected ", ref);
  else {
    // the quotient may round to the next integer, which shifts the remainder by one divisor
    const long double d = std::fabs((long double)m - ref), w = std::fabs(d - std::fabs((long double)y));
    CHECK(d <= ulp || (w <= ulp && std::fabs((long double)q - std::round((long double)q)) <= 1e-6L), "mod(", x, ",", y, ") = ", m, " expected ", ref);
  }
  const vec<T, 2> v = vm::mod(vec<T, 2>(x, T(5)), vec<T, 2>(y, T(3)));
  CHECK(v[0] == m && v[1] == T(2), "vector mod");
  const vec<T, 2> fr = vm::fract(vec<T, 2>(T(-1.25), x));
  CHECK(fr[0] == T(-0.25) && fr[1] == x - std::trunc(x), "vector fract");
  c.op(3);
  c.state(x, y);
}
MC_INSTANCE("remainder_d", (remainders<double>))
MC_INSTANCE("remainder_f", (remainders<float>))

template <class T> void snapping(Ctx& c) {
  static const std::vector<double> grids{1, 2, 4, 8, 16, 32, 64, 128, 256, 0.5, 0.25, 0.125, 0.0625, 3, 5, 7, 10, 12, 48, 100, 1000, 0.1, 0.3, 0.01, 1e-3, 1.5, 1e5};
  static const std::vector<double> qs = [] { // v as a multiple of the grid
    std::vector<double> r;
    for (int i = 0; i <= 88; ++i) r.push_back(i / 8.0);
    for (double x : {1e-4, 1e-6, 1e-9, 1e-12, 0.4999, 0.5001, 0.001, 0.999, 1.4999, 1.5001, 100.5, 1000.5, 1000.25, 999.75, 4095.5, 12345.5}) r.push_back(x);
    return r;
  }();
  const T g = T(c.pick(grids));
  const double q = c.pick(qs);
  T v = T(q * (double)g);
  if (c.flag()) v = -v;
  NOTE("v=", v, " grid=", g);
  const bool dyadic = std::floor((double)g * 16) == (double)g * 16 && std::floor(q * 8) == q * 8 && q * (double)g < 65536; // everything is exact
  const long double t = (long double)v / (long double)g;
  const T s = vm::snap(v, g), sn = vm::snap(v, -g), u = vm::snapUp(v, g), d = vm::snapDown(v, g);
  const long double eps = std::numeric_limits<T>::epsilon() * 8.0L * (std::fabs((long double)v) + (long double)g);
  CHECK(s == sn, "snap depends on the sign of the grid: ", v, g, " -> ", s, sn);
  if (dyadic && std::fabs(t) < 1e6L) {
    CHECK((long double)s == g * std::round(t), "snap(", v, ",", g, ") = ", s);
    CHECK((long double)u == g * (t < 0 ? std::floor(t) : std::ceil(t)), "snapUp(", v, ",", g, ") = ", u);
    CHECK((long double)d == g * std::trunc(t), "snapDown(", v, ",", g, ") = ", d);
  }
  const long double ms = (long double)s / g, mu = (long double)u / g, md = (long double)d / g;
  const long double te = 4.0L * std::numeric_limits<T>::epsilon() * (1 + std::fmax(std::fabs(mu), std::fabs(ms)));
  CHECK(std::fabs(ms - std::round(ms)) <= te && std::fabs(mu - std::round(mu)) <= te && std::fabs(md - std::round(md)) <= te, "snap result is not a multiple of the grid: ", v, g, " -> ", s, " ", u, " ", d);
  CHECK(std::fabs((long double)s - v) <= (long double)g / 2 + eps, "snap(", v, ",", g, ") = ", s, " is not nearest");
  CHECK(std::fabs((long double)u) >= std::fabs((long double)v) - eps && std::fabs((long double)u - v) < (long double)g + eps, "snapUp(", v, ",", g, ") = ", u);
  CHECK(std::fabs((long double)d) <= std::fabs((long double)v) + eps && std::fabs((long double)d - v) < (long double)g + eps, "snapDown(", v, ",", g, ") = ", d);
  CHECK((v >= 0 ? u >= 0 : u <= 0) && (v >= 0 ? d >= 0 : d <= 0), "snap changes sign ", v, g);
  // vector versions
  const vec<T, 3> V(T(5), v, T(-2.5)), G(T(4), g, T(1));
  const auto S = vm::snap(V, G), U = vm::snapUp(V, G), D = vm::snapDown(V, G);
  CHECK(S[0] == 4 && S[1] == s && S[2] == -3, "vector snap ", V, G, S);
  CHECK(U[0] == 8 && U[1] == u && U[2] == -3, "vector snapUp ", V, G, U);
  CHECK(D[0] == 4 && D[1] == d && D[2] == -2, "vector snapDown ", V, G, D);
  c.op(7);
  c.state(v, g);
}
MC_INSTANCE("snap_d", (snapping<double>))
MC_INSTANCE("snap_f", (snapping<float>))

// exact multiples of integral and dyadic grids stay where they are, and the values between two multiples go to one of them
template <class T> void snap_multiples(Ctx& c) {
  const int g = 1 + (int)c.choose(c.tiered(256u, 2048u));
  const int e = c.range(-3, 3) * 4;
  const T grid = std::ldexp(T(g), e);
  const int n = c.tiered(256, 1024);
  for (int k = -n; k <= n; ++k) {
    const T v = grid * T(k);  // exact
    CHECK(vm::snap(v, grid) == v && vm::snapUp(v, grid) == v && vm::snapDown(v, grid) == v, "snapping the multiple ", v, " of ", grid, " gives ", vm::snap(v, grid), " ", vm::snapUp(v, grid), " ", vm::snapDown(v, grid));
    for (int q = 1; q < 8; ++q) {
      const T w = v + (k < 0 ? -1 : 1) * grid * T(q) / 8;  // exact; away from zero from v
      const T far = v + (k < 0 ? -grid : grid);
      CHECK(vm::snapDown(w, grid) == v && vm::snapUp(w, grid) == far && vm::snap(w, grid) == (q < 4 ? v : far), "snapping ", w, " to ", grid, " gives ", vm::snap(w, grid), " ", vm::snapUp(w, grid), " ", vm::snapDown(w, grid));
    }
  }
  NOTE("grid ", grid, ", multiples -", n, "..", n, " and eighths between them");
  c.op(3 * 8 * (2 * n + 1));
  c.state(g, e);
}
MC_INSTANCE("snap_multiples_d", (snap_multiples<double>))
MC_INSTANCE("snap_multiples_f", (snap_multiples<float>))

// correction to a number of decimals
template <class T> void correction(Ctx& c) {
  static const std::vector<double> ks{0, 1, 2, 3, 5, 9, 10, 11, 13, 49, 50, 99, 101, 127, 256, 999, 1001, 4095};
  const unsigned dec = c.choose(sizeof(T) == 4 ? 5 : 16);
  double m = 1;
  for (unsigned i = 0; i < dec; ++i) m *= 10;
  const double k = c.pick(ks);
  static const std::vector<double> offs{0, 0.0625, 0.125, 0.1875, 0.25, 0.3125, 0.375, 0.4375}; // in units of one step
  const double o = c.pick(offs) * (c.flag() ? -1 : 1);
  static const std::vector<double> es{0.0, 0.03125, 0.15, 0.25, 0.4, 0.5, 1.0}; // epsilon in units of one step
  const double e = c.pick(es);
  T v = T((k + o) / m);
  if (c.flag()) v = -v;
  const T eps = T(e / m);
  const long double q = std::round((long double)v * m) / m; // nearest multiple
  const long double dist = std::fabs((long double)v - q);
  NOTE("v=", v, " decimals=", dec, " epsilon=", eps);
  const T r = vm::correct(v, dec, eps);
  c.op(1);
  c.state(v, dec, eps);
  if (dec == 0) {
    const T x = dist < (long double)eps ? T(q) : v; // all quantities are exact here
    CHECK(r == x, "correct(", v, ", 0, ", eps, ") = ", r, " expected ", x);
  } else {
    const long double slack = std::numeric_limits<T>::epsilon() * 4.0L * (std::fabs((long double)v) + 1.0L / m);
    if (dist < (long double)eps - slack) CHECK(mc::close(r, q, std::numeric_limits<T>::epsilon() * 2.0L, std::fabs(q)), "correct(", v, ", ", dec, ", ", eps, ") = ", r, " expected ", q);
    else if (dist > (long double)eps + slack) CHECK(r == v, "correct(", v, ", ", dec, ", ", eps, ") = ", r, " moved a value that is not within epsilon");
    else CHECK(r == v || mc::close(r, q, std::numeric_limits<T>::epsilon() * 2.0L, std::fabs(q)), "correct(", v, ", ", dec, ", ", eps, ") = ", r);
  }
  const vec<T, 3> V(v, T(1.0625), T(-3));
  const auto R = vm::correct(V, dec, eps);
  CHECK(R[0] == r && R[1] == vm::correct(T(1.0625), dec, eps) && R[2] == T(-3), "vector correct ", V, R);
  const auto R1 = vm::correct(vm::vec<T, 1>{v}, dec, eps);
  const auto R2 = vm::correct(vm::vec<T, 2>(T(-3), v), dec, eps);
  const auto R4 = vm::correct(vm::vec<T, 4>(T(2), v, T(1.0625), v), dec, eps);
  CHECK(R1[0] == r && R2[0] == T(-3) && R2[1] == r && R4[0] == T(2) && R4[1] == r && R4[2] == R[1] && R4[3] == r, "vector correct ", v, " ", dec, " ", eps, ": ", R1, R2, R4);
  if (dec == 0) {
    const T dflt = vm::correct(v);
    CHECK(dflt == (dist < 0.001L ? T(q) : v), "correct(", v, ") with defaults = ", dflt);
  }
  c.op(2);
}
MC_INSTANCE("correct_d", (correction<double>))
MC_INSTANCE("correct_f", (correction<float>))

// correction with the default epsilon around it, and huge values
template <class T> void correction_default(Ctx& c) {
  static const std::vector<double> ks{0, 1, 2, 17, 100, 255, -1, -2, -64};
  static const std::vector<double> os{0, 0.0009, 0.00095, 0.00105, 0.0011, 0.01, 0.3, 0.499, 1e-5, 1e-4, 5e-4};
  const double k = c.pick(ks), o = c.pick(os) * (c.flag() ? -1 : 1);
  const T v = T(k + o);
  const T r = vm::correct(v);
  const long double q = std::round((long double)v), d = std::fabs((long double)v - q);
  NOTE("v=", v);
  if (d < 0.00099L) CHECK(r == T(q), "correct(", v, ") = ", r);
  if (d > 0.00101L) CHECK(r == v, "correct(", v, ") = ", r);
  c.op(1);
  c.state(v);
}
MC_INSTANCE("correct_default_d", (correction_default<double>))
MC_INSTANCE("correct_default_f", (correction_default<float>))

template <class T> void huge(Ctx& c) {
  const int e = c.range(40, sizeof(T) == 4 ? 127 : 1023);
  T v = std::ldexp(T(1.5), e - (e == (sizeof(T) == 4 ? 127 : 1023) ? 1 : 0));
  if (c.flag()) v = -v;
  NOTE("v=", v);
  const bool integral = e > (sizeof(T) == 4 ? 24 : 53);
  if (integral) {
    CHECK(vm::correct(v) == v && vm::correct(v, 2) == v, "correct(", v, ") = ", vm::correct(v), " / ", vm::correct(v, 2));
    CHECK(vm::snap(v, T(1)) == v && vm::snapUp(v, T(1)) == v && vm::snapDown(v, T(1)) == v, "snap(", v, ", 1)");
    CHECK(vm::is_integral(vec<T, 2>(T(1), v)), "is_integral(", v, ")");
    c.op(6);
  }
  const T m = vm::mod(v, std::fabs(v));
  CHECK(m == 0, "mod(v, |v|) for v = ", v, " is ", m);
  c.op(1);
  c.state(v);
}
MC_INSTANCE("huge_d", (huge<double>))
MC_INSTANCE("huge_f", (huge<float>))

// values far from zero on dyadic grids: everything is exact as long as the quotient has spare mantissa bits
template <class T> void snap_far(Ctx& c) {
  const int P = sizeof(T) == 4 ? 24 : 53;
  const int g = c.pick(std::vector<int>{1, 2, 8, 3, 5, 25, 127});
  const int e = c.range(-20, 20);
  const int up = c.range(1, P - 11); // magnitude of the quotient
  const long long off = c.range(-3, 3);
  const long long k = (1LL << up) + off;
  if (k <= 0) return c.skip();
  const int q = c.range(0, 7);
  const bool neg = c.flag();
  const T grid = std::ldexp(T(g), e);
  const long double lk = (long double)k + q / 8.0L;
  const T v = T((neg ? -lk : lk) * g * std::ldexp(1.0L, e));
  if ((long double)v != (neg ? -lk : lk) * g * std::ldexp(1.0L, e)) return c.skip();
  NOTE("v=", v, " grid=", grid);
  const T lo = T((neg ? -1 : 1) * (long double)k * grid), hi = T((neg ? -1 : 1) * ((long double)k + 1) * grid);
  const T u = vm::snapUp(v, grid), d = vm::snapDown(v, grid), n = vm::snap(v, grid);
  CHECK(d == lo, "snapDown(", v, ",", grid, ") = ", d, ", should be ", lo);
  CHECK(u == (q == 0 ? lo : hi), "snapUp(", v, ",", grid, ") = ", u);
  CHECK(n == (q < 4 ? lo : hi), "snap(", v, ",", grid, ") = ", n);
  c.op(3);
  c.state(v, grid);
}
MC_INSTANCE("snap_far_d", (snap_far<double>))
MC_INSTANCE("snap_far_f", (snap_far<float>))

// vector versions of every size: each position
template <class T, std::size_t S> void vectors(Ctx& c) {
  static const std::vector<T> V{T(0), T(0.5), T(-0.5), T(2.5), T(-2.5), T(7.25), T(-7.75), T(1e10), T(-0.001), T(0.9999), T(3), T(-4)};
  vec<T, S> a;
  for (std::size_t i = 0; i < S; ++i) a[i] = T(int(i)) * T(1.25) - T(2);
  const auto i1 = c.choose(S), i2 = c.choose(S);
  a[i1] = c.pick(V), a[i2] = c.pick(V);
  static const std::vector<T> G{T(1), T(4), T(0.5), T(3)};
  vec<T, S> g;
  const auto rot = c.choose(4);
  for (std::size_t i = 0; i < S; ++i) g[i] = G[(i + rot) % 4];
  NOTE("a=", a, " g=", g);
  const auto f = vm::floor(a), ce = vm::ceil(a), t = vm::trunc(a), r = vm::round(a), fr = vm::fract(a), sn = vm::snap(a, g), su = vm::snapUp(a, g), sd = vm::snapDown(a, g), m = vm::mod(a, g), co = vm::correct(a), c2 = vm::correct(a, 1, T(0.04)), s1 = vm::snap(a, g);
  for (std::size_t i = 0; i < S; ++i) {
    CHECK(f[i] == std::floor(a[i]) && ce[i] == std::ceil(a[i]) && t[i] == std::trunc(a[i]) && r[i] == std::round(a[i]) && fr[i] == a[i] - std::trunc(a[i]), "rounding of ", a, " component ", i);
    CHECK(sn[i] == vm::snap(a[i], g[i]) && su[i] == vm::snapUp(a[i], g[i]) && sd[i] == vm::snapDown(a[i], g[i]) && s1[i] == sn[i], "snapping of ", a, " to ", g, " component ", i);
    CHECK(m[i] == vm::mod(a[i], g[i]), "mod of ", a, " by ", g, " component ", i);
    CHECK(co[i] == vm::correct(a[i]) && c2[i] == vm::correct(a[i], 1, T(0.04)), "correct of ", a, " component ", i);
  }
  c.op(14);
  c.state(S, a, rot);
}
MC_INSTANCE("vectors_d1", (vectors<double, 1>))
MC_INSTANCE("vectors_d2", (vectors<double, 2>))
MC_INSTANCE("vectors_d3", (vectors<double, 3>))
MC_INSTANCE("vectors_f4", (vectors<float, 4>))
MC_INSTANCE("vectors_d5", (vectors<double, 5>))
MC_INSTANCE("vectors_d9", (vectors<double, 9>))
