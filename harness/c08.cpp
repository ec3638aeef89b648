// C08  polynomial solvers return exactly the real roots
// mc-flags: -O2 ubsan
// mc-assume: polynomials are the products of linear factors with lattice roots and quadratic factors with lattice complex roots, so real roots are either exactly repeated or at least half a lattice step apart; the epsilon lies between the rounding noise and the smallest nonzero discriminant of the lattice
#include "mc.hpp"
#include <vecmath/scalar.h>
#include <algorithm>
using mc::Ctx;

// ascending coefficients
using Poly = std::vector<long double>;
static Poly mul(const Poly& a, const Poly& b) {
  Poly r(a.size() + b.size() - 1, 0.0L);
  for (std::size_t i = 0; i < a.size(); ++i)
    for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
  return r;
}
struct Inst {
  Poly p{1.0L};
  std::vector<long double> real; // with multiplicity
  void add_real(long double r) { p = mul(p, {-r, 1.0L}), real.push_back(r); }
  void add_pair(long double re, long double im) { p = mul(p, {re * re + im * im, -2 * re, 1.0L}); }
  std::vector<long double> distinct() const {
    auto d = real;
    std::sort(d.begin(), d.end());
    d.erase(std::unique(d.begin(), d.end()), d.end());
    return d;
  }
};

template <class T> void verify(Ctx& c, const Inst& in, std::size_t num, const std::vector<T>& sol, long double tol, bool once) {
  const auto want = in.distinct();
  CHECK(num <= sol.size(), "impossible number of solutions ", num);
  for (std::size_t i = 0; i < sol.size(); ++i) CHECK((i < num) != std::isnan(sol[i]), "slot ", i, " of ", num, " reported solutions is ", sol[i], "; real roots ", in.real);
  std::vector<int> hit(want.size(), 0);
  for (std::size_t i = 0; i < num; ++i) {
    bool any = false;
    for (std::size_t k = 0; k < want.size(); ++k)
      if (std::fabs((long double)sol[i] - want[k]) <= tol * std::fmax(1.0L, std::fabs(want[k]))) any = true, ++hit[k];
    CHECK(any, "reported solution ", sol[i], " is not a root; real roots ", in.real);
  }
  for (std::size_t k = 0; k < want.size(); ++k) {
    CHECK(hit[k] > 0, "root ", want[k], " is not reported; reported ", sol);
    if (once) CHECK(hit[k] == 1, "root ", want[k], " is reported more than once: ", sol);
  }
}

template <class T> T coef(Ctx& c, long double v) {
  const T t = T(v);
  if ((long double)t != v) c.skip(); // the alphabet is chosen so that coefficients are exact
  return t;
}

template <class T> void quadratic(Ctx& c) {
  static const std::vector<long double> A{1, -1, 2, -0.5, 8};
  static const std::vector<long double> SC{1, 0.25, 4, 32};
  const long double lead = c.pick(A), sc = c.pick(SC);
  Inst in;
  const int N = c.tiered(16, 40);
  if (c.flag()) {
    const int a = c.range(-N, N), b = c.range(a, N);
    in.add_real(a * sc), in.add_real(b * sc);
  } else {
    const int re = c.range(-N, N), im = c.range(1, N);
    in.add_pair(re * sc, im * sc);
  }
  const T a = coef<T>(c, lead * in.p[2]), b = coef<T>(c, lead * in.p[1]), k = coef<T>(c, lead * in.p[0]);
  if (c.is_skipped()) return;
  static const std::vector<long double> E{1e-3L, 1e-6L, 0.0L, 0.05L};
  const T eps = T(c.pick(E) * sc * sc);
  NOTE("a=", a, " b=", b, " c=", k, " eps=", eps);
  const auto [n, x, y] = vm::solve_quadratic<T>(a, b, k, eps);
  c.op();
  verify<T>(c, in, n, {x, y}, 16 * N * std::numeric_limits<T>::epsilon(), true);
  c.state(a, b, k);
}
MC_INSTANCE("quadratic_d", (quadratic<double>))
MC_INSTANCE("quadratic_f", (quadratic<float>))

template <class T> void cubic(Ctx& c) {
  static const std::vector<long double> A{1, -1, 2, -0.5};
  const long double lead = c.pick(A);
  const long double sc = sizeof(T) == 4 ? 1.0L : c.flag() ? 0.5L : 1.0L;
  const int N = sizeof(T) == 4 ? 2 : c.tiered(12, 16);
  Inst in;
  if (c.flag()) {
    const int x = c.range(-N, N), y = c.range(x, N), z = c.range(y, N);
    in.add_real(x * sc), in.add_real(y * sc), in.add_real(z * sc);
  } else {
    const int x = c.range(-N, N), re = c.range(-N, N), im = c.range(1, N);
    in.add_real(x * sc), in.add_pair(re * sc, im * sc);
  }
  const T k3 = coef<T>(c, lead * in.p[3]), k2 = coef<T>(c, lead * in.p[2]), k1 = coef<T>(c, lead * in.p[1]), k0 = coef<T>(c, lead * in.p[0]);
  if (c.is_skipped()) return;
  static const std::vector<long double> ED{1e-8L, 1e-6L, 1e-5L}, EF{1e-3L};
  const T eps = sizeof(T) == 4 ? T(1e-3) : T(c.pick(ED));
  NOTE("coefficients ", k3, " ", k2, " ", k1, " ", k0, " eps=", eps);
  const auto [n, x, y, z] = vm::solve_cubic<T>(k3, k2, k1, k0, eps);
  c.op();
  verify<T>(c, in, n, {x, y, z}, sizeof(T) == 4 ? 1e-3L : 1e-7L, true);
  c.state(k3, k2, k1, k0);
}
MC_INSTANCE("cubic_d", (cubic<double>))
MC_INSTANCE("cubic_f", (cubic<float>))

template <class T> void quartic(Ctx& c) {
  static const std::vector<long double> A{1, -1, 2, -0.5};
  const long double lead = c.pick(A);
  const int N = sizeof(T) == 4 ? 1 : c.tiered(6, 9);
  Inst in;
  switch (c.choose(3)) {
    case 0: {
      const int x = c.range(-N, N), y = c.range(x, N), z = c.range(y, N), w = c.range(z, N);
      in.add_real(x), in.add_real(y), in.add_real(z), in.add_real(w);
      break;
    }
    case 1: {
      const int x = c.range(-N, N), y = c.range(x, N), re = c.range(-N, N), im = c.range(1, N);
      in.add_real(x), in.add_real(y), in.add_pair(re, im);
      break;
    }
    default: {
      const int re = c.range(-N, N), im = c.range(1, N), re2 = c.range(-N, N), im2 = c.range(1, N);
      in.add_pair(re, im), in.add_pair(re2, im2);
    }
  }
  const T k4 = coef<T>(c, lead * in.p[4]), k3 = coef<T>(c, lead * in.p[3]), k2 = coef<T>(c, lead * in.p[2]), k1 = coef<T>(c, lead * in.p[1]), k0 = coef<T>(c, lead * in.p[0]);
  if (c.is_skipped()) return;
  static const std::vector<long double> ED{1e-6L, 1e-5L}, EF{1e-4L};
  const auto& E = sizeof(T) == 4 ? EF : ED;
  const T eps = T(c.pick(E));
  NOTE("coefficients ", k4, " ", k3, " ", k2, " ", k1, " ", k0, " eps=", eps, " real roots ", in.real);
  const auto [n, x, y, z, w] = vm::solve_quartic<T>(k4, k3, k2, k1, k0, eps);
  c.op();
  verify<T>(c, in, n, {x, y, z, w}, sizeof(T) == 4 ? 1e-2L : 1e-5L, false);
  c.state(k4, k3, k2, k1, k0);
}
MC_INSTANCE("quartic_d", (quartic<double>))
MC_INSTANCE("quartic_f", (quartic<float>))

// --- wider alphabets ----------------------------------------------------------------------------------
// roots of very different magnitudes; the error is relative to the larger root
template <class T> void quadratic_wide(Ctx& c) {
  static const std::vector<long double> M{0, 1, 0.25L, 3, 17, 96, 1024, 5000, 0.0078125L};
  static const std::vector<long double> A{1, -1, 4096, 0.000244140625L, -3, 5};
  static const std::vector<long double> E{1e-3L, 1e-7L, 0.0L};
  const long double lead = c.pick(A);
  const long double x = c.pick(M) * (c.flag() ? -1 : 1), y = c.pick(M) * (c.flag() ? -1 : 1);
  Inst in;
  const bool real = c.flag();
  if (real) in.add_real(x), in.add_real(y);
  else if (y == 0) return c.skip();
  else in.add_pair(x, y);
  const T a = coef<T>(c, lead * in.p[2]), b = coef<T>(c, lead * in.p[1]), k = coef<T>(c, lead * in.p[0]);
  if (c.is_skipped()) return;
  const T eps = T(c.pick(E));
  const long double m = std::fmax(std::fabs(x), std::fabs(y)), u = std::numeric_limits<T>::epsilon();
  const long double D = real ? (x - y) * (x - y) / 4 : -y * y, noise = 8 * u * (1 + 4 * m * m);
  if (D != 0 && (std::fabs(D) < 1.5L * eps + noise)) return c.skip(); // counts as repeated
  if (D == 0 && (lead == -3 || lead == 5) && eps < noise) return c.skip();
  NOTE("a=", a, " b=", b, " c=", k, " eps=", eps);
  const auto [n, s0, s1] = vm::solve_quadratic<T>(a, b, k, eps);
  c.op();
  const auto want = in.distinct();
  const T sol[2] = {s0, s1};
  CHECK(n == want.size(), n, " solutions, real roots ", in.real);
  for (std::size_t i = 0; i < 2; ++i) CHECK((i < n) != std::isnan(sol[i]), "slot ", i, " is ", sol[i]);
  for (long double w : want) {
    int hit = 0;
    for (std::size_t i = 0; i < n; ++i) hit += std::fabs(sol[i] - w) <= 16 * u * (m + 1e-3L);
    CHECK(hit == 1, "root ", w, " is reported ", hit, " times: ", s0, " ", s1);
  }
  c.state(a, b, k, eps);
}
MC_INSTANCE("quadratic_wide_d", (quadratic_wide<double>))
MC_INSTANCE("quadratic_wide_f", (quadratic_wide<float>))

// discriminants just above and below the epsilon
template <class T> void quadratic_near(Ctx& c) {
  static const std::vector<long double> F{0, 0.25L, 0.75L, 1.25L, 4, 100, -0.25L, -0.75L, -1.25L, -4, -100};
  static const std::vector<long double> E{0.0009765625L, 0.0625L, 4};
  static const std::vector<long double> P{0, 1, -1, 2.5L, -8};
  static const std::vector<long double> A{1, -2, 0.25L};
  const long double e = c.pick(E), D = c.pick(F) * e, p = c.pick(P), lead = c.pick(A);
  const T a = T(lead), b = T(2 * p * lead), k = T((p * p - D) * lead);
  NOTE("a=", a, " b=", b, " c=", k, " eps=", e, " D=", D);
  const auto [n, x, y] = vm::solve_quadratic<T>(a, b, k, T(e));
  c.op();
  if (std::fabs(D) <= e) {
    CHECK(n == 1 && std::fabs(x + p) <= 8 * std::numeric_limits<T>::epsilon() * (1 + std::fabs(p)) && std::isnan(y), n, " solutions ", x, " ", y, ", should be ", -p);
  } else if (D < 0) {
    CHECK(n == 0 && std::isnan(x) && std::isnan(y), n, " solutions");
  } else {
    const long double r = std::sqrt(D), t = 64 * std::numeric_limits<T>::epsilon() * (1 + std::fabs(p) + r) * (1 + 1 / r);
    CHECK(n == 2 && std::fabs(std::fmax(x, y) - (r - p)) <= t && std::fabs(std::fmin(x, y) - (-r - p)) <= t, n, " solutions ", x, " ", y, ", should be ", r - p, " ", -r - p);
  }
  c.state(a, b, k, T(e));
}
MC_INSTANCE("quadratic_near_d", (quadratic_near<double>))
MC_INSTANCE("quadratic_near_f", (quadratic_near<float>))

// cubics and quartics of other magnitudes, leading coefficients and fractional roots
template <class T> void cubic_wide(Ctx& c) {
  static const std::vector<long double> A{1, 1024, -0.0009765625L, 3, -7, 0.1L};
  static const std::vector<long double> R{0, 1, -1, 0.3L, -0.7L, 2, -3.1L, 6, -9};
  const long double lead = c.pick(A);
  Inst in;
  if (c.flag()) {
    const std::size_t n = R.size(), x = c.choose(uint32_t(n)), y = c.choose(uint32_t(n)), z = c.choose(uint32_t(n));
    if (x > y || y > z) return c.skip();
    in.add_real(R[x]), in.add_real(R[y]), in.add_real(R[z]);
  } else {
    const long double x = c.pick(R), re = c.pick(R), im = c.pick(R);
    if (im <= 0) return c.skip();
    in.add_real(x), in.add_pair(re, im);
  }
  const T k3 = T(lead * in.p[3]), k2 = T(lead * in.p[2]), k1 = T(lead * in.p[1]), k0 = T(lead * in.p[0]);
  const T eps = T(c.flag() ? 1e-6L : 1e-7L);
  NOTE("coefficients ", k3, " ", k2, " ", k1, " ", k0, " eps=", eps);
  const auto [n, x, y, z] = vm::solve_cubic<T>(k3, k2, k1, k0, eps);
  c.op();
  verify<T>(c, in, n, {x, y, z}, 1e-5L, true);
  c.state(k3, k2, k1, k0, eps);
}
MC_INSTANCE("cubic_wide_d", (cubic_wide<double>))
template <class T> void quartic_wide(Ctx& c) {
  static const std::vector<long double> A{1, 1024, -0.0009765625L, 3, -0.1L};
  static const std::vector<long double> R{0, 1.3L, -1, 2.6L, -2.7L, 4, -4.4L, 5};
  const long double lead = c.pick(A);
  Inst in;
  const uint32_t n = uint32_t(R.size());
  switch (c.choose(3)) {
    case 0: {
      const std::size_t x = c.choose(n), y = c.choose(n), z = c.choose(n), w = c.choose(n);
      if (x > y || y > z || z > w) return c.skip();
      in.add_real(R[x]), in.add_real(R[y]), in.add_real(R[z]), in.add_real(R[w]);
      break;
    }
    case 1: {
      const std::size_t x = c.choose(n), y = c.choose(n);
      const long double re = c.pick(R), im = c.pick(R);
      if (x > y || im <= 0) return c.skip();
      in.add_real(R[x]), in.add_real(R[y]), in.add_pair(re, im);
      break;
    }
    default: {
      const long double re = c.pick(R), im = c.pick(R), re2 = c.pick(R), im2 = c.pick(R);
      if (im <= 0 || im2 <= 0) return c.skip();
      in.add_pair(re, im), in.add_pair(re2, im2);
    }
  }
  const T k4 = T(lead * in.p[4]), k3 = T(lead * in.p[3]), k2 = T(lead * in.p[2]), k1 = T(lead * in.p[1]), k0 = T(lead * in.p[0]);
  const T eps = T(c.flag() ? 1e-6L : 1e-7L);
  NOTE("coefficients ", k4, " ", k3, " ", k2, " ", k1, " ", k0, " eps=", eps, " real roots ", in.real);
  const auto [m, x, y, z, w] = vm::solve_quartic<T>(k4, k3, k2, k1, k0, eps);
  c.op();
  verify<T>(c, in, m, {x, y, z, w}, 2e-3L, false);
  c.state(k4, k3, k2, k1, k0, eps);
}
MC_INSTANCE("quartic_wide_d", (quartic_wide<double>))

// cubics and quartics with large roots: the lattice scaled by a power of two, the epsilon above the rounding noise
static void scaled(Ctx& c) {
  static const std::vector<long double> A{1, -2}, SC{16, 64};
  const long double lead = c.pick(A), sc = c.pick(SC);
  const bool four = c.flag();
  const int N = c.tiered(3, 5), pairs = c.range(0, four ? 2 : 1);
  Inst in;
  int lo = -N;
  for (int i = 0; i < (four ? 4 : 3) - 2 * pairs; ++i) in.add_real((lo = c.range(lo, N)) * sc);
  for (int i = 0; i < pairs; ++i) {
    const int re = c.range(-N, N), im = c.range(1, N);
    in.add_pair(re * sc, im * sc);
  }
  double k[5] = {};
  for (std::size_t i = 0; i < in.p.size(); ++i) k[i] = coef<double>(c, lead * in.p[i]);
  if (c.is_skipped()) return;
  const double eps = four ? 1e-3 : sc > 16 ? 10 : 1e-2;
  NOTE("coefficients ", k[4], " ", k[3], " ", k[2], " ", k[1], " ", k[0], " eps=", eps, " real roots ", in.real);
  if (four) {
    const auto [n, x, y, z, w] = vm::solve_quartic<double>(k[4], k[3], k[2], k[1], k[0], eps);
    verify<double>(c, in, n, {x, y, z, w}, 1e-5L, false);
  } else {
    const auto [n, x, y, z] = vm::solve_cubic<double>(k[3], k[2], k[1], k[0], eps);
    verify<double>(c, in, n, {x, y, z}, 1e-7L, true);
  }
  c.op();
  c.state(k[4], k[3], k[2], k[1], k[0]);
}
MC_INSTANCE("scaled_d", scaled)
